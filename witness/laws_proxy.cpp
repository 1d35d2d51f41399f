// C02: an arrow_proxy (and what is built on it) releases exactly what it owns, exactly once.
#include "arrow_model.hpp"
using namespace fmt;

namespace
{
    // a live int32 array of another library, whose content is designated by pa and ps
    void ints(ArrowArray* a, ArrowSchema* s, void* pa, void* ps)
    {
        leaf(a, s, "i");
        foreign(a, s);
        a->private_data = pa;
        s->private_data = ps;
        law::track(pa);
        law::track(ps);
    }
    void gone(void* pa, void* ps)
    {
        law::prove("array released once", law::releases(pa) == 1);
        law::prove("schema released once", law::releases(ps) == 1);
    }
    void kept(void* pa, void* ps)
    {
        law::prove("array not released", law::releases(pa) == 0);
        law::prove("schema not released", law::releases(ps) == 0);
    }
}

void law_C02_adopt(ArrowArray* a, ArrowSchema* s, int* pa, int* ps)
{
    ints(a, s, pa, ps);
    {
        arrow_proxy p(std::move(*a), std::move(*s));
        law::prove("source array emptied", a->release == nullptr);
        law::prove("source schema emptied", s->release == nullptr);
        law::prove("owns array", p.owns_array());
        law::prove("owns schema", p.owns_schema());
        law::prove("array adopted", p.array().release == &foreign_release_array && p.array().private_data == pa);
        law::prove("schema adopted", p.schema().release == &foreign_release_schema && p.schema().private_data == ps);
        kept(pa, ps);
    }
    gone(pa, ps);
}
void law_C02_refer(ArrowArray* a, ArrowSchema* s, int* pa, int* ps)
{
    ints(a, s, pa, ps);
    {
        arrow_proxy p(a, s);
        law::prove("does not own array", !p.owns_array());
        law::prove("does not own schema", !p.owns_schema());
    }
    kept(pa, ps);
    law::prove("array still live", a->release == &foreign_release_array);
    law::prove("schema still live", s->release == &foreign_release_schema);
}
void law_C02_mixed(ArrowArray* a, ArrowSchema* s, int* pa, int* ps)
{
    ints(a, s, pa, ps);
    {
        arrow_proxy p(std::move(*a), s);
        law::prove("owns array", p.owns_array());
        law::prove("does not own schema", !p.owns_schema());
        law::prove("source array emptied", a->release == nullptr);
    }
    law::prove("array released once", law::releases(pa) == 1);
    law::prove("schema not released", law::releases(ps) == 0);
    law::prove("schema still live", s->release == &foreign_release_schema);
}
void law_C02_copy(ArrowArray* a, ArrowSchema* s, int* pa, int* ps)
{
    ints(a, s, pa, ps);
    {
        arrow_proxy p(std::move(*a), std::move(*s));
        {
            arrow_proxy q(p);
            law::prove("copy owns array", q.owns_array());
            law::prove("copy owns schema", q.owns_schema());
            law::prove("copy has its own array content", q.array().private_data != pa);
            law::prove("copy has its own schema content", q.schema().private_data != ps);
            law::prove("copy releases itself", q.array().release == &release_arrow_array);
            law::prove("copied schema releases itself", q.schema().release == &release_arrow_schema);
        }
        kept(pa, ps);
        law::prove("original live", p.array().release == &foreign_release_array);
        law::prove("original schema live", p.schema().release == &foreign_release_schema);
    }
    gone(pa, ps);
}
void law_C02_copy_freed(ArrowArray* a, ArrowSchema* s, int* pa, int* ps)
{
    ints(a, s, pa, ps);
    arrow_proxy p(a, s);
    void* ma = nullptr;
    void* ms = nullptr;
    {
        arrow_proxy q(p);
        ma = q.array().private_data;
        ms = q.schema().private_data;
        law::track(ma);
        law::track(ms);
    }
    law::prove("content of the copy freed once", law::deletes(ma) == 1);
    law::prove("content of the copied schema freed once", law::deletes(ms) == 1);
    kept(pa, ps);
}
void law_C02_move(ArrowArray* a, ArrowSchema* s, int* pa, int* ps)
{
    ints(a, s, pa, ps);
    {
        arrow_proxy p(std::move(*a), std::move(*s));
        {
            arrow_proxy q(std::move(p));
            law::prove("target owns array", q.owns_array());
            law::prove("target owns schema", q.owns_schema());
            law::prove("array moved", q.array().private_data == pa);
            law::prove("schema moved", q.schema().private_data == ps);
            kept(pa, ps);
        }
        gone(pa, ps);
    }
    law::prove("array not released again", law::releases(pa) == 1);
    law::prove("schema not released again", law::releases(ps) == 1);
}
void law_C02_move_reference(ArrowArray* a, ArrowSchema* s, int* pa, int* ps)
{
    ints(a, s, pa, ps);
    {
        arrow_proxy p(a, s);
        arrow_proxy q(std::move(p));
        law::prove("target does not own array", !q.owns_array());
        law::prove("target does not own schema", !q.owns_schema());
        law::prove("target refers to the array", &q.array() == a);
        law::prove("target refers to the schema", &q.schema() == s);
    }
    kept(pa, ps);
}
void law_C02_move_assign(ArrowArray* a, ArrowSchema* s, int* pa, int* ps, ArrowArray* b, ArrowSchema* t, int* pb, int* pt)
{
    ints(a, s, pa, ps);
    ints(b, t, pb, pt);
    {
        arrow_proxy p(std::move(*a), std::move(*s));
        {
            arrow_proxy q(std::move(*b), std::move(*t));
            p = std::move(q);
            law::prove("array assigned", p.array().private_data == pb);
            law::prove("schema assigned", p.schema().private_data == pt);
            kept(pb, pt);
        }
        kept(pb, pt);
        law::prove("old array released once", law::releases(pa) == 1);
        law::prove("old schema released once", law::releases(ps) == 1);
    }
    gone(pa, ps);
    gone(pb, pt);
}
void law_C02_move_assign_reference(ArrowArray* a, ArrowSchema* s, int* pa, int* ps, ArrowArray* b, ArrowSchema* t, int* pb, int* pt)
{
    ints(a, s, pa, ps);
    ints(b, t, pb, pt);
    {
        arrow_proxy p(std::move(*a), std::move(*s));
        {
            arrow_proxy q(b, t);
            p = std::move(q);
            law::prove("refers to the array", &p.array() == b);
            law::prove("refers to the schema", &p.schema() == t);
        }
        gone(pa, ps);
    }
    law::prove("array not released again", law::releases(pa) == 1);
    law::prove("schema not released again", law::releases(ps) == 1);
    kept(pb, pt);
}
void law_C02_copy_assign(ArrowArray* a, ArrowSchema* s, int* pa, int* ps, ArrowArray* b, ArrowSchema* t, int* pb, int* pt)
{
    ints(a, s, pa, ps);
    ints(b, t, pb, pt);
    {
        arrow_proxy p(std::move(*a), std::move(*s));
        {
            arrow_proxy q(std::move(*b), std::move(*t));
            p = q;
            law::prove("old array released once", law::releases(pa) == 1);
            law::prove("old schema released once", law::releases(ps) == 1);
            law::prove("has its own array content", p.array().private_data != pb);
            law::prove("has its own schema content", p.schema().private_data != pt);
            law::prove("owns array", p.owns_array());
            law::prove("owns schema", p.owns_schema());
            kept(pb, pt);
        }
        gone(pb, pt);
    }
    gone(pa, ps);
    gone(pb, pt);
}
void law_C02_self_assign(ArrowArray* a, ArrowSchema* s, int* pa, int* ps)
{
    ints(a, s, pa, ps);
    {
        arrow_proxy p(std::move(*a), std::move(*s));
        arrow_proxy& r = p;
        p = r;
        law::prove("keeps its array", p.array().private_data == pa);
        law::prove("keeps its schema", p.schema().private_data == ps);
        kept(pa, ps);
    }
    gone(pa, ps);
}
void law_C02_self_move(ArrowArray* a, ArrowSchema* s, int* pa, int* ps)
{
    ints(a, s, pa, ps);
    {
        arrow_proxy p(std::move(*a), std::move(*s));
        arrow_proxy& r = p;
        p = std::move(r);
        kept(pa, ps);
        law::prove("keeps its array", p.array().private_data == pa);
        law::prove("keeps its schema", p.schema().private_data == ps);
    }
    gone(pa, ps);
}
void law_C02_view(ArrowArray* a, ArrowSchema* s, int* pa, int* ps)
{
    ints(a, s, pa, ps);
    {
        arrow_proxy p(std::move(*a), std::move(*s));
        {
            arrow_proxy v = p.view();
            law::prove("does not own array", !v.owns_array());
            law::prove("does not own schema", !v.owns_schema());
            law::prove("refers to the array", &v.array() == &p.array());
            law::prove("refers to the schema", &v.schema() == &p.schema());
        }
        kept(pa, ps);
    }
    gone(pa, ps);
}
void law_C02_slice_view(ArrowArray* a, ArrowSchema* s, int* pa, int* ps, size_t b, size_t e)
{
    ints(a, s, pa, ps);
    law::require(b <= e && e <= len(a));
    {
        arrow_proxy p(std::move(*a), std::move(*s));
        {
            arrow_proxy v = p.slice_view(b, e);
            law::prove("source live", p.array().release == &foreign_release_array);
        }
        kept(pa, ps);
    }
    gone(pa, ps);
}
void law_C02_slice(ArrowArray* a, ArrowSchema* s, int* pa, int* ps, size_t b, size_t e)
{
    ints(a, s, pa, ps);
    law::require(b <= e && e <= len(a));
    {
        arrow_proxy p(std::move(*a), std::move(*s));
        {
            arrow_proxy v = p.slice(b, e);
            law::prove("slice has its own content", v.array().private_data != pa);
        }
        kept(pa, ps);
    }
    gone(pa, ps);
}
void law_C02_extract(ArrowArray* a, ArrowSchema* s, int* pa, int* ps)
{
    ints(a, s, pa, ps);
    ArrowArray x;
    ArrowSchema y;
    {
        arrow_proxy p(std::move(*a), std::move(*s));
        x = p.extract_array();
        y = p.extract_schema();
    }
    kept(pa, ps);
    law::prove("array handed over", x.release == &foreign_release_array && x.private_data == pa);
    law::prove("schema handed over", y.release == &foreign_release_schema && y.private_data == ps);
}
void law_C02_extract_array_only(ArrowArray* a, ArrowSchema* s, int* pa, int* ps)
{
    ints(a, s, pa, ps);
    ArrowArray x;
    {
        arrow_proxy p(std::move(*a), std::move(*s));
        x = p.extract_array();
    }
    law::prove("array not released", law::releases(pa) == 0);
    law::prove("schema released once", law::releases(ps) == 1);
    law::prove("array handed over", x.release == &foreign_release_array && x.private_data == pa);
}
void law_C02_extract_schema_only(ArrowArray* a, ArrowSchema* s, int* pa, int* ps)
{
    ints(a, s, pa, ps);
    ArrowSchema y;
    {
        arrow_proxy p(std::move(*a), std::move(*s));
        y = p.extract_schema();
    }
    law::prove("schema not released", law::releases(ps) == 0);
    law::prove("array released once", law::releases(pa) == 1);
    law::prove("schema handed over", y.release == &foreign_release_schema && y.private_data == ps);
}
void law_C02_extract_reference(ArrowArray* a, ArrowSchema* s, int* pa, int* ps)
{
    ints(a, s, pa, ps);
    arrow_proxy p(a, s);
    ArrowArray x = p.extract_array();
    law::unreachable("what is only referred to is not extracted");
}
void law_C02_extract_schema_reference(ArrowArray* a, ArrowSchema* s, int* pa, int* ps)
{
    ints(a, s, pa, ps);
    arrow_proxy p(a, s);
    ArrowSchema x = p.extract_schema();
    law::unreachable("what is only referred to is not extracted");
}
// children and dictionaries belong to their parent: the proxies on them release nothing
void law_C02_children(ArrowArray* a, ArrowSchema* s, ArrowArray* c, ArrowSchema* t, int* pa, int* ps, int* pc, int* pt)
{
    ints(c, t, pc, pt);
    nested(a, s, "+s");
    a->private_data = pa;
    s->private_data = ps;
    law::track(pa);
    law::track(ps);
    a->n_children = 1;
    s->n_children = 1;
    a->children[0] = c;
    s->children[0] = t;
    {
        arrow_proxy p(std::move(*a), std::move(*s));
        law::prove("child refers to the array", &p.children()[0].array() == c);
        law::prove("child refers to the schema", &p.children()[0].schema() == t);
        law::prove("child owns nothing", !p.children()[0].owns_array() && !p.children()[0].owns_schema());
    }
    kept(pc, pt);
    gone(pa, ps);
}
void law_C02_dictionary(ArrowArray* a, ArrowSchema* s, ArrowArray* c, ArrowSchema* t, int* pa, int* ps, int* pc, int* pt)
{
    ints(c, t, pc, pt);
    ints(a, s, pa, ps);
    a->dictionary = c;
    s->dictionary = t;
    {
        arrow_proxy p(std::move(*a), std::move(*s));
        law::prove("dictionary refers to the array", &p.dictionary()->array() == c);
        law::prove("dictionary refers to the schema", &p.dictionary()->schema() == t);
        law::prove("dictionary owns nothing", !p.dictionary()->owns_array() && !p.dictionary()->owns_schema());
    }
    kept(pc, pt);
    gone(pa, ps);
}
// typed and type-erased arrays own what their proxy owns
void law_C02_typed(ArrowArray* a, ArrowSchema* s, int* pa, int* ps)
{
    ints(a, s, pa, ps);
    {
        primitive_array<i32> x(arrow_proxy(std::move(*a), std::move(*s)));
        kept(pa, ps);
    }
    gone(pa, ps);
}
void law_C02_typed_reference(ArrowArray* a, ArrowSchema* s, int* pa, int* ps)
{
    ints(a, s, pa, ps);
    {
        primitive_array<i32> x(arrow_proxy(a, s));
    }
    kept(pa, ps);
}
void law_C02_typed_move(ArrowArray* a, ArrowSchema* s, int* pa, int* ps)
{
    ints(a, s, pa, ps);
    {
        primitive_array<i32> x(arrow_proxy(std::move(*a), std::move(*s)));
        {
            primitive_array<i32> y(std::move(x));
            kept(pa, ps);
        }
        gone(pa, ps);
    }
    law::prove("array not released again", law::releases(pa) == 1);
    law::prove("schema not released again", law::releases(ps) == 1);
}
void law_C02_typed_copy(ArrowArray* a, ArrowSchema* s, int* pa, int* ps)
{
    ints(a, s, pa, ps);
    {
        primitive_array<i32> x(arrow_proxy(std::move(*a), std::move(*s)));
        {
            primitive_array<i32> y(x);
        }
        kept(pa, ps);
    }
    gone(pa, ps);
}
void law_C02_erased(ArrowArray* a, ArrowSchema* s, int* pa, int* ps)
{
    ints(a, s, pa, ps);
    {
        array x(std::move(*a), std::move(*s));
        law::prove("source array emptied", a->release == nullptr);
        law::prove("source schema emptied", s->release == nullptr);
        law::prove("owns array", owns_arrow_array(x));
        law::prove("owns schema", owns_arrow_schema(x));
        kept(pa, ps);
    }
    gone(pa, ps);
}
void law_C02_erased_reference(ArrowArray* a, ArrowSchema* s, int* pa, int* ps)
{
    ints(a, s, pa, ps);
    {
        array x(a, s);
        law::prove("does not own array", !owns_arrow_array(x));
        law::prove("does not own schema", !owns_arrow_schema(x));
    }
    kept(pa, ps);
}
void law_C02_erased_mixed(ArrowArray* a, ArrowSchema* s, int* pa, int* ps)
{
    ints(a, s, pa, ps);
    {
        array x(std::move(*a), s);
        law::prove("owns array", owns_arrow_array(x));
        law::prove("does not own schema", !owns_arrow_schema(x));
    }
    law::prove("array released once", law::releases(pa) == 1);
    law::prove("schema not released", law::releases(ps) == 0);
}
void law_C02_erased_move(ArrowArray* a, ArrowSchema* s, int* pa, int* ps)
{
    ints(a, s, pa, ps);
    {
        array x(std::move(*a), std::move(*s));
        {
            array y(std::move(x));
            kept(pa, ps);
        }
        gone(pa, ps);
    }
    law::prove("array not released again", law::releases(pa) == 1);
    law::prove("schema not released again", law::releases(ps) == 1);
}
void law_C02_erased_copy(ArrowArray* a, ArrowSchema* s, int* pa, int* ps)
{
    ints(a, s, pa, ps);
    {
        array x(std::move(*a), std::move(*s));
        {
            array y(x);
        }
        kept(pa, ps);
    }
    gone(pa, ps);
}
void law_C02_erased_assign(ArrowArray* a, ArrowSchema* s, int* pa, int* ps, ArrowArray* b, ArrowSchema* t, int* pb, int* pt)
{
    ints(a, s, pa, ps);
    ints(b, t, pb, pt);
    {
        array x(std::move(*a), std::move(*s));
        {
            array y(std::move(*b), std::move(*t));
            x = std::move(y);
        }
        kept(pb, pt);
    }
    gone(pa, ps);
    gone(pb, pt);
}
void law_C02_erased_extract(ArrowArray* a, ArrowSchema* s, int* pa, int* ps)
{
    ints(a, s, pa, ps);
    ArrowArray x;
    ArrowSchema y;
    {
        array r(std::move(*a), std::move(*s));
        auto both = extract_arrow_structures(std::move(r));
        x = both.first;
        y = both.second;
    }
    kept(pa, ps);
    law::prove("array handed over", x.release == &foreign_release_array && x.private_data == pa);
    law::prove("schema handed over", y.release == &foreign_release_schema && y.private_data == ps);
}
void law_C02_erased_get(ArrowArray* a, ArrowSchema* s, int* pa, int* ps)
{
    ints(a, s, pa, ps);
    {
        array r(std::move(*a), std::move(*s));
        auto both = get_arrow_structures(r);
        law::prove("array lent", both.first->private_data == pa && both.first->release == &foreign_release_array);
        law::prove("schema lent", both.second->private_data == ps && both.second->release == &foreign_release_schema);
        kept(pa, ps);
    }
    gone(pa, ps);
}
