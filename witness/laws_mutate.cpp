// C03: what a mutator displaces is freed.  C04: structures of other libraries are not modified.  C05: what is derived
// from a structure follows its mutations.
#include "arrow_model.hpp"
using namespace fmt;

namespace
{
    void live(ArrowArray* c, void* p)
    {
        law::require(c != nullptr);
        wf(c);
        c->n_children = 0;
        c->dictionary = nullptr;
        c->release = &foreign_release_array;
        c->private_data = p;
        law::track(p);
        law::track(c);
    }
    void live(ArrowSchema* c, void* p)
    {
        law::require(c != nullptr);
        c->format = "i";
        c->n_children = 0;
        c->dictionary = nullptr;
        c->release = &foreign_release_schema;
        c->private_data = p;
        law::track(p);
        law::track(c);
    }
    template <class T>
    void freed_once(T* c, void* p)
    {
        law::prove("released once", law::releases(p) == 1);
        law::prove("freed once", law::deletes(c) == 1);
    }
    template <class T>
    void untouched(T* c, void* p)
    {
        law::prove("not released", law::releases(p) == 0);
        law::prove("not freed", law::deletes(c) == 0);
    }
    // a structure made by sparrow with two children it owns
    arrow_proxy two(ArrowArray* c0, ArrowSchema* s0, ArrowArray* c1, ArrowSchema* s1, int* p0, int* q0, int* p1, int* q1)
    {
        live(c0, p0);
        live(s0, q0);
        live(c1, p1);
        live(s1, q1);
        ArrowArray** cs = new ArrowArray*[2]{c0, c1};
        ArrowSchema** ss = new ArrowSchema*[2]{s0, s1};
        ArrowArray a = make_arrow_array(3, 0, 0, arrow_array_private_data::BufferType(1), 2, cs, nullptr);
        ArrowSchema s = make_arrow_schema(std::string_view("+s"), std::string_view("n"), std::nullopt, std::nullopt, 2, ss, nullptr);
        return arrow_proxy(std::move(a), std::move(s));
    }
}
#define TWO ArrowArray *c0, ArrowSchema *s0, ArrowArray *c1, ArrowSchema *s1, int *p0, int *q0, int *p1, int *q1
#define TWO_ c0, s0, c1, s1, p0, q0, p1, q1

void law_C03_set_child_pointer(TWO, ArrowArray* n, ArrowSchema* m, int* pn, int* pm)
{
    live(n, pn);
    live(m, pm);
    {
        arrow_proxy p = two(TWO_);
        p.set_child(0, n, m);
        freed_once(c0, p0);
        freed_once(s0, q0);
        untouched(c1, p1);
        untouched(s1, q1);
        law::prove("array installed", p.array().children[0] == n);
        law::prove("schema installed", p.schema().children[0] == m);
        law::prove("other array kept", p.array().children[1] == c1);
        law::prove("other schema kept", p.schema().children[1] == s1);
        law::prove("child refers to the array", &p.children()[0].array() == n);
        law::prove("child refers to the schema", &p.children()[0].schema() == m);
    }
    untouched(n, pn);
    untouched(m, pm);
    freed_once(c0, p0);
    freed_once(s0, q0);
    freed_once(c1, p1);
    freed_once(s1, q1);
}
void law_C03_set_child_value(TWO, ArrowArray* n, ArrowSchema* m, int* pn, int* pm)
{
    live(n, pn);
    live(m, pm);
    ArrowArray* in = nullptr;
    ArrowSchema* im = nullptr;
    {
        arrow_proxy p = two(TWO_);
        p.set_child(1, std::move(*n), std::move(*m));
        freed_once(c1, p1);
        freed_once(s1, q1);
        untouched(c0, p0);
        untouched(s0, q0);
        in = p.array().children[1];
        im = p.schema().children[1];
        law::track(in);
        law::track(im);
        law::prove("array adopted", in->private_data == pn && in->release == &foreign_release_array);
        law::prove("schema adopted", im->private_data == pm && im->release == &foreign_release_schema);
        law::prove("child refers to the array", &p.children()[1].array() == in);
        law::prove("child refers to the schema", &p.children()[1].schema() == im);
        law::prove("source array emptied", n->release == nullptr);
        law::prove("source schema emptied", m->release == nullptr);
        law::prove("adopted array not released", law::releases(pn) == 0);
        law::prove("adopted schema not released", law::releases(pm) == 0);
    }
    freed_once(in, pn);
    freed_once(im, pm);
    freed_once(c0, p0);
    freed_once(s0, q0);
    freed_once(c1, p1);
    freed_once(s1, q1);
}
// replacing a child twice
void law_C03_set_child_twice(TWO, ArrowArray* n, ArrowSchema* m, int* pn, int* pm, ArrowArray* o, ArrowSchema* r, int* po, int* pr)
{
    live(n, pn);
    live(m, pm);
    live(o, po);
    live(r, pr);
    {
        arrow_proxy p = two(TWO_);
        p.set_child(0, n, m);
        p.set_child(0, o, r);
        untouched(n, pn);
        untouched(m, pm);
        freed_once(c0, p0);
        freed_once(s0, q0);
    }
    untouched(n, pn);
    untouched(m, pm);
    untouched(o, po);
    untouched(r, pr);
    freed_once(c0, p0);
    freed_once(s0, q0);
    freed_once(c1, p1);
    freed_once(s1, q1);
}
void law_C03_pop_one(TWO)
{
    {
        arrow_proxy p = two(TWO_);
        void* old = p.array().children;
        void* olds = p.schema().children;
        law::track(old);
        law::track(olds);
        p.pop_children(1);
        freed_once(c1, p1);
        freed_once(s1, q1);
        untouched(c0, p0);
        untouched(s0, q0);
        law::prove("one child left", p.n_children() == 1 && p.schema().n_children == 1 && p.children().size() == 1);
        law::prove("array kept", p.array().children[0] == c0);
        law::prove("schema kept", p.schema().children[0] == s0);
        law::prove("old children array freed", law::deletes(old) == 1);
        law::prove("old schema children array freed", law::deletes(olds) == 1);
    }
    freed_once(c0, p0);
    freed_once(s0, q0);
    freed_once(c1, p1);
    freed_once(s1, q1);
}
void law_C03_pop_all(TWO)
{
    {
        arrow_proxy p = two(TWO_);
        p.pop_children(2);
        freed_once(c0, p0);
        freed_once(s0, q0);
        freed_once(c1, p1);
        freed_once(s1, q1);
        law::prove("no child left", p.n_children() == 0 && p.schema().n_children == 0 && p.children().size() == 0);
    }
    freed_once(c0, p0);
    freed_once(s0, q0);
    freed_once(c1, p1);
    freed_once(s1, q1);
}
void law_C03_pop_none(TWO)
{
    arrow_proxy p = two(TWO_);
    p.pop_children(0);
    untouched(c0, p0);
    untouched(s0, q0);
    untouched(c1, p1);
    untouched(s1, q1);
    law::prove("children kept", p.array().children[0] == c0 && p.array().children[1] == c1);
    law::prove("schema children kept", p.schema().children[0] == s0 && p.schema().children[1] == s1);
}
void law_C03_pop_too_many(TWO, size_t n)
{
    arrow_proxy p = two(TWO_);
    law::require(n > 2);
    p.pop_children(n);
    law::unreachable("no more children are popped than there are");
}
// what is not owned is detached, not freed
void law_C03_pop_borrowed(TWO, ArrowArray* n, ArrowSchema* m, int* pn, int* pm)
{
    live(n, pn);
    live(m, pm);
    {
        arrow_proxy p = two(TWO_);
        p.set_child(1, n, m);
        p.pop_children(1);
        untouched(n, pn);
        untouched(m, pm);
    }
    untouched(n, pn);
    untouched(m, pm);
    freed_once(c0, p0);
    freed_once(s0, q0);
    freed_once(c1, p1);
    freed_once(s1, q1);
}
void law_C03_add_pointer(TWO, ArrowArray* n, ArrowSchema* m, int* pn, int* pm)
{
    live(n, pn);
    live(m, pm);
    {
        arrow_proxy p = two(TWO_);
        p.add_child(n, m);
        law::prove("three children", p.n_children() == 3 && p.schema().n_children == 3 && p.children().size() == 3);
        law::prove("array kept 0", p.array().children[0] == c0);
        law::prove("array kept 1", p.array().children[1] == c1);
        law::prove("schema kept 0", p.schema().children[0] == s0);
        law::prove("schema kept 1", p.schema().children[1] == s1);
        law::prove("array installed", p.array().children[2] == n);
        law::prove("schema installed", p.schema().children[2] == m);
        law::prove("child refers to the array", &p.children()[2].array() == n);
        law::prove("child refers to the schema", &p.children()[2].schema() == m);
        untouched(c0, p0);
        untouched(s0, q0);
        untouched(c1, p1);
        untouched(s1, q1);
    }
    untouched(n, pn);
    untouched(m, pm);
    freed_once(c0, p0);
    freed_once(s0, q0);
    freed_once(c1, p1);
    freed_once(s1, q1);
}
void law_C03_add_value(TWO, ArrowArray* n, ArrowSchema* m, int* pn, int* pm)
{
    live(n, pn);
    live(m, pm);
    ArrowArray* in = nullptr;
    ArrowSchema* im = nullptr;
    {
        arrow_proxy p = two(TWO_);
        p.add_child(std::move(*n), std::move(*m));
        in = p.array().children[2];
        im = p.schema().children[2];
        law::track(in);
        law::track(im);
        law::prove("array adopted", in->private_data == pn);
        law::prove("schema adopted", im->private_data == pm);
        law::prove("source array emptied", n->release == nullptr);
        law::prove("source schema emptied", m->release == nullptr);
        law::prove("adopted array not released", law::releases(pn) == 0);
        law::prove("adopted schema not released", law::releases(pm) == 0);
    }
    freed_once(in, pn);
    freed_once(im, pm);
    freed_once(c0, p0);
    freed_once(s0, q0);
    freed_once(c1, p1);
    freed_once(s1, q1);
}
// what one side of a child owns does not depend on the other side
void law_C03_pop_array_borrowed(TWO)
{
    {
        arrow_proxy p = two(TWO_);
        p.get_array_private_data()->set_child_ownership(1, false);
        p.pop_children(1);
        untouched(c1, p1);
        freed_once(s1, q1);
    }
    untouched(c1, p1);
    freed_once(s1, q1);
    freed_once(c0, p0);
    freed_once(s0, q0);
}
void law_C03_pop_schema_borrowed(TWO)
{
    {
        arrow_proxy p = two(TWO_);
        p.get_schema_private_data()->set_child_ownership(1, false);
        p.pop_children(1);
        freed_once(c1, p1);
        untouched(s1, q1);
    }
    freed_once(c1, p1);
    untouched(s1, q1);
    freed_once(c0, p0);
    freed_once(s0, q0);
}
void law_C03_replace_array_borrowed(TWO, ArrowArray* n, ArrowSchema* m, int* pn, int* pm)
{
    live(n, pn);
    live(m, pm);
    {
        arrow_proxy p = two(TWO_);
        p.get_array_private_data()->set_child_ownership(0, false);
        p.set_child(0, std::move(*n), std::move(*m));
        untouched(c0, p0);
        freed_once(s0, q0);
        law::prove("adopted array not released", law::releases(pn) == 0);
    }
    untouched(c0, p0);
    freed_once(s0, q0);
    law::prove("adopted array released", law::releases(pn) == 1);
    law::prove("adopted schema released", law::releases(pm) == 1);
    freed_once(c1, p1);
    freed_once(s1, q1);
}
// a borrowed child stays borrowed, an owned one owned, when others come and go
void law_C03_borrowed_then_pop(TWO, ArrowArray* n, ArrowSchema* m, int* pn, int* pm)
{
    live(n, pn);
    live(m, pm);
    {
        arrow_proxy p = two(TWO_);
        p.set_child(0, n, m);
        p.pop_children(1);
        law::prove("borrowed child kept", p.array().children[0] == n && p.schema().children[0] == m);
        untouched(n, pn);
        untouched(m, pm);
        freed_once(c1, p1);
        freed_once(s1, q1);
    }
    untouched(n, pn);
    untouched(m, pm);
    freed_once(c0, p0);
    freed_once(s0, q0);
}
void law_C03_borrowed_then_add(TWO, ArrowArray* n, ArrowSchema* m, int* pn, int* pm, ArrowArray* o, ArrowSchema* r, int* po, int* pr)
{
    live(n, pn);
    live(m, pm);
    live(o, po);
    live(r, pr);
    {
        arrow_proxy p = two(TWO_);
        p.set_child(0, n, m);
        p.add_child(std::move(*o), std::move(*r));
        law::prove("borrowed child kept", p.array().children[0] == n && p.schema().children[0] == m);
        untouched(n, pn);
        untouched(m, pm);
        untouched(c1, p1);
        law::prove("adopted array not released", law::releases(po) == 0);
    }
    untouched(n, pn);
    untouched(m, pm);
    freed_once(c0, p0);
    freed_once(s0, q0);
    freed_once(c1, p1);
    freed_once(s1, q1);
    law::prove("adopted array released", law::releases(po) == 1);
    law::prove("adopted schema released", law::releases(pr) == 1);
}
void law_C03_borrowed_then_owned(TWO, ArrowArray* n, ArrowSchema* m, int* pn, int* pm, ArrowArray* o, ArrowSchema* r, int* po, int* pr)
{
    live(n, pn);
    live(m, pm);
    live(o, po);
    live(r, pr);
    {
        arrow_proxy p = two(TWO_);
        p.set_child(0, n, m);
        p.set_child(0, std::move(*o), std::move(*r));
        untouched(n, pn);
        untouched(m, pm);
        p.set_child(0, n, m);
        law::prove("replaced array released", law::releases(po) == 1);
        law::prove("replaced schema released", law::releases(pr) == 1);
    }
    untouched(n, pn);
    untouched(m, pm);
    law::prove("replaced array released once", law::releases(po) == 1);
    law::prove("replaced schema released once", law::releases(pr) == 1);
    freed_once(c0, p0);
    freed_once(s0, q0);
}
void law_C03_add_then_pop(TWO, ArrowArray* n, ArrowSchema* m, int* pn, int* pm, ArrowArray* o, ArrowSchema* r, int* po, int* pr)
{
    live(n, pn);
    live(m, pm);
    live(o, po);
    live(r, pr);
    {
        arrow_proxy p = two(TWO_);
        p.add_child(n, m);
        p.add_child(std::move(*o), std::move(*r));
        law::prove("four children", p.n_children() == 4 && p.schema().n_children == 4 && p.children().size() == 4);
        p.pop_children(2);
        untouched(n, pn);
        untouched(m, pm);
        law::prove("popped array released", law::releases(po) == 1);
        law::prove("popped schema released", law::releases(pr) == 1);
        law::prove("kept", p.n_children() == 2 && p.array().children[0] == c0 && p.schema().children[1] == s1);
        untouched(c0, p0);
        untouched(s1, q1);
    }
    untouched(n, pn);
    untouched(m, pm);
    freed_once(c0, p0);
    freed_once(s0, q0);
    freed_once(c1, p1);
    freed_once(s1, q1);
    law::prove("popped array released once", law::releases(po) == 1);
}
// a structure without children becomes a parent
void law_C03_first_child(ArrowArray* n, ArrowSchema* m, int* pn, int* pm)
{
    live(n, pn);
    live(m, pm);
    ArrowArray* in = nullptr;
    {
        ArrowArray a = make_arrow_array(3, 0, 0, arrow_array_private_data::BufferType(1), 0, nullptr, nullptr);
        ArrowSchema s = make_arrow_schema(std::string_view("+s"), std::string_view("n"), std::nullopt, std::nullopt, 0, nullptr, nullptr);
        arrow_proxy p(std::move(a), std::move(s));
        p.add_child(std::move(*n), std::move(*m));
        law::prove("one child", p.n_children() == 1 && p.schema().n_children == 1 && p.children().size() == 1);
        in = p.array().children[0];
        law::track(in);
        law::prove("child refers to the array", &p.children()[0].array() == in);
    }
    freed_once(in, pn);
    law::prove("schema released", law::releases(pm) == 1);
}
void law_C03_dictionary_twice(ArrowArray* d, ArrowSchema* e, int* pd, int* pe, ArrowArray* n, ArrowSchema* m, int* pn, int* pm)
{
    live(d, pd);
    live(e, pe);
    live(n, pn);
    live(m, pm);
    {
        ArrowArray a = make_arrow_array(3, 0, 0, arrow_array_private_data::BufferType(2), 0, nullptr, nullptr);
        ArrowSchema s = make_arrow_schema(std::string_view("i"), std::string_view("n"), std::nullopt, std::nullopt, 0, nullptr, nullptr);
        arrow_proxy p(std::move(a), std::move(s));
        p.set_dictionary(d, e);
        law::prove("dictionary refers to the array", p.dictionary() != nullptr && &p.dictionary()->array() == d);
        p.set_dictionary(n, m);
        law::prove("replaced dictionary released", law::releases(pd) == 1 && law::releases(pe) == 1);
        law::prove("array installed", p.array().dictionary == n && p.schema().dictionary == m);
        law::prove("new dictionary live", law::releases(pn) == 0 && law::releases(pm) == 0);
    }
    law::prove("replaced dictionary released once", law::releases(pd) == 1 && law::releases(pe) == 1);
    law::prove("new dictionary released once", law::releases(pn) == 1 && law::releases(pm) == 1);
    law::prove("storage is the caller's", law::deletes(d) == 0 && law::deletes(e) == 0 && law::deletes(n) == 0 && law::deletes(m) == 0);
}
void law_C03_set_dictionary(ArrowArray* d, ArrowSchema* e, int* pd, int* pe, ArrowArray* n, ArrowSchema* m, int* pn, int* pm)
{
    live(d, pd);
    live(e, pe);
    live(n, pn);
    live(m, pm);
    {
        ArrowArray a = make_arrow_array(3, 0, 0, arrow_array_private_data::BufferType(2), 0, nullptr, d);
        ArrowSchema s = make_arrow_schema(std::string_view("i"), std::string_view("n"), std::nullopt, std::nullopt, 0, nullptr, e);
        arrow_proxy p(std::move(a), std::move(s));
        p.set_dictionary(n, m);
        freed_once(d, pd);
        freed_once(e, pe);
        law::prove("array installed", p.array().dictionary == n);
        law::prove("schema installed", p.schema().dictionary == m);
        law::prove("dictionary refers to the array", &p.dictionary()->array() == n);
        law::prove("dictionary refers to the schema", &p.dictionary()->schema() == m);
    }
    freed_once(d, pd);
    freed_once(e, pe);
    law::prove("adopted dictionary released once", law::releases(pn) == 1);
    law::prove("adopted dictionary schema released once", law::releases(pm) == 1);
    law::prove("storage of the dictionary is the caller's", law::deletes(n) == 0 && law::deletes(m) == 0);
}

// ------------------------------------------------------------------------------------------------ C04
namespace
{
    ArrowArray ours()
    {
        return make_arrow_array(3, 0, 0, arrow_array_private_data::BufferType(2), 0, nullptr, nullptr);
    }
    ArrowSchema our_schema()
    {
        return make_arrow_schema(std::string_view("i"), std::string_view("n"), std::nullopt, std::nullopt, 0, nullptr, nullptr);
    }
}

// both structures foreign; the array foreign and the schema ours; the array ours and the schema foreign
#define REFUSED(op)                   \
    law::freeze();                    \
    op;                               \
    law::unreachable("refused");      \
    law::thaw("nothing written");
#define C04(name, op, ...)                                              \
    void law_C04_##name(ArrowArray* a, ArrowSchema* s, ##__VA_ARGS__)   \
    {                                                                   \
        leaf(a, s, "i");                                                \
        foreign(a, s);                                                  \
        arrow_proxy p(a, s);                                            \
        REFUSED(op)                                                     \
    }
#define C04A(name, op, ...)                                                    \
    C04(name, op, ##__VA_ARGS__)                                               \
    void law_C04_##name##_mixed(ArrowArray* a, ArrowSchema* s, ##__VA_ARGS__)  \
    {                                                                          \
        leaf(a, s, "i");                                                       \
        foreign(a, s);                                                         \
        arrow_proxy q(ours(), our_schema());                                   \
        arrow_proxy p(a, &q.schema());                                         \
        REFUSED(op)                                                            \
    }
#define C04S(name, op, ...)                                                    \
    C04(name, op, ##__VA_ARGS__)                                               \
    void law_C04_##name##_mixed(ArrowArray* a, ArrowSchema* s, ##__VA_ARGS__)  \
    {                                                                          \
        leaf(a, s, "i");                                                       \
        foreign(a, s);                                                         \
        arrow_proxy q(ours(), our_schema());                                   \
        arrow_proxy p(&q.array(), s);                                          \
        REFUSED(op)                                                            \
    }
C04S(set_format, p.set_format("l"))
C04S(set_data_type, p.set_data_type(data_type::INT64))
C04S(set_name, p.set_name("x"))
C04S(set_no_name, p.set_name(std::nullopt))
C04S(set_metadata, p.set_metadata("x"))
C04S(set_flags, p.set_flags(std::vector<ArrowFlag>{}))
C04S(schema_data, p.get_schema_private_data())
C04A(array_data, p.get_array_private_data())
C04A(set_length, p.set_length(n), size_t n)
C04A(set_offset, p.set_offset(n), size_t n)
C04A(set_null_count, p.set_null_count(n), i64 n)
C04A(set_n_buffers, p.set_n_buffers(n), size_t n)
C04A(set_buffer_view, law::require(i < 2 && p.n_buffers() == 2 && d != nullptr); p.set_buffer(i, buffer_view<u8>(d, m)), size_t i, u8* d, size_t m)
C04A(set_buffer, law::require(i < 2 && p.n_buffers() == 2 && d != nullptr && m < (size_t(1) << 40)); p.set_buffer(i, buffer<u8>(d, m)), size_t i, u8* d, size_t m)
C04A(resize_bitmap, p.resize_bitmap(n, v), size_t n, bool v)
C04A(insert_bitmap, p.insert_bitmap(i, v, n), size_t i, bool v, size_t n)
C04A(insert_bitmap_range, p.insert_bitmap(i, r), size_t i, const std::vector<bool>& r)
C04A(erase_bitmap, p.erase_bitmap(i, n), size_t i, size_t n)
C04A(push_back_bitmap, p.push_back_bitmap(v), bool v)
C04A(pop_back_bitmap, p.pop_back_bitmap())
// operations on both structures: refused as soon as one is foreign
#define C04B(name, op, ...)                                                             \
    C04A(name, op, ##__VA_ARGS__)                                                       \
    void law_C04_##name##_mixed_schema(ArrowArray* a, ArrowSchema* s, ##__VA_ARGS__)    \
    {                                                                                   \
        leaf(a, s, "i");                                                                \
        foreign(a, s);                                                                  \
        arrow_proxy q(ours(), our_schema());                                            \
        arrow_proxy p(&q.array(), s);                                                   \
        REFUSED(op)                                                                     \
    }
C04B(pop_children, p.pop_children(n), size_t n)
C04B(add_child, p.add_child(c, t), ArrowArray* c, ArrowSchema* t)
C04B(add_child_value, p.add_child(std::move(*c), std::move(*t)), ArrowArray* c, ArrowSchema* t)
C04B(set_dictionary, p.set_dictionary(d, e), ArrowArray* d, ArrowSchema* e)
void law_C04_set_child(ArrowArray* a, ArrowSchema* s, ArrowArray* c, ArrowSchema* t, ArrowArray* n, ArrowSchema* m, int* pn, int* pm)
{
    nested(a, s, "+s");
    int_child(a, s, 0, c, t);
    live(n, pn);
    live(m, pm);
    arrow_proxy p(a, s);
    REFUSED(p.set_child(0, n, m))
}
void law_C04_set_child_value(ArrowArray* a, ArrowSchema* s, ArrowArray* c, ArrowSchema* t, ArrowArray* n, ArrowSchema* m, int* pn, int* pm)
{
    nested(a, s, "+s");
    int_child(a, s, 0, c, t);
    live(n, pn);
    live(m, pm);
    arrow_proxy p(a, s);
    REFUSED(p.set_child(0, std::move(*n), std::move(*m)))
}
// typed arrays on foreign structures
#define C04T(name, op, ...)                                                            \
    void law_C04_typed_##name(ArrowArray* a, ArrowSchema* s, ##__VA_ARGS__)            \
    {                                                                                  \
        leaf(a, s, "i");                                                               \
        foreign(a, s);                                                                 \
        primitive_array<i32> p(arrow_proxy(a, s));                                     \
        REFUSED(op)                                                                    \
    }
C04T(push_back, p.push_back(nullable<i32>(i32(v), bool(f))), i32 v, bool f)
C04T(pop_back, law::require(a->length > 0); p.pop_back())
C04T(resize, p.resize(n, nullable<i32>(i32(v), bool(f))), size_t n, i32 v, bool f)
C04T(insert, p.insert(p.cbegin(), nullable<i32>(i32(v), bool(f))), i32 v, bool f)
C04T(erase, law::require(a->length > 0); p.erase(p.cbegin()))
// views of foreign structures are foreign
#define C04V(name, op, ...)                                                    \
    void law_C04_view_##name(ArrowArray* a, ArrowSchema* s, size_t b, size_t e, ##__VA_ARGS__)   \
    {                                                                          \
        leaf(a, s, "i");                                                       \
        foreign(a, s);                                                         \
        law::require(b <= e && e <= len(a));                                   \
        arrow_proxy o(a, s);                                                   \
        arrow_proxy p = o.slice_view(b, e);                                    \
        REFUSED(op)                                                            \
    }
C04V(set_name, p.set_name("x"))
C04V(set_format, p.set_format("l"))
C04V(set_flags, p.set_flags(std::vector<ArrowFlag>{}))
C04V(schema_data, p.get_schema_private_data())
C04V(array_data, p.get_array_private_data())
C04V(set_length, p.set_length(n), size_t n)
C04V(set_null_count, p.set_null_count(n), i64 n)
C04V(set_n_buffers, p.set_n_buffers(n), size_t n)
C04V(push_back_bitmap, p.push_back_bitmap(v), bool v)
C04V(pop_children, p.pop_children(n), size_t n)
C04V(add_child, p.add_child(c, t), ArrowArray* c, ArrowSchema* t)
C04V(set_dictionary, p.set_dictionary(d, q), ArrowArray* d, ArrowSchema* q)
