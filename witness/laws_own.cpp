// C01: a release callback frees everything the structure owns, once, and marks the structure released.
#include "arrow_model.hpp"
using namespace fmt;

namespace
{
    // a live structure made by another library; what it holds is *pd
    template <class T>
    void live(T* c, void* pd)
    {
        law::require(c != nullptr);
        if constexpr (std::is_same_v<T, ArrowArray>) c->release = &foreign_release_array;
        else c->release = &foreign_release_schema;
        c->private_data = pd;
        law::track(pd);
        law::track(c);
    }
    // a structure whose content a consumer has moved out
    template <class T>
    void moved_out(T* c, void* pd)
    {
        live(c, pd);
        c->release = nullptr;
    }
    ArrowArray make_array(size_t nb, size_t nc, ArrowArray** cs, ArrowArray* d)
    {
        return make_arrow_array(3, 0, 0, arrow_array_private_data::BufferType(nb), nc, cs, d);
    }
    ArrowSchema make_schema(size_t nc, ArrowSchema** cs, ArrowSchema* d)
    {
        return make_arrow_schema(std::string_view("+s"), std::string_view("n"), std::nullopt, std::nullopt, nc, cs, d);
    }
    template <class T>
    void freed_once(T* c, void* pd)
    {
        law::prove("released once", law::releases(pd) == 1);
        law::prove("freed once", law::deletes(c) == 1);
    }
    template <class T>
    void untouched(T* c, void* pd)
    {
        law::prove("not released", law::releases(pd) == 0);
        law::prove("not freed", law::deletes(c) == 0);
    }
    template <class T>
    void released(const T& a, void* mine)
    {
        law::prove("private data freed once", law::deletes(mine) == 1);
        law::prove("marked released", a.release == nullptr);
        law::prove("private data detached", a.private_data == nullptr);
    }
}

// two owned children and a dictionary
void law_C01_array_all(ArrowArray* c0, ArrowArray* c1, ArrowArray* d, int* p0, int* p1, int* pd)
{
    live(c0, p0);
    live(c1, p1);
    live(d, pd);
    ArrowArray** cs = new ArrowArray*[2]{c0, c1};
    law::track(cs);
    ArrowArray a = make_array(2, 2, cs, d);
    void* mine = a.private_data;
    law::track(mine);
    a.release(&a);
    law::total("no failure");
    freed_once(c0, p0);
    freed_once(c1, p1);
    freed_once(d, pd);
    law::prove("children array freed once", law::deletes(cs) == 1);
    law::prove("children detached", a.children == nullptr);
    law::prove("buffers detached", a.buffers == nullptr);
    released(a, mine);
}
void law_C01_schema_all(ArrowSchema* c0, ArrowSchema* c1, ArrowSchema* d, int* p0, int* p1, int* pd)
{
    live(c0, p0);
    live(c1, p1);
    live(d, pd);
    ArrowSchema** cs = new ArrowSchema*[2]{c0, c1};
    law::track(cs);
    ArrowSchema a = make_schema(2, cs, d);
    void* mine = a.private_data;
    law::track(mine);
    a.release(&a);
    law::total("no failure");
    freed_once(c0, p0);
    freed_once(c1, p1);
    freed_once(d, pd);
    law::prove("children array freed once", law::deletes(cs) == 1);
    law::prove("children detached", a.children == nullptr);
    law::prove("dictionary detached", a.dictionary == nullptr);
    released(a, mine);
}
// without buffers
void law_C01_array_no_buffers(ArrowArray* c0, int* p0)
{
    live(c0, p0);
    ArrowArray** cs = new ArrowArray*[1]{c0};
    law::track(cs);
    ArrowArray a = make_array(0, 1, cs, nullptr);
    void* mine = a.private_data;
    law::track(mine);
    a.release(&a);
    law::total("no failure");
    freed_once(c0, p0);
    law::prove("children array freed once", law::deletes(cs) == 1);
    released(a, mine);
}
void law_C01_array_empty()
{
    ArrowArray a = make_array(0, 0, nullptr, nullptr);
    void* mine = a.private_data;
    law::track(mine);
    a.release(&a);
    law::total("no failure");
    released(a, mine);
}
// nothing but the private data
void law_C01_array_leaf(size_t nb)
{
    ArrowArray a = make_array(3, 0, nullptr, nullptr);
    void* mine = a.private_data;
    law::track(mine);
    a.release(&a);
    law::total("no failure");
    released(a, mine);
}
void law_C01_schema_leaf()
{
    ArrowSchema a = make_schema(0, nullptr, nullptr);
    void* mine = a.private_data;
    law::track(mine);
    a.release(&a);
    law::total("no failure");
    released(a, mine);
}
// ownership of each child is what the private data says
void law_C01_array_ownership(ArrowArray* c0, ArrowArray* c1, int* p0, int* p1, bool own0, bool own1)
{
    live(c0, p0);
    live(c1, p1);
    ArrowArray** cs = new ArrowArray*[2]{c0, c1};
    law::track(cs);
    ArrowArray a = make_array(1, 2, cs, nullptr);
    void* mine = a.private_data;
    law::track(mine);
    auto* pd = static_cast<arrow_array_private_data*>(a.private_data);
    pd->set_child_ownership(0, own0);
    pd->set_child_ownership(1, own1);
    a.release(&a);
    law::prove("child 0 released iff owned", law::releases(p0) == (own0 ? 1u : 0u));
    law::prove("child 1 released iff owned", law::releases(p1) == (own1 ? 1u : 0u));
    law::prove("child 0 freed iff owned", law::deletes(c0) == (own0 ? 1u : 0u));
    law::prove("child 1 freed iff owned", law::deletes(c1) == (own1 ? 1u : 0u));
    law::prove("children array freed once", law::deletes(cs) == 1);
    released(a, mine);
}
void law_C01_schema_ownership(ArrowSchema* c0, ArrowSchema* c1, int* p0, int* p1, bool own0, bool own1)
{
    live(c0, p0);
    live(c1, p1);
    ArrowSchema** cs = new ArrowSchema*[2]{c0, c1};
    law::track(cs);
    ArrowSchema a = make_schema(2, cs, nullptr);
    void* mine = a.private_data;
    law::track(mine);
    auto* pd = static_cast<arrow_schema_private_data*>(a.private_data);
    pd->set_child_ownership(0, own0);
    pd->set_child_ownership(1, own1);
    a.release(&a);
    law::prove("child 0 released iff owned", law::releases(p0) == (own0 ? 1u : 0u));
    law::prove("child 1 released iff owned", law::releases(p1) == (own1 ? 1u : 0u));
    law::prove("child 0 freed iff owned", law::deletes(c0) == (own0 ? 1u : 0u));
    law::prove("child 1 freed iff owned", law::deletes(c1) == (own1 ? 1u : 0u));
    law::prove("children array freed once", law::deletes(cs) == 1);
    released(a, mine);
}
// a consumer may move children and dictionary out before the parent is released
void law_C01_array_moved_children(ArrowArray* c0, ArrowArray* c1, ArrowArray* d, int* p0, int* p1, int* pd)
{
    moved_out(c0, p0);
    live(c1, p1);
    moved_out(d, pd);
    ArrowArray** cs = new ArrowArray*[2]{c0, c1};
    ArrowArray a = make_array(1, 2, cs, d);
    a.release(&a);
    law::total("no failure");
    law::prove("moved child not released", law::releases(p0) == 0);
    law::prove("moved child freed once", law::deletes(c0) == 1);
    law::prove("moved dictionary not released", law::releases(pd) == 0);
    law::prove("moved dictionary freed once", law::deletes(d) == 1);
    freed_once(c1, p1);
}
void law_C01_schema_moved_children(ArrowSchema* c0, ArrowSchema* c1, ArrowSchema* d, int* p0, int* p1, int* pd)
{
    live(c0, p0);
    moved_out(c1, p1);
    moved_out(d, pd);
    ArrowSchema** cs = new ArrowSchema*[2]{c0, c1};
    ArrowSchema a = make_schema(2, cs, d);
    a.release(&a);
    law::total("no failure");
    law::prove("moved child not released", law::releases(p1) == 0);
    law::prove("moved child freed once", law::deletes(c1) == 1);
    law::prove("moved dictionary not released", law::releases(pd) == 0);
    law::prove("moved dictionary freed once", law::deletes(d) == 1);
    freed_once(c0, p0);
}
// children made by sparrow: the grandchildren are freed too
void law_C01_array_nested(ArrowArray* g, ArrowArray* gd, int* pg, int* pgd)
{
    live(g, pg);
    live(gd, pgd);
    ArrowArray** gs = new ArrowArray*[1]{g};
    ArrowArray* c = new ArrowArray(make_array(1, 1, gs, gd));
    void* inner = c->private_data;
    law::track(inner);
    law::track(c);
    law::track(gs);
    ArrowArray** cs = new ArrowArray*[1]{c};
    law::track(cs);
    ArrowArray a = make_array(1, 1, cs, nullptr);
    void* mine = a.private_data;
    law::track(mine);
    a.release(&a);
    law::total("no failure");
    freed_once(g, pg);
    freed_once(gd, pgd);
    law::prove("child freed once", law::deletes(c) == 1);
    law::prove("child's private data freed once", law::deletes(inner) == 1);
    law::prove("child's children array freed once", law::deletes(gs) == 1);
    law::prove("children array freed once", law::deletes(cs) == 1);
    released(a, mine);
}
void law_C01_schema_nested(ArrowSchema* g, ArrowSchema* gd, int* pg, int* pgd)
{
    live(g, pg);
    live(gd, pgd);
    ArrowSchema** gs = new ArrowSchema*[1]{g};
    ArrowSchema* c = new ArrowSchema(make_schema(1, gs, gd));
    void* inner = c->private_data;
    law::track(inner);
    law::track(c);
    law::track(gs);
    ArrowSchema** cs = new ArrowSchema*[1]{c};
    law::track(cs);
    ArrowSchema a = make_schema(1, cs, nullptr);
    void* mine = a.private_data;
    law::track(mine);
    a.release(&a);
    law::total("no failure");
    freed_once(g, pg);
    freed_once(gd, pgd);
    law::prove("child freed once", law::deletes(c) == 1);
    law::prove("child's private data freed once", law::deletes(inner) == 1);
    law::prove("child's children array freed once", law::deletes(gs) == 1);
    law::prove("children array freed once", law::deletes(cs) == 1);
    released(a, mine);
}
// a dictionary made by sparrow
void law_C01_array_dictionary(ArrowArray* g, int* pg)
{
    live(g, pg);
    ArrowArray** gs = new ArrowArray*[1]{g};
    ArrowArray* c = new ArrowArray(make_array(1, 1, gs, nullptr));
    void* inner = c->private_data;
    law::track(inner);
    law::track(c);
    ArrowArray a = make_array(1, 0, nullptr, c);
    a.release(&a);
    law::total("no failure");
    freed_once(g, pg);
    law::prove("dictionary freed once", law::deletes(c) == 1);
    law::prove("dictionary's private data freed once", law::deletes(inner) == 1);
}
// the callbacks of views own nothing
void law_C01_array_view(ArrowArray* c0, ArrowArray* d, int* p0, int* pd)
{
    live(c0, p0);
    live(d, pd);
    ArrowArray** cs = new ArrowArray*[1]{c0};
    law::track(cs);
    ArrowArray a = make_array(1, 1, cs, d);
    void* mine = a.private_data;
    law::track(mine);
    ArrowArray v = a;
    v.release = empty_release_arrow_array;
    v.release(&v);
    law::total("no failure");
    untouched(c0, p0);
    untouched(d, pd);
    law::prove("children array kept", law::deletes(cs) == 0);
    law::prove("private data kept", law::deletes(mine) == 0);
}
void law_C01_schema_view(ArrowSchema* c0, ArrowSchema* d, int* p0, int* pd)
{
    live(c0, p0);
    live(d, pd);
    ArrowSchema** cs = new ArrowSchema*[1]{c0};
    law::track(cs);
    ArrowSchema a = make_schema(1, cs, d);
    void* mine = a.private_data;
    law::track(mine);
    ArrowSchema v = a;
    v.release = empty_release_arrow_schema;
    v.release(&v);
    law::total("no failure");
    untouched(c0, p0);
    untouched(d, pd);
    law::prove("children array kept", law::deletes(cs) == 0);
    law::prove("private data kept", law::deletes(mine) == 0);
}
