#pragma once
// Foreign structures of any layout, with int32 children, and the structure a typed array reads.
#include "arrow_model.hpp"
using namespace fmt;

namespace
{
    const ArrowArray* own(const auto& x)
    {
        return &detail::array_access::get_arrow_proxy(x).array();
    }
    // any foreign structure of the layout, with int32 children: k of them, -1 a dictionary, 3 run ends and values
    struct parts
    {
        ArrowArray *a, *c0, *c1;
        ArrowSchema *s, *s0, *s1;
    };
    void part(ArrowArray* a, ArrowSchema* s, const char* format, i64 nb)
    {
        leaf(a, s, format);
        foreign(a, s);
        a->n_buffers = nb;
        if (nb > 0) law::require(a->buffers[0] != nullptr);
        if (nb > 1) law::require(a->buffers[1] != nullptr);
        if (nb > 2) law::require(a->buffers[2] != nullptr);
    }
    void put(const parts& p, std::size_t k, ArrowArray* c, ArrowSchema* cs, const char* format)
    {
        part(c, cs, format, 2);
        p.a->children[k] = c;
        p.s->children[k] = cs;
        p.a->n_children = static_cast<i64>(k) + 1;
        p.s->n_children = static_cast<i64>(k) + 1;
    }
    void make(const parts& p, const char* format, i64 nb, int k)
    {
        part(p.a, p.s, format, nb);
        if (k == 3)
        {
            put(p, 0, p.c0, p.s0, "I");
            put(p, 1, p.c1, p.s1, "i");
        }
        else if (k < 0)
        {
            part(p.c0, p.s0, "i", 2);
            p.a->dictionary = p.c0;
            p.s->dictionary = p.s0;
        }
        if (k == 1 || k == 2) put(p, 0, p.c0, p.s0, "i");
        if (k == 2) put(p, 1, p.c1, p.s1, "i");
    }
}
#define PARTS(n) ArrowArray *a##n, ArrowSchema *s##n, ArrowArray *c##n, ArrowSchema *t##n, ArrowArray *d##n, ArrowSchema *u##n
#define MAKE(n, format, nb, k) const parts p##n{a##n, c##n, d##n, s##n, t##n, u##n}; make(p##n, format, nb, k);
