// C21: the iterators satisfy the algebra their category promises, for every position.
#include "arrow_model.hpp"
#include <sparrow/utils/repeat_container.hpp>
#include <sparrow/buffer/dynamic_bitset.hpp>
#include <sparrow/buffer/buffer_adaptor.hpp>
using namespace fmt;

namespace
{
    // it addresses position p of some sequence; n and m are displacements
    template <class It>
    void algebra(const It& it, std::ptrdiff_t n, std::ptrdiff_t m)
    {
        const It a = it + n;
        law::prove("difference", a - it == n);
        law::prove("negative difference", it - a == -n);
        law::prove("composition", (it + n) + m == it + (n + m));
        law::prove("subtraction", (it + n) - n == it);
        law::prove("minus", it - n == it + (-n));
        It b = it;
        b += n;
        law::prove("plus assign", b == a);
        b -= n;
        law::prove("minus assign", b == it);
        It c = it;
        ++c;
        law::prove("increment", c == it + 1);
        law::prove("increment moves", c != it);
        law::prove("increment distance", c - it == 1);
        law::prove("order", it < c);
        law::prove("order reversed", !(c < it));
        --c;
        law::prove("decrement", c == it);
        It d = it;
        law::prove("post increment", d++ == it);
        law::prove("post increment moves", d == it + 1);
        law::prove("post decrement", d-- == it + 1);
        law::prove("post decrement moves", d == it);
        It e = it;
        --e;
        law::prove("decrement moves", e == it - 1);
        law::prove("decrement distance", it - e == 1);
        ++e;
        law::prove("back", e == it);
        law::prove("reflexive", it == it);
        law::prove("less equal", it <= it);
        law::prove("strict", !(it < it));
        law::prove("order of displacement", (it < a) == (n > 0));
        law::prove("greater", (it > a) == (n < 0));
        law::prove("greater equal", (it >= a) == (n <= 0));
        law::prove("free plus", n + it == it + n);
    }
    void pos(std::ptrdiff_t p, std::ptrdiff_t n, std::ptrdiff_t m)
    {
        const std::ptrdiff_t big = 1000000000000;
        law::require(0 < p && p < big);
        law::require(0 <= p + n && p + n < big);
        law::require(0 <= p + n + m && p + n + m < big);
        law::require(-big < m && m < big);
    }
}
void law_C21_bitset_const(const dynamic_bitset<u8>& b, std::ptrdiff_t p, std::ptrdiff_t n, std::ptrdiff_t m)
{
    pos(p, n, m);
    algebra(b.cbegin() + p, n, m);
}
void law_C21_bitset_const_deref(const dynamic_bitset<u8>& b, std::ptrdiff_t p)
{
    law::require(0 <= p && p < 1000000000000);
    law::require(static_cast<std::size_t>(p) < b.size());
    law::prove("element", *(b.cbegin() + p) == bit(b.data(), static_cast<std::size_t>(p)));
    law::prove("index", b.cbegin()[p] == bit(b.data(), static_cast<std::size_t>(p)));
    auto it = b.cbegin() + p;
    ++it;
    law::require(static_cast<std::size_t>(p) + 1 < b.size());
    law::prove("next element", *it == bit(b.data(), static_cast<std::size_t>(p) + 1));
    --it;
    law::prove("previous element", *it == bit(b.data(), static_cast<std::size_t>(p)));
}
void law_C21_bitset_extent(const dynamic_bitset<u8>& b)
{
    law::require(b.size() < 1000000000000);
    law::prove("size", b.cend() - b.cbegin() == static_cast<std::ptrdiff_t>(b.size()));
    law::prove("empty", (b.cbegin() == b.cend()) == (b.size() == 0));
    law::prove("end", b.cbegin() + static_cast<std::ptrdiff_t>(b.size()) == b.cend());
    law::prove("begin", b.cend() - static_cast<std::ptrdiff_t>(b.size()) == b.cbegin());
}
void law_C21_bitset_extent_mutable(dynamic_bitset<u8>& b)
{
    law::require(b.size() < 1000000000000);
    law::prove("size", b.end() - b.begin() == static_cast<std::ptrdiff_t>(b.size()));
    law::prove("end", b.begin() + static_cast<std::ptrdiff_t>(b.size()) == b.end());
}
void law_C21_bitset_view_extent(const dynamic_bitset_view<const u8>& b)
{
    law::require(b.size() < 1000000000000);
    law::prove("size", b.cend() - b.cbegin() == static_cast<std::ptrdiff_t>(b.size()));
    law::prove("end", b.cbegin() + static_cast<std::ptrdiff_t>(b.size()) == b.cend());
}
void law_C21_bitset(dynamic_bitset<u8>& b, std::ptrdiff_t p, std::ptrdiff_t n, std::ptrdiff_t m)
{
    pos(p, n, m);
    algebra(b.begin() + p, n, m);
}
void law_C21_primitive(const primitive_array<i32>& a, std::ptrdiff_t p, std::ptrdiff_t n, std::ptrdiff_t m)
{
    pos(p, n, m);
    algebra(a.cbegin() + p, n, m);
}
void law_C21_primitive_mutable(primitive_array<i32>& a, std::ptrdiff_t p, std::ptrdiff_t n, std::ptrdiff_t m)
{
    pos(p, n, m);
    algebra(a.begin() + p, n, m);
}
void law_C21_string(const string_array& a, std::ptrdiff_t p, std::ptrdiff_t n, std::ptrdiff_t m)
{
    pos(p, n, m);
    algebra(a.cbegin() + p, n, m);
}
void law_C21_string_mutable(string_array& a, std::ptrdiff_t p, std::ptrdiff_t n, std::ptrdiff_t m)
{
    pos(p, n, m);
    algebra(a.begin() + p, n, m);
}
void law_C21_string_view(const string_view_array& a, std::ptrdiff_t p, std::ptrdiff_t n, std::ptrdiff_t m)
{
    pos(p, n, m);
    algebra(a.cbegin() + p, n, m);
}
void law_C21_list(const list_array& a, std::ptrdiff_t p, std::ptrdiff_t n, std::ptrdiff_t m)
{
    pos(p, n, m);
    algebra(a.cbegin() + p, n, m);
}
void law_C21_struct(const struct_array& a, std::ptrdiff_t p, std::ptrdiff_t n, std::ptrdiff_t m)
{
    pos(p, n, m);
    algebra(a.cbegin() + p, n, m);
}
void law_C21_dictionary(const dictionary_encoded_array<i32>& a, std::ptrdiff_t p, std::ptrdiff_t n, std::ptrdiff_t m)
{
    pos(p, n, m);
    algebra(a.cbegin() + p, n, m);
}
void law_C21_union(const dense_union_array& a, std::ptrdiff_t p, std::ptrdiff_t n, std::ptrdiff_t m)
{
    pos(p, n, m);
    algebra(a.cbegin() + p, n, m);
}
void law_C21_repeat(const repeat_view<int>& v, std::ptrdiff_t p, std::ptrdiff_t n, std::ptrdiff_t m)
{
    pos(p, n, m);
    algebra(v.begin() + p, n, m);
    law::prove("extent", v.end() - v.begin() == static_cast<std::ptrdiff_t>(v.size()));
    law::prove("element", &*(v.begin() + p) == &*v.begin());
}
void law_C21_pointer(int* q, std::ptrdiff_t p, std::ptrdiff_t n, std::ptrdiff_t m)
{
    pos(p, n, m);
    const auto it = make_pointer_iterator(q);
    algebra(it + p, n, m);
    law::prove("element", &*(it + p) == q + p);
    law::prove("index", &(it[p]) == q + p);
}
void law_C21_buffer(buffer<int>& b, std::ptrdiff_t p, std::ptrdiff_t n, std::ptrdiff_t m)
{
    pos(p, n, m);
    algebra(b.begin() + p, n, m);
    law::prove("extent", b.end() - b.begin() == static_cast<std::ptrdiff_t>(b.size()));
    law::prove("element", &*(b.begin() + p) == b.data() + p);
}
void law_C21_buffer_view(const buffer_view<int>& b, std::ptrdiff_t p, std::ptrdiff_t n, std::ptrdiff_t m)
{
    pos(p, n, m);
    algebra(b.cbegin() + p, n, m);
    law::prove("extent", b.cend() - b.cbegin() == static_cast<std::ptrdiff_t>(b.size()));
    law::prove("element", &*(b.cbegin() + p) == b.data() + p);
}
// the extents of the arrays
template <class A>
void extent(const A& a)
{
    law::prove("extent", a.cend() - a.cbegin() == static_cast<std::ptrdiff_t>(a.size()));
    law::prove("begin", a.begin() == a.cbegin());
    law::prove("end", a.end() == a.cend());
    law::prove("values extent", static_cast<std::size_t>(a.values().end() - a.values().begin()) == a.size());
    law::prove("bitmap extent", static_cast<std::size_t>(a.bitmap().end() - a.bitmap().begin()) == a.size());
    law::prove("reverse", a.crbegin().base() == a.cend());
    law::prove("reverse end", a.crend().base() == a.cbegin());
    law::prove("empty", a.empty() == (a.size() == 0));
}
#define EXTENT(NAME, A, F)                                                                       \
    void law_C21_extent_##NAME(ArrowArray* a, ArrowSchema* s)                                    \
    {                                                                                            \
        leaf(a, s, F);                                                                           \
        foreign(a, s);                                                                           \
        law::require(a->offset + a->length < 1000000000000);                                     \
        const A arr(arrow_proxy(a, s));                                                          \
        extent(arr);                                                                             \
    }
EXTENT(int32, primitive_array<i32>, "i")
EXTENT(double, primitive_array<double>, "g")
EXTENT(string, string_array, "u")
EXTENT(string_view, string_view_array, "vu")

// run-end encoded arrays: from any position, in run k, two steps forward
namespace
{
    struct runs
    {
        const std::uint32_t* ends;
        std::size_t p, k, n;
    };
    runs in_run(ArrowArray* a, ArrowSchema* s, ArrowArray** ac, ArrowSchema** sc, ArrowArray* c0, ArrowSchema* s0, ArrowArray* c1, ArrowSchema* s1, std::size_t i, std::size_t k)
    {
        nested(a, s, "+r");
        a->children = ac;
        s->children = sc;
        idx(a, i);
        int_child(a, s, 0, c0, s0);
        int_child(a, s, 1, c1, s1);
        s0->format = "I";
        const auto* e = buf<std::uint32_t>(c0, 1) + off(c0);
        const auto p = off(a) + i;
        law::require(k < len(c0));
        law::require(len(c0) == len(c1));
        law::require(p < 1000000000);
        law::require(e[k] < 1000000000);
        law::require(p < e[k]);
        law::require(k == 0 || e[k - 1] <= p);
        law::require(e[k] < e[k + 1] && e[k + 1] < 1000000000);
        law::require(e[k + 1] < e[k + 2] && e[k + 2] < 1000000000);
        return {e, p, k, k + 2};
    }
}
#define RUN_STEPS(NAME, CV, CASE, K1, K2)                                                                                      \
    void law_C21_run_end_##NAME(ArrowArray* a, ArrowSchema* s, ArrowArray** ac, ArrowSchema** sc, ArrowArray* c0, ArrowSchema* s0, \
                                ArrowArray* c1, ArrowSchema* s1, std::size_t i, std::size_t k)                                 \
    {                                                                                                                          \
        const runs r = in_run(a, s, ac, sc, c0, s0, c1, s1, i, k);                                                             \
        law::require(i + 2 < len(a));                                                                                          \
        law::require(k + 2 < len(c0));                                                                                         \
        law::require(CASE);                                                                                                    \
        CV run_end_encoded_array arr(arrow_proxy(a, s));                                                                       \
        auto it = decltype(arr.begin())(&arr, i, k);                                                                           \
        const auto start = it;                                                                                                 \
        law::prove("at", is_int(*it, c1, k));                                                                                  \
        ++it;                                                                                                                  \
        law::prove("moves", it != start);                                                                                      \
        law::prove("next", is_int(*it, c1, K1));                                                                               \
        ++it;                                                                                                                  \
        law::prove("after next", is_int(*it, c1, K2));                                                                         \
    }
RUN_STEPS(same, const, r.p + 2 < r.ends[k], k, k)
RUN_STEPS(second, const, r.p + 2 == r.ends[k], k, k + 1)
RUN_STEPS(first, const, r.p + 1 == r.ends[k] && r.p + 2 < r.ends[k + 1], k + 1, k + 1)
RUN_STEPS(both, const, r.p + 1 == r.ends[k] && r.p + 2 == r.ends[k + 1], k + 1, k + 2)
RUN_STEPS(mutable_second, , r.p + 2 == r.ends[k], k, k + 1)
RUN_STEPS(mutable_first, , r.p + 1 == r.ends[k] && r.p + 2 < r.ends[k + 1], k + 1, k + 1)
void law_C21_run_end_begin(ArrowArray* a, ArrowSchema* s, ArrowArray** ac, ArrowSchema** sc, ArrowArray* c0, ArrowSchema* s0, ArrowArray* c1, ArrowSchema* s1)
{
    nested(a, s, "+r");
    a->children = ac;
    s->children = sc;
    law::require(len(a) > 0);
    int_child(a, s, 0, c0, s0);
    int_child(a, s, 1, c1, s1);
    s0->format = "I";
    const auto* ends = buf<std::uint32_t>(c0, 1) + off(c0);
    const auto* ub = std::upper_bound(ends, ends + len(c0), off(a));
    law::require(ub - ends >= 0);
    const auto k = static_cast<std::size_t>(ub - ends);
    law::require(k < len(c1));
    const run_end_encoded_array arr(arrow_proxy(a, s));
    law::prove("begin", is_int(*arr.begin(), c1, k));
    law::prove("not end", arr.begin() != arr.end());
}

void law_C21_bitset_view_deref(u8* d, std::size_t n, std::ptrdiff_t p)
{
    law::require(d != nullptr);
    law::require(n < 1000000000000);
    law::require(0 <= p && static_cast<std::size_t>(p) + 1 < n);
    dynamic_bitset_view<u8> b(d, n);
    const bool here = bit(d, static_cast<std::size_t>(p)), next = bit(d, static_cast<std::size_t>(p) + 1);
    auto it = b.begin() + p;
    law::prove("element", static_cast<bool>(*it) == here);
    law::prove("index", static_cast<bool>(it[1]) == next);
    ++it;
    law::prove("next element", static_cast<bool>(*it) == next);
    --it;
    law::prove("previous element", static_cast<bool>(*it) == here);
    auto e = b.end() - (static_cast<std::ptrdiff_t>(n) - p);
    law::prove("from end", static_cast<bool>(*e) == here);
    law::prove("const", *(b.cend() - (static_cast<std::ptrdiff_t>(n) - p)) == here);
}
void law_C21_bitset_write(u8* d, std::size_t n, std::ptrdiff_t p, std::ptrdiff_t q, bool v)
{
    law::require(d != nullptr);
    law::require(n < 1000000000000);
    law::require(0 <= p && static_cast<std::size_t>(p) < n);
    law::require(0 <= q && static_cast<std::size_t>(q) < n);
    dynamic_bitset_view<u8> b(d, n);
    const bool was = bit(d, static_cast<std::size_t>(q));
    *(b.begin() + p) = v;
    law::prove("written", bit(d, static_cast<std::size_t>(p)) == v);
    law::prove("others", q == p || bit(d, static_cast<std::size_t>(q)) == was);
}

void law_C21_run_end_last(ArrowArray* a, ArrowSchema* s, ArrowArray** ac, ArrowSchema** sc, ArrowArray* c0, ArrowSchema* s0, ArrowArray* c1, ArrowSchema* s1, std::size_t i, std::size_t k)
{
    const runs r = in_run(a, s, ac, sc, c0, s0, c1, s1, i, k);
    law::require(i + 2 == len(a));
    law::require(k + 2 < len(c0));
    law::require(r.p + 1 == r.ends[k]);
    const run_end_encoded_array arr(arrow_proxy(a, s));
    auto it = arr.begin();
    it = decltype(it)(&arr, i, k);
    law::prove("before last", it != arr.end());
    ++it;
    law::prove("last", it != arr.end());
    law::prove("element", is_int(*it, c1, k + 1));
    ++it;
    law::prove("end", it == arr.end());
}
