// C06, continued: every other way to reach element i (checked access, front and back, iterators from either end,
// reverse iterators, the value range, the validity range) reaches the element the Arrow format puts there.
#include "arrow_model.hpp"
using namespace fmt;

// is(r): nullable reference r is element i; iv(v): v is the value of element i
template <class A, class IS, class IV>
void reads(const A& arr, const ArrowArray* a, std::size_t i, const IS& is, const IV& iv)
{
    const auto d = static_cast<std::ptrdiff_t>(i);
    const auto n = static_cast<std::ptrdiff_t>(a->length);
    const bool ok = bit(a->buffers[0], off(a) + i);
    law::prove("at", is(arr.at(i)));
    law::prove("size", arr.size() == len(a));
    law::prove("not empty", !arr.empty());
    auto b = *(arr.begin() + d);
    law::prove("from begin", is(b));
    auto c = *(arr.cend() - (n - d));
    law::prove("from end", is(c));
    law::prove("reverse", is(*(arr.crbegin() + (n - 1 - d))));
    law::prove("value range", iv(*(arr.values().begin() + d)));
    law::prove("value range extent", arr.values().end() - arr.values().begin() == a->length);
    law::prove("validity range", *(arr.bitmap().begin() + d) == ok);
    law::prove("validity range extent", arr.bitmap().end() - arr.bitmap().begin() == a->length);
}
template <class A, class IS>
void ends(const A& arr, const ArrowArray* a, std::size_t i, const IS& is)
{
    if (i == 0)
    {
        law::prove("front", is(arr.front()));
        law::prove("begin", is(*arr.begin()));
    }
    if (i == len(a) - 1)
    {
        law::prove("back", is(arr.back()));
        law::prove("rbegin", is(*arr.crbegin()));
    }
}

template <class T>
struct is_cell
{
    const ArrowArray* a;
    std::size_t i;
    template <class R>
    bool operator()(const R& r) const
    {
        return &r.get() == buf<T>(a, 1) + off(a) + i && r.has_value() == bit(a->buffers[0], off(a) + i);
    }
};
template <class T>
struct at_cell
{
    const ArrowArray* a;
    std::size_t i;
    bool operator()(const T& r) const
    {
        return &r == buf<T>(a, 1) + off(a) + i;
    }
};
template <class T>
void prim(ArrowArray* a, ArrowSchema* s, std::size_t i, const char* f)
{
    leaf(a, s, f);
    idx(a, i);
    const primitive_array<T> arr(arrow_proxy(a, s));
    reads(arr, a, i, is_cell<T>{a, i}, at_cell<T>{a, i});
    ends(arr, a, i, is_cell<T>{a, i});
    primitive_array<T> m(arrow_proxy(a, s));
    law::prove("mutable at", is_cell<T>{a, i}(m.at(i)));
    law::prove("mutable reverse", is_cell<T>{a, i}(*(m.rbegin() + (a->length - 1 - static_cast<std::ptrdiff_t>(i)))));
    ends(m, a, i, is_cell<T>{a, i});
}
void law_C06_reads_int32(ArrowArray* a, ArrowSchema* s, std::size_t i) { prim<i32>(a, s, i, "i"); }
void law_C06_reads_uint8(ArrowArray* a, ArrowSchema* s, std::size_t i) { prim<u8>(a, s, i, "C"); }
void law_C06_reads_double(ArrowArray* a, ArrowSchema* s, std::size_t i) { prim<double>(a, s, i, "g"); }

template <class O>
struct is_text
{
    const ArrowArray* a;
    std::size_t i;
    template <class V>
    bool text(const V& v) const
    {
        const auto* o = buf<O>(a, 1) + off(a);
        return static_cast<const void*>(&*v.begin()) == buf<char>(a, 2) + o[i] && v.size() == static_cast<std::size_t>(o[i + 1] - o[i]);
    }
    template <class R>
    bool operator()(const R& r) const
    {
        return text(r.get()) && r.has_value() == bit(a->buffers[0], off(a) + i);
    }
};
template <class O>
struct at_text
{
    const ArrowArray* a;
    std::size_t i;
    template <class R>
    bool operator()(const R& r) const
    {
        return is_text<O>{a, i}.text(r);
    }
};
template <class A, class O>
void text(ArrowArray* a, ArrowSchema* s, std::size_t i, const char* f)
{
    leaf(a, s, f);
    idx(a, i);
    const auto* o = buf<O>(a, 1) + off(a);
    law::require(0 <= o[i] && o[i] <= o[i + 1]);
    const A arr(arrow_proxy(a, s));
    reads(arr, a, i, is_text<O>{a, i}, at_text<O>{a, i});
    ends(arr, a, i, is_text<O>{a, i});
    A m(arrow_proxy(a, s));
    law::prove("mutable", is_text<O>{a, i}(m[i]));
    law::prove("mutable at", is_text<O>{a, i}(m.at(i)));
    law::prove("mutable iterator", is_text<O>{a, i}(*(m.begin() + static_cast<std::ptrdiff_t>(i))));
}
void law_C06_reads_string(ArrowArray* a, ArrowSchema* s, std::size_t i) { text<string_array, i32>(a, s, i, "u"); }
void law_C06_reads_binary(ArrowArray* a, ArrowSchema* s, std::size_t i) { text<variable_size_binary_array_impl<std::vector<std::byte>, std::span<const std::byte>, i32>, i32>(a, s, i, "z"); }

struct is_view
{
    const ArrowArray* a;
    std::size_t i;
    bool text(const std::string_view& v) const
    {
        const auto* p = buf<u8>(a, 1) + 16 * (off(a) + i);
        const auto n = *reinterpret_cast<const i32*>(p);
        return v.size() == static_cast<std::size_t>(n)
               && v.data()
                      == (n <= 12 ? reinterpret_cast<const char*>(p) + 4
                                  : static_cast<const char*>(a->buffers[2 + *reinterpret_cast<const i32*>(p + 8)])
                                        + *reinterpret_cast<const i32*>(p + 12));
    }
    template <class R>
    bool operator()(const R& r) const
    {
        return text(r.get()) && r.has_value() == bit(a->buffers[0], off(a) + i);
    }
};
struct at_view
{
    const ArrowArray* a;
    std::size_t i;
    bool operator()(const std::string_view& r) const
    {
        return is_view{a, i}.text(r);
    }
};
void law_C06_reads_string_view(ArrowArray* a, ArrowSchema* s, std::size_t i)
{
    leaf(a, s, "vu");
    foreign(a, s);
    law::require(a->n_buffers >= 3);
    idx(a, i);
    const auto* v = buf<u8>(a, 1) + 16 * (off(a) + i);
    const auto n = *reinterpret_cast<const i32*>(v);
    const auto which = *reinterpret_cast<const i32*>(v + 8);
    law::require(n >= 0);
    law::require(n <= 12 || (0 <= which && which < a->n_buffers - 3));
    law::require(n <= 12 || 0 <= *reinterpret_cast<const i32*>(v + 12));
    const string_view_array arr(arrow_proxy(a, s));
    law::prove("at", is_view{a, i}(arr.at(i)));
    auto b = *(arr.begin() + static_cast<std::ptrdiff_t>(i));
    law::prove("from begin", is_view{a, i}(b));
    law::prove("value range", at_view{a, i}(*(arr.values().begin() + static_cast<std::ptrdiff_t>(i))));
    law::prove("validity range", *(arr.bitmap().begin() + static_cast<std::ptrdiff_t>(i)) == bit(a->buffers[0], off(a) + i));
    law::prove("size", arr.size() == len(a));
    ends(arr, a, i, is_view{a, i});
}

// nested layouts: (a, s) over foreign int32 children
#define PARTS ArrowArray *a, ArrowSchema *s, ArrowArray **ac, ArrowSchema **sc, ArrowArray *c0, ArrowSchema *s0, ArrowArray *c1, ArrowSchema *s1
#define PASS a, s, ac, sc, c0, s0, c1, s1
inline void over(PARTS, const char* f)
{
    nested(a, s, f);
    a->children = ac;
    s->children = sc;
}

// a list value shows elements [from, from + n) of the child c
struct is_list
{
    const ArrowArray* a;
    const ArrowArray* c;
    std::size_t i, from, n, k;
    bool value(const list_value& v) const
    {
        return v.size() == n && is_int(v[k], c, from + k);
    }
    template <class R>
    bool operator()(const R& r) const
    {
        return value(r.get()) && r.has_value() == bit(a->buffers[0], off(a) + i);
    }
};
struct at_list
{
    is_list l;
    bool operator()(const list_value& r) const
    {
        return l.value(r);
    }
};
template <class A, class O>
void list(PARTS, std::size_t i, std::size_t k, const char* f, bool view)
{
    over(PASS, f);
    int_child(a, s, 0, c0, s0);
    idx(a, i);
    const auto* o = buf<O>(a, 1) + off(a);
    const auto from = static_cast<std::size_t>(o[i]);
    law::require(0 <= o[i]);
    law::require(view ? 0 <= (buf<O>(a, 2) + off(a))[i] : o[i] <= o[i + 1]);
    const auto n = static_cast<std::size_t>(view ? (buf<O>(a, 2) + off(a))[i] : o[i + 1] - o[i]);
    law::require(k < n);
    law::require(from + n <= len(c0));
    const A arr(arrow_proxy(a, s));
    const is_list is{a, c0, i, from, n, k};
    reads(arr, a, i, is, at_list{is});
    ends(arr, a, i, is);
    
}
void law_C06_reads_list(PARTS, std::size_t i, std::size_t k) { list<list_array, i32>(PASS, i, k, "+l", false); }
void law_C06_reads_big_list(PARTS, std::size_t i, std::size_t k) { list<big_list_array, i64>(PASS, i, k, "+L", false); }
void law_C06_reads_list_view(PARTS, std::size_t i, std::size_t k) { list<list_view_array, i32>(PASS, i, k, "+vl", true); }
void law_C06_reads_big_list_view(PARTS, std::size_t i, std::size_t k) { list<big_list_view_array, i64>(PASS, i, k, "+vL", true); }
void law_C06_reads_fixed_list(PARTS, std::size_t i, std::size_t k)
{
    over(PASS, "+w:5");
    int_child(a, s, 0, c0, s0);
    idx(a, i);
    law::require(k < 5);
    law::require((off(a) + len(a)) * 5 <= len(c0));
    const fixed_sized_list_array arr(arrow_proxy(a, s));
    const is_list is{a, c0, i, (off(a) + i) * 5, 5, k};
    reads(arr, a, i, is, at_list{is});
    ends(arr, a, i, is);
}

struct is_struct
{
    const ArrowArray* a;
    const ArrowArray* c0;
    const ArrowArray* c1;
    std::size_t i;
    bool value(const struct_value& v) const
    {
        return v.size() == 2 && is_int(v[0], c0, off(a) + i) && is_int(v[1], c1, off(a) + i);
    }
    template <class R>
    bool operator()(const R& r) const
    {
        return value(r.get()) && r.has_value() == bit(a->buffers[0], off(a) + i);
    }
};
struct at_struct
{
    is_struct l;
    bool operator()(const struct_value& r) const
    {
        return l.value(r);
    }
};
void law_C06_reads_struct(PARTS, std::size_t i)
{
    over(PASS, "+s");
    idx(a, i);
    int_child(a, s, 0, c0, s0);
    int_child(a, s, 1, c1, s1);
    law::require(off(a) + len(a) <= len(c0));
    law::require(off(a) + len(a) <= len(c1));
    const struct_array arr(arrow_proxy(a, s));
    const is_struct is{a, c0, c1, i};
    reads(arr, a, i, is, at_struct{is});
    ends(arr, a, i, is);
}

struct is_child
{
    const ArrowArray* c;
    std::size_t j;
    template <class R>
    bool operator()(const R& r) const
    {
        return is_int(r, c, j);
    }
};
void law_C06_reads_sparse_union(PARTS, std::size_t i)
{
    over(PASS, "+us:5,7");
    idx(a, i);
    int_child(a, s, 0, c0, s0);
    int_child(a, s, 1, c1, s1);
    law::require(off(a) + len(a) <= len(c0));
    law::require(off(a) + len(a) <= len(c1));
    const auto id = buf<u8>(a, 0)[off(a) + i];
    law::require(id == 5 || id == 7);
    const sparse_union_array arr(arrow_proxy(a, s));
    const is_child is{id == 5 ? c0 : c1, off(a) + i};
    law::prove("size", arr.size() == len(a));
    law::prove("from begin", is(*(arr.begin() + static_cast<std::ptrdiff_t>(i))));
    law::prove("from end", is(*(arr.cend() - (a->length - static_cast<std::ptrdiff_t>(i)))));
}
void law_C06_reads_dense_union(PARTS, std::size_t i)
{
    over(PASS, "+ud:5,7");
    idx(a, i);
    int_child(a, s, 0, c0, s0);
    int_child(a, s, 1, c1, s1);
    const auto o = buf<i32>(a, 1)[off(a) + i];
    law::require(0 <= o);
    law::require(static_cast<std::size_t>(o) < len(c0));
    law::require(static_cast<std::size_t>(o) < len(c1));
    const auto id = buf<u8>(a, 0)[off(a) + i];
    law::require(id == 5 || id == 7);
    const dense_union_array arr(arrow_proxy(a, s));
    const is_child is{id == 5 ? c0 : c1, static_cast<std::size_t>(o)};
    law::prove("size", arr.size() == len(a));
    law::prove("from begin", is(*(arr.begin() + static_cast<std::ptrdiff_t>(i))));
    law::prove("from end", is(*(arr.cend() - (a->length - static_cast<std::ptrdiff_t>(i)))));
}
template <class K>
void dict(PARTS, std::size_t i, const char* f)
{
    over(PASS, f);
    idx(a, i);
    leaf(c0, s0, "i");
    foreign(c0, s0);
    a->dictionary = c0;
    s->dictionary = s0;
    const auto k = buf<K>(a, 1)[off(a) + i];
    law::require(0 <= k);
    law::require(static_cast<std::size_t>(k) < len(c0));
    const dictionary_encoded_array<K> arr(arrow_proxy(a, s));
    law::require(bit(a->buffers[0], off(a) + i));
    const is_child is{c0, static_cast<std::size_t>(k)};
    law::prove("size", arr.size() == len(a));
    law::prove("element", is(arr[i]));
    law::prove("from begin", is(*(arr.begin() + static_cast<std::ptrdiff_t>(i))));
    law::prove("from end", is(*(arr.cend() - (a->length - static_cast<std::ptrdiff_t>(i)))));
}
void law_C06_reads_dictionary(PARTS, std::size_t i) { dict<i32>(PASS, i, "i"); }
void law_C06_reads_dictionary_u8(PARTS, std::size_t i) { dict<u8>(PASS, i, "C"); }
void law_C06_reads_dictionary_i64(PARTS, std::size_t i) { dict<i64>(PASS, i, "l"); }

void law_C06_reads_null(ArrowArray* a, ArrowSchema* s, std::size_t i)
{
    leaf(a, s, "n");
    idx(a, i);
    const null_array arr(arrow_proxy(a, s));
    law::prove("size", arr.size() == len(a));
    law::prove("null", !arr[i].has_value());
    law::prove("iterator", !(*(arr.begin() + static_cast<std::ptrdiff_t>(i))).has_value());
    law::prove("extent", arr.end() - arr.begin() == a->length);
}
