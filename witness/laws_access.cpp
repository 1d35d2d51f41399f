// C06: the i-th logical element of an array over any (array, schema) pair is the one the Arrow format puts there,
// whatever the array's offset.
#include "arrow_model.hpp"
using namespace fmt;

#define PRIM(NAME, T, F)                                                                                   \
    void law_C06_prim_##NAME(ArrowArray* a, ArrowSchema* s, std::size_t i)                                 \
    {                                                                                                      \
        leaf(a, s, F);                                                                                     \
        idx(a, i);                                                                                         \
        const primitive_array<T> arr(arrow_proxy(a, s));                                                   \
        auto r = arr[i];                                                                                   \
        law::prove("value", &r.get() == buf<T>(a, 1) + off(a) + i);                                        \
        law::prove("validity", r.has_value() == bit(a->buffers[0], off(a) + i));                           \
        law::prove("size", arr.size() == len(a));                                                          \
        auto it = arr.begin() + static_cast<std::ptrdiff_t>(i);                                            \
        auto q = *it;                                                                                      \
        law::prove("iterator value", &q.get() == buf<T>(a, 1) + off(a) + i);                               \
        law::prove("iterator validity", q.has_value() == bit(a->buffers[0], off(a) + i));                  \
        law::prove("iterator extent", arr.end() - arr.begin() == a->length);                               \
    }
PRIM(int8, std::int8_t, "c")
PRIM(uint8, std::uint8_t, "C")
PRIM(int16, std::int16_t, "s")
PRIM(uint16, std::uint16_t, "S")
PRIM(int32, std::int32_t, "i")
PRIM(uint32, std::uint32_t, "I")
PRIM(int64, std::int64_t, "l")
PRIM(uint64, std::uint64_t, "L")
PRIM(float, float, "f")
PRIM(double, double, "g")

// booleans are one bit each, values included
void law_C06_prim_bool(ArrowArray* a, ArrowSchema* s, std::size_t i)
{
    leaf(a, s, "b");
    law::require(a->buffers[1] != nullptr);
    idx(a, i);
    const primitive_array<bool> arr(arrow_proxy(a, s));
    auto r = arr[i];
    law::prove("validity", r.has_value() == bit(a->buffers[0], off(a) + i));
    law::prove("value", r.get() == bit(a->buffers[1], off(a) + i));
}

void law_C06_prim_mutable(ArrowArray* a, ArrowSchema* s, std::size_t i)
{
    leaf(a, s, "i");
    idx(a, i);
    primitive_array<i32> arr(arrow_proxy(a, s));
    auto r = arr[i];
    law::prove("value", &r.get() == buf<i32>(a, 1) + off(a) + i);
    auto q = *(arr.begin() + static_cast<std::ptrdiff_t>(i));
    law::prove("iterator value", &q.get() == buf<i32>(a, 1) + off(a) + i);
}

void law_C06_erased(ArrowArray* a, ArrowSchema* s, std::size_t i)
{
    leaf(a, s, "i");
    idx(a, i);
    const array arr(a, s);
    law::prove("element", is_int(arr[i], a, i));
    law::prove("at", is_int(arr.at(i), a, i));
    law::prove("size", arr.size() == len(a));
    law::prove("front", is_int(arr.front(), a, 0));
    law::prove("back", is_int(arr.back(), a, len(a) - 1));
}

void law_C06_string(ArrowArray* a, ArrowSchema* s, std::size_t i)
{
    leaf(a, s, "u");
    idx(a, i);
    const string_array arr(arrow_proxy(a, s));
    const auto* o = buf<i32>(a, 1) + off(a);
    law::require(0 <= o[i] && o[i] <= o[i + 1]);
    auto r = arr[i];
    law::prove("data", r.get().data() == buf<char>(a, 2) + o[i]);
    law::prove("length", r.get().size() == static_cast<std::size_t>(o[i + 1] - o[i]));
    law::prove("validity", r.has_value() == bit(a->buffers[0], off(a) + i));
    auto q = *(arr.begin() + static_cast<std::ptrdiff_t>(i));
    law::prove("iterator data", q.get().data() == buf<char>(a, 2) + o[i]);
    law::prove("iterator validity", q.has_value() == bit(a->buffers[0], off(a) + i));
    law::prove("size", arr.size() == len(a));
}
void law_C06_string_mutable(ArrowArray* a, ArrowSchema* s, std::size_t i)
{
    leaf(a, s, "u");
    idx(a, i);
    string_array arr(arrow_proxy(a, s));
    const auto* o = buf<i32>(a, 1) + off(a);
    law::require(0 <= o[i] && o[i] <= o[i + 1]);
    auto r = arr[i];
    law::prove("length", r.get().size() == static_cast<std::size_t>(o[i + 1] - o[i]));
    law::prove("data", &*r.get().begin() == buf<char>(a, 2) + o[i]);
}
void law_C06_string_view(ArrowArray* a, ArrowSchema* s, std::size_t i)
{
    leaf(a, s, "vu");
    law::require(a->n_buffers >= 3);
    idx(a, i);
    const string_view_array arr(arrow_proxy(a, s));
    const auto* v = buf<u8>(a, 1) + 16 * (off(a) + i);
    const auto n = *reinterpret_cast<const i32*>(v);
    law::require(n >= 0);
    law::require(n <= 12 || *reinterpret_cast<const i32*>(v + 8) >= 0);
    auto r = arr[i];
    law::prove("length", r.get().size() == static_cast<std::size_t>(n));
    law::prove("inline data", n > 12 || r.get().data() == reinterpret_cast<const char*>(v) + 4);
    law::prove("validity", r.has_value() == bit(a->buffers[0], off(a) + i));
}
void law_C06_string_view_long(ArrowArray* a, ArrowSchema* s, std::size_t i)
{
    leaf(a, s, "vu");
    foreign(a, s);
    law::require(a->n_buffers >= 3);
    idx(a, i);
    const auto* v = buf<u8>(a, 1) + 16 * (off(a) + i);
    const auto n = *reinterpret_cast<const i32*>(v);
    const auto which = *reinterpret_cast<const i32*>(v + 8);
    const auto at = *reinterpret_cast<const i32*>(v + 12);
    law::require(n > 12);
    law::require(0 <= which && which < a->n_buffers - 3);
    law::require(0 <= at);
    const string_view_array arr(arrow_proxy(a, s));
    auto r = arr[i];
    law::prove("data", r.get().data() == static_cast<const char*>(a->buffers[2 + which]) + at);
}

template <class L, class O>
void list_law(ArrowArray* a, ArrowSchema* s, ArrowArray** ac, ArrowSchema** sc, ArrowArray* c0, ArrowSchema* s0, ArrowArray* c1, ArrowSchema* s1, std::size_t i, std::size_t k, const char* f)
{
    nested(a, s, f);
    a->children = ac;
    s->children = sc;
    int_child(a, s, 0, c0, s0);
    idx(a, i);
    const auto* o = buf<O>(a, 1) + off(a);
    law::require(0 <= o[i] && o[i] <= o[i + 1]);
    const auto n = static_cast<std::size_t>(o[i + 1] - o[i]);
    const L arr(arrow_proxy(a, s));
    auto r = arr[i];
    law::prove("validity", r.has_value() == bit(a->buffers[0], off(a) + i));
    law::prove("list size", r.get().size() == n);
    law::require(k < n);
    law::require(static_cast<std::size_t>(o[i]) + k < len(c0));
    law::prove("list element", is_int(r.get()[k], c0, static_cast<std::size_t>(o[i]) + k));
}
void law_C06_list(ArrowArray* a, ArrowSchema* s, ArrowArray** ac, ArrowSchema** sc, ArrowArray* c0, ArrowSchema* s0, ArrowArray* c1, ArrowSchema* s1, std::size_t i, std::size_t k)
{
    list_law<list_array, i32>(a, s, ac, sc, c0, s0, c1, s1, i, k, "+l");
}
void law_C06_big_list(ArrowArray* a, ArrowSchema* s, ArrowArray** ac, ArrowSchema** sc, ArrowArray* c0, ArrowSchema* s0, ArrowArray* c1, ArrowSchema* s1, std::size_t i, std::size_t k)
{
    list_law<big_list_array, i64>(a, s, ac, sc, c0, s0, c1, s1, i, k, "+L");
}
template <class L, class O>
void list_view_law(ArrowArray* a, ArrowSchema* s, ArrowArray** ac, ArrowSchema** sc, ArrowArray* c0, ArrowSchema* s0, ArrowArray* c1, ArrowSchema* s1, std::size_t i, std::size_t k, const char* f)
{
    nested(a, s, f);
    a->children = ac;
    s->children = sc;
    int_child(a, s, 0, c0, s0);
    idx(a, i);
    const auto* o = buf<O>(a, 1) + off(a);
    const auto* z = buf<O>(a, 2) + off(a);
    law::require(0 <= o[i] && 0 <= z[i]);
    const auto n = static_cast<std::size_t>(z[i]);
    const L arr(arrow_proxy(a, s));
    auto r = arr[i];
    law::prove("validity", r.has_value() == bit(a->buffers[0], off(a) + i));
    law::prove("list size", r.get().size() == n);
    law::require(k < n);
    law::require(static_cast<std::size_t>(o[i]) + k < len(c0));
    law::prove("list element", is_int(r.get()[k], c0, static_cast<std::size_t>(o[i]) + k));
}
void law_C06_list_view(ArrowArray* a, ArrowSchema* s, ArrowArray** ac, ArrowSchema** sc, ArrowArray* c0, ArrowSchema* s0, ArrowArray* c1, ArrowSchema* s1, std::size_t i, std::size_t k)
{
    list_view_law<list_view_array, i32>(a, s, ac, sc, c0, s0, c1, s1, i, k, "+vl");
}
void law_C06_big_list_view(ArrowArray* a, ArrowSchema* s, ArrowArray** ac, ArrowSchema** sc, ArrowArray* c0, ArrowSchema* s0, ArrowArray* c1, ArrowSchema* s1, std::size_t i, std::size_t k)
{
    list_view_law<big_list_view_array, i64>(a, s, ac, sc, c0, s0, c1, s1, i, k, "+vL");
}
void law_C06_fixed_list(ArrowArray* a, ArrowSchema* s, ArrowArray** ac, ArrowSchema** sc, ArrowArray* c0, ArrowSchema* s0, ArrowArray* c1, ArrowSchema* s1, std::size_t i, std::size_t k)
{
    nested(a, s, "+w:3");
    a->children = ac;
    s->children = sc;
    idx(a, i);
    int_child(a, s, 0, c0, s0);
    const fixed_sized_list_array arr(arrow_proxy(a, s));
    auto r = arr[i];
    law::prove("validity", r.has_value() == bit(a->buffers[0], off(a) + i));
    law::prove("list size", r.get().size() == 3);
    law::require(k < 3);
    law::require((off(a) + i) * 3 + k < len(c0));
    law::prove("list element", is_int(r.get()[k], c0, (off(a) + i) * 3 + k));
}
void law_C06_struct(ArrowArray* a, ArrowSchema* s, ArrowArray** ac, ArrowSchema** sc, ArrowArray* c0, ArrowSchema* s0, ArrowArray* c1, ArrowSchema* s1, std::size_t i, std::size_t k)
{
    nested(a, s, "+s");
    a->children = ac;
    s->children = sc;
    idx(a, i);
    int_child(a, s, 0, c0, s0);
    int_child(a, s, 1, c1, s1);
    law::require(off(a) + i < len(c0));
    law::require(off(a) + i < len(c1));
    const struct_array arr(arrow_proxy(a, s));
    auto r = arr[i];
    law::prove("validity", r.has_value() == bit(a->buffers[0], off(a) + i));
    law::prove("fields", r.get().size() == 2);
    law::prove("field 0", is_int(r.get()[0], c0, off(a) + i));
    law::prove("field 1", is_int(r.get()[1], c1, off(a) + i));
}
void law_C06_sparse_union(ArrowArray* a, ArrowSchema* s, ArrowArray** ac, ArrowSchema** sc, ArrowArray* c0, ArrowSchema* s0, ArrowArray* c1, ArrowSchema* s1, std::size_t i)
{
    nested(a, s, "+us:5,7");
    a->children = ac;
    s->children = sc;
    idx(a, i);
    int_child(a, s, 0, c0, s0);
    int_child(a, s, 1, c1, s1);
    law::require(off(a) + i < len(c0));
    law::require(off(a) + i < len(c1));
    const auto id = buf<u8>(a, 0)[off(a) + i];
    law::require(id == 5 || id == 7);
    const sparse_union_array arr(arrow_proxy(a, s));
    law::prove("element", is_int(arr[i], id == 5 ? c0 : c1, off(a) + i));
}
void law_C06_dense_union(ArrowArray* a, ArrowSchema* s, ArrowArray** ac, ArrowSchema** sc, ArrowArray* c0, ArrowSchema* s0, ArrowArray* c1, ArrowSchema* s1, std::size_t i)
{
    nested(a, s, "+ud:5,7");
    a->children = ac;
    s->children = sc;
    idx(a, i);
    int_child(a, s, 0, c0, s0);
    int_child(a, s, 1, c1, s1);
    const auto o = buf<i32>(a, 1)[off(a) + i];
    law::require(0 <= o);
    law::require(static_cast<std::size_t>(o) < len(c0));
    law::require(static_cast<std::size_t>(o) < len(c1));
    const auto id = buf<u8>(a, 0)[off(a) + i];
    law::require(id == 5 || id == 7);
    const dense_union_array arr(arrow_proxy(a, s));
    law::prove("element", is_int(arr[i], id == 5 ? c0 : c1, static_cast<std::size_t>(o)));
}
void law_C06_dictionary(ArrowArray* a, ArrowSchema* s, ArrowArray** ac, ArrowSchema** sc, ArrowArray* c0, ArrowSchema* s0, ArrowArray* c1, ArrowSchema* s1, std::size_t i)
{
    nested(a, s, "i");
    a->children = ac;
    s->children = sc;
    idx(a, i);
    leaf(c0, s0, "i");
    foreign(c0, s0);
    a->dictionary = c0;
    s->dictionary = s0;
    const auto k = buf<i32>(a, 1)[off(a) + i];
    law::require(0 <= k);
    law::require(static_cast<std::size_t>(k) < len(c0));
    const dictionary_encoded_array<i32> arr(arrow_proxy(a, s));
    law::require(bit(a->buffers[0], off(a) + i));
    law::prove("element", is_int(arr[i], c0, static_cast<std::size_t>(k)));
}
template <class T>
void run_end(const char* format, ArrowArray* a, ArrowSchema* s, ArrowArray** ac, ArrowSchema** sc, ArrowArray* c0, ArrowSchema* s0, ArrowArray* c1, ArrowSchema* s1, std::size_t i)
{
    nested(a, s, "+r");
    a->children = ac;
    s->children = sc;
    idx(a, i);
    int_child(a, s, 0, c0, s0);
    int_child(a, s, 1, c1, s1);
    s0->format = format;
    const auto* ends = buf<T>(c0, 1) + off(c0);
    const auto* ub = std::upper_bound(ends, ends + len(c0), off(a) + i);
    law::require(ub - ends >= 0);
    const auto k = static_cast<std::size_t>(ub - ends);
    law::require(k < len(c1));
    const run_end_encoded_array arr(arrow_proxy(a, s));
    law::prove("element", is_int(arr[i], c1, k));
}
#define RUN_ENDS(name, T, format)                                                                                       \
    void law_C06_run_end##name(ArrowArray* a, ArrowSchema* s, ArrowArray** ac, ArrowSchema** sc, ArrowArray* c0, ArrowSchema* s0, ArrowArray* c1, ArrowSchema* s1, std::size_t i) \
    { run_end<T>(format, a, s, ac, sc, c0, s0, c1, s1, i); }
RUN_ENDS(, std::uint32_t, "I")
RUN_ENDS(_u16, std::uint16_t, "S")
RUN_ENDS(_u64, std::uint64_t, "L")
RUN_ENDS(_i16, std::int16_t, "s")
RUN_ENDS(_i32, std::int32_t, "i")
RUN_ENDS(_i64, std::int64_t, "l")

void law_C06_fixed_list_wide(ArrowArray* a, ArrowSchema* s, ArrowArray** ac, ArrowSchema** sc, ArrowArray* c0, ArrowSchema* s0, std::size_t i, std::size_t k)
{
    nested(a, s, "+w:12");
    a->children = ac;
    s->children = sc;
    idx(a, i);
    int_child(a, s, 0, c0, s0);
    const fixed_sized_list_array arr(arrow_proxy(a, s));
    auto r = arr[i];
    law::prove("validity", r.has_value() == bit(a->buffers[0], off(a) + i));
    law::prove("list size", r.get().size() == 12);
    law::require(k < 12);
    law::require((off(a) + i) * 12 + k < len(c0));
    law::prove("list element", is_int(r.get()[k], c0, (off(a) + i) * 12 + k));
}
// type ids that are a permutation of the positions of the children, and ids of several digits
#define UNION3(NAME, ARR, F, I0, I1, I2, DENSE)                                                                          \
    void law_C06_##NAME(ArrowArray* a, ArrowSchema* s, ArrowArray** ac, ArrowSchema** sc, ArrowArray* c0, ArrowSchema* s0, \
                        ArrowArray* c1, ArrowSchema* s1, ArrowArray* c2, ArrowSchema* s2, std::size_t i)                   \
    {                                                                                                                      \
        nested(a, s, F);                                                                                                   \
        a->children = ac;                                                                                                  \
        s->children = sc;                                                                                                  \
        idx(a, i);                                                                                                         \
        int_child(a, s, 0, c0, s0);                                                                                        \
        int_child(a, s, 1, c1, s1);                                                                                        \
        int_child(a, s, 2, c2, s2);                                                                                        \
        const auto o = DENSE ? buf<i32>(a, 1)[off(a) + i] : 0;                                                             \
        law::require(0 <= o);                                                                                              \
        const std::size_t at = DENSE ? static_cast<std::size_t>(o) : off(a) + i;                                           \
        law::require(at < len(c0));                                                                                        \
        law::require(at < len(c1));                                                                                        \
        law::require(at < len(c2));                                                                                        \
        const auto id = buf<u8>(a, 0)[off(a) + i];                                                                         \
        law::require(id == I0 || id == I1 || id == I2);                                                                    \
        const ARR arr(arrow_proxy(a, s));                                                                                  \
        law::prove("element", is_int(arr[i], id == I0 ? c0 : id == I1 ? c1 : c2, at));                                     \
    }
UNION3(sparse_union_permuted, sparse_union_array, "+us:1,2,0", 1, 2, 0, false)
UNION3(dense_union_permuted, dense_union_array, "+ud:2,0,1", 2, 0, 1, true)
UNION3(dense_union_digits, dense_union_array, "+ud:4,42,120", 4, 42, 120, true)
