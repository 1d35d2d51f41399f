// C12: a type-erased array is the typed array of its format: same size, same elements, same data type, and visiting it
// hands over the array class of that format.
#include "arrow_model.hpp"
using namespace fmt;

template <class A>
struct kind
{
    bool operator()(const A&) const
    {
        return true;
    }
    template <class B>
    bool operator()(const B&) const
    {
        return false;
    }
};
template <class A>
void same_kind(const array& arr, data_type dt)
{
    law::prove("data type", arr.data_type() == dt);
    law::prove("visit", arr.visit(kind<A>{}));
}
template <class R>
const R* held(const elem& e)
{
    return std::get_if<R>(&e);
}

template <class T>
void erased(ArrowArray* a, ArrowSchema* s, std::size_t i, const char* f, data_type dt)
{
    leaf(a, s, f);
    idx(a, i);
    const array arr(a, s);
    same_kind<primitive_array<T>>(arr, dt);
    law::prove("size", arr.size() == len(a));
    const elem e = arr[i];
    const auto* p = held<nullable<const T&>>(e);
    law::prove("alternative", p != nullptr);
    law::prove("value", &p->get() == buf<T>(a, 1) + off(a) + i);
    law::prove("validity", p->has_value() == bit(a->buffers[0], off(a) + i));
    const elem x = arr.at(i);
    law::prove("at", &held<nullable<const T&>>(x)->get() == buf<T>(a, 1) + off(a) + i);
}
#define ERASED(NAME, T, F, DT)                                                  \
    void law_C12_erased_##NAME(ArrowArray* a, ArrowSchema* s, std::size_t i)    \
    {                                                                           \
        erased<T>(a, s, i, F, data_type::DT);                                   \
    }
ERASED(int8, std::int8_t, "c", INT8)
ERASED(uint8, std::uint8_t, "C", UINT8)
ERASED(int16, std::int16_t, "s", INT16)
ERASED(uint16, std::uint16_t, "S", UINT16)
ERASED(int32, std::int32_t, "i", INT32)
ERASED(uint32, std::uint32_t, "I", UINT32)
ERASED(int64, std::int64_t, "l", INT64)
ERASED(uint64, std::uint64_t, "L", UINT64)
ERASED(half, float16_t, "e", HALF_FLOAT)
ERASED(float, float, "f", FLOAT)
ERASED(double, double, "g", DOUBLE)

void law_C12_erased_string(ArrowArray* a, ArrowSchema* s, std::size_t i)
{
    leaf(a, s, "u");
    foreign(a, s);
    idx(a, i);
    const auto* o = buf<i32>(a, 1) + off(a);
    law::require(0 <= o[i] && o[i] <= o[i + 1]);
    const array arr(a, s);
    same_kind<string_array>(arr, data_type::STRING);
    law::prove("size", arr.size() == len(a));
    const elem e = arr[i];
    const auto* p = held<string_array::const_reference>(e);
    law::prove("alternative", p != nullptr);
    law::prove("data", p->get().data() == buf<char>(a, 2) + o[i]);
    law::prove("length", p->get().size() == static_cast<std::size_t>(o[i + 1] - o[i]));
    law::prove("validity", p->has_value() == bit(a->buffers[0], off(a) + i));
}
void law_C12_erased_null(ArrowArray* a, ArrowSchema* s, std::size_t i)
{
    leaf(a, s, "n");
    idx(a, i);
    const array arr(a, s);
    same_kind<null_array>(arr, data_type::NA);
    law::prove("size", arr.size() == len(a));
    const elem e = arr[i];
    const auto* p = held<null_array::const_reference>(e);
    law::prove("alternative", p != nullptr);
    law::prove("null", !p->has_value());
}

#define PARTS ArrowArray *a, ArrowSchema *s, ArrowArray **ac, ArrowSchema **sc, ArrowArray *c0, ArrowSchema *s0, ArrowArray *c1, ArrowSchema *s1
#define PASS a, s, ac, sc, c0, s0, c1, s1
inline void over(PARTS, const char* f)
{
    nested(a, s, f);
    a->children = ac;
    s->children = sc;
}
template <class A, class O>
void list(PARTS, std::size_t i, std::size_t k, const char* f, data_type dt, bool view)
{
    over(PASS, f);
    int_child(a, s, 0, c0, s0);
    idx(a, i);
    const auto* o = buf<O>(a, 1) + off(a);
    const auto from = static_cast<std::size_t>(o[i]);
    law::require(0 <= o[i]);
    law::require(view ? 0 <= (buf<O>(a, 2) + off(a))[i] : o[i] <= o[i + 1]);
    const auto n = static_cast<std::size_t>(view ? (buf<O>(a, 2) + off(a))[i] : o[i + 1] - o[i]);
    law::require(k < n);
    law::require(from + n <= len(c0));
    const array arr(a, s);
    same_kind<A>(arr, dt);
    const elem e = arr[i];
    const auto* p = held<nullable<list_value>>(e);
    law::prove("alternative", p != nullptr);
    law::prove("list size", p->get().size() == n);
    law::prove("validity", p->has_value() == bit(a->buffers[0], off(a) + i));
    law::prove("list element", is_int(p->get()[k], c0, from + k));
}
void law_C12_erased_list(PARTS, std::size_t i, std::size_t k) { list<list_array, i32>(PASS, i, k, "+l", data_type::LIST, false); }
void law_C12_erased_big_list(PARTS, std::size_t i, std::size_t k) { list<big_list_array, i64>(PASS, i, k, "+L", data_type::LARGE_LIST, false); }
void law_C12_erased_list_view(PARTS, std::size_t i, std::size_t k) { list<list_view_array, i32>(PASS, i, k, "+vl", data_type::LIST_VIEW, true); }
void law_C12_erased_big_list_view(PARTS, std::size_t i, std::size_t k) { list<big_list_view_array, i64>(PASS, i, k, "+vL", data_type::LARGE_LIST_VIEW, true); }
void law_C12_erased_fixed_list(PARTS, std::size_t i, std::size_t k)
{
    over(PASS, "+w:5");
    int_child(a, s, 0, c0, s0);
    idx(a, i);
    law::require(k < 5);
    law::require((off(a) + len(a)) * 5 <= len(c0));
    const array arr(a, s);
    same_kind<fixed_sized_list_array>(arr, data_type::FIXED_SIZED_LIST);
    const elem e = arr[i];
    const auto* p = held<nullable<list_value>>(e);
    law::prove("alternative", p != nullptr);
    law::prove("list element", is_int(p->get()[k], c0, (off(a) + i) * 5 + k));
}
void law_C12_erased_struct(PARTS, std::size_t i)
{
    over(PASS, "+s");
    idx(a, i);
    int_child(a, s, 0, c0, s0);
    int_child(a, s, 1, c1, s1);
    law::require(off(a) + len(a) <= len(c0));
    law::require(off(a) + len(a) <= len(c1));
    const array arr(a, s);
    same_kind<struct_array>(arr, data_type::STRUCT);
    const elem e = arr[i];
    const auto* p = held<nullable<struct_value>>(e);
    law::prove("alternative", p != nullptr);
    law::prove("validity", p->has_value() == bit(a->buffers[0], off(a) + i));
    law::prove("field 0", is_int(p->get()[0], c0, off(a) + i));
    law::prove("field 1", is_int(p->get()[1], c1, off(a) + i));
}
void law_C12_erased_sparse_union(PARTS, std::size_t i)
{
    over(PASS, "+us:5,7");
    idx(a, i);
    int_child(a, s, 0, c0, s0);
    int_child(a, s, 1, c1, s1);
    law::require(off(a) + len(a) <= len(c0));
    law::require(off(a) + len(a) <= len(c1));
    const auto id = buf<u8>(a, 0)[off(a) + i];
    law::require(id == 5 || id == 7);
    const array arr(a, s);
    same_kind<sparse_union_array>(arr, data_type::SPARSE_UNION);
    law::prove("element", is_int(arr[i], id == 5 ? c0 : c1, off(a) + i));
}
void law_C12_erased_dense_union(PARTS, std::size_t i)
{
    over(PASS, "+ud:5,7");
    idx(a, i);
    int_child(a, s, 0, c0, s0);
    int_child(a, s, 1, c1, s1);
    const auto o = buf<i32>(a, 1)[off(a) + i];
    law::require(0 <= o);
    law::require(static_cast<std::size_t>(o) < len(c0));
    law::require(static_cast<std::size_t>(o) < len(c1));
    const auto id = buf<u8>(a, 0)[off(a) + i];
    law::require(id == 5 || id == 7);
    const array arr(a, s);
    same_kind<dense_union_array>(arr, data_type::DENSE_UNION);
    law::prove("element", is_int(arr[i], id == 5 ? c0 : c1, static_cast<std::size_t>(o)));
}
void law_C12_erased_run_end(PARTS, std::size_t i)
{
    over(PASS, "+r");
    idx(a, i);
    int_child(a, s, 0, c0, s0);
    int_child(a, s, 1, c1, s1);
    s0->format = "I";
    const auto* ends = buf<std::uint32_t>(c0, 1) + off(c0);
    const auto* ub = std::upper_bound(ends, ends + len(c0), off(a) + i);
    law::require(ub - ends >= 0);
    const auto k = static_cast<std::size_t>(ub - ends);
    law::require(k < len(c1));
    const array arr(a, s);
    same_kind<run_end_encoded_array>(arr, data_type::RUN_ENCODED);
    law::prove("element", is_int(arr[i], c1, k));
}
template <class K>
void dict(PARTS, std::size_t i, const char* f, data_type dt)
{
    over(PASS, f);
    idx(a, i);
    leaf(c0, s0, "i");
    foreign(c0, s0);
    a->dictionary = c0;
    s->dictionary = s0;
    const auto k = buf<K>(a, 1)[off(a) + i];
    law::require(0 <= k);
    law::require(static_cast<std::size_t>(k) < len(c0));
    const array arr(a, s);
    same_kind<dictionary_encoded_array<K>>(arr, dt);
    law::require(bit(a->buffers[0], off(a) + i));
    law::prove("element", is_int(arr[i], c0, static_cast<std::size_t>(k)));
}
#define DICT(NAME, T, F, DT) void law_C12_erased_dict_##NAME(PARTS, std::size_t i) { dict<T>(PASS, i, F, data_type::DT); }
DICT(int8, std::int8_t, "c", INT8)
DICT(uint8, std::uint8_t, "C", UINT8)
DICT(int16, std::int16_t, "s", INT16)
DICT(uint16, std::uint16_t, "S", UINT16)
DICT(int32, std::int32_t, "i", INT32)
DICT(uint32, std::uint32_t, "I", UINT32)
DICT(int64, std::int64_t, "l", INT64)
DICT(uint64, std::uint64_t, "L", UINT64)

// wrapping a typed array
void law_C12_wrap_move(ArrowArray* a, ArrowSchema* s, std::size_t i)
{
    leaf(a, s, "i");
    idx(a, i);
    primitive_array<i32> t(arrow_proxy(a, s));
    const array arr(std::move(t));
    same_kind<primitive_array<i32>>(arr, data_type::INT32);
    law::prove("size", arr.size() == len(a));
    law::prove("element", is_int(arr[i], a, i));
}
void law_C12_wrap_pointer(ArrowArray* a, ArrowSchema* s, std::size_t i)
{
    leaf(a, s, "i");
    idx(a, i);
    primitive_array<i32> t(arrow_proxy(a, s));
    const array arr(&t);
    same_kind<primitive_array<i32>>(arr, data_type::INT32);
    law::prove("size", arr.size() == len(a));
    law::prove("element", is_int(arr[i], a, i));
}
void law_C12_wrap_dictionary(PARTS, std::size_t i)
{
    over(PASS, "s");
    idx(a, i);
    leaf(c0, s0, "i");
    foreign(c0, s0);
    a->dictionary = c0;
    s->dictionary = s0;
    const auto k = buf<std::int16_t>(a, 1)[off(a) + i];
    law::require(0 <= k);
    law::require(static_cast<std::size_t>(k) < len(c0));
    dictionary_encoded_array<std::int16_t> t(arrow_proxy(a, s));
    const array arr(std::move(t));
    same_kind<dictionary_encoded_array<std::int16_t>>(arr, data_type::INT16);
    law::require(bit(a->buffers[0], off(a) + i));
    law::prove("element", is_int(arr[i], c0, static_cast<std::size_t>(k)));
}
// formats without a layout are refused, not misread
#define REFUSED(NAME, F)                                                                          \
    void law_C12_refused_##NAME(ArrowArray* a, ArrowSchema* s)                                     \
    {                                                                                             \
        leaf(a, s, F);                                                                            \
        foreign(a, s);                                                                            \
        const array arr(a, s);                                                                    \
        law::unreachable("built");                                                                \
    }
REFUSED(large_string, "U")
REFUSED(large_binary, "Z")
REFUSED(binary, "z")
REFUSED(string_view, "vu")
REFUSED(decimal, "d:19,10")
REFUSED(fixed_binary, "w:42")
void law_C12_refused_dict_float(PARTS)
{
    over(PASS, "f");
    leaf(c0, s0, "i");
    foreign(c0, s0);
    a->dictionary = c0;
    s->dictionary = s0;
    const array arr(a, s);
    law::unreachable("built");
}
REFUSED(map, "+m")
REFUSED(timestamp, "tss:")
void law_C12_ends(ArrowArray* a, ArrowSchema* s)
{
    leaf(a, s, "i");
    foreign(a, s);
    law::require(len(a) > 0);
    const array arr(a, s);
    law::prove("front", is_int(arr.front(), a, 0));
    law::prove("back", is_int(arr.back(), a, len(a) - 1));
    law::prove("empty", !arr.empty());
}
void law_C12_slice(ArrowArray* a, ArrowSchema* s, std::size_t b, std::size_t e, std::size_t i)
{
    leaf(a, s, "i");
    foreign(a, s);
    law::require(b <= e && e <= len(a));
    law::require(i < e - b);
    const array arr(a, s);
    const array x = arr.slice_view(b, e);
    law::prove("size", x.size() == e - b);
    law::prove("element", is_int(x[i], a, b + i));
    law::prove("source size", arr.size() == len(a));
}
