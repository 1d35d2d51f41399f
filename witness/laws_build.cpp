// C22: an array built from its parts reads those parts.
#include "parts.hpp"
#include <array>
#include <span>

namespace
{
    // the structures an array built here holds: its own, whole, with the extents its parts have
    void whole(const auto& x, const char* format, std::size_t n, std::size_t nulls, i64 nb, i64 k)
    {
        law::total("the parts are accepted");
        const ArrowArray* a = own(x);
        const ArrowSchema* s = &detail::array_access::get_arrow_proxy(x).schema();
        law::prove("the length is the number of elements", a->length == static_cast<i64>(n) && x.size() == n);
        law::prove("the array starts at its first element", a->offset == 0);
        law::prove("the null count is that of the bitmap", a->null_count == static_cast<i64>(nulls));
        law::prove("the number of buffers is that of the layout", a->n_buffers == nb);
        law::prove("the number of children is that of the layout", a->n_children == k && s->n_children == k);
        law::prove("the format is that of the layout", std::string_view(s->format) == format);
    }
    template <class T>
    u8_buffer<T> row(std::size_t n, std::size_t k, T v, T d)
    {
        law::require(k < n && n <= 0x0fffffffffffffff);
        u8_buffer<T> b(n, d);
        b[k] = v;
        return b;
    }
}

#define PRIM(NAME, T, F)                                                                          \
    void law_C22_##NAME(std::size_t n, std::size_t k, T v, T d, std::size_t i)                    \
    {                                                                                             \
        u8_buffer<T> b = row<T>(n, k, v, d);                                                      \
        law::require(i < n);                                                                      \
        const primitive_array<T> x(std::move(b), validity_bitmap{});                              \
        whole(x, F, n, 0, 2, 0);                                                                  \
        law::prove("without a bitmap every element is valid", x[i].has_value());                  \
        law::prove("element i is the i-th value given", x[i].value() == (i == k ? v : d));        \
    }
PRIM(i8, std::int8_t, "c")
PRIM(u8, std::uint8_t, "C")
PRIM(i16, std::int16_t, "s")
PRIM(u16, std::uint16_t, "S")
PRIM(i32, std::int32_t, "i")
PRIM(u32, std::uint32_t, "I")
PRIM(i64, std::int64_t, "l")
PRIM(u64, std::uint64_t, "L")

void law_C22_prim_bits(std::size_t n, std::size_t k, i32 v, std::size_t m, std::size_t i)
{
    u8_buffer<i32> b = row<i32>(n, k, v, 0);
    law::require(i < n && m < n);
    validity_bitmap bits(n, true);
    bits.set(m, false);
    const primitive_array<i32> x(std::move(b), std::move(bits));
    whole(x, "i", n, 1, 2, 0);
    law::prove("element i is valid when its bit is set", x[i].has_value() == (i != m));
    law::prove("element i is the i-th value given", x[i].get() == (i == k ? v : 0));
}
void law_C22_prim_bits_copy(std::size_t n, std::size_t k, i32 v, std::size_t m, std::size_t i)
{
    u8_buffer<i32> b = row<i32>(n, k, v, 0);
    law::require(i < n && m < n);
    validity_bitmap bits(n, true);
    bits.set(m, false);
    const validity_bitmap& c = bits;
    const primitive_array<i32> x(std::move(b), c);
    whole(x, "i", n, 1, 2, 0);
    law::prove("element i is valid when its bit is set", x[i].has_value() == (i != m));
    law::prove("the bitmap given stays", bits.size() == n && bits.null_count() == 1);
}
void law_C22_prim_fill(std::size_t n, i32 v, std::size_t i)
{
    law::require(i < n && n <= 0x0fffffffffffffff);
    const primitive_array<i32> x(n, v);
    whole(x, "i", n, 0, 2, 0);
    law::prove("every element is the value given", x[i].has_value() && x[i].value() == v);
}
void law_C22_prim_range(const i32* p, std::size_t n, std::size_t i)
{
    law::require(p != nullptr && i < n && n <= 0x0fffffffffffffff);
    const primitive_array<i32> x(std::span<const i32>(p, n), validity_bitmap{});
    whole(x, "i", n, 0, 2, 0);
    law::prove("element i is the i-th value given", x[i].has_value() && x[i].value() == p[i]);
}
void law_C22_prim_bools(i32 v0, i32 v1, i32 v2, bool f0, bool f1, bool f2)
{
    const std::array<i32, 3> v{v0, v1, v2};
    const std::array<bool, 3> f{f0, f1, f2};
    const primitive_array<i32> x(v, f);
    whole(x, "i", 3, std::size_t(!f0) + std::size_t(!f1) + std::size_t(!f2), 2, 0);
    law::prove("element 0", x[0].has_value() == f0 && x[0].get() == v0);
    law::prove("element 1", x[1].has_value() == f1 && x[1].get() == v1);
    law::prove("element 2", x[2].has_value() == f2 && x[2].get() == v2);
}
void law_C22_prim_nullables(i32 v0, i32 v1, i32 v2, bool f0, bool f1, bool f2)
{
    const nullable<i32> n0(std::move(v0), std::move(f0)), n1(std::move(v1), std::move(f1)), n2(std::move(v2), std::move(f2));
    const std::array<nullable<i32>, 3> v{n0, n1, n2};
    const primitive_array<i32> x(v);
    whole(x, "i", 3, std::size_t(!f0) + std::size_t(!f1) + std::size_t(!f2), 2, 0);
    law::prove("element 0", x[0].has_value() == f0 && x[0].get() == v0);
    law::prove("element 1", x[1].has_value() == f1 && x[1].get() == v1);
    law::prove("element 2", x[2].has_value() == f2 && x[2].get() == v2);
}
void law_C22_prim_values(const i32* p, std::size_t n, std::size_t i)
{
    law::require(p != nullptr && i < n && n <= 0x0fffffffffffffff);
    const primitive_array<i32> x(std::span<const i32>(p, n));
    whole(x, "i", n, 0, 2, 0);
    law::prove("element i is the i-th value given", x[i].has_value() && x[i].value() == p[i]);
}
void law_C22_prim_indices(i32 v0, i32 v1, i32 v2, std::size_t m)
{
    law::require(m < 3);
    const std::array<i32, 3> v{v0, v1, v2};
    const std::array<std::size_t, 1> nulls{m};
    const primitive_array<i32> x(v, nulls);
    whole(x, "i", 3, 1, 2, 0);
    law::prove("the elements listed are null", x[0].has_value() == (m != 0) && x[1].has_value() == (m != 1) && x[2].has_value() == (m != 2));
    law::prove("the values are those given", x[0].get() == v0 && x[1].get() == v1 && x[2].get() == v2);
}

namespace
{
    // offsets o[0..n] over the characters c[0..m): string i is c[o[i]..o[i + 1])
    template <class O>
    u8_buffer<O> offsets(const O* o, std::size_t n, std::size_t m, std::size_t i)
    {
        law::require(o != nullptr && i < n && n < 0x0fffffff && m < 0x0fffffff);
        law::require(o[i] >= 0 && o[i] <= o[i + 1] && static_cast<std::size_t>(o[i + 1]) <= m);
        law::require(o[n] >= 0 && static_cast<std::size_t>(o[n]) <= m);
        return u8_buffer<O>(std::span<const O>(o, n + 1));
    }
}
#define STRINGS(NAME, A, O, F)                                                                                                     \
    void law_C22_##NAME(const char* c, const O* o, std::size_t n, std::size_t m, std::size_t i, std::size_t k)                     \
    {                                                                                                                              \
        law::require(c != nullptr);                                                                                                \
        u8_buffer<O> off = offsets<O>(o, n, m, i);                                                                                 \
        const A x(u8_buffer<char>(std::span<const char>(c, m)), std::move(off), validity_bitmap{});                                \
        whole(x, F, n, 0, 3, 0);                                                                                                   \
        law::prove("without a bitmap every element is valid", x[i].has_value());                                                   \
        law::prove("element i has the length between its offsets", x[i].value().size() == static_cast<std::size_t>(o[i + 1] - o[i])); \
        law::require(k < static_cast<std::size_t>(o[i + 1] - o[i]));                                                               \
        law::prove("element i has the characters between its offsets", x[i].value()[k] == c[static_cast<std::size_t>(o[i]) + k]);  \
    }
STRINGS(string, string_array, i32, "u")
void law_C22_string_bits(const char* c, const i32* o, std::size_t n, std::size_t m, std::size_t i, std::size_t k)
{
    law::require(c != nullptr && k < n);
    u8_buffer<i32> off = offsets<i32>(o, n, m, i);
    validity_bitmap bits(n, true);
    bits.set(k, false);
    const string_array x(u8_buffer<char>(std::span<const char>(c, m)), std::move(off), std::move(bits));
    whole(x, "u", n, 1, 3, 0);
    law::prove("element i is valid when its bit is set", x[i].has_value() == (i != k));
}

// ---- nested arrays: the children are arrays of another library, moved in
namespace
{
    // an owned array over the foreign structures c and s; a copy of what they say stays for the oracle
    struct child
    {
        ArrowArray was;
        array arr;
    };
    ArrowArray seen(ArrowArray* c, ArrowSchema* s, const char* format = "i")
    {
        part(c, s, format, 2);
        return *c;
    }
    void inside(const ArrowArray& c, std::size_t k)
    {
        law::require(k < len(&c));
    }
}
#define FLAT ArrowArray *c0, ArrowSchema *s0
template <class L, class O>
void list_of(FLAT, const O* o, std::size_t n, std::size_t i, std::size_t k, const char* f)
{
    const ArrowArray c = seen(c0, s0);
    u8_buffer<O> off = offsets<O>(o, n, len(&c), i);
    const L x(array(std::move(*c0), std::move(*s0)), std::move(off), validity_bitmap{});
    whole(x, f, n, 0, 2, 1);
    law::prove("without a bitmap every element is valid", x[i].has_value());
    law::prove("element i has the length between its offsets", x[i].get().size() == static_cast<std::size_t>(o[i + 1] - o[i]));
    law::require(k < static_cast<std::size_t>(o[i + 1] - o[i]));
    law::prove("element i holds the values between its offsets", is_int(x[i].get()[k], &c, static_cast<std::size_t>(o[i]) + k));
}
void law_C22_list(FLAT, const i32* o, std::size_t n, std::size_t i, std::size_t k) { list_of<list_array, i32>(c0, s0, o, n, i, k, "+l"); }
void law_C22_big_list(FLAT, const i64* o, std::size_t n, std::size_t i, std::size_t k) { list_of<big_list_array, i64>(c0, s0, o, n, i, k, "+L"); }
template <class L, class O>
void list_view_of(FLAT, const O* o, const O* z, std::size_t n, std::size_t i, std::size_t k, const char* f)
{
    const ArrowArray c = seen(c0, s0);
    law::require(o != nullptr && z != nullptr && i < n && n < 0x0fffffff);
    law::require(o[i] >= 0 && z[i] >= 0 && static_cast<std::size_t>(o[i]) + static_cast<std::size_t>(z[i]) <= len(&c));
    const L x(array(std::move(*c0), std::move(*s0)), u8_buffer<O>(std::span<const O>(o, n)), u8_buffer<O>(std::span<const O>(z, n)), validity_bitmap{});
    whole(x, f, n, 0, 3, 1);
    law::prove("without a bitmap every element is valid", x[i].has_value());
    law::prove("element i has the size given", x[i].get().size() == static_cast<std::size_t>(z[i]));
    law::require(k < static_cast<std::size_t>(z[i]));
    law::prove("element i holds the values from its offset", is_int(x[i].get()[k], &c, static_cast<std::size_t>(o[i]) + k));
}
void law_C22_list_view(FLAT, const i32* o, const i32* z, std::size_t n, std::size_t i, std::size_t k) { list_view_of<list_view_array, i32>(c0, s0, o, z, n, i, k, "+vl"); }
void law_C22_big_list_view(FLAT, const i64* o, const i64* z, std::size_t n, std::size_t i, std::size_t k) { list_view_of<big_list_view_array, i64>(c0, s0, o, z, n, i, k, "+vL"); }
void law_C22_fixed_list(FLAT, std::size_t i, std::size_t k)
{
    const ArrowArray c = seen(c0, s0);
    law::require(i < len(&c) / 3 && k < 3);
    const fixed_sized_list_array x(std::uint64_t(3), array(std::move(*c0), std::move(*s0)), validity_bitmap{});
    whole(x, "+w:3", len(&c) / 3, 0, 1, 1);
    law::prove("without a bitmap every element is valid", x[i].has_value());
    law::prove("element i has the list size", x[i].get().size() == 3);
    law::prove("element i holds the values of its row", is_int(x[i].get()[k], &c, 3 * i + k));
}
void law_C22_list_bits(FLAT, const i32* o, std::size_t n, std::size_t i, std::size_t m)
{
    const ArrowArray c = seen(c0, s0);
    u8_buffer<i32> off = offsets<i32>(o, n, len(&c), i);
    law::require(m < n);
    validity_bitmap bits(n, true);
    bits.set(m, false);
    const list_array x(array(std::move(*c0), std::move(*s0)), std::move(off), std::move(bits));
    whole(x, "+l", n, 1, 2, 1);
    law::prove("element i is valid when its bit is set", x[i].has_value() == (i != m));
}
void law_C22_list_view_bits(FLAT, const i32* o, const i32* z, std::size_t n, std::size_t i, std::size_t m)
{
    const ArrowArray c = seen(c0, s0);
    law::require(o != nullptr && z != nullptr && i < n && n < 0x0fffffff && m < n);
    law::require(o[i] >= 0 && z[i] >= 0 && static_cast<std::size_t>(o[i]) + static_cast<std::size_t>(z[i]) <= len(&c));
    validity_bitmap bits(n, true);
    bits.set(m, false);
    const list_view_array x(array(std::move(*c0), std::move(*s0)), u8_buffer<i32>(std::span<const i32>(o, n)), u8_buffer<i32>(std::span<const i32>(z, n)), std::move(bits));
    whole(x, "+vl", n, 1, 3, 1);
    law::prove("element i is valid when its bit is set", x[i].has_value() == (i != m));
}
void law_C22_fixed_list_bits(FLAT, std::size_t i, std::size_t m)
{
    const ArrowArray c = seen(c0, s0);
    law::require(i < len(&c) / 3 && m < len(&c) / 3);
    validity_bitmap bits(len(&c) / 3, true);
    bits.set(m, false);
    const fixed_sized_list_array x(std::uint64_t(3), array(std::move(*c0), std::move(*s0)), std::move(bits));
    whole(x, "+w:3", len(&c) / 3, 1, 1, 1);
    law::prove("element i is valid when its bit is set", x[i].has_value() == (i != m));
}
void law_C22_dictionary(FLAT, const i32* q, std::size_t n, std::size_t i, std::size_t m)
{
    const ArrowArray c = seen(c0, s0);
    law::require(q != nullptr && i < n && m < n && n < 0x0fffffff);
    law::require(q[i] >= 0 && static_cast<std::size_t>(q[i]) < len(&c));
    validity_bitmap bits(n, true);
    bits.set(m, false);
    const dictionary_encoded_array<i32> x(u8_buffer<i32>(std::span<const i32>(q, n)), array(std::move(*c0), std::move(*s0)), std::move(bits));
    whole(x, "i", n, 1, 2, 0);
    law::prove("the dictionary is attached", own(x)->dictionary != nullptr);
    law::require(i != m);
    law::prove("element i is the value its key designates", is_int(x[i], &c, static_cast<std::size_t>(q[i])));
}
void law_C22_dictionary_null(FLAT, const i32* q, std::size_t n, std::size_t i)
{
    const ArrowArray c = seen(c0, s0);
    law::require(q != nullptr && i < n && n < 0x0fffffff);
    law::require(q[i] >= 0 && static_cast<std::size_t>(q[i]) < len(&c));
    validity_bitmap bits(n, true);
    bits.set(i, false);
    const dictionary_encoded_array<i32> x(u8_buffer<i32>(std::span<const i32>(q, n)), array(std::move(*c0), std::move(*s0)), std::move(bits));
    law::prove("element i is null when its bit is not set", !x[i].has_value());
}
#define PAIR ArrowArray *c0, ArrowSchema *s0, ArrowArray *c1, ArrowSchema *s1
void law_C22_struct(PAIR, std::size_t i, std::size_t m)
{
    const ArrowArray c = seen(c0, s0), d = seen(c1, s1);
    law::require(c.length == d.length && c.length > 0 && i < len(&c) && m < len(&c));
    validity_bitmap bits(len(&c), true);
    bits.set(m, false);
    std::vector<array> cs;
    cs.push_back(array(std::move(*c0), std::move(*s0)));
    cs.push_back(array(std::move(*c1), std::move(*s1)));
    const struct_array x(std::move(cs), std::move(bits));
    whole(x, "+s", len(&c), 1, 1, 2);
    law::prove("element i is valid when its bit is set", x[i].has_value() == (i != m));
    law::prove("field 0 is child 0", is_int(x[i].get()[0], &c, i));
    law::prove("field 1 is child 1", is_int(x[i].get()[1], &d, i));
}
void law_C22_run_end(PAIR, std::size_t i, std::size_t k)
{
    const ArrowArray c = seen(c0, s0, "I"), d = seen(c1, s1);
    law::require(c.length == d.length && c.length > 0);
    const auto* e = buf<std::uint32_t>(&c, 1) + off(&c);
    const auto n = static_cast<std::size_t>(e[c.length - 1]);
    const run_end_encoded_array x(array(std::move(*c0), std::move(*s0)), array(std::move(*c1), std::move(*s1)));
    law::prove("the length is the last run end", x.size() == n && own(x)->length == static_cast<i64>(n));
    law::prove("the array starts at its first element", own(x)->offset == 0);
    law::prove("the layout is run-end encoded", own(x)->n_buffers == 0 && own(x)->n_children == 2);
    law::prove("the format is that of the layout", std::string_view(detail::array_access::get_arrow_proxy(x).schema().format) == "+r");
    law::require(i < n);
    const auto* ub = std::upper_bound(e, e + len(&c), i);
    law::require(ub - e == static_cast<std::ptrdiff_t>(k) && k < len(&d));
    law::prove("element i is the value of its run", is_int(x[i], &d, k));
}
void law_C22_run_end_none(PAIR)
{
    const ArrowArray c = seen(c0, s0, "I"), d = seen(c1, s1);
    law::require(c.length == d.length && c.length == 0);
    const run_end_encoded_array x(array(std::move(*c0), std::move(*s0)), array(std::move(*c1), std::move(*s1)));
    law::prove("no elements", x.size() == 0 && own(x)->length == 0);
    law::prove("the null count is 0", own(x)->null_count == 0);
    law::prove("begin is end", x.begin() == x.end());
    law::total("no failure");
}
template <u8 T0, u8 T1>
void sparse_of(PAIR)
{
    c0->offset = 3;
    c1->offset = 7;
    const ArrowArray c = seen(c0, s0), d = seen(c1, s1);
    law::require(c.length == 2 && d.length == 2);
    std::vector<array> cs;
    cs.push_back(array(std::move(*c0), std::move(*s0)));
    cs.push_back(array(std::move(*c1), std::move(*s1)));
    const std::array<u8, 2> t{T0, T1};
    const sparse_union_array x(std::move(cs), u8_buffer<u8>(t));
    const ArrowArray* p = T0 == 0 ? &c : &d;
    const ArrowArray* q = T1 == 0 ? &c : &d;
    whole(x, "+us:0,1", 2, std::size_t(!bit(p->buffers[0], off(p))) + std::size_t(!bit(q->buffers[0], off(q) + 1)), 1, 2);
    law::prove("element 0 is that of the child its type id names", is_int(x[0], p, 0));
    law::prove("element 1 is that of the child its type id names", is_int(x[1], q, 1));
}
void law_C22_sparse_00(PAIR) { sparse_of<0, 0>(c0, s0, c1, s1); }
void law_C22_sparse_01(PAIR) { sparse_of<0, 1>(c0, s0, c1, s1); }
void law_C22_sparse_10(PAIR) { sparse_of<1, 0>(c0, s0, c1, s1); }
template <u8 T0, u8 T1>
void dense_of(PAIR, i32 o0, i32 o1)
{
    const ArrowArray c = seen(c0, s0), d = seen(c1, s1);
    const ArrowArray* p = T0 == 0 ? &c : &d;
    const ArrowArray* q = T1 == 0 ? &c : &d;
    law::require(o0 >= 0 && o1 >= 0 && o0 < p->length && o1 < q->length);
    std::vector<array> cs;
    cs.push_back(array(std::move(*c0), std::move(*s0)));
    cs.push_back(array(std::move(*c1), std::move(*s1)));
    const std::array<u8, 2> t{T0, T1};
    const std::array<std::uint32_t, 2> o{static_cast<std::uint32_t>(o0), static_cast<std::uint32_t>(o1)};
    const dense_union_array x(std::move(cs), u8_buffer<u8>(t), u8_buffer<std::uint32_t>(o));
    const auto k0 = static_cast<std::size_t>(o0), k1 = static_cast<std::size_t>(o1);
    whole(x, "+ud:0,1", 2, std::size_t(!bit(p->buffers[0], off(p) + k0)) + std::size_t(!bit(q->buffers[0], off(q) + k1)), 2, 2);
    law::prove("element 0 is that of the child its type id names", is_int(x[0], p, k0));
    law::prove("element 1 is that of the child its type id names", is_int(x[1], q, k1));
}
void law_C22_dense_00(PAIR, i32 o0, i32 o1) { dense_of<0, 0>(c0, s0, c1, s1, o0, o1); }
void law_C22_dense_01(PAIR, i32 o0, i32 o1) { dense_of<0, 1>(c0, s0, c1, s1, o0, o1); }
void law_C22_dense_10(PAIR, i32 o0, i32 o1) { dense_of<1, 0>(c0, s0, c1, s1, o0, o1); }
// type ids of the caller's choosing
void law_C22_sparse_ids(PAIR)
{
    const ArrowArray c = seen(c0, s0), d = seen(c1, s1);
    law::require(c.length == 2 && d.length == 2);
    std::vector<array> cs;
    cs.push_back(array(std::move(*c0), std::move(*s0)));
    cs.push_back(array(std::move(*c1), std::move(*s1)));
    const std::array<u8, 2> t{4, 1};
    std::vector<u8> ids;
    ids.push_back(1);
    ids.push_back(4);
    const sparse_union_array x(std::move(cs), u8_buffer<u8>(t), std::move(ids));
    law::prove("the format lists the type ids", std::string_view(detail::array_access::get_arrow_proxy(x).schema().format) == "+us:1,4");
    law::prove("element 0 is that of the child its type id names", is_int(x[0], &d, 0));
    law::prove("element 1 is that of the child its type id names", is_int(x[1], &c, 1));
}
void law_C22_string_range(const char* p, const char* q, std::size_t n, std::size_t m, std::size_t k)
{
    law::require(p != nullptr && q != nullptr && n < 0x0fffffff && m < 0x0fffffff);
    const std::array<std::string_view, 2> v{std::string_view(p, n), std::string_view(q, m)};
    const string_array x(v, validity_bitmap{});
    whole(x, "u", 2, 0, 3, 0);
    law::prove("every element is valid", x[0].has_value() && x[1].has_value());
    law::prove("the elements have their lengths", x[0].value().size() == std::size_t(n) && x[1].value().size() == std::size_t(m));
    law::require(k < n && k < m);
    law::prove("the first element has its characters", x[0].value()[k] == p[k]);
    law::prove("the second element has its characters", x[1].value()[k] == q[k]);
}
void law_C22_string_nullables(const char* p, const char* q, std::size_t n, std::size_t m, bool f, bool g, std::size_t k)
{
    law::require(p != nullptr && q != nullptr && n < 0x0fffffff && m < 0x0fffffff);
    std::vector<nullable<std::string>> v;
    v.push_back(nullable<std::string>(std::string(p, n), std::move(f)));
    v.push_back(nullable<std::string>(std::string(q, m), std::move(g)));
    const string_array x(v);
    whole(x, "u", 2, std::size_t(!f) + std::size_t(!g), 3, 0);
    law::prove("the elements are valid as given", x[0].has_value() == f && x[1].has_value() == g);
    law::prove("the elements have their lengths", x[0].get().size() == std::size_t(n) && x[1].get().size() == std::size_t(m));
}

// ---- values in line, or in a storage of their own
template <bool S0, bool S1>
void views_of(const char* p, const char* q, std::size_t n, std::size_t m, std::size_t k)
{
    law::require(p != nullptr && q != nullptr && n < 0x0fffffff && m < 0x0fffffff && (n <= 12) == S0 && (m <= 12) == S1 && n > 0 && m > 0);
    const std::array<std::string_view, 2> v{std::string_view(p, n), std::string_view(q, m)};
    const string_view_array x(v, validity_bitmap{});
    const ArrowArray* a = own(x);
    whole(x, "vu", 2, 0, 4, 0);
    law::prove("the storage holds the long values", reinterpret_cast<const i64*>(a->buffers[3])[0] == static_cast<i64>((S0 ? 0 : n) + (S1 ? 0 : m)));
    law::prove("every element is valid", x[0].has_value() && x[1].has_value());
    law::prove("element 0 has its length", x[0].value().size() == n);
    law::prove("element 1 has its length", x[1].value().size() == m);
    law::require(k < n && k < m);
    const char* v8 = static_cast<const char*>(a->buffers[1]);
    if (!S0)
    {
        law::prove("element 0 has its prefix in its view", v8[4] == p[0] && v8[5] == p[1] && v8[6] == p[2] && v8[7] == p[3]);
    }
    if (!S1)
    {
        law::prove("element 1 has its prefix in its view", v8[20] == q[0] && v8[21] == q[1] && v8[22] == q[2] && v8[23] == q[3]);
    }
    law::prove("element 0 has its characters", x[0].value()[k] == p[k]);
    law::prove("element 1 has its characters", x[1].value()[k] == q[k]);
}
void law_C22_views_ss(const char* p, const char* q, std::size_t n, std::size_t m, std::size_t k) { views_of<true, true>(p, q, n, m, k); }
void law_C22_views_sl(const char* p, const char* q, std::size_t n, std::size_t m, std::size_t k) { views_of<true, false>(p, q, n, m, k); }
void law_C22_views_ls(const char* p, const char* q, std::size_t n, std::size_t m, std::size_t k) { views_of<false, true>(p, q, n, m, k); }
void law_C22_views_ll(const char* p, const char* q, std::size_t n, std::size_t m, std::size_t k) { views_of<false, false>(p, q, n, m, k); }

// ---- the children moved in are released once, by the array
namespace
{
    void tracked(ArrowArray* c, ArrowSchema* s, int* pc, int* ps)
    {
        foreign(c, s);
        c->private_data = pc;
        s->private_data = ps;
        law::track(pc);
        law::track(ps);
    }
    void once(const int* pc, const int* ps)
    {
        law::prove("the child is released once", law::releases(pc) == 1);
        law::prove("the child's schema is released once", law::releases(ps) == 1);
    }
    void emptied(const ArrowArray* c, const ArrowSchema* s)
    {
        law::prove("the child is moved in", c->release == nullptr && s->release == nullptr);
    }
}
#define TRACKED ArrowArray *c0, ArrowSchema *s0, int *pc, int *ps
#define TRACKED2 TRACKED, ArrowArray *c1, ArrowSchema *s1, int *qc, int *qs
void law_C22_own_list(TRACKED, const i32* o, std::size_t n)
{
    const ArrowArray c = seen(c0, s0);
    tracked(c0, s0, pc, ps);
    {
        u8_buffer<i32> off = offsets<i32>(o, n, len(&c), 0);
        const list_array x(array(std::move(*c0), std::move(*s0)), std::move(off), validity_bitmap{});
        emptied(c0, s0);
        law::prove("the child lives", law::releases(pc) == 0 && law::releases(ps) == 0);
    }
    once(pc, ps);
}
void law_C22_own_list_view(TRACKED, const i32* o, const i32* z, std::size_t n)
{
    const ArrowArray c = seen(c0, s0);
    law::require(o != nullptr && z != nullptr && n > 0 && n < 0x0fffffff);
    tracked(c0, s0, pc, ps);
    {
        const list_view_array x(array(std::move(*c0), std::move(*s0)), u8_buffer<i32>(std::span<const i32>(o, n)), u8_buffer<i32>(std::span<const i32>(z, n)), validity_bitmap{});
        emptied(c0, s0);
        law::prove("the child lives", law::releases(pc) == 0 && law::releases(ps) == 0);
    }
    once(pc, ps);
}
void law_C22_own_fixed_list(TRACKED)
{
    const ArrowArray c = seen(c0, s0);
    tracked(c0, s0, pc, ps);
    {
        const fixed_sized_list_array x(std::uint64_t(3), array(std::move(*c0), std::move(*s0)), validity_bitmap{});
        emptied(c0, s0);
        law::prove("the child lives", law::releases(pc) == 0 && law::releases(ps) == 0);
    }
    once(pc, ps);
}
void law_C22_own_dictionary(TRACKED, const i32* q, std::size_t n)
{
    const ArrowArray c = seen(c0, s0);
    law::require(q != nullptr && n > 0 && n < 0x0fffffff);
    tracked(c0, s0, pc, ps);
    {
        const dictionary_encoded_array<i32> x(u8_buffer<i32>(std::span<const i32>(q, n)), array(std::move(*c0), std::move(*s0)), validity_bitmap{});
        emptied(c0, s0);
        law::prove("the child lives", law::releases(pc) == 0 && law::releases(ps) == 0);
    }
    once(pc, ps);
}
void law_C22_own_struct(TRACKED2)
{
    const ArrowArray c = seen(c0, s0), d = seen(c1, s1);
    law::require(c.length == d.length && c.length > 0);
    tracked(c0, s0, pc, ps);
    tracked(c1, s1, qc, qs);
    {
        std::vector<array> cs;
        cs.push_back(array(std::move(*c0), std::move(*s0)));
        cs.push_back(array(std::move(*c1), std::move(*s1)));
        const struct_array x(std::move(cs), validity_bitmap{});
        emptied(c0, s0);
        emptied(c1, s1);
        law::prove("the child lives", law::releases(pc) == 0 && law::releases(ps) == 0);
    }
    once(pc, ps);
    once(qc, qs);
}
void law_C22_own_run_end(TRACKED2)
{
    const ArrowArray c = seen(c0, s0, "I"), d = seen(c1, s1);
    law::require(c.length == d.length && c.length > 0);
    tracked(c0, s0, pc, ps);
    tracked(c1, s1, qc, qs);
    {
        const run_end_encoded_array x(array(std::move(*c0), std::move(*s0)), array(std::move(*c1), std::move(*s1)));
        emptied(c0, s0);
        emptied(c1, s1);
        law::prove("the child lives", law::releases(pc) == 0 && law::releases(ps) == 0);
    }
    once(pc, ps);
    once(qc, qs);
}
void law_C22_own_sparse(TRACKED2)
{
    const ArrowArray c = seen(c0, s0), d = seen(c1, s1);
    law::require(c.length == 2 && d.length == 2);
    tracked(c0, s0, pc, ps);
    tracked(c1, s1, qc, qs);
    {
        std::vector<array> cs;
        cs.push_back(array(std::move(*c0), std::move(*s0)));
        cs.push_back(array(std::move(*c1), std::move(*s1)));
        const std::array<u8, 2> t{0, 1};
        const sparse_union_array x(std::move(cs), u8_buffer<u8>(t));
        emptied(c0, s0);
        law::prove("the child lives", law::releases(pc) == 0 && law::releases(ps) == 0);
    }
    once(pc, ps);
    once(qc, qs);
}
