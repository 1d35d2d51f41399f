// C09: a bitset is a sequence of bits: an operation changes the bits it names, and the number of nulls follows.
#include "arrow_model.hpp"
#include <sparrow/buffer/dynamic_bitset.hpp>
using namespace sparrow;

namespace
{
    using u8 = std::uint8_t;
    using u64 = std::uint64_t;
    using sz = std::size_t;

    inline bool bit_of(const u8* p, sz i)
    {
        return (p[i / 8] >> (i % 8)) & 1;
    }
    template <class B>
    sz counted(const B& b)
    {
        using block = std::remove_const_t<std::remove_pointer_t<decltype(b.data())>>;
        return dynamic_bitset_view<const block>(b.data(), b.size()).null_count();
    }
    // what null_count promises makes a bit of a set without nulls true: read where the storage is
    template <class B>
    void reads(const B& b, sz i, bool v)
    {
        law::prove("bit", bit_of(b.data(), i) == v);
        if (b.null_count() != 0)
        {
            law::prove("bit read", b.test(i) == v);
            law::prove("bit read []", b[i] == v);
            law::prove("bit read at", b.at(i) == v);
        }
        else
        {
            law::prove("without nulls", b.test(i));
        }
    }
    inline void small(sz n)
    {
        law::require(n < (sz(1) << 40));
    }
}

// construction
void law_C09_adopted(u8* p, sz n, sz i)
{
    law::require(p != nullptr);
    small(n);
    law::require(i < n);
    const bool v = bit_of(p, i);
    const dynamic_bitset<u8> b(p, n);
    law::prove("size", b.size() == n);
    reads(b, i, v);
    law::prove("null count", b.null_count() == counted(b));
}
void law_C09_view(const u8* p, sz n, sz i)
{
    law::require(p != nullptr);
    small(n);
    law::require(i < n);
    const dynamic_bitset_view<const u8> b(p, n);
    law::prove("size", b.size() == n);
    reads(b, i, bit_of(p, i));
    law::prove("storage", b.data() == p);
}
void law_C09_filled(sz n, bool v, sz i)
{
    small(n);
    law::require(i < n);
    const dynamic_bitset<u8> b(n, v);
    law::prove("size", b.size() == n);
    law::prove("bit", b.test(i) == v);
    law::prove("null count", b.null_count() == (v ? 0 : n));
}
void law_C09_sized(sz n, sz i)
{
    small(n);
    law::require(i < n);
    const dynamic_bitset<u8> b(n);
    law::prove("size", b.size() == n);
    law::prove("bit", !b.test(i));
    law::prove("null count", b.null_count() == n);
}
void law_C09_empty()
{
    const dynamic_bitset<u8> b;
    law::prove("size", b.size() == 0);
    law::prove("null count", b.null_count() == 0);
    law::prove("empty", b.empty());
}
void law_C09_absent(sz n, sz i)
{
    small(n);
    law::require(i < n);
    const dynamic_bitset_view<const u8> b(nullptr, n);
    law::prove("size", b.size() == n);
    law::prove("bit", b.test(i));
    law::prove("null count", b.null_count() == 0);
}

// writing a bit
#define WRITE(NAME, OP, NEW) \
    void law_C09_##NAME##_itself(u8* p, sz n, sz i, bool v) \
    { \
        law::require(p != nullptr); small(n); law::require(i < n); \
        const bool old = bit_of(p, i); \
        dynamic_bitset_view<u8> b(p, n); \
        const sz nulls = b.null_count(); \
        OP; \
        law::prove("bit", bit_of(p, i) == (NEW)); \
        law::prove("size", b.size() == n); \
        law::prove("null count", b.null_count() == nulls - (old ? 0 : 1) + ((NEW) ? 0 : 1)); \
    } \
    void law_C09_##NAME##_other(u8* p, sz n, sz i, sz j, bool v) \
    { \
        law::require(p != nullptr); small(n); law::require(i < n); law::require(j < n + 8); law::require(i != j); \
        const bool other = bit_of(p, j); \
        dynamic_bitset_view<u8> b(p, n); \
        OP; \
        law::prove("other bit", bit_of(p, j) == other); \
    }
WRITE(set, b.set(i, v), v)
WRITE(at, b.at(i) = v, v)
WRITE(element, b[i] = v, v)
WRITE(and, b[i] &= v, old && v)
WRITE(or, b[i] |= v, old || v)
WRITE(xor, b[i] ^= v, old != v)
WRITE(xor_twice, (b[i] ^= v, b[i] ^= v), old)
WRITE(set_twice, (b.set(i, v), b.set(i, !v)), !v)
WRITE(iterator, *(b.begin() + static_cast<std::ptrdiff_t>(i)) = v, v)

void law_C09_reference(u8* p, sz n, sz i, sz j)
{
    law::require(p != nullptr);
    small(n);
    law::require(i < n);
    law::require(j < n);
    const bool v = bit_of(p, i);
    const bool w = bit_of(p, j);
    dynamic_bitset_view<u8> b(p, n);
    law::prove("reads", bool(b[i]) == v);
    law::prove("negation", ~b[i] == !v);
    law::prove("equal", (b[i] == b[j]) == (v == w));
    law::prove("equal to bool", (b[i] == true) == v);
    b[i] = b[j];
    law::prove("assigned", bit_of(p, i) == w);
}
void law_C09_ends(u8* p, sz n)
{
    law::require(p != nullptr);
    small(n);
    law::require(n > 0);
    const dynamic_bitset_view<u8> b(p, n);
    law::prove("front", b.front() == b.test(0));
    law::prove("back", b.back() == b.test(n - 1));
    dynamic_bitset_view<u8> m(p, n);
    law::prove("front mutable", bool(m.front()) == bit_of(p, 0));
    law::prove("back mutable", bool(m.back()) == bit_of(p, n - 1));
}

// resizing
void law_C09_resize_size(u8* p, sz n, sz m, bool v)
{
    law::require(p != nullptr);
    small(n);
    small(m);
    dynamic_bitset<u8> b(p, n);
    b.resize(m, v);
    law::prove("size", b.size() == m);
    law::prove("blocks", b.block_count() == m / 8 + (m % 8 != 0));
    law::prove("null count", b.null_count() == counted(b));
}
void law_C09_resize_kept(u8* p, sz n, sz m, bool v, sz i)
{
    law::require(p != nullptr);
    small(n);
    small(m);
    law::require(i < n);
    law::require(i < m);
    const bool old = bit_of(p, i);
    dynamic_bitset<u8> b(p, n);
    b.resize(m, v);
    law::prove("bit", bit_of(b.data(), i) == old);
}
#define GROWN(NAME, V, CASE) \
    void law_C09_resize_new_##NAME(u8* p, sz n, sz m, sz i) \
    { \
        law::require(p != nullptr); small(n); small(m); law::require(i >= n); law::require(i < m); \
        law::require(CASE); \
        dynamic_bitset<u8> b(p, n); \
        b.resize(m, V); \
        law::prove("bit", bit_of(b.data(), i) == V); \
    }
GROWN(zero_same_block, false, i / 8 == n / 8)
GROWN(zero_other_block, false, i / 8 != n / 8)
GROWN(one_same_block, true, i / 8 == n / 8)
GROWN(one_other_block, true, i / 8 != n / 8)
void law_C09_unused(u8* p, sz n, sz m, bool v, sz i)
{
    law::require(p != nullptr);
    small(n);
    small(m);
    law::require(i >= m);
    law::require(i < (m + 7) / 8 * 8);
    dynamic_bitset<u8> b(p, n);
    b.resize(m, v);
    law::prove("bit", !bit_of(b.data(), i));
}
void law_C09_push_back(u8* p, sz n, bool v, sz i)
{
    law::require(p != nullptr);
    small(n);
    law::require(i < n);
    const bool old = bit_of(p, i);
    dynamic_bitset<u8> b(p, n);
    b.push_back(v);
    law::prove("size", b.size() == n + 1);
    law::prove("last", bit_of(b.data(), n) == v);
    law::prove("others", bit_of(b.data(), i) == old);
    law::prove("null count", b.null_count() == counted(b));
}
void law_C09_pop_back(u8* p, sz n, sz i)
{
    law::require(p != nullptr);
    small(n);
    law::require(n > 0);
    law::require(i < n - 1);
    const bool old = bit_of(p, i);
    dynamic_bitset<u8> b(p, n);
    b.pop_back();
    law::prove("size", b.size() == n - 1);
    law::prove("others", bit_of(b.data(), i) == old);
    law::prove("null count", b.null_count() == counted(b));
}
void law_C09_clear(u8* p, sz n)
{
    law::require(p != nullptr);
    small(n);
    dynamic_bitset<u8> b(p, n);
    b.clear();
    law::prove("size", b.size() == 0);
    law::prove("empty", b.empty());
    law::prove("null count", b.null_count() == 0);
}
void law_C09_unowned_resize(u8* p, sz k, sz cap, sz m, bool v, sz i)
{
    law::require(p != nullptr && k <= cap && cap < (sz(1) << 40));
    buffer<u8> s(p, cap);
    s.resize(k);
    const sz n = 8 * s.size();
    small(n);
    small(m);
    law::require(i < n);
    law::require(i < m);
    const bool old = bit_of(p, i);
    non_owning_dynamic_bitset<u8> b(&s, n);
    b.resize(m, v);
    law::prove("size", b.size() == m);
    law::prove("bit", bit_of(s.data(), i) == old);
    law::prove("blocks", s.size() == m / 8 + (m % 8 != 0));
    law::prove("null count", b.null_count() == counted(b));
}

// insertion and erasure: the sizes, and the position returned
#define SIZES(NAME, OP, N, AT) \
    void law_C09_##NAME(u8* p, sz n, sz i, sz k, bool v) \
    { \
        law::require(p != nullptr); small(n); small(k); law::require(i <= n); \
        dynamic_bitset<u8> b(p, n); \
        const bool* const q = law::any<const bool*>("q"); \
        const auto r = OP; \
        law::prove("size", b.size() == (N)); \
        law::prove("position", r - b.begin() == static_cast<std::ptrdiff_t>(AT)); \
    }
#define AT(I) (b.cbegin() + static_cast<std::ptrdiff_t>(I))
SIZES(insert, b.insert(AT(i), v), n + 1, i)
SIZES(emplace, b.emplace(AT(i), v), n + 1, i)
SIZES(insert_many, b.insert(AT(i), k, v), n + k, i)

SIZES(insert_range, b.insert(AT(i), q, q + k), n + k, i)
SIZES(erase_tail, (law::require(i < n), b.erase(AT(i), b.cend())), i, i)
SIZES(erase_one, (law::require(i < n), b.erase(AT(i))), n - 1, i)
SIZES(erase_many, (law::require(i + k <= n && k > 0), b.erase(AT(i), AT(i + k))), n - k, i)

// at the end, where nothing has to move
#define AT_END(NAME, OP, N, NEW) \
    void law_C09_##NAME(u8* p, sz n, sz i, bool v) \
    { \
        law::require(p != nullptr); small(n); law::require(i < n); \
        const bool old = bit_of(p, i); \
        dynamic_bitset<u8> b(p, n); \
        OP; \
        law::prove("size", b.size() == (N)); \
        law::prove("others", bit_of(b.data(), i) == old); \
        NEW; \
    }
AT_END(insert_end, b.insert(b.cend(), v), n + 1, law::prove("new", bit_of(b.data(), n) == v))
AT_END(insert_none, b.insert(b.cbegin() + static_cast<std::ptrdiff_t>(i), sz(0), v), n, )
AT_END(erase_last, (law::require(i + 1 < n), b.erase(b.cend() - 1)), n - 1, )

// copying
void law_C09_copied(u8* p, sz n, sz i)
{
    law::require(p != nullptr);
    small(n);
    law::require(i < n);
    const bool v = bit_of(p, i);
    dynamic_bitset<u8> b(p, n);
    const dynamic_bitset<u8> c(b);
    law::prove("size", c.size() == n);
    reads(c, i, v);
    law::prove("null count", c.null_count() == b.null_count());
    law::prove("own storage", c.data() != b.data());
    b.set(i, !v);
    law::prove("copy keeps its bit", bit_of(c.data(), i) == v);
}
void law_C09_moved(u8* p, sz n, sz i)
{
    law::require(p != nullptr);
    small(n);
    law::require(i < n);
    const bool v = bit_of(p, i);
    dynamic_bitset<u8> b(p, n);
    const sz nulls = b.null_count();
    const dynamic_bitset<u8> c(std::move(b));
    law::prove("size", c.size() == n);
    reads(c, i, v);
    law::prove("null count", c.null_count() == nulls);
}
void law_C09_swapped(u8* p, sz n, u8* q, sz m, sz i)
{
    law::require(p != nullptr && q != nullptr);
    small(n);
    small(m);
    law::require(i < n);
    const bool v = bit_of(p, i);
    dynamic_bitset_view<u8> a(p, n);
    dynamic_bitset_view<u8> b(q, m);
    const sz na = a.null_count();
    const sz nb = b.null_count();
    a.swap(b);
    law::prove("sizes", a.size() == m && b.size() == n);
    law::prove("null counts", a.null_count() == nb && b.null_count() == na);
    reads(b, i, v);
}
void law_C09_from_values(const std::vector<bool>& r, sz i)
{
    const dynamic_bitset<u8> b(r);
    law::prove("size", b.size() == r.size());
}

// validity bitmaps from ranges
void law_C09_ensured_empty(sz n, sz i)
{
    small(n);
    law::require(i < n);
    const validity_bitmap none;
    const validity_bitmap b = ensure_validity_bitmap(n, none);
    law::prove("size", b.size() == n);
    law::prove("bit", b.test(i));
    law::prove("null count", b.null_count() == 0);
}
void law_C09_ensured(u8* p, sz n, sz i)
{
    law::require(p != nullptr);
    small(n);
    law::require(i < n);
    const bool v = bit_of(p, i);
    const validity_bitmap s(p, n);
    const validity_bitmap b = ensure_validity_bitmap(n, s);
    law::prove("size", b.size() == n);
    reads(b, i, v);
    law::prove("null count", b.null_count() == s.null_count());
}

// what is counted: the cleared bits of the storage, and no bit after the last one
template <sz N>
void count_of(u8* p)
{
    law::require(p != nullptr);
    sz nulls = 0;
    for (sz i = 0; i < N; ++i)
    {
        nulls += sz(!bit_of(p, i));
    }
    const dynamic_bitset_view<const u8> v(p, N);
    law::prove("the null count is the number of cleared bits", v.null_count() == nulls);
    const dynamic_bitset_view<u8> w(p, N);
    law::prove("the null count of a mutable view", w.null_count() == nulls);
    const dynamic_bitset<u8> b(p, N);
    law::prove("the null count of an adopted storage", b.null_count() == nulls);
}
void law_C09_count_0(u8* p) { count_of<0>(p); }
void law_C09_count_1(u8* p) { count_of<1>(p); }
void law_C09_count_5(u8* p) { count_of<5>(p); }
void law_C09_count_8(u8* p) { count_of<8>(p); }
void law_C09_count_13(u8* p) { count_of<13>(p); }
void law_C09_count_16(u8* p) { count_of<16>(p); }
void law_C09_count_21(u8* p) { count_of<21>(p); }
