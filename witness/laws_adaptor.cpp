// C23: a buffer adaptor is the sequence of elements the bytes of its buffer spell.
#include "arrow_model.hpp"
#include "sparrow/buffer/buffer_adaptor.hpp"
using namespace sparrow;

namespace
{
    using u8 = std::uint8_t;
    using u16 = std::uint16_t;
    using i32 = std::int32_t;
    using u64 = std::uint64_t;

    template <class T>
    using adapt = buffer_adaptor<T, buffer<u8>&>;
    template <class T>
    using adapt_const = buffer_adaptor<const T, const buffer<u8>&>;

    // the bytes of n elements with room for cap, in the storage p
    template <class T>
    buffer<u8> make(T* p, std::size_t n, std::size_t cap)
    {
        law::require(p != nullptr && n <= cap && cap < (std::size_t(1) << 40));
        buffer<u8> b(reinterpret_cast<u8*>(p), cap * sizeof(T));
        b.resize(n * sizeof(T));
        return b;
    }
    template <class T>
    void shape(const buffer<u8>& b, const adapt<T>& a, std::size_t n)
    {
        law::prove("size", a.size() == n);
        law::prove("bytes", b.size() == n * sizeof(T));
        law::prove("empty", a.empty() == (n == 0));
        law::prove("data", static_cast<const void*>(a.data()) == static_cast<const void*>(b.data()));
        law::prove("end", a.cend() - a.cbegin() == static_cast<std::ptrdiff_t>(n));
    }
    template <class T>
    void cell(const adapt<T>& a, std::size_t i, T v)
    {
        law::prove("element", a.data()[i] == v);
    }
}

#define ALL(M) M(u16) M(i32) M(u64)
#define C ,
#define POS static_cast<std::ptrdiff_t>(pos)
#define BIG(k) law::require(k < (std::size_t(1) << 40))

// element i of the sequence after an operation at pos; old is the element i of before
#define EDIT(NAME, T, ARGS, PRE, OP, N, BODY) \
    void law_C23_##NAME##_##T(T* p, std::size_t n, std::size_t cap, std::size_t i ARGS) \
    { law::storage(reinterpret_cast<u8*>(p), cap * sizeof(T)); { auto b = make(p, n, cap); adapt<T> a(b); PRE OP; shape<T>(b, a, N); BODY law::prove("one storage", law::live() == 1); } \
      law::prove("returned", law::live() == 0); }
#define OLD(T) law::require(i < n); const T old = p[i];
#define EDITS(T) \
    EDIT(push_back, T, C T v, OLD(T), a.push_back(v), n + 1, cell<T>(a, n, v); cell<T>(a, i, old);) \
    EDIT(push_own, T, , OLD(T), a.push_back(a[i]), n + 1, cell<T>(a, n, old); cell<T>(a, i, old);) \
    EDIT(pop_back, T, , law::require(i + 1 < n); const T old = p[i];, a.pop_back(), n - 1, cell<T>(a, i, old);) \
    EDIT(insert_before, T, C std::size_t pos C T v, law::require(pos <= n); law::require(i < pos); const T old = p[i];, const auto r = a.insert(a.cbegin() + POS, v), n + 1, cell<T>(a, i, old); law::prove("result", r - a.begin() == POS);) \
    EDIT(insert_at, T, C std::size_t pos C T v, law::require(pos <= n);, a.insert(a.cbegin() + POS, v), n + 1, cell<T>(a, pos, v);) \
    EDIT(insert_after, T, C std::size_t pos C T v, law::require(pos <= i && i < n); const T old = p[i];, a.insert(a.cbegin() + POS, v), n + 1, cell<T>(a, i + 1, old);) \
    EDIT(insert_own, T, C std::size_t pos, law::require(pos <= n); OLD(T), a.insert(a.cbegin() + POS, a[i]), n + 1, cell<T>(a, pos, old);) \
    EDIT(emplace_at, T, C std::size_t pos C T v, law::require(pos <= n);, const auto r = a.emplace(a.cbegin() + POS, v), n + 1, cell<T>(a, pos, v); law::prove("result", r - a.begin() == POS);) \
    EDIT(emplace_after, T, C std::size_t pos C T v, law::require(pos <= i && i < n); const T old = p[i];, a.emplace(a.cbegin() + POS, v), n + 1, cell<T>(a, i + 1, old);) \
    EDIT(insert_n_before, T, C std::size_t pos C std::size_t k C T v, law::require(pos <= n); BIG(k); law::require(i < pos); const T old = p[i];, const auto r = a.insert(a.cbegin() + POS, k, v), n + k, cell<T>(a, i, old); law::prove("result", r - a.begin() == POS);) \
    EDIT(insert_n_at, T, C std::size_t pos C std::size_t k C T v, law::require(pos <= n); BIG(k); law::require(i < k);, a.insert(a.cbegin() + POS, k, v), n + k, cell<T>(a, pos + i, v);) \
    EDIT(insert_n_after, T, C std::size_t pos C std::size_t k C T v, law::require(pos <= n); BIG(k); law::require(pos <= i && i < n); const T old = p[i];, a.insert(a.cbegin() + POS, k, v), n + k, cell<T>(a, i + k, old);) \
    EDIT(insert_n_own, T, C std::size_t pos C std::size_t k C std::size_t j, law::require(pos <= n); BIG(k); OLD(T) law::require(j < k);, a.insert(a.cbegin() + POS, k, a[i]), n + k, cell<T>(a, pos + j, old);) \
    EDIT(insert_range_before, T, C std::size_t pos C std::size_t k C const T* q, law::require(pos <= n); BIG(k); law::require(i < pos); const T old = p[i];, const auto r = a.insert(a.cbegin() + POS, q, q + k), n + k, cell<T>(a, i, old); law::prove("result", r - a.begin() == POS);) \
    EDIT(insert_range_at, T, C std::size_t pos C std::size_t k C const T* q, law::require(pos <= n); BIG(k); law::require(i < k); const T v = q[i];, a.insert(a.cbegin() + POS, q, q + k), n + k, cell<T>(a, pos + i, v);) \
    EDIT(insert_range_after, T, C std::size_t pos C std::size_t k C const T* q, law::require(pos <= n); BIG(k); law::require(pos <= i && i < n); const T old = p[i];, a.insert(a.cbegin() + POS, q, q + k), n + k, cell<T>(a, i + k, old);) \
    EDIT(erase_before, T, C std::size_t pos, law::require(pos < n); law::require(i < pos); const T old = p[i];, const auto r = a.erase(a.cbegin() + POS), n - 1, cell<T>(a, i, old); law::prove("result", r - a.begin() == POS);) \
    EDIT(erase_after, T, C std::size_t pos, law::require(pos < n); law::require(pos < i && i < n); const T old = p[i];, a.erase(a.cbegin() + POS), n - 1, cell<T>(a, i - 1, old);) \
    EDIT(erase_range_before, T, C std::size_t pos C std::size_t k, law::require(0 < k && k <= n && pos <= n - k); law::require(i < pos); const T old = p[i];, const auto r = a.erase(a.cbegin() + POS, a.cbegin() + POS + static_cast<std::ptrdiff_t>(k)), n - k, cell<T>(a, i, old); law::prove("result", r - a.begin() == POS);) \
    EDIT(erase_range_after, T, C std::size_t pos C std::size_t k, law::require(0 < k && k <= n && pos <= n - k); law::require(pos + k <= i && i < n); const T old = p[i];, a.erase(a.cbegin() + POS, a.cbegin() + POS + static_cast<std::ptrdiff_t>(k)), n - k, cell<T>(a, i - k, old);) \
    EDIT(resize_keeps, T, C std::size_t m, BIG(m); law::require(i < n && i < m); const T old = p[i];, a.resize(m), m, cell<T>(a, i, old);) \
    EDIT(resize_zeroes, T, C std::size_t m, BIG(m); law::require(n <= i && i < m);, a.resize(m), m, cell<T>(a, i, 0);) \
    EDIT(resize_fills, T, C std::size_t m C T v, BIG(m); law::require(n <= i && i < m);, a.resize(m, v), m, cell<T>(a, i, v);) \
    EDIT(resize_fill_keeps, T, C std::size_t m C T v, BIG(m); law::require(i < n && i < m); const T old = p[i];, a.resize(m, v), m, cell<T>(a, i, old);) \
    EDIT(resize_own, T, C std::size_t m C std::size_t j, BIG(m); OLD(T) law::require(n <= j && j < m);, a.resize(m, a[i]), m, cell<T>(a, j, old);) \
    EDIT(reserve, T, C std::size_t m, BIG(m); OLD(T), a.reserve(m), n, cell<T>(a, i, old); law::prove("reserved", m <= a.capacity() && cap <= a.capacity());) \
    EDIT(shrink, T, , OLD(T), a.shrink_to_fit(), n, cell<T>(a, i, old); law::prove("shrunk", a.capacity() == n);) \
    EDIT(clear, T, , , a.clear(), 0, law::prove("capacity kept", a.capacity() == cap);) \
    EDIT(write, T, C std::size_t j C T v, OLD(T) law::require(j < n && j != i);, a[j] = v, n, cell<T>(a, i, old); cell<T>(a, j, v);)
ALL(EDITS)

#define READ(T) \
    void law_C23_reads_##T(T* p, std::size_t n, std::size_t cap, std::size_t i) { law::require(i < n); auto b = make(p, n, cap); adapt<T> a(b); const auto& c = a; \
        law::prove("[]", &a[i] == p + i); law::prove("const []", &c[i] == p + i); law::prove("front", &a.front() == p && &c.front() == p); law::prove("back", &a.back() == p + (n - 1) && &c.back() == p + (n - 1)); \
        law::prove("iterator", &*(a.begin() + static_cast<std::ptrdiff_t>(i)) == p + i && &*(c.cbegin() + static_cast<std::ptrdiff_t>(i)) == p + i); \
        law::prove("reverse iterator", &*(a.rbegin() + static_cast<std::ptrdiff_t>(i)) == p + (n - 1 - i) && &*(c.crbegin() + static_cast<std::ptrdiff_t>(i)) == p + (n - 1 - i)); \
        law::prove("reverse end", &*(c.crend() - 1) == p); law::prove("capacity", a.capacity() == cap); law::total("no failure"); } \
    void law_C23_const_##T(T* p, std::size_t n, std::size_t cap, std::size_t i) { law::require(i < n); const auto b = make(p, n, cap); law::freeze(); const adapt_const<T> a(b); \
        law::prove("size", a.size() == n); law::prove("empty", a.empty() == (n == 0)); law::prove("[]", &a[i] == p + i); law::prove("front", &a.front() == p); law::prove("back", &a.back() == p + (n - 1)); \
        law::prove("iterator", &*(a.begin() + static_cast<std::ptrdiff_t>(i)) == p + i); law::prove("end", a.end() - a.begin() == static_cast<std::ptrdiff_t>(n)); law::thaw("nothing written"); law::total("no failure"); }
ALL(READ)
