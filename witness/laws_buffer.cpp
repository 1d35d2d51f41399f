// C20: a buffer is the sequence a vector would be, and returns the storage it was given or allocated, once.
#include "arrow_model.hpp"
using namespace sparrow;

namespace
{
    using u8 = std::uint8_t;
    using i32 = std::int32_t;
    using u64 = std::uint64_t;

    // a buffer of n elements with room for cap, holding the storage p
    template <class T>
    buffer<T> make(T* p, std::size_t n, std::size_t cap)
    {
        law::require(p != nullptr && n <= cap && cap < (std::size_t(1) << 40));
        buffer<T> b(p, cap);
        b.resize(n);
        return b;
    }
    template <class T>
    void shape(const buffer<T>& b, std::size_t n)
    {
        law::prove("size", b.size() == n);
        law::prove("empty", b.empty() == (n == 0));
        law::prove("capacity", b.size() <= b.capacity());
        law::prove("end", b.end() - b.begin() == static_cast<std::ptrdiff_t>(n));
        law::prove("begin", std::to_address(b.begin()) == b.data());
    }
    template <class T>
    void cell(const buffer<T>& b, std::size_t i, T v)
    {
        law::prove("element", b.data()[i] == v);
    }
}

#define ALL(M) M(u8) M(i32) M(u64)

#define CTOR(T) \
    void law_C20_sized_##T(std::size_t n, std::size_t i) { law::require(n < (std::size_t(1) << 40)); law::require(i < n); \
        law::storage(nullptr, 0); { const buffer<T> b(n); shape(b, n); cell<T>(b, i, 0); law::prove("owns", law::live() == 1); } law::prove("returned", law::live() == 0); } \
    void law_C20_filled_##T(std::size_t n, std::size_t i, T v) { law::require(n < (std::size_t(1) << 40)); law::require(i < n); \
        law::storage(nullptr, 0); { const buffer<T> b(n, v); shape(b, n); cell<T>(b, i, v); law::prove("owns", law::live() == 1); } law::prove("returned", law::live() == 0); } \
    void law_C20_adopted_##T(T* p, std::size_t n, std::size_t i) { law::require(p != nullptr && n < (std::size_t(1) << 40)); law::require(i < n); const T v = p[i]; \
        law::storage(p, n); { const buffer<T> b(p, n); shape(b, n); cell<T>(b, i, v); law::prove("same storage", b.data() == p); law::prove("adopts", law::live() == 1); } \
        law::prove("returned", law::live() == 0); law::prove("returned once", law::deletes(p) == 1); } \
    void law_C20_ranged_##T(const T* q, std::size_t n, std::size_t i) { law::require(q != nullptr && n < (std::size_t(1) << 40)); law::require(i < n); const T v = q[i]; \
        law::storage(nullptr, 0); { const buffer<T> b(q, q + n); shape(b, n); cell<T>(b, i, v); law::prove("own storage", b.data() != q); } law::prove("returned", law::live() == 0); } \
    void law_C20_copied_##T(T* p, std::size_t n, std::size_t cap, std::size_t i) { law::require(i < n); const T v = p[i]; \
        law::storage(p, cap); { const auto b = make(p, n, cap); { const buffer<T> c(b); shape(c, n); cell<T>(c, i, v); law::prove("own storage", c.data() != b.data()); } \
            shape(b, n); cell<T>(b, i, v); law::prove("source kept", law::live() == 1); } law::prove("returned", law::live() == 0); law::prove("returned once", law::deletes(p) == 1); } \
    void law_C20_copied_with_allocator_##T(T* p, std::size_t n, std::size_t cap, std::size_t i) { law::require(i < n); const T v = p[i]; \
        law::storage(p, cap); { const auto b = make(p, n, cap); { const buffer<T> c(b, std::allocator<T>()); shape(c, n); cell<T>(c, i, v); law::prove("own storage", c.data() != b.data()); } \
            shape(b, n); cell<T>(b, i, v); } law::prove("returned", law::live() == 0); law::prove("returned once", law::deletes(p) == 1); } \
    void law_C20_moved_##T(T* p, std::size_t n, std::size_t cap, std::size_t i) { law::require(i < n); const T v = p[i]; \
        law::storage(p, cap); { auto b = make(p, n, cap); { const buffer<T> c(std::move(b)); shape(c, n); cell<T>(c, i, v); law::prove("same storage", c.data() == p); shape(b, 0); } \
            law::prove("gone with the new owner", law::live() == 0); } law::prove("returned", law::live() == 0); law::prove("returned once", law::deletes(p) == 1); }
ALL(CTOR)

#define ASSIGN(T) \
    void law_C20_copy_assigned_##T(T* p, std::size_t n, std::size_t cap, T* q, std::size_t m, std::size_t room, std::size_t i) { law::require(i < n); law::require(p != q); const T v = p[i]; \
        law::storage(q, room); { auto c = make(q, m, room); { T* const s = p; const buffer_view<const T> src(s, n); const buffer<T> b(src.begin(), src.end()); c = b; \
            shape(b, n); cell<T>(b, i, v); } shape(c, n); cell<T>(c, i, v); law::prove("one storage", law::live() == 1); } law::prove("returned", law::live() == 0); law::prove("returned once", law::deletes(q) == 1); } \
    void law_C20_self_assigned_##T(T* p, std::size_t n, std::size_t cap, std::size_t i) { law::require(i < n); const T v = p[i]; \
        law::storage(p, cap); { auto b = make(p, n, cap); const auto& r = b; b = r; shape(b, n); cell<T>(b, i, v); } law::prove("returned", law::live() == 0); law::prove("returned once", law::deletes(p) == 1); } \
    void law_C20_list_assigned_##T(T* p, std::size_t n, std::size_t cap, T v, T w) { \
        law::storage(p, cap); { auto b = make(p, n, cap); b = {v, w}; shape(b, 2); cell<T>(b, 0, v); cell<T>(b, 1, w); } law::prove("returned", law::live() == 0); law::prove("returned once", law::deletes(p) == 1); }
ALL(ASSIGN)

// element i of the sequence after an operation at pos; v is the old element i, w the old element i - k
#define EDIT(NAME, T, ARGS, PRE, OP, N, BODY) \
    void law_C20_##NAME##_##T(T* p, std::size_t n, std::size_t cap, std::size_t i ARGS) \
    { law::storage(p, cap); { auto b = make(p, n, cap); PRE OP; shape(b, N); BODY law::prove("one storage", law::live() == 1); } \
      law::prove("returned", law::live() == 0); law::prove("returned once", law::deletes(p) == 1); }
#define C ,
#define POS static_cast<std::ptrdiff_t>(pos)
#define EDITS(T) \
    EDIT(push_back, T, C T v, law::require(i < n); const T old = p[i];, b.push_back(v), n + 1, cell<T>(b, n, v); cell<T>(b, i, old);) \
    EDIT(push_own, T, , law::require(i < n); const T old = p[i];, b.push_back(b[i]), n + 1, cell<T>(b, n, old); cell<T>(b, i, old);) \
    EDIT(pop_back, T, , law::require(i + 1 < n); const T old = p[i];, b.pop_back(), n - 1, cell<T>(b, i, old); law::prove("same storage", b.data() == p);) \
    EDIT(insert_before, T, C std::size_t pos C T v, law::require(pos <= n); law::require(i < pos); const T old = p[i];, const auto r = b.insert(b.cbegin() + POS, v), n + 1, cell<T>(b, i, old); law::prove("result", r - b.begin() == POS);) \
    EDIT(insert_at, T, C std::size_t pos C T v, law::require(pos <= n);, b.insert(b.cbegin() + POS, v), n + 1, cell<T>(b, pos, v);) \
    EDIT(insert_after, T, C std::size_t pos C T v, law::require(pos <= i && i < n); const T old = p[i];, b.insert(b.cbegin() + POS, v), n + 1, cell<T>(b, i + 1, old);) \
    EDIT(insert_own, T, C std::size_t pos, law::require(pos <= n); law::require(i < n); const T old = p[i];, b.insert(b.cbegin() + POS, b[i]), n + 1, cell<T>(b, pos, old);) \
    EDIT(insert_n_before, T, C std::size_t pos C std::size_t k C T v, law::require(pos <= n && k < (std::size_t(1) << 40)); law::require(i < pos); const T old = p[i];, const auto r = b.insert(b.cbegin() + POS, k, v), n + k, cell<T>(b, i, old); law::prove("result", r - b.begin() == POS);) \
    EDIT(insert_n_at, T, C std::size_t pos C std::size_t k C T v, law::require(pos <= n && k < (std::size_t(1) << 40)); law::require(i < k);, b.insert(b.cbegin() + POS, k, v), n + k, cell<T>(b, pos + i, v);) \
    EDIT(insert_n_after, T, C std::size_t pos C std::size_t k C T v, law::require(pos <= n && k < (std::size_t(1) << 40)); law::require(pos <= i && i < n); const T old = p[i];, b.insert(b.cbegin() + POS, k, v), n + k, cell<T>(b, i + k, old);) \
    EDIT(insert_n_own, T, C std::size_t pos C std::size_t k C std::size_t j, law::require(pos <= n && k < (std::size_t(1) << 40)); law::require(i < n); law::require(j < k); const T old = p[i];, b.insert(b.cbegin() + POS, k, b[i]), n + k, cell<T>(b, pos + j, old);) \
    EDIT(insert_range_before, T, C std::size_t pos C std::size_t k C const T* q, law::require(pos <= n && k < (std::size_t(1) << 40)); law::require(i < pos); const T old = p[i];, const auto r = b.insert(b.cbegin() + POS, q, q + k), n + k, cell<T>(b, i, old); law::prove("result", r - b.begin() == POS);) \
    EDIT(insert_range_at, T, C std::size_t pos C std::size_t k C const T* q, law::require(pos <= n && k < (std::size_t(1) << 40)); law::require(i < k); const T v = q[i];, b.insert(b.cbegin() + POS, q, q + k), n + k, cell<T>(b, pos + i, v);) \
    EDIT(insert_range_after, T, C std::size_t pos C std::size_t k C const T* q, law::require(pos <= n && k < (std::size_t(1) << 40)); law::require(pos <= i && i < n); const T old = p[i];, b.insert(b.cbegin() + POS, q, q + k), n + k, cell<T>(b, i + k, old);) \
    EDIT(erase_before, T, C std::size_t pos, law::require(pos < n); law::require(i < pos); const T old = p[i];, const auto r = b.erase(b.cbegin() + POS), n - 1, cell<T>(b, i, old); law::prove("result", r - b.begin() == POS);) \
    EDIT(erase_after, T, C std::size_t pos, law::require(pos < n); law::require(pos < i && i < n); const T old = p[i];, b.erase(b.cbegin() + POS), n - 1, cell<T>(b, i - 1, old);) \
    EDIT(erase_range_before, T, C std::size_t pos C std::size_t k, law::require(0 < k && k <= n && pos <= n - k); law::require(i < pos); const T old = p[i];, const auto r = b.erase(b.cbegin() + POS, b.cbegin() + POS + static_cast<std::ptrdiff_t>(k)), n - k, cell<T>(b, i, old); law::prove("result", r - b.begin() == POS);) \
    EDIT(erase_range_after, T, C std::size_t pos C std::size_t k, law::require(0 < k && k <= n && pos <= n - k); law::require(pos + k <= i && i < n); const T old = p[i];, b.erase(b.cbegin() + POS, b.cbegin() + POS + static_cast<std::ptrdiff_t>(k)), n - k, cell<T>(b, i - k, old);) \
    EDIT(resize_keeps, T, C std::size_t m, law::require(m < (std::size_t(1) << 40)); law::require(i < n && i < m); const T old = p[i];, b.resize(m), m, cell<T>(b, i, old);) \
    EDIT(resize_zeroes, T, C std::size_t m, law::require(m < (std::size_t(1) << 40)); law::require(n <= i && i < m);, b.resize(m), m, cell<T>(b, i, 0);) \
    EDIT(resize_fills, T, C std::size_t m C T v, law::require(m < (std::size_t(1) << 40)); law::require(n <= i && i < m);, b.resize(m, v), m, cell<T>(b, i, v);) \
    EDIT(resize_fill_keeps, T, C std::size_t m C T v, law::require(m < (std::size_t(1) << 40)); law::require(i < n && i < m); const T old = p[i];, b.resize(m, v), m, cell<T>(b, i, old);) \
    EDIT(resize_own, T, C std::size_t m C std::size_t j, law::require(m < (std::size_t(1) << 40)); law::require(i < n); law::require(n <= j && j < m); const T old = p[i];, b.resize(m, b[i]), m, cell<T>(b, j, old);) \
    EDIT(reserve, T, C std::size_t m, law::require(m < (std::size_t(1) << 40)); law::require(i < n); const T old = p[i];, b.reserve(m), n, cell<T>(b, i, old); law::prove("reserved", m <= b.capacity() && cap <= b.capacity());) \
    EDIT(shrink, T, , law::require(i < n); const T old = p[i];, b.shrink_to_fit(), n, cell<T>(b, i, old); law::prove("shrunk", b.capacity() == n);) \
    EDIT(clear, T, , , b.clear(), 0, law::prove("capacity kept", b.capacity() == cap);)
ALL(EDITS)

#define READ(T) \
    void law_C20_reads_##T(T* p, std::size_t n, std::size_t cap, std::size_t i) { law::require(i < n); auto b = make(p, n, cap); const auto& c = b; \
        law::prove("[]", &b[i] == p + i); law::prove("const []", &c[i] == p + i); law::prove("front", &b.front() == p && &c.front() == p); law::prove("back", &b.back() == p + (n - 1) && &c.back() == p + (n - 1)); \
        law::prove("iterator", &*(b.begin() + static_cast<std::ptrdiff_t>(i)) == p + i && &*(c.cbegin() + static_cast<std::ptrdiff_t>(i)) == p + i); \
        law::prove("reverse iterator", &*(b.rbegin() + static_cast<std::ptrdiff_t>(i)) == p + (n - 1 - i)); law::prove("data", b.data() == p && c.data() == p); law::total("no failure"); } \
    void law_C20_swapped_##T(T* p, std::size_t n, std::size_t cap, T* q, std::size_t m, std::size_t room, std::size_t i, std::size_t j) { law::require(i < n); law::require(j < m); const T v = p[i], w = q[j]; \
        auto b = make(p, n, cap); auto c = make(q, m, room); b.swap(c); shape(b, m); shape(c, n); cell<T>(b, j, w); cell<T>(c, i, v); law::prove("capacities", b.capacity() == room && c.capacity() == cap); } \
    void law_C20_view_##T(T* p, std::size_t n, std::size_t cap, std::size_t i) { law::require(i < n); auto b = make(p, n, cap); law::freeze(); buffer_view<T> v(b); const buffer_view<T>& cv = v; \
        law::prove("size", v.size() == n && cv.size() == n); law::prove("empty", v.empty() == (n == 0)); law::prove("[]", &v[i] == p + i && &cv[i] == p + i); law::prove("front", &v.front() == p && &cv.front() == p); \
        law::prove("back", &v.back() == p + (n - 1) && &cv.back() == p + (n - 1)); law::prove("data", v.data() == p && cv.data() == p); \
        law::prove("iterator", &*(v.begin() + static_cast<std::ptrdiff_t>(i)) == p + i && &*(cv.cbegin() + static_cast<std::ptrdiff_t>(i)) == p + i && v.end() - v.begin() == static_cast<std::ptrdiff_t>(n)); \
        law::thaw("a view writes nothing"); } \
    void law_C20_subrange_##T(T* p, std::size_t n, std::size_t at, std::size_t k, std::size_t i) { law::require(p != nullptr && k <= n && at <= n - k); law::require(i < k); const buffer_view<T> v(p, n); \
        const auto s = v.subrange(at, k); law::prove("size", s.size() == k); law::prove("element", &s[i] == p + at + i); \
        const auto t = v.subrange(at); law::prove("rest", t.size() == n - at); law::prove("rest element", &t[i] == p + at + i); \
        const auto r = v.subrange(v.begin() + static_cast<std::ptrdiff_t>(at), v.begin() + static_cast<std::ptrdiff_t>(at + k)); law::prove("iterators", r.size() == k && &r[i] == p + at + i); } \
    void law_C20_from_view_##T(T* p, std::size_t n, std::size_t i) { law::require(p != nullptr && n < (std::size_t(1) << 40)); law::require(i < n); const T v = p[i]; \
        law::storage(nullptr, 0); { const buffer_view<T> w(p, n); const auto b = static_cast<buffer<T>>(w); shape(b, n); cell<T>(b, i, v); law::prove("own storage", b.data() != p); } law::prove("returned", law::live() == 0); }
ALL(READ)

#define MOVE(T) \
    void law_C20_move_assigned_##T(T* p, std::size_t n, std::size_t cap, T* q, std::size_t m, std::size_t room, std::size_t i) { law::require(i < n); law::require(p != q); const T v = p[i]; \
        law::storage(q, room); { auto c = make(q, m, room); { const T* const s = p; buffer<T> b(s, s + n); c = std::move(b); } shape(c, n); cell<T>(c, i, v); law::prove("one storage", law::live() == 1); } \
        law::prove("returned", law::live() == 0); law::prove("returned once", law::deletes(q) == 1); } \
    void law_C20_moved_with_allocator_##T(T* p, std::size_t n, std::size_t cap, std::size_t i) { law::require(i < n); const T v = p[i]; \
        law::storage(p, cap); { auto b = make(p, n, cap); const buffer<T> c(std::move(b), std::allocator<T>()); shape(c, n); cell<T>(c, i, v); } law::prove("returned", law::live() == 0); law::prove("returned once", law::deletes(p) == 1); }
ALL(MOVE)
