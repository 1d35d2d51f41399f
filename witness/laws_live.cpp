// C14: a typed array that was copied, moved or assigned reads its own buffers and children.
#include "parts.hpp"
using namespace fmt;

namespace
{
    // element i of x is the one its own structure describes
    template <class T>
    void reads(const primitive_array<T>& x, const ArrowArray* q, std::size_t i, std::size_t)
    {
        auto r = x[i];
        law::prove("value", &r.get() == buf<T>(q, 1) + off(q) + i);
        law::prove("validity", r.has_value() == bit(q->buffers[0], off(q) + i));
        auto v = *(x.begin() + static_cast<std::ptrdiff_t>(i));
        law::prove("iterator value", &v.get() == buf<T>(q, 1) + off(q) + i);
        law::prove("iterator validity", v.has_value() == bit(q->buffers[0], off(q) + i));
    }
    void reads(const string_array& x, const ArrowArray* q, std::size_t i, std::size_t)
    {
        const auto* o = buf<i32>(q, 1) + off(q);
        auto r = x[i];
        law::prove("data", r.get().data() == buf<char>(q, 2) + o[i]);
        law::prove("length", r.get().size() == static_cast<std::size_t>(o[i + 1] - o[i]));
        law::prove("validity", r.has_value() == bit(q->buffers[0], off(q) + i));
    }
    template <class L>
    void reads_list(const L& x, const ArrowArray* q, std::size_t i, std::size_t k, std::size_t at, std::size_t n)
    {
        auto r = x[i];
        law::prove("validity", r.has_value() == bit(q->buffers[0], off(q) + i));
        law::prove("list size", r.get().size() == n);
        law::require(k < n);
        law::require(at + k < len(q->children[0]));
        law::prove("list element", is_int(r.get()[k], q->children[0], at + k));
    }
    void reads(const list_array& x, const ArrowArray* q, std::size_t i, std::size_t k)
    {
        const auto* o = buf<i32>(q, 1) + off(q);
        law::require(0 <= o[i] && o[i] <= o[i + 1]);
        reads_list(x, q, i, k, static_cast<std::size_t>(o[i]), static_cast<std::size_t>(o[i + 1] - o[i]));
    }
    void reads(const big_list_array& x, const ArrowArray* q, std::size_t i, std::size_t k)
    {
        const auto* o = buf<i64>(q, 1) + off(q);
        law::require(0 <= o[i] && o[i] <= o[i + 1]);
        reads_list(x, q, i, k, static_cast<std::size_t>(o[i]), static_cast<std::size_t>(o[i + 1] - o[i]));
    }
    void reads(const list_view_array& x, const ArrowArray* q, std::size_t i, std::size_t k)
    {
        const auto* o = buf<i32>(q, 1) + off(q);
        const auto* z = buf<i32>(q, 2) + off(q);
        law::require(0 <= o[i] && 0 <= z[i]);
        reads_list(x, q, i, k, static_cast<std::size_t>(o[i]), static_cast<std::size_t>(z[i]));
    }
    void reads(const fixed_sized_list_array& x, const ArrowArray* q, std::size_t i, std::size_t k)
    {
        reads_list(x, q, i, k, (off(q) + i) * 3, 3);
    }
    void reads(const struct_array& x, const ArrowArray* q, std::size_t i, std::size_t)
    {
        law::require(off(q) + i < len(q->children[0]));
        law::require(off(q) + i < len(q->children[1]));
        auto r = x[i];
        law::prove("validity", r.has_value() == bit(q->buffers[0], off(q) + i));
        law::prove("fields", r.get().size() == 2);
        law::prove("field 0", is_int(r.get()[0], q->children[0], off(q) + i));
        law::prove("field 1", is_int(r.get()[1], q->children[1], off(q) + i));
    }
    void reads(const sparse_union_array& x, const ArrowArray* q, std::size_t i, std::size_t)
    {
        law::require(off(q) + i < len(q->children[0]));
        law::require(off(q) + i < len(q->children[1]));
        const auto id = buf<u8>(q, 0)[off(q) + i];
        law::require(id == 5 || id == 7);
        law::prove("element", is_int(x[i], id == 5 ? q->children[0] : q->children[1], off(q) + i));
    }
    void reads(const dense_union_array& x, const ArrowArray* q, std::size_t i, std::size_t)
    {
        const auto o = buf<i32>(q, 1)[off(q) + i];
        law::require(0 <= o);
        law::require(static_cast<std::size_t>(o) < len(q->children[0]));
        law::require(static_cast<std::size_t>(o) < len(q->children[1]));
        const auto id = buf<u8>(q, 0)[off(q) + i];
        law::require(id == 5 || id == 7);
        law::prove("element", is_int(x[i], id == 5 ? q->children[0] : q->children[1], static_cast<std::size_t>(o)));
    }
    void reads(const dictionary_encoded_array<i32>& x, const ArrowArray* q, std::size_t i, std::size_t)
    {
        const auto k = buf<i32>(q, 1)[off(q) + i];
        law::require(0 <= k);
        law::require(static_cast<std::size_t>(k) < len(q->dictionary));
        law::require(bit(q->buffers[0], off(q) + i));
        law::prove("element", is_int(x[i], q->dictionary, static_cast<std::size_t>(k)));
    }
    void reads(const run_end_encoded_array& x, const ArrowArray* q, std::size_t i, std::size_t)
    {
        const auto* c0 = q->children[0];
        const auto* ends = buf<std::uint32_t>(c0, 1) + off(c0);
        const auto* ub = std::upper_bound(ends, ends + len(c0), off(q) + i);
        law::require(ub - ends >= 0);
        const auto k = static_cast<std::size_t>(ub - ends);
        law::require(k < len(q->children[1]));
        law::prove("element", is_int(x[i], q->children[1], k));
    }
}
#define LIVE(name, L, format, nb, k)                                                                                    \
    void law_C14_copied_##name(PARTS(0), std::size_t i, std::size_t j)                                                  \
    {                                                                                                                   \
        MAKE(0, format, nb, k) idx(a0, i);                                                                              \
        const L x(arrow_proxy(a0, s0));                                                                                 \
        const L y(x);                                                                                                   \
        law::prove("own structure", own(y) != own(x));                                                                  \
        law::prove("size", y.size() == len(a0));                                                                        \
        reads(y, own(y), i, j);                                                                                         \
    }                                                                                                                   \
    void law_C14_source_##name(PARTS(0), std::size_t i, std::size_t j)                                                  \
    {                                                                                                                   \
        MAKE(0, format, nb, k) idx(a0, i);                                                                              \
        const L x(arrow_proxy(a0, s0));                                                                                 \
        const L y(x);                                                                                                   \
        reads(x, a0, i, j);                                                                                             \
    }                                                                                                                   \
    void law_C14_moved_##name(PARTS(0), std::size_t i, std::size_t j)                                                   \
    {                                                                                                                   \
        MAKE(0, format, nb, k) idx(a0, i);                                                                              \
        L x(arrow_proxy(a0, s0));                                                                                       \
        const L y(std::move(x));                                                                                        \
        law::prove("size", y.size() == len(a0));                                                                        \
        reads(y, a0, i, j);                                                                                             \
    }                                                                                                                   \
    void law_C14_copy_assigned_##name(PARTS(0), PARTS(1), std::size_t i, std::size_t j)                                 \
    {                                                                                                                   \
        MAKE(0, format, nb, k) MAKE(1, format, nb, k) idx(a0, i);                                                       \
        const L x(arrow_proxy(a0, s0));                                                                                 \
        L y(arrow_proxy(a1, s1));                                                                                       \
        y = x;                                                                                                          \
        law::prove("own structure", own(y) != own(x));                                                                  \
        law::prove("size", y.size() == len(a0));                                                                        \
        reads(y, own(y), i, j);                                                                                         \
    }                                                                                                                   \
    void law_C14_move_assigned_##name(PARTS(0), PARTS(1), std::size_t i, std::size_t j)                                 \
    {                                                                                                                   \
        MAKE(0, format, nb, k) MAKE(1, format, nb, k) idx(a0, i);                                                       \
        L x(arrow_proxy(a0, s0));                                                                                       \
        L y(arrow_proxy(a1, s1));                                                                                       \
        y = std::move(x);                                                                                               \
        law::prove("size", y.size() == len(a0));                                                                        \
        reads(y, a0, i, j);                                                                                             \
    }
LIVE(int32, primitive_array<i32>, "i", 2, 0)
LIVE(double, primitive_array<double>, "g", 2, 0)
LIVE(string, string_array, "u", 3, 0)
LIVE(list, list_array, "+l", 2, 1)
LIVE(big_list, big_list_array, "+L", 2, 1)
LIVE(list_view, list_view_array, "+vl", 3, 1)
LIVE(fixed_list, fixed_sized_list_array, "+w:3", 1, 1)
LIVE(struct, struct_array, "+s", 1, 2)
LIVE(sparse_union, sparse_union_array, "+us:5,7", 1, 2)
LIVE(dense_union, dense_union_array, "+ud:5,7", 2, 2)
LIVE(dictionary, dictionary_encoded_array<i32>, "i", 2, -1)
LIVE(run_end, run_end_encoded_array, "+r", 0, 3)

// the target keeps nothing of what it held, not even what was read from its format
#define OTHER(name, L, f0, f1, nb, k)                                                                                   \
    void law_C14_copy_assigned_##name(PARTS(0), PARTS(1), std::size_t i, std::size_t j)                                 \
    {                                                                                                                   \
        MAKE(0, f0, nb, k) MAKE(1, f1, nb, k) idx(a0, i);                                                               \
        const L x(arrow_proxy(a0, s0));                                                                                 \
        L y(arrow_proxy(a1, s1));                                                                                       \
        y = x;                                                                                                          \
        reads(y, own(y), i, j);                                                                                         \
    }                                                                                                                   \
    void law_C14_move_assigned_##name(PARTS(0), PARTS(1), std::size_t i, std::size_t j)                                 \
    {                                                                                                                   \
        MAKE(0, f0, nb, k) MAKE(1, f1, nb, k) idx(a0, i);                                                               \
        L x(arrow_proxy(a0, s0));                                                                                       \
        L y(arrow_proxy(a1, s1));                                                                                       \
        y = std::move(x);                                                                                               \
        reads(y, a0, i, j);                                                                                             \
    }
OTHER(sparse_union_map, sparse_union_array, "+us:5,7", "+us:7,5", 1, 2)
OTHER(dense_union_map, dense_union_array, "+ud:5,7", "+ud:7,5", 2, 2)
OTHER(fixed_list_size, fixed_sized_list_array, "+w:3", "+w:5", 1, 1)
