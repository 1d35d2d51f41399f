// C10: reading an array, a structure, a buffer or a bitset writes nothing that existed before.
#include "parts.hpp"

namespace
{
    // every const operation of a typed array
    template <class X>
    concept random_access = requires(X x) { x + 1; x - x; };
    template <class L>
    void common(const L& x, std::size_t i)
    {
        (void) x.size();
        (void) x[i];
        (void) *x.begin();
        if constexpr (random_access<decltype(x.begin())>)
        {
            (void) *(x.cbegin() + static_cast<std::ptrdiff_t>(i));
            (void) (x.end() - x.begin());
        }
        (void) (x.cend() == x.cbegin());
    }
    template <class L>
    void based(const L& x, std::size_t i)
    {
        common(x, i);
        (void) x.empty();
        (void) x.at(i);
        (void) x.front();
        (void) x.back();
        (void) *(x.rbegin() + static_cast<std::ptrdiff_t>(i));
        (void) (x.crend() - x.crbegin());
        (void) *(x.bitmap().begin() + static_cast<std::ptrdiff_t>(i));
        (void) *(x.values().begin() + static_cast<std::ptrdiff_t>(i));
        (void) x.bitmap().end();
        (void) x.values().end();
    }
    void every(const primitive_array<i32>& x, std::size_t i, std::size_t) { based(x, i); (void) x[i].get(); (void) x[i].has_value(); (void) x[i].value(); }
    void every(const primitive_array<double>& x, std::size_t i, std::size_t) { based(x, i); (void) x[i].get(); (void) x[i].has_value(); (void) x[i].value(); }
    void every(const string_array& x, std::size_t i, std::size_t) { based(x, i); (void) x[i].get(); (void) x[i].has_value(); (void) x[i].get().size(); }
    void every(const string_view_array& x, std::size_t i, std::size_t) { based(x, i); (void) x[i].get(); (void) x[i].has_value(); (void) x[i].get().size(); }
    template <class L>
    void lists(const L& x, std::size_t i, std::size_t j)
    {
        based(x, i);
        (void) x.raw_flat_array();
        auto r = x[i];
        (void) r.get().size();
        law::require(j < r.get().size());
        (void) r.get()[j];
        (void) (r.get() == r.get());
    }
    void every(const list_array& x, std::size_t i, std::size_t j) { lists(x, i, j); }
    void every(const big_list_array& x, std::size_t i, std::size_t j) { lists(x, i, j); }
    void every(const list_view_array& x, std::size_t i, std::size_t j) { lists(x, i, j); }
    void every(const fixed_sized_list_array& x, std::size_t i, std::size_t j) { lists(x, i, j); }
    void every(const struct_array& x, std::size_t i, std::size_t)
    {
        based(x, i);
        (void) x.raw_child(0);
        auto r = x[i];
        (void) r.get().size();
        (void) r.get()[0];
        (void) r.get()[1];
    }
    template <class L>
    void unions(const L& x, std::size_t i) { common(x, i); }
    void every(const sparse_union_array& x, std::size_t i, std::size_t) { unions(x, i); }
    void every(const dense_union_array& x, std::size_t i, std::size_t) { unions(x, i); }
    void every(const dictionary_encoded_array<i32>& x, std::size_t i, std::size_t) { common(x, i); }
    void every(const run_end_encoded_array& x, std::size_t i, std::size_t) { common(x, i); }
    void every(const null_array& x, std::size_t i, std::size_t) { common(x, i); (void) *x.values().begin(); (void) *x.bitmap().begin(); }
}

#define READS(name, L, format, nb, k)                                                                                   \
    void law_C10_reads_##name(PARTS(0), std::size_t i, std::size_t j)                                                   \
    {                                                                                                                   \
        MAKE(0, format, nb, k) idx(a0, i);                                                                              \
        const L x(arrow_proxy(a0, s0));                                                                                 \
        law::freeze();                                                                                                  \
        every(x, i, j);                                                                                                 \
        law::thaw("nothing written");                                                                                   \
    }                                                                                                                   \
    void law_C10_wraps_##name(PARTS(0))                                                                                 \
    {                                                                                                                   \
        MAKE(0, format, nb, k)                                                                                          \
        law::freeze();                                                                                                  \
        const L x(arrow_proxy(a0, s0));                                                                                 \
        law::thaw("nothing written");                                                                                   \
    }                                                                                                                   \
    void law_C10_copies_##name(PARTS(0))                                                                                \
    {                                                                                                                   \
        MAKE(0, format, nb, k)                                                                                          \
        const L x(arrow_proxy(a0, s0));                                                                                 \
        law::freeze();                                                                                                  \
        const L y(x);                                                                                                   \
        law::thaw("nothing written");                                                                                   \
    }                                                                                                                   \
    void law_C10_erased_##name(PARTS(0), std::size_t i)                                                                 \
    {                                                                                                                   \
        MAKE(0, format, nb, k) idx(a0, i);                                                                              \
        const array x(a0, s0);                                                                                          \
        law::freeze();                                                                                                  \
        (void) x.size();                                                                                                \
        (void) x.empty();                                                                                               \
        (void) x.data_type();                                                                                           \
        (void) x[i];                                                                                                    \
        (void) x.at(i);                                                                                                 \
        (void) x.front();                                                                                               \
        (void) x.back();                                                                                                \
        (void) x.visit([](const auto& y) { return y.size(); });                                                         \
        law::thaw("nothing written");                                                                                   \
    }                                                                                                                   \
    void law_C10_copies_erased_##name(PARTS(0))                                                                         \
    {                                                                                                                   \
        MAKE(0, format, nb, k)                                                                                          \
        const array x(a0, s0);                                                                                          \
        law::freeze();                                                                                                  \
        const array y(x);                                                                                               \
        law::thaw("nothing written");                                                                                   \
    }                                                                                                                   \
    void law_C10_slices_##name(PARTS(0), std::size_t b, std::size_t e)                                                  \
    {                                                                                                                   \
        MAKE(0, format, nb, k) law::require(b <= e && e <= len(a0));                                                    \
        const array x(a0, s0);                                                                                          \
        law::freeze();                                                                                                  \
        (void) x.slice(b, e);                                                                                           \
        (void) x.slice_view(b, e);                                                                                      \
        law::thaw("nothing written");                                                                                   \
    }
READS(int32, primitive_array<i32>, "i", 2, 0)
READS(double, primitive_array<double>, "g", 2, 0)
READS(string, string_array, "u", 3, 0)
READS(string_view, string_view_array, "vu", 3, 0)
READS(list, list_array, "+l", 2, 1)
READS(big_list, big_list_array, "+L", 2, 1)
READS(list_view, list_view_array, "+vl", 3, 1)
READS(fixed_list, fixed_sized_list_array, "+w:3", 1, 1)
READS(struct, struct_array, "+s", 1, 2)
READS(sparse_union, sparse_union_array, "+us:5,7", 1, 2)
READS(dense_union, dense_union_array, "+ud:5,7", 2, 2)
READS(dictionary, dictionary_encoded_array<i32>, "i", 2, -1)
READS(run_end, run_end_encoded_array, "+r", 0, 3)
READS(null, null_array, "n", 0, 0)

#define CALL(kind, pre, what)                                                                                            \
    void law_C10_proxy_##what##_##kind(PARTS(0))                                                                        \
    {                                                                                                                   \
        MAKE(0, "+s", 1, 2) pre                                                                                         \
        const arrow_proxy x(a0, s0);                                                                                    \
        law::freeze();                                                                                                  \
        (void) x.what();                                                                                                \
        law::thaw("nothing written");                                                                                   \
    }
#define PROXY(kind, pre) \
    CALL(kind, pre, format) CALL(kind, pre, data_type) CALL(kind, pre, name) CALL(kind, pre, metadata) CALL(kind, pre s0->flags = 2;, flags) CALL(kind, pre, length) CALL(kind, pre, null_count) CALL(kind, pre, offset) CALL(kind, pre, n_buffers) CALL(kind, pre, n_children) CALL(kind, pre, buffers) CALL(kind, pre, children) CALL(kind, pre, dictionary) CALL(kind, pre, is_created_with_sparrow) CALL(kind, pre, private_data) CALL(kind, pre, owns_array) CALL(kind, pre, owns_schema) CALL(kind, pre, array) CALL(kind, pre, schema) \
    void law_C10_proxy_view_##kind(PARTS(0))                                                                            \
    {                                                                                                                   \
        MAKE(0, "+s", 1, 2) pre                                                                                         \
        const arrow_proxy x(a0, s0);                                                                                    \
        law::freeze();                                                                                                  \
        const arrow_proxy v = x.view();                                                                                 \
        (void) v.length();                                                                                              \
        law::thaw("nothing written");                                                                                   \
    }                                                                                                                   \
    void law_C10_proxy_slices_##kind(PARTS(0), std::size_t b, std::size_t e)                                            \
    {                                                                                                                   \
        MAKE(0, "+s", 1, 2) law::require(b <= e && e <= len(a0)); pre                                                   \
        const arrow_proxy x(a0, s0);                                                                                    \
        law::freeze();                                                                                                  \
        (void) x.slice(b, e);                                                                                           \
        (void) x.slice_view(b, e);                                                                                      \
        law::thaw("nothing written");                                                                                   \
    }                                                                                                                   \
    void law_C10_proxy_copy_##kind(PARTS(0))                                                                            \
    {                                                                                                                   \
        MAKE(0, "+s", 1, 2) pre                                                                                         \
        const arrow_proxy x(a0, s0);                                                                                    \
        law::freeze();                                                                                                  \
        const arrow_proxy y(x);                                                                                         \
        law::thaw("nothing written");                                                                                   \
    }
PROXY(foreign, )
PROXY(own, a0->release = &release_arrow_array; s0->release = &release_arrow_schema;)

// with an uncounted number of nulls, with and without a bitmap
#define UNCOUNTED(name, L, format, nb, k)                                                                               \
    void law_C10_uncounted_##name(PARTS(0), bool bitmap, std::int64_t nulls)                                             \
    {                                                                                                                   \
        MAKE(0, format, nb, k)                                                                                          \
        if (!bitmap) a0->buffers[0] = nullptr;                                                                          \
        a0->null_count = nulls;                                                                                         \
        const arrow_proxy x(a0, s0);                                                                                    \
        law::freeze();                                                                                                  \
        (void) x.null_count();                                                                                          \
        (void) x.buffers().size();                                                                                      \
        (void) x.length();                                                                                              \
        (void) x.view();                                                                                                \
        const L y(x.view());                                                                                            \
        (void) y.size();                                                                                                \
        law::thaw("nothing written");                                                                                   \
    }
UNCOUNTED(i32, primitive_array<i32>, "i", 2, 0)
UNCOUNTED(string, string_array, "u", 3, 0)
UNCOUNTED(list, list_array, "+l", 2, 1)
UNCOUNTED(fixed_list, fixed_sized_list_array, "+w:3", 1, 1)
UNCOUNTED(struct, struct_array, "+s", 1, 2)
UNCOUNTED(list_view, list_view_array, "+vl", 3, 1)
UNCOUNTED(string_view, string_view_array, "vu", 3, 0)
UNCOUNTED(dictionary, dictionary_encoded_array<i32>, "i", 2, -1)

template <class B>
void read_bits(const B& x, std::size_t i)
{
    (void) x.size();
    (void) x.empty();
    (void) x.null_count();
    (void) x.test(i);
    (void) static_cast<bool>(x[i]);
    (void) static_cast<bool>(x.at(i));
    (void) static_cast<bool>(x.front());
    (void) static_cast<bool>(x.back());
    (void) x.data();
    (void) x.block_count();
    (void) static_cast<bool>(*(x.begin() + static_cast<std::ptrdiff_t>(i)));
    (void) (x.cend() - x.cbegin());
}
void law_C10_bitset(u8* p, std::size_t n, std::size_t i)
{
    law::require(i < n && n < (std::size_t(1) << 40) && p != nullptr);
    const dynamic_bitset<u8> x(p, n);
    law::freeze();
    read_bits(x, i);
    law::thaw("nothing written");
}
void law_C10_bitset_copy(u8* p, std::size_t n, std::size_t i)
{
    law::require(i < n && n < (std::size_t(1) << 40) && p != nullptr);
    const dynamic_bitset<u8> x(p, n);
    law::freeze();
    const dynamic_bitset<u8> y(x);
    law::thaw("nothing written");
}
void law_C10_bitset_view(const u8* p, std::size_t n, std::size_t i)
{
    law::require(i < n && n < (std::size_t(1) << 40));
    law::freeze();
    const dynamic_bitset_view<const u8> x(p, n);
    read_bits(x, i);
    law::thaw("nothing written");
}
void law_C10_bitset_mutable_view(u8* p, std::size_t n, std::size_t i)
{
    law::require(i < n && n < (std::size_t(1) << 40));
    law::freeze();
    const dynamic_bitset_view<u8> x(p, n);
    read_bits(x, i);
    law::thaw("nothing written");
}
void law_C10_buffer(const buffer<i32>& x, std::size_t i)
{
    law::require(i < x.size());
    law::freeze();
    (void) x[i];
    (void) x.front();
    (void) x.back();
    (void) x.size();
    (void) x.capacity();
    (void) x.empty();
    (void) *(x.begin() + static_cast<std::ptrdiff_t>(i));
    (void) *x.crbegin();
    (void) x.data<u8>();
    const buffer<i32> y(x);
    (void) (y == x);
    law::thaw("nothing written");
}

// C19: a null of a dictionary array is a null of its own dictionary's type
#define NULLKEY(name, format, T)                                                                                        \
    void law_C19_null_key_##name(PARTS(0), std::size_t i)                                                               \
    {                                                                                                                   \
        part(a0, s0, "i", 2);                                                                                           \
        part(c0, t0, format, 3);                                                                                        \
        a0->dictionary = c0;                                                                                            \
        s0->dictionary = t0;                                                                                            \
        idx(a0, i);                                                                                                     \
        law::require(!bit(a0->buffers[0], off(a0) + i));                                                                \
        const dictionary_encoded_array<i32> x(arrow_proxy(a0, s0));                                                     \
        const elem e = x[i];                                                                                            \
        const auto* p = std::get_if<nullable<T>>(&e);                                                                   \
        law::prove("type of its dictionary", p != nullptr);                                                             \
        law::prove("null", !p->has_value());                                                                            \
    }
NULLKEY(int32, "i", const i32&)
NULLKEY(double, "g", const double&)
NULLKEY(string, "u", std::string_view)
