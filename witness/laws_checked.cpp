// C15: checked access never yields an element that does not exist, and never refuses one that does.
// C16: a nullable is what optional semantics say it is.
#include "arrow_model.hpp"
#include <sparrow/buffer/dynamic_bitset.hpp>
using namespace fmt;

#define AT(NAME, A, F)                                                                       \
    void law_C15_at_out_##NAME(ArrowArray* a, ArrowSchema* s, std::size_t i)                 \
    {                                                                                        \
        leaf(a, s, F);                                                                       \
        foreign(a, s);                                                                       \
        law::require(i >= len(a));                                                           \
        const A arr(arrow_proxy(a, s));                                                      \
        auto r = arr.at(i);                                                                  \
        law::unreachable("throws beyond the last element");                                  \
    }                                                                                        \
    void law_C15_at_in_##NAME(ArrowArray* a, ArrowSchema* s, std::size_t i)                  \
    {                                                                                        \
        leaf(a, s, F);                                                                       \
        foreign(a, s);                                                                       \
        idx(a, i);                                                                           \
        const A arr(arrow_proxy(a, s));                                                      \
        auto r = arr.at(i);                                                                  \
        law::total("accepts every element");                                                 \
        law::prove("same element", &r.get() == &arr[i].get());                               \
    }
AT(int32, primitive_array<i32>, "i")
AT(uint8, primitive_array<u8>, "C")
AT(double, primitive_array<double>, "g")

void law_C15_at_out_string(ArrowArray* a, ArrowSchema* s, std::size_t i)
{
    leaf(a, s, "u");
    foreign(a, s);
    law::require(i >= len(a));
    const string_array arr(arrow_proxy(a, s));
    auto r = arr.at(i);
    law::unreachable("throws beyond the last element");
}
void law_C15_at_out_null(ArrowArray* a, ArrowSchema* s, std::size_t i)
{
    leaf(a, s, "n");
    foreign(a, s);
    law::require(i >= len(a));
    const array arr(a, s);
    auto r = arr.at(i);
    law::unreachable("throws beyond the last element");
}
void law_C15_at_out_erased(ArrowArray* a, ArrowSchema* s, std::size_t i)
{
    leaf(a, s, "i");
    foreign(a, s);
    law::require(i >= len(a));
    const array arr(a, s);
    auto r = arr.at(i);
    law::unreachable("throws beyond the last element");
}
void law_C15_at_in_erased(ArrowArray* a, ArrowSchema* s, std::size_t i)
{
    leaf(a, s, "i");
    foreign(a, s);
    idx(a, i);
    const array arr(a, s);
    auto r = arr.at(i);
    law::total("accepts every element");
    law::prove("same element", is_int(r, a, i));
}
template <class L>
void list_out(ArrowArray* a, ArrowSchema* s, ArrowArray** ac, ArrowSchema** sc, ArrowArray* c0, ArrowSchema* s0, std::size_t i, const char* f)
{
    nested(a, s, f);
    a->children = ac;
    s->children = sc;
    int_child(a, s, 0, c0, s0);
    law::require(i >= len(a));
    const L arr(arrow_proxy(a, s));
    auto r = arr.at(i);
}
void law_C15_at_out_list(ArrowArray* a, ArrowSchema* s, ArrowArray** ac, ArrowSchema** sc, ArrowArray* c0, ArrowSchema* s0, std::size_t i)
{
    list_out<list_array>(a, s, ac, sc, c0, s0, i, "+l");
    law::unreachable("throws beyond the last element");
}
void law_C15_at_out_big_list(ArrowArray* a, ArrowSchema* s, ArrowArray** ac, ArrowSchema** sc, ArrowArray* c0, ArrowSchema* s0, std::size_t i)
{
    list_out<big_list_array>(a, s, ac, sc, c0, s0, i, "+L");
    law::unreachable("throws beyond the last element");
}
void law_C15_at_out_list_view(ArrowArray* a, ArrowSchema* s, ArrowArray** ac, ArrowSchema** sc, ArrowArray* c0, ArrowSchema* s0, std::size_t i)
{
    list_out<list_view_array>(a, s, ac, sc, c0, s0, i, "+vl");
    law::unreachable("throws beyond the last element");
}
void law_C15_at_out_fixed_list(ArrowArray* a, ArrowSchema* s, ArrowArray** ac, ArrowSchema** sc, ArrowArray* c0, ArrowSchema* s0, std::size_t i)
{
    list_out<fixed_sized_list_array>(a, s, ac, sc, c0, s0, i, "+w:3");
    law::unreachable("throws beyond the last element");
}
void law_C15_at_out_struct(ArrowArray* a, ArrowSchema* s, ArrowArray** ac, ArrowSchema** sc, ArrowArray* c0, ArrowSchema* s0, std::size_t i)
{
    list_out<struct_array>(a, s, ac, sc, c0, s0, i, "+s");
    law::unreachable("throws beyond the last element");
}

// bitsets
template <class B>
void bitset_out(B& b, std::size_t i)
{
    law::require(i >= b.size());
    auto r = b.at(i);
}
void law_C15_bitset_out(const dynamic_bitset<u8>& b, std::size_t i)
{
    bitset_out(b, i);
    law::unreachable("throws beyond the last bit");
}
void law_C15_bitset_out_mutable(dynamic_bitset<u8>& b, std::size_t i)
{
    bitset_out(b, i);
    law::unreachable("throws beyond the last bit");
}
void law_C15_bitset_view_out(const dynamic_bitset_view<const u8>& b, std::size_t i)
{
    bitset_out(b, i);
    law::unreachable("throws beyond the last bit");
}
void law_C15_bitset_non_owning_out(non_owning_dynamic_bitset<u8>& b, std::size_t i)
{
    bitset_out(b, i);
    law::unreachable("throws beyond the last bit");
}
void law_C15_bitset_in(const dynamic_bitset<u8>& b, std::size_t i)
{
    law::require(i < b.size());
    law::require(b.null_count() != 0 || bit(b.data(), i));  // the null count is right
    auto r = b.at(i);
    law::total("accepts every bit");
    law::prove("bit", r == bit(b.data(), i));
    law::prove("test", b.test(i) == bit(b.data(), i));
    law::prove("index", b[i] == bit(b.data(), i));
}

void law_C15_bitset_view_in(const dynamic_bitset_view<const u8>& b, std::size_t i)
{
    law::require(i < b.size());
    law::require(b.null_count() != 0 || bit(b.data(), i));  // the null count is right
    auto r = b.at(i);
    law::total("accepts every bit");
    law::prove("bit", r == bit(b.data(), i));
    law::prove("test", b.test(i) == bit(b.data(), i));
    law::prove("index", b[i] == bit(b.data(), i));
}

// nullables
void law_C15_nullable_value_null(const nullable<int>& n)
{
    law::require(!n.has_value());
    auto r = n.value();
    law::unreachable("throws on null");
}
void law_C15_nullable_value_null_mutable(nullable<std::string>& n)
{
    law::require(!n.has_value());
    auto& r = n.value();
    law::unreachable("throws on null");
}
void law_C15_nullable_value_null_rvalue(nullable<int>& n)
{
    law::require(!n.has_value());
    auto r = std::move(n).value();
    law::unreachable("throws on null");
}
void law_C15_nullable_value_null_ref(nullable<int&>& n)
{
    law::require(!n.has_value());
    auto& r = n.value();
    law::unreachable("throws on null");
}
void law_C15_nullable_value(const nullable<int>& n)
{
    law::require(n.has_value());
    const auto& r = n.value();
    law::total("accepts a value");
    law::prove("value", &r == &n.get());
}
void law_C15_nullable_value_mutable(nullable<int>& n)
{
    law::require(n.has_value());
    auto& r = n.value();
    law::total("accepts a value");
    law::prove("value", &r == &n.get());
}
