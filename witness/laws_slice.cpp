// C07: a slice is the sub-range of the logical elements of what was sliced - also of a slice - and leaves it untouched.
#include "arrow_model.hpp"
using namespace fmt;

namespace
{
    // [start, end) lies inside the array
    void range(const ArrowArray* a, std::size_t start, std::size_t end)
    {
        law::require(start <= end);
        law::require(end <= len(a));
    }
    template <class A>
    void view_law(ArrowArray* a, ArrowSchema* s, const char* f, std::size_t start, std::size_t end, std::size_t i)
    {
        leaf(a, s, f);
        foreign(a, s);
        range(a, start, end);
        const A arr(arrow_proxy(a, s));
        const auto sl = arr.slice_view(start, end);
        law::prove("size", sl.size() == end - start);
        law::prove("source length", a->length == static_cast<i64>(arr.size()));
        law::require(i < end - start);
        auto r = sl[i];
        law::prove("validity", r.has_value() == bit(a->buffers[0], off(a) + start + i));
        law::prove("element", &r.get() == &arr[start + i].get());
    }
}
void law_C07_view_int32(ArrowArray* a, ArrowSchema* s, std::size_t start, std::size_t end, std::size_t i)
{
    view_law<primitive_array<i32>>(a, s, "i", start, end, i);
}
void law_C07_view_int64(ArrowArray* a, ArrowSchema* s, std::size_t start, std::size_t end, std::size_t i)
{
    view_law<primitive_array<i64>>(a, s, "l", start, end, i);
}
void law_C07_view_uint8(ArrowArray* a, ArrowSchema* s, std::size_t start, std::size_t end, std::size_t i)
{
    view_law<primitive_array<u8>>(a, s, "C", start, end, i);
}
void law_C07_view_double(ArrowArray* a, ArrowSchema* s, std::size_t start, std::size_t end, std::size_t i)
{
    view_law<primitive_array<double>>(a, s, "g", start, end, i);
}
void law_C07_view_string(ArrowArray* a, ArrowSchema* s, std::size_t start, std::size_t end, std::size_t i)
{
    leaf(a, s, "u");
    foreign(a, s);
    range(a, start, end);
    const string_array arr(arrow_proxy(a, s));
    const auto sl = arr.slice_view(start, end);
    law::require(i < end - start);
    const auto* o = buf<i32>(a, 1) + off(a) + start;
    law::require(0 <= o[i] && o[i] <= o[i + 1]);
    auto r = sl[i];
    law::prove("size", sl.size() == end - start);
    law::prove("validity", r.has_value() == bit(a->buffers[0], off(a) + start + i));
    law::prove("data", r.get().data() == buf<char>(a, 2) + o[i]);
    law::prove("length", r.get().size() == static_cast<std::size_t>(o[i + 1] - o[i]));
}
void law_C07_view_of_view(ArrowArray* a, ArrowSchema* s, std::size_t start, std::size_t end, std::size_t st2, std::size_t en2, std::size_t i)
{
    leaf(a, s, "i");
    foreign(a, s);
    range(a, start, end);
    law::require(st2 <= en2 && en2 <= end - start);
    const primitive_array<i32> arr(arrow_proxy(a, s));
    const auto sl = arr.slice_view(start, end).slice_view(st2, en2);
    law::prove("size", sl.size() == en2 - st2);
    law::require(i < en2 - st2);
    auto r = sl[i];
    law::prove("validity", r.has_value() == bit(a->buffers[0], off(a) + start + st2 + i));
    law::prove("element", &r.get() == buf<i32>(a, 1) + off(a) + start + st2 + i);
}
void law_C07_view_erased(ArrowArray* a, ArrowSchema* s, std::size_t start, std::size_t end, std::size_t i)
{
    leaf(a, s, "i");
    foreign(a, s);
    range(a, start, end);
    const array arr(a, s);
    const array sl = arr.slice_view(start, end);
    law::prove("size", sl.size() == end - start);
    law::require(i < end - start);
    law::prove("element", is_int(sl[i], a, start + i));
}
// the proxy level: offset and length of the slices, of views and of copies
void law_C07_proxy_view(ArrowArray* a, ArrowSchema* s, std::size_t start, std::size_t end)
{
    leaf(a, s, "i");
    foreign(a, s);
    range(a, start, end);
    const arrow_proxy p(a, s);
    const auto v = p.slice_view(start, end);
    law::prove("offset", v.offset() == off(a) + start);
    law::prove("length", v.length() == end - start);
    law::prove("null count", v.null_count() == -1 || (start == 0 && end == p.length()) || p.null_count() == 0);
    law::prove("same values", v.buffers()[1].data() == buf<u8>(a, 1));
    law::prove("same validity", v.buffers()[0].data() == buf<u8>(a, 0) || a->buffers[0] == nullptr);
    law::prove("extent", v.buffers()[1].size() == 4 * (off(a) + end));
    law::prove("format", v.format().data() == s->format);
}
void law_C07_proxy_slice(ArrowArray* a, ArrowSchema* s, std::size_t start, std::size_t end)
{
    leaf(a, s, "i");
    foreign(a, s);
    a->n_buffers = 2;
    range(a, start, end);
    const auto o0 = a->offset;
    const auto n0 = a->length;
    const arrow_proxy p(a, s);
    const auto v = p.slice(start, end);
    law::prove("offset", v.offset() == static_cast<std::size_t>(o0) + start);
    law::prove("length", v.length() == end - start);
    law::prove("source offset", a->offset == o0);
    law::prove("source length", a->length == n0);
    law::prove("source alive", a->release != nullptr);
}
// slicing a struct / list keeps addressing the same children
void law_C07_view_list(ArrowArray* a, ArrowSchema* s, ArrowArray** ac, ArrowSchema** sc, ArrowArray* c0, ArrowSchema* s0, std::size_t start, std::size_t end, std::size_t i, std::size_t k)
{
    nested(a, s, "+l");
    a->children = ac;
    s->children = sc;
    int_child(a, s, 0, c0, s0);
    range(a, start, end);
    const list_array arr(arrow_proxy(a, s));
    const auto sl = arr.slice_view(start, end);
    const auto* o = buf<i32>(a, 1) + off(a) + start;
    law::require(i < end - start);
    law::require(0 <= o[i] && o[i] <= o[i + 1]);
    auto r = sl[i];
    law::prove("validity", r.has_value() == bit(a->buffers[0], off(a) + start + i));
    law::prove("list size", r.get().size() == static_cast<std::size_t>(o[i + 1] - o[i]));
    law::require(k < static_cast<std::size_t>(o[i + 1] - o[i]));
    law::require(static_cast<std::size_t>(o[i]) + k < len(c0));
    law::prove("list element", is_int(r.get()[k], c0, static_cast<std::size_t>(o[i]) + k));
}
void law_C07_view_struct(ArrowArray* a, ArrowSchema* s, ArrowArray** ac, ArrowSchema** sc, ArrowArray* c0, ArrowSchema* s0, std::size_t start, std::size_t end, std::size_t i)
{
    nested(a, s, "+s");
    a->children = ac;
    s->children = sc;
    int_child(a, s, 0, c0, s0);
    range(a, start, end);
    const struct_array arr(arrow_proxy(a, s));
    const auto sl = arr.slice_view(start, end);
    law::require(i < end - start);
    law::require(off(a) + start + i < len(c0));
    auto r = sl[i];
    law::prove("validity", r.has_value() == bit(a->buffers[0], off(a) + start + i));
    law::prove("field", is_int(r.get()[0], c0, off(a) + start + i));
}
