// C13: a copy is equal to its source, shares no storage with it, and lives and dies on its own.
#include "arrow_model.hpp"
using namespace fmt;

namespace
{
    // what a copied structure says about itself
    void same_shape(const ArrowArray& t, const ArrowArray& a)
    {
        law::prove("length", t.length == a.length);
        law::prove("offset", t.offset == a.offset);
        law::prove("null count", t.null_count == a.null_count);
        law::prove("number of buffers", t.n_buffers == a.n_buffers);
        law::prove("number of children", t.n_children == a.n_children);
        law::prove("dictionary", (t.dictionary == nullptr) == (a.dictionary == nullptr));
        law::prove("live", t.release == &release_arrow_array && t.private_data != nullptr && t.private_data != a.private_data);
    }
    void same_text(const ArrowSchema& t, const ArrowSchema& s)
    {
        law::prove("flags", t.flags == s.flags);
        law::prove("schema children", t.n_children == s.n_children);
        law::prove("schema dictionary", (t.dictionary == nullptr) == (s.dictionary == nullptr));
        law::prove("format apart", t.format != nullptr && t.format != s.format);
        law::prove("name apart", (t.name == nullptr) == (s.name == nullptr) && (s.name == nullptr || t.name != s.name));
        law::prove("metadata apart", (t.metadata == nullptr) == (s.metadata == nullptr) && (s.metadata == nullptr || t.metadata != s.metadata));
        law::prove("schema live", t.release == &release_arrow_schema && t.private_data != nullptr && t.private_data != s.private_data);
    }
    // byte i of buffer k
    void same_buffer(const ArrowArray& t, const ArrowArray& a, std::size_t k, std::size_t extent, std::size_t i)
    {
        law::require(a.buffers[k] != nullptr);
        law::require(i < extent);
        law::prove("storage apart", t.buffers[k] != a.buffers[k]);
        law::prove("bytes", static_cast<const u8*>(t.buffers[k])[i] == static_cast<const u8*>(a.buffers[k])[i]);
    }
    std::size_t bits(const ArrowArray* a)
    {
        return (off(a) + len(a) + 7) / 8;
    }
    void src(ArrowArray* a, ArrowSchema* s, const char* format, i64 nb)
    {
        leaf(a, s, format);
        foreign(a, s);
        a->n_buffers = nb;
    }
}
#define AS ArrowArray *a, ArrowSchema *s

void law_C13_array_shape(AS)
{
    src(a, s, "i", 2);
    ArrowArray t{};
    copy_array(*a, *s, t);
    same_shape(t, *a);
    law::prove("absent buffers stay absent", (t.buffers[0] == nullptr) == (a->buffers[0] == nullptr));
}
// copying reads the source only
void law_C13_array_source_kept(AS)
{
    src(a, s, "i", 2);
    law::freeze();
    ArrowArray t{};
    copy_array(*a, *s, t);
    law::thaw("source untouched");
}
void law_C13_schema_source_kept(AS)
{
    src(a, s, "i", 2);
    law::freeze();
    ArrowSchema t{};
    copy_schema(*s, t);
    law::thaw("source untouched");
}
#define BUF(name, format, nb, k, extent) void law_C13_bytes_##name(AS, size_t i) { src(a, s, format, nb); ArrowArray t{}; copy_array(*a, *s, t); same_buffer(t, *a, k, extent, i); }
BUF(validity, "i", 2, 0, bits(a))
BUF(int8, "c", 2, 1, off(a) + len(a))
BUF(int16, "s", 2, 1, 2 * (off(a) + len(a)))
BUF(int32, "i", 2, 1, 4 * (off(a) + len(a)))
BUF(int64, "l", 2, 1, 8 * (off(a) + len(a)))
BUF(uint8, "C", 2, 1, off(a) + len(a))
BUF(uint16, "S", 2, 1, 2 * (off(a) + len(a)))
BUF(uint32, "I", 2, 1, 4 * (off(a) + len(a)))
BUF(uint64, "L", 2, 1, 8 * (off(a) + len(a)))
BUF(half, "e", 2, 1, 2 * (off(a) + len(a)))
BUF(float, "f", 2, 1, 4 * (off(a) + len(a)))
BUF(double, "g", 2, 1, 8 * (off(a) + len(a)))
BUF(bool, "b", 2, 1, bits(a))
BUF(timestamp, "tDm", 2, 1, 8 * (off(a) + len(a)))
BUF(offsets, "u", 3, 1, 4 * (off(a) + len(a) + 1))
BUF(binary_offsets, "z", 3, 1, 4 * (off(a) + len(a) + 1))
BUF(list_offsets, "+l", 2, 1, 4 * (off(a) + len(a) + 1))
BUF(large_list_offsets, "+L", 2, 1, 8 * (off(a) + len(a) + 1))
BUF(list_view_offsets, "+vl", 3, 1, 4 * (off(a) + len(a)))
BUF(list_view_sizes, "+vl", 3, 2, 4 * (off(a) + len(a)))
BUF(struct_validity, "+s", 1, 0, bits(a))
BUF(fixed_binary, "w:5", 2, 1, 5 * (off(a) + len(a)))
BUF(decimal, "d:19,10", 2, 1, 16 * (off(a) + len(a)))
BUF(sparse_ids, "+us:0", 1, 0, off(a) + len(a))
BUF(dense_ids, "+ud:0", 2, 0, off(a) + len(a))
BUF(dense_offsets, "+ud:0", 2, 1, 4 * (off(a) + len(a)))
// the bytes of the strings: as many as the last offset says
void law_C13_bytes_text(AS, size_t i)
{
    src(a, s, "u", 3);
    const i32 last = buf<i32>(a, 1)[off(a) + len(a)];
    law::require(last >= 0);
    ArrowArray t{};
    copy_array(*a, *s, t);
    same_buffer(t, *a, 2, static_cast<size_t>(last), i);
}
void law_C13_schema_text(AS)
{
    src(a, s, "i", 2);
    ArrowSchema t{};
    copy_schema(*s, t);
    same_text(t, *s);
}
#define FMT(name, what) void law_C13_format_##name(AS) { src(a, s, what, 2); ArrowSchema t{}; copy_schema(*s, t); law::prove("format", std::string_view(t.format) == what); }
FMT(int32, "i")
FMT(decimal, "d:19,10")
FMT(list, "+l")
// children and dictionaries are copied, not shared
#define KIDS ArrowArray *c0, ArrowSchema *s0, ArrowArray *c1, ArrowSchema *s1
namespace
{
    void two(AS, KIDS)
    {
        nested(a, s, "+s");
        a->n_buffers = 1;
        int_child(a, s, 0, c0, s0);
        int_child(a, s, 1, c1, s1);
        c0->n_buffers = 2;
        c1->n_buffers = 2;
    }
    void with_dictionary(AS, ArrowArray* d, ArrowSchema* sd)
    {
        src(a, s, "i", 2);
        leaf(d, sd, "i");
        foreign(d, sd);
        d->n_buffers = 2;
        a->dictionary = d;
        s->dictionary = sd;
    }
}
void law_C13_children_0(AS, KIDS)
{
    two(a, s, c0, s0, c1, s1);
    ArrowArray t{};
    copy_array(*a, *s, t);
    law::prove("number of children of the copy", t.n_children == 2);
    law::prove("children apart", t.children != a->children && t.children[0] != c0 && t.children[1] != c1 && t.children[0] != t.children[1]);
    same_shape(*t.children[0], *c0);
}
void law_C13_children_1(AS, KIDS)
{
    two(a, s, c0, s0, c1, s1);
    ArrowArray t{};
    copy_array(*a, *s, t);
    same_shape(*t.children[1], *c1);
}
void law_C13_children_bytes(AS, KIDS, size_t i)
{
    two(a, s, c0, s0, c1, s1);
    ArrowArray t{};
    copy_array(*a, *s, t);
    same_buffer(*t.children[1], *c1, 1, 4 * (off(c1) + len(c1)), i);
}
void law_C13_children_schema(AS, KIDS)
{
    two(a, s, c0, s0, c1, s1);
    ArrowSchema t{};
    copy_schema(*s, t);
    law::prove("number of children of the copy", t.n_children == 2);
    law::prove("children apart", t.children != s->children && t.children[0] != s0 && t.children[1] != s1 && t.children[0] != t.children[1]);
    same_text(*t.children[1], *s1);
}
void law_C13_dictionary(AS, ArrowArray* d, ArrowSchema* sd)
{
    with_dictionary(a, s, d, sd);
    ArrowArray t{};
    copy_array(*a, *s, t);
    law::prove("dictionary apart", t.dictionary != nullptr && t.dictionary != d);
    same_shape(*t.dictionary, *d);
}
void law_C13_dictionary_bytes(AS, ArrowArray* d, ArrowSchema* sd, size_t i)
{
    with_dictionary(a, s, d, sd);
    ArrowArray t{};
    copy_array(*a, *s, t);
    same_buffer(*t.dictionary, *d, 1, 4 * (off(d) + len(d)), i);
}
void law_C13_dictionary_schema(AS, ArrowArray* d, ArrowSchema* sd)
{
    with_dictionary(a, s, d, sd);
    ArrowSchema t{};
    copy_schema(*s, t);
    law::prove("dictionary apart", t.dictionary != nullptr && t.dictionary != sd);
    same_text(*t.dictionary, *sd);
}
// the copy outlives its source, and the source the copy
void law_C13_release_copy(AS, KIDS)
{
    two(a, s, c0, s0, c1, s1);
    law::track(a->private_data);
    law::track(c0->private_data);
    law::track(c0);
    ArrowArray t{};
    copy_array(*a, *s, t);
    t.release(&t);
    law::prove("source not released", law::releases(a->private_data) == 0 && a->release != nullptr);
    law::prove("children of the source not released", law::releases(c0->private_data) == 0 && law::deletes(c0) == 0 && c0->release != nullptr);
    law::prove("copy released", t.release == nullptr);
}
void law_C13_release_schema_copy(AS, KIDS)
{
    two(a, s, c0, s0, c1, s1);
    law::track(s->private_data);
    law::track(s0->private_data);
    law::track(s0);
    ArrowSchema t{};
    copy_schema(*s, t);
    t.release(&t);
    law::prove("source not released", law::releases(s->private_data) == 0 && s->release != nullptr);
    law::prove("children of the source not released", law::releases(s0->private_data) == 0 && law::deletes(s0) == 0 && s0->release != nullptr);
    law::prove("copy released", t.release == nullptr);
}
// copies made of proxies
void law_C13_proxy(AS, size_t i)
{
    src(a, s, "i", 2);
    arrow_proxy p(a, s);
    const arrow_proxy q(p);
    same_shape(q.array(), *a);
    same_text(q.schema(), *s);
}
void law_C13_proxy_bytes(AS, size_t i)
{
    src(a, s, "i", 2);
    arrow_proxy p(a, s);
    const arrow_proxy q(p);
    same_buffer(q.array(), *a, 1, 4 * (off(a) + len(a)), i);
}
void law_C13_proxy_assign_bytes(AS, ArrowArray* b, ArrowSchema* sb, size_t i)
{
    src(a, s, "i", 2);
    src(b, sb, "f", 2);
    arrow_proxy p(a, s);
    arrow_proxy q(b, sb);
    q = p;
    same_shape(q.array(), *a);
    same_text(q.schema(), *s);
    same_buffer(q.array(), *a, 1, 4 * (off(a) + len(a)), i);
}
// every child is copied as what it is, wherever it is
namespace
{
    // a struct of an int32 and a double array, at any offset
    void mixed(AS, KIDS)
    {
        nested(a, s, "+s");
        a->n_buffers = 1;
        int_child(a, s, 0, c0, s0);
        leaf(c1, s1, "g");
        foreign(c1, s1);
        a->children[1] = c1;
        s->children[1] = s1;
        a->n_children = 2;
        s->n_children = 2;
        c0->n_buffers = 2;
        c1->n_buffers = 2;
    }
}
void law_C13_nested_shape(AS, KIDS)
{
    two(a, s, c0, s0, c1, s1);
    ArrowArray t{};
    copy_array(*a, *s, t);
    same_shape(t, *a);
    ArrowSchema u{};
    copy_schema(*s, u);
    same_text(u, *s);
}
void law_C13_nested_validity(AS, KIDS, size_t i)
{
    two(a, s, c0, s0, c1, s1);
    ArrowArray t{};
    copy_array(*a, *s, t);
    same_buffer(t, *a, 0, bits(a), i);
}
void law_C13_mixed_bytes_0(AS, KIDS, size_t i)
{
    mixed(a, s, c0, s0, c1, s1);
    ArrowArray t{};
    copy_array(*a, *s, t);
    same_buffer(*t.children[0], *c0, 1, 4 * (off(c0) + len(c0)), i);
}
void law_C13_mixed_bytes_1(AS, KIDS, size_t i)
{
    mixed(a, s, c0, s0, c1, s1);
    ArrowArray t{};
    copy_array(*a, *s, t);
    same_buffer(*t.children[1], *c1, 1, 8 * (off(c1) + len(c1)), i);
}
void law_C13_mixed_validity_1(AS, KIDS, size_t i)
{
    mixed(a, s, c0, s0, c1, s1);
    ArrowArray t{};
    copy_array(*a, *s, t);
    same_buffer(*t.children[1], *c1, 0, bits(c1), i);
}
void law_C13_mixed_formats(AS, KIDS)
{
    mixed(a, s, c0, s0, c1, s1);
    ArrowSchema t{};
    copy_schema(*s, t);
    law::prove("format of the parent", std::string_view(t.format) == "+s");
    law::prove("format of child 0", std::string_view(t.children[0]->format) == "i");
    law::prove("format of child 1", std::string_view(t.children[1]->format) == "g");
}
// depth two: a struct in a struct
void law_C13_deep(AS, KIDS, size_t i)
{
    nested(a, s, "+s");
    a->n_buffers = 1;
    leaf(c0, s0, "+s");
    foreign(c0, s0);
    c0->n_buffers = 1;
    a->children[0] = c0;
    s->children[0] = s0;
    a->n_children = 1;
    s->n_children = 1;
    int_child(c0, s0, 0, c1, s1);
    c1->n_buffers = 2;
    ArrowArray t{};
    copy_array(*a, *s, t);
    same_shape(*t.children[0], *c0);
    law::prove("grandchild apart", t.children[0]->children[0] != c1);
    same_shape(*t.children[0]->children[0], *c1);
    same_buffer(*t.children[0]->children[0], *c1, 1, 4 * (off(c1) + len(c1)), i);
}
// a dictionary of a child
void law_C13_child_dictionary(AS, ArrowArray* c0, ArrowSchema* s0, ArrowArray* d, ArrowSchema* sd, size_t i)
{
    nested(a, s, "+s");
    a->n_buffers = 1;
    int_child(a, s, 0, c0, s0);
    c0->n_buffers = 2;
    leaf(d, sd, "l");
    foreign(d, sd);
    d->n_buffers = 2;
    c0->dictionary = d;
    s0->dictionary = sd;
    ArrowArray t{};
    copy_array(*a, *s, t);
    law::prove("dictionary apart", t.children[0]->dictionary != nullptr && t.children[0]->dictionary != d);
    same_shape(*t.children[0]->dictionary, *d);
    same_buffer(*t.children[0]->dictionary, *d, 1, 8 * (off(d) + len(d)), i);
}
// string views: the views, and every variadic buffer over its own extent
#define VIEWS(name, k, extent)                                                                             \
    void law_C13_bytes_##name(AS, const i64* sizes, size_t i)                                              \
    {                                                                                                      \
        src(a, s, "vu", 5);                                                                                \
        law::require(sizes != nullptr && sizes[0] >= 0 && sizes[1] >= 0);                                  \
        law::require(a->buffers[4] == sizes);                                                              \
        ArrowArray t{};                                                                                    \
        copy_array(*a, *s, t);                                                                             \
        law::prove("number of buffers", t.n_buffers == 5);                                                 \
        same_buffer(t, *a, k, extent, i);                                                                  \
    }
VIEWS(views, 1, 16 * (off(a) + len(a)))
VIEWS(variadic_0, 2, static_cast<size_t>(sizes[0]))
VIEWS(variadic_1, 3, static_cast<size_t>(sizes[1]))
VIEWS(variadic_sizes, 4, 16)
