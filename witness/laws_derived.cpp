// C05: what is derived from a structure made by sparrow (buffer views, children, dictionary, text, null count) follows
// every mutation of it.
#include "arrow_model.hpp"
using namespace fmt;

namespace
{
    using buffers_t = arrow_array_private_data::BufferType;
    // storage of any content, of n bytes with room for c
    buffer<u8> bytes(u8* p, size_t n, size_t c)
    {
        law::require(p != nullptr && n <= c && c < (size_t(1) << 40));
        buffer<u8> b(p, c);
        b.resize(n);
        return b;
    }
    // an int32 array made by sparrow: two buffers of any content, any length and offset
    ArrowArray ints(i64 length, i64 offset, u8* p0, size_t n0, size_t c0, u8* p1, size_t n1, size_t c1)
    {
        law::require(length >= 0 && offset >= 0 && length + offset < (i64(1) << 36));
        law::require(n0 >= static_cast<size_t>(length + offset + 7) / 8 && n1 >= static_cast<size_t>(length + offset) * 4);
        buffers_t bs;
        if (p0 == nullptr)
        {
            bs.emplace_back();
        }
        else
        {
            bs.emplace_back(bytes(p0, n0, c0));
        }
        bs.emplace_back(bytes(p1, n1, c1));
        return make_arrow_array(length, 0, offset, std::move(bs), 0, nullptr, nullptr);
    }
    ArrowSchema schema(std::string_view format)
    {
        return make_arrow_schema(format, std::string_view("n"), std::nullopt, std::nullopt, 0, nullptr, nullptr);
    }
    std::size_t nulls(const arrow_proxy& p)
    {
        const dynamic_bitset_view<const u8> all(static_cast<const u8*>(p.array().buffers[0]), p.length() + p.offset());
        const dynamic_bitset_view<const u8> before(static_cast<const u8*>(p.array().buffers[0]), p.offset());
        return all.null_count() - before.null_count();
    }
    // the views are those of the structure, and the structure is that of its private data
    void in_step(arrow_proxy& p, std::size_t n)
    {
        auto& own = p.get_array_private_data()->buffers();
        law::prove("number of buffers", p.buffers().size() == n && p.n_buffers() == n && own.size() == n);
        law::prove("validity buffer of the structure", p.array().buffers[0] == own[0].data());
        law::prove("values buffer of the structure", p.array().buffers[1] == own[1].data());
        law::prove("validity buffer view", p.buffers()[0].data() == own[0].data());
        law::prove("values buffer view", p.buffers()[1].data() == own[1].data());
    }
    void extents(const arrow_proxy& p)
    {
        law::prove("extent of the validity buffer", p.buffers()[0].data() == nullptr || p.buffers()[0].size() == (p.length() + p.offset() + 7) / 8);
        law::prove("extent of the values buffer", p.buffers()[1].size() == (p.length() + p.offset()) * 4);
    }
}
#define INTS i64 length, i64 offset, u8 *p0, size_t n0, size_t c0, u8 *p1, size_t n1, size_t c1
#define P law::require(p0 != nullptr && p0 != p1); arrow_proxy p(ints(length, offset, p0, n0, c0, p1, n1, c1), schema("i"));
// ... without validity buffer
#define V i64 length, i64 offset, u8 *p1, size_t n1, size_t c1
#define Q arrow_proxy p(ints(length, offset, nullptr, size_t(1) << 37, 0, p1, n1, c1), schema("i"));
#define NEW u8 *q, size_t m, size_t c
#define B(need) law::require(q != nullptr && q != p0 && q != p1 && m >= need); auto b = bytes(q, m, c);
#define BITS (p.length() + p.offset() + 7) / 8
#define INTS4 (p.length() + p.offset()) * 4

void law_C05_built(INTS)
{
    P in_step(p, 2);
    extents(p);
}
void law_C05_set_length(INTS, size_t n)
{
    P law::require(n + p.offset() <= static_cast<size_t>(length + offset));
    p.set_length(n);
    law::prove("length", p.length() == n && p.array().length == static_cast<i64>(n));
    law::prove("offset kept", p.offset() == static_cast<size_t>(offset));
    in_step(p, 2);
    extents(p);
    law::prove("null count", static_cast<size_t>(p.null_count()) == nulls(p));
}
void law_C05_set_offset(INTS, size_t n)
{
    P law::require(n + p.length() <= static_cast<size_t>(length + offset));
    p.set_offset(n);
    law::prove("offset", p.offset() == n && p.array().offset == static_cast<i64>(n));
    law::prove("length kept", p.length() == static_cast<size_t>(length));
    in_step(p, 2);
    extents(p);
    law::prove("null count", static_cast<size_t>(p.null_count()) == nulls(p));
}
void law_C05_set_null_count(INTS, i64 n)
{
    P p.set_null_count(n);
    law::prove("null count", p.null_count() == n && p.array().null_count == n);
    in_step(p, 2);
}
void law_C05_set_buffer0(INTS, NEW)
{
    P B(BITS) p.set_buffer(0, std::move(b));
    in_step(p, 2);
    extents(p);
    law::prove("content", p.buffers()[0].data() == q);
    law::prove("null count", static_cast<size_t>(p.null_count()) == nulls(p));
}
void law_C05_set_buffer1(INTS, NEW)
{
    P B(INTS4) p.set_buffer(1, std::move(b));
    in_step(p, 2);
    extents(p);
    law::prove("content", p.buffers()[1].data() == q);
}
void law_C05_set_buffer_view(INTS, u8* q, size_t m)
{
    P law::require(q != nullptr && q != p0 && q != p1 && m >= INTS4 && m < (size_t(1) << 40));
    p.set_buffer(1, buffer_view<u8>(q, m));
    in_step(p, 2);
    extents(p);
}
void law_C05_set_buffer_view0(INTS, u8* q, size_t m)
{
    P law::require(q != nullptr && q != p0 && q != p1 && m >= BITS && m < (size_t(1) << 40));
    p.set_buffer(0, buffer_view<u8>(q, m));
    in_step(p, 2);
    extents(p);
    law::prove("null count", static_cast<size_t>(p.null_count()) == nulls(p));
}
void law_C05_set_n_buffers(INTS)
{
    P p.set_n_buffers(3);
    law::prove("structure count", p.array().n_buffers == 3);
    law::prove("count", p.n_buffers() == 3);
    law::prove("content count", p.get_array_private_data()->buffers().size() == 3);
    law::prove("validity buffer of the structure", p.array().buffers[0] == p.get_array_private_data()->buffers()[0].data());
    law::prove("values buffer of the structure", p.array().buffers[1] == p.get_array_private_data()->buffers()[1].data());
    law::prove("new buffer of the structure", p.array().buffers[2] == p.get_array_private_data()->buffers()[2].data());
    law::prove("validity buffer view", p.buffers()[0].data() == p.array().buffers[0]);
    law::prove("values buffer view", p.buffers()[1].data() == p.array().buffers[1]);
}
void law_C05_set_same_n_buffers(INTS)
{
    P p.set_n_buffers(2);
    in_step(p, 2);
    extents(p);
}
// the buffers the pointers of the structure are for are those of the private data, whatever the views show
void law_C05_set_fewer_n_buffers(INTS)
{
    P p.set_n_buffers(1);
    law::prove("structure count", p.array().n_buffers == 1);
    law::prove("content count", p.get_array_private_data()->buffers().size() == 1);
    law::prove("validity buffer of the structure", p.array().buffers[0] == p.get_array_private_data()->buffers()[0].data());
}
// the private data is changed through its own interface, then update_buffers is called
void law_C05_update_buffers(INTS, NEW)
{
    P B(INTS4) p.get_array_private_data()->buffers()[1] = std::move(b);
    p.update_buffers();
    in_step(p, 2);
    extents(p);
}
void law_C05_private_set_buffer(INTS, NEW)
{
    P B(INTS4) auto* d = p.get_array_private_data();
    d->set_buffer(1, std::move(b));
    law::prove("pointer follows", d->buffers_ptrs<u8>()[1] == d->buffers()[1].data());
    law::prove("other pointer kept", d->buffers_ptrs<u8>()[0] == d->buffers()[0].data());
}
void law_C05_private_resize_buffer(INTS, size_t n, u8 v)
{
    P auto* d = p.get_array_private_data();
    d->resize_buffer(1, n, v);
    law::prove("pointer follows", d->buffers_ptrs<u8>()[1] == d->buffers()[1].data());
    law::prove("other pointer kept", d->buffers_ptrs<u8>()[0] == d->buffers()[0].data());
}
// the bitmap operations may move the validity buffer
void law_C05_resize_bitmap(INTS, size_t n, bool v)
{
    P law::require(n < (size_t(1) << 36));
    p.resize_bitmap(n, v);
    law::total("accepted");
    in_step(p, 2);
}
void law_C05_insert_bitmap(INTS, size_t i, bool v, size_t n)
{
    P law::require(i <= p.length() && n < (size_t(1) << 36));
    const size_t at = p.insert_bitmap(i, v, n);
    law::total("accepted");
    in_step(p, 2);
    law::prove("index", at == i);
}
void law_C05_erase_bitmap(INTS, size_t i, size_t n)
{
    P law::require(i < p.length() && n <= p.length() - i);
    const size_t at = p.erase_bitmap(i, n);
    law::total("accepted");
    in_step(p, 2);
    law::prove("index", at == i);
}
void law_C05_push_back_bitmap(INTS, bool v)
{
    P p.push_back_bitmap(v);
    law::total("accepted");
    in_step(p, 2);
}
void law_C05_pop_back_bitmap(INTS)
{
    P law::require(p.length() > 0);
    p.pop_back_bitmap();
    law::total("accepted");
    in_step(p, 2);
}
// without validity bitmap all the elements are valid, and stay so
#define N arrow_proxy p(ints(length, offset, nullptr, 0, 0, p1, n1, c1), schema("i"));
#define KEPT(where, value) law::prove("validity of an element", bit(p.array().buffers[0], p.offset() + (where)) == (value));
void law_C05_no_bitmap_grow_keeps(V, size_t n, bool v, size_t i)
{
    N law::require(p.length() <= n && n < (size_t(1) << 40) && i < p.length());
    p.resize_bitmap(n + p.offset(), v);
    law::total("accepted");
    KEPT(i, true)
}
void law_C05_no_bitmap_grow_valid(V, size_t n, size_t i)
{
    N law::require(n < (size_t(1) << 40) && p.length() <= i && i < n);
    p.resize_bitmap(n + p.offset(), true);
    law::total("accepted");
    KEPT(i, true)
}
void law_C05_no_bitmap_grow_null(V, size_t n, size_t i)
{
    N law::require(n < (size_t(1) << 40) && p.length() <= i && i < n);
    p.resize_bitmap(n + p.offset(), false);
    law::total("accepted");
    KEPT(i, false)
}
void law_C05_no_bitmap_shrink(V, size_t n, bool v, size_t i)
{
    N law::require(n < p.length() && i < n);
    p.resize_bitmap(n + p.offset(), v);
    law::total("accepted");
    KEPT(i, true)
}
void law_C05_no_bitmap_push_back(V, bool v, size_t i)
{
    N law::require(i < p.length());
    p.push_back_bitmap(v);
    law::total("accepted");
    law::prove("validity buffer of the structure", p.array().buffers[0] == p.get_array_private_data()->buffers()[0].data());
}
void law_C05_no_bitmap_pop_back(V, size_t i)
{
    N law::require(p.length() > 0 && i + 1 < p.length());
    p.pop_back_bitmap();
    law::total("accepted");
    KEPT(i, true)
}
void law_C05_no_bitmap_erase_last(V, size_t i)
{
    N law::require(p.length() > 1 && i < p.length() - 1);
    p.erase_bitmap(p.length() - 1, 1);
    law::total("accepted");
    KEPT(i, true)
}
void law_C05_no_bitmap_insert(V, size_t k, bool v, size_t n)
{
    N law::require(k <= p.length() && n < (size_t(1) << 40));
    const size_t at = p.insert_bitmap(k, v, n);
    law::prove("index", at == k);
}
// text of the schema
void law_C05_set_name(INTS, std::string_view name)
{
    P p.set_name(name);
    law::prove("name of the structure", p.schema().name == p.get_schema_private_data()->name_ptr());
    law::prove("name set", p.schema().name != nullptr);
}
void law_C05_set_no_name(INTS)
{
    P p.set_name(std::nullopt);
    law::prove("no name", p.schema().name == nullptr && !p.name().has_value());
}
void law_C05_set_metadata(INTS, std::string_view metadata)
{
    P p.set_metadata(metadata);
    law::prove("metadata of the structure", p.schema().metadata == p.get_schema_private_data()->metadata_ptr());
    law::prove("metadata set", p.schema().metadata != nullptr);
}
void law_C05_set_no_metadata(INTS)
{
    P p.set_metadata(std::nullopt);
    law::prove("no metadata", p.schema().metadata == nullptr && !p.metadata().has_value());
}
void law_C05_set_format(INTS)
{
    P p.set_format("f");
    law::prove("format of the structure", p.schema().format == p.get_schema_private_data()->format_ptr());
    law::prove("format", p.format() == "f");
    law::prove("data type", p.data_type() == data_type::FLOAT);
}
void law_C05_set_data_type(INTS)
{
    P p.set_data_type(data_type::FLOAT);
    law::prove("format of the structure", p.schema().format == p.get_schema_private_data()->format_ptr());
    law::prove("format", p.format() == "f");
    law::prove("data type", p.data_type() == data_type::FLOAT);
}
void law_C05_set_flags(INTS)
{
    P p.set_flags(std::vector<ArrowFlag>{ArrowFlag::NULLABLE, ArrowFlag::MAP_KEYS_SORTED});
    law::prove("flags of the structure", p.schema().flags == (static_cast<i64>(ArrowFlag::NULLABLE) | static_cast<i64>(ArrowFlag::MAP_KEYS_SORTED)));
}
// without validity buffer
void law_C05_built_without(V)
{
    Q in_step(p, 2);
    extents(p);
    law::prove("no validity", p.array().buffers[0] == nullptr && p.buffers()[0].data() == nullptr);
}
void law_C05_set_length_without(V, size_t n)
{
    Q law::require(n <= p.length());
    p.set_length(n);
    in_step(p, 2);
    extents(p);
    law::prove("null count", p.null_count() == 0);
}
void law_C05_validity_given(V, NEW)
{
    Q law::require(q != nullptr && q != p1 && m >= BITS);
    p.set_buffer(0, bytes(q, m, c));
    in_step(p, 2);
    extents(p);
    law::prove("content", p.buffers()[0].data() == q);
    law::prove("null count", static_cast<size_t>(p.null_count()) == nulls(p));
}
void law_C05_validity_taken(INTS)
{
    P p.set_buffer(0, buffer<u8>());
    in_step(p, 2);
    extents(p);
    law::prove("no validity", p.array().buffers[0] == nullptr);
    law::prove("null count", p.null_count() == 0);
}
void law_C05_sliced_without(V, size_t b, size_t e)
{
    Q law::require(b <= e && e <= p.length());
    arrow_proxy r = p.slice(b, e);
    in_step(r, 2);
    extents(r);
    law::prove("null count", r.null_count() == 0);
}
// moving a proxy takes what is derived along; its views still designate the same buffers
void law_C05_moved(INTS)
{
    P arrow_proxy q(std::move(p));
    in_step(q, 2);
    extents(q);
}
void law_C05_move_assigned(INTS, ArrowArray* a, ArrowSchema* s)
{
    leaf(a, s, "l");
    foreign(a, s);
    P arrow_proxy q(a, s);
    q = std::move(p);
    in_step(q, 2);
    extents(q);
}
void law_C05_copied(INTS)
{
    P arrow_proxy q(p);
    in_step(q, 2);
    extents(q);
}
void law_C05_copy_assigned(INTS, ArrowArray* a, ArrowSchema* s)
{
    leaf(a, s, "l");
    foreign(a, s);
    P arrow_proxy q(a, s);
    q = p;
    in_step(q, 2);
    extents(q);
}
void law_C05_sliced(INTS, size_t b, size_t e)
{
    P law::require(b <= e && e <= p.length());
    arrow_proxy q = p.slice(b, e);
    in_step(q, 2);
    extents(q);
    law::prove("window", q.offset() == p.offset() + b && q.length() == e - b);
    law::prove("null count", static_cast<size_t>(q.null_count()) == nulls(q));
}
// of a structure whose content is handed over, nothing derived remains
void law_C05_extracted(INTS)
{
    P ArrowArray x = p.extract_array();
    law::prove("no view remains", p.buffers().empty() && p.children().empty());
    law::prove("no dictionary remains", p.dictionary() == nullptr);
    law::prove("no structure remains", p.array().release == nullptr && p.array().buffers == nullptr);
    ArrowSchema y = p.extract_schema();
    law::prove("no schema remains", p.schema().release == nullptr && p.schema().format == nullptr);
}
