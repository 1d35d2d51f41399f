#pragma once
// The Arrow columnar format, as the laws state it: where the value and the validity of logical element i of an array
// live in the buffers of its C data interface structure.  Nothing here refers to how sparrow is written.
#include "law.hpp"
#include <sparrow/sparrow.hpp>
#include <sparrow/record_batch.hpp>
#include <sparrow/layout/variable_size_binary_view_array.hpp>
#include <variant>

using namespace sparrow;

namespace fmt
{
    using u8 = std::uint8_t;
    using i32 = std::int32_t;
    using i64 = std::int64_t;
    using elem = array_traits::const_reference;   // what a type-erased array hands out

    // bit i of a validity buffer (absent buffer: everything valid)
    inline bool bit(const void* p, std::size_t i)
    {
        return p == nullptr || ((static_cast<const u8*>(p)[i / 8] >> (i % 8)) & 1) != 0;
    }
    template <class T>
    const T* buf(const ArrowArray* a, std::size_t k)
    {
        return static_cast<const T*>(a->buffers[k]);
    }
    inline std::size_t off(const ArrowArray* a)
    {
        return static_cast<std::size_t>(a->offset);
    }
    inline std::size_t len(const ArrowArray* a)
    {
        return static_cast<std::size_t>(a->length);
    }
    void foreign_release_array(ArrowArray*);    // some other library's callbacks
    void foreign_release_schema(ArrowSchema*);

    // a well-formed, live structure (producer unknown)
    inline void wf(const ArrowArray* a)
    {
        law::require(a->offset >= 0);
        law::require(a->length >= 0);
        law::require(a->offset + a->length <= 0x3fffffffffffffff);
        law::require(a->release != nullptr);
    }
    // the structure was made by another library
    inline void foreign(ArrowArray* a, ArrowSchema* s)
    {
        a->release = &foreign_release_array;
        s->release = &foreign_release_schema;
    }
    inline void leaf(ArrowArray* a, ArrowSchema* s, const char* format)
    {
        law::require(a != nullptr && s != nullptr);
        s->format = format;
        a->dictionary = nullptr;
        s->dictionary = nullptr;
        a->n_children = 0;
        s->n_children = 0;
        wf(a);
    }
    inline void idx(const ArrowArray* a, std::size_t i)
    {
        law::require(i < len(a));
    }
    // storage of the pieces of a nested array: distinct objects
    struct piece
    {
        ArrowArray* a;
        ArrowSchema* s;
    };
    // (a, s) is a foreign nested array of the given format whose children are int32 arrays
    inline void nested(ArrowArray* a, ArrowSchema* s, const char* format)
    {
        leaf(a, s, format);
        foreign(a, s);
    }
    inline void int_child(ArrowArray* a, ArrowSchema* s, std::size_t k, ArrowArray* c, ArrowSchema* cs)
    {
        leaf(c, cs, "i");
        foreign(c, cs);
        a->children[k] = c;
        s->children[k] = cs;
        a->n_children = static_cast<i64>(k) + 1;
        s->n_children = static_cast<i64>(k) + 1;
    }
    // element e of a type-erased array is element j of the int32 array c
    inline bool is_int(const elem& e, const ArrowArray* c, std::size_t j)
    {
        const auto* p = std::get_if<nullable<const i32&>>(&e);
        return p != nullptr && &p->get() == buf<i32>(c, 1) + off(c) + j && p->has_value() == bit(c->buffers[0], off(c) + j);
    }
}
