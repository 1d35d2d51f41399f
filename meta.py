#!/usr/bin/env python3
"""The properties, as data: writes properties.jsonl and MANIFEST.json (run after editing; the registry is sa/props.py)."""
import json
import os
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)

VF = ("value-flow abstract interpretation of witness laws over the clang-resolved program "
      "(value numbering, gated joins, in-house linear entailment)")
TRUST = ("Trusted: clang's front end, the exporter, the transfer functions for the standard library, the "
         "in-house entailment, sizes below 2^62 with no integer wrap-around, and the hand-written statement of the format in "
         "witness/arrow_model.hpp. An obligation the analysis cannot decide is listed as undecided in the evidence and is not reported. ")

P = []


def prop(pid, title, statement, over, quant, why, files, mechanism, observe, technique=VF, note="", state=None, na=None):
    P.append(dict(id=pid, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mechanism=mechanism,
                  observe=observe, technique=technique, note=note, state=state or [], na=na))


prop("C05", "Derived state follows every mutation",
     "What a proxy derives from a structure made by the library (buffer views and their extents, number of buffers, null count, name, format, metadata, flags, data type) "
     "agrees with the structure after every mutation through the proxy, and the pointers in the Arrow structure designate the storage its private data keeps: "
     "after setting length, offset, null count or buffers, after every operation on the validity bitmap, and after copies, moves, assignments, slices and extraction.",
     ["inputs", "histories"], "all buffer contents and sizes, lengths and offsets, all mutators, starting from any structure in a consistent state",
     "the tests call each setter once and read back the same setter's getter; stale views of another member are not looked at",
     ["src/arrow_array_schema_proxy.cpp", "include/sparrow/arrow_array_schema_proxy.hpp", "include/sparrow/arrow_interface/arrow_array/private_data.hpp",
      "include/sparrow/arrow_interface/arrow_schema/private_data.hpp"],
     [("refresh of derived members", "arrow_proxy::update_buffers, update_null_count and the setters"),
      ("pointer tables of the private data", "arrow_array_private_data, arrow_schema_private_data")],
     ["arrow_proxy accessors and the Arrow structures behind them"],
     note="Each law starts from a structure with symbolic buffers, length and offset, applies one mutator, and compares every derived member with the structure. "
          "A recorded finding: set_offset does not refresh the extents of the buffer views.")

prop("C06", "Every read honours the Arrow offset",
     "For every layout and every pair of Arrow structures with any offset and length, element i of the array built on them is the value and the "
     "validity that the Arrow columnar format assigns to logical element i, that is physical element offset + i of the buffers and children. "
     "No layout applies the offset twice, in bytes instead of elements, or not at all.",
     ["inputs"], "all offsets, lengths, element indices, buffer addresses and buffer contents, for every layout",
     "the tests build arrays with offset 0, or a small offset on one layout; the property is about every offset on every layout",
     ["include/sparrow/layout", "include/sparrow/arrow_interface"],
     [("offset added once when a cell address is formed", "layout headers: value(), value_cbegin(), *_offset accessors"),
      ("validity bitmap view positioned at the offset", "include/sparrow/layout/array_bitmap_base.hpp")],
     ["element access of each typed array"],
     note="Each law takes symbolic Arrow structures (foreign memory), builds the real typed array through the real constructors and requires that the "
          "address (or bit) its operator[] resolves to is the one the format prescribes, for all offsets and indices. Known limit: bool arrays.")

prop("C07", "Slicing composes and never leaves its bounds",
     "A slice [b, e) of an array shows exactly elements b to e-1 of that array, for arrays that are themselves slices, and a slice of a slice is "
     "the corresponding slice of the original. The slice reports length e-b and a null count that is correct or declared unknown. "
     "A slice view shares the buffers and never takes ownership of them.",
     ["inputs", "histories"], "all arrays with any offset, all slice bounds, slices of slices to any depth (by composition)",
     "the tests slice arrays with offset 0 once, with two or three bounds",
     ["src/arrow_array_schema_proxy.cpp", "include/sparrow/layout/array_base.hpp", "src/array.cpp"],
     [("slice and slice_view compute offset and length", "arrow_proxy::slice, arrow_proxy::slice_view"),
      ("null count recomputed or declared unknown", "arrow_proxy::slice*")],
     ["offset, length, null count and buffers of the result; elements of typed arrays on the result"],
     note="Laws relate offset, length, null count, buffers, ownership and elements of slices (including slices of slices) to the source, for all bounds.")

prop("C11", "Formats, types, names and buffer layouts agree",
     "The mapping from Arrow format strings to data types and back is consistent for every supported type, and for every type the number and the byte "
     "extent of the buffers the library derives from a structure (offsets, sizes, values, validity, variadic buffers) are those of the Arrow columnar format. "
     "Layout predicates (has a validity bitmap, offset width, number of buffers) agree with the format for every type.",
     ["inputs", "configurations"], "all formats and data types, all lengths and offsets",
     "the tests exercise a handful of formats, and never compare the extents of derived buffers with the specification for non-zero offsets",
     ["include/sparrow/arrow_interface/arrow_array_schema_info_utils.hpp", "include/sparrow/types/data_type.hpp", "include/sparrow/arrow_interface", "src"],
     [("format_to_data_type / data_type_to_format tables", "include/sparrow/types/data_type.hpp"),
      ("get_arrow_array_buffers, compute_buffer_size", "arrow array utilities")],
     ["format, data type, buffer count and buffer size of any structure"],
     note="The tables are evaluated as decision tables over constants; extents are compared as linear terms in offset and length. Findings that are recorded, not "
          "repaired: large string and large binary buffer extents, the map type.")

prop("C12", "A type-erased array is the array of its format",
     "Building a type-erased array from Arrow structures gives, for every format, the layout of that format: its size, its data type and every element "
     "(the alternative it holds, the value it designates, its validity) are those of the typed array on the same structures, and visiting it hands over "
     "an array of exactly that class. Wrapping a typed array, by value or by pointer, keeps its elements. A format without a layout is refused with an "
     "exception, never read as another layout.",
     ["inputs", "configurations"], "all formats, offsets, lengths, element indices and buffer contents",
     "the tests build a few formats through the factory and compare a few elements",
     ["src/array_factory.cpp", "include/sparrow/layout/dispatch.hpp", "include/sparrow/layout/array_wrapper.hpp", "src/array_helper.cpp", "src/array.cpp"],
     [("format to layout", "array_factory"), ("data type to static cast", "visit in dispatch.hpp"), ("data type of a wrapped array", "array_wrapper_impl")],
     ["array::data_type, size, operator[], at, visit"],
     note="One law per format over symbolic structures; nested formats over foreign int32 children; dictionary arrays for every index type. "
          "A recorded finding: format U is read as STRING.")

prop("C15", "Checked access throws exactly when the position is out of range",
     "Every checked element access (at, checked value) of every container and array throws the documented exception for every out-of-range position and "
     "never for an in-range one, and for an in-range position it designates the same element as unchecked access. "
     "Reading the value of a null through the checked accessor throws and nothing else does.",
     ["inputs"], "all sizes and all positions, for each container and array type",
     "the tests try one in-range and at most one out-of-range position per container",
     ["include/sparrow/buffer", "include/sparrow/layout", "include/sparrow/utils/nullable.hpp"],
     [("range test before element access", "at() members"), ("null test before value access", "nullable::value()")],
     ["at(), value()"],
     note="Three laws per container: in range designates the unchecked element, in range never throws, out of range never returns.")

prop("C21", "Iterators satisfy the algebra of their category",
     "For every position and displacement, advancing, retreating, comparing and subtracting iterators obey the laws of random access iterators: "
     "(it + n) - it = n, ++ and -- are inverse and equal to + 1 and - 1, ordering agrees with distance, and end - begin is the size, "
     "for buffers, bit sets (across block boundaries), values, validity ranges and typed arrays. Dereferencing at position n designates element n.",
     ["inputs"], "all positions, displacements and sizes, including every position within a bit block and both directions across blocks",
     "the tests walk short sequences forward; boundary positions, negative displacements and sizes that are multiples of the block size are sampled or absent",
     ["include/sparrow/utils/iterator.hpp", "include/sparrow/buffer/dynamic_bitset", "include/sparrow/buffer", "include/sparrow/layout"],
     [("iterator_base facade", "include/sparrow/utils/iterator.hpp"), ("bit position normalisation", "bitset_iterator::advance/increment/decrement")],
     ["iterator operations of each container"],
     note="The full set of algebraic laws is instantiated for 12 iterator types with symbolic position and displacements.")

prop("C13", "A copy equals its source and shares nothing with it",
     "Copying an Arrow array or schema (copy_array, copy_schema, copies and copy assignments of proxies) yields a live structure with its own release callback, equal to the source in "
     "length, offset, null count, flags, format, name, metadata, in the bytes of every buffer over its whole extent (offset included), and recursively in children and dictionary; "
     "an absent buffer stays absent. No buffer, text, child or dictionary is shared with the source, the source is not written, and releasing the copy touches nothing of the source.",
     ["inputs"], "all formats with fixed numbers of buffers, all lengths, offsets and buffer contents, absent or present buffers, children and dictionary",
     "the tests compare copies of a few small structures with zero offset; shared storage and truncated copies show only with offsets, or after one side is mutated or freed",
     ["src/arrow_interface/arrow_array.cpp", "src/arrow_interface/arrow_schema.cpp", "include/sparrow/arrow_interface", "src/arrow_array_schema_proxy.cpp"],
     [("deep copy of buffers, children and dictionary", "copy_array, copy_schema and arrow_proxy's copy operations"),
      ("extent of each buffer", "get_arrow_array_buffers and the buffer size computations")],
     ["copy_array, copy_schema, arrow_proxy(const arrow_proxy&), operator="],
     note="Variadic buffers of view layouts are decided for the fixed buffers only.")

prop("C14", "Copies, moves and assignments of arrays read their own data",
     "After a typed array is copied, moved, copy-assigned or move-assigned, every element of the result is the one its own structure describes: its value and validity accessors, child "
     "and dictionary wrappers, and cached pointers and maps designate its own buffers and children, not those of the source, which may be destroyed, moved from or assigned meanwhile; "
     "and a source that was only copied still reads its own.",
     ["inputs", "histories"], "all layouts, all structures of foreign memory with any offset, length and contents",
     "the tests compare values after a copy while both objects live, where a wrapper still pointing into the source reads the same values",
     ["include/sparrow/layout", "include/sparrow/arrow_array_schema_proxy.hpp", "include/sparrow/utils/memory.hpp"],
     [("members caching pointers into the proxy or its children", "special members of the layout classes"),
      ("child wrappers rebuilt from the copy's own children", "list, struct, union, run-end and dictionary layouts")],
     ["special members and operator[] of every layout"])

prop("C01", "A released structure is freed exactly once",
     "Calling the release callback of an Arrow array or schema made by the library frees every buffer, child, dictionary and private block it owns exactly once, "
     "leaves those it does not own untouched, frees children and dictionaries whether or not a consumer released or moved them out first, "
     "and leaves release and private_data null, so that a second release cannot happen.",
     ["inputs", "histories"], "any number of children, any mix of owned and borrowed children and dictionary, any of them already released by a consumer",
     "the tests release a few shapes and look at the pointers, not at what was freed; borrowed and moved-out children are hardly sampled",
     ["src/arrow_interface", "include/sparrow/arrow_interface"],
     [("release callbacks", "release_arrow_array, release_arrow_schema"), ("common release", "release_common_arrow in arrow_schema_array utilities"),
      ("ownership of children and dictionary", "children_ownership, dictionary_ownership")],
     ["the release callback of a structure made by make_arrow_array, make_arrow_schema or the builders of the library"],
     note="Typestate of the structures and of every block: each law counts the releases and deletions that reach every structure on every path.")

prop("C02", "A proxy owns what it adopted, and only that",
     "An Arrow structure given to a proxy or a type-erased array by value is released exactly once: by the last of the objects it was moved to, or not at all once it "
     "has been extracted. A structure given by pointer is never released nor freed. Copying makes an independent structure and leaves the source alone; moving leaves the "
     "source owning nothing; assigning releases what the target owned, at the latest with the source; self-assignment changes nothing. Array and schema are handled "
     "independently.",
     ["inputs", "histories"], "all structures, all combinations of owned and referenced array and schema, every constructor, assignment and extraction",
     "the tests build and destroy proxies but sample few of the ownership combinations, and a double release often goes unnoticed",
     ["src/arrow_array_schema_proxy.cpp", "include/sparrow/arrow_array_schema_proxy.hpp", "src/array.cpp", "src/array_helper.cpp",
      "include/sparrow/layout/array_access.hpp", "include/sparrow/layout/array_base.hpp"],
     [("variant of pointer and value", "arrow_proxy::m_array, m_schema"), ("release in the destructor", "arrow_proxy::~arrow_proxy"),
      ("extraction", "arrow_proxy::extract_array, extract_schema, extract_arrow_structure"), ("moves and swaps", "arrow_proxy special members")],
     ["arrow_proxy, array, typed arrays, get_/extract_ functions"],
     note="Typestate counted over every path of constructions, moves, copies, assignments, extraction and destruction, with the real destructors run.")

prop("C03", "Children and dictionary are transferred without loss or double release",
     "Attaching a child or a dictionary to a structure made by the library takes ownership exactly as documented: of a child given by value the source is emptied and the "
     "structure releases it once; a child given by pointer is never released; a dictionary is given by pointer and released once, its storage remaining the caller's. A replaced or removed child "
     "the structure owned is released and freed once; a replaced one it borrowed is left alone. The child pointers and counts exposed in the Arrow structures match the children kept.",
     ["inputs", "histories"], "any number of children, any mix of owned and borrowed, any sequence of attach, replace and remove",
     "the tests attach one or two children and check counts, not who releases what, and replacement of a replaced child is not tested",
     ["src/arrow_array_schema_proxy.cpp", "include/sparrow/arrow_interface"],
     [("set_child, add_child, pop_children, set_dictionary", "arrow_proxy"), ("per-child ownership flags", "children_ownership")],
     ["arrow_proxy child and dictionary mutators"],
     note="Each law counts releases and deletions of every structure involved, before and after the proxy itself is destroyed.")

prop("C04", "Memory of other libraries is never written through a structure mutator",
     "Structure mutators (those of the proxy, and insertion, erasure, push, pop and resize of typed arrays) refuse, with an exception, an Arrow array or schema that was not made by "
     "this library: nothing of the structure or of its buffers is written, and its private data is never interpreted. A mixed pair, one side made by the library and one not, is refused "
     "by every mutator that touches the foreign side.",
     ["inputs"], "all foreign structures, all mutators, all arguments, and pairs where only one side is foreign",
     "the tests build nearly everything with the library's own allocator, so a mutator that forgets the test is not noticed",
     ["src/arrow_array_schema_proxy.cpp", "include/sparrow/layout/mutable_array_base.hpp", "include/sparrow/layout/array_bitmap_base.hpp",
      "include/sparrow/layout/primitive_array.hpp"],
     [("is_created_with_sparrow tests", "arrow_proxy mutators"), ("private data access", "get_array_private_data, get_schema_private_data")],
     ["arrow_proxy::set_*, add_*, pop_*, *_bitmap; typed array insert, erase, push_back, pop_back, resize"],
     note="Per mutator: on a foreign structure no normal return is reachable and no store reaches memory that existed before, on any path. Documented limit: "
          "assignments through element references are not structure mutators and are not claimed.")

prop("C20", "Buffers are the sequence a vector would be",
     "After any operation a buffer holds the elements the same operation on a vector leaves, at consecutive places, also when the value or range inserted lies in the buffer itself and when "
     "storage is reallocated; its size, capacity, iterators and accessors agree. The storage it allocates or adopts is returned once, to its allocator, with the size it was "
     "allocated with: by the last owner, or when replaced; a copy has storage of its own. A buffer view reads its range of another's storage and writes nothing to it.",
     ["inputs", "histories"], "all sizes, capacities, positions, counts and values, every element type of trivial values, storage adopted or allocated",
     "the tests use a few short buffers of one element type, and neither self-insertion nor what reaches the allocator is observed",
     ["include/sparrow/buffer/buffer.hpp", "include/sparrow/buffer/buffer_view.hpp", "include/sparrow/buffer/allocator.hpp"],
     [("three pointers over raw storage", "buffer_base, buffer_data"), ("growth and shifting", "buffer::insert, insert_impl, resize_impl, erase"),
      ("subranges", "buffer_view::subrange")],
     ["constructors, assignments, modifiers and accessors of buffer; buffer_view"],
     note="Each law fixes one operation and one element: the value reaching it is compared with the value a vector would hold, for symbolic sizes and positions; deallocations are counted. "
          "Element types are uint8_t, int32_t and uint64_t; element types with constructors of their own are not decided.")

prop("C09", "Bitsets are a sequence of bits and know their nulls",
     "A bitset over storage, owned, borrowed or absent, reads as the bits of that storage, least significant first, and as all true where there is none. Writing a bit, by set, an element reference, "
     "an iterator or a compound assignment, changes that bit to the value given and no other bit of the storage, and the number of nulls changes by exactly that much. Constructing, resizing, pushing, "
     "popping, inserting, erasing, copying, moving and swapping give the size a sequence would have and keep the bits that remain; new bits have the value asked for; bits after the last one are "
     "zero in storage the bitset owns; the null count is the number of false bits that counting afresh gives.",
     ["inputs", "histories"], "all sizes, positions, values and storage contents; owned, borrowed and viewed storage",
     "the tests use a few bitsets of about 29 bits, and the neighbours of a written bit, block boundaries and the null count are sampled at a handful of positions",
     ["include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp", "include/sparrow/buffer/dynamic_bitset/bitset_reference.hpp", "include/sparrow/buffer/dynamic_bitset/dynamic_bitset.hpp"],
     [("blocks and masks", "dynamic_bitset_base::block_index, bit_mask, set, test"), ("the null count kept along", "update_null_count, bitset_reference::assign, set, reset"),
      ("recounting", "resize, count_non_null, zero_unused_bits")],
     ["dynamic_bitset, dynamic_bitset_view, non_owning_dynamic_bitset; ensure_validity_bitmap"],
     note="Bits are followed through shifts, masks and narrowing for a symbolic position; two counting loops are equal when their iterations are. Which bits an insertion or erasure in the middle "
          "moves is not decided (the shifting loop reads and writes the same bytes); sizes and the position returned are.")

prop("C16", "Nullables behave as a value and a flag",
     "A nullable reports a value exactly when its flag says so; reading the value of a null through the checked accessor throws and never yields the stored bytes, a default is used only for nulls. "
     "Constructing, copying, converting, assigning and swapping carry value and flag together, through the references when it holds references. A null equals a null and nothing else, "
     "comes before every value, and equality agrees with the order.",
     ["inputs"], "all values and flags, owned or referenced, of same or convertible types",
     "the tests use a few values; the combinations of null and non-null operands with equal stored bytes are where comparisons go wrong",
     ["include/sparrow/utils/nullable.hpp"],
     [("flag and value", "nullable"), ("comparisons", "operator==, operator<=> of nullable"), ("variant of nullables", "nullable_variant")],
     ["nullable, nullable_variant, make_nullable"],
     note="Laws over symbolic values and flags; stored values are int32_t and int64_t.")

RULE = "whole-program rule over the clang-resolved syntax trees of every instantiated function (transitive effect analysis over the call graph)"
TRUST_RULE = "Trusted: clang's front end, the exporter and the list of standard library members that write or throw. "

prop("C10", "Reading writes nothing",
     "No const operation writes memory that existed before the call: wrapping a structure, reading an element, its validity or the metadata, iterating, copying, slicing and viewing leave "
     "the Arrow structures, their buffers, private data, children and dictionary, and the array, proxy, buffer or bitset read, unchanged byte for byte; so any number of threads may read one array at once.",
     ["inputs", "schedules"], "all const operations of every layout, of type-erased arrays, proxies, buffers and bitsets, on all structures, foreign or made by the library",
     "the tests compare what is returned, not what was written, and are single-threaded; a write of the same value or of a cache is invisible to them",
     ["src/arrow_array_schema_proxy.cpp", "src/array.cpp", "include/sparrow/layout", "include/sparrow/buffer"],
     [("const accessors", "array_crtp_base, arrow_proxy"), ("wrapping", "arrow_proxy constructors"), ("copying and slicing", "copy_array, copy_schema, slice, slice_view")],
     ["const member functions of the public classes"],
     note="Effect analysis: between two points of a law, every store the evaluation performs on any path is resolved to an object, and none may have existed before. Together with C19 (no mutable state "
          "outlives the objects) this gives freedom from data races among readers. Const operations that are not called by a law are covered by the rules on mutable members and statics only.")

prop("C17", "Contract checks have no effect",
     "Evaluating the condition of a contract assertion changes nothing: no assertion assigns, increments, releases or calls anything that writes memory which existed before, "
     "so that a program that keeps the contracts behaves the same whether the checks are compiled in or out.",
     ["inputs"], "every assertion of the library, in every function it appears in, on all inputs",
     "the tests are run in the one configuration where the checks are compiled in",
     ["include/sparrow/utils/contracts.hpp", "include/sparrow", "src"],
     [("SPARROW_ASSERT, SPARROW_ASSERT_TRUE, SPARROW_ASSERT_FALSE", "include/sparrow/utils/contracts.hpp")],
     ["builds with and without the contract checks"], technique=RULE,
     note="Transitive effect analysis of every asserted condition, through the library functions it calls. " + TRUST_RULE)

prop("C18", "What must not throw does not",
     "No explicitly thrown exception leaves a release callback, a destructor, or a function declared noexcept: releasing structures from C, destroying and moving arrays, proxies and buffers "
     "never terminates the process because of an error the library itself raises.",
     ["inputs"], "every function that promises not to throw and every release callback, over all call paths",
     "the tests do not provoke the error paths under a destructor or a callback, where the effect is the end of the process",
     ["src", "include/sparrow"],
     [("release callbacks", "release_arrow_array, release_arrow_schema"), ("noexcept functions and destructors", "all classes")],
     ["the release callbacks, destructors, noexcept functions"], technique=RULE,
     note="Reachability of throw expressions and of throwing standard accessors over the call graph, through lambdas and visits, minus what handlers catch; a checked accessor (value, get, at) is not followed where the caller tests its "
          "operand (listed as undecided). Exhaustion of memory is excluded. " + TRUST_RULE)

prop("C19", "Results do not depend on earlier objects",
     "What an operation returns depends on its operands only, never on which other arrays the process made or read before: the library keeps no mutable variable of static or thread storage, and no "
     "static that the first call initialises from its object or arguments; a null of a dictionary array is a null of its own dictionary's type.",
     ["histories"], "all sequences of operations on all objects of a process",
     "each test starts from its own objects and rarely mixes types, so what one leaves behind in a static is not seen by another",
     ["include/sparrow", "src", "include/sparrow/layout/dictionary_encoded_array.hpp"],
     [("statics", "function-local statics and namespace-scope variables of the library"), ("null placeholders", "dictionary_encoded_array::dummy_const_reference")],
     ["every operation that returns a reference to a shared value"], technique=RULE + "; value-flow laws for dictionary nulls",
     note="Enumerates every variable of static storage and every data member of the instantiated program. " + TRUST_RULE)

prop("C22", "An array built from its parts reads those parts",
     "Constructing a typed array from its parts yields an array that reads exactly those parts: its length is the number of elements, it starts at offset zero, its format, numbers of buffers and "
     "children are those of the layout, its null count is the number of cleared bits of the bitmap given (zero without one; of a union, the number of its null elements); element i is valid exactly when its bit is set and has the i-th value, "
     "its characters lie between its offsets, its items are those of the child between its offsets (or offset and size, or fixed size), its key designates the i-th dictionary entry, its fields "
     "are the i-th elements of the children in order, its run is the one whose end is past it, its type id and offset designate the child and position; a bitmap given by reference stays as it was. Children moved in are emptied at once, live as long as the array, and are released exactly once, by it.",
     ["inputs"], "all values, offsets, keys, type ids, bitmaps, lengths and positions; primitive, string, list, list view, fixed size list, dictionary, struct, run-end encoded and union layouts",
     "the tests build a handful of short arrays; an error that needs one position, a length at a block boundary, several nulls or swapped children of equal type goes unseen",
     ["include/sparrow/layout", "include/sparrow/arrow_interface", "include/sparrow/buffer/dynamic_bitset", "include/sparrow/array_factory.hpp"],
     [("construction from parts", "create_proxy of each layout"), ("null count", "dynamic_bitset_base::null_count and ensure_validity_bitmap")],
     ["constructors of primitive_array, variable_size_binary_array, list_array, list_view_array, fixed_sized_list_array, dictionary_encoded_array, struct_array, run_end_encoded_array, union arrays"],
     note="Construction from ranges of strings, nullables and positions is decided for two or three elements with symbolic contents; unions for two elements; lengths are otherwise symbolic.")

prop("C23", "A buffer adaptor is the sequence of elements its bytes spell",
     "A buffer adaptor over a byte buffer behaves as the sequence of elements its bytes spell: size, indexing, front, back, iteration and reverse iteration see exactly the elements of the storage; after insertion, emplacement, "
     "erasure, push, pop, resize, reserve, shrinking or clearing, the buffer has exactly the bytes of the resulting elements, every other element keeps its value at its new place, the iterator returned designates the position of the "
     "operation, and the storage is one, returned once. An element of the sequence itself may be given as the value. Reading through an adaptor of constants writes nothing.",
     ["inputs"], "all sizes, capacities, positions, counts and values; element types of two, four and eight bytes",
     "the tests insert and erase a handful of elements at fixed positions, with room or without, never with an element of the sequence itself at every position",
     ["include/sparrow/buffer/buffer_adaptor.hpp", "include/sparrow/buffer/buffer.hpp"],
     [("element to byte positions", "buffer_adaptor insert, erase, resize and get_index_for_buffer")],
     ["buffer_adaptor members"])

NA = [
    ("C90", "Typed round trips preserve every value",
     "Building an array from a range of strings, lists or nullable values of any length, or with the builder, and reading it back yields equal values.",
     ["inputs"], "all sequences of values", "tests sample short sequences",
     "the position of each value is a sum of the lengths of all earlier ones, over loops of unbounded length: the analysis has no sound summary of such prefix sums "
     "(construction from parts of any length, and from short ranges, is decided by C22)"),
    ("C92", "Allocation failure leaves every object valid",
     "When an allocation fails in the middle of any operation, no memory is leaked and every object can still be destroyed.",
     ["fault_sequences"], "every allocation point of every operation", "tests never fail an allocation",
     "needs an exceptional edge at every allocation of every instantiation; the analysis models exceptional exits of explicit throws only, so a verdict would be neither sound nor free of false alarms"),
    ("C93", "Text formatting prints every element",
     "Formatting an array or a record batch prints each element once, aligned, with nulls marked.",
     ["inputs"], "all arrays", "tests compare a few outputs",
     "the output is a string built by runtime formatting; its content is not visible in the shape of the code"),
]
for pid, t, s, o, q, w, na in NA:
    prop(pid, t, s, o, q, w, ["include/sparrow"], [("see statement", "include/sparrow")], ["public API"], na=na)


def main():
    from sa import props as R
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in sorted(P, key=lambda p: p["id"]):
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["quant"]),
                why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mechanism"]],
                             state=[dict(name=a, meaning=b, where=c) for a, b, c in p["state"]],
                             observe_at=p["observe"], hook_needed=None))) + "\n")
    checks, na = [], []
    for p in sorted(P, key=lambda p: p["id"]):
        if p["na"]:
            na.append(dict(property=p["id"], reason=p["na"]))
        elif p["id"] in R.PROPS:
            checks.append(dict(property=p["id"], quick_cmd=f"./check.py {p['id']}", thorough_cmd=f"./check.py {p['id']} --thorough",
                               technique=p["technique"], level="other", level_note=p["note"] + ("" if p["technique"] == RULE else " " + TRUST.strip())))
        else:
            print("not registered:", p["id"])
    json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
                   notes="The list of findings and repairs is known_findings.txt; DESIGN.md explains each check."),
              open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
    have = {p["id"] for p in P}
    for k in R.PROPS:
        if k not in have:
            print("registered but not described:", k)


if __name__ == "__main__":
    main()
