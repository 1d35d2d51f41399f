// C11: the format string, the data type, the buffers and the C++ type of an array agree with the Arrow specification.
#include "arrow_model.hpp"
#include <sparrow/arrow_interface/arrow_array.hpp>
#include <sparrow/arrow_interface/arrow_array_schema_info_utils.hpp>
using namespace fmt;

void law_C11_format_to_type()
{
    law::prove("n", format_to_data_type("n") == data_type::NA);
    law::prove("b", format_to_data_type("b") == data_type::BOOL);
    law::prove("C", format_to_data_type("C") == data_type::UINT8);
    law::prove("c", format_to_data_type("c") == data_type::INT8);
    law::prove("S", format_to_data_type("S") == data_type::UINT16);
    law::prove("s", format_to_data_type("s") == data_type::INT16);
    law::prove("I", format_to_data_type("I") == data_type::UINT32);
    law::prove("i", format_to_data_type("i") == data_type::INT32);
    law::prove("L", format_to_data_type("L") == data_type::UINT64);
    law::prove("l", format_to_data_type("l") == data_type::INT64);
    law::prove("e", format_to_data_type("e") == data_type::HALF_FLOAT);
    law::prove("f", format_to_data_type("f") == data_type::FLOAT);
    law::prove("g", format_to_data_type("g") == data_type::DOUBLE);
    law::prove("u", format_to_data_type("u") == data_type::STRING);
    law::prove("z", format_to_data_type("z") == data_type::BINARY);
    law::prove("vu", format_to_data_type("vu") == data_type::STRING_VIEW);
    law::prove("vz", format_to_data_type("vz") == data_type::BINARY_VIEW);
    law::prove("tss:UTC", format_to_data_type("tss:UTC") == data_type::TIMESTAMP);
    law::prove("tsn:", format_to_data_type("tsn:") == data_type::TIMESTAMP);
    law::prove("+l", format_to_data_type("+l") == data_type::LIST);
    law::prove("+L", format_to_data_type("+L") == data_type::LARGE_LIST);
    law::prove("+vl", format_to_data_type("+vl") == data_type::LIST_VIEW);
    law::prove("+vL", format_to_data_type("+vL") == data_type::LARGE_LIST_VIEW);
    law::prove("+w:3", format_to_data_type("+w:3") == data_type::FIXED_SIZED_LIST);
    law::prove("+s", format_to_data_type("+s") == data_type::STRUCT);
    law::prove("+m", format_to_data_type("+m") == data_type::MAP);
    law::prove("+ud:0,1", format_to_data_type("+ud:0,1") == data_type::DENSE_UNION);
    law::prove("+us:0,1", format_to_data_type("+us:0,1") == data_type::SPARSE_UNION);
    law::prove("+r", format_to_data_type("+r") == data_type::RUN_ENCODED);
    law::prove("d:19,10", format_to_data_type("d:19,10") == data_type::DECIMAL);
    law::prove("d:38,10,256", format_to_data_type("d:38,10,256") == data_type::DECIMAL);
    law::prove("w:42", format_to_data_type("w:42") == data_type::FIXED_WIDTH_BINARY);
}
void law_C11_type_to_format()
{
    law::prove("NA round trip", format_to_data_type(data_type_to_format(data_type::NA)) == data_type::NA);
    law::prove("NA", data_type_to_format(data_type::NA) == "n");
    law::prove("BOOL round trip", format_to_data_type(data_type_to_format(data_type::BOOL)) == data_type::BOOL);
    law::prove("BOOL", data_type_to_format(data_type::BOOL) == "b");
    law::prove("UINT8 round trip", format_to_data_type(data_type_to_format(data_type::UINT8)) == data_type::UINT8);
    law::prove("UINT8", data_type_to_format(data_type::UINT8) == "C");
    law::prove("INT8 round trip", format_to_data_type(data_type_to_format(data_type::INT8)) == data_type::INT8);
    law::prove("INT8", data_type_to_format(data_type::INT8) == "c");
    law::prove("UINT16 round trip", format_to_data_type(data_type_to_format(data_type::UINT16)) == data_type::UINT16);
    law::prove("UINT16", data_type_to_format(data_type::UINT16) == "S");
    law::prove("INT16 round trip", format_to_data_type(data_type_to_format(data_type::INT16)) == data_type::INT16);
    law::prove("INT16", data_type_to_format(data_type::INT16) == "s");
    law::prove("UINT32 round trip", format_to_data_type(data_type_to_format(data_type::UINT32)) == data_type::UINT32);
    law::prove("UINT32", data_type_to_format(data_type::UINT32) == "I");
    law::prove("INT32 round trip", format_to_data_type(data_type_to_format(data_type::INT32)) == data_type::INT32);
    law::prove("INT32", data_type_to_format(data_type::INT32) == "i");
    law::prove("UINT64 round trip", format_to_data_type(data_type_to_format(data_type::UINT64)) == data_type::UINT64);
    law::prove("UINT64", data_type_to_format(data_type::UINT64) == "L");
    law::prove("INT64 round trip", format_to_data_type(data_type_to_format(data_type::INT64)) == data_type::INT64);
    law::prove("INT64", data_type_to_format(data_type::INT64) == "l");
    law::prove("HALF_FLOAT round trip", format_to_data_type(data_type_to_format(data_type::HALF_FLOAT)) == data_type::HALF_FLOAT);
    law::prove("HALF_FLOAT", data_type_to_format(data_type::HALF_FLOAT) == "e");
    law::prove("FLOAT round trip", format_to_data_type(data_type_to_format(data_type::FLOAT)) == data_type::FLOAT);
    law::prove("FLOAT", data_type_to_format(data_type::FLOAT) == "f");
    law::prove("DOUBLE round trip", format_to_data_type(data_type_to_format(data_type::DOUBLE)) == data_type::DOUBLE);
    law::prove("DOUBLE", data_type_to_format(data_type::DOUBLE) == "g");
    law::prove("STRING round trip", format_to_data_type(data_type_to_format(data_type::STRING)) == data_type::STRING);
    law::prove("STRING", data_type_to_format(data_type::STRING) == "u");
    law::prove("BINARY round trip", format_to_data_type(data_type_to_format(data_type::BINARY)) == data_type::BINARY);
    law::prove("BINARY", data_type_to_format(data_type::BINARY) == "z");
    law::prove("TIMESTAMP round trip", format_to_data_type(data_type_to_format(data_type::TIMESTAMP)) == data_type::TIMESTAMP);
    law::prove("LIST round trip", format_to_data_type(data_type_to_format(data_type::LIST)) == data_type::LIST);
    law::prove("LIST", data_type_to_format(data_type::LIST) == "+l");
    law::prove("LARGE_LIST round trip", format_to_data_type(data_type_to_format(data_type::LARGE_LIST)) == data_type::LARGE_LIST);
    law::prove("LARGE_LIST", data_type_to_format(data_type::LARGE_LIST) == "+L");
}
void law_C11_has_bitmap()
{
    law::prove("BINARY", has_bitmap(data_type::BINARY) == true);
    law::prove("BINARY_VIEW", has_bitmap(data_type::BINARY_VIEW) == true);
    law::prove("BOOL", has_bitmap(data_type::BOOL) == true);
    law::prove("DECIMAL", has_bitmap(data_type::DECIMAL) == true);
    law::prove("DENSE_UNION", has_bitmap(data_type::DENSE_UNION) == false);
    law::prove("DOUBLE", has_bitmap(data_type::DOUBLE) == true);
    law::prove("FIXED_SIZED_LIST", has_bitmap(data_type::FIXED_SIZED_LIST) == true);
    law::prove("FIXED_WIDTH_BINARY", has_bitmap(data_type::FIXED_WIDTH_BINARY) == true);
    law::prove("FLOAT", has_bitmap(data_type::FLOAT) == true);
    law::prove("HALF_FLOAT", has_bitmap(data_type::HALF_FLOAT) == true);
    law::prove("INT16", has_bitmap(data_type::INT16) == true);
    law::prove("INT32", has_bitmap(data_type::INT32) == true);
    law::prove("INT64", has_bitmap(data_type::INT64) == true);
    law::prove("INT8", has_bitmap(data_type::INT8) == true);
    law::prove("LARGE_LIST", has_bitmap(data_type::LARGE_LIST) == true);
    law::prove("LARGE_LIST_VIEW", has_bitmap(data_type::LARGE_LIST_VIEW) == true);
    law::prove("LIST", has_bitmap(data_type::LIST) == true);
    law::prove("LIST_VIEW", has_bitmap(data_type::LIST_VIEW) == true);
    law::prove("MAP", has_bitmap(data_type::MAP) == true);
    law::prove("NA", has_bitmap(data_type::NA) == false);
    law::prove("RUN_ENCODED", has_bitmap(data_type::RUN_ENCODED) == false);
    law::prove("SPARSE_UNION", has_bitmap(data_type::SPARSE_UNION) == false);
    law::prove("STRING", has_bitmap(data_type::STRING) == true);
    law::prove("STRING_VIEW", has_bitmap(data_type::STRING_VIEW) == true);
    law::prove("STRUCT", has_bitmap(data_type::STRUCT) == true);
    law::prove("TIMESTAMP", has_bitmap(data_type::TIMESTAMP) == true);
    law::prove("UINT16", has_bitmap(data_type::UINT16) == true);
    law::prove("UINT32", has_bitmap(data_type::UINT32) == true);
    law::prove("UINT64", has_bitmap(data_type::UINT64) == true);
    law::prove("UINT8", has_bitmap(data_type::UINT8) == true);
}
void law_C11_cpp_types()
{
    law::prove("null_type", arrow_traits<null_type>::type_id == data_type::NA);
    law::prove("bool", arrow_traits<bool>::type_id == data_type::BOOL);
    law::prove("std::uint8_t", arrow_traits<std::uint8_t>::type_id == data_type::UINT8);
    law::prove("std::int8_t", arrow_traits<std::int8_t>::type_id == data_type::INT8);
    law::prove("std::uint16_t", arrow_traits<std::uint16_t>::type_id == data_type::UINT16);
    law::prove("std::int16_t", arrow_traits<std::int16_t>::type_id == data_type::INT16);
    law::prove("std::uint32_t", arrow_traits<std::uint32_t>::type_id == data_type::UINT32);
    law::prove("std::int32_t", arrow_traits<std::int32_t>::type_id == data_type::INT32);
    law::prove("std::uint64_t", arrow_traits<std::uint64_t>::type_id == data_type::UINT64);
    law::prove("std::int64_t", arrow_traits<std::int64_t>::type_id == data_type::INT64);
    law::prove("float16_t", arrow_traits<float16_t>::type_id == data_type::HALF_FLOAT);
    law::prove("float", arrow_traits<float>::type_id == data_type::FLOAT);
    law::prove("double", arrow_traits<double>::type_id == data_type::DOUBLE);
    law::prove("std::string", arrow_traits<std::string>::type_id == data_type::STRING);
    law::prove("list_value", arrow_traits<list_value>::type_id == data_type::LIST);
    law::prove("struct_value", arrow_traits<struct_value>::type_id == data_type::STRUCT);
}
void law_C11_integer_predicates()
{
    law::prove("integer BINARY", data_type_is_integer(data_type::BINARY) == false);
    law::prove("primitive BINARY", data_type_is_primitive(data_type::BINARY) == false);
    law::prove("integer BINARY_VIEW", data_type_is_integer(data_type::BINARY_VIEW) == false);
    law::prove("primitive BINARY_VIEW", data_type_is_primitive(data_type::BINARY_VIEW) == false);
    law::prove("integer BOOL", data_type_is_integer(data_type::BOOL) == false);
    law::prove("primitive BOOL", data_type_is_primitive(data_type::BOOL) == true);
    law::prove("integer DECIMAL", data_type_is_integer(data_type::DECIMAL) == false);
    law::prove("primitive DECIMAL", data_type_is_primitive(data_type::DECIMAL) == false);
    law::prove("integer DENSE_UNION", data_type_is_integer(data_type::DENSE_UNION) == false);
    law::prove("primitive DENSE_UNION", data_type_is_primitive(data_type::DENSE_UNION) == false);
    law::prove("integer DOUBLE", data_type_is_integer(data_type::DOUBLE) == false);
    law::prove("primitive DOUBLE", data_type_is_primitive(data_type::DOUBLE) == true);
    law::prove("integer FIXED_SIZED_LIST", data_type_is_integer(data_type::FIXED_SIZED_LIST) == false);
    law::prove("primitive FIXED_SIZED_LIST", data_type_is_primitive(data_type::FIXED_SIZED_LIST) == false);
    law::prove("integer FIXED_WIDTH_BINARY", data_type_is_integer(data_type::FIXED_WIDTH_BINARY) == false);
    law::prove("primitive FIXED_WIDTH_BINARY", data_type_is_primitive(data_type::FIXED_WIDTH_BINARY) == false);
    law::prove("integer FLOAT", data_type_is_integer(data_type::FLOAT) == false);
    law::prove("primitive FLOAT", data_type_is_primitive(data_type::FLOAT) == true);
    law::prove("integer HALF_FLOAT", data_type_is_integer(data_type::HALF_FLOAT) == false);
    law::prove("primitive HALF_FLOAT", data_type_is_primitive(data_type::HALF_FLOAT) == true);
    law::prove("integer INT16", data_type_is_integer(data_type::INT16) == true);
    law::prove("primitive INT16", data_type_is_primitive(data_type::INT16) == true);
    law::prove("integer INT32", data_type_is_integer(data_type::INT32) == true);
    law::prove("primitive INT32", data_type_is_primitive(data_type::INT32) == true);
    law::prove("integer INT64", data_type_is_integer(data_type::INT64) == true);
    law::prove("primitive INT64", data_type_is_primitive(data_type::INT64) == true);
    law::prove("integer INT8", data_type_is_integer(data_type::INT8) == true);
    law::prove("primitive INT8", data_type_is_primitive(data_type::INT8) == true);
    law::prove("integer LARGE_LIST", data_type_is_integer(data_type::LARGE_LIST) == false);
    law::prove("primitive LARGE_LIST", data_type_is_primitive(data_type::LARGE_LIST) == false);
    law::prove("integer LARGE_LIST_VIEW", data_type_is_integer(data_type::LARGE_LIST_VIEW) == false);
    law::prove("primitive LARGE_LIST_VIEW", data_type_is_primitive(data_type::LARGE_LIST_VIEW) == false);
    law::prove("integer LIST", data_type_is_integer(data_type::LIST) == false);
    law::prove("primitive LIST", data_type_is_primitive(data_type::LIST) == false);
    law::prove("integer LIST_VIEW", data_type_is_integer(data_type::LIST_VIEW) == false);
    law::prove("primitive LIST_VIEW", data_type_is_primitive(data_type::LIST_VIEW) == false);
    law::prove("integer MAP", data_type_is_integer(data_type::MAP) == false);
    law::prove("primitive MAP", data_type_is_primitive(data_type::MAP) == false);
    law::prove("integer NA", data_type_is_integer(data_type::NA) == false);
    law::prove("primitive NA", data_type_is_primitive(data_type::NA) == false);
    law::prove("integer RUN_ENCODED", data_type_is_integer(data_type::RUN_ENCODED) == false);
    law::prove("primitive RUN_ENCODED", data_type_is_primitive(data_type::RUN_ENCODED) == false);
    law::prove("integer SPARSE_UNION", data_type_is_integer(data_type::SPARSE_UNION) == false);
    law::prove("primitive SPARSE_UNION", data_type_is_primitive(data_type::SPARSE_UNION) == false);
    law::prove("integer STRING", data_type_is_integer(data_type::STRING) == false);
    law::prove("primitive STRING", data_type_is_primitive(data_type::STRING) == false);
    law::prove("integer STRING_VIEW", data_type_is_integer(data_type::STRING_VIEW) == false);
    law::prove("primitive STRING_VIEW", data_type_is_primitive(data_type::STRING_VIEW) == false);
    law::prove("integer STRUCT", data_type_is_integer(data_type::STRUCT) == false);
    law::prove("primitive STRUCT", data_type_is_primitive(data_type::STRUCT) == false);
    law::prove("integer TIMESTAMP", data_type_is_integer(data_type::TIMESTAMP) == false);
    law::prove("primitive TIMESTAMP", data_type_is_primitive(data_type::TIMESTAMP) == false);
    law::prove("integer UINT16", data_type_is_integer(data_type::UINT16) == true);
    law::prove("primitive UINT16", data_type_is_primitive(data_type::UINT16) == true);
    law::prove("integer UINT32", data_type_is_integer(data_type::UINT32) == true);
    law::prove("primitive UINT32", data_type_is_primitive(data_type::UINT32) == true);
    law::prove("integer UINT64", data_type_is_integer(data_type::UINT64) == true);
    law::prove("primitive UINT64", data_type_is_primitive(data_type::UINT64) == true);
    law::prove("integer UINT8", data_type_is_integer(data_type::UINT8) == true);
    law::prove("primitive UINT8", data_type_is_primitive(data_type::UINT8) == true);
}

namespace
{
    std::vector<buffer_view<u8>> buffers_of(ArrowArray* a, ArrowSchema* s, const char* f)
    {
        leaf(a, s, f);
        return get_arrow_array_buffers(*a, *s);
    }
}
void law_C11_buffers_b(ArrowArray* a, ArrowSchema* s)
{
    const auto b = buffers_of(a, s, "b");
    const auto n = off(a) + len(a);
    law::prove("count", b.size() == 2);
    law::prove("validity", b[0].data() == buf<u8>(a, 0));
    law::prove("validity extent", b[0].size() == (a->buffers[0] == nullptr ? 0 : (n + 7) / 8));
    law::prove("buffer 1", b[1].data() == buf<u8>(a, 1));
    law::prove("buffer 1 extent", b[1].size() == (n + 7) / 8);
}
void law_C11_buffers_C(ArrowArray* a, ArrowSchema* s)
{
    const auto b = buffers_of(a, s, "C");
    const auto n = off(a) + len(a);
    law::prove("count", b.size() == 2);
    law::prove("validity", b[0].data() == buf<u8>(a, 0));
    law::prove("validity extent", b[0].size() == (a->buffers[0] == nullptr ? 0 : (n + 7) / 8));
    law::prove("buffer 1", b[1].data() == buf<u8>(a, 1));
    law::prove("buffer 1 extent", b[1].size() == n);
}
void law_C11_buffers_c(ArrowArray* a, ArrowSchema* s)
{
    const auto b = buffers_of(a, s, "c");
    const auto n = off(a) + len(a);
    law::prove("count", b.size() == 2);
    law::prove("validity", b[0].data() == buf<u8>(a, 0));
    law::prove("validity extent", b[0].size() == (a->buffers[0] == nullptr ? 0 : (n + 7) / 8));
    law::prove("buffer 1", b[1].data() == buf<u8>(a, 1));
    law::prove("buffer 1 extent", b[1].size() == n);
}
void law_C11_buffers_S(ArrowArray* a, ArrowSchema* s)
{
    const auto b = buffers_of(a, s, "S");
    const auto n = off(a) + len(a);
    law::prove("count", b.size() == 2);
    law::prove("validity", b[0].data() == buf<u8>(a, 0));
    law::prove("validity extent", b[0].size() == (a->buffers[0] == nullptr ? 0 : (n + 7) / 8));
    law::prove("buffer 1", b[1].data() == buf<u8>(a, 1));
    law::prove("buffer 1 extent", b[1].size() == 2 * n);
}
void law_C11_buffers_s(ArrowArray* a, ArrowSchema* s)
{
    const auto b = buffers_of(a, s, "s");
    const auto n = off(a) + len(a);
    law::prove("count", b.size() == 2);
    law::prove("validity", b[0].data() == buf<u8>(a, 0));
    law::prove("validity extent", b[0].size() == (a->buffers[0] == nullptr ? 0 : (n + 7) / 8));
    law::prove("buffer 1", b[1].data() == buf<u8>(a, 1));
    law::prove("buffer 1 extent", b[1].size() == 2 * n);
}
void law_C11_buffers_e(ArrowArray* a, ArrowSchema* s)
{
    const auto b = buffers_of(a, s, "e");
    const auto n = off(a) + len(a);
    law::prove("count", b.size() == 2);
    law::prove("validity", b[0].data() == buf<u8>(a, 0));
    law::prove("validity extent", b[0].size() == (a->buffers[0] == nullptr ? 0 : (n + 7) / 8));
    law::prove("buffer 1", b[1].data() == buf<u8>(a, 1));
    law::prove("buffer 1 extent", b[1].size() == 2 * n);
}
void law_C11_buffers_I(ArrowArray* a, ArrowSchema* s)
{
    const auto b = buffers_of(a, s, "I");
    const auto n = off(a) + len(a);
    law::prove("count", b.size() == 2);
    law::prove("validity", b[0].data() == buf<u8>(a, 0));
    law::prove("validity extent", b[0].size() == (a->buffers[0] == nullptr ? 0 : (n + 7) / 8));
    law::prove("buffer 1", b[1].data() == buf<u8>(a, 1));
    law::prove("buffer 1 extent", b[1].size() == 4 * n);
}
void law_C11_buffers_i(ArrowArray* a, ArrowSchema* s)
{
    const auto b = buffers_of(a, s, "i");
    const auto n = off(a) + len(a);
    law::prove("count", b.size() == 2);
    law::prove("validity", b[0].data() == buf<u8>(a, 0));
    law::prove("validity extent", b[0].size() == (a->buffers[0] == nullptr ? 0 : (n + 7) / 8));
    law::prove("buffer 1", b[1].data() == buf<u8>(a, 1));
    law::prove("buffer 1 extent", b[1].size() == 4 * n);
}
void law_C11_buffers_f(ArrowArray* a, ArrowSchema* s)
{
    const auto b = buffers_of(a, s, "f");
    const auto n = off(a) + len(a);
    law::prove("count", b.size() == 2);
    law::prove("validity", b[0].data() == buf<u8>(a, 0));
    law::prove("validity extent", b[0].size() == (a->buffers[0] == nullptr ? 0 : (n + 7) / 8));
    law::prove("buffer 1", b[1].data() == buf<u8>(a, 1));
    law::prove("buffer 1 extent", b[1].size() == 4 * n);
}
void law_C11_buffers_L(ArrowArray* a, ArrowSchema* s)
{
    const auto b = buffers_of(a, s, "L");
    const auto n = off(a) + len(a);
    law::prove("count", b.size() == 2);
    law::prove("validity", b[0].data() == buf<u8>(a, 0));
    law::prove("validity extent", b[0].size() == (a->buffers[0] == nullptr ? 0 : (n + 7) / 8));
    law::prove("buffer 1", b[1].data() == buf<u8>(a, 1));
    law::prove("buffer 1 extent", b[1].size() == 8 * n);
}
void law_C11_buffers_l(ArrowArray* a, ArrowSchema* s)
{
    const auto b = buffers_of(a, s, "l");
    const auto n = off(a) + len(a);
    law::prove("count", b.size() == 2);
    law::prove("validity", b[0].data() == buf<u8>(a, 0));
    law::prove("validity extent", b[0].size() == (a->buffers[0] == nullptr ? 0 : (n + 7) / 8));
    law::prove("buffer 1", b[1].data() == buf<u8>(a, 1));
    law::prove("buffer 1 extent", b[1].size() == 8 * n);
}
void law_C11_buffers_g(ArrowArray* a, ArrowSchema* s)
{
    const auto b = buffers_of(a, s, "g");
    const auto n = off(a) + len(a);
    law::prove("count", b.size() == 2);
    law::prove("validity", b[0].data() == buf<u8>(a, 0));
    law::prove("validity extent", b[0].size() == (a->buffers[0] == nullptr ? 0 : (n + 7) / 8));
    law::prove("buffer 1", b[1].data() == buf<u8>(a, 1));
    law::prove("buffer 1 extent", b[1].size() == 8 * n);
}
void law_C11_buffers_tss_3aUTC(ArrowArray* a, ArrowSchema* s)
{
    const auto b = buffers_of(a, s, "tss:UTC");
    const auto n = off(a) + len(a);
    law::prove("count", b.size() == 2);
    law::prove("validity", b[0].data() == buf<u8>(a, 0));
    law::prove("validity extent", b[0].size() == (a->buffers[0] == nullptr ? 0 : (n + 7) / 8));
    law::prove("buffer 1", b[1].data() == buf<u8>(a, 1));
    law::prove("buffer 1 extent", b[1].size() == 8 * n);
}
void law_C11_buffers_d_3a19_2c10(ArrowArray* a, ArrowSchema* s)
{
    const auto b = buffers_of(a, s, "d:19,10");
    const auto n = off(a) + len(a);
    law::prove("count", b.size() == 2);
    law::prove("validity", b[0].data() == buf<u8>(a, 0));
    law::prove("validity extent", b[0].size() == (a->buffers[0] == nullptr ? 0 : (n + 7) / 8));
    law::prove("buffer 1", b[1].data() == buf<u8>(a, 1));
    law::prove("buffer 1 extent", b[1].size() == 16 * n);
}
void law_C11_buffers_d_3a38_2c10_2c32(ArrowArray* a, ArrowSchema* s)
{
    const auto b = buffers_of(a, s, "d:38,10,32");
    const auto n = off(a) + len(a);
    law::prove("count", b.size() == 2);
    law::prove("validity", b[0].data() == buf<u8>(a, 0));
    law::prove("validity extent", b[0].size() == (a->buffers[0] == nullptr ? 0 : (n + 7) / 8));
    law::prove("buffer 1", b[1].data() == buf<u8>(a, 1));
    law::prove("buffer 1 extent", b[1].size() == 4 * n);
}
void law_C11_buffers_d_3a38_2c10_2c256(ArrowArray* a, ArrowSchema* s)
{
    const auto b = buffers_of(a, s, "d:38,10,256");
    const auto n = off(a) + len(a);
    law::prove("count", b.size() == 2);
    law::prove("validity", b[0].data() == buf<u8>(a, 0));
    law::prove("validity extent", b[0].size() == (a->buffers[0] == nullptr ? 0 : (n + 7) / 8));
    law::prove("buffer 1", b[1].data() == buf<u8>(a, 1));
    law::prove("buffer 1 extent", b[1].size() == 32 * n);
}
void law_C11_buffers_w_3a42(ArrowArray* a, ArrowSchema* s)
{
    const auto b = buffers_of(a, s, "w:42");
    const auto n = off(a) + len(a);
    law::prove("count", b.size() == 2);
    law::prove("validity", b[0].data() == buf<u8>(a, 0));
    law::prove("validity extent", b[0].size() == (a->buffers[0] == nullptr ? 0 : (n + 7) / 8));
    law::prove("buffer 1", b[1].data() == buf<u8>(a, 1));
    law::prove("buffer 1 extent", b[1].size() == 42 * n);
}
void law_C11_buffers_u(ArrowArray* a, ArrowSchema* s)
{
    const auto b = buffers_of(a, s, "u");
    const auto n = off(a) + len(a);
    law::prove("count", b.size() == 3);
    law::prove("validity", b[0].data() == buf<u8>(a, 0));
    law::prove("validity extent", b[0].size() == (a->buffers[0] == nullptr ? 0 : (n + 7) / 8));
    law::prove("buffer 1", b[1].data() == buf<u8>(a, 1));
    law::prove("buffer 1 extent", b[1].size() == 4 * (n + 1));
    law::prove("buffer 2", b[2].data() == buf<u8>(a, 2));
    law::prove("buffer 2 extent", b[2].size() == static_cast<std::size_t>(buf<i32>(a, 1)[n]));
}
void law_C11_buffers_z(ArrowArray* a, ArrowSchema* s)
{
    const auto b = buffers_of(a, s, "z");
    const auto n = off(a) + len(a);
    law::prove("count", b.size() == 3);
    law::prove("validity", b[0].data() == buf<u8>(a, 0));
    law::prove("validity extent", b[0].size() == (a->buffers[0] == nullptr ? 0 : (n + 7) / 8));
    law::prove("buffer 1", b[1].data() == buf<u8>(a, 1));
    law::prove("buffer 1 extent", b[1].size() == 4 * (n + 1));
    law::prove("buffer 2", b[2].data() == buf<u8>(a, 2));
    law::prove("buffer 2 extent", b[2].size() == static_cast<std::size_t>(buf<i32>(a, 1)[n]));
}
void law_C11_buffers_U(ArrowArray* a, ArrowSchema* s)
{
    const auto b = buffers_of(a, s, "U");
    const auto n = off(a) + len(a);
    law::prove("count", b.size() == 3);
    law::prove("validity", b[0].data() == buf<u8>(a, 0));
    law::prove("validity extent", b[0].size() == (a->buffers[0] == nullptr ? 0 : (n + 7) / 8));
    law::prove("buffer 1", b[1].data() == buf<u8>(a, 1));
    law::prove("buffer 1 extent", b[1].size() == 8 * (n + 1));
    law::prove("buffer 2", b[2].data() == buf<u8>(a, 2));
    law::prove("buffer 2 extent", b[2].size() == static_cast<std::size_t>(buf<i64>(a, 1)[n]));
}
void law_C11_buffers_Z(ArrowArray* a, ArrowSchema* s)
{
    const auto b = buffers_of(a, s, "Z");
    const auto n = off(a) + len(a);
    law::prove("count", b.size() == 3);
    law::prove("validity", b[0].data() == buf<u8>(a, 0));
    law::prove("validity extent", b[0].size() == (a->buffers[0] == nullptr ? 0 : (n + 7) / 8));
    law::prove("buffer 1", b[1].data() == buf<u8>(a, 1));
    law::prove("buffer 1 extent", b[1].size() == 8 * (n + 1));
    law::prove("buffer 2", b[2].data() == buf<u8>(a, 2));
    law::prove("buffer 2 extent", b[2].size() == static_cast<std::size_t>(buf<i64>(a, 1)[n]));
}
void law_C11_buffers__2bl(ArrowArray* a, ArrowSchema* s)
{
    const auto b = buffers_of(a, s, "+l");
    const auto n = off(a) + len(a);
    law::prove("count", b.size() == 2);
    law::prove("validity", b[0].data() == buf<u8>(a, 0));
    law::prove("validity extent", b[0].size() == (a->buffers[0] == nullptr ? 0 : (n + 7) / 8));
    law::prove("buffer 1", b[1].data() == buf<u8>(a, 1));
    law::prove("buffer 1 extent", b[1].size() == 4 * (n + 1));
}
void law_C11_buffers__2bL(ArrowArray* a, ArrowSchema* s)
{
    const auto b = buffers_of(a, s, "+L");
    const auto n = off(a) + len(a);
    law::prove("count", b.size() == 2);
    law::prove("validity", b[0].data() == buf<u8>(a, 0));
    law::prove("validity extent", b[0].size() == (a->buffers[0] == nullptr ? 0 : (n + 7) / 8));
    law::prove("buffer 1", b[1].data() == buf<u8>(a, 1));
    law::prove("buffer 1 extent", b[1].size() == 8 * (n + 1));
}
void law_C11_buffers__2bvl(ArrowArray* a, ArrowSchema* s)
{
    const auto b = buffers_of(a, s, "+vl");
    const auto n = off(a) + len(a);
    law::prove("count", b.size() == 3);
    law::prove("validity", b[0].data() == buf<u8>(a, 0));
    law::prove("validity extent", b[0].size() == (a->buffers[0] == nullptr ? 0 : (n + 7) / 8));
    law::prove("buffer 1", b[1].data() == buf<u8>(a, 1));
    law::prove("buffer 1 extent", b[1].size() == 4 * n);
    law::prove("buffer 2", b[2].data() == buf<u8>(a, 2));
    law::prove("buffer 2 extent", b[2].size() == 4 * n);
}
void law_C11_buffers__2bvL(ArrowArray* a, ArrowSchema* s)
{
    const auto b = buffers_of(a, s, "+vL");
    const auto n = off(a) + len(a);
    law::prove("count", b.size() == 3);
    law::prove("validity", b[0].data() == buf<u8>(a, 0));
    law::prove("validity extent", b[0].size() == (a->buffers[0] == nullptr ? 0 : (n + 7) / 8));
    law::prove("buffer 1", b[1].data() == buf<u8>(a, 1));
    law::prove("buffer 1 extent", b[1].size() == 8 * n);
    law::prove("buffer 2", b[2].data() == buf<u8>(a, 2));
    law::prove("buffer 2 extent", b[2].size() == 8 * n);
}
void law_C11_buffers__2bw_3a3(ArrowArray* a, ArrowSchema* s)
{
    const auto b = buffers_of(a, s, "+w:3");
    const auto n = off(a) + len(a);
    law::prove("count", b.size() == 1);
    law::prove("validity", b[0].data() == buf<u8>(a, 0));
    law::prove("validity extent", b[0].size() == (a->buffers[0] == nullptr ? 0 : (n + 7) / 8));
}
void law_C11_buffers__2bs(ArrowArray* a, ArrowSchema* s)
{
    const auto b = buffers_of(a, s, "+s");
    const auto n = off(a) + len(a);
    law::prove("count", b.size() == 1);
    law::prove("validity", b[0].data() == buf<u8>(a, 0));
    law::prove("validity extent", b[0].size() == (a->buffers[0] == nullptr ? 0 : (n + 7) / 8));
}
void law_C11_buffers__2bm(ArrowArray* a, ArrowSchema* s)
{
    const auto b = buffers_of(a, s, "+m");
    const auto n = off(a) + len(a);
    law::prove("count", b.size() == 2);
    law::prove("validity", b[0].data() == buf<u8>(a, 0));
    law::prove("validity extent", b[0].size() == (a->buffers[0] == nullptr ? 0 : (n + 7) / 8));
    law::prove("buffer 1", b[1].data() == buf<u8>(a, 1));
    law::prove("buffer 1 extent", b[1].size() == 4 * (n + 1));
}
void law_C11_buffers__2bus_3a0_2c1(ArrowArray* a, ArrowSchema* s)
{
    const auto b = buffers_of(a, s, "+us:0,1");
    const auto n = off(a) + len(a);
    law::prove("count", b.size() == 1);
    law::prove("buffer 0", b[0].data() == buf<u8>(a, 0));
    law::prove("buffer 0 extent", b[0].size() == n);
}
void law_C11_buffers__2bud_3a0_2c1(ArrowArray* a, ArrowSchema* s)
{
    const auto b = buffers_of(a, s, "+ud:0,1");
    const auto n = off(a) + len(a);
    law::prove("count", b.size() == 2);
    law::prove("buffer 0", b[0].data() == buf<u8>(a, 0));
    law::prove("buffer 0 extent", b[0].size() == n);
    law::prove("buffer 1", b[1].data() == buf<u8>(a, 1));
    law::prove("buffer 1 extent", b[1].size() == 4 * n);
}
void law_C11_buffers_n(ArrowArray* a, ArrowSchema* s)
{
    const auto b = buffers_of(a, s, "n");
    const auto n = off(a) + len(a);
    law::prove("count", b.size() == 0);
}
void law_C11_buffers__2br(ArrowArray* a, ArrowSchema* s)
{
    const auto b = buffers_of(a, s, "+r");
    const auto n = off(a) + len(a);
    law::prove("count", b.size() == 0);
}
void law_C11_buffers_vu(ArrowArray* a, ArrowSchema* s)
{
    a->n_buffers = 5;
    const auto b = buffers_of(a, s, "vu");
    const auto n = off(a) + len(a);
    law::prove("count", b.size() == 5);
    law::prove("validity", b[0].data() == buf<u8>(a, 0));
    law::prove("views", b[1].data() == buf<u8>(a, 1));
    law::prove("views extent", b[1].size() == 16 * n);
    law::prove("data 0", b[2].data() == buf<u8>(a, 2));
    law::prove("data 0 extent", b[2].size() == static_cast<std::size_t>(buf<i64>(a, 4)[0]));
    law::prove("data 1", b[3].data() == buf<u8>(a, 3));
    law::prove("data 1 extent", b[3].size() == static_cast<std::size_t>(buf<i64>(a, 4)[1]));
    law::prove("sizes", b[4].data() == buf<u8>(a, 4));
    law::prove("sizes extent", b[4].size() == 16);
}
void law_C11_buffers_vz(ArrowArray* a, ArrowSchema* s)
{
    a->n_buffers = 5;
    const auto b = buffers_of(a, s, "vz");
    const auto n = off(a) + len(a);
    law::prove("count", b.size() == 5);
    law::prove("validity", b[0].data() == buf<u8>(a, 0));
    law::prove("views", b[1].data() == buf<u8>(a, 1));
    law::prove("views extent", b[1].size() == 16 * n);
    law::prove("data 0", b[2].data() == buf<u8>(a, 2));
    law::prove("data 0 extent", b[2].size() == static_cast<std::size_t>(buf<i64>(a, 4)[0]));
    law::prove("data 1", b[3].data() == buf<u8>(a, 3));
    law::prove("data 1 extent", b[3].size() == static_cast<std::size_t>(buf<i64>(a, 4)[1]));
    law::prove("sizes", b[4].data() == buf<u8>(a, 4));
    law::prove("sizes extent", b[4].size() == 16);
}
