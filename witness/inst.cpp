#include <sparrow/sparrow.hpp>
#include <sparrow/builder/builder.hpp>
#include <sparrow/record_batch.hpp>
#include <sparrow/layout/variable_size_binary_view_array.hpp>
#include <sparrow/utils/repeat_container.hpp>
#include <sparrow/utils/offsets.hpp>
#include <sparrow/utils/buffers.hpp>
#include <sparrow/buffer/buffer_adaptor.hpp>
namespace sp = sparrow;
template class sp::buffer<std::int32_t>;
template class sp::buffer<std::uint8_t>;
template class sp::buffer<std::string>;
template class sp::buffer_view<std::int32_t>;
template class sp::buffer_view<const std::int32_t>;
template class sp::u8_buffer<std::int32_t>;
template class sp::buffer_adaptor<std::int32_t, sp::buffer<std::uint8_t>&>;
template class sp::dynamic_bitset<std::uint8_t>;
template class sp::dynamic_bitset_view<std::uint8_t>;
template class sp::dynamic_bitset_view<const std::uint8_t>;
template class sp::non_owning_dynamic_bitset<std::uint8_t>;
template class sp::any_allocator<std::int32_t>;
template class sp::primitive_array<std::int32_t>;
template class sp::primitive_array<bool>;
template class sp::variable_size_binary_array_impl<std::string, std::string_view, std::int32_t>;
template class sp::variable_size_binary_view_array_impl<std::string_view>;
template class sp::list_array_impl<false>;
template class sp::list_array_impl<true>;
template class sp::list_view_array_impl<false>;
template class sp::list_view_array_impl<true>;
template class sp::list_array_crtp_base<sp::fixed_sized_list_array>;
template class sp::dictionary_encoded_array<std::int32_t>;
template class sp::union_array_crtp_base<sp::dense_union_array>;
template class sp::union_array_crtp_base<sp::sparse_union_array>;
template class sp::run_encoded_array_iterator<true>;
template class sp::run_encoded_array_iterator<false>;
template class sp::array_wrapper_impl<sp::null_array>;
template class sp::nullable<int,bool>;
template class sp::nullable<std::string,bool>;
template class sp::value_ptr<int>;
template class sp::cloning_ptr<sp::array_wrapper>;
template class sp::repeat_view<int>;
template class sp::empty_iterator<int>;
