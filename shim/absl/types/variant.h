// apt's abseil was built as C++14, where absl::variant is its own class; securefs expects std's.
#pragma once
#include <variant>
#include <absl/utility/utility.h>
namespace absl
{
using std::bad_variant_access;
using std::get;
using std::get_if;
using std::holds_alternative;
using std::monostate;
using std::variant;
using std::variant_alternative;
using std::variant_alternative_t;
using std::variant_npos;
using std::variant_size;
using std::visit;
}    // namespace absl
