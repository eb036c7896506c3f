#pragma once
// declaration stub of the DRAMUtils header of the same name
#include <type_traits>
#include <variant>
#include <tuple>
#include <string>
#include <cstdint>
#include <memory>
namespace DRAMUtils::util {
template<typename...> struct always_false : std::false_type {};
template<typename... Ts> struct type_sequence {};
template<typename... Ts> struct unique_types;
template<> struct unique_types<> : std::true_type {};
template<typename T, typename... Ts>
struct unique_types<T, Ts...> : std::bool_constant<(!std::is_same_v<T, Ts> && ...) && unique_types<Ts...>::value> {};
template<typename T, typename Seq> struct is_one_of;
template<typename T, typename... Ts>
struct is_one_of<T, type_sequence<Ts...>> : std::bool_constant<(std::is_same_v<T, Ts> || ...)> {};
}
