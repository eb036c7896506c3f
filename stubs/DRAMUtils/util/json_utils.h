#pragma once
// declaration stub of the DRAMUtils header of the same name
#include <DRAMUtils/util/json.h>
#include <optional>
#include <string>
#include <cstdint>
namespace stub_json {
template<typename T> void put(nlohmann::json& j, const char* k, const T& v) { j[k] = v; }
template<typename T> void put(nlohmann::json& j, const char* k, const std::optional<T>& v) { if (v) j[k] = *v; }
template<typename T> void get(const nlohmann::json& j, const char* k, T& v) { if (j.contains(k)) j.at(k).get_to(v); }
template<typename T> void get(const nlohmann::json& j, const char* k, std::optional<T>& v) {
    if (j.contains(k) && !j.at(k).is_null()) v = j.at(k).get<T>(); else v.reset();
}
}
#define STUB_JSON_TO(f) stub_json::put(j, #f, t.f);
#define STUB_JSON_FROM(f) stub_json::get(j, #f, t.f);
#define NLOHMANN_JSONIFY_ALL_THINGS(T_, ...) \
    inline void to_json(nlohmann::json& j, const T_& t) { NLOHMANN_JSON_EXPAND(NLOHMANN_JSON_PASTE(STUB_JSON_TO, __VA_ARGS__)) } \
    inline void from_json(const nlohmann::json& j, T_& t) { NLOHMANN_JSON_EXPAND(NLOHMANN_JSON_PASTE(STUB_JSON_FROM, __VA_ARGS__)) }
