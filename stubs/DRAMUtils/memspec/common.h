#pragma once
#include <DRAMUtils/util/json_utils.h>
#include <cstdint>
#include <optional>
#include <string>
#include <vector>
#include <numeric>
#define STUB_JSONIFY(...) NLOHMANN_JSONIFY_ALL_THINGS(__VA_ARGS__)
namespace DRAMUtils::MemSpec {
enum class pasrModesType { PASR_0, PASR_1, PASR_2, PASR_3, PASR_4, PASR_5, PASR_6, PASR_7, Invalid = -1 };
}
