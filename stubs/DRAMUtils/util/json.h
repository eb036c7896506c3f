#pragma once
// declaration stub of the DRAMUtils header of the same name
#include <nlohmann/json.hpp>
using json_t = nlohmann::json;
