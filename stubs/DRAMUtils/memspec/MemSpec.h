#pragma once
// declaration stub of the DRAMUtils header of the same name
#include <DRAMUtils/memspec/standards/MemSpecDDR4.h>
#include <DRAMUtils/memspec/standards/MemSpecDDR5.h>
#include <DRAMUtils/memspec/standards/MemSpecLPDDR4.h>
#include <DRAMUtils/memspec/standards/MemSpecLPDDR5.h>
#include <DRAMUtils/memspec/standards/MemSpecLPDDR6.h>
#include <filesystem>
#include <fstream>
#include <memory>
#include <optional>
#include <variant>
namespace DRAMUtils::MemSpec {
class MemSpecVariant {
public:
    using Variant = std::variant<MemSpecDDR4, MemSpecDDR5, MemSpecLPDDR4, MemSpecLPDDR5, MemSpecLPDDR6>;
    const Variant& getVariant() const { return v; }
    Variant v;
};
}
namespace DRAMUtils {
inline std::unique_ptr<MemSpec::MemSpecVariant> parse_memspec_from_file(const std::filesystem::path& p) {
    std::ifstream f(p);
    if (!f) return nullptr;
    auto j = nlohmann::json::parse(f, nullptr, false);
    if (j.is_discarded() || !j.contains("memspec")) return nullptr;
    auto& m = j["memspec"];
    auto r = std::make_unique<MemSpec::MemSpecVariant>();
    std::string t = m.value("memoryType", "");
    if (t == "DDR4") r->v = m.get<MemSpec::MemSpecDDR4>();
    else if (t == "DDR5") r->v = m.get<MemSpec::MemSpecDDR5>();
    else if (t == "LPDDR4") r->v = m.get<MemSpec::MemSpecLPDDR4>();
    else if (t == "LPDDR5") r->v = m.get<MemSpec::MemSpecLPDDR5>();
    else if (t == "LPDDR6") r->v = m.get<MemSpec::MemSpecLPDDR6>();
    else return nullptr;
    return r;
}
}
