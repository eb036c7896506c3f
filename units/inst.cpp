// Explicit instantiations: make every member of the repository's templates visible to the exporter,
// whether or not the library itself happens to use it.  Parsed only, never compiled or run.
#include <DRAMPower/util/dynamic_bitset.h>
#include <DRAMPower/util/sub_bitset.h>
#include <DRAMPower/util/binary_ops.h>
#include <DRAMPower/util/cycle_stats.h>
#include <DRAMPower/util/dbihelpers.h>
#include <DRAMPower/util/ImplicitCommandHandler.h>
#include <DRAMPower/util/PatternHandler.h>
#include <DRAMPower/util/Router.h>
#include <DRAMPower/util/bus.h>
#include <DRAMPower/util/pin.h>
#include <DRAMPower/util/clock.h>
#include <DRAMPower/util/databus_presets.h>
#include <DRAMPower/command/CmdType.h>
#include <DRAMPower/standards/lpddr6/LPDDR6Pattern.h>
#include <DRAMPower/dram/dram_base.h>
#include <DRAMPower/util/extensions.h>
#include <DRAMPower/util/extension_manager.h>
#include <DRAMPower/util/extension_manager_static.h>
#include <cstdint>
#include <vector>

namespace DRAMPower {
template class util::dynamic_bitset<8>;
template class util::dynamic_bitset<64>;
template class util::sub_bitset<16>;
template class util::sub_bitset<64>;
template class util::interval_counter<uint64_t>;
template class util::SubChunkView<std::vector<uint8_t>::const_iterator, 16>;
template class util::ConcatIterator<std::vector<uint8_t>::const_iterator, std::vector<uint8_t>::const_iterator>;
template class ImplicitCommandHandler<void>;
struct UnitCtx {};
template class ImplicitCommandHandler<UnitCtx>;
template class Router<CmdType>;
template class PatternHandler<CmdType>;
template class util::Bus<64>;
template class util::Pin<8>;
template class dram_base<CmdType>;
template class util::extension_manager::ExtensionManager<extensions::Base>;

template util::dynamic_bitset<8> util::operator^(util::dynamic_bitset<8>, const util::dynamic_bitset<8>&);
template util::dynamic_bitset<8> util::operator&(util::dynamic_bitset<8>, const util::dynamic_bitset<8>&);
template util::dynamic_bitset<8> util::operator|(util::dynamic_bitset<8>, const util::dynamic_bitset<8>&);
template util::sub_bitset<16> util::operator^(util::sub_bitset<16>, const util::sub_bitset<16>&);
template util::sub_bitset<16> util::operator&(util::sub_bitset<16>, const util::sub_bitset<16>&);
template util::sub_bitset<16> util::operator|(util::sub_bitset<16>, const util::sub_bitset<16>&);
template bool util::dynamic_bitset<8>::operator==(const util::dynamic_bitset<8>&) const;
template bool util::dynamic_bitset<8>::operator==(const util::dynamic_bitset<64>&) const;
template bool util::dynamic_bitset<8>::operator!=(const util::dynamic_bitset<8>&) const;
template bool util::dynamic_bitset<8>::operator!=(const util::dynamic_bitset<64>&) const;
template bool util::sub_bitset<16>::operator==(const util::sub_bitset<16>&) const;
template bool util::sub_bitset<16>::operator!=(const util::sub_bitset<16>&) const;
template auto& util::sub_bitset<16>::operator^=(const util::sub_bitset<16>&);
template auto& util::sub_bitset<16>::operator&=(const util::sub_bitset<16>&);
template auto& util::sub_bitset<16>::operator|=(const util::sub_bitset<16>&);
}
namespace DRAMPower {
enum class UnitHooks : uint64_t { First = 1, Last = uint64_t{1} << 63 };
struct UnitHookBase : util::extension_manager::ExtensionWithHooks<UnitHooks>, util::Serialize, util::Deserialize {};
struct UnitHookExt : UnitHookBase {
    UnitHooks hooks = UnitHooks::First;
    UnitHooks getSupportedHooks() const override { return hooks; }
    void serialize(std::ostream&) const override {}
    void deserialize(std::istream&) override {}
};
template class util::extension_manager::ExtensionManager<UnitHookBase>;
template class util::extension_manager::ExtensionManagerWithHooks<UnitHookBase, UnitHooks>;
struct UnitVisitor { void operator()(UnitHookBase&); };
struct UnitDbiVisitor { void operator()(extensions::DBI&); };
inline void unit_extensions(util::extension_manager::ExtensionManagerWithHooks<UnitHookBase, UnitHooks>& m, util::extension_manager::ExtensionManager<extensions::Base>& b) {
    m.registerExtension<UnitHookExt>();
    (void)m.getExtension<UnitHookExt>();
    (void)m.hasExtension<UnitHookExt>();
    m.withExtension<UnitHookExt>(UnitVisitor{});
    m.callHook(UnitHooks::First, UnitVisitor{});
    (void)b.getExtension<extensions::DBI>();
    (void)b.hasExtension<extensions::DBI>();
    b.withExtension<extensions::DBI>(UnitDbiVisitor{});
}
template <int I, uint64_t M>
struct UnitStatic {
    int state = I;
    static constexpr UnitHooks getSupportedHooks() { return static_cast<UnitHooks>(M); }
};
struct UnitStaticVisitor { template <typename E> void operator()(E&); };
template class util::extension_manager_static::StaticExtensionManager<
    DRAMUtils::util::type_sequence<UnitStatic<0, 1>, UnitStatic<1, (uint64_t{1} << 63) | 1>, UnitStatic<2, uint64_t{1} << 40>>, UnitHooks>;
inline void unit_static_extensions(util::extension_manager_static::StaticExtensionManager<
    DRAMUtils::util::type_sequence<UnitStatic<0, 1>, UnitStatic<1, (uint64_t{1} << 63) | 1>, UnitStatic<2, uint64_t{1} << 40>>, UnitHooks>& m) {
    m.callHook<UnitHooks::First>(UnitStaticVisitor{});
    m.callHook<UnitHooks::Last>(UnitStaticVisitor{});
    m.callHook<static_cast<UnitHooks>(uint64_t{1} << 40)>(UnitStaticVisitor{});
    m.callHook<static_cast<UnitHooks>(2)>(UnitStaticVisitor{});
    (void)m.getExtension<UnitStatic<1, (uint64_t{1} << 63) | 1>>();
    m.withExtension<UnitStatic<2, uint64_t{1} << 40>>(UnitStaticVisitor{});
    (void)m.hasExtension<UnitStatic<0, 1>>();
    (void)m.hasExtension<int>();
}
inline void unit_databus(util::databus_presets::databus_preset_t& d, const DRAMUtils::Config::ToggleRateDefinition& t) {
    d.enableBus(0);
    d.enableTogglingRate(0);
    d.setTogglingRateDefinition(t);
    (void)d.isBus();
    (void)d.isTogglingRate();
    (void)d.getWidth();
}
inline void unit_use(std::ostream& os) {
    std::bitset<64> a, b;
    (void)util::BinaryOps::zero_to_ones(a, b);
    (void)util::BinaryOps::one_to_zeroes(a, b);
    (void)util::BinaryOps::bit_changes(a, b);
    (void)util::BinaryOps::popcount(uint64_t{1});
    ImplicitCommandHandler<UnitCtx> h;
    h.addImplicitCommand(0, [](UnitCtx&) {});
    ImplicitCommandHandler<void> v;
    v.addImplicitCommand(0, []() {});
    Router<CmdType> r{std::nullopt};
    r.routeCommand<CmdType::ACT>([](const Command&) {});
    PatternHandler<CmdType> p{uint64_t{0}};
    p.registerPattern<CmdType::ACT>({pattern_descriptor::H});
    p.registerPattern<CmdType::ACT>(std::vector<pattern_descriptor::t>{});
    (void)os;
}
}
namespace DRAMPower {
template class BasePatternEncoderOverrides<pattern_descriptor::t>;
template class BasePatternEncoderOverrides<pattern_descriptor_LPDDR6::t>;
template class BasePatternEncoder<>;
template class BasePatternEncoder<pattern_descriptor_LPDDR6::t, LPDDR6TargetCoordinate, LPDDR6Encoder, LPDDR6PatternExtraData>;
}
