#pragma once
// GENERATED by stubs/gen.py: declaration stub, not the real DRAMUtils
#include "../common.h"
namespace DRAMUtils::MemSpec {
enum class RefModeTypeDDR4 { REF_MODE_1 = 1, REF_MODE_2 = 2, REF_MODE_4 = 4, INVALID = -1 };
NLOHMANN_JSON_SERIALIZE_ENUM(RefModeTypeDDR4, {{RefModeTypeDDR4::INVALID,nullptr},{RefModeTypeDDR4::REF_MODE_1,1},{RefModeTypeDDR4::REF_MODE_2,2},{RefModeTypeDDR4::REF_MODE_4,4}})
struct MemArchitectureSpecTypeDDR4 {
    uint64_t nbrOfChannels;
    uint64_t nbrOfColumns;
    uint64_t nbrOfRows;
    uint64_t width;
    uint64_t burstLength;
    uint64_t maxBurstLength;
    uint64_t dataRate;
    uint64_t nbrOfBankGroups;
    uint64_t nbrOfBanks;
    uint64_t nbrOfRanks;
    uint64_t nbrOfDevices;
    RefModeTypeDDR4 RefMode;
};
STUB_JSONIFY(MemArchitectureSpecTypeDDR4, nbrOfChannels, nbrOfColumns, nbrOfRows, width, burstLength, maxBurstLength, dataRate, nbrOfBankGroups, nbrOfBanks, nbrOfRanks, nbrOfDevices, RefMode)
struct MemPowerSpecTypeDDR4 {
    double vdd;
    double idd0;
    double idd2n;
    double idd3n;
    double idd4r;
    double idd4w;
    double idd6n;
    double idd2p;
    double idd3p;
    double idd5B;
    double idd5F2;
    double idd5F4;
    double vpp;
    double ipp0;
    double ipp2n;
    double ipp3n;
    double ipp4r;
    double ipp4w;
    double ipp6n;
    double ipp2p;
    double ipp3p;
    double ipp5B;
    double ipp5F2;
    double ipp5F4;
    double vddq;
    std::optional<double> iBeta_vdd;
    std::optional<double> iBeta_vpp;
};
STUB_JSONIFY(MemPowerSpecTypeDDR4, vdd, idd0, idd2n, idd3n, idd4r, idd4w, idd6n, idd2p, idd3p, idd5B, idd5F2, idd5F4, vpp, ipp0, ipp2n, ipp3n, ipp4r, ipp4w, ipp6n, ipp2p, ipp3p, ipp5B, ipp5F2, ipp5F4, vddq, iBeta_vdd, iBeta_vpp)
struct MemTimingSpecTypeDDR4 {
    double tCK;
    uint64_t CKE;
    uint64_t CKESR;
    uint64_t RAS;
    uint64_t RC;
    uint64_t RCD;
    uint64_t RL;
    uint64_t RPRE;
    uint64_t RTP;
    uint64_t WL;
    uint64_t WPRE;
    uint64_t WR;
    uint64_t XP;
    uint64_t XS;
    uint64_t REFM;
    uint64_t REFI;
    uint64_t RFC1;
    uint64_t RFC2;
    uint64_t RFC4;
    uint64_t RP;
    uint64_t DQSCK;
    uint64_t CCD_S;
    uint64_t CCD_L;
    uint64_t FAW;
    uint64_t RRD_S;
    uint64_t RRD_L;
    uint64_t WTR_S;
    uint64_t WTR_L;
    uint64_t XPDLL;
    uint64_t XSDLL;
    uint64_t AL;
    uint64_t ACTPDEN;
    uint64_t PRPDEN;
    uint64_t REFPDEN;
    uint64_t RTRS;
};
STUB_JSONIFY(MemTimingSpecTypeDDR4, tCK, CKE, CKESR, RAS, RC, RCD, RL, RPRE, RTP, WL, WPRE, WR, XP, XS, REFM, REFI, RFC1, RFC2, RFC4, RP, DQSCK, CCD_S, CCD_L, FAW, RRD_S, RRD_L, WTR_S, WTR_L, XPDLL, XSDLL, AL, ACTPDEN, PRPDEN, REFPDEN, RTRS)
struct BankWiseSpecTypeDDR4 {
    std::optional<double> factRho;
};
STUB_JSONIFY(BankWiseSpecTypeDDR4, factRho)
struct MemImpedanceSpecTypeDDR4 {
    bool ck_termination;
    double ck_R_eq;
    double ck_dyn_E;
    bool ca_termination;
    double ca_R_eq;
    double ca_dyn_E;
    bool rdq_termination;
    double rdq_R_eq;
    double rdq_dyn_E;
    bool wdq_termination;
    double wdq_R_eq;
    double wdq_dyn_E;
    bool wdqs_termination;
    double wdqs_R_eq;
    double wdqs_dyn_E;
    bool rdqs_termination;
    double rdqs_R_eq;
    double rdqs_dyn_E;
    bool wdbi_termination;
    double wdbi_R_eq;
    double wdbi_dyn_E;
    bool rdbi_termination;
    double rdbi_R_eq;
    double rdbi_dyn_E;
};
STUB_JSONIFY(MemImpedanceSpecTypeDDR4, ck_termination, ck_R_eq, ck_dyn_E, ca_termination, ca_R_eq, ca_dyn_E, rdq_termination, rdq_R_eq, rdq_dyn_E, wdq_termination, wdq_R_eq, wdq_dyn_E, wdqs_termination, wdqs_R_eq, wdqs_dyn_E, rdqs_termination, rdqs_R_eq, rdqs_dyn_E, wdbi_termination, wdbi_R_eq, wdbi_dyn_E, rdbi_termination, rdbi_R_eq, rdbi_dyn_E)
struct PrePostambleTypeDDR4 {
    double read_zeroes;
    double write_zeroes;
    double read_ones;
    double write_ones;
    uint64_t read_zeroes_to_ones;
    uint64_t write_zeroes_to_ones;
    uint64_t read_ones_to_zeroes;
    uint64_t write_ones_to_zeroes;
    uint64_t readMinTccd;
    uint64_t writeMinTccd;
};
STUB_JSONIFY(PrePostambleTypeDDR4, read_zeroes, write_zeroes, read_ones, write_ones, read_zeroes_to_ones, write_zeroes_to_ones, read_ones_to_zeroes, write_ones_to_zeroes, readMinTccd, writeMinTccd)
struct MemSpecDDR4 {
    static constexpr const char* id = "DDR4";
    std::string memoryId;
    MemArchitectureSpecTypeDDR4 memarchitecturespec;
    MemPowerSpecTypeDDR4 mempowerspec;
    MemTimingSpecTypeDDR4 memtimingspec;
    std::optional<BankWiseSpecTypeDDR4> bankwisespec;
    MemImpedanceSpecTypeDDR4 memimpedancespec;
    PrePostambleTypeDDR4 prepostamble;
};
STUB_JSONIFY(MemSpecDDR4, memoryId, memarchitecturespec, mempowerspec, memtimingspec, bankwisespec, memimpedancespec, prepostamble)
}
