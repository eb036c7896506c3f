#!/usr/bin/env python3
"""One-off generator of the DRAMUtils declaration stubs (DRAMUtils is not available offline).
Field names come from the memory specification resources shipped in /repo/tests; only the
declarations matter to the analysis.  Run: gen.py <resource dir> <out dir>"""
import json,sys,os
res,out=sys.argv[1:3]
EN={'DDR4':['RefMode'],'DDR5':['RefMode'],'LPDDR4':[],'LPDDR5':[],'LPDDR6':[]}
def ty(sec,k,std):
    if sec=='memimpedancespec': return 'bool' if k.endswith('_termination') else 'double'
    if sec=='mempowerspec': return 'std::optional<double>' if k.startswith('iBeta') else 'double'
    if sec=='memtimingspec': return 'double' if k=='tCK' else 'uint64_t'
    if sec=='bankwisespec':
        return {'pasrMode':'std::optional<pasrModesType>','hasPASR':'std::optional<bool>'}.get(k,'std::optional<double>')
    if sec=='prepostamble': return 'uint64_t' if '_to_' in k or k.endswith('Tccd') else 'double'
    if sec=='memarchitecturespec':
        if k=='RefMode': return 'RefModeType'+std
        if k=='WCKalwaysOn': return 'bool'
        return 'uint64_t'
    return 'uint64_t'
NM={'memarchitecturespec':'MemArchitectureSpecType','mempowerspec':'MemPowerSpecType','memtimingspec':'MemTimingSpecType',
    'bankwisespec':'BankWiseSpecType','memimpedancespec':'MemImpedanceSpecType','prepostamble':'PrePostambleType','dataratespec':'DataRateSpecType'}
os.makedirs(out+'/memspec/standards',exist_ok=True)
for std in EN:
    d=json.load(open(f'{res}/{std.lower()}.json')); d=d['memspec']
    if std=='DDR5' and 'dataratespec' not in d: d['dataratespec']={'ca_bus_rate':2,'dq_bus_rate':2,'dqs_bus_rate':2}
    if std in('DDR4','DDR5','LPDDR5','LPDDR6') and 'bankwisespec' not in d: d['bankwisespec']={'factRho':1}
    o=['#pragma once','// GENERATED by stubs/gen.py: declaration stub, not the real DRAMUtils','#include "../common.h"','namespace DRAMUtils::MemSpec {']
    if std=='DDR4':
        o.append('enum class RefModeTypeDDR4 { REF_MODE_1 = 1, REF_MODE_2 = 2, REF_MODE_4 = 4, INVALID = -1 };')
        o.append('NLOHMANN_JSON_SERIALIZE_ENUM(RefModeTypeDDR4, {{RefModeTypeDDR4::INVALID,nullptr},{RefModeTypeDDR4::REF_MODE_1,1},{RefModeTypeDDR4::REF_MODE_2,2},{RefModeTypeDDR4::REF_MODE_4,4}})')
    if std=='DDR5':
        o.append('enum class RefModeTypeDDR5 { REF_MODE_1 = 1, REF_MODE_2 = 2, INVALID = -1 };')
        o.append('NLOHMANN_JSON_SERIALIZE_ENUM(RefModeTypeDDR5, {{RefModeTypeDDR5::INVALID,nullptr},{RefModeTypeDDR5::REF_MODE_1,1},{RefModeTypeDDR5::REF_MODE_2,2}})')
    if std=='LPDDR4': pass
    secs=[]
    for sec,n in NM.items():
        if sec not in d: continue
        secs.append(sec)
        o.append(f'struct {n}{std} {{')
        for k in d[sec]: o.append(f'    {ty(sec,k,std)} {k};')
        o.append('};')
        o.append(f'STUB_JSONIFY({n}{std}, {", ".join(d[sec])})')
    o.append(f'struct MemSpec{std} {{')
    o.append(f'    static constexpr const char* id = "{std}";')
    o.append('    std::string memoryId;')
    for s in secs:
        t=f'{NM[s]}{std}'
        if s in('bankwisespec','dataratespec'): t=f'std::optional<{t}>'
        o.append(f'    {t} {s};')
    o.append('};')
    o.append(f'STUB_JSONIFY(MemSpec{std}, memoryId, {", ".join(secs)})')
    o.append('}')
    open(f'{out}/memspec/standards/MemSpec{std}.h','w').write('\n'.join(o)+'\n')
