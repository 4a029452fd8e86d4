// C01: the CRC engine equals the definition of the parametrised CRC on every message.
#include "vc.h"
#include "crc_spec.h"
#include <include/crc.hpp>
using namespace qlibs;

struct P { uint32_t w, poly, init, xo; bool ri, ro; };
static P gp; static const uint8_t* gm; static size_t gn;
// specification register after the first k bytes
extern "C" __attribute__((used,noinline)) uint32_t spec_crc(const uint8_t* m, uint64_t k){
    if (k == 0u) return gp.init & maskW(gp.w);
    uint32_t b = m[k - 1u];
    if (gp.ri) b = spec_refl(b, 8u);
    return spec_step(spec_crc(m, k - 1u), b, gp.w, gp.poly);
}
static uint32_t spec_final(uint32_t reg){
    if (gp.ro) reg = spec_refl(reg, gp.w);
    return (reg ^ gp.xo) & maskW(gp.w);
}
// loop invariants (any that is inductive is used): after `it` bytes the accumulator is the specification register ...
extern "C" __attribute__((used)) bool INV_crc(uint64_t it, uint32_t val){ return (val & maskW(gp.w)) == spec_crc(gm, it); }
// ... or, for an accumulator kept in reflected form, its mirror image
extern "C" __attribute__((used)) bool INV_crcR(uint64_t it, uint32_t val){ return val == spec_refl(spec_crc(gm, it), gp.w); }

template<int MODE> static void generic_w(){
    gp.w = (MODE == 0) ? 8u : (MODE == 1) ? 16u : 32u;
    gp.poly = vc_u32("poly"); gp.init = vc_u32("init"); gp.xo = vc_u32("xorOut");
    gp.ri = vc_bool("refIn"); gp.ro = vc_bool("refOut");
    gn = vc_size("len", 1u, 1ull << 60); gm = vc_arr<uint8_t>("msg", gn);
    uint32_t r = crc::generic(static_cast<crcMode>(MODE), gm, gn, gp.poly, gp.init, gp.ri, gp.ro, gp.xo);
    vc_assert(r == spec_final(spec_crc(gm, gn)), "generic CRC equals its definition");
}
//@ harness generic8  prop=C01 cut=qlibs::crc::generic inv=INV_crc,INV_crcR spec=spec_crc:2 unroll=40
VC_HARNESS(generic8){ generic_w<0>(); }
//@ harness generic16 prop=C01 cut=qlibs::crc::generic inv=INV_crc,INV_crcR spec=spec_crc:2 unroll=40
VC_HARNESS(generic16){ generic_w<1>(); }
//@ harness generic32 prop=C01 cut=qlibs::crc::generic inv=INV_crc,INV_crcR spec=spec_crc:2 unroll=40
VC_HARNESS(generic32){ generic_w<2>(); }

// default parameters: init 0, no reflection, no final xor
//@ harness defaults prop=C01 cut=qlibs::crc::generic inv=INV_crc,INV_crcR spec=spec_crc:2 unroll=40
VC_HARNESS(defaults){
    gp.w = 16u; gp.poly = vc_u32("poly"); gp.init = 0u; gp.xo = 0u; gp.ri = false; gp.ro = false;
    gn = vc_size("len", 1u, 1ull << 60); gm = vc_arr<uint8_t>("msg", gn);
    uint32_t r = crc::generic(CRC16, gm, gn, gp.poly);
    vc_assert(r == spec_final(spec_crc(gm, gn)), "omitted parameters mean init 0, no reflection, no final xor");
}
// nothing to process: 0, and no memory is touched
//@ harness nothing prop=C01 cut=qlibs::crc::generic unroll=40
VC_HARNESS(nothing){
    uint32_t mode = vc_u32("mode");
    uint8_t b = 0u;
    bool nul = vc_bool("null");
    uint64_t len = vc_u64("length");
    vc_assume(nul || len == 0u || (mode > 2u));
    vc_assume(nul || mode > 2u || len == 0u);
    uint32_t m3 = mode % 4u; // the three modes and one unsupported value
    vc_assume(nul || len == 0u || m3 == 3u);
    vc_assume(mode == m3);
    const uint32_t poly = vc_u32("poly"), init = vc_u32("init"), xo = vc_u32("xorOut"); const bool ri = vc_bool("refIn"), ro = vc_bool("refOut"); uint32_t r;
    if (nul) r = crc::generic(static_cast<crcMode>(m3), nullptr, len, poly, init, ri, ro, xo); else r = crc::generic(static_cast<crcMode>(m3), &b, len, poly, init, ri, ro, xo);
    vc_assert(r == 0u, "null data, zero length or unsupported mode yields 0");
}
