// C02: every named CRC equals the engine's definition with the parameters of the public catalogue (RevEng),
// verified modularly against the contract of crc::generic (proved by C01).
#include "vc.h"
#include "crc_spec.h"
#include <include/crc.hpp>
using namespace qlibs;
static const uint8_t* gm; static size_t gn;
// CRC of the whole message with the given parameters: the contract of the engine
static uint32_t spec_value(uint32_t w, uint32_t poly, uint32_t init, bool ri, bool ro, uint32_t xo){
    if (gm == nullptr || gn == 0u) return 0u;
    poly &= maskW(w); init &= maskW(w); xo &= maskW(w);
#ifdef QVC
    return vc_ufu6("crc_of_message", w, poly, init, ri ? 1u : 0u, ro ? 1u : 0u, xo) & maskW(w);
#else
    uint32_t r = init;
    for (size_t i = 0; i < gn; ++i) r = spec_step(r, ri ? spec_refl(gm[i], 8u) : gm[i], w, poly);
    if (ro) r = spec_refl(r, w);
    return (r ^ xo) & maskW(w);
#endif
}
#ifdef QVC
extern "C" __attribute__((used,noinline)) uint32_t contract_generic(int mode, const void* d, size_t n, uint32_t poly, uint32_t init, bool ri, bool ro, uint32_t xo){
    vc_assert(d == gm && n == gn, "the engine is called on the caller's whole message");
    vc_assert(mode >= 0 && mode <= 2, "the engine is called with a supported mode");
    return spec_value(mode == 0 ? 8u : mode == 1 ? 16u : 32u, poly, init, ri, ro, xo);
}
#endif
static void msg(){
    if (vc_bool("null")) { gm = nullptr; gn = vc_size("len0", 0u, 1ull << 60); }
    else { gn = vc_size("len", 0u, 1ull << 60); gm = vc_arr<uint8_t>("msg", gn); }
}
//@ harness named8 prop=C02 stub=qlibs::crc::generic=>contract_generic
VC_HARNESS(named8){
    msg();
    vc_assert(crc::crc8(gm, gn) == spec_value(8u, 0x07u, 0x00u, false, false, 0x00u), "crc8 has its catalogue parameters");
    vc_assert(crc::crc8_CDMA2000(gm, gn) == spec_value(8u, 0x9Bu, 0xFFu, false, false, 0x00u), "crc8_CDMA2000 has its catalogue parameters");
    vc_assert(crc::crc8_DARC(gm, gn) == spec_value(8u, 0x39u, 0x00u, true, true, 0x00u), "crc8_DARC has its catalogue parameters");
    vc_assert(crc::crc8_DVS_S2(gm, gn) == spec_value(8u, 0xD5u, 0x00u, false, false, 0x00u), "crc8_DVS_S2 has its catalogue parameters");
    vc_assert(crc::crc8_EBU(gm, gn) == spec_value(8u, 0x1Du, 0xFFu, true, true, 0x00u), "crc8_EBU has its catalogue parameters");
    vc_assert(crc::crc8_I_CODE(gm, gn) == spec_value(8u, 0x1Du, 0xFDu, false, false, 0x00u), "crc8_I_CODE has its catalogue parameters");
    vc_assert(crc::crc8_ITU(gm, gn) == spec_value(8u, 0x07u, 0x00u, false, false, 0x55u), "crc8_ITU has its catalogue parameters");
    vc_assert(crc::crc8_MAXIM(gm, gn) == spec_value(8u, 0x31u, 0x00u, true, true, 0x00u), "crc8_MAXIM has its catalogue parameters");
    vc_assert(crc::crc8_ROHC(gm, gn) == spec_value(8u, 0x07u, 0xFFu, true, true, 0x00u), "crc8_ROHC has its catalogue parameters");
    vc_assert(crc::crc8_WCDMA(gm, gn) == spec_value(8u, 0x9Bu, 0x00u, true, true, 0x00u), "crc8_WCDMA has its catalogue parameters");
}
//@ harness named16 prop=C02 stub=qlibs::crc::generic=>contract_generic
VC_HARNESS(named16){
    msg();
    vc_assert(crc::crc16_CCITT_FALSE(gm, gn) == spec_value(16u, 0x1021u, 0xFFFFu, false, false, 0x0u), "crc16_CCITT_FALSE has its catalogue parameters");
    vc_assert(crc::crc16_ARC(gm, gn) == spec_value(16u, 0x8005u, 0x0u, true, true, 0x0u), "crc16_ARC has its catalogue parameters");
    vc_assert(crc::crc16_AUG_CCITT(gm, gn) == spec_value(16u, 0x1021u, 0x1D0Fu, false, false, 0x0u), "crc16_AUG_CCITT has its catalogue parameters");
    vc_assert(crc::crc16_BUYPASS(gm, gn) == spec_value(16u, 0x8005u, 0x0u, false, false, 0x0u), "crc16_BUYPASS has its catalogue parameters");
    vc_assert(crc::crc16_CDMA2000(gm, gn) == spec_value(16u, 0xC867u, 0xFFFFu, false, false, 0x0u), "crc16_CDMA2000 has its catalogue parameters");
    vc_assert(crc::crc16_DDS_110(gm, gn) == spec_value(16u, 0x8005u, 0x800Du, false, false, 0x0u), "crc16_DDS_110 has its catalogue parameters");
    vc_assert(crc::crc16_DECT_R(gm, gn) == spec_value(16u, 0x0589u, 0x0u, false, false, 0x1u), "crc16_DECT_R has its catalogue parameters");
    vc_assert(crc::crc16_DECT_X(gm, gn) == spec_value(16u, 0x0589u, 0x0u, false, false, 0x0u), "crc16_DECT_X has its catalogue parameters");
    vc_assert(crc::crc16_DNP(gm, gn) == spec_value(16u, 0x3D65u, 0x0u, true, true, 0xFFFFu), "crc16_DNP has its catalogue parameters");
    vc_assert(crc::crc16_EN_13757(gm, gn) == spec_value(16u, 0x3D65u, 0x0u, false, false, 0xFFFFu), "crc16_EN_13757 has its catalogue parameters");
    vc_assert(crc::crc16_GENIBUS(gm, gn) == spec_value(16u, 0x1021u, 0xFFFFu, false, false, 0xFFFFu), "crc16_GENIBUS has its catalogue parameters");
    vc_assert(crc::crc16_MAXIM(gm, gn) == spec_value(16u, 0x8005u, 0x0u, true, true, 0xFFFFu), "crc16_MAXIM has its catalogue parameters");
    vc_assert(crc::crc16_MCRF4XX(gm, gn) == spec_value(16u, 0x1021u, 0xFFFFu, true, true, 0x0u), "crc16_MCRF4XX has its catalogue parameters");
    vc_assert(crc::crc16_RIELLO(gm, gn) == spec_value(16u, 0x1021u, 0xB2AAu, true, true, 0x0u), "crc16_RIELLO has its catalogue parameters");
    vc_assert(crc::crc16_T10_DIF(gm, gn) == spec_value(16u, 0x8BB7u, 0x0u, false, false, 0x0u), "crc16_T10_DIF has its catalogue parameters");
    vc_assert(crc::crc16_TELEDISK(gm, gn) == spec_value(16u, 0xA097u, 0x0u, false, false, 0x0u), "crc16_TELEDISK has its catalogue parameters");
    vc_assert(crc::crc16_TMS37157(gm, gn) == spec_value(16u, 0x1021u, 0x89ECu, true, true, 0x0u), "crc16_TMS37157 has its catalogue parameters");
    vc_assert(crc::crc16_USB(gm, gn) == spec_value(16u, 0x8005u, 0xFFFFu, true, true, 0xFFFFu), "crc16_USB has its catalogue parameters");
    vc_assert(crc::crc16_A(gm, gn) == spec_value(16u, 0x1021u, 0xC6C6u, true, true, 0x0u), "crc16_A has its catalogue parameters");
    vc_assert(crc::crc16_KERMIT(gm, gn) == spec_value(16u, 0x1021u, 0x0u, true, true, 0x0u), "crc16_KERMIT has its catalogue parameters");
    vc_assert(crc::crc16_MODBUS(gm, gn) == spec_value(16u, 0x8005u, 0xFFFFu, true, true, 0x0u), "crc16_MODBUS has its catalogue parameters");
    vc_assert(crc::crc16_X_25(gm, gn) == spec_value(16u, 0x1021u, 0xFFFFu, true, true, 0xFFFFu), "crc16_X_25 has its catalogue parameters");
    vc_assert(crc::crc16_XMODEM(gm, gn) == spec_value(16u, 0x1021u, 0x0u, false, false, 0x0u), "crc16_XMODEM has its catalogue parameters");
}
//@ harness named32 prop=C02 stub=qlibs::crc::generic=>contract_generic
VC_HARNESS(named32){
    msg();
    vc_assert(crc::crc32(gm, gn) == spec_value(32u, 0x04C11DB7u, 0xFFFFFFFFu, true, true, 0xFFFFFFFFu), "crc32 has its catalogue parameters");
    vc_assert(crc::crc32_BZIP2(gm, gn) == spec_value(32u, 0x04C11DB7u, 0xFFFFFFFFu, false, false, 0xFFFFFFFFu), "crc32_BZIP2 has its catalogue parameters");
    vc_assert(crc::crc32_C(gm, gn) == spec_value(32u, 0x1EDC6F41u, 0xFFFFFFFFu, true, true, 0xFFFFFFFFu), "crc32_C has its catalogue parameters");
    vc_assert(crc::crc32_D(gm, gn) == spec_value(32u, 0xA833982Bu, 0xFFFFFFFFu, true, true, 0xFFFFFFFFu), "crc32_D has its catalogue parameters");
    vc_assert(crc::crc32_JAMCRC(gm, gn) == spec_value(32u, 0x04C11DB7u, 0xFFFFFFFFu, true, true, 0x0u), "crc32_JAMCRC has its catalogue parameters");
    vc_assert(crc::crc32_MPEG2(gm, gn) == spec_value(32u, 0x04C11DB7u, 0xFFFFFFFFu, false, false, 0x0u), "crc32_MPEG2 has its catalogue parameters");
    vc_assert(crc::crc32_POSIX(gm, gn) == spec_value(32u, 0x04C11DB7u, 0x0u, false, false, 0xFFFFFFFFu), "crc32_POSIX has its catalogue parameters");
    vc_assert(crc::crc32_Q(gm, gn) == spec_value(32u, 0x814141ABu, 0x0u, false, false, 0x0u), "crc32_Q has its catalogue parameters");
    vc_assert(crc::crc32_XFER(gm, gn) == spec_value(32u, 0x000000AFu, 0x0u, false, false, 0x0u), "crc32_XFER has its catalogue parameters");
}
