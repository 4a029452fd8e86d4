// C03: a bit-field is an exact map from bit positions to bits; every operation changes exactly the bits it names.
#include "vc.h"
#include <include/bitfield.hpp>
using namespace qlibs;

static const uint64_t MAXW = 1ull << 40;
static inline bool bitOf(const uint32_t* a, size_t i){ return ((a[i >> 5] >> (i & 31u)) & 1u) != 0u; }
// an arbitrary already configured field over n words with arbitrary contents
#define FIELD() \
    const size_t n = vc_size("words", 1u, MAXW); uint32_t* const a = vc_arr<uint32_t>("area", n); \
    const size_t nb = n*32u; bitfield f; \
    vc_assert(f.setup(a, n*4u), "setup accepts a non-empty area"); \
    const size_t idx = vc_index("index", nb); const size_t k = vc_index("probe", nb); \
    const bool before = bitOf(a, k)

//@ harness setup prop=C03
VC_HARNESS(setup){
    FIELD(); (void)idx;
    vc_assert(bitOf(a, k) == before, "setup does not alter the area");
    vc_assert(f.readBit(k) == before, "readBit returns the stored bit");
    vc_assert(!f.setup(nullptr, vc_u64("sz")), "setup rejects a null area");
    vc_assert(!f.setup(a, 0u), "setup rejects an empty area");
    vc_assert(f.readBit(k) == before, "a rejected setup changes nothing");
    uint8_t small[64]; bitfield g;
    for (int i = 0; i < 64; ++i) small[i] = 0;
    bitArea<33> ba; static_assert(sizeof(ba) == 8u, "bitArea rounds up to whole words");
    vc_assert(g.setup(small) && g.setBit(511u) && g.readBit(511u) && small[63] == 0x80u, "array overload covers the whole array");
}
//@ harness unset prop=C03
VC_HARNESS(unset){
    bitfield f; const size_t i = vc_u64("index"); const size_t nb = vc_u64("xBits"); uint32_t d[2] = { 5u, 6u };
    vc_assert(!f.readBit(i) && !f.setBit(i) && !f.clearBit(i) && !f.toggleBit(i) && !f.writeBit(i, true) && !f.writeBit(i, false), "an unconfigured field refuses single-bit operations");
    vc_assert(f.readUINTn(i, nb) == 0u && !f.writeUINTn(i, nb, vc_u32("v")) && !f.writeFloat(i, 1.0f) && vc_bits(f.readFloat(i)) == 0u, "an unconfigured field refuses multi-bit operations");
    vc_assert(!f.setAll() && !f.clearAll() && f.dump(d, vc_u64("n")) == nullptr && d[0] == 5u && d[1] == 6u, "an unconfigured field refuses bulk operations");
}
//@ harness setBit prop=C03
VC_HARNESS(setBit){
    FIELD();
    vc_assert(f.setBit(idx), "setBit succeeds");
    vc_assert(bitOf(a, k) == ((k == idx) ? true : before), "setBit sets exactly that bit");
    vc_assert(f.readBit(k) == bitOf(a, k), "readBit returns the stored bit");
}
//@ harness clearBit prop=C03
VC_HARNESS(clearBit){
    FIELD();
    vc_assert(f.clearBit(idx), "clearBit succeeds");
    vc_assert(bitOf(a, k) == ((k == idx) ? false : before), "clearBit clears exactly that bit");
    vc_assert(f.readBit(k) == bitOf(a, k), "readBit returns the stored bit");
}
//@ harness toggleBit prop=C03
VC_HARNESS(toggleBit){
    FIELD();
    vc_assert(f.toggleBit(idx), "toggleBit succeeds");
    vc_assert(bitOf(a, k) == ((k == idx) ? !before : before), "toggleBit flips exactly that bit");
    vc_assert(f.readBit(k) == bitOf(a, k), "readBit returns the stored bit");
}
//@ harness writeBit prop=C03
VC_HARNESS(writeBit){
    FIELD(); const bool v = vc_bool("v");
    vc_assert(f.writeBit(idx, v), "writeBit succeeds");
    vc_assert(bitOf(a, k) == ((k == idx) ? v : before), "writeBit writes exactly that bit");
    vc_assert(f.readBit(k) == bitOf(a, k), "readBit returns the stored bit");
}
//@ harness readUINTn prop=C03
VC_HARNESS(readUINTn){
    FIELD(); (void)k; (void)before;
    const size_t x = vc_size("xBits", 0u, 40u); const size_t j = vc_index("bit", 32u);
    const uint32_t r = f.readUINTn(idx, x);
    const bool in = (x <= 32u) && (j < x) && (idx + j < nb);
    vc_assert((((r >> j) & 1u) != 0u) == (in && bitOf(a, in ? idx + j : 0u)), "readUINTn returns the n bits starting at index (bits past the end read 0)");
    vc_assert(bitOf(a, k) == before, "readUINTn changes nothing");
}
//@ harness writeUINTn prop=C03
VC_HARNESS(writeUINTn){
    FIELD();
    const size_t x = vc_size("xBits", 0u, 40u); const uint32_t v = vc_u32("value");
    const bool r = f.writeUINTn(idx, x, v);
    vc_assert(x == 0u || r == (x <= 32u), "writeUINTn accepts 1..32 bits");
    const bool in = (x <= 32u) && (k >= idx) && (k - idx < x);
    vc_assert(in || bitOf(a, k) == before, "writeUINTn leaves every other bit unchanged");
    if (x != 1u || v <= 1u) vc_assert(!in || bitOf(a, k) == (((v >> ((k - idx) & 31u)) & 1u) != 0u), "writeUINTn stores the n low bits of the value at index");
    vc_assert(f.readBit(k) == bitOf(a, k), "readBit returns the stored bit");
    if (x >= 1u && x <= 32u && idx + x <= nb && (x == 32u || v < (1u << (x & 31u)))) vc_assert(f.readUINTn(idx, x) == v, "readUINTn returns what writeUINTn stored");
}
//@ harness floats prop=C03
VC_HARNESS(floats){
    FIELD(); const float v = vc_f32("value");
    vc_assume(!vc_isnan(v));
    vc_assert(f.writeFloat(idx, v), "writeFloat succeeds");
    const bool in = (k >= idx) && (k - idx < 32u);
    vc_assert(bitOf(a, k) == (in ? (((vc_bits(v) >> ((k - idx) & 31u)) & 1u) != 0u) : before), "writeFloat writes exactly the 32 bits of the value");
    if (idx + 32u <= nb) {
        vc_assert(vc_bits(f.readFloat(idx)) == vc_bits(v), "readFloat returns what writeFloat stored");
        vc_assert(f.readUINTn(idx, 32u) == vc_bits(v), "a float is stored as its 32-bit representation");
    }
    vc_assert(f.readBit(k) == bitOf(a, k), "readBit returns the stored bit");
}
//@ harness setAll prop=C03
VC_HARNESS(setAll){
    FIELD(); (void)idx; (void)before;
    vc_assert(f.setAll(), "setAll succeeds");
    vc_assert(bitOf(a, k), "setAll sets every bit");
    vc_assert(f.readBit(k), "readBit returns the stored bit");
}
//@ harness clearAll prop=C03
VC_HARNESS(clearAll){
    FIELD(); (void)idx; (void)before;
    vc_assert(f.clearAll(), "clearAll succeeds");
    vc_assert(!bitOf(a, k), "clearAll clears every bit");
    vc_assert(!f.readBit(k), "readBit returns the stored bit");
}
//@ harness dump prop=C03
VC_HARNESS(dump){
    FIELD(); (void)idx;
    const size_t m = vc_size("dstWords", 1u, MAXW); uint32_t* const d = vc_arr<uint32_t>("dst", m);
    const size_t cb = vc_size("copyBytes", 0u, 4u*MAXW); vc_assume(cb <= m*4u);
    const size_t j = vc_index("dbit", m*32u); const bool old = bitOf(d, j);
    void* const r = f.dump(d, cb);
    vc_assert(r == ((cb <= n*4u) ? static_cast<void*>(d) : nullptr), "dump returns the destination, or null when more than the field is requested");
    const bool in = (cb <= n*4u) && (j < cb*8u);
    vc_assert(bitOf(d, j) == (in ? bitOf(a, in ? j : 0u) : old), "dump copies exactly the requested prefix");
    vc_assert(bitOf(a, k) == before, "dump does not alter the field");
    vc_assert(f.dump(nullptr, cb) == nullptr, "dump to null does nothing");
}
// any history of operations against a plain array of booleans (native search)
VC_SEARCH(history){
    const size_t n = vc_size("words", 1u, 4u); uint32_t a[4]; bool ref[128]; const size_t nb = n*32u;
    bitfield f; f.setup(a, n*4u);
    for (size_t i = 0; i < 4u; ++i) a[i] = vc_u32("w");
    for (size_t i = 0; i < nb; ++i) ref[i] = (a[i/32u] >> (i % 32u)) & 1u;
    for (int s = 0; s < 24; ++s) {
        const size_t i = vc_index("i", nb); const uint32_t v = vc_u32("v"); const size_t x = vc_size("x", 1u, 32u);
        switch (vc_u8("op") % 10u) {
            case 0: f.setBit(i); ref[i] = true; break;
            case 1: f.clearBit(i); ref[i] = false; break;
            case 2: f.toggleBit(i); ref[i] = !ref[i]; break;
            case 3: f.writeBit(i, v & 1u); ref[i] = v & 1u; break;
            case 4: case 5: case 6: {
                const uint32_t vv = (x == 32u) ? v : (v & ((1u << x) - 1u));
                f.writeUINTn(i, x, vv);
                for (size_t j = 0; j < x && i + j < nb; ++j) ref[i + j] = (vv >> j) & 1u;
                if (i + x <= nb) vc_assert(f.readUINTn(i, x) == vv, "history: read back");
                break; }
            case 7: f.writeFloat(i, vc_frombits(v & 0x7F7FFFFFu)); for (size_t j = 0; j < 32u && i + j < nb; ++j) ref[i + j] = ((v & 0x7F7FFFFFu) >> j) & 1u; break;
            case 8: if ((v & 7u) == 0u) { f.setAll(); for (auto& b : ref) b = true; } break;
            default: if ((v & 7u) == 0u) { f.clearAll(); for (auto& b : ref) b = false; } break;
        }
        uint32_t r = f.readUINTn(i, x);
        for (size_t j = 0; j < 32u; ++j) vc_assert(((r >> j) & 1u) == static_cast<uint32_t>(j < x && i + j < nb && ref[i + j]), "history: readUINTn");
        uint32_t d[4] = {0}; f.dump(d, n*4u);
        for (size_t j = 0; j < nb; ++j) { vc_assert(f.readBit(j) == ref[j], "history: every bit"); vc_assert(bitOf(d, j) == ref[j], "history: dump"); }
    }
}
