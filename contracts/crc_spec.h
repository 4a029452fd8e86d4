// The parametrised CRC model (Williams / RevEng): register of W bits, MSB first, polynomial division over GF(2).
#ifndef CRC_SPEC_H
#define CRC_SPEC_H
static inline uint32_t maskW(uint32_t w){ return 0xFFFFFFFFu >> (32u - w); }
static uint32_t spec_refl(uint32_t x, uint32_t n){
    uint32_t r = 0u;
    for (uint32_t i = 0u; i < n; ++i) if ((x >> i) & 1u) r |= 1u << (n - 1u - i);
    return r;
}
static uint32_t spec_step(uint32_t reg, uint32_t byte, uint32_t w, uint32_t poly){
    reg ^= byte << (w - 8u);
    for (int k = 0; k < 8; ++k) {
        bool top = ((reg >> (w - 1u)) & 1u) != 0u;
        reg = (reg << 1u) & maskW(w);
        if (top) reg ^= poly & maskW(w);
    }
    return reg & maskW(w);
}
#endif
