// Forced include: shrinks the 64 KB packet buffers to the size named by the harness (a stated bound).
#include "reliable_multicast.h"
#ifdef VP_MAX_PACKET
#undef RMC_MAX_PACKET
#define RMC_MAX_PACKET VP_MAX_PACKET
#undef RMC_MAX_PAYLOAD
#define RMC_MAX_PAYLOAD VP_MAX_PAYLOAD
#endif
#ifdef VP_SOLVER
// Copies of a symbolic length: cbmc's own memcpy loses precision there, so they are spelled out byte by byte.
#include <string.h>
#ifdef VP_MAX_PACKET
#define VP_COPY_CAP VP_MAX_PACKET
#else
#define VP_COPY_CAP 64
#endif
static inline uint64_t vp_le4(const unsigned char* b)
{
    return (uint64_t) b[0] | ((uint64_t) b[1] << 8) | ((uint64_t) b[2] << 16) | ((uint64_t) b[3] << 24);
}
static inline uint64_t vp_le8(const unsigned char* b) { return vp_le4(b) | (vp_le4(b + 4) << 32); }
static inline void* vp_memcpy(void* d, const void* s, size_t n)
{
    size_t i;
    __CPROVER_assert(n <= VP_COPY_CAP, "VP copy no longer than the largest buffer");
    // Same bytes, written in the units of the protocol headers, so that constants stay constants.
    if (n == 20 && __CPROVER_OBJECT_SIZE(d) == 20) {
        const unsigned char* b = s;
        *(uint64_t*) d = vp_le8(b);
        *(uint32_t*) ((unsigned char*) d + 8) = (uint32_t) vp_le4(b + 8);
        *(uint16_t*) ((unsigned char*) d + 12) = (uint16_t) (b[12] | (b[13] << 8));
        *(uint32_t*) ((unsigned char*) d + 14) = (uint32_t) vp_le4(b + 14);
        *(uint16_t*) ((unsigned char*) d + 18) = (uint16_t) (b[18] | (b[19] << 8));
        return d;
    }
    if (n == 16 && __CPROVER_OBJECT_SIZE(d) == 16) {
        *(uint64_t*) d = vp_le8(s);
        *(uint64_t*) ((unsigned char*) d + 8) = vp_le8((const unsigned char*) s + 8);
        return d;
    }
    if (n == 2 && __CPROVER_OBJECT_SIZE(d) == 2) {
        *(uint16_t*) d = (uint16_t) (((const unsigned char*) s)[0] | (((const unsigned char*) s)[1] << 8));
        return d;
    }
    for (i = 0; i < VP_COPY_CAP; ++i) {
        if (i >= n) break;
        ((unsigned char*) d)[i] = ((const unsigned char*) s)[i];
    }
    return d;
}
static inline void* vp_memmove(void* d, const void* s, size_t n)
{
    unsigned char t[VP_COPY_CAP];
    vp_memcpy(t, s, n);
    return vp_memcpy(d, t, n);
}
static inline void* vp_memset(void* d, int c, size_t n)
{
    size_t i;
    __CPROVER_assert(n <= VP_COPY_CAP, "VP fill no longer than the largest buffer");
    for (i = 0; i < VP_COPY_CAP; ++i) {
        if (i >= n) break;
        ((unsigned char*) d)[i] = (unsigned char) c;
    }
    return d;
}
#define memcpy(d, s, n) (__builtin_constant_p(n) && (n) > VP_COPY_CAP ? memcpy(d, s, n) : vp_memcpy(d, s, n))
#define memmove(d, s, n) (__builtin_constant_p(n) ? memmove(d, s, n) : vp_memmove(d, s, n))
#define memset(d, c, n) (__builtin_constant_p(n) ? memset(d, c, n) : vp_memset(d, c, n))
#endif
