// C09 at the size the library uses (RMC_MAX_PACKET): positions, counts and the place of one tracked byte through any
// operation from any state: it is found where it was put, and nothing else is put there.
#include "vp.h"
#include "reliable_multicast.h"
#include "circular_buffer.h"
#ifdef VP_SOLVER
uint64_t vp_rec;
#endif
#define CAP ((uint32_t) RMC_MAX_PACKET)

static uint8_t mem[RMC_MAX_PACKET];
static circ_buf_t cb;
static uint32_t len;
static uint8_t tracking;
static uint32_t at;   // bytes stored before the tracked one
static uint32_t place;   // where it was put

static void put(uint8_t track)
{
    uint8_t *s1 = 0, *s2 = 0;
    uint32_t l1 = 0, l2 = 0, n = vp_range(0, CAP), k = vp_range(0, CAP);
    int res = circ_buf_alloc(&cb, n, &s1, &l1, &s2, &l2);
    if (n > CAP - 1 - len) {
        VP_ASSERT(res != 0, "alloc beyond the free space is refused");
        return;
    }
    VP_ASSERT(res == 0 && l1 <= n && l1 + l2 == n, "alloc within the free space succeeds in full");
    VP_ASSERT(!l1 || (s1 >= mem && s1 + l1 <= mem + CAP), "first segment lies inside the buffer");
    VP_ASSERT(!l2 || (s2 >= mem && s2 + l2 <= mem + CAP), "second segment lies inside the buffer");
    if (tracking)
        VP_ASSERT(!(l1 && place >= s1 - mem && place < s1 - mem + l1) && !(l2 && place >= s2 - mem && place < s2 - mem + l2),
                  "space holding stored bytes is not handed out again");
    if (track && k < n) {   // one byte, anywhere in what was allocated
        tracking = 1;
        place = k < l1 ? s1 - mem + k : s2 - mem + (k - l1);
        at = len + k;
    }
    len += n;
}

static void take(void)
{
    uint32_t n = vp_range(0, CAP), left = 0;
    circ_buf_free(&cb, n, &left);
    if (n > len) n = len;
    len -= n;
    VP_ASSERT(left == len, "free reports the bytes left");
    if (tracking) {
        if (at < n) tracking = 0; else at -= n;
    }
}

static void look(void)
{
    uint8_t *s1 = 0, *s2 = 0;
    uint32_t l1 = 0, l2 = 0;
    VP_ASSERT(circ_buf_in_use(&cb) == len, "in-use count equals the bytes stored");
    VP_ASSERT(circ_buf_available(&cb) == CAP - 1 - len, "available count is capacity minus bytes stored");
    VP_ASSERT(circ_buf_read_segment(&cb, CAP, &s1, &l1, &s2, &l2) == 0 && l1 + l2 == len, "segments cover all stored bytes");
    if (tracking)
        VP_ASSERT((at < l1 ? s1 - mem + at : s2 - mem + (at - l1)) == place, "bytes come out in the order they went in");
    VP_REACH(tracking && l2 && at >= l1, "tracked byte beyond the wrap");
}

void harness(void)
{
    circ_buf_init(&cb, mem, CAP);
    // Any fill level at any position: put, take, put.
    put(0);
    take();
    put(OP != 0);
#if OP == 0
    put(1);
#elif OP == 1
    take();
#elif OP == 2
    {
        uint32_t n = vp_range(0, CAP);
        circ_buf_trim(&cb, n);
        if (n < len) len = n;
        if (at >= len) tracking = 0;
    }
#endif
    look();
    VP_WITNESS("end");
}
