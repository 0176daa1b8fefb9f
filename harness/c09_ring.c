// C09: the byte ring is a FIFO. The state before the checked operation is reached through the API with symbolic
// amounts (every position and fill level), the bytes are symbolic, the operation's arguments are symbolic at full width.
#include "vp.h"
#include "circular_buffer.h"
#include <string.h>
#ifdef VP_SOLVER
uint64_t vp_rec;
#endif
#ifndef CAP
#define CAP 9
#endif

static uint8_t mem[CAP + 2];  // guard byte on each side
static uint8_t model[2 * CAP];    // contents, oldest first
static uint32_t model_len;
static circ_buf_t cb;

static void put(uint32_t n)  // n <= free
{
    uint8_t *s1 = 0, *s2 = 0;
    uint32_t l1 = 0, l2 = 0, i;
    int res = circ_buf_alloc(&cb, n, &s1, &l1, &s2, &l2);
    VP_ASSERT(res == 0 && l1 <= n && l1 + l2 == n, "alloc within the free space succeeds in full");
    for (i = 0; i < CAP; ++i)
        if (i < n) {
            uint8_t b = vp_u8();
            uint8_t* p = i < l1 ? s1 + i : s2 + (i - l1);
            VP_ASSERT(p >= mem + 1 && p < mem + 1 + CAP, "segments lie inside the buffer");
            *p = b;
            model[model_len + i] = b;
        }
    model_len += n;
}

static void take(uint32_t n) // any n
{
    uint32_t left = 0xffffffff, i;
    circ_buf_free(&cb, n, &left);
    if (n > model_len) n = model_len;
    for (i = 0; i < CAP; ++i)
        if (i + n < model_len)
            model[i] = model[i + n];
    model_len -= n;
    VP_ASSERT(left == model_len, "free reports the bytes left");
}

static void same_as_model(void)
{
    uint8_t out[CAP];
    uint32_t got = 0, i;
    VP_ASSERT(circ_buf_in_use(&cb) == model_len, "in-use count equals the bytes stored");
    VP_ASSERT(circ_buf_available(&cb) == CAP - 1 - model_len, "available count is capacity minus bytes stored");
    VP_ASSERT(circ_buf_read(&cb, out, CAP, &got) == 0 && got == model_len, "read returns all stored bytes");
    for (i = 0; i < CAP; ++i)
        if (i < model_len)
            VP_ASSERT(out[i] == model[i], "bytes come out in the order they went in");
    VP_ASSERT(mem[0] == 0xA5 && mem[CAP + 1] == 0x5A, "nothing outside the buffer is written");
}

void harness(void)
{
    uint32_t n, i, off, got = 0;
    uint8_t out[CAP + 1];
    uint8_t *s1 = 0, *s2 = 0;
    uint32_t l1 = 0, l2 = 0;
    int res;

    mem[0] = 0xA5; mem[CAP + 1] = 0x5A;
    circ_buf_init(&cb, mem + 1, CAP);
    n = vp_range(0, CAP - 1); put(n);
    n = vp_range(0, CAP - 1); take(n);
    n = vp_range(0, CAP - 1); VP_ASSUME(n <= CAP - 1 - model_len); put(n);
    n = vp_range(0, CAP - 1); take(n);
    n = vp_range(0, CAP - 1); VP_ASSUME(n <= CAP - 1 - model_len); put(n);
#if OP == 0 // alloc, and write through the segments
    n = vp_u32();
    if (n > CAP - 1 - model_len) {
        res = circ_buf_alloc(&cb, n, &s1, &l1, &s2, &l2);
        VP_ASSERT(res != 0, "alloc beyond the free space is refused");
        VP_WITNESS("alloc refused");
    } else
        put(n);
#elif OP == 1 // free
    n = vp_u32();
    take(n);
    VP_REACH(n == 1 && model_len == 1, "free in part");
#elif OP == 2 // trim
    n = vp_u32();
    circ_buf_trim(&cb, n);
    VP_REACH(n == 1 && model_len > 1, "trim cuts");
    if (n < model_len) model_len = n;
#elif OP == 3 // read at an offset
    off = vp_u32();
    n = vp_range(0, CAP);
    memset(out, 0x77, sizeof(out));
    res = circ_buf_read_offset(&cb, off, out, n, vp_flag() ? &got : 0);
    if (off > model_len)
        VP_ASSERT(res != 0, "read past the stored bytes is refused");
    else {
        uint32_t want = model_len - off < n ? model_len - off : n;
        VP_ASSERT(res == 0 && (got == 0 || got == want), "read returns what is there");
        for (i = 0; i <= CAP; ++i)
            VP_ASSERT(out[i] == (i < want ? model[off + i] : 0x77), "read at an offset returns the bytes at that offset and no more");
        VP_REACH(off == 1 && want == 1 && CAP > 2, "read in the middle");
    }
#elif OP == 4 // partial segments
    n = vp_u32();
    res = circ_buf_read_segment(&cb, n, &s1, &l1, &s2, &l2);
    if (n > model_len) n = model_len;
    VP_ASSERT(res == 0 && l1 <= n && l1 + l2 == n, "segments hold what was asked for");
    for (i = 0; i < CAP; ++i)
        if (i < n)
            VP_ASSERT((i < l1 ? s1[i] : s2[i - l1]) == model[i], "segments hold the oldest bytes in order");
    VP_REACH(l2 == 1, "segments wrap");
#endif
    same_as_model();
    VP_WITNESS("end");
}
