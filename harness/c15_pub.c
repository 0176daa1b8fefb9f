// C15, publisher: announcements at any times, intervals, payloads and decisions of the callback.
#ifndef K
#define K 3
#endif
#ifndef LEN
#define LEN vp_range(0, 3)
#endif
#ifndef MAXLEN
#define MAXLEN 3
#endif
#ifndef NOW
#define NOW (vp_u64() >> 4) + 1
#endif
#ifndef INTERVAL
#define INTERVAL vp_u32()
#endif
#ifndef DT
#define DT vp_u64()
#endif
#define VP_NPAY 2
#define VP_NDGRAM 2
#define VP_DGRAM_LEN (20 + MAXLEN)
#include <stdint.h>
#include "vp_world.h"
static rmc_pub_context_t* pub;
static uint8_t text[MAXLEN + 1];
static uint32_t asked, len, agree;
static uint8_t on_announce(rmc_pub_context_t* c, void* p, payload_len_t max, payload_len_t* res)
{
    uint32_t i;
    VP_ASSERT(c == pub, "the context is passed");
    VP_ASSERT(max >= RMC_MAX_PAYLOAD, "there is room for a payload of the maximum size");
    asked++;
    VP_COPY(p, text, len, MAXLEN);
    *res = len;
    return agree;
}
void harness(void)
{
    uint32_t k, i, has_cb = vp_flag(), on = 0, sent = 0, later = 0, declined = 0;
    uint64_t interval = 0, due = 0, dt;
    rmc_node_id_t node = vp_u32();
    usec_timestamp_t next, sent_at;
    uint8_t op;
    VP_ASSUME(node);
    vp_addr[0] = vp_u32(); vp_addr[1] = vp_u32();
    vp_now = NOW;
    pub = vp_pub_new(node, 2);
    if (has_cb) rmc_pub_set_announce_callback(pub, on_announce);
    VP_ASSERT(rmc_pub_activate_context(pub) == 0, "activation succeeds");
#ifdef DATA   // a subscriber owes an acknowledgement meanwhile
    vp_pub_accept(pub, 0x7f000002, 99);
    vp_pub_queue(pub, 0, 1);
    VP_ASSERT(rmc_pub_write(pub, RMC_MULTICAST_INDEX, &op) == 0 && vp_out_n == 1, "a packet is sent");
    sent_at = vp_now;
#endif
    for (k = 0; k < K; ++k) {
        if (vp_flag()) {      // the application sets the interval, possibly to none
            uint32_t n = INTERVAL;
            VP_ASSERT(rmc_pub_set_announce_interval(pub, n) == 0, "an interval can be set");
            if (!n) on = 0;
            else if (!on) { on = 1; due = vp_now + n; }
            interval = n;
        }
        VP_ASSERT(rmc_pub_timeout_get_next(pub, &next) == 0, "the next timeout can be asked for");
#ifdef DATA
        if (on) VP_ASSERT(next != -1 && next <= (usec_timestamp_t) due, "the next announcement is due when the interval has passed");
#else
        if (on) VP_ASSERT(next == (usec_timestamp_t) due, "the next announcement is due when the interval has passed");
        else VP_ASSERT(next == -1, "nothing is due without announcements");
#endif
        dt = DT;
        VP_ASSUME(dt < (1ll << 34));
        vp_now += dt;
        agree = vp_flag(); asked = 0; vp_out_n = 0;
        len = LEN;
        for (i = 0; i < MAXLEN && i < 8; ++i) text[i] = vp_u8();
        if (MAXLEN > 8) text[len ? len - 1 : 0] = vp_u8();
        VP_ASSERT(rmc_pub_timeout_process(pub) == 0, "timeouts are processed");
        if (on && (int64_t) (due - vp_now) <= 0) {
            VP_ASSERT(asked == has_cb, "the application is asked, once");
            due = vp_now + interval;
            if (agree || !has_cb) {
                packet_header_t h;
                VP_ASSERT(rmc_pub_queue_length(pub) == 1 && (vp_poll_act[VP_SLOT_MCAST] & RMC_POLLWRITE), "an announcement waits to be sent");
                VP_ASSERT(rmc_pub_write(pub, RMC_MULTICAST_INDEX, &op) == 0, "an announcement is sent");
                VP_ASSERT(vp_out_n == 1 && vp_out[0].len == sizeof(h) + (has_cb ? len : 0), "one announcement of the payload's length is sent");
                VP_ASSERT(vp_out[0].addr == vp_addr[0] && vp_out[0].port == VP_GROUP_PORT, "an announcement goes to the group");
                memcpy(&h, vp_out[0].b, sizeof(h));
                VP_ASSERT(h.pid == 0 && h.node_id == node && h.listen_ip == vp_addr[1] && h.listen_port == VP_CTRL_PORT &&
                          h.payload_len == (has_cb ? len : 0), "an announcement names the publisher");
                if (has_cb && len) {
                    for (i = 0; i < MAXLEN && i < 8; ++i)
                        if (i < len) VP_ASSERT(vp_out[0].b[sizeof(h) + i] == text[i], "an announcement carries the application's payload");
                    VP_ASSERT(vp_out[0].b[sizeof(h) + len - 1] == text[len - 1], "an announcement carries the application's payload");
                }
                sent++;
            } else declined = 1;
        } else {
            VP_ASSERT(!asked, "the application is asked only when an announcement is due");
            later = 1;
        }
        VP_ASSERT(rmc_pub_queue_length(pub) == 0, "nothing else is queued");
        VP_ASSERT(rmc_pub_write(pub, RMC_MULTICAST_INDEX, &op) == 0 && vp_out_n <= 1, "nothing else is sent");
    }
    VP_REACH(sent == K && has_cb, "all sent");
    VP_REACH(later && sent && !declined, "one sent, one not due");
    VP_REACH(declined, "declined");
    VP_WITNESS("end");
}
