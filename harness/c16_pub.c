// C16, publisher: any history of K calls, then the end of the context. DEFAULT: payloads from malloc(), no payload_free callback.
#ifndef HOW      // at most how many deactivations before deletion
#define HOW 2
#endif
#ifndef K
#define K 3
#endif
#ifndef NS
#define NS 2
#endif
#ifndef CONN
#define CONN 0
#endif
#ifndef PRE
#define PRE 0
#endif
#define NP (K + PRE)
#define VP_NPAY (NP + 1)
#define VP_NDGRAM (NP + K + 2)
#define VP_MAXCONN NS
#define VP_MAXFD (8 + 4 * K)
#define VP_NSTREAM VP_MAXFD
#define VP_STREAM (64 * (NP + 1))
#ifdef DEFAULT
#define VP_PUB_FREE 0
#endif
#include "vp.h"
static uint32_t may_send = 99;
extern uint32_t vp_out_n;
#define VP_SEND_ERRNO() (may_send ? (may_send--, 0) : EAGAIN)
#ifdef USERDATA     // C25: the application changes the user data before every call
static uint32_t ud_now, ud_taken[VP_NPAY];
#define VP_USER_OK(u, s) ((u).u64 >> 32 == ud_now || ((s) >= 0 && (u).u64 >> 32 == ud_taken[(s) < 0 ? 0 : (s)]))
#define VP_USER_TAKEN(s) (ud_taken[s] = ud_now)
#endif
#include "vp_world.h"
static rmc_pub_context_t* pub;
static uint8_t queued[NP + 1];
static void user_data(void)
{
#ifdef USERDATA
    user_data_t u;
    ud_now = vp_u32();
    u.u64 = (uint64_t) ud_now << 32 | VP_USER_PUB;
    VP_ASSERT(rmc_pub_set_user_data(pub, u) == 0 && rmc_pub_user_data(pub).u64 == u.u64, "user data can be changed");
#endif
}
static uint32_t np, active, refuse;
static uint8_t on_connect(rmc_pub_context_t* c, uint32_t a, uint16_t p) { return !refuse; }
static uint8_t on_announce(rmc_pub_context_t* c, void* p, payload_len_t max, payload_len_t* len)
{
    ((uint8_t*) p)[0] = 1;
    *len = vp_flag();
    return 1;
}
static void queue(void)
{
    int res;
    uint32_t len = 1;
    if (np == NP) return;
#ifdef DEFAULT
    {
        void* p = vp_malloc(2);
        res = rmc_pub_queue_packet(pub, p, len, vp_flag());
        if (res) vp_free(p);
    }
#else
    vp_pay_out[np] = 1; vp_pay_len[np] = len;
    VP_USER_TAKEN(np);
    res = rmc_pub_queue_packet(pub, vp_pay[np], len, vp_flag());
    if (res) vp_pay_out[np] = 0;
    else queued[np] = 1;
#endif
    np++;
}
static void step(void)
{
    uint32_t o = vp_pick(0, 8), s = 0, n;
    uint8_t op;
    switch (o) {
    case 0: queue(); break;
    case 1: may_send = vp_pick(0, 2); rmc_pub_write(pub, RMC_MULTICAST_INDEX, &op); may_send = 99; break;
    case 2:     // any acknowledgement
        s = NS > 1 ? vp_pick(0, NS - 1) : 0;
        if (!vp_poll_on[s]) break;
        {
            struct { uint8_t c; uint64_t a, b; } __attribute__((packed)) m = { RMC_CMD_ACK_INTERVAL };
            m.a = vp_pick(1, NP + 1); m.b = vp_flag() ? NP : m.a;
            n = vp_poll_fd[s];
            vp_rx[n].len = vp_rx[n].pos = 0;
            vp_stream_put(&vp_rx[n], &m, vp_flag() ? 17 : 9);
            rmc_pub_read(pub, s, &op);
        }
        break;
    case 3: vp_now += vp_flag() ? RMC_DEFAULT_PACKET_TIMEOUT : 10; rmc_pub_timeout_process(pub); break;
    case 4: s = NS > 1 ? vp_pick(0, NS - 1) : 0; rmc_pub_write(pub, s, &op); break;
    case 5:     // leaves
        s = NS > 1 ? vp_pick(0, NS - 1) : 0;
        if (!vp_poll_on[s]) break;
        if (vp_flag()) rmc_pub_close_connection(pub, s);
        else { vp_rx[vp_poll_fd[s]].len = vp_rx[vp_poll_fd[s]].pos = 0; rmc_pub_read(pub, s, &op); }
        break;
    case 6: if (!active) break; refuse = vp_flag(); rmc_pub_read(pub, RMC_LISTEN_INDEX, &op); refuse = 0; break;
    case 7: rmc_pub_set_announce_interval(pub, 5); break;
    case 8:
        if (active) { VP_ASSERT(rmc_pub_deactivate_context(pub) == 0, "deactivation succeeds"); active = 0; }
        else { VP_ASSERT(rmc_pub_activate_context(pub) == 0, "activation succeeds"); active = 1; }
        break;
    }
}
static void gone(void)
{
    int i;
    VP_ASSERT(vp_fd_count == 0, "every descriptor is closed");
    for (i = 0; i < VP_NSLOT; ++i) VP_ASSERT(!vp_poll_on[i], "nothing is left in the poll set");
}
void harness(void)
{
    int k, how;
    uint8_t op;
    pub = vp_pub_new(9, NS);
    user_data();
    rmc_pub_set_subscriber_connect_callback(pub, on_connect);
    rmc_pub_set_announce_callback(pub, on_announce);
    if (CONN || PRE || vp_flag()) { VP_ASSERT(rmc_pub_activate_context(pub) == 0, "activation succeeds"); active = 1; }
    for (k = 0; k < CONN; ++k) vp_pub_accept(pub, 1 + k, 1);
    for (k = 0; k < PRE; ++k) queue();
    if (PRE && CONN) rmc_pub_write(pub, RMC_MULTICAST_INDEX, &op);
    for (k = 0; k < K; ++k) { user_data(); step(); }
    how = vp_pick(0, HOW);
    for (k = 0; k < how; ++k) {
        user_data();
        VP_ASSERT(rmc_pub_deactivate_context(pub) == 0, "deactivation succeeds");
        gone();
    }
    user_data();
    VP_ASSERT(rmc_pub_delete_context(pub) == 0, "deletion succeeds");
    gone();
    VP_ASSERT(vp_heap_live == 0, "every block of memory is released");
    for (k = 0; k < NP; ++k)
        VP_ASSERT(vp_pay_frees[k] == queued[k], "every accepted payload is released once, others are not");
    VP_REACH(active && np > 1, "active with packets at the end");
    VP_WITNESS("end");
}
