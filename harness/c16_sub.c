// C16, subscriber: any history of K events, then the end of the context. DEFAULT: no payload callbacks, memory from malloc().
#ifndef HOW      // at most how many deactivations before deletion
#define HOW 2
#endif
#ifndef K
#define K 3
#endif
#ifndef NPUB
#define NPUB 2
#endif
#ifndef CONN
#define CONN 0
#endif
#define VP_NPAY (K + 2)
#define VP_PAYLEN 4
#define VP_MAXCONN NPUB
#define VP_MAXFD (8 + 4 * K)
#define VP_NSTREAM VP_MAXFD
#define VP_STREAM (64 * (K + 1))
#ifdef DEFAULT
#define VP_SUB_ALLOC 0
#define VP_SUB_FREE 0
#endif
#include "vp.h"
#ifdef USERDATA     // C25: the application changes the user data before every call
static uint32_t ud_now, ud_taken[VP_NPAY];
#define VP_USER_OK(u, s) ((u).u64 >> 32 == ud_now || ((s) >= 0 && (u).u64 >> 32 == ud_taken[(s) < 0 ? 0 : (s)]))
#define VP_USER_TAKEN(s) (ud_taken[s] = ud_now)
#endif
#include "vp_world.h"
static rmc_sub_context_t* sub;
static uint32_t active, kept;
static uint8_t took[VP_NPAY];
static void user_data(void)
{
#ifdef USERDATA
    user_data_t u;
    ud_now = vp_u32();
    u.u64 = (uint64_t) ud_now << 32 | VP_USER_SUB;
    VP_ASSERT(rmc_sub_set_user_data(sub, u) == 0 && rmc_sub_user_data(sub).u64 == u.u64, "user data can be changed");
#endif
}
static void step(void)
{
    uint32_t o = vp_pick(0, 7), w = 0, n;
    vp_packet_t p;
    uint8_t op;
    sub_packet_t* pack;
    if (NPUB > 1 && o != 4 && o != 6 && o != 7) w = vp_pick(0, NPUB - 1);
    switch (o) {
    case 0:     // a datagram: announcement or packet, of a publisher known or not
        p.p[0] = 7; p.p[1] = 8;
        n = 1;
        { uint32_t pid = vp_pick(0, 3); vp_packet(&p, pid, 5 + w, 0x0a000001 + w, 2000, n); }
        if (active) vp_sub_datagram(sub, &p, sizeof(p.h) + n);
        break;
    case 1: rmc_sub_write(sub, w, &op); break;          // completes, or sends what waits
    case 2: vp_so_error = ECONNREFUSED; rmc_sub_write(sub, w, &op); vp_so_error = 0; break;
    case 3:     // a resend, whole or in part, or bytes that make no sense, or the end of the stream
        if (!vp_poll_on[VP_SUB + w]) break;
        n = vp_poll_fd[VP_SUB + w];
        vp_rx[n].len = vp_rx[n].pos = 0;
        {
            struct { uint8_t c; packet_header_t h; uint8_t b[1]; } __attribute__((packed)) m = { RMC_CMD_PACKET };
            uint32_t how = vp_pick(0, 3), pid = how == 1 ? vp_pick(1, 3) : 1;
            m.h.pid = pid; m.h.payload_len = 1; m.b[0] = 3;
            if (how == 2) m.c = 99;
            if (how) vp_stream_put(&vp_rx[n], &m, how == 3 ? 20 : sizeof(m));
        }
        rmc_sub_read(sub, w, &op);
        break;
    case 4: vp_now += vp_flag() ? RMC_DEFAULT_ACK_TIMEOUT : 10; rmc_sub_timeout_process(sub); break;
    case 5: rmc_sub_close_connection(sub, w); break;
    case 6:     // the application takes a packet
        pack = rmc_sub_get_next_dispatch_ready(sub);
        if (!pack) break;
        if (vp_flag()) {
            void* q = rmc_sub_packet_payload(pack);
            VP_ASSERT(rmc_sub_packet_dispatched_keep_payload(sub, pack) == 0, "a packet can be taken");
            kept++;
#ifdef DEFAULT
            vp_free(q);
#else
            VP_ASSERT(vp_pay_slot(q) >= 0, "payload memory is the application's");
            took[vp_pay_slot(q)] = 1;
#endif
        } else VP_ASSERT(rmc_sub_packet_dispatched(sub, pack) == 0, "a packet can be taken");
        break;
    case 7:
        if (active) { VP_ASSERT(rmc_sub_deactivate_context(sub) == 0, "deactivation succeeds"); active = 0; }
        else { VP_ASSERT(rmc_sub_activate_context(sub) == 0, "activation succeeds"); active = 1; }
        break;
    }
}
static void gone(void)
{
    uint32_t i;
    VP_ASSERT(vp_fd_count == 0, "every descriptor is closed");
    for (i = 0; i < VP_NSLOT; ++i) VP_ASSERT(!vp_poll_on[VP_SUB + i], "nothing is left in the poll set");
    for (i = 0; i < VP_NPAY; ++i)
        if (i < vp_pay_next) VP_ASSERT(vp_pay_frees[i] == !took[i], "every payload is released once, but those taken over are left alone");
}
void harness(void)
{
    uint32_t k, how;
    sub = vp_sub_new(9, NPUB);
    user_data();
    if (CONN || vp_flag()) { VP_ASSERT(rmc_sub_activate_context(sub) == 0, "activation succeeds"); active = 1; }
    for (k = 0; k < CONN; ++k) vp_sub_connect(sub, k, 5 + k, 0x0a000001 + k, 2000);
    for (k = 0; k < K; ++k) { user_data(); step(); }
    how = vp_pick(0, HOW);
#if CONN
    VP_REACH(active && rmc_sub_get_dispatch_ready_count(sub), "undelivered packets at the end");
#endif
    for (k = 0; k < how; ++k) {
        user_data();
        VP_ASSERT(rmc_sub_deactivate_context(sub) == 0, "deactivation succeeds");
        gone();
    }
    user_data();
    VP_ASSERT(rmc_sub_delete_context(sub) == 0, "deletion succeeds");
    gone();
    VP_ASSERT(vp_heap_live <= kept, "every block of memory is released");
#if CONN
    VP_REACH(kept, "a payload taken over");
#endif
    VP_WITNESS("end");
}
