// C10: several datagrams wait at once, valid ones among damaged, empty and foreign ones; reading until none is left delivers
// every valid one.
#define VP_NPAY 8
#define VP_PAYLEN 8
#define VP_NDGRAM 1
#define VP_STREAM 128
#define VP_MAXCONN 2
#define VP_OWN_RECVFROM2
#include "vp_world.h"
static rmc_sub_context_t* ctx;
static vp_packet_t q[ND];
static uint32_t qlen[ND], qn, qpos;
ssize_t vp_recvfrom(int fd, void* buf, size_t len, int flags, struct sockaddr* a, socklen_t* l)
{
    uint32_t n;
    if (qpos == qn) { errno = EAGAIN; return -1; }
    n = qlen[qpos];
    VP_ASSERT(len >= n, "there is room for a datagram");
    VP_COPY(buf, &q[qpos], n, sizeof(vp_packet_t));
    ((struct sockaddr_in*) a)->sin_addr.s_addr = htonl(0x7f000009);
    qpos++;
    return n;
}
void harness(void)
{
    uint8_t op, kind, byte[ND], nv = 0, i, calls = 0;
    ctx = vp_sub_new(77, 2);
    VP_ASSERT(rmc_sub_activate_context(ctx) == 0, "activation succeeds");
    vp_packet(&q[0], 0, 5, 0x7f000001, VP_CTRL_PORT, 0); qlen[0] = sizeof(q[0].h); qn = 1;
    VP_ASSERT(rmc_sub_read(ctx, RMC_MULTICAST_INDEX, &op) == 0, "an announcement is read");
    VP_ASSERT(rmc_sub_write(ctx, 0, &op) == 0, "the subscription is set up");
    qn = ND; qpos = 0;
    for (i = 0; i < ND; ++i) {
        kind = vp_range8(0, 5);
        vp_packet(&q[i], 10 + nv, 5, 0x7f000001, VP_CTRL_PORT, 2);
        q[i].p[0] = vp_u8(); q[i].p[1] = vp_u8();
        qlen[i] = sizeof(q[i].h) + 2;
        switch (kind) {
        case 0: byte[nv++] = q[i].p[1]; break;                      // the next packet
        case 1: qlen[i] = vp_range(1, sizeof(q[i].h) + 1); break;   // cut short
        case 2: qlen[i] = 0; break;                                 // empty
        case 3: q[i].h.pid = vp_u64(); q[i].h.listen_port++; VP_ASSUME(q[i].h.pid); break;   // from somebody we are not connected to
        case 4: q[i].h.pid = 0; break;                              // an announcement we know
        case 5: q[i].h.payload_len = vp_u16(); VP_ASSUME(q[i].h.payload_len > 2); break;     // claims more than it has
        }
    }
    while (qpos < qn) {
        rmc_sub_read(ctx, RMC_MULTICAST_INDEX, &op);
        VP_ASSERT(++calls <= ND, "every read takes at least one datagram");
    }
    VP_ASSERT(rmc_sub_get_dispatch_ready_count(ctx) == nv, "every valid packet is delivered");
    for (i = 0; i < nv; ++i) {
        sub_packet_t* p = rmc_sub_get_next_dispatch_ready(ctx);
        VP_ASSERT(p->pid == 10 + i && rmc_sub_packet_payload_len(p) == 2 && ((uint8_t*) rmc_sub_packet_payload(p))[1] == byte[i], "it is delivered intact");
        rmc_sub_packet_dispatched(ctx, p);
    }
    VP_ASSERT(rmc_sub_get_publisher_count(ctx) == 1, "no other connection is opened");
    VP_REACH(nv == ND, "all valid");
    VP_REACH(nv == 0, "none valid");
    VP_WITNESS("end");
}
