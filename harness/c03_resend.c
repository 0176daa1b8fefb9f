// C03: packets resent on the control channel, from publisher to subscriber, at every position in both buffers around the wrap
// and for every split of the last packet into one partial write and partial reads.
#define VP_NPAY 6
#define VP_PAYLEN RMC_MAX_PAYLOAD
#define VP_NDGRAM 4
#define VP_DGRAM_LEN RMC_MAX_PACKET
#define VP_STREAM (RMC_MAX_PACKET + 64)
static unsigned wr_chunk, rd_chunk;
#define VP_WRITE_CHUNK(n) (wr_chunk && wr_chunk < (n) ? wr_chunk : (n))
#define VP_READ_CHUNK(n) (rd_chunk && rd_chunk < (n) ? rd_chunk : (n))
#include "vp_world.h"
static rmc_pub_context_t* pub;
static rmc_sub_context_t* sub;
static int pfd, sfd;
static uint32_t len[3];

static uint32_t carry;      // bytes of the packet before still to be written
static int next;            // packet to be delivered next
static void delivered(void)
{
    int k, i = next++;
    sub_packet_t* p = rmc_sub_get_next_dispatch_ready(sub);
    VP_ASSERT(p->pid == i + 1, "it arrives with its id");
    VP_ASSERT(rmc_sub_packet_payload_len(p) == len[i], "it arrives with its length");
    for (k = 0; k < 10; ++k)
        if (k < len[i]) {
            VP_ASSERT(((uint8_t*) rmc_sub_packet_payload(p))[k] == vp_pay[i][k], "it arrives with its bytes");
            VP_ASSERT(((uint8_t*) rmc_sub_packet_payload(p))[len[i] - 1 - k] == vp_pay[i][len[i] - 1 - k], "it arrives with its last bytes");
        }
    rmc_sub_packet_dispatched(sub, p);
}
// hold: bytes that stay in the publisher's buffer, so that it does not start over at its beginning.
static void resend(int i, int split, uint32_t hold)
{
    uint32_t total = carry + 21 + len[i], w = 0, r = 0, k;
    uint8_t op;
    packet_header_t* h;
    VP_ASSERT(vp_pub_queue(pub, i, len[i]) == 0, "a packet is queued");
    VP_ASSERT(rmc_pub_write(pub, RMC_MULTICAST_INDEX, 0) == 0, "a packet is sent");
    vp_now += RMC_DEFAULT_PACKET_TIMEOUT;
    VP_ASSERT(rmc_pub_timeout_process(pub) == 0, "a packet can be resent once the buffer has drained");
    VP_REACH(i == 2 && pub->conn_vec.connections[0].write_buf.stop_ind == 4, "a resend wraps in the send buffer");
    vp_tx[pfd].len = 0;
    vp_rx[sfd].len = vp_rx[sfd].pos = 0;
    if (split) {
        w = vp_pick(0, WMAX); r = vp_pick(0, RMAX);
        VP_ASSUME(w < total && r < total);
#ifdef NEAR   // splits at the two ends of the packet
        if (vp_flag() && w) w += total - WMAX - 1;
        if (vp_flag() && r) r += total - RMAX - 1;
#endif
    }
    if (w) {
        wr_chunk = w;
        VP_ASSERT(rmc_pub_write(pub, 0, &op) == 0, "the channel takes bytes");
        VP_ASSERT(vp_tx[pfd].len == w, "no more bytes than the channel takes");
    }
    wr_chunk = total - w - hold;
    VP_ASSERT(rmc_pub_write(pub, 0, &op) == 0, "the rest follows");
    VP_ASSERT(vp_tx[pfd].len == total - hold, "a resent packet is command, header and payload");
    h = (packet_header_t*) (vp_tx[pfd].b + carry + 1);
    VP_ASSERT(vp_tx[pfd].b[carry] == RMC_CMD_PACKET && h->node_id == 5 && h->listen_ip == 0x7f000001 && h->listen_port == VP_CTRL_PORT, "the header is that of the publisher");
    if (!hold) VP_ASSERT(rmc_pub_write(pub, 0, &op) == ENODATA, "then there is nothing left");
    VP_REACH(i == 2 && sub->conn_vec.connections[0].read_buf.stop_ind + total == RMC_MAX_PACKET + 4, "a resend wraps in the receive buffer");
    vp_stream_put(&vp_rx[sfd], vp_tx[pfd].b, total - hold);
    if (r) {
        rd_chunk = r;
        rmc_sub_read(sub, 0, &op);
        VP_ASSERT(rmc_sub_get_dispatch_ready_count(sub) == (carry && r >= carry), "an incomplete packet is not delivered");
        rd_chunk = 0;
    }
    for (k = 0; k < 2; ++k)
        if (vp_rx[sfd].pos < vp_rx[sfd].len) {
            int res = rmc_sub_read(sub, 0, &op);
            VP_ASSERT((res == 0 || res == EAGAIN) && op == RMC_READ_TCP, "the rest is read");
        }
    VP_ASSERT(vp_rx[sfd].pos == vp_rx[sfd].len, "all is read");
    VP_ASSERT(rmc_sub_get_dispatch_ready_count(sub) == (carry != 0) + !hold, "the packet arrives");
    if (carry) delivered();
    if (!hold) delivered();
    carry = hold;
}
void harness(void)
{
    int i, k;
    vp_pay_next = 3;
    vp_addr[1] = 0x7f000001;
    pub = vp_pub_new(5, 1);
    VP_ASSERT(rmc_pub_activate_context(pub) == 0, "activation succeeds");
    sub = vp_sub_new(6, 1);
    VP_ASSERT(rmc_sub_activate_context(sub) == 0, "activation succeeds");
    vp_sub_connect(sub, 0, 5, 0x7f000001, VP_CTRL_PORT);
    sfd = vp_poll_fd[VP_SUB];
    vp_pub_accept(pub, 0x7f000001, 2000);
    pfd = vp_poll_fd[0];
    len[0] = FIRST;
    len[1] = vp_pick(LOW, HIGH);
    len[2] = LAST;
    for (i = 0; i < 3; ++i)
        for (k = 0; k < 10; ++k) {
            vp_pay[i][k] = vp_u8();
            if (len[i] >= 20) vp_pay[i][len[i] - 1 - k] = vp_u8();
        }
    resend(0, 0, 1);
    resend(1, 0, 1);
    resend(2, 1, 0);
    VP_WITNESS("end");
}
