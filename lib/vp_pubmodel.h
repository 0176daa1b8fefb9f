// A publisher, its subscribers, and a model of what it owes them. CHK names the property whose assertions are on.
#ifndef VP_PUBMODEL_H
#define VP_PUBMODEL_H
#ifndef NP
#define NP 2
#endif
#ifndef NS
#define NS 2
#endif
#ifndef NA
#define NA 0     // announcements the application may queue
#endif
#ifndef BIG
#define BIG 0    // 1: packets of the largest payload, two of which do not fit the connection buffer
#endif
#ifndef VP_NPAY
#define VP_NPAY (NP + NA)
#endif
#ifndef VP_PAYLEN
#define VP_PAYLEN (BIG ? RMC_MAX_PAYLOAD : 4)
#endif
#define VP_DGRAM_LEN (BIG ? RMC_MAX_PACKET : sizeof(packet_header_t) + 4)
#ifndef VP_NDGRAM
#define VP_NDGRAM (NP + NA + 1)
#endif
#ifndef VP_STREAM
#define VP_STREAM (BIG ? 2 * RMC_MAX_PACKET : 32 * (NP + 2))
#endif
#ifndef VP_NSTREAM
#define VP_NSTREAM 12
#endif
#ifndef VP_MAXCONN
#define VP_MAXCONN NS
#endif
static int vp_send_errno(void);
#define VP_SEND_ERRNO() vp_send_errno()
#include <stdint.h>
static uint32_t m_limit = 0xffffffff;   // bytes a control channel takes now; 0: it would block
#define VP_WRITE_CHUNK(n) ((n) < m_limit ? (n) : m_limit)
#include "vp_world.h"
#ifndef LEN
#define LEN(i) 2
#endif
#ifndef RING
#define RING (RMC_MAX_PACKET - 1)
#endif
#define MSG(len) (1 + sizeof(packet_header_t) + (len))
#define M_ASSERT(p, c, text) do { if (CHK == (p) || (CHK == 22 || CHK == 29) || (CHK == 4 && ((p) == 6 || (p) == 8))) VP_ASSERT(c, text); } while(0)

static rmc_pub_context_t* ctx;
static uint8_t m_queued[NP], m_sent[NP], m_owed[NP][NS], m_free[NP];
static uint32_t m_len[NP];
static usec_timestamp_t m_ts[NP];
static uint32_t m_np;            // packets accepted so far; packet i has id i + 1
static uint32_t m_next;          // the next packet to leave
static uint8_t m_ann[NA + 1];    // announcements: 1 queued, 2 sent
static uint32_t m_na;
static uint8_t m_conn[NS], m_dead[NS];
static int m_fd[NS];
static uint32_t m_buf[NS];       // bytes waiting on the control channel
static uint8_t m_tcp[NS][NP], m_tcp_n[NS];   // packets put on the control channel since it was last empty, in order
static uint32_t m_refuse_at = 0xffff;
static int m_errno = EAGAIN;
static uint32_t m_suspend, m_resume;
static uint8_t m_suspended;
static uint8_t m_active = 1;
static uint64_t m_int, m_ann_at;   // announcements: interval (0: none), and when the next is due; the application declines them all
static uint32_t m_asked;
static uint8_t m_decline(rmc_pub_context_t* c, void* p, payload_len_t max, payload_len_t* len) { m_asked++; return 0; }

static int vp_send_errno(void) { return vp_out_n >= m_refuse_at ? m_errno : 0; }

static uint32_t m_unacked(void)
{
    uint32_t i, s, n = 0;
    for (i = 0; i < NP; ++i) {
        int owed = 0;
        for (s = 0; s < NS; ++s) owed |= m_owed[i][s];
        n += owed;
    }
    return n;
}
// What an acknowledgement, a resend or a disconnect may change.
static void m_settle(void)
{
    int i, s;
    for (i = 0; i < NP; ++i) {
        int owed = 0;
        for (s = 0; s < NS; ++s) owed |= m_owed[i][s];
        if (m_sent[i] && !owed) m_free[i] = 1;
    }
}
static void m_eased(void) { if (m_suspended && m_unacked() <= m_resume) m_suspended = 0; }

static void m_check(void)
{
    uint32_t i, s, q = 0, a = 0, b = 0, rq = 99, rb = 99, ra = 99;
    usec_timestamp_t next = 0, due = -1;
    int res;
    for (i = 0; i < NP; ++i) {
        q += m_queued[i];
        for (s = 0; s < NS; ++s) a += m_owed[i][s];
        M_ASSERT(6, m_free[i] || !vp_pay_frees[i], "a payload is not released while it is needed");
        M_ASSERT(6, !m_free[i] || vp_pay_frees[i] == 1, "a payload no longer needed is released at once, and once");
        for (s = 0; s < NS; ++s)
            if (m_owed[i][s] && (due == -1 || m_ts[i] + RMC_DEFAULT_PACKET_TIMEOUT < due)) due = m_ts[i] + RMC_DEFAULT_PACKET_TIMEOUT;
    }
    for (i = 0; i < NA; ++i) {
        q += m_ann[i] == 1;
        M_ASSERT(6, vp_pay_frees[NP + i] == (m_ann[i] == 2), "an announcement's payload is released once it is sent, and once");
    }
    for (s = 0; s < NS; ++s) b += m_buf[s];
    res = rmc_pub_context_get_pending(ctx, &rq, &rb, &ra);
    M_ASSERT(19, rq == q, "packets still queued are counted");
    M_ASSERT(19, rb == b, "bytes waiting on control channels are counted");
    M_ASSERT(19, ra == a, "acknowledgements awaited are counted");
    M_ASSERT(19, (res == EBUSY) == (q || a || b) && (res == EBUSY || res == 0), "work is pending if and only if something is");
    M_ASSERT(19, rmc_pub_queue_length(ctx) == q, "queue length is the number of packets queued");
    if (CHK == 19 || CHK == 22 || CHK == 29) {
        VP_ASSERT(rmc_pub_context_get_pending(ctx, 0, 0, 0) == res, "the pending query answers the same without result pointers");
        if (!res)
            for (i = 0; i < NP; ++i)
                VP_ASSERT(i >= m_np || vp_pay_frees[i] == 1, "nothing pending means every payload was released");
    }
    for (s = 0; s < NS; ++s)
        if (m_conn[s]) {
            res = rmc_pub_context_has_pending_send(ctx, s);
            M_ASSERT(19, res == (m_buf[s] ? EBUSY : 0), "pending bytes are reported per connection");
            M_ASSERT(18, vp_poll_on[s], "an open connection is in the poll set");
            M_ASSERT(18, vp_poll_fd[s] == m_fd[s], "a connection is in the poll set under its own index");
            M_ASSERT(18, vp_poll_act[s] & RMC_POLLREAD, "an open connection is watched for reading");
            M_ASSERT(18, !(vp_poll_act[s] & RMC_POLLWRITE) == !m_buf[s], "a connection is watched for writing exactly while it has bytes to send");
        } else
            M_ASSERT(18, !vp_poll_on[s], "a closed connection is not in the poll set");
    M_ASSERT(18, !(vp_poll_act[VP_SLOT_MCAST] & RMC_POLLWRITE) == !(m_active && q), "the multicast socket is watched for writing exactly while packets are queued");
    M_ASSERT(18, vp_poll_on[VP_SLOT_MCAST] == m_active, "the multicast socket is in the poll set");
    M_ASSERT(18, vp_poll_on[VP_SLOT_LISTEN] == m_active && (!m_active || vp_poll_act[VP_SLOT_LISTEN] & RMC_POLLREAD), "the listening socket is watched for reading");
    M_ASSERT(18, !m_active || (vp_poll_act[VP_SLOT_LISTEN] & RMC_POLLREAD), "the listening socket is watched for reading");
    if (m_int && (due == -1 || (usec_timestamp_t) m_ann_at < due)) due = m_ann_at;
    if (CHK == 8 || CHK == 22 || CHK == 29) {
        VP_ASSERT(rmc_pub_timeout_get_next(ctx, &next) == 0, "the next timeout can be asked for");
        VP_ASSERT(due == -1 || (next != -1 && next <= due), "the next timeout is no later than the first resend due");
        VP_ASSERT(due != -1 || next == -1, "no timeout is named when none is due");
    }
    if (CHK == 32) {
        VP_ASSERT(rmc_pub_timeout_get_next(ctx, &next) == 0, "the next timeout can be asked for");
        VP_ASSERT(next == due, "the next timeout is when the first resend or announcement is due");
    }
    if (CHK == 14 || CHK == 22 || CHK == 29) {
        res = rmc_pub_traffic_suspended(ctx);
        VP_ASSERT(res == (m_suspended ? EBUSY : 0), "suspended from the suspend threshold until the resume threshold");
    }
}

static void m_start(void)
{
    int i;
    for (i = 0; i < NP; ++i) m_len[i] = LEN(i);
    ctx = vp_pub_new(5, NS);
    VP_ASSERT(rmc_pub_activate_context(ctx) == 0, "activation succeeds");
}
static void m_throttle(uint32_t suspend, uint32_t resume)
{
    m_suspend = suspend; m_resume = resume;
    VP_ASSERT(rmc_pub_throttling(ctx, suspend, resume) == 0, "thresholds are accepted");
}
// Connects at the first free slot.
static void m_connect(int s)
{
    vp_pub_accept(ctx, 0x7f000001, 2000 + s);
    m_conn[s] = 1; m_buf[s] = 0; m_tcp_n[s] = 0; vp_tx[vp_fd_next - 1].len = 0;
    m_fd[s] = vp_fd_next - 1;
    VP_ASSERT(vp_poll_on[s] && vp_poll_fd[s] == m_fd[s], "a new connection takes the free slot");
}
static int m_queue(void)
{
    int i = m_np, j, res;
    uint32_t before = rmc_pub_queue_length(ctx);
    for (j = 0; j < 4; ++j) vp_pay[i][j] = vp_u8();
    res = vp_pub_queue(ctx, i, m_len[i]);
    M_ASSERT(14, res == (m_suspended ? EBUSY : 0), "a packet is refused exactly while suspended");
    M_ASSERT(14, rmc_pub_queue_length(ctx) == before + !res, "a refused packet leaves no trace");
    M_ASSERT(7, res == 0, "a packet is accepted");
    if (!res) {
        m_queued[i] = 1; m_np++;
        if (m_suspend && m_unacked() >= m_suspend) m_suspended = 1;
    }
    return res;
}
static int m_announce(void)
{
    int i = m_na, res;
    vp_pay_out[NP + i] = 1; vp_pay_len[NP + i] = 1;
    vp_pay[NP + i][0] = 0x40 + i;
    res = rmc_pub_queue_packet(ctx, vp_pay[NP + i], 1, 1);
    M_ASSERT(7, res == 0, "an announcement is accepted");
    m_ann[i] = 1; m_na++;
    return res;
}
// The multicast socket is writable and takes n more datagrams.
static int m_send(uint32_t n)
{
    int i, s, res;
    uint32_t before = vp_out_n, k = before, j, pend = 0;
    for (i = 0; i < NP; ++i) pend += m_queued[i];
    for (i = 0; i < NA; ++i) pend += m_ann[i] == 1;
    if (!m_active) n = 0;
    m_refuse_at = vp_out_n + n;
    res = rmc_pub_write(ctx, RMC_MULTICAST_INDEX, 0);
    m_refuse_at = 0xffff;
    M_ASSERT(7, vp_out_n - before == (n < pend ? n : pend), "everything queued is sent as far as the socket takes it, and nothing else");
    M_ASSERT(7, res == (n < pend ? (m_active ? m_errno : ENOTCONN) : 0), "a refusal by the socket is reported");
    for (j = before; j < vp_out_n; ++j) {
        packet_header_t* h = (packet_header_t*) vp_out[j].b;
        uint8_t* p = vp_out[j].b + sizeof(*h);
        if (h->pid == 0) {
            uint32_t a = p[0] - 0x40;
            M_ASSERT(7, NA && vp_out[j].len == sizeof(*h) + 1 && a < NA && m_ann[a] == 1, "id 0 is an announcement that was queued, sent once");
            if (a < NA) m_ann[a] = 2;
            continue;
        }
        M_ASSERT(7, h->pid == m_next + 1, "packets leave in queueing order, numbered from 1, each once");
        i = m_next++;
        if (i >= NP) return res;
        M_ASSERT(7, vp_out[j].len == sizeof(*h) + m_len[i] && !memcmp(p, vp_pay[i], 2), "a packet is sent with its own payload");
        m_queued[i] = 0; m_sent[i] = 1; m_ts[i] = vp_now;
        for (s = 0; s < NS; ++s) m_owed[i][s] = m_conn[s];
    }
    m_settle();
    return res;
}
static void m_ack(int s, uint64_t first, uint64_t last)
{
    cmd_ack_interval_t a;
    uint8_t cmd = RMC_CMD_ACK_INTERVAL, op;
    int i;
    a.first_pid = first; a.last_pid = last;
    vp_rx[m_fd[s]].len = vp_rx[m_fd[s]].pos = 0;
    vp_stream_put(&vp_rx[m_fd[s]], &cmd, 1);
    vp_stream_put(&vp_rx[m_fd[s]], &a, sizeof(a));
    VP_ASSERT(rmc_pub_read(ctx, s, &op) == 0, "an acknowledgement is read");
    for (i = 0; i < NP; ++i)
        if (m_owed[i][s] && first <= i + 1 && i + 1 <= last) { m_owed[i][s] = 0; m_settle(); m_eased(); }
}
static void m_resend_model(void)
{
    int i, s;
    for (s = 0; s < NS; ++s) {
        int stop = 0;
        for (i = 0; i < NP; ++i)
            if (m_owed[i][s] && !stop && m_ts[i] + RMC_DEFAULT_PACKET_TIMEOUT <= vp_now) {
                if (m_buf[s] + MSG(m_len[i]) > RING) { stop = 1; continue; }
                m_buf[s] += MSG(m_len[i]);
                m_tcp[s][m_tcp_n[s]++] = i;
                m_owed[i][s] = 0;
                m_settle(); m_eased();
            }
    }
}
static int m_timeout(uint32_t dt)
{
    int res;
    vp_now += dt;
    m_asked = 0;
    res = rmc_pub_timeout_process(ctx);
    if (m_int && m_ann_at <= vp_now) {
        m_ann_at = vp_now + m_int;
        if (CHK == 32) VP_ASSERT(m_asked == 1, "an announcement is due when its time has come");
    } else if (CHK == 32) VP_ASSERT(!m_asked, "no announcement is due before its time");
    m_resend_model();
    return res;
}
// The connection is writable and takes up to limit bytes; once it has sent all, what arrived is the packets put there, in order.
static void m_drain(int s, uint32_t limit)
{
    uint8_t op = 0;
    int k, fd = m_fd[s], res;
    uint32_t at = 0, before, n = m_buf[s] < limit ? m_buf[s] : limit;
    before = vp_tx[fd].len;
    m_limit = limit;
    res = rmc_pub_write(ctx, s, &op);
    m_limit = 0xffffffff;
    M_ASSERT(8, m_buf[s] ? res == (limit ? 0 : EAGAIN) : res == ENODATA, "a connection sends when it has something to send");
    M_ASSERT(8, vp_tx[fd].len - before == n, "as many bytes leave as the connection takes");
    m_buf[s] -= n;
    if (m_buf[s] || !m_tcp_n[s]) return;
    for (k = 0; k < NP; ++k)
        if (k < m_tcp_n[s]) {
            int i = m_tcp[s][k];
            packet_header_t* h = (packet_header_t*) (vp_tx[fd].b + at + 1);
            M_ASSERT(8, vp_tx[fd].b[at] == RMC_CMD_PACKET && h->pid == i + 1, "packets due are resent oldest first, each once");
            M_ASSERT(8, h->payload_len == m_len[i] && !memcmp(h + 1, vp_pay[i], m_len[i] < 2 ? m_len[i] : 2), "a resent packet carries its own payload");
            at += MSG(m_len[i]);
        }
    M_ASSERT(8, vp_tx[fd].len == at, "exactly the packets due are on the control channel");
    m_tcp_n[s] = 0;
    vp_tx[fd].len = 0;
}
static void m_disconnect(int s, int eof)
{
    int i;
    uint8_t op;
    vp_rx[m_fd[s]].len = vp_rx[m_fd[s]].pos = 0;
    if (eof)
        rmc_pub_read(ctx, s, &op);
    else
        rmc_pub_close_connection(ctx, s);
    m_conn[s] = 0; m_buf[s] = 0; m_tcp_n[s] = 0;
    for (i = 0; i < NP; ++i) m_owed[i][s] = 0;
    m_settle(); m_eased();
}
// The publisher is stopped, or started again.
static void m_switch(void)
{
    int i, s;
    if (!m_active) {
        VP_ASSERT(rmc_pub_activate_context(ctx) == 0, "a stopped publisher can be started again");
        m_active = 1;
        return;
    }
    VP_ASSERT(rmc_pub_deactivate_context(ctx) == 0, "a publisher can be stopped");
    m_active = 0;
    for (s = 0; s < NS; ++s) {
        m_conn[s] = 0; m_buf[s] = 0; m_tcp_n[s] = 0;
        for (i = 0; i < NP; ++i) m_owed[i][s] = 0;
    }
    m_settle(); m_eased();
}
#endif
