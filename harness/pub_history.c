// A publisher with subscribers coming and going: any history of K calls after one packet is out.
#include "vp_pubmodel.h"
#ifndef PARTIAL
#define PARTIAL 0
#endif
#ifndef EOF_TOO
#define EOF_TOO 0
#endif

#ifndef OPMASK
#define OPMASK (NA ? 0x7f : 0x3f)   // which calls; bit 7: stop and start
#endif

static int switched;
static void step(void)
{
    uint8_t op = vp_range8(0, OPMASK & 0x80 ? 7 : NA ? 6 : 5), s;
    uint64_t a, b;
    if (!(OPMASK >> op & 1)) VP_STOP();
    switch (op) {
    case 0:  // queue
        if (m_np == NP) VP_STOP();
        m_queue();
        break;
    case 1:  // the socket takes some datagrams
        m_send(vp_range8(0, NP + NA));
        break;
    case 2:  // any acknowledgement
        s = vp_range8(0, NS - 1);
        if (!m_conn[s]) VP_STOP();
        a = vp_u64(); b = vp_u64();
        m_ack(s, a, b);
        break;
    case 3:
#ifdef DT
        a = DT;
#else
        a = vp_u32();
        VP_ASSUME(a <= 4 * RMC_DEFAULT_PACKET_TIMEOUT);
#endif
        m_timeout(a);
        break;
    case 4:
        s = vp_range8(0, NS - 1);
        if (!m_conn[s] || !m_buf[s]) VP_STOP();
        op = PARTIAL ? vp_range8(0, 2) : 2;
        m_drain(s, op == 0 ? 0 : op == 1 ? 7 : 0xffffffff);
        break;
    case 5:  // a subscriber leaves, or one arrives at its place
        s = vp_range8(0, NS - 1);
        if (m_conn[s])
            m_disconnect(s, EOF_TOO ? vp_flag() : 0);
        else {
            int t;
            if (!m_active) VP_STOP();
            for (t = 0; t < s; ++t) if (!m_conn[t]) VP_STOP();
            m_connect(s);
        }
        break;
    case 6:
        if (m_na == NA) VP_STOP();
        m_announce();
        break;
    case 7:
        m_switch();
        switched += m_active;
        break;
    }
}

void harness(void)
{
    int k;
    m_start();
#ifdef SUSPEND
    { uint32_t u = vp_range(0, NP + 1), r = vp_range(1, NP + 1);
      VP_ASSUME(r <= u || !u);
      if (u) m_throttle(u, r); }
#endif
#ifdef INTERVAL
    m_int = INTERVAL;
    m_ann_at = vp_now + m_int;
    rmc_pub_set_announce_callback(ctx, m_decline);
    VP_ASSERT(rmc_pub_set_announce_interval(ctx, m_int) == 0, "an interval can be set");
#endif
    for (k = 0; k < CONN; ++k) m_connect(k);
    for (k = 0; k < PRE; ++k) m_queue();
    if (PRE) m_send(PRE);
    m_check();
    for (k = 0; k < K; ++k) {
        step();
        m_check();
    }
    VP_WITNESS("end of the history");
    VP_REACH(!(OPMASK & 0x80) || (switched && m_next), "sent after a new start");
    VP_REACH(m_np == NP && (OPMASK & 4 ? m_free[0] : m_sent[0]), "a packet is done with");
}
