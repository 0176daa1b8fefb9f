from vpcheck import H, S
import json, os
def known_findings():
    p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "known_findings.json")
    return json.load(open(p)).get("findings", {}) if os.path.exists(p) else {}
RING = ["circular_buffer.c"]
CHECKS = {}
NOTES = {}
NOT_APPLICABLE = {}
ASSUMPTIONS = {}
COMMON = [
    "System calls, clock, log and heap are replaced by lib/vp_env.h and lib/vp_world.h; they behave as POSIX says within what the harness makes symbolic.",
    "One thread per context, as the library demands.",
    "Memory allocation does not fail.",
]
Q, T = "both", "thorough"

# ---- histories of a publisher; CHK selects the assertions ----
def pub(name, chk, defs, tier=Q, what="", timeout=600, **kw):
    return S(name, "pub_history.c", "CHK=%d %s" % (chk, defs), tier=tier, timeout=timeout, bounds="publisher: %s" % what, **kw)
def pub_std(chk, more=""):
    return [
        pub("pub_2subs_k4", chk, "NP=3 NS=2 K=4 CONN=2 PRE=1 EOF_TOO=1 NA=1 " + more,
            what="3 packets and 1 announcement, 2 subscribers connected, 1 packet out; every history of 4 calls (queue, send of any "
                 "number, any 64-bit ack interval, timeouts up to 4 periods, drain, leave by close or end of stream, come back)"),
        pub("pub_start_k5", chk, "NP=2 NS=2 K=5 CONN=0 PRE=0 " + more,
            what="from nothing: 2 packets, 2 subscriber slots, every history of 5 calls"),
        pub("pub_2subs_k5", chk, "NP=3 NS=2 K=5 CONN=2 PRE=1 EOF_TOO=1 " + more, tier=T, what="as pub_2subs_k4 without announcements, 5 calls"),
        pub("pub_2subs_k6", chk, "NP=3 NS=2 K=6 CONN=2 PRE=1 " + more, tier=T, timeout=850, what="as pub_2subs_k4 without announcements, 6 calls"),
        pub("pub_3subs_k4", chk, "NP=3 NS=3 K=4 CONN=3 PRE=2 EOF_TOO=1 " + more, tier=T, timeout=850, what="3 subscribers, 2 packets out, 4 calls"),
    ]
def pub_big(chk):
    return [pub("pub_big_k4", chk, "NP=3 NS=2 K=4 CONN=1 PRE=1 BIG=1 LEN(i)=(vp_flag()?RMC_MAX_PAYLOAD:2)",
                what="packets of 2 bytes or of the maximum payload in any mix, so that resends do not fit the connection's buffer; 4 calls"),
            pub("pub_big2_k4", chk, "NP=3 NS=2 K=4 CONN=2 PRE=2 BIG=1 LEN(i)=(vp_flag()?RMC_MAX_PAYLOAD:2)", tier=T, timeout=850,
                what="the same, 2 subscribers, 2 packets out")]
def pub_partial(chk):
    return [pub("pub_partial_k4", chk, "NP=3 NS=2 K=4 CONN=2 PRE=2 PARTIAL=1", what="2 packets out; control channels that take all, 7 bytes or nothing; 4 calls"),
            pub("pub_partial_k5", chk, "NP=3 NS=2 K=5 CONN=2 PRE=2 PARTIAL=1", tier=T, timeout=850, what="the same, 5 calls")]
def pub_throttle(chk):
    return [pub("pub_throttle_k4", chk, "NP=3 NS=2 K=4 CONN=2 PRE=1 EOF_TOO=1 SUSPEND", what="any thresholds 1 <= resume <= suspend <= 4, or none; 2 subscribers, 4 calls"),
            pub("pub_throttle1_k5", chk, "NP=4 NS=1 K=5 CONN=1 PRE=2 SUSPEND", what="any thresholds up to 5; 1 subscriber, 4 packets, 5 calls"),
            pub("pub_throttle1_k6", chk, "NP=4 NS=1 K=6 CONN=1 PRE=2 SUSPEND", tier=T, timeout=850, what="the same, 6 calls")]
# ---- histories of a subscriber ----
def sub(name, chk, defs, tier=Q, what="", timeout=600, **kw):
    return S(name, "sub_history.c", "CHK=%d %s" % (chk, defs), tier=tier, timeout=timeout, bounds="subscriber: %s" % what, **kw)
OPSTXT = "(arrival by multicast or TCP, timeout after any time up to 3 periods, drain, application, disconnect or reconnect)"

CHECKS["C01"] = [
    S("order_k3", "c01_order.c", "K=3 MASK=vp_range8(0,7)", bounds="3 arrivals of 3 packets in any order with repeats, any mix of multicast and TCP, any first id, lengths 0 to 2"),
    sub("sub_arrivals_k5", 1, "NPUB=1 NW=3 K=5 OPS=1", what="any 5 arrivals of 3 packets by multicast or TCP, any first id"),
    sub("sub_arrivals4_k5", 1, "NPUB=1 NW=4 K=5 OPS=1 S_BASE=1", what="any 5 arrivals of 4 packets"),
    sub("sub_all_k4", 1, "NPUB=1 NW=3 K=4", what="every history of 4 events " + OPSTXT),
    sub("sub_2pubs_k4", 1, "NPUB=2 NW=2 K=4 S_BASE=1", what="2 publishers, every history of 4 events " + OPSTXT),
    sub("sub_all_k5", 1, "NPUB=1 NW=3 K=5 DT=vp_flag()*50000", tier=T, timeout=850, what="5 events, acknowledgement timeouts in between or not"),
    sub("sub_arrivals_k6", 1, "NPUB=1 NW=4 K=6 OPS=1 S_BASE=1", tier=T, timeout=850, what="any 6 arrivals of 4 packets"),
] + [H("arrivals2_mask%d" % m, "c01_order.c", "K=2 MASK=%d" % m, unwind=4, packet=32, payload=10, tier=T,
       bounds="2 arrivals of 2 packets, mask %d by TCP, any first id (CBMC, rings of 32 bytes)" % m) for m in range(4)]

CHECKS["C02"] = [S("datagram_small", "c02_datagram.c", "SMALL", bounds="any payload of 0 to 4 bytes, any bytes, node id, group, port and control address"),
                 S("datagram_large", "c02_datagram.c", "LARGE", bounds="lengths around RMC_MAX_PAYLOAD and up to 65535, any node id, addresses; some bytes tracked")]
R1 = "FIRST=RMC_MAX_PAYLOAD LAST=8 "
R2 = "FIRST=8 LOW=1 HIGH=24 LAST=RMC_MAX_PAYLOAD NEAR "
CHECKS["C03"] = [
    S("resend_small_w", "c03_resend.c", R1 + "LOW=15 HIGH=49 WMAX=28 RMAX=0", bounds="a resend of 8 bytes at every position around the end of both rings (all of command, header and payload wrap), every first split of the write"),
    S("resend_small_r", "c03_resend.c", R1 + "LOW=15 HIGH=49 WMAX=0 RMAX=28", bounds="the same with every first split of the read"),
    S("resend_max_w", "c03_resend.c", R2 + "WMAX=24 RMAX=0", bounds="a resend of the maximum payload at 24 positions that wrap, every split of the write near its ends"),
    S("resend_max_r", "c03_resend.c", R2 + "WMAX=0 RMAX=24", bounds="the same with every split of the read near its ends"),
    S("resend_small_wr", "c03_resend.c", R1 + "LOW=15 HIGH=49 WMAX=28 RMAX=28", bounds="both splits at once"),
    S("resend_max_wr", "c03_resend.c", R2 + "WMAX=12 RMAX=12", bounds="both splits at once"),
    S("resend_max_wr24", "c03_resend.c", R2 + "WMAX=24 RMAX=24", tier=T, timeout=850, bounds="both splits at once, further from the ends"),
]
CHECKS["C04"] = [
    sub("sub_ack_k4", 4, "NPUB=1 NW=3 K=4", what="every history of 4 events " + OPSTXT),
    sub("sub_ack_order_k5", 4, "NPUB=1 NW=5 K=5 OPS=0 S_BASE=1", what="any 5 arrivals of 5 packets by multicast, then acknowledgement"),
    sub("sub_ack_2pubs_k4", 4, "NPUB=2 NW=2 K=4 S_BASE=1", what="2 publishers, every history of 4 events " + OPSTXT),
    sub("sub_ack_k5", 4, "NPUB=1 NW=3 K=5 S_BASE=1", tier=T, timeout=850, what="every history of 5 events"),
    sub("sub_ack_order_k6", 4, "NPUB=1 NW=6 K=6 OPS=0 S_BASE=1", tier=T, timeout=850, what="any 6 arrivals of 6 packets by multicast"),
] + pub_std(4)[:3]
CHECKS["C05"] = [
    sub("sub_time_k4", 5, "NPUB=1 NW=3 K=4 S_BASE=1", what="every history of 4 events " + OPSTXT),
    sub("sub_time_2pubs_k4", 5, "NPUB=2 NW=2 K=4 S_BASE=1", what="2 publishers, every history of 4 events " + OPSTXT),
    S("ack_wrap", "c05_full.c", "WRAPS", bounds="3 acknowledgements at every position around the end of the connection's ring"),
    S("ack_no_room", "c05_full.c", "", bounds="the connection's buffer has room for 0 to 3 of 3 acknowledgements; what did not fit is sent once there is room"),
    sub("sub_time_k5", 5, "NPUB=1 NW=3 K=5 S_BASE=1", tier=T, timeout=850, what="every history of 5 events"),
]
CHECKS["C06"] = pub_std(6) + pub_big(6)
CHECKS["C07"] = pub_std(7) + [
    pub("pub_queue_k7", 7, "NP=5 NS=1 K=7 CONN=1 PRE=0 NA=2 OPMASK=0x43", what="5 packets and 2 announcements, every history of 7 calls that queue or send any number"),
    pub("pub_queue_k9", 7, "NP=6 NS=1 K=9 CONN=1 PRE=0 NA=2 OPMASK=0x43", tier=T, timeout=850, what="the same, 6 packets and 9 calls")]
ANN = "; an announcement every %s us, declined"
CHECKS["C08"] = pub_std(8) + pub_big(8) + pub_partial(8) + [
    pub("pub_announcing_k4", 8, "NP=2 NS=2 K=4 CONN=1 PRE=1 INTERVAL=70000 DT=vp_pick(0,5)*30000", what="2 packets, 2 subscriber slots, 1 connected, 1 packet out, every history of 4 calls, time in steps of 30 ms" + ANN % "70000"),
    pub("pub_announcing_k5", 8, "NP=2 NS=1 K=5 CONN=1 PRE=1 INTERVAL=vp_pick(1,4)*40000 DT=vp_pick(0,5)*30000", tier=T, timeout=850, what="2 packets, 1 subscriber, 1 packet out, 5 calls, time in steps of 30 ms" + ANN % "40000 to 160000")]
CHECKS["C32"] = pub_std(32) + pub_big(32) + [
    pub("pub_announcing_k4", 32, "NP=2 NS=2 K=4 CONN=1 PRE=1 INTERVAL=70000 DT=vp_pick(0,5)*30000", what="2 packets, 2 subscriber slots, 1 connected, 1 packet out, every history of 4 calls, time in steps of 30 ms" + ANN % "70000"),
    pub("pub_announcing_k5", 32, "NP=2 NS=1 K=5 CONN=1 PRE=1 INTERVAL=vp_pick(1,4)*40000 DT=vp_pick(0,5)*30000", tier=T, timeout=850, what="2 packets, 1 subscriber, 1 packet out, 5 calls, time in steps of 30 ms" + ANN % "40000 to 160000"),
    sub("sub_time_k4", 32, "NPUB=1 NW=3 K=4 S_BASE=1", what="every history of 4 events " + OPSTXT),
    sub("sub_time_2pubs_k4", 32, "NPUB=2 NW=2 K=4 S_BASE=1", what="2 publishers, every history of 4 events " + OPSTXT),
    sub("sub_time_k5", 32, "NPUB=1 NW=3 K=5 S_BASE=1", tier=T, timeout=850, what="every history of 5 events"),
]
CHECKS["C14"] = pub_throttle(14)
CHECKS["C18"] = pub_std(18) + pub_partial(18) + [
    sub("sub_poll_k4", 18, "NPUB=1 NW=3 K=4 S_BASE=1", what="every history of 4 events " + OPSTXT),
    sub("sub_poll_2pubs_k4", 18, "NPUB=2 NW=2 K=4 S_BASE=1", tier=T, what="2 publishers, every history of 4 events")]
CHECKS["C19"] = pub_std(19) + pub_partial(19) + pub_big(19)
CHECKS["C22"] = [
    sub("sub_2pubs_k4", 22, "NPUB=2 NW=2 K=4 S_BASE=vp_range(1,2)", what="2 publishers whose ids coincide or overlap, every history of 4 events " + OPSTXT),
    sub("sub_2pubs_k5", 22, "NPUB=2 NW=2 K=5 S_BASE=1", tier=T, timeout=850, what="the same ids, every history of 5 events"),
    pub_std(22)[0], pub_std(22)[4]]

CHECKS["C09"] = [H("ring_op%d_size%d" % (op, s), "c09_ring.c", "OP=%d CAP=%d" % (op, s), unwind=s + 3, srcs=RING,
                   tier="thorough" if s > 6 else "both",
                   bounds="histories of 5 calls, ring of %d bytes, call %d first, all sizes and bytes" % (s, op))
                 for op in range(5) for s in (3, 6, 9)] + \
    [H("ring_real%d" % i, "c09_real.c", "OP=%d" % i, unwind=3, srcs=RING, timeout=200,
       bounds="ring of RMC_MAX_PACKET bytes; put, take, put of any sizes, then %s; one byte tracked" % w)
     for i, w in enumerate(("a put", "a take", "a trim"))]

CHECKS["C10"] = [
    S("any_datagram", "c10_datagram.c", "LENGTH=vp_range(0,N) FROM=vp_u64();VP_ASSUME(from>=1&&from<UINT64_MAX-3) FIX=",
      bounds="one datagram of any length and any bytes, at most a few bytes of payload; then a valid packet"),
    S("large_datagram", "c10_datagram.c", "N=RMC_MAX_PACKET NB=24 LENGTH=RMC_MAX_PACKET-vp_range(0,2) FROM=1 "
      "FIX={uint32_t/**/q=vp_u8();VP_ASSUME(q<=4);h.payload_len=q==4?65535:len-20-1+q-(q==3?40000:0);memcpy(d,&h,sizeof(h));}",
      bounds="datagrams of the maximum size and little less, whose header claims as much, one byte more or less, far less, or 65535"),
    S("queue_3", "c10_queue.c", "ND=3", bounds="3 datagrams waiting at once, any mix of good and bad ones"),
    S("queue_4", "c10_queue.c", "ND=4", bounds="4 datagrams waiting at once"),
    S("queue_5", "c10_queue.c", "ND=5", tier=T, timeout=850, bounds="5 datagrams waiting at once"),
]
def c11p(name, defs, what, **kw):
    return S("pub_" + name, "c11_pub.c", defs, bounds="publisher: " + what, **kw)
def c11s(name, defs, what, **kw):
    return S("sub_" + name, "c11_sub.c", defs, bounds="subscriber: " + what, **kw)
CHECKS["C11"] = [
    c11p("raw", "RAW=9 CUTS=2", "any 9 bytes in up to 3 reads"),
    c11p("raw_wrap", "RAW=6 CUTS=1 WRAP=1 SHIFT=8", "any 6 bytes in up to 2 reads, near the end of the ring"),
    c11p("2cmd", "M=2 CUTS=1", "2 commands or invalid bytes, cut off anywhere, in up to 2 reads"),
    c11p("3cmd", "M=3 CUTS=0", "3 commands or invalid bytes, cut off anywhere"),
    c11p("1cmd_wrap", "M=1 CUTS=1 WRAP=1 SHIFT=20", "1 command in up to 2 reads at every position around the end of the ring"),
    c11p("2cmd_wrap", "M=2 CUTS=0 WRAP=1 SHIFT=24", "2 commands at every position around the end of the ring"),
    c11p("raw12", "RAW=12 CUTS=1", "any 12 bytes in up to 2 reads"),
    c11p("2cmd_2cuts", "M=2 CUTS=2", "2 commands in up to 3 reads"),
    c11s("2cmd", "M=2 CUTS=1", "2 resends or invalid bytes, cut off anywhere, in up to 2 reads"),
    c11s("3cmd", "M=3 CUTS=0", "3 resends or invalid bytes, cut off anywhere"),
    c11s("1cmd_2cuts", "M=1 CUTS=2", "1 resend or invalid byte in up to 3 reads"),
    c11s("1cmd_wrap", "M=1 CUTS=0 WRAP=1 SHIFT=24", "1 resend or invalid byte, cut off anywhere, at every position around the end of the ring"),
    c11s("1cmd_wrap_cut", "M=1 CUTS=1 WRAP=1 SHIFT=14", "the same in up to 2 reads"),
    c11s("2cmd_wrap", "M=2 CUTS=0 WRAP=1 SHIFT=24", "2 resends or invalid bytes at every position around the end of the ring"),
    c11s("raw", "RAW=21 CUTS=1", "any 21 bytes in up to 2 reads"),
    c11s("raw23", "RAW=23 CUTS=0", "any 23 bytes"),
    c11p("4cmd", "M=4 CUTS=0", "4 commands or invalid bytes, cut off anywhere", tier=T, timeout=850),
    c11p("3cmd_1cut", "M=3 CUTS=1", "3 commands in up to 2 reads", tier=T, timeout=850),
    c11s("3cmd_1cut", "M=3 CUTS=1", "3 resends or invalid bytes in up to 2 reads", tier=T, timeout=850),
]
BIGTEXT = " TEXT=text[i][0]=vp_u8();text[i][len?len-1:0]=vp_u8();text[i][len/2]=vp_u8()"
CHECKS["C12"] = [
    S("two_cut", "c12_msg.c", "K=2 LEN=vp_pick(0,2) MAXLEN=2 CUT=move_one(sfd[t],pfd[t],vp_pick(0,7))",
      bounds="2 messages of 0 to 2 bytes to either of 2 publishers, by node id or address; up to 7 bytes moved after each"),
    S("three", "c12_msg.c", "K=3", bounds="3 messages of 0 to 3 bytes to either of 2 publishers"),
    S("wrap", "c12_msg.c", "K=2 LEN=2-i CUT=move_one(sfd[t],pfd[t],vp_pick(0,8)) PRE=RMC_MAX_PACKET-6-vp_pick(0,8) CAP=RMC_MAX_PACKET",
      bounds="2 messages around the end of both rings, any split"),
    S("wrap_one", "c12_msg.c", "K=1 PRE=RMC_MAX_PACKET-6-vp_pick(0,20) CAP=RMC_MAX_PACKET", bounds="1 message at every position around the end of both rings"),
    S("largest", "c12_msg.c", "K=2 BIG MAXLEN=65535 CAP=(RMC_MAX_PACKET+8) LEN=(i?(vp_flag()?65388+vp_pick(0,10):65530+vp_pick(0,5)):1+vp_pick(0,2))" + BIGTEXT,
      bounds="a short message, then one about as long as the buffer, accepted or refused; 3 bytes tracked"),
    S("largest_wrap", "c12_msg.c", "K=2 BIG MAXLEN=65535 CAP=(RMC_MAX_PACKET+8) PRE=RMC_MAX_PACKET-6-vp_pick(0,10) LEN=(i?65386+vp_pick(0,9):1)" + BIGTEXT,
      bounds="the same with the rings' positions near the end"),
    S("two_cut12", "c12_msg.c", "K=2 CUT=move_one(sfd[t],pfd[t],vp_pick(0,12))", tier=T, bounds="2 messages of 0 to 3 bytes; up to 12 bytes moved after each"),
    S("four", "c12_msg.c", "K=4 LEN=vp_pick(1,2) MAXLEN=2", tier=T, bounds="4 messages"),
]
def c13(name, side, defs, what, **kw):
    return S(name, "c13_table.c", "SIDE=%d %s" % (side, defs), bounds=("publisher: " if side else "subscriber: ") + what, **kw)
CHECKS["C13"] = [
    c13("pub_k4", 1, "K=4", "table of 2, 3 peers of any addresses and ports, every history of 4 accepts (agreed or refused), closes, disconnects"),
    c13("pub_size3_k3", 1, "K=3 SIZE=3 NPEER=4 PRE=3", "table of 3, full at first, 4 peers, then 3 operations"),
    c13("sub_k3", 0, "K=3", "table of 2, 3 peers of any addresses, ports, node ids, every history of 3 connects (or refused), completions or failures, closes, disconnects"),
    c13("sub_k4", 0, "K=4 SHARED", "the same, 4 operations, one pattern of shared addresses, ports and ids"),
    c13("sub_size3_k3", 0, "K=3 SIZE=3 NPEER=4 PRE=3 SHARED", "table of 3, full at first, 4 peers, then 3 operations"),
    c13("pub_k5", 1, "K=5", "5 operations", tier=T, timeout=850),
    c13("pub_size3_k4", 1, "K=4 SIZE=3 NPEER=4 PRE=3", "table of 3, full at first, then 4 operations", tier=T),
    c13("sub_free_k4", 0, "K=4", "4 operations, any equalities of addresses, ports, ids", tier=T),
    c13("sub_shared_k5", 0, "K=5 SHARED", "5 operations", tier=T, timeout=850),
]
BIGLEN = "MAXLEN=RMC_MAX_PAYLOAD LEN=(vp_flag()?RMC_MAX_PAYLOAD-vp_range(0,2):vp_range(0,2))"
CHECKS["C15"] = [
    S("pub_k3", "c15_pub.c", "K=3", bounds="3 steps at any times, intervals of 0 to 2^32-1 us set or changed before each, payloads of 0 to 3 bytes, any decision, with and without callback"),
    S("pub_k4", "c15_pub.c", "K=4 LEN=1 MAXLEN=1", bounds="4 such steps, payload of 1 byte"),
    S("pub_large", "c15_pub.c", "K=2 " + BIGLEN, bounds="payloads around the maximum"),
    S("pub_data", "c15_pub.c", "K=3 DATA NOW=1000 DT=vp_range(0,3)*50000 INTERVAL=vp_range(0,2)*70000", bounds="the same while a data packet waits for its acknowledgement"),
    S("sub_k3", "c15_sub.c", "K=3", bounds="2 publishers of any addresses, ports, ids; every history of 3 announcements (with address or without, any payload of 0 to 2 bytes, any decision), completions or failures, closes, data packets"),
    S("sub_1pub_k4", "c15_sub.c", "K=4 NPEER=1", bounds="1 publisher, 4 such events"),
    S("pub_k5", "c15_pub.c", "K=5", tier=T, timeout=850, bounds="5 steps"),
    S("sub_k4", "c15_sub.c", "K=4", tier=T, timeout=850, bounds="2 publishers, 4 events"),
    S("sub_1pub_k5", "c15_sub.c", "K=5 NPEER=1", tier=T, timeout=850, bounds="1 publisher, 5 events"),
]
CHECKS["C17"] = [
    S("any_k4", "c17_list.c", "K=4", bounds="every history of 4 operations on 2 lists, with and without own node allocator"),
    S("any_k5", "c17_list.c", "K=5 PREFILL=3", bounds="3 elements, then 2 operations"),
    S("desc_k5", "c17_list.c", "K=5 SORT=1 PREFILL=3", bounds="descending sorted lists: 3 elements with any of 4 keys, then 2 operations"),
    S("asc_k5", "c17_list.c", "K=5 SORT=2 PREFILL=3", bounds="ascending sorted lists: 3 elements with any of 4 keys, then 2 operations"),
    S("desc_k4", "c17_list.c", "K=4 SORT=1", bounds="descending sorted lists, every history of 4 operations"),
    S("asc_k4", "c17_list.c", "K=4 SORT=2", bounds="ascending sorted lists, every history of 4 operations"),
    S("any_k6", "c17_list.c", "K=6 PREFILL=3", tier=T, bounds="3 elements, then 3 operations"),
    S("desc_k6", "c17_list.c", "K=6 SORT=1 PREFILL=3", tier=T, bounds="descending: 3 elements, then 3 operations"),
    S("asc_k6", "c17_list.c", "K=6 SORT=2 PREFILL=3", tier=T, bounds="ascending: 3 elements, then 3 operations"),
]
CHECKS["C21"] = [S("clock", "c21_clock.c", "", srcs=["time.c"], bounds="every system time from 0 to 292000 years, all nanoseconds")]
OPS16P = "(queue, send some or none, any acknowledgement even cut off, timeouts, drain, leave, accept or refuse, announce, deactivate, activate)"
OPS16S = "(announcement or data by multicast, completion or failure, resend whole, cut off or invalid, end of stream, timeout, close, application takes or keeps, deactivate, activate)"
CHECKS["C16"] = [
    S("pub_k3", "c16_pub.c", "K=3", bounds="publisher, active or not: every history of 3 calls " + OPS16P + ", then 0 to 2 deactivations and deletion"),
    S("pub_malloc_k3", "c16_pub.c", "K=3 DEFAULT", bounds="the same without a payload release callback"),
    S("pub_1sub_k3", "c16_pub.c", "K=3 CONN=1 PRE=1 NS=1", bounds="1 subscriber, 1 packet out, then 3 such calls"),
    S("pub_2subs_k2", "c16_pub.c", "K=2 CONN=2 PRE=2", bounds="2 subscribers, 2 packets out, then 2 such calls"),
    S("sub_k2", "c16_sub.c", "K=2", bounds="subscriber, active or not: every history of 2 events " + OPS16S + ", then 0 to 2 deactivations and deletion"),
    S("sub_1pub_k3", "c16_sub.c", "K=3 CONN=1 NPUB=1 HOW=0", bounds="1 publisher connected, then 3 such events and deletion"),
    S("sub_1pub_malloc_k3", "c16_sub.c", "K=3 CONN=1 NPUB=1 HOW=0 DEFAULT", bounds="the same without payload callbacks"),
    S("sub_2pubs_k2", "c16_sub.c", "K=2 CONN=2", bounds="2 publishers connected, then 2 such events, then 0 to 2 deactivations and deletion"),
    S("pub_2subs_k3", "c16_pub.c", "K=3 CONN=2 PRE=2 HOW=1", tier=T, timeout=850, bounds="2 subscribers, 2 packets out, then 3 such calls"),
    S("pub_1sub_k4", "c16_pub.c", "K=4 CONN=1 PRE=1 NS=1", tier=T, timeout=850, bounds="1 subscriber, 1 packet out, then 4 such calls"),
    S("sub_k3", "c16_sub.c", "K=3 HOW=0", tier=T, timeout=850, bounds="3 events, then deletion"),
    S("sub_1pub_k4", "c16_sub.c", "K=4 CONN=1 NPUB=1 HOW=0", tier=T, timeout=850, bounds="1 publisher connected, then 4 such events and deletion"),
    S("sub_2pubs_k3", "c16_sub.c", "K=3 CONN=2 HOW=0", tier=T, timeout=850, bounds="2 publishers connected, then 3 such events and deletion"),
]

E20 = "events (any sent datagram arrives, again or out of order or never; acknowledgement or resend timeout; either stream moves whole or in part)"
BIG20 = "MAXLEN=RMC_MAX_PAYLOAD LEN(i)=(vp_flag()?RMC_MAX_PAYLOAD-vp_pick(0,1):1) ROUNDS=5 PART=40000 "
def c20(name, defs, what, **kw):
    return S(name, "c20_e2e.c", defs, bounds="publisher and subscriber together: " + what, **kw)
CHECKS["C20"] = [
    c20("e2e_k5", "K=5", "the first packet has arrived, 3 more are sent, then every history of 5 " + E20 + ", then the timeouts run and the channel drains"),
    c20("e2e_late_k4", "K=4 LATE=1", "the same with 4 events, one of the packets sent in between"),
    c20("e2e_start_k4", "K=4 BASE=0 N=3", "3 packets, none has arrived at first and the first to arrive by multicast is packet 1; 4 events"),
    c20("e2e_largest_k3", BIG20 + "K=3 N=2", "packets of 1 byte or of the maximum or one less, 3 events"),
    c20("e2e_times_k4", "K=4 N=2 DT_ACK=vp_range(0,60000) DT_RESEND=vp_range(0,120000)", "2 packets more, 4 events, any time passing before each timeout processing"),
    c20("e2e_times_k5", "K=5 N=2 DT_ACK=vp_range(0,60000) DT_RESEND=vp_range(0,120000)", "the same with 5 events", tier=T, timeout=850),
    c20("e2e_k6", "K=6", "6 events", tier=T, timeout=850),
    c20("e2e_5packets_k4", "K=4 N=5", "5 packets, 4 events", tier=T, timeout=850),
    c20("e2e_late_k5", "K=5 LATE=2", "2 of the packets sent in between, 5 events", tier=T, timeout=850),
    c20("e2e_largest_k4", BIG20 + "K=4 N=3", "3 packets of 1 byte or of the maximum or one less, 4 events", tier=T, timeout=850),
    c20("first_lost", "K=0 N=2 BASE=0 FIRST_LOST", "one history (recorded finding)", known="KF20a"),
    c20("accept_late", "K=0 N=3 BASE=0 ACCEPT_LATE", "one history (recorded finding)", known="KF20b"),
]

def c23(name, side, n, tier="both"):
    return S(name, "c23_misuse.c", "SIDE=%d CALLS=%d" % (side, n), tier=tier, timeout=850 if tier == T else 300,
             bounds="%s: one connected, one closed, one free or connecting slot, active or not; every sequence of %d calls without context, connection, data or with a wrong index, id, address or limit; then normal use" % ("publisher" if side else "subscriber", n))
CHECKS["C23"] = [c23("pub_2calls", 1, 2), c23("sub_2calls", 0, 2), c23("pub_3calls", 1, 3), c23("sub_3calls", 0, 3)]

def c24(name, side, defs, what, **kw):
    return S(name, "c24_fail.c", "SIDE=%d %s" % (side, defs), bounds=("publisher: " if side else "subscriber: ") + what, **kw)
O24P = "(accept, send, resend, read, loopback, close, deactivate or activate), any 2 system calls of them failing with any error, then normal use and the end"
O24S = "(announcement, multicast data, acknowledge, read, complete, close, deactivate or activate), any 2 system calls of them failing with any error, then normal use and the end"
CHECKS["C24"] = [
    c24("pub_activate", 1, "K=1 CONN=0 ACTIVATE=2 F=3", "2 activations and 1 operation, any 3 system calls of them failing with any error"),
    c24("sub_activate", 0, "K=1 CONN=0 ACTIVATE=2 F=3 NODELETE", "2 activations and 1 operation, any 3 system calls of them failing with any error"),
    c24("pub_k3", 1, "K=3 CONN=2 OPMAX=6", "2 subscribers, every history of 3 operations " + O24P),
    c24("pub_1conn_k3", 1, "K=3 CONN=1 OPMAX=6", "1 subscriber, the same"),
    c24("sub_k2", 0, "K=2 CONN=2 OPMAX=6", "2 publishers, every history of 2 operations " + O24S),
    c24("sub_1conn_k3", 0, "K=3 CONN=1 OPMAX=5 NODELETE", "1 publisher, 3 such operations, without deactivation and deletion"),
    c24("pub_k4", 1, "K=4 OPMAX=6 F=3", "1 subscriber, 4 operations, any 3 system calls failing", tier=T, timeout=850),
    c24("pub_activate3", 1, "K=2 CONN=0 ACTIVATE=3 F=4", "3 activations and 2 operations, any 4 system calls failing", tier=T, timeout=850),
    c24("sub_k3", 0, "K=3 CONN=2 OPMAX=6", "2 publishers, 3 operations", tier=T, timeout=850),
    c24("sub_k4", 0, "K=4 OPMAX=5 F=3 NODELETE", "1 publisher, 4 operations, any 3 system calls failing", tier=T, timeout=850),
]

UD = "; the user data changes to any value before every call"
CHECKS["C25"] = [
    S("pub_k3", "c16_pub.c", "K=3 CONN=1 PRE=1 NS=1 USERDATA", bounds="publisher: 1 subscriber, 1 packet out, then 3 calls " + OPS16P + " and the end" + UD),
    S("pub_2subs_k2", "c16_pub.c", "K=2 CONN=2 PRE=2 USERDATA", bounds="publisher: 2 subscribers, 2 packets out, then 2 such calls and the end" + UD),
    S("pub_start_k3", "c16_pub.c", "K=3 USERDATA", bounds="publisher, active or not: 3 such calls and the end" + UD),
    S("sub_k3", "c16_sub.c", "K=3 CONN=1 NPUB=1 HOW=0 USERDATA", bounds="subscriber: 1 publisher, then 3 events " + OPS16S + " and deletion" + UD),
    S("sub_2pubs_k2", "c16_sub.c", "K=2 CONN=2 HOW=1 USERDATA", bounds="subscriber: 2 publishers, then 2 such events and the end" + UD),
    S("pub_k4", "c16_pub.c", "K=4 CONN=1 PRE=1 NS=1 HOW=1 USERDATA", tier=T, timeout=850, bounds="publisher: 1 subscriber, 4 calls" + UD),
    S("sub_k4", "c16_sub.c", "K=4 CONN=1 NPUB=1 HOW=0 USERDATA", tier=T, timeout=850, bounds="subscriber: 1 publisher, 4 events" + UD),
]

def c26(name, file, defs, what, **kw):
    return S(name, file, "VP_LOG " + defs, extra=["rmc_log.c"], bounds="everything logged, printing leaves any error number behind: " + what, **kw)
CHECKS["C26"] = [
    c26("calls", "c26_log.c", "CALLS=2", "every 2 calls of the log functions, any level, index, colour, previous error number, terminal or not"),
    c26("pub_activate", "c24_fail.c", "SIDE=1 K=1 CONN=0 ACTIVATE=2 F=3", "publisher, 2 activations and 1 operation, any 3 system calls failing with any error"),
    c26("pub_fail", "c24_fail.c", "SIDE=1 K=2 CONN=2 OPMAX=6", "publisher, 2 subscribers, every history of 2 operations " + O24P),
    c26("sub_fail", "c24_fail.c", "SIDE=0 K=2 CONN=2 OPMAX=5 NODELETE", "subscriber, 2 publishers, every history of 2 operations, any 2 system calls failing"),
    c26("sub_activate", "c24_fail.c", "SIDE=0 K=1 CONN=0 ACTIVATE=2 F=3 NODELETE", "subscriber, 2 activations and 1 operation, any 3 system calls failing"),
    c26("pub_history", "pub_history.c", "CHK=3 NP=3 NS=2 K=4 CONN=2 PRE=1 EOF_TOO=1", "publisher histories of 4 calls as in C03"),
    c26("sub_history", "sub_history.c", "CHK=4 NPUB=1 NW=3 K=4", "subscriber histories of 4 events as in C04"),
    c26("pub_life", "c16_pub.c", "K=3 CONN=1 PRE=1 NS=1", "publisher, 1 subscriber, 1 packet out, 3 calls as in C16"),
    c26("sub_life", "c16_sub.c", "K=3 CONN=1 NPUB=1 HOW=0", "subscriber, 1 publisher, 3 events as in C16"),
    c26("pub_commands", "c11_pub.c", "M=2 CUTS=1", "publisher, 2 commands or invalid bytes, cut off anywhere"),
    c26("sub_commands", "c11_sub.c", "M=2 CUTS=1", "subscriber, 2 resends or invalid bytes, cut off anywhere"),
    c26("datagrams", "c10_queue.c", "ND=3", "3 datagrams waiting, good or bad"),
    c26("pub_misuse", "c23_misuse.c", "SIDE=1 CALLS=2", "publisher, 2 wrong calls as in C23"),
    c26("sub_misuse", "c23_misuse.c", "SIDE=0 CALLS=2", "subscriber, 2 wrong calls as in C23"),
    c26("messages", "c12_msg.c", "K=3", "3 control messages as in C12"),
    c26("announcements", "c15_pub.c", "K=3", "publisher, 3 steps as in C15"),
    c26("announced", "c15_sub.c", "K=3", "subscriber, 3 events as in C15"),
    c26("pub_fail_k3", "c24_fail.c", "SIDE=1 K=3 CONN=2 OPMAX=6 F=3", "publisher, 3 operations, any 3 system calls failing", tier=T, timeout=850),
    c26("sub_fail_k3", "c24_fail.c", "SIDE=0 K=3 CONN=2 OPMAX=5 NODELETE", "subscriber, 3 operations", tier=T, timeout=850),
    c26("sub_history_k5", "sub_history.c", "CHK=4 NPUB=1 NW=3 K=5 DT=vp_flag()*50000", "subscriber histories of 5 events", tier=T, timeout=850),
    c26("pub_history_k5", "pub_history.c", "CHK=3 NP=3 NS=2 K=5 CONN=2 PRE=1 EOF_TOO=1", "publisher histories of 5 calls", tier=T, timeout=850),
]

def c28(name, side, n, tier="both"):
    return S(name, "c28_setup.c", "SIDE=%d ROUNDS=%d" % (side, n), tier=tier, timeout=600,
             bounds="%s: any node, group, interface (or none), %sport, file flags; %d activations, 2 connections in each" % ("publisher" if side else "subscriber", "control address (or none), any or no control port, any hop limit, multicast " if side else "multicast ", n))
CHECKS["C28"] = [c28("pub_setup", 1, 2), c28("sub_setup", 0, 2), c28("pub_setup3", 1, 3, T), c28("sub_setup3", 0, 3, T)]

CALLS = "; in callbacks any of the calls allowed, at most %d in all"
def c27(name, side, defs, what, n, **kw):
    return S(name, "c27_%s.c" % side, defs, bounds=what + CALLS % n, **kw)
CHECKS["C27"] = [
    c27("pub_k2", "pub", "K=2 B=2", "2 subscribers, every history of 2 events", 2),
    c27("pub_1conn_b3", "pub", "K=2 B=3 CONN=1", "2 subscriber slots, 1 connected, every history of 2 events", 3),
    c27("pub_k3", "pub", "K=3 B=1 CONN=1", "2 subscriber slots, 1 connected, every history of 3 events", 1),
    c27("sub_k2_b2", "sub", "K=2 B=2", "2 publishers, every history of 2 events", 2),
    c27("sub_1conn_b3", "sub", "K=2 B=3 CONN=1", "2 publishers, 1 connected, every history of 2 events", 3),
    c27("sub_k3", "sub", "K=3 B=2 NPUB=1", "1 publisher, every history of 3 events", 2),
    c27("pub_2conn_k3", "pub", "K=3 B=1", "2 subscribers, every history of 3 events", 1, tier=T, timeout=850),
    c27("pub_3subs", "pub", "K=2 B=2 NS=3", "3 subscribers, every history of 2 events", 2, tier=T, timeout=850),
    c27("pub_k3_b2", "pub", "K=3 B=2 CONN=1", "2 subscriber slots, 1 connected, every history of 3 events", 2, tier=T, timeout=850),
    c27("sub_k4", "sub", "K=4 B=2 NPUB=1", "1 publisher, every history of 4 events", 2, tier=T, timeout=850),
    c27("sub_k3_2pubs", "sub", "K=3 B=1", "2 publishers, every history of 3 events", 1, tier=T, timeout=850),
]
STOP = ", stopping and starting in between at any point"
CHECKS["C29"] = [
    pub("pub_k4", 29, "NP=2 NS=1 K=4 CONN=1 PRE=1 NA=1 OPMASK=0xff", what="2 packets and 1 announcement, 1 subscriber, 1 packet out, every history of 4 calls" + STOP),
    pub("pub_2subs_k5", 29, "NP=2 NS=2 K=5 CONN=1 PRE=1 OPMASK=0xbf", what="2 packets, 2 subscriber slots, 1 connected, 1 packet out, every history of 5 calls" + STOP),
    pub("pub_start_k5", 29, "NP=3 NS=1 K=5 CONN=0 PRE=0 OPMASK=0xbf", what="from nothing: 3 packets, 1 subscriber slot, every history of 5 calls" + STOP),
    sub("sub_k4", 29, "NPUB=1 NW=3 K=4 OPS=6 S_BASE=1 DT=vp_flag()*50000", what="every history of 4 events " + OPSTXT + STOP),
    sub("sub_k5", 29, "NPUB=1 NW=2 K=5 OPS=6 S_BASE=1 DT=vp_flag()*50000", what="2 packets, every history of 5 events" + STOP),
    pub("pub_1sub_k6", 29, "NP=3 NS=1 K=6 CONN=1 PRE=1 OPMASK=0xbf", tier=T, timeout=850, what="3 packets, 1 subscriber, 6 calls" + STOP),
    sub("sub_2pubs_k4", 29, "NPUB=2 NW=2 K=4 OPS=6 S_BASE=1 DT=vp_flag()*50000", tier=T, timeout=850, what="2 publishers, every history of 4 events" + STOP),
    sub("sub_k6", 29, "NPUB=1 NW=2 K=6 OPS=6 S_BASE=1 DT=vp_flag()*50000", tier=T, timeout=850, what="2 packets, every history of 6 events" + STOP),
]
INIT = "%s with %d connection slots; every address good, malformed or missing, any ports, node id and user data, then one call of each kind and deletion"
CHECKS["C30"] = [
    S("pub_2", "c30_init.c", "SIDE=1 NS=2", bounds=INIT % ("publisher", 2)),
    S("sub_2", "c30_init.c", "SIDE=0 NS=2", bounds=INIT % ("subscriber", 2)),
    S("pub_1", "c30_init.c", "SIDE=1 NS=1", bounds=INIT % ("publisher", 1)),
    S("sub_1", "c30_init.c", "SIDE=0 NS=1", bounds=INIT % ("subscriber", 1)),
    S("pub_5", "c30_init.c", "SIDE=1 NS=5", tier=T, bounds=INIT % ("publisher", 5)),
    S("sub_5", "c30_init.c", "SIDE=0 NS=5", tier=T, bounds=INIT % ("subscriber", 5)),
]
TWO = "2 %s with %d packets each, every history of %d calls and events spread over them in any way"
def two(name, side, np, k, more="", **kw):
    return S(name, "c31_two.c", "SIDE=%d NP=%d K=%d %s" % (side, np, k, more if "THR" in more else more + " THR=0"),
             bounds=TWO % ("publishers" if side else "subscribers", np, k) + (", then deletion" if "DELETE" in more else ""), **kw)
CHECKS["C31"] = [
    two("pub_k5", 1, 2, 5), two("pub_throttled_k5", 1, 2, 5, "THR=1"), two("pub_delete_k4", 1, 2, 4, "THR=1 DELETE=1"), two("pub_3_k5", 1, 3, 5),
    two("sub_k5", 0, 2, 5), two("sub_3_k4", 0, 3, 4), two("sub_delete_k3", 0, 2, 3, "DELETE=1"),
    two("pub_k7", 1, 2, 7, tier=T, timeout=850), two("pub_throttled_k6", 1, 2, 6, "THR=1", tier=T, timeout=850),
    two("sub_k6", 0, 2, 6, tier=T, timeout=850), two("sub_3_k6", 0, 3, 6, tier=T, timeout=850),
]
