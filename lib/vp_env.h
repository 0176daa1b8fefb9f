// Environment of the library under test: clock, descriptors, poll set, payload memory.
// System calls are renamed to vp_* on the command line (same in the solver build and in the replay build).
// A harness may define VP_OWN_<CALL> and supply that call itself.
#ifndef VP_ENV_H
#define VP_ENV_H
#include "vp.h"
#include "rmc_internal.h"
#include "rmc_log.h"
#include <stdio.h>
#include <signal.h>
#include <sys/types.h>
#include <sys/socket.h>
#include <sys/uio.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <errno.h>
#include <string.h>
#include <stdlib.h>
#include <fcntl.h>

#ifdef VP_SOLVER
uint64_t vp_rec;
#endif

#undef malloc
#undef calloc
#undef realloc
#undef free
extern void* malloc(size_t);
extern void free(void*);

#ifndef VP_MAXFD
#define VP_MAXFD 12
#endif
#ifndef VP_MAXCONN
#define VP_MAXCONN 3
#endif
#define VP_SLOT_LISTEN VP_MAXCONN
#define VP_SLOT_MCAST (VP_MAXCONN + 1)

// ---- log: off, or (VP_LOG: rmc_log.c is linked) on, with everything evaluated that goes into the text ----
#include <stdarg.h>
#ifndef VP_LOG
int _rmc_log_level = 0;
void rmc_log(int log_level, const char* func, const char* file, int line, uint16_t index, const char* fmt, ...) { }
#endif
uint32_t vp_log_lines;
int vp_log_errno;        // printing may leave any error number behind
#define VP_NOISE() do { if (vp_log_errno) errno = vp_log_errno; } while(0)
static void vp_out_char(char** b, char c) { if (b) *(*b)++ = c; }
static int vp_format(char** b, const char* f, va_list ap)
{
    for (; *f; ++f) {
        int prec = 0, lng = 0, i;
        if (*f != '%') { vp_out_char(b, *f); continue; }
        for (++f; *f == '.' || *f == '-' || *f == '#' || *f == '+' || (*f >= '0' && *f <= '9'); ++f)
            if (*f >= '0' && *f <= '9') prec = prec * 10 + *f - '0';
        for (; *f == 'l' || *f == 'z' || *f == 'h'; ++f) lng |= *f != 'h';
        if (*f == 's') {
            const char* t = va_arg(ap, const char*);
            for (; *t; ++t) vp_out_char(b, *t);
        } else if (*f == 'p' || lng) {
            uint64_t v = va_arg(ap, uint64_t);
            (void) v;
            for (i = 0; i < 20; ++i) vp_out_char(b, '0');   // as long as any number
        } else if (*f != '%') {
            uint32_t v = va_arg(ap, uint32_t), n = 1, t;
            if (b) for (t = v / 10; t && n < 10; t /= 10) ++n;
            if ((int) n < prec) n = prec;
            while (n--) vp_out_char(b, '0');
        }
    }
    return 0;
}
int vp_vfprintf(FILE* f, const char* fmt, va_list ap) { vp_format(0, fmt, ap); VP_NOISE(); return 0; }
int vp_sprintf(char* s, const char* fmt, ...)
{
    va_list ap;
    char* b = s;
    va_start(ap, fmt);
    vp_format(&b, fmt, ap);
    va_end(ap);
    *b = 0;
    return b - s;
}
int vp_fputc(int c, FILE* f) { vp_log_lines += c == '\n'; VP_NOISE(); return c; }
int vp_tty;
int vp_isatty(int fd) { VP_NOISE(); return vp_tty; }
int vp_fileno(FILE* f) { return 1; }
char* vp_getenv(const char* n) { return 0; }

// ---- clock ----
usec_timestamp_t vp_now = 1000;
#ifndef VP_OWN_CLOCK
usec_timestamp_t rmc_usec_monotonic_timestamp(void) { return vp_now; }
#endif

// ---- heap: counted ----
uint32_t vp_heap_live;
void* vp_malloc(size_t n) { void* p = malloc(n); vp_heap_live++; return p; }
void* vp_calloc(size_t n, size_t m)
{
    uint8_t* p = malloc(n * m);
    memset(p, 0, n * m);
    vp_heap_live++;
    return p;
}
extern void* realloc(void*, size_t);
void* vp_realloc(void* p, size_t n) { if (!p) vp_heap_live++; return realloc(p, n); }
void vp_free(void* p) { if (p) vp_heap_live--; free(p); }

// ---- process ----
void vp_exit(int code)
{
    VP_ASSERT(0, "the library terminates the process");
    VP_ASSUME(0);
}
__sighandler_t vp_signal(int sig, __sighandler_t h) { return 0; }
int vp_rand_r(unsigned int* seed) { return (int) (*seed & 0x7fffffff); }
void vp_perror(const char* s) { }
char* vp_strerror(int e) { return (char*) ""; }
int vp_fprintf(FILE* f, const char* fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    vp_format(0, fmt, ap);
    va_end(ap);
    VP_NOISE();
    return 0;
}
int vp_printf(const char* fmt, ...) { return 0; }

// ---- addresses: "A", "B", "C" stand for the symbolic addresses vp_addr[0..2] (host order), any other string for 0.0.0.0 ----
uint32_t vp_addr[3];
char vp_ntoa_buf[2] = "0";
char* vp_inet_ntoa(struct in_addr in) { return vp_ntoa_buf; }
#ifndef VP_OWN_INET_ATON
int vp_inet_aton(const char* s, struct in_addr* out)
{
    if (s[0] >= 'A' && s[0] <= 'C')
        out->s_addr = htonl(vp_addr[s[0] - 'A']);
    else
        out->s_addr = 0;
    return 1;
}
#endif

int vp_inet_pton(int af, const char* s, void* out) { return vp_inet_aton(s, (struct in_addr*) out); }
in_addr_t vp_inet_addr(const char* s) { struct in_addr a; return vp_inet_aton(s, &a) ? a.s_addr : INADDR_NONE; }
const char* vp_inet_ntop(int af, const void* a, char* b, socklen_t n) { b[0] = '0'; b[1] = 0; return b; }

// ---- descriptors ----
uint8_t vp_fd_open[VP_MAXFD];   // 0 not open, else kind (1 dgram, 2 stream, 3 accepted)
int vp_fd_next = 3;
uint32_t vp_fd_count;
static int vp_fd_new(uint8_t kind)
{
    VP_LIMIT(vp_fd_next < VP_MAXFD);
    vp_fd_open[vp_fd_next] = kind;
    vp_fd_count++;
    return vp_fd_next++;
}
static int vp_fd_is_open(int fd) { return fd >= 0 && fd < VP_MAXFD && vp_fd_open[fd]; }

#ifndef VP_OWN_SOCKET
int vp_socket(int domain, int type, int protocol) { return vp_fd_new((type & 15) == SOCK_DGRAM ? 1 : 2); }
#endif
#ifndef VP_OWN_CLOSE
int vp_close(int fd)
{
    if (fd == -1) { errno = EBADF; return -1; }
    VP_ASSERT(vp_fd_is_open(fd), "closes only descriptors it has open");
    vp_fd_open[fd] = 0;
    vp_fd_count--;
    return 0;
}
#endif
#ifndef VP_OWN_SHUTDOWN
int vp_shutdown(int fd, int how) { return 0; }
#endif
#ifndef VP_OWN_SETSOCKOPT
int vp_setsockopt(int fd, int level, int name, const void* val, socklen_t len) { return 0; }
#endif
#ifndef VP_OWN_GETSOCKOPT
int vp_so_error;
int vp_getsockopt(int fd, int level, int name, void* val, socklen_t* len) { *(int*) val = vp_so_error; return 0; }
#endif
#ifndef VP_OWN_FCNTL
int vp_fcntl(int fd, int cmd, ...) { return 0; }
#endif
#ifndef VP_OWN_BIND
int vp_bind(int fd, const struct sockaddr* a, socklen_t l) { return 0; }
#endif
#ifndef VP_OWN_LISTEN
int vp_listen(int fd, int backlog) { return 0; }
#endif
#ifndef VP_OWN_GETSOCKNAME
uint16_t vp_ephemeral_port = 4711;
int vp_getsockname(int fd, struct sockaddr* a, socklen_t* l)
{
    ((struct sockaddr_in*) a)->sin_port = htons(vp_ephemeral_port);
    return 0;
}
#endif
#ifndef VP_OWN_CONNECT
int vp_connect(int fd, const struct sockaddr* a, socklen_t l) { errno = EINPROGRESS; return -1; }
#endif
#ifndef VP_OWN_ACCEPT
uint32_t vp_peer_addr; // host order
uint16_t vp_peer_port; // host order
int vp_accept(int fd, struct sockaddr* a, socklen_t* l)
{
    if (!vp_fd_is_open(fd)) {
        errno = EBADF;
        return -1;
    }
    struct sockaddr_in* in = (struct sockaddr_in*) a;
    if (in) {
        in->sin_family = AF_INET;
        in->sin_addr.s_addr = htonl(vp_peer_addr);
        in->sin_port = htons(vp_peer_port);
    }
    return vp_fd_new(3);
}
#endif
#ifndef VP_OWN_ACCEPT4
int vp_accept4(int fd, struct sockaddr* a, socklen_t* l, int flags) { return vp_accept(fd, a, l); }
#endif
#ifndef VP_OWN_READV
ssize_t vp_readv(int fd, const struct iovec* iov, int n) { errno = EAGAIN; return -1; }
#endif
#ifndef VP_OWN_WRITEV
ssize_t vp_writev(int fd, const struct iovec* iov, int n) { errno = EAGAIN; return -1; }
#endif
#ifndef VP_OWN_RECVFROM
ssize_t vp_recvfrom(int fd, void* buf, size_t len, int flags, struct sockaddr* a, socklen_t* l) { errno = EAGAIN; return -1; }
#endif
#ifndef VP_OWN_SENDMSG
ssize_t vp_sendmsg(int fd, const struct msghdr* m, int flags) { errno = EAGAIN; return -1; }
#endif
static ssize_t vp_iov1(int fd, void* p, size_t n, int wr)
{
    struct iovec v;
    v.iov_base = p; v.iov_len = n;
    return wr ? vp_writev(fd, &v, 1) : vp_readv(fd, &v, 1);
}
ssize_t vp_write(int fd, const void* p, size_t n) { return vp_iov1(fd, (void*) p, n, 1); }
ssize_t vp_send(int fd, const void* p, size_t n, int f) { return vp_iov1(fd, (void*) p, n, 1); }
ssize_t vp_read(int fd, void* p, size_t n) { return vp_iov1(fd, p, n, 0); }
ssize_t vp_recvmsg(int fd, struct msghdr* m, int f)
{
    struct sockaddr_in in;
    socklen_t l = sizeof(in);
    ssize_t res;
    if (!vp_fd_is_open(fd) || vp_fd_open[fd] != 1) return vp_readv(fd, m->msg_iov, m->msg_iovlen);
    VP_ASSERT(m->msg_iovlen == 1, "stand-in: a datagram is read into one piece");
    res = vp_recvfrom(fd, m->msg_iov[0].iov_base, m->msg_iov[0].iov_len, f, (struct sockaddr*) &in, &l);
    if (res >= 0 && m->msg_name) *(struct sockaddr_in*) m->msg_name = in;
    return res;
}
ssize_t vp_recv(int fd, void* p, size_t n, int f)
{
    struct sockaddr_in in;
    socklen_t l = sizeof(in);
    if (vp_fd_is_open(fd) && vp_fd_open[fd] == 1) return vp_recvfrom(fd, p, n, f, (struct sockaddr*) &in, &l);
    return vp_iov1(fd, p, n, 0);
}
ssize_t vp_sendto(int fd, const void* p, size_t n, int f, const struct sockaddr* a, socklen_t l)
{
    struct iovec v;
    struct msghdr m;
    v.iov_base = (void*) p; v.iov_len = n;
    memset(&m, 0, sizeof(m));
    m.msg_name = (void*) a; m.msg_namelen = l; m.msg_iov = &v; m.msg_iovlen = 1;
    return vp_sendmsg(fd, &m, f);
}
int vp_ioctl(int fd, unsigned long r, ...)
{
    va_list ap;
    int* on, fl;
    va_start(ap, r);
    on = va_arg(ap, int*);
    va_end(ap);
    VP_ASSERT(r == 0x5421, "stand-in: FIONBIO is the only request known");
    fl = vp_fcntl(fd, F_GETFL, 0);
    return fl == -1 ? -1 : vp_fcntl(fd, F_SETFL, *on ? fl | O_NONBLOCK : fl & ~O_NONBLOCK);
}

// ---- poll set as the application sees it through the three callbacks; user data names the side ----
#define VP_USER_PUB 0x5152
#define VP_USER_SUB 0x5153
#ifndef VP_USER_OK        // a harness that changes the user data: is this what payload slot s (-1: none) or poll callback is to get?
#define VP_USER_OK(u, s) 1
#define VP_USER_TAKEN(s)
#endif
#define VP_NSLOT (VP_MAXCONN + 2)
uint8_t vp_poll_on[2 * VP_NSLOT];
int vp_poll_fd[2 * VP_NSLOT];
rmc_poll_action_t vp_poll_act[2 * VP_NSLOT];
uint32_t vp_poll_adds, vp_poll_removes, vp_poll_mods;
#define VP_SUB VP_NSLOT   // slots of the subscriber side begin here
static int vp_slot(user_data_t u, rmc_index_t index)
{
    int side = u.u32 == VP_USER_SUB ? VP_SUB : 0;
    VP_ASSERT((u.u32 == VP_USER_PUB || u.u32 == VP_USER_SUB) && VP_USER_OK(u, -1), "callbacks get the user data of the context");
    if (index == RMC_LISTEN_INDEX) return side + VP_SLOT_LISTEN;
    if (index == RMC_MULTICAST_INDEX) return side + VP_SLOT_MCAST;
    VP_ASSERT(index < VP_MAXCONN, "poll callback names a valid connection index");
    VP_ASSUME(index < VP_MAXCONN);
    return side + index;
}
#ifndef VP_OWN_POLL
static void vp_poll_add(user_data_t u, int fd, rmc_index_t index, rmc_poll_action_t act)
{
    int s = vp_slot(u, index);
    VP_ASSERT(!vp_poll_on[s], "poll add only for an index that is not registered");
    VP_ASSERT(vp_fd_is_open(fd), "poll add names an open descriptor");
    vp_poll_on[s] = 1; vp_poll_fd[s] = fd; vp_poll_act[s] = act;
    vp_poll_adds++;
}
static void vp_poll_modify(user_data_t u, int fd, rmc_index_t index, rmc_poll_action_t old_act, rmc_poll_action_t act)
{
    int s = vp_slot(u, index);
    VP_ASSERT(vp_poll_on[s] && vp_poll_fd[s] == fd, "poll modify only for a registered descriptor");
    vp_poll_act[s] = act;
    vp_poll_mods++;
}
static void vp_poll_remove(user_data_t u, int fd, rmc_index_t index)
{
    int s = vp_slot(u, index);
    VP_ASSERT(vp_poll_on[s] && vp_poll_fd[s] == fd, "poll remove only for a registered descriptor, once");
    vp_poll_on[s] = 0; vp_poll_act[s] = 0;
    vp_poll_removes++;
}
#endif

// ---- payload memory handed to / by the library: fixed slots, every alloc and free recorded ----
#ifndef VP_NPAY
#define VP_NPAY 8
#endif
#ifndef VP_PAYLEN
#define VP_PAYLEN 8
#endif
uint8_t vp_pay[VP_NPAY][VP_PAYLEN];
uint8_t vp_pay_out[VP_NPAY];   // handed out and not yet freed
uint8_t vp_pay_frees[VP_NPAY];
payload_len_t vp_pay_len[VP_NPAY];
uint32_t vp_pay_next;
static int vp_pay_slot(void* p)
{
    int i;
    for (i = 0; i < VP_NPAY; ++i)
        if (p == (void*) vp_pay[i])
            return i;
    return -1;
}
static void* vp_payload_alloc(payload_len_t len, user_data_t u)
{
    uint32_t i = vp_pay_next;
    VP_ASSERT(u.u32 == VP_USER_SUB && VP_USER_OK(u, -1), "callbacks get the user data of the context");
    VP_LIMIT(i < VP_NPAY);
    VP_USER_TAKEN(i);
    VP_ASSERT(len <= VP_PAYLEN, "payload memory is asked for with the packet's own length");
    vp_pay_next = i + 1;
    vp_pay_out[i] = 1;
    vp_pay_len[i] = len;
    return vp_pay[i];
}
static void vp_payload_free(void* p, payload_len_t len, user_data_t u)
{
    int i = vp_pay_slot(p);
    VP_ASSERT(u.u32 == VP_USER_PUB || u.u32 == VP_USER_SUB, "callbacks get the user data of the context");
    VP_ASSERT(i >= 0, "payload free gets a payload pointer that was handed over");
    VP_ASSERT(VP_USER_OK(u, i), "a payload is freed with the user data of the context");
    VP_ASSERT(vp_pay_out[i], "a payload is freed once only");
    VP_ASSERT(vp_pay_len[i] == len, "payload free gets the payload's own length");
    vp_pay_out[i] = 0;
    vp_pay_frees[i]++;
}
#endif
