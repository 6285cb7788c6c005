#include "netsim.h"
#include <arpa/inet.h>
#include <netdb.h>
#include <sys/select.h>
#include <sys/timerfd.h>
#include <fcntl.h>
#include <setjmp.h>
#include <time.h>
#include <poll.h>
#include <sys/time.h>
#include <sys/ioctl.h>
#include <stdarg.h>
#include <map>
#include <algorithm>
namespace net {
struct Fd {
    bool timer = false, nonblock = false, bound = false, connected = false;
    Addr local, peer;
    std::deque<std::pair<Addr, std::string>> rx;
    int64_t expiry = NEVER; bool fired = false;     // timer
    std::map<int, int> opts;
};
int64_t now, wall = 1500000000; unsigned rand_bias; uint64_t rand_calls; int rand_fixed = -1;
std::function<void(const Out &)> on_send; std::function<bool()> on_idle; std::function<void()> pump;
bool no_advance; long selects, max_selects = 200000; bool livelock; std::string misuse;
long fault_at[10]; int fault_errno[10]; long fault_hit[10]; long gai_live;
static std::map<int, Fd> fds; static int next_fd; static unsigned next_port;
static std::multimap<int64_t, std::function<void()>> events;
static uint64_t rs;
static std::vector<jmp_buf *> jb;

Addr addr(unsigned host, unsigned port) {
    Addr a; a.len = sizeof a.sin;
#ifdef COAP_IP6
    a.sin.sin6_family = AF_INET6; a.sin.sin6_port = htons(port);
    a.sin.sin6_addr.s6_addr[0] = 0xfd; a.sin.sin6_addr.s6_addr[14] = host >> 8; a.sin.sin6_addr.s6_addr[15] = host;
#else
    a.sin.sin_family = AF_INET; a.sin.sin_port = htons(port); a.sin.sin_addr.s_addr = htonl(0x0a000000 + host);
#endif
    return a;
}
std::vector<Addr> endpoints(uint64_t seed, unsigned n) {
    std::vector<Addr> v; bool plain = !(seed & 1);
    for (unsigned i = 0; i < n; i++) {
        if (!i || plain) { v.push_back(addr(100 + i / 2, 7000 + i % 2)); continue; }
        while (true) {
            seed = seed * 6364136223846793005ull + 1442695040888963407ull;
            Addr a = v[(seed >> 33) % v.size()];
            unsigned char *b = (unsigned char *)&a.sin.COAP_IPV_SIN_ADDR, *p = (unsigned char *)&a.sin.COAP_IPV_SIN_PORT;
            unsigned k = (seed >> 41) % (sizeof a.sin.COAP_IPV_SIN_ADDR + 1), bit = 1u << (seed >> 50) % 8;     // the first byte of the address stays
            if (k < 2) p[k] ^= bit; else b[k - 1] ^= bit;
            bool used = a.sin.COAP_IPV_SIN_PORT == 0 || a == addr(1, 5683); for (auto &o : v) used |= o == a;
            if (!used) { v.push_back(a); break; }
        }
    }
    return v;
}
std::string str(const Addr &a) {
    char b[64] = "?";
    inet_ntop(COAP_IPV_AF_INET, &a.sin.COAP_IPV_SIN_ADDR, b, sizeof b);
    return pbt::fmt("%s:%u", b, ntohs(a.sin.COAP_IPV_SIN_PORT));
}
void reset(uint64_t seed) {
    fds.clear(); events.clear(); next_fd = 300; next_port = 40000; now = 0; wall = 1500000000; rs = seed * 2654435761u + 88172645463325252ull; rand_bias = 0; rand_calls = 0; rand_fixed = -1;
    on_send = nullptr; on_idle = nullptr; pump = nullptr; no_advance = false; selects = 0; livelock = false; misuse.clear();
    gai_live = 0;
    for (int i = 0; i < 10; i++) { fault_at[i] = -1; fault_errno[i] = EIO; fault_hit[i] = 0; }
}
static bool fault(int k) {
    if (fault_at[k] < 0) return false;
    if (fault_at[k]-- == 0) { fault_hit[k]++; errno = fault_errno[k]; return true; }
    return false;
}
void at(int64_t t, std::function<void()> f) { events.emplace(t < now ? now : t, f); }
void deliver(const Addr &from, const Addr &to, const std::string &d) {
    for (auto &f : fds) if (!f.second.timer && f.second.bound && f.second.local == to) {
        if (f.second.connected && !(f.second.peer == from)) return;
        f.second.rx.push_back({from, d}); return;
    }
}
size_t queued(const Addr &to) { for (auto &f : fds) if (!f.second.timer && f.second.local == to) return f.second.rx.size(); return 0; }
long open_fds() { return (long)fds.size(); }
static bool ready(Fd &f) { return f.timer ? (f.fired || (f.expiry <= now)) : !f.rx.empty(); }
int64_t next_event() {
    int64_t t = events.empty() ? NEVER : events.begin()->first;
    for (auto &f : fds) if (f.second.timer && f.second.expiry > now) t = std::min(t, f.second.expiry);
    return t;
}
bool any_timer_due() { for (auto &f : fds) if (f.second.timer && f.second.expiry <= now) return true; return false; }
static void run_events() { while (!events.empty() && events.begin()->first <= now) { auto f = events.begin()->second; events.erase(events.begin()); f(); } }
void advance_to(int64_t t) { if (t > now) now = t; run_events(); }
bool run(const std::function<void()> &f) {
    jmp_buf b; jb.push_back(&b);
    if (setjmp(b) == 0) { f(); jb.pop_back(); return true; }
    jb.pop_back(); return false;
}
static void stop() { if (jb.empty()) abort(); longjmp(*jb.back(), 1); }
static Fd *get(int fd, const char *op) {
    auto it = fds.find(fd);
    if (it == fds.end()) { if (misuse.empty()) misuse = pbt::fmt("%s on descriptor %d, which is not open", op, fd); errno = EBADF; return nullptr; }
    return &it->second;
}
static uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }
int64_t waiting_until = NEVER;
static int wait_for(const std::function<int()> &collect, int64_t deadline) {
    while (1) {
        if (++selects > max_selects) { livelock = true; stop(); }
        run_events(); waiting_until = deadline;
        if (pump && !no_advance) pump();
        int n = collect();
        if (n) return n;
        if (deadline <= now) return 0;
        if (no_advance) stop();
        int64_t t = std::min(next_event(), deadline);
        if (on_idle) { if (!on_idle()) stop(); continue; }
        if (t == NEVER) stop();
        advance_to(t);
    }
}
}
using namespace net;
extern "C" {
int vf_socket(int d, int t, int p) { if (fault(4)) return -1; int fd = next_fd++; fds[fd]; return fd; }
int vf_setsockopt(int fd, int, int, const void *, socklen_t) { if (fault(7)) return -1; return get(fd, "setsockopt") ? 0 : -1; }
int vf_getsockopt(int fd, int, int, void *v, socklen_t *l) { if (!get(fd, "getsockopt")) return -1; memset(v, 0, *l); return 0; }
int vf_bind(int fd, const struct sockaddr *a, socklen_t l) { if (fault(5)) return -1; Fd *f = get(fd, "bind"); if (!f) return -1; memcpy(&f->local.sin, a, l); f->local.len = l; f->bound = true; return 0; }
int vf_connect(int fd, const struct sockaddr *a, socklen_t l) {
    if (fault(5)) return -1;
    Fd *f = get(fd, "connect"); if (!f) return -1;
    memcpy(&f->peer.sin, a, l); f->peer.len = l; f->connected = true;
    if (!f->bound) { f->local = addr(900, next_port++); f->bound = true; }
    return 0;
}
int vf_listen(int fd, int) { return get(fd, "listen") ? 0 : -1; }
int vf_accept(int fd, struct sockaddr *, socklen_t *) { get(fd, "accept"); errno = EAGAIN; return -1; }
int vf_getpeername(int fd, struct sockaddr *a, socklen_t *l) { Fd *f = get(fd, "getpeername"); if (!f || !f->connected) { errno = ENOTCONN; return -1; } memcpy(a, &f->peer.sin, f->peer.len); *l = f->peer.len; return 0; }
int vf_getsockname(int fd, struct sockaddr *a, socklen_t *l) { Fd *f = get(fd, "getsockname"); if (!f) return -1; memcpy(a, &f->local.sin, f->local.len); *l = f->local.len; return 0; }
int vf_fcntl(int fd, int cmd, ...) { if (fault(6)) return -1; Fd *f = get(fd, "fcntl"); if (!f) return -1; va_list ap; va_start(ap, cmd); int v = va_arg(ap, int); va_end(ap); if (cmd == F_SETFL) { f->nonblock = v & O_NONBLOCK; return 0; } return f->nonblock ? O_NONBLOCK | O_RDWR : O_RDWR; }
int vf_fcntl64(int fd, int cmd, int v) { return vf_fcntl(fd, cmd, v); }
int vf_ioctl(int fd, unsigned long, ...) { return get(fd, "ioctl") ? 0 : -1; }
int vf_shutdown(int fd, int) { return get(fd, "shutdown") ? 0 : -1; }
int vf_close(int fd) { if (!get(fd, "close")) return -1; fds.erase(fd); return 0; }

struct vf_ai { struct addrinfo ai; coap_ipv_sockaddr_in_t sin; };
int vf_getaddrinfo(const char *host, const char *port, const struct addrinfo *, struct addrinfo **res) {
    if (fault(8)) return EAI_NONAME;
    gai_live++;
    vf_ai *v = (vf_ai *)calloc(1, sizeof *v);
    Addr a = addr(0, atoi(port));
    if (inet_pton(COAP_IPV_AF_INET, host, &a.sin.COAP_IPV_SIN_ADDR) != 1) { unsigned h = 0; for (const char *p = host; *p; p++) h = h * 31 + (unsigned char)*p; Addr b = addr(h & 0xffff, atoi(port)); a = b; }
    v->sin = a.sin; v->ai.ai_family = COAP_IPV_AF_INET; v->ai.ai_socktype = SOCK_DGRAM; v->ai.ai_protocol = 0; v->ai.ai_addrlen = sizeof v->sin; v->ai.ai_addr = (struct sockaddr *)&v->sin;
    *res = &v->ai; return 0;
}
void vf_freeaddrinfo(struct addrinfo *a) { if (a) gai_live--; free(a); }
const char *vf_gai_strerror(int) { return "error"; }

static ssize_t do_send(int fd, const void *b, size_t n, const struct sockaddr *to, socklen_t tl, const char *op) {
    Fd *f = get(fd, op); if (!f) return -1;
    if (fault(0)) return -1;
    Out o; o.t = now; o.from = f->local; o.data.assign((const char *)b, n);
    if (to) { memcpy(&o.to.sin, to, std::min<size_t>(tl, sizeof o.to.sin)); o.to.len = tl; } else if (f->connected) o.to = f->peer; else { errno = EDESTADDRREQ; return -1; }
    if (on_send) on_send(o);
    return (ssize_t)n;
}
ssize_t vf_send(int fd, const void *b, size_t n, int) { return do_send(fd, b, n, nullptr, 0, "send"); }
ssize_t vf_sendto(int fd, const void *b, size_t n, int, const struct sockaddr *to, socklen_t tl) { return do_send(fd, b, n, to, tl, "sendto"); }
ssize_t vf_sendmsg(int fd, const struct msghdr *m, int) { std::string s; for (size_t i = 0; i < m->msg_iovlen; i++) s.append((char *)m->msg_iov[i].iov_base, m->msg_iov[i].iov_len); return do_send(fd, s.data(), s.size(), (struct sockaddr *)m->msg_name, m->msg_namelen, "sendmsg"); }
static ssize_t do_recv(int fd, void *b, size_t n, int flags, struct sockaddr *from, socklen_t *fl, const char *op) {
    Fd *f = get(fd, op); if (!f) return -1;
    if (f->rx.empty()) { errno = EAGAIN; return -1; }
    if (fault(1)) { f->rx.pop_front(); return -1; }
    auto &p = f->rx.front();
    size_t k = std::min(n, p.second.size());
    memcpy(b, p.second.data(), k);
    ssize_t r = flags & MSG_TRUNC ? (ssize_t)p.second.size() : (ssize_t)k;
    if (from && fl) { memcpy(from, &p.first.sin, std::min(*fl, p.first.len)); *fl = p.first.len; }
    if (!(flags & MSG_PEEK)) f->rx.pop_front();
    return r;
}
ssize_t vf_recv(int fd, void *b, size_t n, int fl) { return do_recv(fd, b, n, fl, nullptr, nullptr, "recv"); }
ssize_t vf_recvfrom(int fd, void *b, size_t n, int fl, struct sockaddr *a, socklen_t *l) { return do_recv(fd, b, n, fl, a, l, "recvfrom"); }
ssize_t vf_recvmsg(int fd, struct msghdr *m, int fl) {
    size_t full = 0; Fd *f = get(fd, "recvmsg"); if (f && !f->rx.empty()) full = f->rx.front().second.size();
    socklen_t l = m->msg_namelen;
    ssize_t r = do_recv(fd, m->msg_iov[0].iov_base, m->msg_iov[0].iov_len, fl, (struct sockaddr *)m->msg_name, m->msg_name ? &l : nullptr, "recvmsg");
    if (r >= 0) { m->msg_namelen = l; m->msg_flags = full > m->msg_iov[0].iov_len ? MSG_TRUNC : 0; m->msg_controllen = 0; }
    return r;
}
ssize_t vf_read(int fd, void *b, size_t n) {
    Fd *f = get(fd, "read"); if (!f) return -1;
    if (!f->timer) return do_recv(fd, b, n, 0, nullptr, nullptr, "read");
    if (!ready(*f)) { errno = EAGAIN; return -1; }
    if (n < 8) { errno = EINVAL; return -1; }
    uint64_t one = 1; memcpy(b, &one, 8); f->fired = false; f->expiry = NEVER; return 8;
}
ssize_t vf_write(int fd, const void *b, size_t n) { return do_send(fd, b, n, nullptr, 0, "write"); }
ssize_t vf___recv_chk(int fd, void *b, size_t n, size_t, int fl) { return vf_recv(fd, b, n, fl); }
ssize_t vf___recvfrom_chk(int fd, void *b, size_t n, size_t, int fl, struct sockaddr *a, socklen_t *l) { return vf_recvfrom(fd, b, n, fl, a, l); }
ssize_t vf___read_chk(int fd, void *b, size_t n, size_t) { return vf_read(fd, b, n); }
long vf___fdelt_chk(long d) { return d / (8 * (int)sizeof(long)); }

int vf_timerfd_create(int, int) { if (fault(2)) return -1; int fd = next_fd++; fds[fd].timer = true; return fd; }
int vf_timerfd_settime(int fd, int flags, const struct itimerspec *n, struct itimerspec *) {
    Fd *f = get(fd, "timerfd_settime"); if (!f) return -1;
    if (!f->timer) { errno = EINVAL; return -1; }
    if (fault(3)) return -1;
    int64_t v = (int64_t)n->it_value.tv_sec * SEC + n->it_value.tv_nsec;
    if (n->it_value.tv_nsec < 0 || n->it_value.tv_nsec >= SEC) { errno = EINVAL; return -1; }
    f->fired = false; f->expiry = v == 0 ? NEVER : (flags & TFD_TIMER_ABSTIME) ? v : now + v;
    return 0;
}
int vf_timerfd_gettime(int fd, struct itimerspec *n) {
    Fd *f = get(fd, "timerfd_gettime"); if (!f) return -1;
    memset(n, 0, sizeof *n); if (f->expiry != NEVER && f->expiry > now) { n->it_value.tv_sec = (f->expiry - now) / SEC; n->it_value.tv_nsec = (f->expiry - now) % SEC; } return 0;
}
int vf_select(int nfds, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv) {
    int want[256], nw = 0;      // no destructors here: the simulation may leave through longjmp
    if (nfds > FD_SETSIZE) nfds = FD_SETSIZE;
    for (int i = 0; i < nfds; i++) if (r && FD_ISSET(i, r)) { if (!get(i, "select")) return -1; if (nw < 256) want[nw++] = i; }
    int64_t deadline = tv ? now + (int64_t)tv->tv_sec * SEC + (int64_t)tv->tv_usec * 1000 : NEVER;
    int n = wait_for([&want, &nw] { int c = 0; for (int i = 0; i < nw; i++) if (ready(fds[want[i]])) c++; return c; }, deadline);
    if (r) FD_ZERO(r);
    if (w) FD_ZERO(w);
    if (e) FD_ZERO(e);
    if (n && r) for (int i = 0; i < nw; i++) if (ready(fds[want[i]])) FD_SET(want[i], r);
    return n;
}
int vf_pselect(int nfds, fd_set *r, fd_set *w, fd_set *e, const struct timespec *ts, const sigset_t *) {
    struct timeval tv; if (ts) { tv.tv_sec = ts->tv_sec; tv.tv_usec = ts->tv_nsec / 1000; }
    return vf_select(nfds, r, w, e, ts ? &tv : nullptr);
}
int vf_poll(struct pollfd *p, nfds_t k, int ms) {
    int64_t deadline = ms < 0 ? NEVER : now + (int64_t)ms * MS;
    for (nfds_t i = 0; i < k; i++) p[i].revents = 0;
    return wait_for([&] { int c = 0; for (nfds_t i = 0; i < k; i++) { p[i].revents = 0; if (p[i].fd >= 0 && fds.count(p[i].fd) && (p[i].events & POLLIN) && ready(fds[p[i].fd])) { p[i].revents = POLLIN; c++; } } return c; }, deadline);
}
int vf_ppoll(struct pollfd *p, nfds_t k, const struct timespec *ts, const sigset_t *) { return vf_poll(p, k, ts ? (int)(ts->tv_sec * 1000 + ts->tv_nsec / 1000000) : -1); }
int vf___poll_chk(struct pollfd *p, nfds_t k, int ms, size_t) { return vf_poll(p, k, ms); }

time_t vf_time(time_t *t) { time_t v = wall + now / SEC; if (t) *t = v; return v; }
int vf_clock_gettime(clockid_t c, struct timespec *ts) { int64_t v = now + (c == CLOCK_REALTIME ? wall * SEC : 1000 * SEC); ts->tv_sec = v / SEC; ts->tv_nsec = v % SEC; return 0; }
int vf_gettimeofday(struct timeval *tv, void *) { int64_t v = now + wall * SEC; tv->tv_sec = v / SEC; tv->tv_usec = v % SEC / 1000; return 0; }
unsigned vf_sleep(unsigned s) { advance_to(now + s * SEC); return 0; }
int vf_usleep(useconds_t u) { advance_to(now + (int64_t)u * 1000); return 0; }
int vf_nanosleep(const struct timespec *a, struct timespec *) { advance_to(now + a->tv_sec * SEC + a->tv_nsec); return 0; }
int vf_rand(void) {
    rand_calls++;
    if (rand_fixed >= 0) return rand_fixed;
    uint64_t v = rnd();
    if (rand_bias && (v >> 40) % 8 < rand_bias) return (v >> 50) & 1 ? 0 : 0x7fffffff;
    return (int)(v >> 17 & 0x7fffffff);
}
void vf_srand(unsigned) {}
long vf_random(void) { return vf_rand(); }
void vf_srandom(unsigned) {}
int vf_rand_r(unsigned *) { return vf_rand(); }
}
