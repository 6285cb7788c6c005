// C30: TLS sockets of the proxy: trust, integrity of the byte stream, bounded waiting, release of everything; session caches.
// The stream sockets are simulated (socket, connect, accept, select ... of tls_sock.c are renamed to st_*); GnuTLS is real.
#include "dtls.h"
#include <algorithm>
#include <map>
#include <fcntl.h>
#include <netdb.h>
#include <poll.h>
#include <stdarg.h>
#include <strings.h>
#include <arpa/inet.h>
extern "C" {
#include "tls_sock.h"
#include "coap_log.h"
}
using namespace pbt;
using net::MS; using net::SEC; using net::NEVER;
#ifdef TLS_CLIENT_AUTH
static const bool AUTH = true;
#else
static const bool AUTH = false;
#endif
namespace {
// ---- a reference TLS peer on a byte stream
struct SPeer {
    gnutls_session_t s = nullptr; gnutls_certificate_credentials_t cred = nullptr; gnutls_priority_t prio = nullptr; std::shared_ptr<pki::Cert> cert;
    std::string in; bool in_eof = false; std::function<void(const std::string &)> out;
    enum { HANDSHAKE, UP, ENDED, FAILED } st = HANDSHAKE; int err = 0; bool said_bye = false, answer_bye = true, answer_rehandshake = true, resumed = false;
    std::string got, after;          // after: sent when the handshake is over
    static ssize_t push(gnutls_transport_ptr_t p, const void *d, size_t n) { ((SPeer *)p)->out(std::string((const char *)d, n)); return n; }
    static ssize_t pull(gnutls_transport_ptr_t p, void *d, size_t n) {
        SPeer *x = (SPeer *)p;
        if (x->in.empty()) { if (x->in_eof) return 0; gnutls_transport_set_errno(x->s, EAGAIN); return -1; }
        size_t k = std::min(n, x->in.size()); memcpy(d, x->in.data(), k); x->in.erase(0, k); return k;
    }
    static int pull_timeout(gnutls_transport_ptr_t p, unsigned) { return !((SPeer *)p)->in.empty(); }
    void start(bool server, const char *pri, std::shared_ptr<pki::Cert> c, int request, const gnutls_datum_t *ticket, const std::string &session, const std::string &trust) {
        cert = c;
        gnutls_certificate_allocate_credentials(&cred);
        if (c) { int r = gnutls_certificate_set_x509_key(cred, c->chain.data(), c->chain.size(), c->key); if (r < 0) abort(); }
        if (!trust.empty()) { gnutls_datum_t d = {(unsigned char *)trust.data(), (unsigned)trust.size()}; if (gnutls_certificate_set_x509_trust_mem(cred, &d, GNUTLS_X509_FMT_PEM) < 1) abort(); }
        const char *e; if (gnutls_priority_init(&prio, pri, &e) < 0) abort();
        gnutls_init(&s, (server ? GNUTLS_SERVER : GNUTLS_CLIENT) | GNUTLS_NONBLOCK | (server ? 0 : GNUTLS_FORCE_CLIENT_CERT));
        gnutls_priority_set(s, prio); gnutls_credentials_set(s, GNUTLS_CRD_CERTIFICATE, cred);
        if (server && request >= 0) gnutls_certificate_server_set_request(s, request ? GNUTLS_CERT_REQUEST : GNUTLS_CERT_IGNORE);
        if (server && ticket) gnutls_session_ticket_enable_server(s, ticket);
        if (!server && !session.empty()) gnutls_session_set_data(s, session.data(), session.size());
        gnutls_transport_set_ptr(s, this); gnutls_transport_set_push_function(s, push); gnutls_transport_set_pull_function(s, pull); gnutls_transport_set_pull_timeout_function(s, pull_timeout);
    }
    void pump() {
        if (!s) return;
        for (int i = 0; i < 60 && st == HANDSHAKE; i++) {
            int r = gnutls_handshake(s);
            if (r == 0) { st = UP; resumed = gnutls_session_is_resumed(s); if (!after.empty()) { std::string d; d.swap(after); send(d); } }
            else if (r == GNUTLS_E_AGAIN || r == GNUTLS_E_INTERRUPTED) { if (in.empty()) break; }
            else if (gnutls_error_is_fatal(r)) { st = FAILED; err = r; gnutls_alert_send_appropriate(s, r); }
        }
        while (st == UP) {
            char b[20000]; ssize_t n = gnutls_record_recv(s, b, sizeof b);
            if (n > 0) got.append(b, n);
            else if (n == 0) { st = ENDED; if (answer_bye && !said_bye) { gnutls_bye(s, GNUTLS_SHUT_WR); said_bye = true; } }
            else if (n == GNUTLS_E_REHANDSHAKE) { if (answer_rehandshake) { st = HANDSHAKE; return pump(); } gnutls_alert_send(s, GNUTLS_AL_WARNING, GNUTLS_A_NO_RENEGOTIATION); }
            else if (n == GNUTLS_E_AGAIN || n == GNUTLS_E_INTERRUPTED) { if (in.empty()) { if (in_eof && n == GNUTLS_E_AGAIN) { st = FAILED; err = n; } break; } }
            else if (gnutls_error_is_fatal(n)) { st = FAILED; err = n; }
        }
    }
    void send(const std::string &d) { for (size_t p = 0; p < d.size();) { ssize_t n = gnutls_record_send(s, d.data() + p, d.size() - p); if (n <= 0) break; p += n; } }
    void bye() { gnutls_bye(s, GNUTLS_SHUT_WR); said_bye = true; }
    ~SPeer() { if (s) gnutls_deinit(s); if (prio) gnutls_priority_deinit(prio); if (cred) gnutls_certificate_free_credentials(cred); }
};
// ---- simulated stream sockets of the code under test
struct Conn { std::string rx; bool rx_eof = false, rst = false, listening = false, bound = false, open = true, nonblock = false; size_t inflight = 0; std::deque<int> backlog; gnutls_session_t session = nullptr; sock_sockaddr_in_t peer{}; };
struct Sim {
    std::map<int, Conn> fds; int next_fd = 10; std::string misuse; Gen *g = nullptr; Ctx *c = nullptr;
    size_t cap = 1 << 20; int64_t delay_max = 0; bool stall = false; unsigned cut = 0; int64_t trickle = 0;      // network towards the peer and back
    long fail[6]; int fail_errno[6]; bool fault_hit = false;                                 // 0 socket, 1 connect, 2 fcntl, 3 bind/setsockopt, 4 listen, 5 accept
    long intr_at = -1, waits = 0; bool intr = false;
    int64_t last_in = 0, last_out = 0; std::string wire;
    SPeer *peer = nullptr; int fd = -1; bool refuse_connect = false; std::vector<std::string> connected_to;
    long flip_at = -1, sent_in = 0; bool flipped = false;
    Sim() { for (auto &f : fail) f = -1; }
    bool fault(int k) { if (fail[k] < 0) return false; if (fail[k]-- > 0) return false; errno = fail_errno[k]; fault_hit = true; return true; }
    void bad(const std::string &m) { if (misuse.empty()) misuse = m; }
    Conn *get(int f, const char *op) { auto i = fds.find(f); if (i == fds.end() || !i->second.open) { bad(fmt("%s on descriptor %d, which is not open", op, f)); errno = EBADF; return nullptr; } return &i->second; }
    int make() { int f = next_fd++; fds[f]; return f; }
    long open_fds() { long n = 0; for (auto &f : fds) n += f.second.open; return n; }
    int64_t delay() { return delay_max && g->chance(1, 2) ? (int64_t)g->uni(delay_max / MS + 1) * MS : MS / 10; }
    // bytes of the peer travel to the code under test in pieces
    void to_code(const std::string &d) {
        wire += d;
        std::string x = d;
        if (flip_at >= 0 && flip_at >= sent_in && flip_at < sent_in + (long)x.size()) { x[flip_at - sent_in] ^= 1 << (flip_at % 8); flipped = true; }
        sent_in += x.size();
        for (size_t p = 0; p < x.size();) {
            size_t k = trickle ? std::max<size_t>(1, std::min(x.size() - p, x.size() / 5)) : cut ? 1 + g->uni(std::min<size_t>(cut, x.size() - p)) : x.size() - p;
            std::string piece = x.substr(p, k); p += k; if (p > 4096 && cut) cut = std::max(cut, 4096u);
            int64_t t = std::max(last_in, net::now) + (trickle ? trickle : p == k ? delay() : MS / 100); last_in = t; int f = fd;
            net::at(t, [this, f, piece] { fds[f].rx += piece; });
        }
    }
    void eof_to_code(bool rst) { int64_t t = std::max(last_in, net::now) + delay(); last_in = t; int f = fd; net::at(t, [this, f, rst] { if (rst) { fds[f].rst = true; fds[f].rx.clear(); } else fds[f].rx_eof = true; }); }
    ssize_t push(int f, const void *d, size_t n) {
        Conn *x = get(f, "send"); if (!x) return -1;
        if (x->rst) { errno = EPIPE; return -1; }
        size_t k = std::min(n, cap > x->inflight ? cap - x->inflight : 0);
        if (!k) { errno = EAGAIN; if (!x->nonblock) bad("a write would block the thread without limit"); return -1; }
        if (k > 1 && cut && g->chance(1, 8)) k = 1 + g->uni(k);
        std::string s((const char *)d, k); wire += s; x->inflight += k;
        if (stall) return k;
        int64_t t = std::max(last_out, net::now) + delay(); last_out = t;
        net::at(t, [this, f, s] { fds[f].inflight -= s.size(); if (peer && fd == f) { peer->in += s; peer->pump(); } });
        return k;
    }
    ssize_t pull(int f, void *d, size_t n) {
        Conn *x = get(f, "recv"); if (!x) return -1;
        if (x->rst) { errno = ECONNRESET; return -1; }
        if (x->rx.empty()) { if (x->rx_eof) return 0; errno = EAGAIN; if (!x->nonblock) bad("a read would block the thread without limit"); return -1; }
        size_t k = std::min(n, x->rx.size()); if (k > 1 && cut && g->chance(1, 8)) k = 1 + g->uni(k);
        memcpy(d, x->rx.data(), k); x->rx.erase(0, k); return k;
    }
    bool readable(Conn &x) { return x.listening ? !x.backlog.empty() : !x.rx.empty() || x.rx_eof || x.rst; }
    bool writable(Conn &x) { return x.rst || x.inflight < cap; }
    int wait(const std::function<int()> &f, int64_t deadline) {
        if (++waits > 100000) { bad("the code loops without end"); return -2; }
        if (intr_at >= 0 && intr_at-- == 0) { intr = true; errno = EINTR; return -1; }
        while (1) {
            net::advance_to(net::now);
            int n = f(); if (n) return n;
            if (net::now >= deadline) return 0;
            int64_t t = net::next_event();
            if (t == NEVER && deadline == NEVER) { bad("waits without limit"); return -2; }
            net::advance_to(std::min(t, deadline));
        }
    }
};
Sim *S;
ssize_t cpush(gnutls_transport_ptr_t p, const void *d, size_t n) { int f = (int)(long)p; ssize_t r = S->push(f, d, n); if (r < 0 && S->fds[f].session) gnutls_transport_set_errno(S->fds[f].session, errno); return r; }
ssize_t cpull(gnutls_transport_ptr_t p, void *d, size_t n) { int f = (int)(long)p; ssize_t r = S->pull(f, d, n); if (r < 0 && S->fds[f].session) gnutls_transport_set_errno(S->fds[f].session, errno); return r; }
int cpull_timeout(gnutls_transport_ptr_t p, unsigned ms) { int f = (int)(long)p; Conn *x = S->get(f, "poll"); if (!x) return -1; int r = S->wait([x] { return (int)S->readable(*x); }, ms == GNUTLS_INDEFINITE_TIMEOUT ? NEVER : net::now + (int64_t)ms * MS); return r < 0 ? -1 : r; }
}
extern "C" {
void st_gnutls_transport_set_ptr(gnutls_session_t s, gnutls_transport_ptr_t p) {
    gnutls_transport_set_ptr(s, p); gnutls_transport_set_push_function(s, cpush); gnutls_transport_set_pull_function(s, cpull); gnutls_transport_set_pull_timeout_function(s, cpull_timeout);
    S->fds[(int)(long)p].session = s;
}
void st_gnutls_transport_set_int2(gnutls_session_t s, int r, int) { st_gnutls_transport_set_ptr(s, (gnutls_transport_ptr_t)(long)r); }
int st_socket(int, int, int) { if (S->fault(0)) return -1; return S->make(); }
int st_setsockopt(int f, int, int, const void *, socklen_t) { if (S->fault(3)) return -1; return S->get(f, "setsockopt") ? 0 : -1; }
int st_bind(int f, const struct sockaddr *a, socklen_t) { if (S->fault(3)) return -1; Conn *x = S->get(f, "bind"); if (!x) return -1; memcpy(&x->peer, a, sizeof x->peer); x->bound = true; return 0; }
int st_listen(int f, int) { if (S->fault(4)) return -1; Conn *x = S->get(f, "listen"); if (!x) return -1; x->listening = true; return 0; }
int st_connect(int f, const struct sockaddr *a, socklen_t) {
    Conn *x = S->get(f, "connect"); if (!x) return -1;
    const sock_sockaddr_in_t *in = (const sock_sockaddr_in_t *)a; char b[100] = ""; inet_ntop(SOCK_AF_INET, &in->SOCK_SIN_ADDR, b, sizeof b);
    S->connected_to.push_back(fmt("%s|%u", b, ntohs(in->SOCK_SIN_PORT)));
    if (S->fault(1)) return -1;
    if (S->refuse_connect) { errno = ECONNREFUSED; return -1; }
    S->fd = f; return 0;
}
int st_accept(int f, struct sockaddr *a, socklen_t *l) {
    if (S->fault(5)) return -1;
    Conn *x = S->get(f, "accept"); if (!x) return -1;
    if (x->backlog.empty()) { errno = EAGAIN; if (!x->nonblock) S->bad("accept would block the thread without limit"); return -1; }
    int n = x->backlog.front(); x->backlog.pop_front();
    if (a && l) { memcpy(a, &S->fds[n].peer, std::min<size_t>(*l, sizeof(sock_sockaddr_in_t))); *l = sizeof(sock_sockaddr_in_t); }
    return n;
}
int st_accept4(int f, struct sockaddr *a, socklen_t *l, int fl) { int r = st_accept(f, a, l); if (r >= 0 && (fl & SOCK_NONBLOCK)) S->fds[r].nonblock = true; return r; }
int st_fcntl(int f, int cmd, ...) { if (S->fault(2)) return -1; Conn *x = S->get(f, "fcntl"); if (!x) return -1; va_list ap; va_start(ap, cmd); int v = va_arg(ap, int); va_end(ap); if (cmd == F_SETFL) { x->nonblock = v & O_NONBLOCK; return 0; } return O_RDWR | (x->nonblock ? O_NONBLOCK : 0); }
int st_fcntl64(int f, int cmd, int v) { return st_fcntl(f, cmd, v); }
int st_close(int f) { Conn *x = S->get(f, "close"); if (!x) return -1; x->open = false; if (S->peer && f == S->fd) { int64_t t = std::max(S->last_out, net::now) + MS / 10; net::at(t, [] { if (S->peer) { S->peer->in_eof = true; S->peer->pump(); } }); } return 0; }
int st_shutdown(int f, int) { return S->get(f, "shutdown") ? 0 : -1; }
int st_select(int nfds, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv) {
    std::vector<int> rr, ww;
    for (int i = 0; i < nfds; i++) { if (r && FD_ISSET(i, r)) { if (!S->get(i, "select")) return -1; rr.push_back(i); } if (w && FD_ISSET(i, w)) { if (!S->get(i, "select")) return -1; ww.push_back(i); } }
    int64_t deadline = tv ? net::now + (int64_t)tv->tv_sec * SEC + (int64_t)tv->tv_usec * 1000 : NEVER;
    int n = S->wait([&] { int k = 0; for (int i : rr) k += S->readable(S->fds[i]); for (int i : ww) k += S->writable(S->fds[i]); return k; }, deadline);
    if (tv) { int64_t left = std::max<int64_t>(0, deadline - net::now); tv->tv_sec = left / SEC; tv->tv_usec = left % SEC / 1000; }
    if (n == -2) { errno = EIO; return -1; }
    if (n < 0) return n;
    if (r) { FD_ZERO(r); for (int i : rr) if (S->readable(S->fds[i])) FD_SET(i, r); } if (w) { FD_ZERO(w); for (int i : ww) if (S->writable(S->fds[i])) FD_SET(i, w); } if (e) FD_ZERO(e);
    return n;
}
int st_poll(struct pollfd *p, nfds_t k, int ms) {
    int n = S->wait([&] { int q = 0; for (nfds_t i = 0; i < k; i++) { p[i].revents = 0; if (p[i].fd < 0) continue; Conn &x = S->fds[p[i].fd]; if ((p[i].events & POLLIN) && S->readable(x)) p[i].revents |= POLLIN; if ((p[i].events & POLLOUT) && S->writable(x)) p[i].revents |= POLLOUT; q += p[i].revents != 0; } return q; }, ms < 0 ? NEVER : net::now + (int64_t)ms * MS);
    if (n == -2) { errno = EIO; return -1; } return n;
}
struct st_ai { struct addrinfo ai; sock_sockaddr_in_t sin; };
int st_getaddrinfo(const char *host, const char *port, const struct addrinfo *, struct addrinfo **res) {
    st_ai *v = (st_ai *)calloc(1, sizeof *v); 
    if (inet_pton(SOCK_AF_INET, host, &v->sin.SOCK_SIN_ADDR) != 1) { free(v); return EAI_NONAME; }
    v->sin.SOCK_SIN_FAMILY = SOCK_AF_INET; v->sin.SOCK_SIN_PORT = htons(atoi(port)); v->ai.ai_family = SOCK_AF_INET; v->ai.ai_socktype = SOCK_STREAM; v->ai.ai_addrlen = sizeof v->sin; v->ai.ai_addr = (struct sockaddr *)&v->sin;
    // the first address of another kind must be passed over
    st_ai *d = (st_ai *)calloc(1, sizeof *d); *d = *v; d->ai.ai_addr = (struct sockaddr *)&d->sin; d->ai.ai_socktype = SOCK_DGRAM; d->ai.ai_next = &v->ai;
    *res = &d->ai; return 0;
}
void st_freeaddrinfo(struct addrinfo *a) { while (a) { struct addrinfo *n = a->ai_next; free(a); a = n; } }
}
namespace {
const char *names[] = {"node.example", "other.example", "node.exampl", "node.example.org", "xnode.example", "NODE.example", "sub.node.example"};
const char *PRI[] = {"NORMAL", "NORMAL:-VERS-ALL:+VERS-TLS1.2", "NORMAL:-VERS-ALL:+VERS-TLS1.3"};
#ifdef SOCK_IP6
const char *HOST[] = {"fd00::1", "fd00::2", "fd00::11"};
#else
const char *HOST[] = {"10.0.0.1", "10.0.0.2", "10.0.0.11"};
#endif
void gen_spec(Gen &g, pki::Spec &sp, bool clean) {
    sp.key = g.uni(4); sp.serial = 100 + g.uni(4);
    if (clean) { if (g.chance(1, 2)) sp.issuer = pki::INTER; return; }
    sp.issuer = (pki::Issuer)g.weighted({8, 2, 4, 1, 1, 1, 1, 1});
    switch (g.weighted({4, 1, 1, 1, 1, 2})) {
    case 1: sp.from = -2000000; sp.to = -(int64_t)g.oneof<int64_t>({1, 2, 60, 86400}); break;
    case 2: sp.from = g.oneof<int64_t>({1, 2, 60, 86400}); sp.to = 2000000; break;
    case 3: sp.from = 0; break;
    case 4: sp.to = 0; break;
    case 5: sp.to = 600; break;                     // runs out between connections
    }
}
bool eq(const std::string &a, const std::string &b) { return !strcasecmp(a.c_str(), b.c_str()); }
bool name_ok(const pki::Spec &sp, const std::string &asked) {
    if (asked.empty()) return true;
    if (sp.sans.empty()) return eq(sp.cn, asked);
    for (auto &s : sp.sans) if (eq(s, asked) || (s == "*.node.example" && eq(asked, "sub.node.example"))) return true;
    return false;
}
// ---- the byte stream in both directions over an open connection
// returns false when the history ended early
std::string data_phase(Gen &g, Ctx &c, Sim &sim, SPeer &p, tls_sock_t *s, int timeout, bool tls12, bool server) {
    std::string sent, wrote, read; unsigned n = g.uni(8); bool flip = false, peer_bye = false;
    int64_t T = (int64_t)timeout * SEC;
    auto settle = [&] { while (net::next_event() != NEVER && net::next_event() <= std::max(sim.last_in, sim.last_out) + SEC) net::advance_to(net::next_event()); };
    settle(); if (p.st != SPeer::UP) return fmt("the connection is open for one side only (%d: %s)", p.err, gnutls_strerror(p.err));
    for (unsigned i = 0; i < n; i++) {
        auto len = [&]() -> size_t { switch (g.uni(5)) { case 0: return 1 + g.uni(8); case 1: return 16384 - 2 + g.uni(5); case 2: return 1 + g.below(40000); default: return 1 + g.below(600); } };
        int64_t t0 = net::now;
        switch (g.weighted({6, 4, 4, 2, 1, 1, 1, 1, 1, 1})) {
        case 0: case 1: {     // the peer sends; the code reads, in pieces of any size
            std::string d = g.blob(len()); p.send(d); sent += d; c.descf(" peer sends %zu", d.size());
            while (read.size() < sent.size() && g.chance(5, 6)) {
                bool full = g.chance(1, 3); size_t k = full ? 1 + g.below(sent.size() - read.size()) : len();
                Exact b(k); t0 = net::now;
                ssize_t r = full ? tls_sock_read_full(s, b.p(), k) : tls_sock_read(s, b.p(), k);
                c.descf(" read%s %zu=%zd", full ? "_full" : "", k, r);
                if (sim.intr) { sim.intr = false; if (r != SOCK_INTR) return fmt("a read that was interrupted returned %zd", r); if (full) return "end"; continue; }
                if (r <= 0 && !flip) return fmt("reading returned %zd though the peer had sent %zu more bytes", r, sent.size() - read.size());
                if (r <= 0) return "end";
                if ((size_t)r > k) return fmt("reading %zu bytes returned %zd", k, r);
                if (full && (size_t)r != k) return fmt("reading all of %zu bytes returned %zd", k, r);
                if (sent.compare(read.size(), r, b.p(), r)) return fmt("the bytes read at offset %zu are not those that the peer sent", read.size());
                read += sent.substr(read.size(), r);
            }
            break; }
        case 2: case 3: {     // the code writes
            std::string d = g.blob(len()); Exact b(d);
            bool full = g.chance(3, 4); ssize_t r = full ? tls_sock_write_full(s, b.p(), d.size()) : tls_sock_write(s, b.p(), d.size());
            c.descf(" write%s %zu=%zd", full ? "_full" : "", d.size(), r);
            if (sim.intr) { sim.intr = false; if (r != SOCK_INTR) return fmt("a write that was interrupted returned %zd", r); settle(); if ((wrote + d).compare(0, p.got.size(), p.got)) return "the peer received other bytes than were written"; return "end"; }
            if (r <= 0 || (size_t)r > d.size() || (full && (size_t)r != d.size())) return fmt("writing %zu bytes returned %zd", d.size(), r);
            wrote += d.substr(0, r); settle();
            if (p.got != wrote) return fmt("the peer received %zu bytes of the %zu written, or others", p.got.size(), wrote.size());
            break; }
        case 4: {             // nothing to read
            if (flip || read.size() < sent.size()) break;
            settle(); Exact b(64); t0 = net::now; ssize_t r = g.chance(1, 2) ? tls_sock_read(s, b.p(), 64) : tls_sock_read_full(s, b.p(), 64);
            c.descf(" read nothing=%zd", r);
            if (sim.intr) { sim.intr = false; break; }
            if (r != SOCK_TIMEOUT) return fmt("reading when nothing arrives returned %zd", r);
            if (net::now - t0 > T + 100 * MS || net::now - t0 < T - 100 * MS) return fmt("a read with a timeout of %d s gave up after %.3f s", timeout, (net::now - t0) / 1e9);
            c.nontrivial(); break; }
        case 5: {             // part of a record arrives in time, the rest late: nothing is lost
            if (flip || read.size() < sent.size() || timeout < 1) break;
            settle(); std::string d = g.blob(1 + g.below(3000)), raw; auto keep = p.out; p.out = [&](const std::string &x) { raw += x; }; p.send(d); p.out = keep; sent += d;
            size_t k = g.uni(raw.size()), from = 0; int f = sim.fd; int64_t at = 0; bool slow = g.chance(1, 2);
            while (slow && from < k) { size_t m = 1 + g.uni(k - from); std::string piece = raw.substr(from, m); at += (int64_t)(1 + g.uni(timeout * 600)) * MS; if (at >= T - 10 * MS) { k = from; break; } net::at(net::now + at, [&sim, f, piece] { sim.fds[f].rx += piece; }); from += m; }
            if (!slow && k) sim.to_code(raw.substr(0, k)); std::string rest = raw.substr(k);
            net::at(net::now + T + SEC, [&sim, f, rest] { sim.fds[f].rx += rest; }); sim.last_in = net::now + T + SEC; sim.wire += rest;
            Exact b(d.size()); t0 = net::now; ssize_t r = tls_sock_read(s, b.p(), d.size()); c.descf(" late record: %zd", r);
            if (sim.intr) { sim.intr = false; return "end"; }
            if (r != SOCK_TIMEOUT) return fmt("reading an incomplete record returned %zd", r);
            if (net::now - t0 > T + 100 * MS) return fmt("a read with a timeout of %d s gave up after %.3f s", timeout, (net::now - t0) / 1e9);
            net::advance_to(net::now + 2 * SEC);
            r = tls_sock_read_full(s, b.p(), d.size());
            if (sim.intr) { sim.intr = false; return "end"; }
            if (r != (ssize_t)d.size() || d.compare(0, r, b.p(), r)) return fmt("after a timeout the rest of the record was not read as sent (%zd)", r);
            read += d; c.nontrivial(); break; }
        case 6: {             // the network stalls while the code writes
            if (flip) break;
            if (g.chance(1, 3)) {     // or takes a few bytes now and then
                settle(); sim.stall = true; sim.cap = 1 + g.below(400); std::string d = g.blob(5000 + g.below(11000)); Exact b(d); t0 = net::now; int f = sim.fd; bool alive = true;
                std::shared_ptr<std::function<void()>> drip = std::make_shared<std::function<void()>>(); unsigned left = 12; int64_t gap = (int64_t)(timeout * (100 + g.uni(600))) * MS; std::weak_ptr<std::function<void()>> wd = drip;
                *drip = [&, f, wd] { if (!alive || !left--) return; sim.fds[f].inflight -= std::min<size_t>(sim.fds[f].inflight, 20); if (auto q = wd.lock()) net::at(net::now + gap, [q] { (*q)(); }); };
                net::at(net::now + gap, [drip] { (*drip)(); });
                ssize_t r = tls_sock_write(s, b.p(), d.size()); c.descf(" dripping write=%zd", r); alive = false; int64_t took = net::now - t0;
                net::advance_to(net::now + 15 * gap + SEC);      // the events refer to this frame
                if (sim.intr) { sim.intr = false; return "end"; }
                if (r != SOCK_TIMEOUT) return fmt("writing into a connection that is all but stalled returned %zd", r);
                if (took > T + 100 * MS) return fmt("a write with a timeout of %d s gave up after %.3f s", timeout, took / 1e9);
                c.nontrivial(); return "stalled";
            }
            settle(); sim.stall = true; bool later = g.chance(1, 2);      // at once, or after some records
            sim.cap = later ? 16600 + g.below(34000) : 1 + g.below(4000); std::string d = g.blob(sim.cap + 17000 + g.below(30000)); Exact b(d); t0 = net::now;
            ssize_t r = tls_sock_write_full(s, b.p(), d.size()); c.descf(" stalled write=%zd", r); sim.stall = false; sim.cap = 1 << 20;
            if (sim.intr) { sim.intr = false; return "end"; }
            if (r != SOCK_TIMEOUT) return fmt("writing into a stalled connection returned %zd", r);
            if (net::now - t0 > T + 100 * MS) return fmt("a write with a timeout of %d s gave up after %.3f s", timeout, (net::now - t0) / 1e9);
            sim.stall = true; c.nontrivial(); return "stalled"; }
        case 7: {             // orderly end by the peer
            if (flip || peer_bye) break;
            p.bye(); peer_bye = true;
            while (1) { size_t k = 1 + g.below(5000); Exact b(k); ssize_t r = tls_sock_read(s, b.p(), k); if (sim.intr) { sim.intr = false; continue; } if (r == 0) break; if (r < 0) return fmt("reading up to the end of the stream returned %zd", r); if (sent.compare(read.size(), r, b.p(), r) || read.size() + r > sent.size()) return "the bytes read are not those that the peer sent"; read += sent.substr(read.size(), r); }
            if (read != sent) return fmt("the end of the stream was reported after %zu of %zu bytes", read.size(), sent.size());
            c.nontrivial(); return "end"; }
        case 8: {             // the connection breaks without an orderly end
            bool rst = g.chance(1, 2); sim.eof_to_code(rst); c.descf(rst ? " reset" : " cut off");
            if (rst && g.chance(1, 3)) {
                settle(); std::string d = g.blob(len()); Exact b(d); ssize_t r = g.chance(3, 4) ? tls_sock_write_full(s, b.p(), d.size()) : tls_sock_write(s, b.p(), d.size()); c.descf(" write=%zd", r);
                if (r >= 0) return fmt("writing %zu bytes to a connection that was reset returned %zd", d.size(), r);
                sim.intr = false; c.nontrivial(); return "end";
            }
            for (int q = 0; q < 4000; q++) { size_t k = 1 + g.below(5000); Exact b(k); ssize_t r = tls_sock_read(s, b.p(), k); if (sim.intr) { sim.intr = false; continue; } if (r < 0) break; if (r == 0) return "a connection that was cut off is reported as an orderly end"; if (read.size() + r > sent.size() || sent.compare(read.size(), r, b.p(), r)) return "the bytes read are not those that the peer sent"; read += sent.substr(read.size(), r); }
            if (!rst && !flip && read != sent) return fmt("only %zu of %zu bytes sent before the connection was cut off were read", read.size(), sent.size());
            c.nontrivial(); return "end"; }
        case 9: {             // from now on a byte in transit is altered
            if (flip) break;
            settle(); sim.flip_at = sim.sent_in + g.below(3000); flip = true; c.descf(" byte %ld altered", sim.flip_at); c.nontrivial(); break; }
        }
    }
    if (flip && !sim.flipped) { flip = false; sim.flip_at = -1; }
    if (!flip && tls12 && server && g.chance(1, 3) && read == sent) {      // renegotiation
        settle(); p.answer_rehandshake = g.chance(2, 3); int r = tls_sock_rehandshake(s); c.descf(" rehandshake=%d", r);
        if (sim.intr) { sim.intr = false; return "end"; }
        if (p.answer_rehandshake && r != SOCK_OK) return fmt("the handshake was not repeated: %d", r);
        if (!p.answer_rehandshake && r != SOCK_TLS_REHANDSHAKE_REFUSED_ERROR) return fmt("a refused new handshake returned %d", r);
        std::string d = g.blob(1 + g.below(500)); Exact b(d.size()); p.send(d); ssize_t q = tls_sock_read_full(s, b.p(), d.size());
        if (sim.intr) { sim.intr = false; return "end"; }
        if (q != (ssize_t)d.size() || d.compare(0, q, b.p(), q)) return fmt("after a new handshake reading returned %zd", q);
        c.label("rehandshake");
    }
    if (!flip && tls12 && !server && g.chance(1, 3) && read == sent) {     // the server asks for a new handshake while the code reads
        settle(); std::string d = g.blob(1 + g.below(500)); if (g.chance(1, 2)) { p.send(d.substr(0, d.size() / 2)); p.after = d.substr(d.size() / 2); } else p.after = d;
        if (gnutls_rehandshake(p.s) == 0) {
            p.st = SPeer::HANDSHAKE; Exact b(d.size()); ssize_t q = tls_sock_read_full(s, b.p(), d.size()); c.descf(" handshake asked for, read=%zd", q);
            if (sim.intr) { sim.intr = false; return "end"; }
            if (q != (ssize_t)d.size() || d.compare(0, q, b.p(), q)) return fmt("reading across a new handshake returned %zd", q);
            if (p.st != SPeer::UP) return "the new handshake that the server asked for was not made";
            c.label("rehandshake asked for by the server");
        } else p.after.clear();
    }
    if (flip) return "end";
    return "";
}
void finish(Ctx &c, Sim &sim) {
    if (!sim.misuse.empty()) c.fail("%s", sim.misuse.c_str());
    if (sim.open_fds()) c.fail("%ld descriptors left open", sim.open_fds());
    if (!tls::left().empty()) c.fail("not released: %s", tls::left().c_str());
    if (heap::live) c.fail("%ld heap blocks leaked", heap::live);
    pki::reset();
}
void begin(Gen &g) { pki::init(); net::reset(g.seed64()); net::wall = 1500000000; tls::reset(); heap::reset(); coap_log_set_level(getenv("VF_LOG") ? COAP_LOG_DEBUG : (coap_log_level_t)-1); }
bool opened; // tls_init succeeded
void tcli(Gen &g, Ctx &c) {
    begin(g);
    unsigned nsrv = 1 + g.uni(2); bool clean = g.chance(1, 3);
    struct Srv { pki::Spec sp; std::shared_ptr<pki::Cert> cert; gnutls_datum_t ticket{nullptr, 0}; unsigned pri; bool tickets; int request; } srv[2];
    struct Free { Srv *s; unsigned n; ~Free() { for (unsigned i = 0; i < n; i++) if (s[i].ticket.data) gnutls_free(s[i].ticket.data); } } fr{srv, nsrv};
    for (unsigned i = 0; i < nsrv; i++) {
        Srv &s = srv[i]; gen_spec(g, s.sp, clean);
        s.sp.cn = clean ? "node.example" : names[g.weighted({8, 1, 1, 1, 1, 1, 1})];
        if (!clean && g.chance(1, 3)) { unsigned n = 1 + g.uni(2); for (unsigned k = 0; k < n; k++) s.sp.sans.push_back(g.chance(1, 5) ? "*.node.example" : names[g.uni(7)]); }
        s.cert = pki::make(s.sp); s.pri = g.uni(3); s.tickets = g.chance(2, 3); s.request = g.chance(1, 2); if (s.tickets) gnutls_session_ticket_key_generate(&s.ticket);
    }
    unsigned anchors = clean ? 1 : 1 + g.weighted({8, 1, 1});
    std::string trust; if (anchors & 1) trust += pki::ca_pem(1); if (anchors & 2) trust += pki::ca_pem(2);
    pki::Spec ms; ms.cn = "client"; ms.key = 5; auto mine = pki::make(ms);
    std::string ft = pki::file(trust), fc = pki::file(mine->pem), fk = pki::file(mine->key_pem); bool badfile = false, cred = g.chance(2, 3);
    if (!clean && g.chance(1, 20)) { badfile = true; switch (g.uni(AUTH && cred ? 4 : 2)) { case 0: ft = "/nonexistent/trust"; break; case 1: ft = pki::file("nonsense"); break; case 2: fc = pki::file("nonsense"); break; case 3: fk = pki::file("nonsense"); break; } }
    Sim sim; S = &sim; sim.g = &g; sim.c = &c;
    int inject = g.chance(1, 8) ? 1 + g.uni(3) : 0;
    if (inject == 1) tls::fail_at = g.below(18); if (inject == 2) heap::fail_at = g.uni(2);
    if (inject == 3) { int k = g.uni(3); sim.fail[k] = g.uni(4); sim.fail_errno[k] = g.oneof({EMFILE, ECONNREFUSED, ENETUNREACH, EINTR}); }
    int r = tls_init();
    if (r != SOCK_OK) { tls_deinit(); if (!tls::failed) c.fail("tls_init returned %d", r); if (sim.fault_hit) {} finish(c, sim); c.label("initialisation failed"); S = nullptr; return; }
    tls_client_t cl; memset(&cl, 0x5a, sizeof cl);
    r = tls_client_create(&cl, ft.c_str(), cred ? fc.c_str() : nullptr, cred ? fk.c_str() : nullptr);
    bool hit = tls::failed || (heap::fail_at >= 0 && heap::count > heap::fail_at);
    if (r == SOCK_OK && (badfile || hit)) c.fail("a client was created although %s", badfile ? "a file cannot be used" : "a library call or allocation failed");
    if (r != SOCK_OK && !badfile && !hit) c.fail("the client was not created: %d", r);
    if (r != SOCK_OK) { if (badfile) c.nontrivial(); tls_deinit(); finish(c, sim); c.label("client not created"); S = nullptr; return; }
    unsigned ncon = 1 + g.uni(4); std::map<std::string, std::pair<unsigned, bool>> cached;     // address -> server, resumable
    for (unsigned i = 0; i < ncon; i++) {
        unsigned si = g.uni(nsrv), hi = g.chance(3, 4) ? si : g.uni(3); Srv &sv = srv[si]; std::string host = HOST[hi], port = g.chance(1, 2) ? "443" : "8443";
        std::string asked = g.chance(1, 3) ? "" : clean ? "node.example" : names[g.weighted({8, 1, 1, 1, 1, 1, 1})];
        int timeout = g.oneof({1, 2, 5, 30}); unsigned mode = !clean && g.chance(1, 8) ? 1 + g.uni(6) : 0;    // 1 silent 2 garbage 3 eof 4 reset 5 refused, after some bytes; 6 everything arrives bit by bit
        SPeer p; sim.peer = &p; sim.fd = -1; sim.last_in = sim.last_out = net::now; sim.sent_in = 0; sim.flip_at = -1; sim.flipped = false; sim.stall = false; sim.cap = 1 << 20; sim.connected_to.clear();
        sim.delay_max = g.chance(1, 3) ? 20 * MS : 0; sim.cut = g.chance(1, 3) ? (unsigned)g.oneof({1, 3, 50, 500, 3000}) : 0;
        sim.trickle = mode == 6 ? (int64_t)timeout * (100 + g.uni(800)) * MS : 0; sim.intr = false; sim.intr_at = g.chance(1, 12) ? (long)g.below(8) : -1; sim.fault_hit = false; sim.refuse_connect = mode == 5; sim.wire.clear();
        size_t gone_after = g.below(1500), pushed = 0;
        p.out = [&](const std::string &d) {
            std::string x = d; if (mode && mode < 5) { size_t room = gone_after > pushed ? gone_after - pushed : 0; bool cutoff = x.size() > room; if (x.size() > room) x.resize(room); pushed += d.size(); if (!x.empty()) sim.to_code(x); if (cutoff) { if (mode == 2) sim.to_code(g.blob(200)); if (mode == 3) sim.eof_to_code(false); if (mode == 4) sim.eof_to_code(true); p.out = [](const std::string &) {}; } return; }
            sim.to_code(x);
        };
        p.answer_bye = g.chance(5, 6);
        p.start(true, PRI[sv.pri], sv.cert, sv.request, sv.tickets ? &sv.ticket : nullptr, "", "");
        c.descf("\nconnect %s:%s %s%s%s asked=%s timeout=%d mode=%u cut=%u", host.c_str(), port.c_str(), pki::issuer_name[sv.sp.issuer], sv.pri == 1 ? " TLS1.2" : sv.pri == 2 ? " TLS1.3" : "", sv.tickets ? " tickets" : "", asked.c_str(), timeout, mode, sim.cut);
        tls_sock_t s; memset(&s, 0x5a, sizeof s); bool failed0 = tls::failed; tls::failed = false; (void)failed0;
        int64_t t0 = net::now; long w0 = sim.waits;
        r = tls_sock_open(&s, &cl, host.c_str(), port.c_str(), asked.empty() ? nullptr : asked.c_str(), timeout);
        int64_t el = net::now / SEC; bool trusted = pki::chain_ok(sv.sp, anchors) && pki::time_ok(sv.sp, el) && name_ok(sv.sp, asked);
        bool trusted0 = pki::chain_ok(sv.sp, anchors) && pki::time_ok(sv.sp, t0 / SEC) && name_ok(sv.sp, asked);
        c.descf(" -> %d%s", r, r == SOCK_OK && tls_sock_is_resumed(&s) ? " resumed" : ""); (void)w0;
        if (!sim.misuse.empty()) c.fail("%s", sim.misuse.c_str());
        if (net::now - t0 > (int64_t)timeout * SEC + SEC) c.fail("opening a connection with a timeout of %d s took %.3f s", timeout, (net::now - t0) / 1e9);
        if (mode == 6) c.label("slow handshake");
        for (auto &a : sim.connected_to) if (a != host + "|" + port) c.fail("connected to %s instead of %s|%s", a.c_str(), host.c_str(), port.c_str());
        bool disturbed = mode || sim.intr || sim.fault_hit || tls::failed;
        if (r == SOCK_OK && !trusted && !trusted0) c.fail("a server was accepted that must not be trusted (issuer %s, valid %lld..%lld at %lld, name '%s' and %zu others, asked '%s', anchors %u%s)", pki::issuer_name[sv.sp.issuer], (long long)sv.sp.from, (long long)sv.sp.to, (long long)el, sv.sp.cn.c_str(), sv.sp.sans.size(), asked.c_str(), anchors, tls_sock_is_resumed(&s) ? ", resumed session" : "");
        if (r == SOCK_OK && (mode == 5 || sim.fault_hit || tls::failed)) c.fail("opening succeeded although a system or library call failed");
        if (r != SOCK_OK && trusted && trusted0 && !disturbed) c.fail("a trusted server was refused: %d (%s)", r, p.err ? gnutls_strerror(p.err) : "");
        if (r > 0) c.fail("opening returned %d", r);
        sim.intr = false; sim.intr_at = -1;
        if (r != SOCK_OK) {
            for (int k = 0; k < 3; k++) { while (net::next_event() != NEVER && net::next_event() < net::now + 60 * SEC) net::advance_to(net::next_event()); p.pump(); }
            if (!p.got.empty()) c.fail("data was sent to a server that was refused");
            if (sim.open_fds()) c.fail("opening failed (%d) and left %ld descriptors open", r, sim.open_fds());
            if (!trusted) { c.nontrivial(); c.label("refused"); } else c.label("not connected");
        } else {
            bool res = tls_sock_is_resumed(&s); c.label(res ? "resumed" : "accepted");
            auto it = cached.find(host);
            if (it != cached.end() && it->second.second && it->second.first == si && sv.tickets && sv.pri == 1 && !res) c.fail("the session that was ended in order was not resumed");
            if (AUTH && cred && sv.request && !res && sv.pri == 1) { unsigned n = 0; const gnutls_datum_t *l = gnutls_certificate_get_peers(p.s, &n); if (!l || !n) c.fail("the client did not present its certificate"); }
            sim.intr_at = g.chance(1, 10) ? (long)g.below(10) : -1;
            std::string e = mode ? "end" : data_phase(g, c, sim, p, &s, timeout, sv.pri == 1, false);
            if (!sim.misuse.empty()) c.fail("%s", sim.misuse.c_str());
            if (!e.empty() && e != "end" && e != "stalled") c.fail("%s", e.c_str());
            for (size_t k = 0; k + 16 <= p.got.size(); k += 997) if (sim.wire.find(p.got.substr(k, 16)) != std::string::npos) c.fail("data travelled in plain text");
            sim.intr_at = -1; t0 = net::now;
            tls_sock_close(&s); c.descf(" close");
            if (net::now - t0 > (int64_t)(timeout + 2) * SEC) c.fail("closing a connection with a timeout of %d s took %.3f s", timeout, (net::now - t0) / 1e9);
            while (net::next_event() != NEVER && net::next_event() < net::now + 60 * SEC) net::advance_to(net::next_event());
            if (e.empty() && !mode && p.st != SPeer::ENDED) c.fail("the server was not told that the connection ended (state %d, %d)", p.st, p.err);
            if (e.empty() && !mode && p.answer_bye && sv.tickets) cached[host] = {si, true}; else if (!(e.empty() && !p.answer_bye)) cached[host].second = false; 
        }
        sim.peer = nullptr;
        if (g.chance(1, 4)) net::advance_to(net::now + g.oneof<int64_t>({1, 300, 700}) * SEC), cached.clear();      // tickets may run out
    }
    tls_client_destroy(&cl); tls_deinit();
    finish(c, sim); S = nullptr;
}
void tsrv(Gen &g, Ctx &c) {
    begin(g);
    bool clean = g.chance(1, 3); unsigned ncl = 1 + g.uni(3);
    struct Cli { pki::Spec sp; std::shared_ptr<pki::Cert> cert; unsigned pri; std::string session; bool with; } cli[3];
    for (unsigned i = 0; i < ncl; i++) { gen_spec(g, cli[i].sp, clean); cli[i].sp.cn = fmt("client %u", i); cli[i].cert = pki::make(cli[i].sp); cli[i].pri = g.uni(3); cli[i].with = clean || !g.chance(1, 10); }
    unsigned anchors = clean ? 1 : 1 + g.weighted({8, 1, 1});
    std::string trust; if (anchors & 1) trust += pki::ca_pem(1); if (anchors & 2) trust += pki::ca_pem(2);
    pki::Spec ms; ms.cn = "node.example"; ms.key = 5; if (g.chance(1, 2)) ms.issuer = pki::INTER; auto mine = pki::make(ms);
    std::string ft = pki::file(trust), fc = pki::file(mine->pem), fk = pki::file(mine->key_pem); bool badfile = false;
    if (!clean && g.chance(1, 20)) { badfile = true; switch (g.uni(AUTH ? 5 : 3)) { case 0: fc = pki::file("nonsense"); break; case 1: fk = pki::file("nonsense"); break; case 2: { pki::Spec o = ms; o.key = 6; fk = pki::file(pki::make(o)->key_pem); break; } case 3: ft = "/nonexistent/trust"; break; case 4: ft = pki::file("nonsense"); break; } }
    Sim sim; S = &sim; sim.g = &g; sim.c = &c;
    int inject = g.chance(1, 8) ? 1 + g.uni(3) : 0;
    if (inject == 1) tls::fail_at = g.below(20); if (inject == 2) heap::fail_at = g.uni(2);
    if (inject == 3) { int k = g.oneof({0, 2, 3, 4, 5}); sim.fail[k] = g.uni(4); sim.fail_errno[k] = g.oneof({EMFILE, EADDRINUSE, ECONNABORTED}); }
    int r = tls_init();
    if (r != SOCK_OK) { tls_deinit(); if (!tls::failed) c.fail("tls_init returned %d", r); finish(c, sim); c.label("initialisation failed"); S = nullptr; return; }
    tls_server_t sv; memset(&sv, 0x5a, sizeof sv);
    r = tls_server_create(&sv, ft.c_str(), fc.c_str(), fk.c_str());
    bool hit = tls::failed || (heap::fail_at >= 0 && heap::count > heap::fail_at);
    if (r == SOCK_OK && (badfile || hit)) c.fail("a server was created although %s", badfile ? "a file cannot be used" : "a library call or allocation failed");
    if (r != SOCK_OK && !badfile && !hit) c.fail("the server was not created: %d", r);
    if (r != SOCK_OK) { if (badfile) c.nontrivial(); tls_deinit(); finish(c, sim); c.label("server not created"); S = nullptr; return; }
    int timeout = g.oneof({1, 2, 5, 30}); tls_ssock_t ss; memset(&ss, 0x5a, sizeof ss); unsigned port = 1 + g.uni(65535);
    r = tls_ssock_open(&ss, &sv, fmt("%u", port).c_str(), timeout, 1 + g.uni(10));
    if ((r == SOCK_OK) == sim.fault_hit) c.fail("opening the listening socket returned %d%s", r, sim.fault_hit ? " although a system call failed" : "");
    if (r != SOCK_OK) { tls_server_destroy(&sv); tls_deinit(); finish(c, sim); c.label("not listening"); S = nullptr; return; }
    int lfd = -1; for (auto &f : sim.fds) if (f.second.listening) lfd = f.first;
    if (lfd < 0 || ntohs(sim.fds[lfd].peer.SOCK_SIN_PORT) != port) c.fail("the server does not listen on port %u", port);
    unsigned ncon = 1 + g.uni(5);
    for (unsigned i = 0; i < ncon; i++) {
        Cli &cl = cli[g.uni(ncl)]; unsigned mode = !clean && g.chance(1, 8) ? 1 + g.uni(6) : 0;      // 1 silent 2 garbage 3 eof 4 reset, after some bytes; 5 nobody connects; 6 everything arrives bit by bit
        SPeer p; int fd = sim.make(); Conn &x = sim.fds[fd]; x.peer.SOCK_SIN_FAMILY = SOCK_AF_INET; inet_pton(SOCK_AF_INET, HOST[g.uni(3)], &x.peer.SOCK_SIN_ADDR); x.peer.SOCK_SIN_PORT = htons(5000 + i);
        sim.peer = &p; sim.fd = fd; sim.last_in = sim.last_out = net::now; sim.sent_in = 0; sim.flip_at = -1; sim.flipped = false; sim.stall = false; sim.cap = 1 << 20;
        sim.delay_max = g.chance(1, 3) ? 20 * MS : 0; sim.cut = g.chance(1, 3) ? (unsigned)g.oneof({1, 3, 50, 500, 3000}) : 0;
        sim.trickle = mode == 6 ? (int64_t)timeout * (100 + g.uni(800)) * MS : 0; sim.intr = false; sim.intr_at = g.chance(1, 12) ? (long)g.below(8) : -1; sim.fault_hit = false; sim.wire.clear();
        size_t gone_after = g.below(1500), pushed = 0;
        p.out = [&](const std::string &d) {
            std::string y = d; if (mode && mode < 5) { size_t room = gone_after > pushed ? gone_after - pushed : 0; bool cutoff = y.size() > room; if (cutoff) y.resize(room); pushed += d.size(); if (!y.empty()) sim.to_code(y); if (cutoff) { if (mode == 2) sim.to_code(g.blob(200)); if (mode == 3) sim.eof_to_code(false); if (mode == 4) sim.eof_to_code(true); p.out = [](const std::string &) {}; } return; }
            sim.to_code(y);
        };
        p.answer_bye = g.chance(5, 6);
        bool resume = !cl.session.empty() && g.chance(2, 3);
        p.start(false, PRI[cl.pri], cl.with ? cl.cert : nullptr, -1, nullptr, resume ? cl.session : "", pki::ca_pem(1));
        bool late = g.chance(1, 4); int64_t t0 = net::now;
        if (mode == 5) { sim.fds[fd].open = false; sim.peer = nullptr; }
        else net::at(late ? net::now + (int64_t)g.uni(timeout * 900) * MS : net::now, [&sim, lfd, fd, &p] { sim.fds[lfd].backlog.push_back(fd); sim.last_in = std::max(sim.last_in, net::now); p.pump(); });
        net::advance_to(net::now);
        c.descf("\n%s%s%s%s mode=%u cut=%u timeout=%d", cl.with ? pki::issuer_name[cl.sp.issuer] : "no certificate", cl.pri == 1 ? " TLS1.2" : cl.pri == 2 ? " TLS1.3" : "", resume ? " resuming" : "", late ? " late" : "", mode, sim.cut, timeout);
        tls_sock_t s; memset(&s, 0x5a, sizeof s); tls::failed = false;
        r = tls_ssock_accept(&ss, &s);
        int64_t el = net::now / SEC; bool trusted = !AUTH || (cl.with && pki::chain_ok(cl.sp, anchors) && pki::time_ok(cl.sp, el)), trusted0 = !AUTH || (cl.with && pki::chain_ok(cl.sp, anchors) && pki::time_ok(cl.sp, t0 / SEC));
        c.descf(" -> %d%s", r, r == SOCK_OK && tls_sock_is_resumed(&s) ? " resumed" : "");
        if (!sim.misuse.empty()) c.fail("%s", sim.misuse.c_str());
        if (net::now - t0 > (int64_t)(2 * timeout + 1) * SEC) c.fail("accepting with a timeout of %d s took %.3f s", timeout, (net::now - t0) / 1e9);
        bool disturbed = mode || sim.intr || sim.fault_hit || tls::failed;
        if (r == SOCK_OK && !trusted && !trusted0) c.fail("a client was accepted that must not be trusted (%s, valid %lld..%lld at %lld, anchors %u%s)", cl.with ? pki::issuer_name[cl.sp.issuer] : "no certificate", (long long)cl.sp.from, (long long)cl.sp.to, (long long)el, anchors, tls_sock_is_resumed(&s) ? ", resumed session" : "");
        if (r == SOCK_OK && (mode == 5 || sim.fault_hit || tls::failed)) c.fail("accepting succeeded although %s", mode == 5 ? "nobody connected" : "a system or library call failed");
        if (r != SOCK_OK && trusted && trusted0 && !disturbed) c.fail("a client that is to be served was refused: %d (%s)", r, p.err ? gnutls_strerror(p.err) : "");
        if (r > 0) c.fail("accepting returned %d", r);
        if (mode == 5 && !sim.intr && !sim.fault_hit && (r != SOCK_TIMEOUT || std::abs(net::now - t0 - (int64_t)timeout * SEC) > 100 * MS)) c.fail("accepting when nobody connects returned %d after %.3f s (timeout %d s)", r, (net::now - t0) / 1e9, timeout);
        sim.intr = false; sim.intr_at = -1;
        if (r != SOCK_OK) {
            for (int f : sim.fds[lfd].backlog) sim.fds[f].open = false;      // not accepted
            if (std::find(sim.fds[lfd].backlog.begin(), sim.fds[lfd].backlog.end(), fd) == sim.fds[lfd].backlog.end() && sim.fds[fd].open && mode != 5) { bool pending = false; if (late && net::now - t0 < (int64_t)timeout * SEC) pending = true; if (!pending) c.fail("a connection that was refused (%d) was left open", r); }
            sim.fds[lfd].backlog.clear();
            while (net::next_event() != NEVER && net::next_event() < net::now + 60 * SEC) { net::advance_to(net::next_event()); }
            sim.fds[lfd].backlog.clear(); sim.fds[fd].open = false;
            if (!trusted) { c.nontrivial(); c.label("refused"); } else c.label("not connected");
            cl.session.clear();
        } else {
            bool res = tls_sock_is_resumed(&s); c.label(res ? "resumed" : "accepted");
            if (resume && cl.pri == 1 && !res && !mode) c.fail("the server did not resume a recent session");
            char as[100] = ""; tls_sock_get_addr_string(&s, as, sizeof as); char want[100]; inet_ntop(SOCK_AF_INET, &x.peer.SOCK_SIN_ADDR, want, sizeof want);
            if (strcmp(as, want) || tls_sock_get_port(&s) != 5000 + i) c.fail("the connection of %s port %u is reported as one of %s port %u", want, 5000 + i, as, tls_sock_get_port(&s));
            unsigned st = 0; if (!mode && p.st == SPeer::UP && (gnutls_certificate_verify_peers3(p.s, "node.example", &st) < 0 || st)) c.fail("the server does not present the certificate it was given (%u)", st);
            sim.intr_at = g.chance(1, 10) ? (long)g.below(10) : -1;
            std::string e = mode ? "end" : data_phase(g, c, sim, p, &s, timeout, cl.pri == 1, true);
            if (!sim.misuse.empty()) c.fail("%s", sim.misuse.c_str());
            if (!e.empty() && e != "end" && e != "stalled") c.fail("%s", e.c_str());
            for (size_t k = 0; k + 16 <= p.got.size(); k += 997) if (sim.wire.find(p.got.substr(k, 16)) != std::string::npos) c.fail("data travelled in plain text");
            cl.session.clear();
            if (e.empty() && cl.pri == 1) { gnutls_datum_t d; if (gnutls_session_get_data2(p.s, &d) == 0) { cl.session.assign((char *)d.data, d.size); gnutls_free(d.data); } }
            sim.intr_at = -1; t0 = net::now;
            tls_sock_close(&s);
            if (net::now - t0 > (int64_t)(timeout + 2) * SEC) c.fail("closing a connection with a timeout of %d s took %.3f s", timeout, (net::now - t0) / 1e9);
            while (net::next_event() != NEVER && net::next_event() < net::now + 60 * SEC) net::advance_to(net::next_event());
            if (e.empty() && !mode && p.st != SPeer::ENDED) c.fail("the client was not told that the connection ended (state %d, %d)", p.st, p.err);
        }
        sim.peer = nullptr;
        if (g.chance(1, 4)) net::advance_to(net::now + g.oneof<int64_t>({1, 300, 700}) * SEC);
    }
    tls_ssock_close(&ss); tls_server_destroy(&sv); tls_deinit();
    finish(c, sim); S = nullptr;
}
// ---- the session caches as maps that keep the most recent entries
void tcache(Gen &g, Ctx &c) {
    begin(g); Sim sim; S = &sim; sim.g = &g;
    pki::Spec ms; ms.cn = "x"; static std::string t, ce, k; if (t.empty()) { auto m = pki::make(ms); t = pki::ca_pem(1); ce = m->pem; k = m->key_pem; }
    std::string ft = pki::file(t), fc = pki::file(ce), fk = pki::file(k);
    if (tls_init()) c.fail("tls_init");
    unsigned n = 1 + g.uni(160), nk = 1 + g.uni(70); std::string err;
    if (g.chance(1, 2)) {
        tls_client_t cl; if (tls_client_create(&cl, ft.c_str(), nullptr, nullptr)) c.fail("tls_client_create");
        std::map<std::string, std::string> m; std::vector<std::string> order;      // first stored first
        for (unsigned i = 0; i < n && err.empty(); i++) {
            char addr[SOCK_INET_ADDRSTRLEN]; unsigned q = g.uni(nk);
#ifdef SOCK_IP6
            snprintf(addr, sizeof addr, "2001:db8:ffff:ffff:ffff:ffff:255.255.%u.255", 100 + q);
#else
            snprintf(addr, sizeof addr, "255.255.%u.255", 100 + q);
#endif
            if (g.chance(2, 3)) {
                size_t l = g.chance(1, 4) ? 2046 + g.uni(4) : 1 + g.below(2048); std::string d = g.blob(l); Exact b(d); gnutls_datum_t x = {(unsigned char *)b.p(), (unsigned)l};
                int r = tls_client_set(&cl, addr, x);
                if ((r == SOCK_OK) != (l <= TLS_CLIENT_MAX_SESSION_DATA_SIZE)) err = fmt("storing %zu bytes returned %d", l, r);
                if (r == SOCK_OK) { if (!m.count(addr)) { order.push_back(addr); if (order.size() > TLS_CLIENT_CACHE_SIZE) { m.erase(order[0]); order.erase(order.begin()); c.nontrivial(); } } m[addr] = d; }
            } else {
                gnutls_datum_t x = tls_client_get(&cl, addr);
                std::string got = x.size ? std::string((char *)x.data, x.size) : "";
                if (m.count(addr) ? got != m[addr] : !got.empty()) err = fmt("the cache returned %zu bytes for %s, expected %zu%s", got.size(), addr, m.count(addr) ? m[addr].size() : 0, m.count(addr) && got.size() == m[addr].size() ? " others" : "");
            }
        }
        tls_client_destroy(&cl);
    } else {
        tls_server_t sv; if (tls_server_create(&sv, ft.c_str(), fc.c_str(), fk.c_str())) c.fail("tls_server_create");
        std::map<std::string, std::string> m; std::map<std::string, unsigned> at; unsigned sets = 0;
        unsigned base = g.uni(2);
        for (unsigned i = 0; i < n && err.empty(); i++) {
            unsigned q = g.uni(nk); std::string key = base ? std::string(32, 'k') : std::string(1 + q % 32, 'k'); key[key.size() - 1] = (char)q; key[0] ^= (char)(q / 8);
            Exact kb(key); gnutls_datum_t kd = {(unsigned char *)kb.p(), (unsigned)key.size()};
            switch (g.weighted({4, 2, 1})) {
            case 0: {
                size_t l = g.chance(1, 4) ? 2046 + g.uni(4) : 1 + g.below(2048); if (g.chance(1, 20)) { key = std::string(33 + g.uni(8), 'z'); } Exact kb2(key); kd.data = (unsigned char *)kb2.p(); kd.size = key.size();
                std::string d = g.blob(l); Exact b(d); gnutls_datum_t x = {(unsigned char *)b.p(), (unsigned)l};
                int r = tls_server_set(&sv, kd, x); bool fit = l <= TLS_SERVER_MAX_SESSION_DATA_SIZE && key.size() <= TLS_SERVER_MAX_SESSION_ID_SIZE;
                if ((r == SOCK_OK) != fit) err = fmt("storing %zu bytes under a key of %zu returned %d", l, key.size(), r);
                if (r == SOCK_OK) { if (!(m.count(key) && sets - at[key] <= TLS_SERVER_CACHE_SIZE)) at[key] = sets++; m[key] = d; if (sets > TLS_SERVER_CACHE_SIZE) c.nontrivial(); }
                break; }
            case 1: {
                gnutls_datum_t x = tls_server_get(&sv, kd); std::string got = x.size ? std::string((char *)x.data, x.size) : ""; if (x.data) gnutls_free(x.data);
                bool must = m.count(key) && sets - at[key] <= TLS_SERVER_CACHE_SIZE;
                if (!got.empty() ? !m.count(key) || got != m[key] : must) err = fmt("the cache returned %zu bytes for a key %s", got.size(), !m.count(key) ? "that is not stored" : got.empty() ? "that was stored recently" : "under which others were stored last");
                break; }
            case 2: {
                int r = tls_server_delete(&sv, kd); bool must = m.count(key) && sets - at[key] <= TLS_SERVER_CACHE_SIZE;
                if (r == SOCK_OK ? !m.count(key) : must) err = fmt("deleting returned %d", r);
                m.erase(key); at.erase(key); break; }
            }
        }
        tls_server_destroy(&sv);
    }
    tls_deinit();
    c.descf("%u operations on %u keys", n, nk);
    if (!err.empty()) c.fail("%s", err.c_str());
    finish(c, sim); S = nullptr;
}
}
PROPERTY("C30", "tls-client", "a server refused for its certificate, or a timeout, end, break or alteration of the stream", 3, tcli);
PROPERTY("C30", "tls-server", "a client refused for its certificate, or a timeout, end, break or alteration of the stream", 3, tsrv);
PROPERTY("C30", "session-caches", "a cache overflowed", 1, tcache);
