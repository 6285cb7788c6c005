// C35: threads that work on objects of their own do not disturb each other. What each of several threads obtains while
// they run together has to be what it obtains alone, and ThreadSanitizer must see no unsynchronised access.
#include "pbt.h"
#include <string.h>
#include <errno.h>
#include <pthread.h>
#include <sched.h>
#include <unistd.h>
#include <sys/select.h>
#include <poll.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <map>
#include <mutex>
#include <atomic>
#include <algorithm>
extern "C" {
#include "coap_mem.h"
#include "coap_msg.h"
#include "coap_log.h"
#ifndef EXCHANGES
#include "connection.h"
#include "http_msg.h"
#include "uri.h"
#include "cross.h"
#include "config.h"
#include "tls.h"
#else
#include "coap_client.h"
#include "coap_server.h"
#endif
}
using namespace pbt;
namespace {
struct Rnd {
    uint64_t s;
    uint64_t next() { uint64_t z = (s += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
    unsigned below(unsigned n) { return n ? next() % n : 0; }
    bool chance(unsigned a, unsigned b) { return below(b) < a; }
    std::string str(size_t n, const char *al) { std::string r; size_t l = strlen(al); while (n--) r += al[below(l)]; return r; }
    std::string bytes(size_t n) { std::string r; while (n--) r += (char)next(); return r; }
};
void hexcat(std::string &o, const void *p, size_t n) { static const char *h = "0123456789abcdef"; const unsigned char *b = (const unsigned char *)p; for (size_t i = 0; i < n; i++) { o += h[b[i] >> 4]; o += h[b[i] & 15]; } o += ';'; }
void num(std::string &o, long v) { o += std::to_string(v); o += ';'; }
struct Job { int kind; uint64_t seed; std::string out; };
struct Lane { std::vector<Job> jobs; pthread_barrier_t *bar = nullptr; };
uint64_t hash(const std::string &s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) h = (h ^ c) * 1099511628211ull; return h; }
void dump(std::string &o, coap_msg_t *m) {
    char b[1300]; ssize_t n = coap_msg_format(m, b, sizeof b); num(o, n); if (n > 0) hexcat(o, b, n);
    num(o, coap_msg_check_critical_ops(m)); num(o, coap_msg_check_unsafe_ops(m));
    char p[100]; memset(p, 0, sizeof p); num(o, coap_msg_uri_path_to_str(m, p, sizeof p)); o += p;
    unsigned bn = 0, mo = 0, sz = 0; num(o, coap_msg_parse_block_op(&bn, &mo, &sz, m, COAP_MSG_BLOCK2)); num(o, bn); num(o, mo); num(o, sz);
    for (coap_msg_op_t *op = coap_msg_get_first_op(m); op; op = coap_msg_op_get_next(op)) { num(o, coap_msg_op_get_num(op)); hexcat(o, coap_msg_op_get_val(op), coap_msg_op_get_len(op)); }
}
void fill(Rnd &r, coap_msg_t *m, std::string &o) {
    num(o, coap_msg_set_type(m, r.below(5))); num(o, coap_msg_set_code(m, r.below(6), r.below(33))); num(o, coap_msg_set_msg_id(m, r.below(65537)));
    std::string t = r.bytes(r.below(9)); num(o, coap_msg_set_token(m, (char *)t.data(), t.size()));
    static const unsigned nums[] = {1, 3, 4, 5, 8, 11, 11, 12, 14, 15, 17, 60, 300, 2000};
    unsigned n = r.below(6);
    for (unsigned i = 0; i < n; i++) { std::string v = r.bytes(r.below(r.chance(1, 6) ? 300 : 20)); unsigned k = nums[r.below(14)]; if (k == 14 || (k == 4 && r.chance(1, 2))) v = std::to_string(r.below(1000000)); num(o, coap_msg_add_op(m, k, v.size(), v.data())); }
    if (r.chance(1, 3)) { char v[3]; int k = coap_msg_op_format_block_val(v, sizeof v, r.below(2000), r.below(2), 16 << r.below(7)); num(o, k); if (k > 0) num(o, coap_msg_add_op(m, COAP_MSG_BLOCK2, k, v)); }
    if (r.chance(2, 3)) { std::string p = r.bytes(r.below(r.chance(1, 4) ? 800 : 60)); num(o, coap_msg_set_payload(m, (char *)p.data(), p.size())); }
}
void coap(Rnd &r, std::string &o) {
    coap_msg_t a, b, d; coap_msg_create(&a); coap_msg_create(&b); coap_msg_create(&d);
    fill(r, &a, o); dump(o, &a);
    char w[1300]; ssize_t n = coap_msg_format(&a, w, sizeof w);
    if (n > 0) {
        if (r.chance(1, 3)) w[r.below(n)] ^= 1 << r.below(8);
        num(o, coap_msg_parse(&b, w, n)); dump(o, &b); num(o, coap_msg_copy(&d, &b)); dump(o, &d);
        unsigned ty = 0, id = 0; num(o, coap_msg_parse_type_msg_id(w, n, &ty, &id)); num(o, ty); num(o, id);
    }
    coap_msg_destroy(&a); coap_msg_destroy(&b); coap_msg_destroy(&d);
}
#ifndef EXCHANGES
const char *AL = "abcXYZ019-_";
std::string http_text(Rnd &r, bool request) {
    std::string t;
    if (request) {
        t = std::string(r.chance(1, 10) ? "PATCH" : r.chance(1, 2) ? "GET" : r.chance(1, 2) ? "PUT" : r.chance(1, 2) ? "POST" : "DELETE") + " ";
        t += r.chance(1, 10) ? "/x" : std::string(r.chance(1, 2) ? "coaps" : "coap") + "://" + r.str(1 + r.below(12), AL) + (r.chance(1, 2) ? ":" + std::to_string(1 + r.below(65535)) : "");
        unsigned n = r.below(4); for (unsigned i = 0; i < n; i++) t += "/" + r.str(1 + r.below(10), AL) + (r.chance(1, 6) ? "%41" : "");
        if (r.chance(1, 4)) t += "/?" + r.str(1 + r.below(10), "abc=&1");
        t += " HTTP/1.1\r\n";
    } else t = "HTTP/1.1 " + std::to_string(100 + r.below(500)) + " " + r.str(1 + r.below(10), AL) + "\r\n";
    unsigned n = r.below(4); for (unsigned i = 0; i < n; i++) t += r.str(1 + r.below(10), AL) + ": " + r.str(r.below(30), "abc 12") + (r.chance(1, 5) ? "\r\n\tfold" : "") + "\r\n";
    if (r.chance(1, 4)) t += "Cache-Control: max-age=" + std::to_string(r.below(100000)) + "\r\n";
    if (r.chance(1, 8)) t += r.chance(1, 2) ? "Accept: text/plain\r\n" : "Accept: */*\r\n";
    if (r.chance(1, 4)) t += "Etag: " + r.str(1 + r.below(8), AL) + "\r\n";
    std::string b = r.bytes(r.below(r.chance(1, 4) ? 2500 : 60));
    if (t[0] == 'G' || t[0] == 'D') b.clear();
    if (r.chance(1, 3) && !b.empty()) {
        t += "Transfer-Encoding: chunked\r\n\r\n"; char c[3000]; size_t p = 0;
        while (p < b.size()) { size_t k = 1 + r.below(std::min<size_t>(b.size() - p, 700)); size_t l = http_msg_generate_chunk(c, sizeof c, b.data() + p, k); t.append(c, l); p += k; }
        t.append(c, http_msg_generate_last_chunk(c, sizeof c)); if (r.chance(1, 3)) t.append(c, http_msg_generate_trailer(c, sizeof c, "tr", r.str(4, AL).c_str())); t.append(c, http_msg_generate_blank_line(c, sizeof c));
    } else t += "Content-Length: " + std::to_string(b.size()) + "\r\n\r\n" + b;
    return t;
}
void hdump(std::string &o, http_msg_t *m) {
    for (int i = 0; i < 3; i++) { o += m->start[i] ? m->start[i] : "-"; o += '|'; }
    for (http_msg_header_t *h = m->header.first; h; h = h->next) { o += h->name; o += '='; o += h->value; o += '|'; }
    if (m->body) hexcat(o, m->body, m->body_len);
    if (m->start[0] && m->start[1] && m->start[2]) { static thread_local char b[6000]; size_t n = http_msg_generate(m, b, sizeof b); num(o, n); hexcat(o, b, std::min(n, sizeof b)); }
}
void http(Rnd &r, std::string &o) {
    http_msg_t m; http_msg_create(&m); std::string t = http_text(r, r.chance(1, 2));
    if (r.chance(1, 4) && !t.empty()) t.resize(r.below(t.size()));
    if (r.chance(1, 4) && !t.empty()) t[r.below(t.size())] = (char)r.next();
    num(o, http_msg_parse(&m, t.data(), t.size())); hdump(o, &m); o += http_msg_strerror(-EBADMSG);
    http_msg_destroy(&m);
}
void udump(std::string &o, uri_t *u) { for (const char *p : {u->scheme, u->userinfo, u->host, u->port, u->path, u->query, u->fragment}) { o += p ? p : "-"; o += '|'; } char b[400]; size_t n = uri_generate(u, b, sizeof b); num(o, n); o.append(b, std::min(n, sizeof b)); }
void uris(Rnd &r, std::string &o) {
    uri_t u, v; uri_create(&u); uri_create(&v);
    std::string t; if (r.chance(4, 5)) t += r.str(1 + r.below(6), "abc%4142") + ":"; t += "//"; if (r.chance(1, 3)) t += r.str(r.below(8), "user:%20") + "@"; t += r.chance(1, 4) ? "[::" + r.str(2, "12f") + "]" : r.str(r.below(10), AL); if (r.chance(1, 2)) t += ":" + std::to_string(r.below(70000));
    unsigned n = r.below(4); for (unsigned i = 0; i < n; i++) t += "/" + r.str(r.below(8), "ab%2F%C3:@"); if (r.chance(1, 3)) t += "?" + r.str(r.below(10), "a=&%41"); if (r.chance(1, 3)) t += "#" + r.str(r.below(6), "f%");
    num(o, uri_parse(&u, t.c_str())); udump(o, &u); num(o, uri_copy(&v, &u));
    num(o, uri_set_host(&v, r.str(r.below(8), "h%4a.").c_str())); num(o, uri_set_path(&v, r.str(r.below(8), "p/%4a").c_str())); udump(o, &v);
    uri_destroy(&u); uri_destroy(&v);
}
void crosses(Rnd &r, std::string &o) {
    http_msg_t h; http_msg_create(&h); coap_msg_t m; coap_msg_create(&m); std::vector<char> body(8192, 0); size_t end = 0; unsigned code = 0;
    std::string t = http_text(r, true); num(o, http_msg_parse(&h, t.data(), t.size()));
    if (h.start[0] && h.start[1] && h.start[2]) { num(o, cross_req_http_to_coap(&m, body.data(), body.size(), &end, &h, &code)); num(o, code); num(o, end); if (end && end <= body.size()) hexcat(o, body.data(), end); dump(o, &m); char u[500]; memset(u, 0, sizeof u); num(o, cross_uri_coap_to_http(u, sizeof u, &m)); o += u; }
    http_msg_reset(&h); coap_msg_reset(&m); fill(r, &m, o);
    num(o, coap_msg_set_code(&m, 2 + 2 * r.below(2), r.below(6)));
    std::string b = r.bytes(r.below(500)); code = 0;
    num(o, cross_resp_coap_to_http(&h, &m, b.data(), r.chance(1, 2) ? b.size() : 0, &code)); num(o, code); hdump(o, &h);
    o += cross_http_resp_code_to_str(100 + r.below(500));
    http_msg_destroy(&h); coap_msg_destroy(&m);
}
void conf(Rnd &r, std::string &o) {
    config_t c; config_create(&c); std::string t; std::vector<std::string> keys; std::string sec; std::vector<std::string> secs = {""};
    unsigned n = 1 + r.below(12);
    for (unsigned i = 0; i < n; i++) switch (r.below(4)) {
        case 0: sec = r.str(1 + r.below(90), "abcdef"); secs.push_back(sec); t += "[" + sec + "]\n"; break;
        case 1: t += "; comment\n"; break;
        default: keys.push_back(r.str(1 + r.below(4), "abc")); t += "  " + keys.back() + " = " + (r.chance(1, 2) ? "\"" + r.str(r.below(150), "abc \\n12") + "x\"" : r.str(1 + r.below(80), "123")) + (r.chance(1, 20) ? " =" : "") + "\n";
    }
    unsigned line = 0, col = 0; num(o, config_parse(&c, t.c_str(), &line, &col)); num(o, line); num(o, col);
    for (auto &s : secs) for (auto &k : keys) { const char *v = config_get(&c, s.c_str(), k.c_str()); o += v ? v : "-"; o += ';'; }
    o += config_strerr(-(int)r.below(7)); config_destroy(&c);
}
// one connection of the proxy
struct Con { std::vector<std::string> recs; size_t ri = 0, off = 0; bool loaded = false; std::string *o = nullptr; bool active = false; std::string first; };
thread_local Con *T;
param_t param;
void connection(Rnd &r, std::string &o) {
    Con k; k.o = &o; T = &k; unsigned n = 1 + r.below(3); std::string all;
    for (unsigned i = 0; i < n; i++) all += http_text(r, true);
    for (size_t p = 0; p < all.size();) { size_t l = std::min<size_t>(all.size() - p, 1 + r.below(r.chance(1, 2) ? 4000 : 300)); k.recs.push_back(all.substr(p, l)); p += l; }
    tls_sock_t *s = (tls_sock_t *)calloc(1, sizeof *s); s->sd = 5; s->timeout = 10;
    connection_t *con = connection_new(s, 0, 1, &param);
    if (!con) { o += "no connection;"; free(s); } else connection_thread_func(con);
    if (k.active) o += "client left;";
    T = nullptr;
}
tls_server_t server_tls; tls_client_t client_tls;
void cache(Rnd &r, std::string &o) {
    std::string key = r.bytes(32), d; unsigned n = 1 + r.below(4);
    gnutls_datum_t dk = {(unsigned char *)key.data(), (unsigned)key.size()};
    for (unsigned i = 0; i < n; i++) {
        if (r.chance(2, 3)) { d = std::string(1 + r.below(2048), (char)r.next()); gnutls_datum_t dd = {(unsigned char *)d.data(), (unsigned)d.size()}; num(o, tls_server_set(&server_tls, dk, dd)); }
        gnutls_datum_t g = tls_server_get(&server_tls, dk); num(o, g.size); if (g.data) { hexcat(o, g.data, g.size); gnutls_free(g.data); }
    }
    // an address of its own, and fewer of them than the cache holds
    char addr[32]; snprintf(addr, sizeof addr, "10.%u.%u.%u", r.below(256), r.below(256), r.below(256));
    n = r.below(4);
    for (unsigned i = 0; i < n; i++) { d = std::string(1 + r.below(2048), (char)r.next()); gnutls_datum_t dd = {(unsigned char *)d.data(), (unsigned)d.size()}; num(o, tls_client_set(&client_tls, addr, dd)); gnutls_datum_t g = tls_client_get(&client_tls, addr); num(o, g.size); if (g.data) hexcat(o, g.data, g.size); }
    num(o, tls_server_delete(&server_tls, dk)); gnutls_datum_t g = tls_server_get(&server_tls, dk); num(o, g.size); if (g.data) gnutls_free(g.data);
}
void work(Job &j) {
    Rnd r{j.seed}; j.out.clear();
    switch (j.kind) { case 0: coap(r, j.out); break; case 1: http(r, j.out); break; case 2: uris(r, j.out); break; case 3: crosses(r, j.out); break; case 4: connection(r, j.out); break; case 5: conf(r, j.out); break; default: cache(r, j.out); }
}
const char *KIND[] = {"message", "http", "uri", "conversion", "connection", "configuration", "session cache"};
#else
void work(Job &j) { Rnd r{j.seed}; j.out.clear(); coap(r, j.out); }
#endif
void *lane(void *v) { Lane &l = *(Lane *)v; pthread_barrier_wait(l.bar); for (auto &j : l.jobs) { work(j); if (j.seed & 1) sched_yield(); } return nullptr; }
}
#ifndef EXCHANGES
extern "C" {
int vf_select(int, fd_set *, fd_set *, fd_set *, struct timeval *) { return 1; }
int vf_poll(struct pollfd *p, nfds_t n, int) { for (nfds_t i = 0; i < n; i++) p[i].revents = p[i].events & POLLIN; return 1; }
size_t vf_gnutls_record_check_pending(gnutls_session_t) { return T->loaded ? T->recs[T->ri].size() - T->off : 0; }
ssize_t vf_tls_sock_read(tls_sock_t *, void *buf, size_t len) {
    if (len == 0) return SOCK_READ_ERROR;
    if (!T->loaded) { if (T->ri == T->recs.size()) return 0; T->loaded = true; T->off = 0; }
    std::string &d = T->recs[T->ri]; size_t n = std::min(len, d.size() - T->off); memcpy(buf, d.data() + T->off, n); T->off += n;
    if (T->off == d.size()) { T->loaded = false; T->ri++; }
    return n;
}
ssize_t vf_tls_sock_write_full(tls_sock_t *, void *buf, size_t len) { *T->o += "write "; hexcat(*T->o, buf, len); sched_yield(); return len; }
ssize_t vf_tls_sock_write(tls_sock_t *s, void *buf, size_t len) { return vf_tls_sock_write_full(s, buf, len); }
void vf_tls_sock_close(tls_sock_t *) { *T->o += "close;"; }
void vf_tls_sock_get_addr_string_(char *out, size_t n, sock_in_addr_t) { snprintf(out, n, "addr"); }
const char *vf_sock_strerror(int) { return "error"; }
int vf_thread_block_signals(void) { return 0; }
int vf_coap_client_create(coap_client_t *cl, const char *host, const char *port, const char *, const char *, const char *, const char *, const char *) { *T->o += std::string("connect ") + host + " " + port + ";"; memset(cl, 0, sizeof *cl); if (T->active) *T->o += "twice;"; T->active = true; return 0; }
void vf_coap_client_destroy(coap_client_t *) { *T->o += "disconnect;"; T->active = false; }
static void reply(coap_msg_t *resp, uint64_t h, const std::string &payload, int more) {
    coap_msg_reset(resp); coap_msg_set_type(resp, COAP_MSG_ACK); coap_msg_set_code(resp, h % 7 == 0 ? 4 : 2, h % 7 == 0 ? 4 : 5);
    std::string e = "et" + std::to_string(h % 1000); coap_msg_add_op(resp, COAP_MSG_ETAG, e.size(), e.data());
    if (more >= 0) { char v[3]; int k = coap_msg_op_format_block_val(v, sizeof v, 0, more, 64); coap_msg_add_op(resp, COAP_MSG_BLOCK2, k, v); }
    if (!payload.empty()) coap_msg_set_payload(resp, (char *)payload.data(), payload.size());
}
int vf_coap_client_exchange(coap_client_t *, coap_msg_t *req, coap_msg_t *resp) {
    std::string d = "exchange "; dump(d, req); *T->o += d; sched_yield(); Rnd r{hash(d)};
    bool get = coap_msg_get_code_detail(req) == COAP_MSG_GET; uint64_t h = r.next();
    if (get && h % 3 == 0) { T->first = r.bytes(64); reply(resp, 1, T->first, 1); } else reply(resp, h, r.bytes(r.below(900)), -1);
    return 0;
}
ssize_t vf_coap_client_exchange_blockwise(coap_client_t *, coap_msg_t *req, coap_msg_t *resp, unsigned, unsigned, char *body, size_t len, int have) {
    std::string d = "blockwise "; dump(d, req); if (!have) hexcat(d, body, len); *T->o += d; sched_yield(); Rnd r{hash(d)};
    if (have) { std::string b = T->first + r.bytes(std::min<size_t>(len - 64, r.below(4000))); memcpy(body, b.data(), b.size()); reply(resp, 1, b.substr(b.size() - 16), 0); return b.size(); }
    reply(resp, r.next(), r.bytes(r.below(900)), -1); return 0;
}
int vf_gnutls_certificate_allocate_credentials(gnutls_certificate_credentials_t *c) { *c = nullptr; return 0; }
void vf_gnutls_certificate_free_credentials(gnutls_certificate_credentials_t) {}
int vf_gnutls_certificate_set_x509_trust_file(gnutls_certificate_credentials_t, const char *, gnutls_x509_crt_fmt_t) { return 1; }
int vf_gnutls_certificate_set_x509_key_file(gnutls_certificate_credentials_t, const char *, const char *, gnutls_x509_crt_fmt_t) { return 0; }
int vf_gnutls_dh_params_init(gnutls_dh_params_t *d) { *d = nullptr; return 0; }
void vf_gnutls_dh_params_deinit(gnutls_dh_params_t) {}
int vf_gnutls_dh_params_generate2(gnutls_dh_params_t, unsigned) { return 0; }
void vf_gnutls_certificate_set_dh_params(gnutls_certificate_credentials_t, gnutls_dh_params_t) {}
}
static void threads(Gen &g, Ctx &c) {
    static bool once = false;
    if (!once) {
        once = true; coap_log_set_level((coap_log_level_t)-1); if (coap_mem_all_create(256, 256, 256, 1024, 64, 8192) || connection_init()) c.fail("cannot start");
        param.coap_client_key_file_name = (char *)"ckey"; param.coap_client_cert_file_name = (char *)"ccert"; param.coap_client_trust_file_name = (char *)"ctrust";
    }
    if (tls_server_create(&server_tls, "t", "c", "k") || tls_client_create(&client_tls, "t", "c", "k")) c.fail("cannot create the TLS server or client");
    unsigned nt = 2 + g.uni(3); std::vector<Lane> l(nt); pthread_barrier_t bar; pthread_barrier_init(&bar, nullptr, nt);
    int same = g.chance(1, 2) ? (int)g.uni(7) : -1; unsigned n = 1 + g.below(4);
    for (auto &x : l) { x.bar = &bar; for (unsigned i = 0; i < n; i++) { int k = same >= 0 ? same : (int)g.uni(7); x.jobs.push_back({k, g.seed64(), ""}); } }
    c.descf("%u threads, %u jobs each, %s", nt, n, same >= 0 ? KIND[same] : "mixed"); c.label(same >= 0 ? KIND[same] : "mixed");
    std::vector<pthread_t> th(nt);
    for (unsigned i = 0; i < nt; i++) pthread_create(&th[i], nullptr, lane, &l[i]);
    for (unsigned i = 0; i < nt; i++) pthread_join(th[i], nullptr);
    pthread_barrier_destroy(&bar);
    size_t total = 0;
    for (unsigned i = 0; i < nt; i++) for (auto &j : l[i].jobs) {
        Job k = j; work(k); total += k.out.size();
        if (k.out != j.out) {
            size_t p = 0; while (p < k.out.size() && p < j.out.size() && k.out[p] == j.out[p]) p++;
            c.fail("%s: together with other threads '%s', alone '%s' (from %zu)", KIND[j.kind], j.out.substr(p, 60).c_str(), k.out.substr(p, 60).c_str(), p);
        }
    }
    tls_server_destroy(&server_tls); tls_client_destroy(&client_tls);
    if (total > 200) c.nontrivial();
}
PROPERTY("C35", "threads", "at least two threads ran together and produced more than 200 characters of results", 1, threads);
#else
// several clients in threads of their own, and a server in another, over the loopback interface
static std::mutex mu; static std::map<std::string, unsigned> calls; static int stopped;
// a server is stopped by letting its wait fail
static thread_local int wake = -1;
extern "C" {
int vf_select(int n, fd_set *r, fd_set *w, fd_set *x, struct timeval *t) {
    if (wake < 0 || !r) return select(n, r, w, x, t);
    FD_SET(wake, r); int k = select(std::max(n, wake + 1), r, w, x, t);
    if (k > 0 && FD_ISSET(wake, r)) { errno = EBADF; return -1; }
    return k;
}
int vf_poll(struct pollfd *p, nfds_t n, int ms) {
    if (wake < 0) return poll(p, n, ms);
    std::vector<struct pollfd> q(p, p + n); q.push_back({wake, POLLIN, 0}); int k = poll(q.data(), n + 1, ms);
    if (k > 0 && q[n].revents) { errno = EBADF; return -1; }
    std::copy(q.begin(), q.end() - 1, p); return k;
}
}
// Message identifiers are drawn at random; one that repeats a recent one makes the other side take the message for a
// duplicate. That is not what this check is about, and such a case is set aside.
static std::atomic<bool> clash{false}; static std::mutex idmu; static std::map<int, std::vector<std::string>> recent;
static void outgoing(int fd, const void *b, size_t n) {
    if (n < 4 || (((const unsigned char *)b)[0] >> 4 & 3) > 1) return;
    std::string m((const char *)b, n); std::lock_guard<std::mutex> k(idmu); auto &v = recent[fd];
    for (auto &x : v) { if (x == m) return; if (x.compare(2, 2, m, 2, 2) == 0) clash = true; }
    if (v.size() >= 8) v.erase(v.begin());
    v.push_back(m);
}
extern "C" {
void vf_coap_msg_gen_rand_str(char *b, size_t n) {      // makes such cases rarer
    coap_msg_gen_rand_str(b, n); static std::atomic<unsigned> next{1}; if (n == 2) { uint16_t k = (uint16_t)next++; memcpy(b, &k, 2); }
}
ssize_t vf_send(int fd, const void *b, size_t n, int f) { outgoing(fd, b, n); return send(fd, b, n, f); }
ssize_t vf_sendto(int fd, const void *b, size_t n, int f, const struct sockaddr *a, socklen_t l) { outgoing(fd, b, n); return sendto(fd, b, n, f, a, l); }
}
struct Srv { coap_server_t s; int fd[2]; std::atomic<bool> leaving{false}, over{false}; };
static std::string turned(std::string s) { return std::string(s.rbegin(), s.rend()); }
static int received(coap_server_trans_t *tr, coap_msg_t *, coap_msg_t *resp) {
    std::string p(coap_server_trans_get_body(tr), coap_server_trans_get_body_end(tr));
    { std::lock_guard<std::mutex> k(mu); calls[p]++; }
    std::string a = turned(p); memcpy(coap_server_trans_get_body(tr), a.data(), a.size());
    return coap_msg_set_code(resp, 2, 4);
}
static int handle(coap_server_trans_t *tr, coap_msg_t *req, coap_msg_t *resp) {
    if (coap_msg_get_code_detail(req) == COAP_MSG_PUT) return coap_server_trans_handle_blockwise(tr, req, resp, 256, 128, NULL, 0, received);
    std::string p(coap_msg_get_payload(req), coap_msg_get_payload_len(req));
    { std::lock_guard<std::mutex> k(mu); calls[p]++; }
    std::string a = "re:" + p; coap_msg_set_code(resp, 2, 5);
    return coap_msg_set_payload(resp, (char *)a.data(), a.size());
}
static void *serve(void *v) { Srv *s = (Srv *)v; wake = s->fd[0]; int r = coap_server_run(&s->s); if (!s->leaving) __atomic_store_n(&stopped, r ? r : 1, __ATOMIC_SEQ_CST); s->over = true; return nullptr; }
static void leave(Srv *s) {
    s->leaving = true; if (write(s->fd[1], "x", 1) != 1) return;
    for (int i = 0; i < 4000 && !s->over; i++) usleep(500);
    if (!s->over) return;       // it is left running
    coap_server_destroy(&s->s); close(s->fd[0]); close(s->fd[1]); delete s;
}
static std::string port;
struct Ask { bool non, sep, whole; std::string payload; uint64_t pause; };
struct Cli { coap_client_t *cl; bool create; std::vector<Ask> asks; pthread_barrier_t *bar; std::string err; uint64_t seed; unsigned done = 0; std::vector<Job> jobs; };
static void *client(void *v) {
    Cli &k = *(Cli *)v; coap_client_t &cl = *k.cl; int r = 0;
    pthread_barrier_wait(k.bar);
    if (k.create) { memset(&cl, 0, sizeof cl); r = coap_client_create(&cl, "127.0.0.1", port.c_str()); }
    if (r) { k.err = fmt("coap_client_create: %d", r); return nullptr; }
    for (auto &a : k.asks) {
        coap_msg_t q, p; coap_msg_create(&q); coap_msg_create(&p);
        if (a.whole) {
            std::vector<char> b(4096); memcpy(b.data(), a.payload.data(), a.payload.size());
            coap_msg_set_code(&q, COAP_MSG_REQ, COAP_MSG_PUT); coap_msg_add_op(&q, COAP_MSG_URI_PATH, 3, "all");
            ssize_t n = coap_client_exchange_blockwise(&cl, &q, &p, 128, 64, b.data(), a.payload.size(), 0);
            if (n < 0) k.err = fmt("a transfer fails: %zd", n); else if (std::string(b.data(), n) != turned(a.payload)) k.err = fmt("a transfer of %zu bytes brings %zd other bytes back (%u.%02u)", a.payload.size(), n, coap_msg_get_code_class(&p), coap_msg_get_code_detail(&p)); else k.done++;
            coap_msg_destroy(&q); coap_msg_destroy(&p); if (!k.err.empty()) break;
            if (!k.jobs.empty()) work(k.jobs[0]);
            continue;
        }
        coap_msg_set_type(&q, a.non ? COAP_MSG_NON : COAP_MSG_CON); coap_msg_set_code(&q, COAP_MSG_REQ, COAP_MSG_POST);
        const char *path = a.sep ? "sep" : "now"; coap_msg_add_op(&q, COAP_MSG_URI_PATH, 3, path); coap_msg_set_payload(&q, (char *)a.payload.data(), a.payload.size());
        r = coap_client_exchange(&cl, &q, &p);
        if (r) k.err = fmt("an exchange fails: %d", r);
        else { std::string got(coap_msg_get_payload(&p), coap_msg_get_payload_len(&p)); if (got != "re:" + a.payload) k.err = fmt("the response to '%s' is '%s'", a.payload.substr(0, 30).c_str(), got.substr(0, 40).c_str()); else k.done++; }
        coap_msg_destroy(&q); coap_msg_destroy(&p);
        if (!k.err.empty()) break;
        if (!k.jobs.empty()) { work(k.jobs[0]); }
        if (a.pause) sched_yield();
    }
    return nullptr;
}
static void clients(Gen &g, Ctx &c) {
    static bool once = false; static unsigned long serial = 0; static unsigned uses = 0, before = 0; static coap_client_t all[4]; static Srv *server;
    if (!once) { once = true; coap_log_set_level((coap_log_level_t)-1); if (coap_mem_all_create(256, 256, 256, 1024, 400, 8192)) c.fail("cannot create the pools"); }
    // A server remembers a few clients only, so that clients are kept for some cases and then left together with their server.
    bool fresh = uses-- == 0;
    if (fresh) {
        uses = 20; for (unsigned i = 0; i < before; i++) coap_client_destroy(&all[i]);
        before = 0; { std::lock_guard<std::mutex> x(idmu); recent.clear(); } if (server) leave(server); server = new Srv; if (pipe(server->fd)) c.fail("pipe"); int r = coap_server_create(&server->s, handle, "127.0.0.1", "0"); if (r) c.fail("cannot create a server: %d", r);
        coap_server_add_sep_resp_uri_path(&server->s, "/sep");
        struct sockaddr_in a; socklen_t n = sizeof a; if (getsockname(server->s.sd, (struct sockaddr *)&a, &n)) c.fail("getsockname");
        port = std::to_string(ntohs(a.sin_port)); pthread_t t; pthread_create(&t, nullptr, serve, server); pthread_detach(t);
        // the first use of the random source is not meant to be made by two threads at once
        coap_client_t cl; coap_msg_t q, p;
        if (coap_client_create(&cl, "127.0.0.1", port.c_str())) c.fail("cannot create a client");
        coap_msg_create(&q); coap_msg_create(&p); coap_msg_set_code(&q, COAP_MSG_REQ, COAP_MSG_GET); coap_msg_add_op(&q, COAP_MSG_URI_PATH, 3, "sep"); coap_client_exchange(&cl, &q, &p); coap_msg_destroy(&q); coap_msg_destroy(&p); coap_client_destroy(&cl);
    }
    unsigned nt = 2 + g.uni(3); std::vector<Cli> k(nt); pthread_barrier_t bar; pthread_barrier_init(&bar, nullptr, nt);
    std::vector<std::string> sent; { std::lock_guard<std::mutex> x(mu); calls.clear(); } clash = false;
    for (unsigned i = 0; i < nt; i++) {
        k[i].cl = &all[i]; k[i].create = i >= before; k[i].bar = &bar; unsigned n = 1 + g.below(4); if (g.chance(1, 2)) k[i].jobs.push_back({0, g.seed64(), ""});
        for (unsigned j = 0; j < n; j++) { bool whole = g.chance(1, 4); std::string p = fmt("%d-%lu-%u-", (int)getpid(), serial++, i) + std::string(whole ? 100 + g.below(2500) : g.below(g.chance(1, 4) ? 900 : 40), (char)('a' + i)); sent.push_back(p); k[i].asks.push_back({g.chance(1, 4), g.chance(1, 3), whole, p, (uint64_t)g.chance(1, 2)}); }
    }
    c.descf("%u clients, %zu requests", nt, sent.size());
    std::vector<pthread_t> th(nt);
    for (unsigned i = 0; i < nt; i++) pthread_create(&th[i], nullptr, client, &k[i]);
    for (unsigned i = 0; i < nt; i++) pthread_join(th[i], nullptr);
    pthread_barrier_destroy(&bar); before = std::max(before, nt);
    if (clash) { c.label("set aside: an identifier was drawn twice"); clash = false; uses = 0; return; }
    for (auto &x : k) { if (!x.err.empty()) c.fail("%s", x.err.c_str()); for (auto &j : x.jobs) { Job s = j; work(s); if (s.out != j.out) c.fail("message: another result than alone"); } }
    std::lock_guard<std::mutex> x(mu);
    for (auto &p : sent) if (calls[p] != 1) c.fail("a request reached the application %u times", calls[p]);
    if (calls.size() != sent.size()) c.fail("the application was asked what no client had sent");
    if (__atomic_load_n(&stopped, __ATOMIC_SEQ_CST)) c.fail("the server stopped");
    if (sent.size() > 2) c.nontrivial();
}
PROPERTY("C35", "clients", "at least two clients and three requests", 1, clients);
#endif
