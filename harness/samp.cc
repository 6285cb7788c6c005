// The sample applications: the time, registration and file transfer servers and clients, over the simulated network.
#include "netsim.h"
#include <algorithm>
#include <cstdarg>
#include <map>
#include <set>
#include <arpa/inet.h>
#include <time.h>
#include <unistd.h>
#include <sys/stat.h>
extern "C" {
#include "coap_client.h"
#include "coap_server.h"
#include "coap_log.h"
#include "registrar.h"
#include "reg_server.h"
#include "reg_client.h"
#include "time_server.h"
#include "time_client.h"
#include "transfer_server.h"
#include "transfer_client.h"
int main_reg_client(int, char **); int main_time_client(int, char **); int main_transfer_client(int, char **);
int main_reg_server(int, char **); int main_time_server(int, char **); int main_transfer_server(int, char **);
time_t vf_time(time_t *);
}
using namespace pbt;
using net::MS; using net::SEC;

namespace {
std::string quote(const std::string &s) { return "'" + s + "'"; }
struct W {
    Gen *g; Ctx *c; std::string err, out;            // out: what the programs print
    net::Addr sa; std::function<int()> serve; bool server_ended = false;
    int pools = 0; bool pool_fails = false; long pool_creates = 0;
    long files = 0; long ffail[5] = {-1, -1, -1, -1, -1}; bool fhit = false;         // fopen, fread, fwrite, fseek, ftell
    int run_ret = 0; bool run_stub = false; long runs = 0;
    unsigned ploss = 0, pdup = 0, drops = 0, max_drops = 0; bool dead = false; long die_after = -1;
    std::vector<std::pair<net::Addr, std::string>> sent;
    unsigned last_code = 0; long to_server = 0; std::set<unsigned> mids; bool clash = false; std::string last_req;
    void bad(const std::string &m) { if (err.empty()) err = m; }
    bool fault(int k) { if (ffail[k] < 0 || ffail[k]-- > 0) return false; fhit = true; return true; }
};
W *X;
void scratch() {       // a directory of this process in the work directory, which is removed at the end
    static pid_t mine = 0;
    if (mine != getpid()) { char t[] = "samp-XXXXXX"; if (!mkdtemp(t) || chdir(t)) abort(); mine = getpid(); }
}
std::string load(const char *n, bool *there = nullptr) { std::string s; FILE *f = fopen(n, "rb"); if (there) *there = f; if (!f) return s; char b[4096]; size_t k; while ((k = fread(b, 1, sizeof b, f))) s.append(b, k); fclose(f); return s; }
void store(const char *n, const std::string &s) { FILE *f = fopen(n, "wb"); if (!f) abort(); fwrite(s.data(), 1, s.size(), f); fclose(f); }
int say(const char *f, va_list a) { char b[4096]; int n = vsnprintf(b, sizeof b, f, a); if (n > 0) X->out.append(b, std::min<size_t>(n, sizeof b - 1)); return n; }
}
extern "C" {
int sm_printf(const char *f, ...) { va_list a; va_start(a, f); int n = say(f, a); va_end(a); return n; }
int sm_vprintf(const char *f, va_list a) { return say(f, a); }
int sm_fprintf(FILE *, const char *f, ...) { va_list a; va_start(a, f); int n = say(f, a); va_end(a); return n; }
int sm_vfprintf(FILE *, const char *f, va_list a) { return say(f, a); }
int sm_puts(const char *s) { X->out += s; X->out += '\n'; return 1; }
int sm_putchar(int ch) { X->out += (char)ch; return ch; }
int sm_fputs(const char *s, FILE *) { X->out += s; return 1; }
int sm_fputc(int ch, FILE *) { X->out += (char)ch; return ch; }
int sm_fflush(FILE *) { return 0; }
FILE *sm_fopen(const char *n, const char *m) { if (X->fault(0)) { errno = EACCES; return nullptr; } FILE *f = fopen(n, m); if (f) X->files++; return f; }
int sm_fclose(FILE *f) { X->files--; return fclose(f); }
size_t sm_fread(void *p, size_t s, size_t n, FILE *f) { if (X->fault(1)) { errno = EIO; return fread(p, s, n / 2, f); } return fread(p, s, n, f); }
size_t sm_fwrite(const void *p, size_t s, size_t n, FILE *f) { if (f == stdout || f == stderr) { X->out.append((const char *)p, s * n); return n; } if (X->fault(2)) { errno = ENOSPC; return fwrite(p, s, n / 2, f); } return fwrite(p, s, n, f); }
int sm_fseek(FILE *f, long o, int w) { if (X->fault(3)) { errno = EIO; return -1; } return fseek(f, o, w); }
long sm_ftell(FILE *f) { if (X->fault(4)) { errno = EIO; return -1; } return ftell(f); }
int sm_coap_mem_all_create(size_t, size_t sl, size_t, size_t ml, size_t, size_t ll) {
    X->pool_creates++; if (X->pool_fails) return -ENOMEM;
    if (X->pools) X->bad("the pools are created twice"); if (sl < 64 || ml < 256 || ll < 8192) X->bad(fmt("pools with buffers of %zu, %zu and %zu bytes are too small for the program", sl, ml, ll));
    X->pools++; return 0;
}
void sm_coap_mem_all_destroy(void) { if (--X->pools < 0) X->bad("the pools are destroyed without having been created"); }
#ifndef COAP_DTLS_EN
int sm_coap_server_run(coap_server_t *s) { X->runs++; return X->run_stub ? X->run_ret : coap_server_run(s); }
#endif
}
namespace {
#ifdef COAP_DTLS_EN
// what the programs hand to the library when it is built with DTLS
struct Rec { bool server; std::vector<std::string> a; int ret; } last;
}
extern "C" {
static std::string s0(const char *s) { return s ? s : "(null)"; }
int sm_coap_client_create(coap_client_t *, const char *h, const char *p, const char *k, const char *ce, const char *t, const char *cr, const char *cn) { X->runs++; last = {false, {s0(h), s0(p), s0(k), s0(ce), s0(t), s0(cr), s0(cn)}, X->run_ret}; return X->run_ret; }
void sm_coap_client_destroy(coap_client_t *) { X->runs--; }
int sm_coap_client_exchange(coap_client_t *, coap_msg_t *, coap_msg_t *) { return -1; }
ssize_t sm_coap_client_exchange_blockwise(coap_client_t *, coap_msg_t *, coap_msg_t *, unsigned, unsigned, char *, size_t, size_t, int) { return -1; }
int sm_coap_server_create(coap_server_t *, int (*)(coap_server_trans_t *, coap_msg_t *, coap_msg_t *), const char *h, const char *p, const char *k, const char *ce, const char *t, const char *cr) { X->runs++; last = {true, {s0(h), s0(p), s0(k), s0(ce), s0(t), s0(cr)}, X->run_ret}; return X->run_ret; }
void sm_coap_server_destroy(coap_server_t *) { X->runs--; }
int sm_coap_server_run(coap_server_t *) { return -1; }
int sm_coap_server_trans_handle_blockwise(coap_server_trans_t *, coap_msg_t *, coap_msg_t *, unsigned, unsigned, char *, size_t, int (*)(coap_server_trans_t *, coap_msg_t *, coap_msg_t *)) { return -1; }
const char *sm_gnutls_check_version(const char *) { return X->dead ? nullptr : "3.8"; }
}
namespace {
void c34(Gen &g, Ctx &c) {
    static W w; w = W(); X = &w; w.g = &g; w.c = &c; w.c = &c;
    unsigned which = g.uni(6); bool viamain = g.chance(1, 3); w.run_ret = g.chance(1, 4) ? -(int)(1 + g.uni(120)) : 0; w.dead = g.chance(1, 8);
    pool::begin(pool::GUARD, pool::Cfg{{64, 64, 8}, {256, 1024, 8192}}); heap::reset();
    std::vector<std::string> a; for (unsigned i = 0; i < 7; i++) a.push_back(fmt("%u", i) + g.str(g.below(12), "abc./-_"));
    coap_log_set_level(COAP_LOG_ERROR);
    c.descf("%s of the %s, library %s\n", viamain ? "main" : "create", ((const char *[]){"time client", "registration client", "transfer client", "time server", "registration server", "transfer server"})[which], w.run_ret ? "fails" : "works");
    last = Rec();
    int ret = 0; std::string e;
    if (viamain) {
        std::vector<std::string> av = {"prog", a[0], a[1]}; if (which == 1) av.push_back("id"); if (which == 2) { av.push_back("/nonexistent/file"); }
        std::vector<char *> p; for (auto &s : av) p.push_back((char *)s.c_str()); p.push_back(nullptr);
        int (*f[6])(int, char **) = {main_time_client, main_reg_client, main_transfer_client, main_time_server, main_reg_server, main_transfer_server};
        ret = f[which]((int)av.size(), p.data());
        if (ret == 0) e = "the program ended with success although nothing worked";
        if (w.dead ? !last.a.empty() : (last.a.size() < 6 || last.a[0] != a[0] || last.a[1] != a[1])) e = w.dead ? "the program went on without a working TLS library" : "the program used another host or port";
        if (e.empty() && !w.dead) {
            auto has = [&](int k, const char *s) { return last.a[k].find(s) != std::string::npos; };
            const char *me = which < 3 ? "client" : "server", *other = which < 3 ? "root_server" : "root_client";
            if (!has(2, me) || !has(2, "key") || !has(3, me) || !has(3, "cert") || !has(4, other)) e = "the program used the wrong key, certificate or trust file";
        }
        if (w.pools) e = "the pools were not destroyed";
        if (w.runs > 0 && !w.run_ret) e = "the client or server was not destroyed"; if (w.runs < 0) e = "the client or server was destroyed twice";
    } else {
        time_client_t tc; reg_client_t rc; transfer_client_t xc; time_server_t ts; reg_server_t rs; transfer_server_t xs;
        const char *p[7]; for (unsigned i = 0; i < 7; i++) p[i] = a[i].c_str();
        switch (which) {
        case 0: ret = time_client_create(&tc, p[0], p[1], p[2], p[3], p[4], p[5], p[6]); break;
        case 1: ret = reg_client_create(&rc, p[0], p[1], p[2], p[3], p[4], p[5], p[6]); break;
        case 2: ret = transfer_client_create(&xc, p[0], p[1], p[2], p[3], p[4], p[5], p[6]); break;
        case 3: ret = time_server_create(&ts, p[0], p[1], p[2], p[3], p[4], p[5]); break;
        case 4: ret = reg_server_create(&rs, p[0], p[1], p[2], p[3], p[4], p[5]); break;
        case 5: ret = transfer_server_create(&xs, p[0], p[1], p[2], p[3], p[4], p[5]); break;
        }
        if ((ret < 0) != (w.run_ret < 0)) e = fmt("creation returned %d where the library returned %d", ret, w.run_ret);
        if (which > 2) a.pop_back();
        if (last.a != a) e = "the library was given other arguments than the caller gave";
        if (ret == 0) switch (which) { case 0: time_client_destroy(&tc); break; case 1: reg_client_destroy(&rc); break; case 2: transfer_client_destroy(&xc); break; case 3: time_server_destroy(&ts); break; case 4: reg_server_destroy(&rs); break; case 5: transfer_server_destroy(&xs); }
        if (ret == 0 && w.runs) e = "the client or server was not destroyed once";
    }
    c.nontrivial(); c.label(viamain ? "program start" : "creation");
    coap_log_set_level((coap_log_level_t)0);
    long live = heap::live; std::string l = pool::end();
    if (!w.err.empty()) c.fail("%s", w.err.c_str());
    if (!e.empty()) c.fail("%s", e.c_str()); if (!l.empty()) c.fail("%s", l.c_str());
    if (live) c.fail("%ld blocks of memory were not released", live);
}
PROPERTY("C34", "samples-dtls-arguments", "always", 1, c34);
}
#else
void pump() {
    if (X->dead) return;
    net::no_advance = true;
    if (net::run([] { X->serve(); })) X->server_ended = true;
    net::no_advance = false;
}
void begin(W &w, Gen &g, Ctx &c) {
    w = W(); X = &w; w.g = &g; w.c = &c; scratch(); unlink("out"); unlink("in");
    net::reset(g.seed64()); net::wall = 1 + g.uni(4000000000u);
    pool::begin(pool::GUARD, pool::Cfg{{512, 512, 32}, {256, 1024, 8192}}); heap::reset();
    w.sa = net::addr(1, 5683); w.pools = 1;
    net::on_send = [](const net::Out &o) {
        W &w = *X; RMsg m; ref_decode(o.data, m); bool up = o.to == w.sa;
        if (up) { w.to_server++; if (m.type < 2 && !m.empty()) { if (!w.mids.insert(m.mid).second && o.data != w.last_req) w.clash = true; w.last_req = o.data; } } else { w.sent.push_back({o.to, o.data}); if (!m.empty()) w.last_code = m.cls * 100 + m.det; }
        if (w.c->want) w.c->descf("  [%.3f s] %s %s\n", net::now / 1e9, up ? "to the server" : "from the server", ref_str(m).c_str());
        unsigned n = 1; if (w.ploss && w.drops < w.max_drops && w.g->chance(w.ploss, 16)) { n = 0; w.drops++; } else if (w.pdup && w.g->chance(w.pdup, 16)) n = 2;
        if (!up && w.die_after >= 0 && !m.empty() && w.die_after-- == 0) { w.dead = true; n = 0; }
        if (up && w.dead) n = 0;
        for (unsigned i = 0; i < n; i++) net::at(net::now + MS, [o] { net::deliver(o.from, o.to, o.data); });
    };
    net::pump = pump;
}
std::string finish() {
    net::on_send = nullptr; net::pump = nullptr; net::no_advance = false;
    W &w = *X; long live = heap::live; std::string l = pool::end();
    if (!w.err.empty()) return w.err;
    if (w.server_ended) return "the server stopped serving";
    if (net::livelock) return "no progress";
    if (!l.empty()) return "after everything was destroyed: " + l;
    if (live) return fmt("%ld blocks of memory were not released", live);
    if (w.files) return fmt("%ld files were not closed", w.files);
    if (net::open_fds()) return fmt("%ld sockets or timers were not closed", net::open_fds());
    if (!net::misuse.empty()) return net::misuse;
    return "";
}
std::string clock_text(time_t t) { char b[64]; ctime_r(&t, b); return std::string(b, strcspn(b, "\n")); }
std::string ip_text(const net::Addr &a) { char b[64] = ""; inet_ntop(COAP_IPV_AF_INET, &a.sin.COAP_IPV_SIN_ADDR, b, sizeof b); return b; }
std::string text_path(const RMsg &m) { std::string s; for (auto &o : m.opts) if (o.num == 11) s += "/" + o.val; return s.empty() ? "/" : s; }

// ---------------------------------------------------------------- the registrar by itself
typedef std::vector<std::pair<std::string, std::string>> Regs;
std::string same(registrar_t *r, const Regs &want) {
    Regs got; registrar_entry_t *prev = nullptr; size_t n = 0;
    for (registrar_entry_t *e = registrar_get_first(r); e; e = registrar_entry_get_next(e)) {
        if (registrar_entry_get_prev(e) != prev) return fmt("entry %zu does not know its predecessor", n);
        got.push_back({std::string(registrar_entry_get_id(e)), std::string(registrar_entry_get_addr(e))}); prev = e; if (++n > 1000) return "the entries never end";
    }
    if (registrar_get_last(r) != prev) return "the last entry is not the last";
    if (got != want) { std::string s = "registered:"; for (auto &x : got) s += " " + quote(x.first) + "=" + x.second; s += ", expected:"; for (auto &x : want) s += " " + quote(x.first) + "=" + x.second; return s; }
    return "";
}
void c34_registrar(Gen &g, Ctx &c) {
    static W w; begin(w, g, c);
    registrar_t r; memset(&r, 0xa5, sizeof r); registrar_create(&r); Regs m; std::string err; unsigned dels = 0;
    std::vector<std::string> ids; unsigned k = 1 + g.uni(6); for (unsigned i = 0; i < k; i++) ids.push_back(g.chance(1, 4) ? std::string(g.urange(25, 31), 'a') + std::string(i ? 0 : 0, 'b') : g.str(g.below(6), "abA"));
    unsigned n = 1 + g.uni(24);
    for (unsigned i = 0; i < n && err.empty(); i++) {
        std::string id = g.pick(ids), ad = fmt("10.0.0.%u", (unsigned)g.uni(200)); auto it = std::find_if(m.begin(), m.end(), [&](auto &x) { return x.first == id; });
        switch (g.weighted({5, 3, 2})) {
        case 0: { bool f = g.chance(1, 8); heap::count = 0; heap::fail_at = f ? 0 : -1; int ret = registrar_add(&r, id.c_str(), ad.c_str()); heap::fail_at = -1;
            c.descf("add %s %s%s = %d\n", quote(id).c_str(), ad.c_str(), f ? " (out of memory)" : "", ret);
            if (it != m.end()) { if (ret == 0 || (ret < 0 && !f)) err = fmt("adding a registered id returned %d", ret); else if (ret > 0) it->second = ad; }
            else if (f ? ret >= 0 : ret != 0) err = fmt("adding an id returned %d", ret); else if (!f) m.push_back({id, ad});
            break; }
        case 1: { int ret = registrar_del(&r, id.c_str()); c.descf("delete %s = %d\n", quote(id).c_str(), ret); if ((ret == 0) != (it != m.end())) err = fmt("deleting %s id returned %d", it != m.end() ? "a registered" : "an unknown", ret); else if (it != m.end()) { m.erase(it); dels++; } break; }
        default: { registrar_entry_t *e = registrar_find(&r, id.c_str()); if (!e != (it == m.end())) err = e ? "found an id that is not registered" : "did not find a registered id"; else if (e && it->second != registrar_entry_get_addr(e)) err = "found the wrong address"; }
        }
        if (err.empty()) err = same(&r, m);
    }
    registrar_destroy(&r);
    if (err.empty()) err = same(&r, {});
    if (dels) c.nontrivial(); c.label("registrar");
    std::string l = finish(); if (!err.empty()) c.fail("%s", err.c_str()); if (!l.empty()) c.fail("%s", l.c_str());
}

// ---------------------------------------------------------------- any request to the three servers
struct Srv { time_server_t t; reg_server_t r; transfer_server_t x; unsigned which; coap_server_t *cs; };
int up(Srv &s, unsigned which) {
    s.which = which; int ret; const char *k = "k", *f = "f", *t = "t", *cr = "";
    if (which == 0) { ret = time_server_create(&s.t, net::HOST, "5683", k, f, t, cr); X->serve = [&s] { return time_server_run(&s.t); }; }
    else if (which == 1) { ret = reg_server_create(&s.r, net::HOST, "5683", k, f, t, cr); X->serve = [&s] { return reg_server_run(&s.r); }; }
    else { ret = transfer_server_create(&s.x, net::HOST, "5683", k, f, t, cr); X->serve = [&s] { return transfer_server_run(&s.x); }; }
    return ret;
}
void down(Srv &s) { if (s.which == 0) time_server_destroy(&s.t); else if (s.which == 1) reg_server_destroy(&s.r); else transfer_server_destroy(&s.x); }
std::string gen_path_seg(Gen &g) { return g.oneof<std::string>({"time", "client", "id", "transfer", "Time", "tim", "timex", "", "x"}); }
void c34_requests(Gen &g, Ctx &c) {
    static W w; static Srv s; begin(w, g, c);
    unsigned which = g.uni(3); if (up(s, which)) { pool::end(); c.fail("server creation failed"); }
    std::string err; Regs m; bool any = false, refused = false; auto eps = net::endpoints(g.uni(1000), 1 + g.uni(5)); unsigned mid = g.uni(60000);
    unsigned n = 1 + g.uni(12); std::vector<std::string> ids; for (unsigned i = 0; i < 4; i++) ids.push_back(g.chance(1, 4) ? g.str(g.urange(28, 33), "ab") : g.str(1 + g.below(6), "abA"));
    const char *right[] = {"/time", "/client/id", "/client/transfer"};
    for (unsigned i = 0; i < n && err.empty() && !w.server_ended; i++) {
        RMsg q; q.type = g.chance(1, 4); q.mid = mid++ & 0xffff; q.token = g.bytes(g.uni(9)); q.det = g.chance(1, 8) ? 5 + g.uni(20) : 1 + g.uni(4);
        if (g.chance(3, 4)) { std::string p = right[which]; size_t a = 1, b; while ((b = p.find('/', a)) != std::string::npos) { q.opts.push_back({11, p.substr(a, b - a)}); a = b + 1; } q.opts.push_back({11, p.substr(a)}); }
        if (q.opts.empty() || g.chance(1, 8)) { unsigned k = g.uni(4); for (unsigned j = 0; j < k; j++) q.opts.push_back({11, g.chance(1, 8) ? g.str(g.urange(20, 40), "ab") : gen_path_seg(g)}); }
        if (which == 1 && g.chance(3, 4)) q.det = 2; if (which == 0 && g.chance(1, 2)) q.det = 1;
        if (which == 2 && text_path(q) == right[2] && q.det == 3) q.det = 2;
        q.payload = which == 1 && g.chance(7, 8) ? g.pick(ids) : g.str(g.below(g.chance(1, 4) ? 400 : 40), "abc");
        bool oom = which == 1 && g.chance(1, 12);
        if (g.chance(1, 3)) net::advance_to(net::now + g.below(3000) * MS);
        auto ep = g.pick(eps); w.sent.clear(); w.last_code = 0; std::string t0 = clock_text(vf_time(nullptr));
        c.descf("request of %s: %s%s\n", net::str(ep).c_str(), ref_str(q).c_str(), oom ? " (out of memory)" : "");
        heap::count = 0; heap::fail_at = oom ? 0 : -1;
        net::deliver(ep, w.sa, ref_encode(q)); pump(); heap::fail_at = -1;
        std::string path = text_path(q); RMsg want; want.cls = 0; bool must = true;
        auto setok = [&](unsigned cl, unsigned d, std::vector<ROpt> o, const std::string &p) { want.cls = cl; want.det = d; want.opts = o; want.payload = p; };
        if (which == 2 && q.det != 3) setok(5, 1, {}, "");
        else if (path.size() + 1 > 32) must = false;
        else if (path != right[which]) setok(4, 4, {}, "");
        else if (which == 0) { if (q.det == 1) { setok(2, 5, {{11, "time"}}, t0); any = true; } else setok(5, 1, {}, ""); }
        else if (q.det != 2) setok(5, 1, {}, "");
        else if (q.payload.empty()) setok(4, 0, {}, "");
        else if (q.payload.size() > 31) setok(5, 0, {}, "");
        else {
            auto it = std::find_if(m.begin(), m.end(), [&](auto &x) { return x.first == q.payload; });
            if (it != m.end()) { it->second = ip_text(ep); setok(2, 4, {{11, "client"}, {11, "id"}}, "OK"); any = true; }
            else if (oom) must = false; else { m.push_back({q.payload, ip_text(ep)}); setok(2, 1, {{11, "client"}, {11, "id"}}, "OK"); }
        }
        if (must && want.cls != 2) refused = true;
        unsigned resp = 0;
        for (auto &o : w.sent) {
            RMsg a; ref_decode(o.second, a); if (a.empty()) { if (must) err = "a request was not answered but acknowledged or reset"; continue; }
            resp++;
            if (!(o.first == ep)) err = "another endpoint was answered";
            else if (!must) { if (a.cls == 2) err = "a request that failed was answered with success"; }
            else { want.type = q.type ? 1 : 2; want.mid = q.type ? a.mid : q.mid; want.token = q.token; std::string d = diff(want, a); if (!d.empty()) err = "wrong answer (expected vs received): " + d; }
        }
        if (err.empty() && must && resp != 1) err = fmt("%u answers", resp);
        if (err.empty() && which == 1) err = same(&s.r.registrar, m);
        bool f; load("out", &f); if (err.empty() && f) err = "a file was stored for a request that is not a transfer";
    }
    if (any || refused) c.nontrivial(); c.label(((const char *[]){"requests to the time server", "requests to the registration server", "requests to the transfer server"})[which]); if (refused) c.label("refused request");
    down(s); std::string l = finish(); if (!err.empty()) c.fail("%s", err.c_str()); if (!l.empty()) c.fail("%s", l.c_str());
}

// ---------------------------------------------------------------- the clients against any server
RMsg Rs; RMsg Rq;
int anyapp(coap_server_trans_t *, coap_msg_t *req, coap_msg_t *resp) {
    Rq = from_msg(req); coap_msg_set_code(resp, Rs.cls, Rs.det);
    for (auto &o : Rs.opts) { int r = coap_msg_add_op(resp, o.num, o.val.size(), o.val.data()); if (r < 0) return r; }
    return Rs.payload.empty() ? 0 : coap_msg_set_payload(resp, (char *)Rs.payload.data(), Rs.payload.size());
}
void c34_clients(Gen &g, Ctx &c) {
    static W w; static coap_server_t cs; begin(w, g, c);
    if (coap_server_create(&cs, anyapp, net::HOST, "5683")) { pool::end(); c.fail("server creation failed"); }
    w.serve = [] { return coap_server_run(&cs); };
    bool reg = g.chance(1, 2); static time_client_t tc; static reg_client_t rc; std::string err; bool good = false, bad = false;
    int ret = reg ? reg_client_create(&rc, net::HOST, "5683", "", "", "", "", "") : time_client_create(&tc, net::HOST, "5683", "", "", "", "", "");
    if (ret) { coap_server_destroy(&cs); pool::end(); c.fail("client creation failed"); }
    unsigned n = 1 + g.uni(4);
    for (unsigned i = 0; i < n && err.empty(); i++) {
        Rs = RMsg(); Rs.cls = 2; Rs.det = reg ? g.oneof<unsigned>({1, 4}) : 5;
        if (reg) Rs.opts = {{11, "client"}, {11, "id"}}; else Rs.opts = {{11, "time"}};
        Rs.payload = reg ? "OK" : g.str(1 + g.below(60), "abc 0:");
        switch (g.weighted({6, 1, 1, 1, 1})) {
        case 0: break;
        case 1: Rs.cls = g.oneof<unsigned>({2, 4, 5}); Rs.det = g.uni(8); break;
        case 2: Rs.opts = {{11, gen_path_seg(g)}}; if (g.chance(1, 2)) Rs.opts.push_back({11, gen_path_seg(g)}); break;
        case 3: Rs.opts = {}; if (g.chance(1, 2)) Rs.opts = {{11, g.str(g.urange(20, 60), "ab")}}; break;
        case 4: Rs.payload = g.oneof<std::string>({"OKAY", "O", "ok", "NO", "OKOKOKOKOKOKOKOKOKOKOKOKOKOKOKOKOKOK", "K"}); break;
        }
        if (!reg && g.chance(1, 8)) Rs.payload = g.str(g.below(300), "ab");
        size_t len = g.chance(1, 2) ? 32 : 1 + g.below(80); std::string id = g.str(1 + g.below(30), "abcA-"); if (reg && len < id.size() + 1) len = id.size() + 1;
        Exact buf(len, 0x5a); if (reg) { memcpy(buf.p(), id.c_str(), id.size() + 1); }
        w.ploss = g.chance(1, 3) ? 4 : 0; w.max_drops = w.drops + 2; w.pdup = g.chance(1, 3) ? 4 : 0;
        long before = w.to_server; Rq = RMsg();
        if (g.chance(1, 8)) pool::fail_at = pool::allocs() + g.uni(12); bool oom = pool::fail_at >= 0;
        bool done = net::run([&] { ret = reg ? reg_client_register(&rc, buf.p(), len) : time_client_get_time(&tc, buf.p(), len); });
        bool hit = oom && pool::allocs() > pool::fail_at; pool::fail_at = -1;
        c.descf("%s with a buffer of %zu against %s%s: %d\n", reg ? "register" : "get time", len, ref_str(Rs).c_str(), hit ? " (an allocation fails)" : "", ret);
        if (w.clash) break;
        if (!done) { err = "the call does not return"; break; }
        std::string p = text_path(Rs); size_t pl = Rs.payload.size(); bool want;
        if (reg) want = Rs.cls == 2 && (Rs.det == 1 || Rs.det == 4) && p == "/client/id" && Rs.payload == "OK" && pl + 1 <= len;
        else want = Rs.cls == 2 && Rs.det == 5 && p == "/time" && pl + 1 <= len;
        if (!reg && pl == 0 && ret < 0) want = false;                     // no time in the response: an error is as good as an empty text
        if (want) good = true; else bad = true;
        if (w.to_server > before && !hit && Rq.cls == 0 && (Rq.det != (reg ? 2u : 1u) || text_path(Rq) != (reg ? "/client/id" : "/time") || Rq.payload != (reg ? id : "") || Rq.type != 0)) err = "the server received another request: " + ref_str(Rq);
        else if (ret >= 0 && !want) err = fmt("a response that is not right was accepted (%d)", ret);
        else if (ret < 0 && want && !hit) err = fmt("the right response was refused (%d)", ret);
        else if (ret >= 0 && ((size_t)ret != pl || buf.str(pl) != Rs.payload || buf.p()[pl] != 0)) err = "the text returned is not the payload of the response";
    }
    if (good || bad) c.nontrivial(); c.label(reg ? "registration client against any server" : "time client against any server"); if (bad) c.label("unusable response");
    if (reg) reg_client_destroy(&rc); else time_client_destroy(&tc); coap_server_destroy(&cs);
    std::string l = finish(); if (!err.empty()) c.fail("%s", err.c_str()); if (!l.empty()) c.fail("%s", l.c_str());
}

// ---------------------------------------------------------------- the programs together
int start(int (*f)(int, char **), std::vector<std::string> av, int *ret) {
    std::vector<char *> p; for (auto &s : av) p.push_back((char *)s.c_str()); p.push_back(nullptr);
    W &w = *X; w.pools = 0; w.pool_creates = 0; w.out.clear();
    bool done = net::run([&] { *ret = f((int)av.size(), p.data()); });
    coap_log_set_level((coap_log_level_t)0);
    if (w.pools) w.bad("the program did not destroy the pools it created"); w.pools = 1;
    return done;
}
void c34_programs(Gen &g, Ctx &c) {
    static W w; static Srv s; begin(w, g, c);
    unsigned which = g.weighted({1, 2, 4}); w.pools = 0; if (((int (*[])(void)){time_server_init, reg_server_init, transfer_server_init})[which]()) { pool::end(); c.fail("initialisation failed"); }
    coap_log_set_level((coap_log_level_t)0);
    if (up(s, which)) { pool::end(); c.fail("server creation failed"); }
    std::string err; Regs m; unsigned n = 1 + g.uni(4), good = 0; std::string host = net::HOST; bool outthere = false; std::string outwas; bool anyfault = false;
    for (unsigned i = 0; i < n && err.empty() && w.err.empty(); i++) {
        w.ploss = g.chance(1, 3) ? 3 : 0; w.max_drops = w.drops + 2; w.pdup = g.chance(1, 3) ? 4 : 0; w.last_code = 0; w.fhit = false; w.pool_fails = false; w.dead = false; w.die_after = -1;
        for (auto &f : w.ffail) f = -1;
        unsigned fault = g.chance(1, 4) ? 1 + g.uni(6) : 0; bool mem = false;
        std::vector<std::string> av = {"prog", host, "5683"}; long sent0 = w.to_server; int ret = -1; std::string data, id; bool badargs = false;
        if (which == 0) { w.die_after = g.uni(5); if (w.die_after == 0) w.die_after = 0; }
        if (which == 1) { id = g.str(1 + g.below(31), "abAB-"); if (g.chance(1, 8)) id += g.str(g.urange(20, 40), "x"); if (!m.empty() && g.chance(1, 3)) id = g.pick(m).first; av.push_back(id); }
        if (which == 2) { size_t len = g.chance(1, 8) ? 8100 + g.uni(200) : g.chance(1, 3) ? 64 * g.uni(20) + g.uni(3) : g.below(1500); data = g.blob(len); store("in", data); av.push_back("in"); outwas = load("out", &outthere); }
        switch (fault) {
        case 1: if (g.chance(1, 2)) av.push_back("more"); else av.pop_back(); badargs = true; break;
        case 2: w.pool_fails = true; break;
        case 3: net::fault_at[4] = 0; net::fault_errno[4] = EMFILE; break;
        case 4: if (which == 2) w.ffail[g.uni(5)] = g.uni(2); else fault = 0; break;
        case 5: pool::fail_at = pool::allocs() + g.uni(30); break;
        case 6: heap::count = 0; heap::fail_at = g.uni(3); mem = true; break;
        }
        long alloc0 = pool::allocs(); int64_t t0 = vf_time(nullptr); long k = w.die_after;
        bool done = start(((int (*[])(int, char **)){main_time_client, main_reg_client, main_transfer_client})[which], av, &ret);
        bool phit = fault == 5 && pool::allocs() > pool::fail_at && pool::fail_at >= alloc0, mhit = mem && heap::count > heap::fail_at, shit = fault == 3 && net::fault_hit[4];
        heap::fail_at = -1; pool::fail_at = -1; net::fault_at[4] = -1; net::fault_hit[4] = 0;
        { for (auto &f : w.ffail) f = -1; unsigned lc = w.last_code; for (int r = 0; r < 4; r++) { net::advance_to(net::now + 2 * MS); pump(); } w.last_code = lc; }      // what the program left under way reaches the server now, not during the next program
        c.descf("%s ", ((const char *[]){"time_client", "reg_client", "transfer_client"})[which]); if (which == 1) c.descf("%s", quote(id).c_str()); if (which == 2) c.descf("file of %zu bytes", data.size()); c.descf(", fault %u: exit status %d\n", fault, ret);
        if (w.clash) break;
        if (!done) { err = "the program does not end"; break; }
        bool nostart = badargs || fault == 2 || shit;
        if (nostart || phit || mhit || w.fhit) anyfault = true;
        if (nostart && ret == 0) err = "the program ended with success although it could not start";
        if (nostart && w.to_server != sent0) err = "the program sent requests although it could not start";
        if (nostart) { if (which == 2 && err.empty()) { bool f; std::string o = load("out", &f); if (f != outthere || o != outwas) err = "the stored file changed"; } continue; }
        if (which == 0) {
            if (ret == 0) err = "the time client ended with success";
            size_t at = 0; long seen = 0; int64_t tt = t0;
            while ((at = w.out.find("time: '", at)) != std::string::npos) {
                at += 7; std::string x = w.out.substr(at, w.out.find('\'', at) - at); bool ok = false;
                for (; tt <= t0 + 400; tt++) if (clock_text(tt) == x) { ok = true; break; }
                if (!ok) { err = "the time shown is not a time of this run, or earlier than the one before: " + x; break; } seen++;
            }
            if (err.empty() && !phit && !mhit && seen < k && w.drops == 0 && !w.pdup) err = fmt("%ld times were shown of %ld", seen, k);
            if (seen) good++;
        } else if (which == 1) {
            auto it = std::find_if(m.begin(), m.end(), [&](auto &x) { return x.first == id; });
            bool fits = id.size() <= 31; 
            if (!fits) { if (ret == 0) err = "an id that is too long was registered"; if (w.to_server != sent0) err = "an id that is too long was sent"; continue; }
            registrar_entry_t *e = registrar_find(&s.r.registrar, id.c_str());
            if (ret == 0 && !e) err = "the program ended with success but the id is not registered";
            if (ret != 0 && !phit && !mhit) err = fmt("registration failed (%d)", ret);
            if (e && it == m.end()) m.push_back({id, registrar_entry_get_addr(e)});
            if (err.empty() && w.last_code == 201 && it != m.end()) {}
            if (ret == 0) good++;
            if (err.empty()) err = same(&s.r.registrar, m);
        } else {
            bool f; std::string o = load("out", &f); bool stored = f && o == data, ok2 = w.last_code / 100 == 2, refused = w.last_code / 100 > 2;
            bool fault_any = phit || mhit || w.fhit;
            if (!fault_any && data.size() > 0 && data.size() <= 8192) { if (ret != 0) err = fmt("the transfer of %zu bytes failed", data.size()); else if (!stored) err = fmt("the stored file is not the one transferred (%zu of %zu bytes)", o.size(), data.size()); else if (w.last_code != 204) err = fmt("the transfer was answered with %u", w.last_code); }
            if (err.empty() && ret == 0 && ok2 && !stored) err = "the transfer succeeded but the file was not stored";
            if (err.empty() && ret == 0 && !ok2 && !refused) err = "the program ended with success although nothing was transferred";
            if (err.empty() && !w.fhit && !(f == outthere && o == outwas) && !stored) err = "the stored file is neither the old nor the new one";
            if (ret == 0 && stored) good++;
        }
    }
    if (good) c.nontrivial(); c.label(((const char *[]){"time programs", "registration programs", "transfer programs"})[which]); if (anyfault) c.label("program with a fault");
    down(s); w.pools = 1; ((void (*[])(void)){time_server_deinit, reg_server_deinit, transfer_server_deinit})[which]();
    std::string l = finish(); if (!err.empty()) c.fail("%s", err.c_str()); if (!l.empty()) c.fail("%s", l.c_str());
}
void c34_start(Gen &g, Ctx &c) {      // the server programs: command line, start and end
    static W w; begin(w, g, c);
    unsigned which = g.uni(3), fault = g.uni(5); int ret = -1; std::vector<std::string> av = {"prog", net::HOST, "5683"}; w.run_stub = true; w.run_ret = 0;
    switch (fault) { case 1: if (g.chance(1, 2)) av.push_back("x"); else av.pop_back(); break; case 2: w.pool_fails = true; break; case 3: { int k = g.oneof({4, 5}); net::fault_at[k] = 0; net::fault_errno[k] = EADDRINUSE; break; } case 4: w.run_ret = -(int)(1 + g.uni(100)); break; }
    bool done = start(((int (*[])(int, char **)){main_time_server, main_reg_server, main_transfer_server})[which], av, &ret);
    net::fault_at[4] = net::fault_at[5] = -1;
    c.descf("%s, fault %u: exit status %d\n", ((const char *[]){"time_server", "reg_server", "transfer_server"})[which], fault, ret);
    c.nontrivial(); c.label("server program");
    std::string err; if (!done) err = "the program does not end"; else if (fault && !ret) err = "the program ended with success although it failed"; else if (!fault && ret) err = "the program failed";
    else if (fault && fault < 4 && w.runs) err = "the program served although it could not start"; else if ((!fault || fault == 4) && w.runs != 1) err = "the program did not serve";
    std::string l = finish(); if (!err.empty()) c.fail("%s", err.c_str()); if (!l.empty()) c.fail("%s", l.c_str());
}
PROPERTY("C34", "registrar", "an entry was deleted", 2, c34_registrar);
PROPERTY("C34", "server-requests", "a request was answered with success or refused", 3, c34_requests);
PROPERTY("C34", "client-responses", "a response was judged", 3, c34_clients);
PROPERTY("C34", "programs", "a program reached its aim", 4, c34_programs);
PROPERTY("C34", "server-start", "always", 1, c34_start);
}
#endif
