// The proxy program around the connections: command line, configuration, start, listening, signals, stop and logging.
// Threads are run by the harness: the listener when the main thread first sleeps, a connection at once or later.
#include "common.h"
#include <set>
#include <map>
#include <csignal>
#include <cstdarg>
#include <unistd.h>
#include <getopt.h>
#include <pthread.h>
extern "C" {
#include "coap_log.h"
#include "listener.h"
#include "connection.h"
#include "param.h"
#include "tls.h"
#include "tls_sock.h"
#include "sock.h"
extern int go;
int px_main(int argc, char **argv);
void *vf_malloc(size_t); void vf_free(void *);
void *px_connection_thread_func(void *);
}
#include "heap.inc"
using namespace pbt;
namespace {
struct Ev { int ret; bool con_fails, thread_fails, at_once; int sig; };
struct P {
    Gen *g; std::vector<Ev> ev; size_t pos = 0; unsigned accepts_after_stop = 0; std::string err, out;
    std::map<int, struct sigaction> act; bool masked = false, in_listener = false; void *(*lfn)(void *) = nullptr; void *larg = nullptr; bool lran = false, lended = false;
    long fail[12]; bool hit = false, mem_hit_late = false;
    int tls = 0, server = 0, ssock = 0, attr = 0; bool coninit = false; std::string trust, cert, key, port; unsigned started = 0, given = 0, lost = 0; int nosleep = 0;
    std::map<tls_sock_t *, int> socks;                 // 1 open
    std::set<unsigned> numbers; std::vector<connection_t *> pending; std::set<connection_t *> cons;
    unsigned level_at_start = 99;
    P() { for (auto &f : fail) f = -1; }
    bool fault(int k) { if (fail[k] < 0 || fail[k]-- > 0) return false; hit = true; return true; }
    void bad(const std::string &m) { if (err.empty()) err = m; }
    void signal(int s) { auto i = act.find(s); if (i == act.end() || i->second.sa_handler == SIG_DFL || i->second.sa_handler == SIG_IGN) { bad(fmt("signal %d would not stop the proxy in order", s)); go = 0; return; } i->second.sa_handler(s); if (go) { bad(fmt("the handler of signal %d does not stop the proxy", s)); go = 0; } }
    void run_con(connection_t *k) { px_connection_thread_func(k); }
};
P *X;
}
extern "C" {
int px_sigaction(int s, const struct sigaction *a, struct sigaction *o) { if (X->fault(0)) { errno = EINVAL; return -1; } if (a) X->act[s] = *a; if (o) memset(o, 0, sizeof *o); return 0; }
void (*px_signal(int s, void (*h)(int)))(int) { X->act[s].sa_handler = h; return SIG_DFL; }
int px_pthread_sigmask(int how, const sigset_t *s, sigset_t *) {
    bool all = how != SIG_UNBLOCK && s; for (int k : {SIGHUP, SIGINT, SIGQUIT, SIGTERM}) if (s && sigismember(s, k) != 1) all = false;
    if (X->in_listener && all) X->masked = true; return 0;
}
int px_pthread_attr_init(pthread_attr_t *a) { if (X->fault(1)) return ENOMEM; X->attr++; return pthread_attr_init(a); }
int px_pthread_attr_setdetachstate(pthread_attr_t *a, int s) { if (X->attr < 1) X->bad("thread attributes used before they were set up"); return pthread_attr_setdetachstate(a, s); }
int px_pthread_attr_destroy(pthread_attr_t *a) { if (--X->attr < 0) X->bad("thread attributes released twice"); return pthread_attr_destroy(a); }
int px_pthread_create(pthread_t *, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
    int d = 0; if (!a || pthread_attr_getdetachstate(a, &d) || d != PTHREAD_CREATE_DETACHED) X->bad("a thread is started whose resources are never released");
    if (fn == px_connection_thread_func) {
        if (!X->cons.count((connection_t *)arg)) X->bad("a thread was started for a connection that does not exist");
        if (X->pos && X->ev[X->pos - 1].thread_fails) return EAGAIN;
        X->started++; if (X->pos && X->ev[X->pos - 1].at_once) X->run_con((connection_t *)arg); else X->pending.push_back((connection_t *)arg);
        return 0;
    }
    if (X->fault(2)) return EAGAIN;
    if (heap::fail_at >= 0 && heap::count > heap::fail_at) X->bad("the proxy starts although it did not get the memory it needs");
    if (X->lfn) X->bad("two listener threads"); X->lfn = fn; X->larg = arg; return 0;
}
int px_pthread_detach(pthread_t) { return 0; }
unsigned px_sleep(unsigned n) {
    if (++X->nosleep > 50) { X->bad("the main thread does not stop"); go = 0; return 0; }
    if (!X->lran) { if (!X->lfn) X->bad("the proxy runs without a listener"); else { X->lran = true; X->in_listener = true; X->lfn(X->larg); X->in_listener = false; X->lended = true; } if (go) { X->lost++; X->signal(SIGTERM); } return n > 1 ? n - 1 : 0; }
    auto v = X->pending; X->pending.clear(); for (auto *k : v) X->run_con(k);
    return 0;
}
int px_usleep(unsigned) { return 0; }
const char *px_gnutls_check_version(const char *) { return X->fault(3) ? nullptr : "3"; }
int px_tls_init(void) { if (X->fault(4)) return SOCK_TLS_INIT_ERROR; X->tls++; return SOCK_OK; }
void px_tls_deinit(void) { if (--X->tls < 0) X->bad("the TLS library was released twice"); }
int px_tls_server_create(tls_server_t *, const char *t, const char *c, const char *k) { if (X->fault(5)) return SOCK_TLS_CRED_ERROR; if (!X->tls) X->bad("the TLS library is not set up"); X->server++; X->trust = t ? t : ""; X->cert = c ? c : ""; X->key = k ? k : ""; return SOCK_OK; }
void px_tls_server_destroy(tls_server_t *) { if (--X->server < 0) X->bad("the TLS server was released twice"); if (X->ssock) X->bad("the TLS server was released while it is listening"); }
int px_tls_ssock_open(tls_ssock_t *ss, tls_server_t *s, const char *port, int timeout, int) { memset(ss, 0, sizeof *ss); if (X->fault(6)) return SOCK_BIND_ERROR; if (!X->server || !s) X->bad("no TLS server"); if (timeout < 0) return SOCK_ARG_ERROR; X->ssock++; X->port = port ? port : ""; return SOCK_OK; }
void px_tls_ssock_close(tls_ssock_t *) { if (--X->ssock < 0) X->bad("the listening socket was closed twice"); }
int px_tls_ssock_accept(tls_ssock_t *, tls_sock_t *s) {
    if (!X->ssock) X->bad("accepting on a socket that is closed");
    if (!s) { X->bad("no socket to accept into"); go = 0; return SOCK_ARG_ERROR; }
    memset(s, 0, sizeof *s);
    if (!go && ++X->accepts_after_stop > 1) { X->bad("the listener goes on after it was told to stop"); }
    if (X->accepts_after_stop > 20) { _exit(98); }
    if (X->pos >= X->ev.size()) { if (go) X->signal(SIGINT); return SOCK_TIMEOUT; }
    const Ev &e = X->ev[X->pos++];
    if (e.sig) X->signal(e.sig);
    if (e.ret == SOCK_OK) { X->socks[s] = 1; X->given++; }
    return e.ret;
}
void px_tls_sock_close(tls_sock_t *s) { auto i = X->socks.find(s); if (i == X->socks.end() || !i->second) X->bad("a connection that is not open was closed"); else X->socks.erase(i); }
int px_connection_init(void) { if (X->fault(7)) return -1; X->coninit = true; return 0; }
connection_t *px_connection_new(tls_sock_t *s, unsigned, unsigned ci, param_t *p) {
    if (!X->coninit) X->bad("the connections are not set up"); if (!p) X->bad("a connection without parameters");
    if (!X->socks.count(s)) X->bad("a connection for a socket that was not accepted");
    if (X->pos && X->ev[X->pos - 1].con_fails) return nullptr;
    if (!X->numbers.insert(ci).second) X->bad("two connections have the same number");
    connection_t *k = (connection_t *)calloc(1, sizeof *k); k->sock = s; k->con_index = ci; X->cons.insert(k); return k;
}
void px_connection_delete(connection_t *k) { if (!X->cons.erase(k)) { X->bad("a connection was released twice"); return; } px_tls_sock_close(k->sock); vf_free(k->sock); free(k); }
void *px_connection_thread_func(void *d) { px_connection_delete((connection_t *)d); return nullptr; }
static int app(const std::string &s) { if (X) { X->out += s; if (X->out.size() > 100000) X->out.clear(); } return (int)s.size(); }
int px_vprintf(const char *f, va_list ap) { char b[2048]; int n = vsnprintf(b, sizeof b, f, ap); app(b); return n; }
int px_printf(const char *f, ...) { va_list ap; va_start(ap, f); int n = px_vprintf(f, ap); va_end(ap); return n; }
int px_fprintf(FILE *, const char *f, ...) { va_list ap; va_start(ap, f); int n = px_vprintf(f, ap); va_end(ap); return n; }
int px_vfprintf(FILE *, const char *f, va_list ap) { return px_vprintf(f, ap); }
int px_puts(const char *s) { return app(std::string(s) + "\n"); }
int px_putchar(int c) { return app(std::string(1, (char)c)); }
int px_fputs(const char *s, FILE *) { return app(s); }
int px_fputc(int c, FILE *) { return app(std::string(1, (char)c)); }
size_t px_fwrite(const void *p, size_t a, size_t b, FILE *) { app(std::string((const char *)p, a * b)); return b; }
int px_fflush(FILE *) { return 0; }
}
namespace {
void c33(Gen &g, Ctx &c) {
    heap::reset(); P x; X = &x; x.g = &g; go = 1; optind = 0; coap_log_set_level(COAP_LOG_DEF_LEVEL);
    // configuration
    std::map<std::string, std::string> want = {{"port", PARAM_DEF_PORT}, {"trust_file", PARAM_DEF_HTTP_SERVER_TRUST_FILE_NAME}, {"cert_file", PARAM_DEF_HTTP_SERVER_CERT_FILE_NAME}, {"key_file", PARAM_DEF_HTTP_SERVER_KEY_FILE_NAME}};
    std::string t; bool okconf = true;
    static const char *lv[] = {"error", "warning", "notice", "info", "debug"}; static const coap_log_level_t lvv[] = {COAP_LOG_ERROR, COAP_LOG_WARN, COAP_LOG_NOTICE, COAP_LOG_INFO, COAP_LOG_DEBUG};
    int level = -1;
    if (g.chance(2, 3)) { want["port"] = fmt("%u", (unsigned)g.below(65536)); t += "port = \"" + want["port"] + "\"\n"; }
    if (g.chance(2, 3)) { level = g.uni(5); t += std::string("log_level = ") + lv[level] + "\n"; }
    if (g.chance(2, 3)) { t += "[http_server]\n"; for (auto *k : {"trust_file", "cert_file", "key_file"}) if (g.chance(3, 4)) { want[k] = fmt("%c%s%u", k[0], "file", (unsigned)g.below(100)); t += std::string(k) + " = \"" + want[k] + "\"\n"; } }
    if (g.chance(1, 10)) { okconf = false; t += g.oneof<std::string>({"port = = 5\n", "[broken\n", "\"\n"}); }
    std::string path = std::string(scratch_dir) + fmt("/x%u.%ld.conf", worker_index, (long)getpid());
    FILE *o = fopen(path.c_str(), "w"); if (!o) throw Discard{};
    size_t put = fwrite(t.data(), 1, t.size(), o); if (fclose(o) || put != t.size()) { unlink(path.c_str()); throw Discard{}; }
    // command line
    std::vector<std::string> a = {"proxy"}; int cmd = 0;            // 0 start, 1 success without start, 2 failure
    auto conf = [&](const std::string &p) { switch (g.uni(4)) { case 0: a.push_back("-c"); a.push_back(p); break; case 1: a.push_back("-c" + p); break; case 2: a.push_back("--config"); a.push_back(p); break; default: a.push_back("--config=" + p); break; } };
    if (g.chance(1, 10)) conf("/nonexistent/first.conf");
    conf(path);
    if (g.chance(1, 20)) { conf("/nonexistent/proxy.conf"); okconf = false; }
    if (g.chance(1, 6)) { switch (g.uni(6)) { case 0: a.push_back("-h"); cmd = 1; break; case 1: a.push_back("--help"); cmd = 1; break; case 2: a.push_back(g.oneof<std::string>({"-x", "--nonsense", "-q", "--", "-1"})); if (a.back() == "--") a.push_back("more"); cmd = 2; break; case 3: a.push_back("extra"); cmd = 2; break; case 4: a.push_back("-c"); cmd = 2; break; case 5: a.push_back("--config"); cmd = 2; break; } }
    // history
    int when = -1; unsigned n = g.uni(12); static const int sg[] = {SIGHUP, SIGINT, SIGQUIT, SIGTERM};
    for (unsigned i = 0; i < n; i++) { Ev e; e.ret = g.chance(1, 2) ? SOCK_OK : g.chance(1, 2) ? SOCK_TIMEOUT : -1 - (int)g.uni(SOCK_NUM_ERRORS - 1); e.con_fails = g.chance(1, 10); e.thread_fails = g.chance(1, 10); e.at_once = g.chance(1, 2); e.sig = 0; x.ev.push_back(e); }
    if (n && g.chance(1, 2)) { when = g.uni(n); x.ev[when].sig = sg[g.uni(4)]; x.ev.resize(when + 1); }
    int inject = g.chance(1, 3) ? (int)g.uni(9) : -1; if (inject >= 0 && inject < 8) x.fail[inject] = g.uni(inject == 0 ? 6 : 1); 
    bool memf = inject == 8; if (memf) heap::fail_at = (long)g.below(60);
    std::string line; for (auto &s : a) line += " " + (s.size() > path.size() && s.substr(s.size() - path.size()) == path ? s.substr(0, s.size() - path.size()) + "FILE" : s == path ? "FILE" : s); c.descf("%s\n%s", line.c_str() + 1, cesc(t, 300).c_str());
    for (auto &e : x.ev) c.descf(" %d%s%s%s%s", e.ret, e.con_fails ? "(no connection)" : "", e.thread_fails ? "(no thread)" : "", e.at_once ? "!" : "", e.sig ? fmt(" signal %d", e.sig).c_str() : "");
    if (inject >= 0) c.descf(" fault %d", inject);
    std::vector<char *> av; for (auto &s : a) av.push_back((char *)s.c_str()); av.push_back(nullptr);
    int r = px_main((int)a.size(), av.data());
    bool mem = memf && heap::count > heap::fail_at; heap::fail_at = -1; unlink(path.c_str());
    bool started = x.lfn != nullptr;
    c.descf(" -> %d%s", r, started ? ", started" : "");
    X = nullptr;
    for (auto *k : x.cons) { if (!k->sock) continue; }
    if (!x.err.empty()) c.fail("%s", x.err.c_str());
    bool expect = cmd == 0 && okconf && !x.hit && !(mem && !started);
    if (cmd == 1 && (r != EXIT_SUCCESS || x.tls || started) && !x.hit) c.fail("a request for help ended with status %d%s", r, started ? " and started the proxy" : "");
    if (cmd == 1 && x.out.find("usage") == std::string::npos && !x.hit) c.fail("no help was given");
    if (cmd == 2 && x.out.empty() && !x.hit) c.fail("a wrong command line is not reported");
    if (cmd != 1 && started != expect) c.fail("the proxy was %sstarted although %s", started ? "" : "not ", cmd ? "the command line is wrong" : !okconf ? "the configuration is wrong" : x.hit || mem ? "something failed" : "nothing is wrong");
    if (cmd != 1 && (r == EXIT_SUCCESS) != started) c.fail("the proxy %s and ended with status %d", started ? "ran" : "did not start", r);
    if (started) {
        c.label("started"); if (n) c.nontrivial();
        if (x.port != want["port"]) c.fail("listening on port '%s', '%s' is configured", x.port.c_str(), want["port"].c_str());
        if (x.trust != want["trust_file"] || x.cert != want["cert_file"] || x.key != want["key_file"]) c.fail("the TLS server got the files '%s' '%s' '%s'; '%s' '%s' '%s' are configured", x.trust.c_str(), x.cert.c_str(), x.key.c_str(), want["trust_file"].c_str(), want["cert_file"].c_str(), want["key_file"].c_str());
        if (!x.masked) c.fail("the listener may take the signals that are meant for the main thread");
        auto ip = x.act.find(SIGPIPE); if (ip == x.act.end() || ip->second.sa_handler != SIG_IGN) c.fail("a broken connection would end the proxy");
        if (!x.lended) c.fail("the listener did not end");
        if (level >= 0 && coap_log_get_level() != lvv[level] && !(lvv[level] == COAP_LOG_ERROR && coap_log_get_level() == COAP_LOG_DEF_LEVEL)) c.fail("log level %d instead of %s", (int)coap_log_get_level(), lv[level]);
        if (!mem) {
            if (x.lost) c.fail("the listener gave up after %zu of %zu connection attempts", x.pos, x.ev.size());
            if (x.pos != x.ev.size()) c.fail("%zu of %zu connection attempts were taken", x.pos, x.ev.size());
            unsigned w = 0; for (auto &e : x.ev) if (e.ret == SOCK_OK && !e.con_fails && !e.thread_fails) w++;
            // a connection that arrives together with the signal may be served or not
            unsigned slack = when >= 0 && x.ev[when].ret == SOCK_OK;
            if (x.started > w || x.started + slack < w) c.fail("%u of %u connections are served", x.started, w);
            if (w) c.label("connections"); for (auto &e : x.ev) if (e.ret == SOCK_OK && (e.con_fails || e.thread_fails)) c.label("connection failed for lack of resources");
        } else c.label("out of memory while running");
    } else c.label(cmd == 1 ? "help" : cmd ? "bad command line" : !okconf ? "bad configuration" : "start failed");
    if (!x.cons.empty()) c.fail("%zu connections were not released", x.cons.size());
    if (!x.socks.empty()) c.fail("%zu accepted sockets were not closed", x.socks.size());
    if (x.ssock || x.server || x.tls || x.attr > 0) c.fail("not released: %s", x.ssock ? "the listening socket" : x.server ? "the TLS server" : x.tls ? "the TLS library" : "thread attributes");
    if (heap::live) c.fail("%ld heap blocks leaked", heap::live);
}
void c33log(Gen &g, Ctx &c) {
    P x; X = &x;
    static const coap_log_level_t lvv[] = {COAP_LOG_ERROR, COAP_LOG_WARN, COAP_LOG_NOTICE, COAP_LOG_INFO, COAP_LOG_DEBUG}; static const char *nm[] = {"Error", "Warning", "Notice", "Info", "Debug"};
    static void (*const fn[])(const char *, ...) = {coap_log_error, coap_log_warn, coap_log_notice, coap_log_info, coap_log_debug};
    for (unsigned i = 0, n = 1 + g.uni(8); i < n; i++) {
        int l = g.uni(5); coap_log_set_level(lvv[l]);
        if (coap_log_get_level() != lvv[l]) c.fail("the log level is %d after it was set to %d", (int)coap_log_get_level(), (int)lvv[l]);
        int m = g.uni(5); std::string s = g.str(g.below(40), "abc%sd n1"); int v = (int)g.below(100000) - 50000;
        x.out.clear(); fn[m]("%s %d", s.c_str(), v);
        c.descf("level %s, %s message; ", nm[l], nm[m]);
        std::string w = s + fmt(" %d\n", v);
        if (m <= l ? x.out.size() < w.size() || x.out.compare(x.out.size() - w.size(), w.size(), w) || x.out.compare(0, strlen(nm[m]), nm[m]) : !x.out.empty()) { X = nullptr; c.fail("at level %s a message of level %s was written as '%s'", nm[l], nm[m], cesc(x.out, 200).c_str()); }
        if (m == l || m == l + 1) c.nontrivial();
    }
    X = nullptr;
}
}
PROPERTY("C33", "proxy-program", "the proxy started and connections were attempted", 5, c33);
PROPERTY("C33", "log-levels", "a message at the level or just above it", 1, c33log);
