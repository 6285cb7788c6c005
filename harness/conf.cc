// C26: configuration text, C26 also covers the proxy parameters read from it.
#include "common.h"
#include <unistd.h>
#include <map>
extern "C" {
#include "config.h"
#include "param.h"
}
using namespace pbt;
typedef std::map<std::pair<std::string, std::string>, std::string> Cfg;

// ---- reference reader: one statement per line, independent of the code under test
struct Tok { int kind; std::string s; unsigned line, col; };      // kinds: 'i' 'n' 'q' '=' '[' ']' 'e'(end of line) 'E'(end of text) '!'(lexical error)
struct Lex {
    const std::string &t; size_t i = 0; unsigned line = 1, col = 0;
    explicit Lex(const std::string &x) : t(x) {}
    int peek() { return i < t.size() ? (unsigned char)t[i] : -1; }
    int take() { int c = peek(); if (c < 0) { col++; return c; } i++; if (c == '\n') { line++; col = 0; } else if (c == '\t') col = (col / 4 + 1) * 4; else col++; return c; }
    Tok next() {
        while (peek() == ' ' || peek() == '\t' || peek() == '\r' || peek() == '\v' || peek() == '\f') take();
        unsigned l = line, k = col; int c = take();
        Tok r{0, "", l, c == '\n' ? k + 1 : col};
        auto alpha = [](int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); };
        auto digit = [](int c) { return c >= '0' && c <= '9'; };
        if (c < 0) r.kind = 'E';
        else if (c == '\n') r.kind = 'e';
        else if (c == ';') { while (peek() >= 0 && peek() != '\n') take(); r.kind = peek() < 0 ? 'E' : 'e'; take(); }
        else if (c == '=' || c == '[' || c == ']') r.kind = c;
        else if (alpha(c)) { r.kind = 'i'; r.s = (char)c; while (alpha(peek()) || digit(peek()) || peek() == '_') r.s += (char)take(); }
        else if (digit(c)) { r.kind = 'n'; r.s = (char)c; while (digit(peek())) r.s += (char)take(); }
        else if (c == '"') {
            r.kind = 'q'; int prev = 0;
            while (true) {
                int d = take();
                if (d < 0 || (d == '\n' && prev != '\\')) { r.kind = '!'; break; }
                if (d == '"' && prev != '\\') break;
                r.s += (char)d; prev = d;
            }
        } else r.kind = '!';
        return r;
    }
};
struct Res { int ret; unsigned line, col; };
static Res ref(const std::string &t, Cfg &out, unsigned *assigned) {
    Lex lx(t); std::string section;
    while (true) {
        Tok a = lx.next();
        if (a.kind == 'E') return {CONFIG_OK, 0, 0};
        if (a.kind == 'e') continue;
        if (a.kind == '!') return {CONFIG_ELEXICAL, a.line, a.col};
        auto need = [&](Tok &x, const char *kinds) -> int { x = lx.next(); if (x.kind == '!') return CONFIG_ELEXICAL; return strchr(kinds, x.kind) ? 0 : CONFIG_ESYNTAX; };
        Tok b, v, z; int e; bool ends = false;
        if (a.kind == 'i') {
            if ((e = need(b, "="))) return {e, b.line, b.col};
            if ((e = need(v, "inq"))) return {e, v.line, v.col};
            z = lx.next();
            // the assignment takes effect once its value has been followed by a lexically valid token
            if (z.kind == '!') return {CONFIG_ELEXICAL, z.line, z.col};
            out[{section, a.s}] = v.s; ++*assigned;
        } else if (a.kind == '[') {
            if ((e = need(b, "i"))) return {e, b.line, b.col};
            if ((e = need(v, "]"))) return {e, v.line, v.col};
            section = b.s;
            z = lx.next();
            if (z.kind == '!') return {CONFIG_ELEXICAL, z.line, z.col};
        } else return {CONFIG_ESYNTAX, a.line, a.col};
        if (z.kind == 'E') ends = true;
        else if (z.kind != 'e') return {CONFIG_ESYNTAX, z.line, z.col};
        if (ends) return {CONFIG_OK, 0, 0};
    }
}
static std::string blank(Gen &g) { std::string s; while (g.chance(1, 4)) s += " \t  \r"[g.uni(5)]; return s; }
static std::string ident(Gen &g) { if (g.chance(1, 150)) { std::string s(1, 'a'), u = g.str(1 + g.below(9), "abc_12"); size_t n = g.below(3000); while (s.size() < n) s += u; return s; } return g.chance(1, 12) ? std::string(1, 'a') + g.str(60 + g.below(140), "abc_12") : g.chance(1, 2) ? std::string(1, "abx"[g.uni(3)]) : std::string(1, "aZ"[g.uni(2)]) + g.str(g.below(6), "bQ_0"); }
static std::string gen_text(Gen &g, std::vector<std::string> secs, std::vector<std::string> keys) {
    std::string t; unsigned n = g.chance(1, 40) ? g.below(120) : g.below(14);
    for (unsigned i = 0; i < n; i++) {
        t += blank(g);
        switch (g.weighted({2, 3, 8, 1})) {
        case 0: break;
        case 1: { std::string s = secs.empty() || g.chance(1, 3) ? ident(g) : g.pick(secs); t += "[" + blank(g) + s + blank(g) + "]"; break; }
        case 2: {
            std::string k = keys.empty() || g.chance(1, 3) ? ident(g) : g.pick(keys), v;
            switch (g.uni(4)) {
            case 0: v = ident(g); break;
            case 1: v = g.str(1 + g.below(g.chance(1, 10) ? 150 : 6), "0123456789"); break;
            default: { v = "\""; size_t l = g.below(g.chance(1, 10) ? 200 : 12); for (size_t j = 0; j < l; j++) { unsigned q = g.uni(12); v += q == 0 ? std::string("\\\"") : q == 1 ? std::string("\\\n") : q == 2 ? std::string(";") : q == 3 ? std::string(1, (char)(128 + g.uni(128))) : std::string(1, "ab =[]/.1\t"[g.uni(10)]); } if (g.chance(1, 60)) { std::string u = v.substr(1) + "x"; size_t n = g.below(3000); while (v.size() < n) v += u; } v += "\""; }
            }
            t += k + blank(g) + "=" + blank(g) + v; break; }
        default: t += ";" + g.str(g.below(10), "ab \"[]=;"); break;
        }
        t += blank(g);
        if (g.chance(1, 6)) t += ";" + g.str(g.below(10), "ab \"[]=;");
        if (i + 1 < n || g.chance(1, 2)) t += "\n";
    }
    return t;
}
static void mangle(Gen &g, std::string &t) {
    unsigned k = 1 + g.below(3);
    while (k--) { size_t i = g.uni(t.size() + 1); switch (g.uni(3)) { case 0: if (i < t.size()) t[i] = (char)(1 + g.uni(255)); break; case 1: if (i < t.size()) t.erase(i, 1 + g.uni(4)); break; default: t.insert(i, g.oneof<const char *>({"\"", "=", "[", "]", "\n", ";", "1", "a", " ", "\\", "-", "_", "\x80"})); } }
}
static void match(Ctx &c, config_t *cf, const Cfg &m, const char *what) {
    size_t n = 0;
    for (config_section_t *s = cf->first; s; s = s->next) for (config_entry_t *e = s->first; e; e = e->next) {
        n++;
        auto it = m.find({s->name, e->name});
        if (it == m.end()) c.fail("%s: unexpected entry [%s] %s", what, cesc(s->name, 40).c_str(), cesc(e->name, 40).c_str());
    }
    if (n != m.size()) c.fail("%s: %zu entries, expected %zu", what, n, m.size());
    for (auto &x : m) {
        const char *v = config_get(cf, x.first.first.c_str(), x.first.second.c_str());
        if (!v) c.fail("%s: [%s] %s is missing", what, cesc(x.first.first, 40).c_str(), cesc(x.first.second, 40).c_str());
        if (x.second != v) c.fail("%s: [%s] %s is '%s', expected '%s'", what, cesc(x.first.first, 40).c_str(), cesc(x.first.second, 40).c_str(), cesc(v, 80).c_str(), cesc(x.second, 80).c_str());
    }
}
static void c26(Gen &g, Ctx &c) {
    heap::reset();
    config_t cf; config_create(&cf);
    Cfg m; unsigned assigned = 0, texts = 1 + (g.chance(1, 4) ? 1 : 0);
    std::vector<std::string> secs{"s", "t"}, keys{"k", "l"};
    bool broken = false;
    for (unsigned i = 0; i < texts; i++) {
        unsigned sets = g.below(3);
        while (sets--) {
            std::string s = g.chance(1, 3) ? "" : ident(g), k = ident(g), v = g.str(g.below(6), "abc \"\\\n");
            if (config_set(&cf, s.c_str(), k.c_str(), v.c_str()) != CONFIG_OK) c.fail("config_set failed");
            m[{s, k}] = v;
        }
        std::string t = gen_text(g, secs, keys);
        if (g.chance(1, 3)) mangle(g, t);
        size_t z = t.find('\0'); if (z != std::string::npos) t.resize(z);
        c.descf("%s | ", cesc(t, 250).c_str());
        unsigned line = 99, col = 99;
        Exact e(t + '\0');
        Res w = ref(t, m, &assigned);
        int r = config_parse(&cf, e.p(), &line, &col);
        if (r != w.ret) c.fail("'%s' gives %d, expected %d", cesc(t, 400).c_str(), r, w.ret);
        if (w.ret && line != w.line) c.fail("'%s': error reported in line %u, it is in line %u", cesc(t, 400).c_str(), line, w.line);
        if (w.ret && col != w.col) c.fail("'%s': error reported in column %u, it is in column %u", cesc(t, 400).c_str(), col, w.col);
        match(c, &cf, m, "after parsing");
        if (w.ret) { broken = true; c.label("rejected"); }
    }
    for (int e = -8; e <= 3; e++) {
        static const char *txt[] = {"ok", "invalid argument", "out of memory", "lexical error", "syntax error"};
        const char *want = e <= 0 && e >= CONFIG_ESYNTAX ? txt[-e] : "unknown", *have = config_strerr(e);
        if (!have || strcmp(have, want)) c.fail("error %d is described as '%s', expected '%s'", e, have ? have : "(null)", want);
    }
    if (config_get(&cf, "no_such_section", "k")) c.fail("a value was found in a section that does not exist");
    config_destroy(&cf);
    if (cf.first) c.fail("destroy left sections behind");
    if (heap::live) c.fail("%ld heap blocks leaked", heap::live);
    (void)broken;
    if (assigned > 1) c.nontrivial();
}
PROPERTY("C26", "config-text", "at least two assignments", 3, c26);

static void c26mem(Gen &g, Ctx &c) {
    heap::reset();
    config_t cf; config_create(&cf);
    std::string t = gen_text(g, {"s"}, {"k", "l"});
    Exact e(t + '\0');
    heap::fail_at = (long)g.below(60); heap::fail_rest = g.chance(1, 3);
    unsigned line, col;
    int r = config_parse(&cf, e.p(), &line, &col);
    bool hit = heap::count > heap::fail_at;
    heap::fail_at = -1;
    if (hit && r != CONFIG_ENOMEM) c.fail("an allocation failed but parsing '%s' returned %d", cesc(t, 200).c_str(), r);
    config_destroy(&cf);
    if (heap::live) c.fail("%ld heap blocks leaked", heap::live);
    c.descf("%s", cesc(t, 100).c_str());
    if (hit) c.nontrivial();
}
PROPERTY("C26", "config-alloc-failure", "an allocation failed", 1, c26mem);

static void c26param(Gen &g, Ctx &c) {
    struct F { const char *sec, *key, *def; char *param_t::*p; };
    static const F f[] = {{"", "port", PARAM_DEF_PORT, &param_t::port},
        {"http_server", "key_file", PARAM_DEF_HTTP_SERVER_KEY_FILE_NAME, &param_t::http_server_key_file_name}, {"http_server", "cert_file", PARAM_DEF_HTTP_SERVER_CERT_FILE_NAME, &param_t::http_server_cert_file_name},
        {"http_server", "trust_file", PARAM_DEF_HTTP_SERVER_TRUST_FILE_NAME, &param_t::http_server_trust_file_name}, {"coap_client", "key_file", PARAM_DEF_COAP_CLIENT_KEY_FILE_NAME, &param_t::coap_client_key_file_name},
        {"coap_client", "cert_file", PARAM_DEF_COAP_CLIENT_CERT_FILE_NAME, &param_t::coap_client_cert_file_name}, {"coap_client", "trust_file", PARAM_DEF_COAP_CLIENT_TRUST_FILE_NAME, &param_t::coap_client_trust_file_name}};
    static const char *lv[] = {"error", "warning", "notice", "info", "debug"};
    static const coap_log_level_t lvv[] = {COAP_LOG_ERROR, COAP_LOG_WARN, COAP_LOG_NOTICE, COAP_LOG_INFO, COAP_LOG_DEBUG};
    std::string t;
    unsigned n = g.below(10);
    auto line = [&](const std::string &k, const std::string &v) { t += k + " = " + (g.chance(1, 2) || v.find_first_not_of("abcdefghijklmnopqrstuvwxyz") != std::string::npos || v.empty() ? "\"" + v + "\"" : v) + "\n"; };
    for (unsigned i = 0; i < n; i++) switch (g.uni(4)) {
        case 0: t += "[" + g.oneof<std::string>({"http_server", "coap_client", "other"}) + "]\n"; break;
        case 1: line("log_level", g.chance(1, 6) ? g.oneof<std::string>({"none", "ERROR", "", "errorx"}) : std::string(lv[g.uni(5)])); break;
        default: line(f[g.uni(7)].key, g.chance(1, 3) ? std::string("abc") : g.str(g.below(10), "abc/._-12")); break;
    }
    if (g.chance(1, 8)) mangle(g, t);
    size_t z = t.find('\0'); if (z != std::string::npos) t.resize(z);
    c.descf("%s", cesc(t, 250).c_str());
    Cfg m; unsigned as = 0; Res w = ref(t, m, &as);
    std::string path = std::string(scratch_dir) + fmt("/p%u.%ld.conf", worker_index, (long)getpid());
    FILE *o = fopen(path.c_str(), "w"); if (!o) throw Discard{};
    size_t put = fwrite(t.data(), 1, t.size(), o); if (fclose(o) || put != t.size()) { unlink(path.c_str()); throw Discard{}; }
    coap_log_set_level((coap_log_level_t)-1);
    heap::reset();
    bool fault = g.chance(1, 6);
    if (fault) heap::fail_at = (long)g.below(40);
    param_t p; memset(&p, 0x33, sizeof p);
    bool missing = g.chance(1, 20);
    int r = param_create(&p, missing ? (path + ".none").c_str() : path.c_str());
    bool hit = fault && heap::count > heap::fail_at;
    heap::fail_at = -1;
    unlink(path.c_str());
    auto val = [&](const char *s, const char *k, const char *d) { auto it = m.find({s, k}); return it == m.end() ? std::string(d) : it->second; };
    int level = -1; for (int i = 0; i < 5; i++) if (val("", "log_level", PARAM_DEF_MAX_LOG_LEVEL) == lv[i]) level = i;
    bool ok = !missing && w.ret == CONFIG_OK && level >= 0 && !hit;
    if ((r == 0) != ok) c.fail("reading '%s' returned %d, expected %s", cesc(t, 300).c_str(), r, ok ? "success" : "failure");
    if (r == 0) {
        for (auto &x : f) if (!(p.*x.p) || val(x.sec, x.key, x.def) != p.*x.p) c.fail("[%s] %s is '%s', expected '%s'", x.sec, x.key, p.*x.p ? p.*x.p : "(null)", val(x.sec, x.key, x.def).c_str());
        if (param_get_max_log_level(&p) != lvv[level]) c.fail("log level is %d, expected %d", (int)p.max_log_level, (int)lvv[level]);
        param_destroy(&p);
        if (as > 1) c.nontrivial();
    }
    for (auto &x : f) if (p.*x.p) c.fail("a released or failed parameter set still holds %s", x.key);
    if (heap::live) c.fail("%ld heap blocks leaked", heap::live);
}
PROPERTY("C26", "proxy-parameters", "parameters were read from at least two assignments", 2, c26param);
