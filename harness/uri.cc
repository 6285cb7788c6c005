// C22: URI parsing, generation and copying.
#include "common.h"
extern "C" {
#include "uri.h"
}
using namespace pbt;
static const char *UNRES = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~";
static const char *SUBD = "!$&'()*+,;=";

struct Part { bool set = false; std::string v; Part() {} Part(const std::string &s) : set(true), v(s) {} bool operator==(const Part &o) const { return set == o.set && v == o.v; } };
struct RUri { Part p[7]; };        // scheme userinfo host port path query fragment
static const char *NAME[7] = {"scheme", "userinfo", "host", "port", "path", "query", "fragment"};
static char *get(uri_t *u, int i) { switch (i) { case 0: return uri_get_scheme(u); case 1: return uri_get_userinfo(u); case 2: return uri_get_host(u); case 3: return uri_get_port(u); case 4: return uri_get_path(u); case 5: return uri_get_query(u); default: return uri_get_fragment(u); } }
static int set(uri_t *u, int i, const char *s) { switch (i) { case 0: return uri_set_scheme(u, s); case 1: return uri_set_userinfo(u, s); case 2: return uri_set_host(u, s); case 3: return uri_set_port(u, s); case 4: return uri_set_path(u, s); case 5: return uri_set_query(u, s); default: return uri_set_fragment(u, s); } }
static RUri read(uri_t *u) { RUri r; for (int i = 0; i < 7; i++) if (get(u, i)) r.p[i] = Part(get(u, i)); return r; }
static std::string show(const RUri &r) { std::string o; for (int i = 0; i < 7; i++) if (r.p[i].set) o += fmt("%s='%s' ", NAME[i], cesc(r.p[i].v, 80).c_str()); return o.empty() ? "(empty)" : o; }
static bool same(const RUri &a, const RUri &b) { for (int i = 0; i < 7; i++) if (!(a.p[i] == b.p[i])) return false; return true; }

static std::string pct(Gen &g, const std::string &v, const char *extra, unsigned force = 8) {
    std::string o;
    for (unsigned char c : v) {
        bool raw = c >= 128 ? g.chance(1, 3) : c && (strchr(UNRES, c) || strchr(SUBD, c) || strchr(extra, c));
        if (raw && !g.chance(1, force)) o += (char)c;
        else o += fmt(g.chance(1, 2) ? "%%%02X" : "%%%02x", c);
    }
    return o;
}
static std::string text(Gen &g, size_t max, const char *favour) {
    std::string s; size_t n = g.below(max + 1);
    for (size_t i = 0; i < n; i++) s += g.chance(1, 8) ? (char)(1 + g.uni(255)) : g.chance(1, 3) && *favour ? favour[g.uni(strlen(favour))] : UNRES[g.uni(40)];
    if (!s.empty() && g.chance(1, 60)) { size_t want = g.chance(1, 3) ? 250 + g.uni(12) : g.below(1500); std::string u = s; while (s.size() < want) s += u; }
    return s;
}
static Exact *cstr(const std::string &s) { return new Exact(s + '\0'); }
static int parse(uri_t *u, const std::string &s) { Exact *e = cstr(s); int r = uri_parse(u, e->p()); delete e; return r; }

// a well-formed URI reference and its components
static std::string gen_uri(Gen &g, RUri &r, bool absolute) {
    std::string t;
    bool scheme = absolute || g.chance(2, 3), auth = absolute || g.chance(2, 3);
    if (scheme) { std::string s = g.chance(1, 2) ? g.oneof<std::string>({"coap", "coaps", "COAP", "http", "coap+tcp"}) : std::string(1, UNRES[g.uni(26)]) + g.str(g.below(5), "ab1+-."); r.p[0] = Part(s); t += s + ":"; }
    if (auth) {
        t += "//";
        if (g.chance(1, 3)) { std::string u = text(g, 8, ":@/?#"); r.p[1] = Part(u); t += pct(g, u, ":") + "@"; }
        unsigned k = g.uni(5);
        if (k == 0) { std::string h = g.str(1 + g.below(12), "0123456789abcdef::::."); if (h.find(':') == std::string::npos) h += ":"; r.p[2] = Part(h); t += "[" + h + "]"; }
        else if (k < 4) { std::string h = text(g, 12, ".:/@?#["); if (!h.empty()) { r.p[2] = Part(h); t += pct(g, h, ""); } }
        if (g.chance(1, 2)) { std::string p = g.str(g.below(6), "0123456789"); r.p[3] = Part(p); t += ":" + p; }
    }
    bool abs = auth || g.chance(1, 2);
    std::string p = text(g, 20, "/:@?#%&");
    if (auth && g.chance(1, 4)) p.clear();
    else if (abs) p = "/" + p;
    if (!auth) while (p.size() >= 2 && p[0] == '/' && p[1] == '/') p.erase(0, 1);     // would be an authority
    std::string pe = pct(g, p, "/:@");
    if (auth && !pe.empty() && pe[0] != '/') { p.clear(); pe.clear(); }                // an encoded slash does not end the authority
    if (!auth && pe.compare(0, 2, "//") == 0) pe = p = "";
    if (!scheme && !auth && (pe.empty() || pe[0] != '/')) {                            // first segment must not contain ':'
        size_t e = pe.find('/'), c = pe.find(':');
        if (c != std::string::npos && (e == std::string::npos || c < e)) { p.clear(); pe.clear(); }
    }
    if (!p.empty()) { r.p[4] = Part(p); t += pe; }
    if (g.chance(1, 3)) { std::string q = text(g, 20, "/?:@&=#%"); r.p[5] = Part(q); t += "?" + pct(g, q, "/?:@"); }
    if (g.chance(1, 5)) { std::string f = text(g, 10, "/?:@&=#%"); r.p[6] = Part(f); t += "#" + pct(g, f, "/?:@"); }
    return t;
}
static std::string generate(Ctx &c, Gen &g, uri_t *u) {
    static char big[16384];
    size_t n = uri_generate(u, big, sizeof big);
    if (n >= sizeof big) throw Discard{};
    std::string full = big;
    if (full.size() != n) c.fail("generate returned %zu but wrote %zu characters", n, full.size());
    for (int i = 0; i < 2; i++) {
        size_t len = g.chance(1, 2) ? g.below(n + 3) : n + g.uni(3);
        Exact b(len, 0x55);
        size_t m = uri_generate(u, b.p(), len);
        if (m != n) c.fail("generate into %zu bytes returned %zu, expected %zu", len, m, n);
        if (!len) continue;
        size_t l = strnlen(b.p(), len);
        if (l == len) c.fail("generate into %zu bytes left the text unterminated", len);
        if (n < len ? full != b.p() : full.compare(0, l, b.p()) != 0) c.fail("generate into %zu bytes wrote '%s', expected (part of) '%s'", len, cesc(b.p(), 300).c_str(), cesc(full, 300).c_str());
    }
    return full;
}
// what a generated reference means when it is parsed again
static bool roundtrips(const RUri &r, RUri &e) {
    e = r;
    if (e.p[0].set && e.p[0].v.empty()) return false;
    if (e.p[2].set && e.p[2].v.empty()) e.p[2] = Part();
    bool auth = r.p[1].set || r.p[2].set || r.p[3].set;
    const std::string &p = r.p[4].v;
    if (!auth && p.compare(0, 2, "//") == 0) return false;
    if (auth && r.p[4].set && p.compare(0, 1, "/") != 0) return false;
    if (!auth && !r.p[0].set && (p.empty() || p[0] != '/')) { size_t s = p.find('/'), c = p.find(':'); if (c != std::string::npos && (s == std::string::npos || c < s)) return false; }
    if (e.p[4].set && p.empty()) e.p[4] = Part();
    return true;
}

static void c22parse(Gen &g, Ctx &c) {
    RUri r; std::string t = gen_uri(g, r, g.chance(1, 2));
    c.descf("%s -> %s", cesc(t, 200).c_str(), show(r).c_str());
    heap::reset();
    uri_t u; uri_create(&u);
    if (g.chance(1, 3)) { RUri o; std::string old = gen_uri(g, o, true); parse(&u, old); }     // reuse
    int ret = parse(&u, t);
    if (ret != 0) c.fail("'%s' was rejected with %d", cesc(t, 300).c_str(), ret);
    RUri got = read(&u);
    if (!same(got, r)) c.fail("'%s' was read as %s, expected %s", cesc(t, 300).c_str(), show(got).c_str(), show(r).c_str());
    // copy: equal and independent
    uri_t d; uri_create(&d);
    if (g.chance(1, 2)) parse(&d, "http://x:1/y?z#w");
    if (uri_copy(&d, &u) != 0) c.fail("copy failed");
    if (!same(read(&d), r)) c.fail("copy is %s, expected %s", show(read(&d)).c_str(), show(r).c_str());
    std::string full = generate(c, g, &u), full2 = generate(c, g, &d);
    if (full != full2) c.fail("a copy generates another text");
    uri_destroy(&u);
    if (!same(read(&u), RUri())) c.fail("destroy left components behind");
    if (!same(read(&d), r)) c.fail("the copy changed when the original was destroyed");
    RUri e;
    if (roundtrips(r, e)) {
        ret = parse(&u, full);
        if (ret) c.fail("the generated text '%s' is rejected with %d", cesc(full, 300).c_str(), ret);
        if (!same(read(&u), e)) c.fail("'%s' generated from %s is read as %s", cesc(full, 300).c_str(), show(e).c_str(), show(read(&u)).c_str());
        for (unsigned char ch : full) if (ch <= 32 || ch >= 127) c.fail("the generated text '%s' contains a character that must be escaped", cesc(full, 300).c_str());
    }
    uri_destroy(&u); uri_destroy(&d);
    if (heap::live) c.fail("%ld heap blocks leaked", heap::live);
    if (r.p[2].set && r.p[4].set) c.nontrivial();
}
PROPERTY("C22", "uri-parse", "the reference has a host and a path", 3, c22parse);

static void c22set(Gen &g, Ctx &c) {
    heap::reset();
    uri_t u; uri_create(&u);
    RUri r; unsigned n = 1 + g.below(8); bool bad = false;
    for (unsigned i = 0; i < n; i++) {
        int k = g.uni(7);
        std::string v = k == 0 ? g.str(1 + g.below(6), "abc1+-.") : k == 3 ? g.str(g.below(6), "0123456789") : text(g, 16, "/?:@&=#%[]");
        std::string e = pct(g, v, "/?:@", 4);
        bool inv = g.chance(1, 8);
        if (inv) { e.insert(g.uni(e.size() + 1), g.oneof<const char *>({"%g0", "%0g", "% 1", "%-1", "%%%", "%00"})); }
        else if (g.chance(1, 12)) { inv = true; e += g.chance(1, 2) ? "%" : "%4"; }
        Exact *x = cstr(e);
        bool fault = g.chance(1, 10), missing = g.chance(1, 30);
        if (missing) { int q = set(&u, k, nullptr); if (q >= 0) c.fail("setting %s to nothing returned %d", NAME[k], q); if (!same(read(&u), r)) c.fail("setting %s to nothing gives %s", NAME[k], show(read(&u)).c_str()); }
        if (fault) { heap::fail_at = heap::count; }
        int ret = set(&u, k, x->p());
        bool denied = fault && heap::count > heap::fail_at; heap::fail_at = -1;
        delete x;
        if (denied) {
            c.descf("%s<-'%s' without memory ", NAME[k], cesc(e, 60).c_str());
            if (ret >= 0) c.fail("setting %s succeeded without memory", NAME[k]);
            if (!get(&u, k)) r.p[k] = Part();                     // the old value may be gone, but only that
            if (!same(read(&u), r)) c.fail("after failing to set %s: %s, expected %s", NAME[k], show(read(&u)).c_str(), show(r).c_str());
            c.label("allocation failed");
            continue;
        }
        c.descf("%s<-'%s' ", NAME[k], cesc(e, 60).c_str());
        if (inv) { bad = true; if (ret != -EBADMSG) c.fail("setting %s to '%s' returned %d, expected a format error", NAME[k], cesc(e, 100).c_str(), ret); r.p[k] = Part(); }
        else { if (ret) c.fail("setting %s to '%s' returned %d", NAME[k], cesc(e, 100).c_str(), ret); r.p[k] = Part(k == 4 && (e.empty() || e[0] != '/') ? "/" + v : v); }
        if (!same(read(&u), r)) c.fail("after setting %s to '%s': %s, expected %s", NAME[k], cesc(e, 100).c_str(), show(read(&u)).c_str(), show(r).c_str());
    }
    std::string full = generate(c, g, &u);
    RUri e;
    if (roundtrips(r, e)) {
        uri_t d; uri_create(&d);
        int ret = parse(&d, full);
        if (ret) c.fail("the generated text '%s' is rejected with %d", cesc(full, 300).c_str(), ret);
        if (!same(read(&d), e)) c.fail("'%s' generated from %s is read as %s", cesc(full, 300).c_str(), show(e).c_str(), show(read(&d)).c_str());
        uri_destroy(&d);
        if (n > 2) c.nontrivial();
    }
    (void)bad;
    uri_destroy(&u);
    if (heap::live) c.fail("%ld heap blocks leaked", heap::live);
}
PROPERTY("C22", "uri-set-generate", "more than two components set and the text generated and read back", 2, c22set);

static void c22raw(Gen &g, Ctx &c) {
    std::string t; RUri r;
    if (g.chance(1, 2)) { t = gen_uri(g, r, false); unsigned k = 1 + g.below(4); while (k-- && !t.empty()) { size_t i = g.uni(t.size()); switch (g.uni(3)) { case 0: t[i] = (char)(1 + g.uni(255)); break; case 1: t.erase(i, 1 + g.uni(3)); break; default: t.insert(i, g.oneof<const char *>({"%", ":", "/", "//", "@", "?", "#", "[", "]", "%4", "%41", "%00", "%zz", "%3a", "\xff"})); } } }
    else { size_t n = g.below(24); for (size_t i = 0; i < n; i++) t += g.chance(1, 4) ? (char)(1 + g.uni(255)) : ":/?#[]@%a0"[g.uni(10)]; }
    c.descf("%s", cesc(t, 200).c_str());
    heap::reset();
    uri_t u, d; uri_create(&u); uri_create(&d);
    bool fault = g.chance(1, 6);
    if (fault) heap::fail_at = (long)g.below(10);
    int ret = parse(&u, t);
    bool denied = fault && heap::count > heap::fail_at;
    heap::fail_at = -1;
    if (denied && ret != -ENOMEM) c.fail("an allocation failed but parse returned %d", ret);
    if (!denied && ret != 0 && ret != -EBADMSG) c.fail("parse returned %d", ret);
    // an invalid escape anywhere makes the text invalid
    bool inv = false;
    for (size_t i = 0; i < t.size(); i++) if (t[i] == '%') { if (i + 2 >= t.size() || !isxdigit((unsigned char)t[i + 1]) || !isxdigit((unsigned char)t[i + 2]) || (t[i + 1] == '0' && t[i + 2] == '0')) inv = true; else i += 2; }
    if (inv && ret == 0) c.fail("'%s' contains an invalid escape and was accepted as %s", cesc(t, 200).c_str(), show(read(&u)).c_str());
    if (ret) { if (!same(read(&u), RUri())) c.fail("a failed parse left %s", show(read(&u)).c_str()); }
    else {
        RUri a = read(&u), e;
        if (g.chance(1, 3)) {
            heap::count = 0; heap::fail_at = (long)g.below(8);
            ret = uri_copy(&d, &u);
            bool den = heap::count > heap::fail_at; heap::fail_at = -1;
            if (den ? ret != -ENOMEM : ret != 0) c.fail("copy returned %d %s", ret, den ? "although an allocation failed" : "");
            if (!same(read(&d), den ? RUri() : a)) c.fail("copy gives %s, expected %s", show(read(&d)).c_str(), show(den ? RUri() : a).c_str());
        }
        std::string full = generate(c, g, &u);
        if (roundtrips(a, e)) {
            ret = parse(&d, full);
            if (ret || !same(read(&d), e)) c.fail("'%s' is read as %s, generated as '%s' and then read as %s (%d)", cesc(t, 200).c_str(), show(a).c_str(), cesc(full, 200).c_str(), show(read(&d)).c_str(), ret);
        }
        if (t.size() > 4) c.nontrivial();
    }
    uri_destroy(&u); uri_destroy(&d);
    if (heap::live) c.fail("%ld heap blocks leaked", heap::live);
}
PROPERTY("C22", "uri-arbitrary", "accepted text of more than four characters", 2, c22raw);
