// C23: HTTP requests to CoAP requests; C24: CoAP responses (and URIs) to HTTP.
#include "common.h"
#include <ctype.h>
#include <algorithm>
extern "C" {
#include "http_msg.h"
#include "uri.h"
#include "cross.h"
}
using namespace pbt;
static const char *UNRES = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_~";
static const char *SUBD = "!$'()*+,;=";
static const char *TOK = "abcXYZ0189!#$%&'*+-.^_`|~";
static std::string flip(Gen &g, std::string s) { if (g.chance(1, 3)) for (auto &c : s) if (g.chance(1, 2)) c = islower(c) ? toupper(c) : tolower(c); return s; }
// a component value and one of its spellings; sep: characters that separate parts of the component
static std::string value(Gen &g, size_t max, const char *favour) {
    std::string s; size_t n = 1 + g.below(max);
    for (size_t i = 0; i < n; i++) s += g.chance(1, 8) ? (char)(1 + g.uni(255)) : g.chance(1, 4) ? favour[g.uni(strlen(favour))] : UNRES[g.uni(40)];
    return s;
}
static std::string spell(Gen &g, const std::string &v, const char *extra) {
    std::string o;
    for (unsigned char c : v) { bool raw = strchr(UNRES, c) || strchr(SUBD, c) || strchr(extra, c); if (raw && !g.chance(1, 10)) o += (char)c; else o += fmt(g.chance(1, 2) ? "%%%02X" : "%%%02x", c); }
    return o;
}
struct Part { std::string v; };
struct Target { std::string text; bool ok; std::vector<ROpt> opts; };
static Target gen_target(Gen &g) {
    Target t; t.ok = true;
    unsigned bad = g.chance(1, 6) ? 1 + g.uni(5) : 0;
    std::string s = flip(g, g.oneof<std::string>({"coap", "coaps"}));
    if (bad == 1) s = g.oneof<std::string>({"http", "https", "coapx", "coa", "oap", "coap+tcp", "x"});
    if (bad != 2) t.text = s + ":";
    bool auth = bad == 2 || g.chance(5, 6);
    if (auth) {
        t.text += "//";
        if (g.chance(1, 12)) t.text += "user:pw@";
        if (g.chance(7, 8)) {
            std::string h = g.chance(1, 8) ? "fe80::1:2" : value(g, 12, "...-");
            t.text += h == "fe80::1:2" ? "[" + h + "]" : spell(g, h, ".");
            t.opts.push_back({3, h});
        }
        if (g.chance(2, 3)) { std::string p = g.str(1 + g.below(5), "0123456789"); t.text += ":" + p; t.opts.push_back({7, p}); }
    }
    if (!auth || g.chance(5, 6)) {
        unsigned n = g.below(6);
        std::string path;
        if (n == 0) path = "/";
        for (unsigned i = 0; i < n; i++) {
            path += "/";
            if (g.chance(1, 6) && !(i == 0 && !auth)) continue;                // an empty segment carries nothing
            std::string v = value(g, g.chance(1, 20) ? 300 : 10, "/?#%&. ");
            if (v == "." || v == "..") v += "x";
            path += spell(g, v, ":@&."); t.opts.push_back({11, v});
        }
        if (bad == 3 && !auth && path.size() > 1) { path.erase(0, 1); if (path[0] == '/') path[0] = 'q'; t.ok = false; }
        t.text += path;
    }
    if (g.chance(1, 2)) {
        t.text += "?";
        unsigned n = g.below(5);
        for (unsigned i = 0; i < n; i++) {
            if (i) t.text += "&";
            if (g.chance(1, 6)) continue;
            std::string v = value(g, g.chance(1, 20) ? 300 : 10, "/?#%&= ");
            t.text += spell(g, v, "/?:@."); t.opts.push_back({15, v});
        }
    }
    if (bad == 4) { t.text += "#" + g.str(g.below(4), "ab"); t.ok = false; }
    if (bad == 5) { size_t k = t.text.find(':') + 1; k += g.uni(t.text.size() - k + 1); while (k < t.text.size() && (t.text[k - 1] == '%' || (k > 1 && t.text[k - 2] == '%'))) k++; if (k >= t.text.size()) t.text += "%zz"; else t.text.insert(k, "%4z"); t.ok = false; }
    if (bad == 1 || bad == 2) t.ok = false;
    return t;
}
static const char *METHOD[] = {"GET", "POST", "PUT", "DELETE"};
static const unsigned MDET[] = {COAP_MSG_GET, COAP_MSG_POST, COAP_MSG_PUT, COAP_MSG_DELETE};
static const pool::Cfg PROXY = {{128, 128, 32}, {256, 1024, 8192}};

static void c23(Gen &g, Ctx &c) {
    pool::begin(pool::GUARD, PROXY); heap::reset();
    http_msg_t h; http_msg_create(&h);
    int mi = g.chance(1, 10) ? -1 : (int)g.uni(4);
    std::string method = mi < 0 ? g.oneof<std::string>({"get", "HEAD", "CONNECT", "OPTIONS", "PATCH", "GETS", "GE", "Put", "POSTT", "DELET"}) : METHOD[mi];
    Target t = gen_target(g);
    RMsg want; want.type = 0; want.cls = 0; want.det = mi < 0 ? 0 : MDET[mi]; want.opts = t.opts;
    int ret = 0; unsigned code = 0;
    bool nostart = g.chance(1, 40);
    if (nostart) { ret = -EBADMSG; code = 400; }
    else {
        if (http_msg_set_start(&h, method.c_str(), t.text.c_str(), "HTTP/1.1")) c.fail("set_start failed");
        if (mi < 0) { ret = -EBADMSG; code = 501; }
        else if (!t.ok) { ret = -EBADMSG; code = 400; }
    }
    c.descf("%s %s", method.c_str(), cesc(t.text, 150).c_str());
    unsigned n = g.below(6);
    for (unsigned i = 0; i < n; i++) {
        std::string name, val;
        switch (g.uni(4)) {
        case 0: name = flip(g, "Etag"); val = g.str(1 + g.below(g.chance(1, 10) ? 300 : 9), "abc\"123/W "); want.opts.push_back({4, val}); break;
        case 1: {
            name = flip(g, "Cache-Control");
            unsigned k = 1 + g.uni(3); bool have = false;
            for (unsigned j = 0; j < k; j++) {
                if (j) val += g.oneof<const char *>({", ", ",", " ,"});
                if (g.chance(1, 2)) { unsigned v = g.chance(1, 4) ? (unsigned)g.uni(1ull << 32) : g.below(100000); val += "max-age=" + fmt(g.chance(1, 6) ? "%05u" : "%u", v); if (!have) { want.opts.push_back({14, fmt("%u", v)}); have = true; } }
                else val += g.oneof<const char *>({"no-cache", "public", "max-stale=9", "max-age", "no-transform"});
            }
            break; }
        case 2: {
            name = flip(g, "Accept");
            bool good = g.chance(5, 6);
            val = good ? flip(g, "text/plain") + g.oneof<const char *>({"", ";q=0.5", ", text/html"}) : g.oneof<std::string>({"text/html", "*/*", "text/plai", "application/json", "", "ext/plain", "text/html, text/plain"});
            if (good) want.opts.push_back({17, "0"});
            else if (!ret) { ret = -EBADMSG; code = 406; }
            break; }
        default: name = g.oneof<std::string>({"Host", "User-Agent", "Etagx", "Content-Type", "Accept-Language", "X"}); val = g.str(g.below(10), "abc=1"); break;
        }
        if (http_msg_set_header(&h, name.c_str(), val.c_str())) c.fail("set_header failed");
        c.descf(" <%s: %s>", name.c_str(), cesc(val, 40).c_str());
    }
    size_t blen = g.chance(1, 3) ? 0 : g.chance(1, 2) ? g.below(200) : g.chance(1, 2) ? 1022 + g.uni(6) : g.below(9000);
    std::string body = g.blob(blen);
    if (blen || g.chance(1, 4)) { Exact b(body); if (http_msg_set_body(&h, b.p(), blen)) c.fail("set_body failed"); }
    size_t space = g.chance(1, 4) ? blen + g.uni(3) - std::min<size_t>(1, blen) : g.chance(1, 8) ? g.below(3000) : 8192;
    bool big = blen > COAP_MSG_MAX_PAYLOAD_LEN;
    if (!big) want.payload = body;
    else if (blen > space && !ret) { ret = -ENOSPC; code = 502; }
    sort_opts(want);
    c.descf(" body %zu/%zu", blen, space);
    coap_msg_t m; coap_msg_create(&m);
    if (g.chance(1, 3)) { coap_msg_set_code(&m, 2, 5); coap_msg_set_type(&m, COAP_MSG_NON); coap_msg_add_op(&m, 11, 3, "old"); coap_msg_set_payload(&m, (char *)"stale", 5); }
    Exact out(space, 0x55);
    size_t end = 77; unsigned got_code = 999;
    bool fault = g.chance(1, 8);
    long hc = heap::count, pc = pool::allocs();
    if (fault) { if (g.chance(1, 2)) heap::fail_at = hc + (long)g.below(20); else pool::fail_at = pc + (long)g.below(16); }
    int r = cross_req_http_to_coap(&m, out.p(), space, &end, &h, &got_code);
    bool denied = fault && ((heap::fail_at >= 0 && heap::count > heap::fail_at) || (pool::fail_at >= 0 && pool::allocs() > pool::fail_at));
    heap::fail_at = -1; pool::fail_at = -1;
    if (denied) {
        c.label("allocation failed");
        if (r >= 0) c.fail("an allocation failed but the conversion succeeded");
        if (got_code < 400 || got_code > 599) c.fail("a failed conversion gives status %u", got_code);
    } else if (ret) {
        c.label(fmt("refused %u", code).c_str());
        if (r != ret || got_code != code) c.fail("%s gives %d (status %u), expected %d (status %u)", cesc(method + " " + t.text, 300).c_str(), r, got_code, ret, code);
    } else {
        if (r) c.fail("%s gives %d (status %u), expected success", cesc(method + " " + t.text, 300).c_str(), r, got_code);
        if (got_code) c.fail("a successful conversion gives status %u", got_code);
        std::string d = diff(from_msg(&m), want);
        if (!d.empty()) c.fail("%s: %s", cesc(method + " " + t.text, 300).c_str(), d.c_str());
        if (big) { if (end != blen || memcmp(out.p(), body.data(), blen)) c.fail("the body of %zu bytes was not stored (%zu)", blen, end); }
        else if (end != 77) c.fail("the body length was set to %zu for a body that is the payload", end);
        if (want.opts.size() > 3) c.nontrivial();
    }
    for (size_t i = big ? blen : 0; i < space; i++) if (out.p()[i] != 0x55) c.fail("byte %zu beyond the body was written", i);
    http_msg_destroy(&h); coap_msg_destroy(&m);
    if (heap::live) c.fail("%ld heap blocks leaked", heap::live);
    std::string e = pool::end(); if (!e.empty()) c.fail("%s", e.c_str());
    if (!pool::error.empty()) c.fail("%s", pool::error.c_str());
}
PROPERTY("C23", "http-request-to-coap", "accepted, with more than three options", 1, c23);

// ---------------------------------------------------------------- C24
struct St { unsigned cls, det; const char *code, *text; };
static const St STATUS[] = {{2, 1, "200", "OK"}, {2, 2, "200", "OK"}, {2, 3, "304", "Not Modified"}, {2, 4, "200", "OK"}, {2, 5, "200", "OK"},
    {4, 0, "400", "Bad Request"}, {4, 1, "401", "Unauthorized"}, {4, 2, "400", "Bad Request"}, {4, 3, "403", "Forbidden"}, {4, 4, "404", "Not Found"}, {4, 5, "405", "Method Not Allowed"}, {4, 6, "406", "Not Acceptable"},
    {4, 12, "412", "Precondition Failed"}, {4, 13, "413", "Request Entity Too Large"}, {4, 15, "415", "Unsupported Media Type"},
    {5, 0, "500", "Internal Server Error"}, {5, 1, "501", "Not Implemented"}, {5, 2, "502", "Bad Gateway"}, {5, 3, "503", "Service Unavailable"}, {5, 4, "504", "Gateway Timeout"}, {5, 5, "501", "Not Implemented"}};
static bool ws(unsigned char c) { return c == ' ' || (c >= 9 && c <= 13); }
static std::string squeeze(const std::string &s) { std::string o; bool sp = false; for (unsigned char c : s) { if (ws(c)) sp = !o.empty(); else { if (sp) o += ' '; sp = false; o += (char)c; } } return o; }
typedef std::vector<std::pair<std::string, std::string>> Hdrs;
static std::string hshow(const Hdrs &h) { std::string o; for (auto &x : h) o += "<" + cesc(x.first, 40) + ": " + cesc(x.second, 60) + ">"; return o.empty() ? "(none)" : o; }
static Hdrs headers(http_msg_t *m) { Hdrs h; for (auto x = http_msg_get_first_header(m); x; x = http_msg_header_get_next(x)) h.push_back({http_msg_header_get_name(x), http_msg_header_get_value(x)}); return h; }

static void c24(Gen &g, Ctx &c) {
    pool::begin(pool::GUARD, PROXY); heap::reset();
    RMsg r; r.type = g.uni(3); r.mid = g.uni(65536); r.token = g.blob(g.below(9));
    const St *st = nullptr;
    if (g.chance(3, 4)) { st = &STATUS[g.uni(sizeof STATUS / sizeof *STATUS)]; r.cls = st->cls; r.det = st->det; }
    else { r.cls = g.chance(1, 2) ? 2 : g.uni(8); r.det = g.uni(32); for (auto &x : STATUS) if (x.cls == r.cls && x.det == r.det) st = &x; }
    Hdrs want; unsigned n = g.below(6);
    bool toolong = false;
    std::vector<ROpt> os;
    for (unsigned i = 0; i < n; i++) {
        ROpt o;
        switch (g.uni(4)) {
        case 0: o.num = 4; o.val = g.chance(1, 3) ? g.bytes(1 + g.below(8)) : g.chance(1, 8) ? g.str(g.chance(1, 2) ? 253 + g.uni(6) : 300, "ab") : g.chance(1, 3) ? "a\r\nX-Evil: 1" + g.str(g.below(3), "\r\nb") : g.str(1 + g.below(8), "abc123\""); break;
        case 1: o.num = 14; o.val = g.chance(1, 4) ? "" : g.chance(1, 4) ? std::string(1, (char)(g.chance(1, 2) ? 1 + g.uni(8) : 128 + g.uni(100))) + g.blob(g.below(3)) : g.chance(1, 12) ? g.str(g.chance(1, 2) ? 253 + g.uni(6) : 300, "x") : fmt("%u", g.chance(1, 3) ? (unsigned)g.uni(1ull << 32) : g.below(100000)); break;
        case 2: o.num = 17; o.val = g.oneof<std::string>({"0", "", "1", "00", "50", std::string(1, '\0')}); break;
        default: o.num = g.oneof<unsigned>({8, 20, 12, 23, 28, 60, 2000, 2053, 6}); o.val = g.blob(g.chance(1, 6) ? g.below(600) : g.below(6)); break;
        }
        os.push_back(o);
    }
    r.opts = os; sort_opts(r);
    bool vague = false;                                        // an entity tag that a header cannot carry may be left out or make the conversion fail
    std::vector<int> optional;
    for (auto &o : r.opts) {
        if (o.num == 4) {
            bool ctl = false; for (unsigned char ch : o.val) if (ch < 32 || ch == 127) ctl = true;
            if (o.val.size() > 255) toolong = true;
            else if (!ctl) want.push_back({"Etag", o.val});
            (void)vague;
        } else if (o.num == 14) {
            bool digits = !o.val.empty() && o.val.find_first_not_of("0123456789") == std::string::npos;
            if (o.val.size() > 255) toolong = true;
            else if (digits) want.push_back({"Cache-Control", "max-age=" + o.val});
        } else if (o.num == 17 && o.val == "0") want.push_back({"Accept", "text/plain"});
    }
    r.payload = g.chance(1, 3) ? "" : g.blob(1 + g.below(g.chance(1, 6) ? 1024 : 60));
    std::string body = g.chance(1, 2) ? "" : g.blob(1 + g.below(g.chance(1, 4) ? 8000 : 200)), &eff = body.empty() ? r.payload : body;
    if (!eff.empty()) want.push_back({"Content-Length", fmt("%zu", eff.size())});
    coap_msg_t m; coap_msg_create(&m);
    if (to_msg(r, &m) < 0) throw Discard{};
    c.descf("%u.%02u %s body %zu payload %zu", r.cls, r.det, hshow(want).c_str(), body.size(), r.payload.size());
    http_msg_t h; http_msg_create(&h);
    if (g.chance(1, 3)) { http_msg_set_start(&h, "OLD", "1", "x"); http_msg_set_header(&h, "Old", "1"); http_msg_set_body(&h, "old", 3); }
    bool fault = g.chance(1, 8);
    if (fault) heap::fail_at = heap::count + (long)g.below(20);
    unsigned code = 999;
    Exact eb(body);
    int ret = cross_resp_coap_to_http(&h, &m, eb.p(), body.size(), &code);
    bool denied = fault && heap::count > heap::fail_at;
    heap::fail_at = -1;
    if (denied || !st) {
        if (ret >= 0) c.fail("%u.%02u%s was converted to status %s", r.cls, r.det, denied ? " (without memory)" : "", http_msg_get_start(&h, 1));
        if (code != 502) c.fail("a failed conversion of %u.%02u gives status %u, expected 502", r.cls, r.det, code);
        c.label(denied ? "allocation failed" : "unknown code");
    } else if (toolong) {
        if (ret < 0 && code != 502) c.fail("a failed conversion gives status %u, expected 502", code);
        c.label("long value");
    } else {
        if (ret) c.fail("converting %s returned %d (status %u)", ref_str(r).c_str(), ret, code);
        if (code) c.fail("a successful conversion gives status %u", code);
        if (strcmp(http_msg_get_start(&h, 0), "HTTP/1.1") || strcmp(http_msg_get_start(&h, 1), st->code) || strcmp(http_msg_get_start(&h, 2), st->text))
            c.fail("%u.%02u became '%s %s %s', expected %s %s", r.cls, r.det, http_msg_get_start(&h, 0), http_msg_get_start(&h, 1), http_msg_get_start(&h, 2), st->code, st->text);
        if (headers(&h) != want) c.fail("%s became %s, expected %s", ref_str(r).c_str(), hshow(headers(&h)).c_str(), hshow(want).c_str());
        if (http_msg_get_body_len(&h) != eff.size() || (eff.size() && memcmp(http_msg_get_body(&h), eff.data(), eff.size()))) c.fail("the body differs (%zu bytes instead of %zu)", http_msg_get_body_len(&h), eff.size());
        // what an HTTP client sees is that message and nothing else
        static char room[20000]; size_t len = http_msg_generate(&h, room, sizeof room);
        Exact t(len + 1);
        http_msg_generate(&h, t.p(), len + 1);
        http_msg_t p; http_msg_create(&p);
        ssize_t k = http_msg_parse(&p, t.p(), len);
        if (k != (ssize_t)len) c.fail("the response written out as '%s' is read with result %zd of %zu", cesc(t.str(len), 300).c_str(), k, len);
        Hdrs sq = want; for (auto &x : sq) x.second = squeeze(x.second);
        if (headers(&p) != sq) c.fail("the response written out is read with the headers %s, expected %s", hshow(headers(&p)).c_str(), hshow(sq).c_str());
        if (http_msg_get_body_len(&p) != eff.size()) c.fail("the response written out is read with a body of %zu bytes instead of %zu", http_msg_get_body_len(&p), eff.size());
        http_msg_destroy(&p);
        if (want.size() > 1) c.nontrivial();
    }
    http_msg_destroy(&h); coap_msg_destroy(&m);
    if (heap::live) c.fail("%ld heap blocks leaked", heap::live);
    std::string e = pool::end(); if (!e.empty()) c.fail("%s", e.c_str());
}
PROPERTY("C24", "coap-response-to-http", "converted, with at least two headers", 3, c24);

static void c24uri(Gen &g, Ctx &c) {
    pool::begin(pool::GUARD, PROXY); heap::reset();
    RMsg r; r.type = 0; r.cls = 0; r.det = 1; r.mid = 1;
    bool impossible = false; size_t raw = 0; std::string path, query, host, port; bool hh = false, hp = false;
    unsigned n = g.below(9);
    std::vector<ROpt> uo;
    for (unsigned i = 0; i < n; i++) {
        ROpt o; o.num = g.oneof<unsigned>({3, 7, 11, 11, 11, 15, 15, 4, 12});
        size_t max = g.chance(1, 12) ? 300 : 10;
        bool clean = g.chance(7, 8);
        o.val = o.num == 7 ? g.str(1 + g.below(5), "0123456789") : value(g, max, clean ? "%%.:@?#" : "/&%\\");
        if (o.num == 3) { if (hh) continue; hh = true; host = o.val; }
        if (o.num == 7) { if (hp) continue; hp = true; port = o.val; }
        if (o.num == 11 && clean) std::replace(o.val.begin(), o.val.end(), '/', 'p');
        if (o.num == 15 && clean) std::replace(o.val.begin(), o.val.end(), '&', 'q');
        if (g.chance(1, 30) && (o.num == 3 || o.num == 11 || o.num == 15)) o.val[g.uni(o.val.size())] = 0;
        r.opts.push_back(o);
    }
    if (g.chance(1, 6)) {                                      // a path or query that comes close to what the converter has room for
        unsigned num = g.chance(1, 2) ? 11 : 15; size_t have = 0; for (auto &o : r.opts) if (o.num == num) have += o.val.size() + 1;
        size_t total = 240 + g.uni(20); while (have + 1 < total) { ROpt o; o.num = num; size_t k = std::min<size_t>(total - have - 1, g.chance(1, 2) ? 255 : 1 + g.below(120)); o.val = g.str(k, g.chance(1, 3) ? "abc%" : "abcdef"); r.opts.push_back(o); have += k + 1; }
    }
    sort_opts(r);
    for (auto &o : r.opts) {
        if (o.num == 3 || o.num == 11 || o.num == 15) { raw = std::max(raw, (size_t)0); if (o.val.find('\0') != std::string::npos) impossible = true; }
        if (o.num == 11) { path += "/" + o.val; if (o.val.find('/') != std::string::npos) impossible = true; }
        if (o.num == 15) { query += (query.empty() ? "" : "&") + o.val; if (o.val.find('&') != std::string::npos) impossible = true; }
        if (o.num == 3 || o.num == 7 || o.num == 11 || o.num == 15) uo.push_back(o);
    }
    coap_msg_t m, m2; coap_msg_create(&m); coap_msg_create(&m2);
    if (to_msg(r, &m) < 0) throw Discard{};
    size_t part = std::max({host.size(), port.size(), path.size() + 1, query.size() + 1});
    auto enc = [](const std::string &v) { return v.size() + 2 * (size_t)std::count(v.begin(), v.end(), '%'); };
    bool surely = std::max({enc(host), enc(port), enc(path) + 1, enc(query) + 1}) < 250, never = part > 1024;
    Exact big(4096, 0x55);
    if (g.chance(1, 6)) {
        heap::fail_at = heap::count + (long)g.below(20);
        int q = cross_uri_coap_to_http(big.p(), 4096, &m);
        bool denied = heap::count > heap::fail_at; heap::fail_at = -1;
        if (denied) { c.label("allocation failed"); if (q >= 0) c.fail("an allocation failed but the conversion succeeded"); }
        if (heap::live) c.fail("%ld heap blocks leaked after a failed conversion", heap::live);
    }
    int ret = cross_uri_coap_to_http(big.p(), 4096, &m);
    std::string d; for (auto &o : uo) d += fmt("%u='%s' ", o.num, cesc(o.val, 40).c_str());
    c.descf("%s-> %d %s", d.c_str(), ret, ret ? "" : cesc(big.p(), 200).c_str());
    if (impossible) { if (ret == 0) c.fail("the options %s cannot be expressed but became '%s'", d.c_str(), cesc(big.p(), 300).c_str()); c.label("inexpressible"); }
    else {
        if (ret && surely) c.fail("converting the options %s returned %d", d.c_str(), ret);
        if (!ret && never) c.fail("converting options of %zu bytes succeeded", part);
        if (ret && ret != -ENOSPC) c.fail("converting the options %s returned %d", d.c_str(), ret);
    }
    if (!ret) {
        std::string full = big.p();
        uri_t u; uri_create(&u);
        if (uri_parse(&u, full.c_str())) c.fail("the URI '%s' of the options %s is not valid", cesc(full, 300).c_str(), d.c_str());
        auto s = [](const char *p) { return p ? std::string(p) : std::string("(none)"); };
        std::string wp = path.empty() ? "/" : path;
        if (s(uri_get_scheme(&u)) != "coaps" || s(uri_get_host(&u)) != (hh ? host : "(none)") || s(uri_get_port(&u)) != (hp ? port : "(none)") || s(uri_get_path(&u)) != wp || s(uri_get_query(&u)) != (query.empty() ? "(none)" : query) || uri_get_fragment(&u) || uri_get_userinfo(&u))
            c.fail("the options %s became '%s'", d.c_str(), cesc(full, 300).c_str());
        uri_destroy(&u);
        // and back again
        if (cross_uri_http_to_coap(&m2, full.c_str())) c.fail("the URI '%s' of the options %s is refused", cesc(full, 300).c_str(), d.c_str());
        RMsg b = from_msg(&m2), w = b; w.opts = uo;
        std::string df = diff(b, w);
        if (!df.empty()) c.fail("the options %s became '%s' and then other options: %s", d.c_str(), cesc(full, 300).c_str(), df.c_str());
        // any space
        for (int i = 0; i < 3; i++) {
            size_t len = g.chance(1, 2) ? g.below(full.size() + 4) : full.size() + g.uni(3);
            Exact e(len, 0x55);
            int q = cross_uri_coap_to_http(e.p(), len, &m);
            if (q != (full.size() < len ? 0 : -ENOSPC)) c.fail("a URI of %zu characters in %zu bytes gives %d", full.size(), len, q);
            if (!q && full != e.p()) c.fail("the URI depends on the space given");
        }
        if (uo.size() > 2) c.nontrivial();
    }
    coap_msg_destroy(&m); coap_msg_destroy(&m2);
    if (heap::live) c.fail("%ld heap blocks leaked", heap::live);
    std::string e = pool::end(); if (!e.empty()) c.fail("%s", e.c_str());
}
PROPERTY("C24", "coap-uri-to-http", "converted, with at least three options", 2, c24uri);
