// C20: HTTP parsing (fed incrementally), C21: HTTP generation, C27: the byte buffers and string helpers beneath them.
#include "common.h"
#include <ctype.h>
#include <algorithm>
#include <unistd.h>
extern "C" {
#include "http_msg.h"
#include "data_buf.h"
#include "util.h"
}
using namespace pbt;
typedef std::vector<std::pair<std::string, std::string>> Hdrs;
struct HMsg { std::string s[3]; Hdrs h; std::string body; bool has_body = false; };

static const char *TOK = "abcXYZ0189!#$%&'*+-.^_`|~";
static bool ws(unsigned char c) { return c == ' ' || (c >= 9 && c <= 13); }
static std::string squeeze(const std::string &s) {         // leading/trailing white space removed, inner runs become one space
    std::string o; bool sp = false;
    for (unsigned char c : s) { if (ws(c)) sp = !o.empty(); else { if (sp) o += ' '; sp = false; o += (char)c; } }
    return o;
}
static std::string gen_text(Gen &g, size_t max) {           // header value text: visible, high and blank characters
    std::string s; size_t n = g.below(max + 1);
    for (size_t i = 0; i < n; i++) { unsigned k = g.uni(20); s += k == 0 ? ' ' : k == 1 ? '\t' : k == 2 ? ':' : k == 3 ? (char)(128 + g.uni(128)) : k == 4 ? ';' : (char)(33 + g.uni(94)); }
    return s;
}
static std::string longer(Gen &g, std::string s, unsigned rare) {       // now and then far longer than usual
    if (!s.empty() && g.chance(1, rare)) { size_t want = g.chance(1, 2) ? 120 + g.uni(400) : g.below(5000); std::string u = s; while (s.size() < want) s += u; }
    return s;
}
static std::string body_bytes(Gen &g, size_t n) {
    std::string b = g.blob(n);
    unsigned k = g.uni(4);
    if (k == 0) for (auto &c : b) c = "\r\n0a;:"[(unsigned char)c % 6];
    if (k == 1) for (auto &c : b) c = (char)('a' + (unsigned char)c % 26);
    if (k == 2 && n) b[g.uni(n)] = 0;
    return b;
}
static std::string caseflip(Gen &g, std::string s) { if (g.chance(1, 3)) for (auto &c : s) if (g.chance(1, 2)) c = islower(c) ? toupper(c) : tolower(c); return s; }

struct Wire { std::string text; HMsg m; size_t head; bool chunked; unsigned chunks; };
// a well-formed message and what it means
static Wire gen_wire(Gen &g) {
    Wire w; w.chunked = false; w.chunks = 0;
    HMsg &m = w.m;
    m.s[0] = longer(g, g.str(1 + g.below(8), TOK), 100); m.s[1] = longer(g, g.str(1 + g.below(30), "abc/:@?&=%[].123"), 30); m.s[2] = g.chance(1, 6) ? "Not Found at all" : longer(g, g.str(1 + g.below(10), TOK), 100);
    std::string &t = w.text;
    t = m.s[0] + " " + m.s[1] + " " + m.s[2] + "\r\n";
    unsigned framing = g.uni(3), n = g.below(4); if (g.chance(1, 60)) n = g.below(80);
    unsigned at = g.chance(1, 2) ? n : g.below(4);
    size_t blen = framing == 0 ? 0 : g.chance(1, 12) ? g.below(9000) : g.chance(1, 100) ? 65000 + g.below(3000) : g.below(200);
    std::string body = body_bytes(g, blen);
    auto put = [&](const std::string &name, const std::string &value, bool frame) {
        std::string line = name + (g.chance(1, 8) ? " " : "") + ":" + (g.chance(1, 4) ? "" : g.chance(1, 4) ? "  \t" : " ") + value + (g.chance(1, 8) ? " " : "");
        if (!frame && g.chance(1, 6)) {                       // obsolete line folding inside the value
            size_t c = line.find(':') + 1, p = c + g.uni(line.size() - c + 1);
            line = line.substr(0, p) + "\r\n" + (g.chance(1, 2) ? " " : "\t") + line.substr(p);
        }
        t += line + "\r\n";
        size_t c = line.find(':');
        m.h.push_back({squeeze(line.substr(0, c)), squeeze(line.substr(c + 1))});
    };
    for (unsigned i = 0; i <= n; i++) {
        if (i == std::min(at, n) && framing) {
            if (framing == 1) put(caseflip(g, "Content-Length"), fmt("%zu", blen), true);
            else put(caseflip(g, "Transfer-Encoding"), caseflip(g, "chunked"), true);
        }
        if (g.chance(1, 12)) switch (g.uni(framing == 2 ? 5 : 4)) {                                   // headers that look like framing but are not
            case 0: put(g.oneof<std::string>({"X-Transfer-Encoding", "TE", "Transfer-Encodings", "Transfer", "Content-Type", "Trailer"}), caseflip(g, "chunked"), true); break;
            case 1: if (framing != 2) put(caseflip(g, "Transfer-Encoding"), g.oneof<std::string>({"identity", "chunk", "chunkedx", "x"}), true); break;
            case 2: put(g.oneof<std::string>({"X-Content-Length", "Content-Lengt", "Content-Lengths", "Length"}), fmt("%u", (unsigned)g.below(50)), true); break;
            case 3: put("Host", "a", true); break;
            default: put(caseflip(g, "Content-Length"), fmt("%u", (unsigned)g.below(50)), true); break;    // chunked transfer takes precedence
        }
        if (i < n) put(g.chance(1, 6) ? std::string("content-type") : longer(g, g.str(1 + g.below(12), TOK), 100), longer(g, gen_text(g, n > 20 ? 6 : 30), 100), false);
    }
    t += "\r\n";
    w.head = t.size();
    if (framing == 1) { t += body; m.body = body; m.has_body = blen > 0; }
    if (framing == 2) {
        w.chunked = true;
        size_t pos = 0;
        while (pos < blen) {
            size_t k = g.chance(1, 4) ? blen - pos : 1 + g.below(blen - pos); if (blen > 60000 && k < 2000) k = std::min<size_t>(2000, blen - pos);
            std::string sz = fmt(g.chance(1, 2) ? "%zx" : "%zX", k);
            if (g.chance(1, 8)) sz = std::string(1 + g.uni(3), '0') + sz;
            t += sz + (g.chance(1, 8) ? g.oneof<std::string>({" ", "\t", "  ", " \t"}) : "") + (g.chance(1, 6) ? ";" + longer(g, g.str(1 + g.below(10), "abc=;12"), 20) : "") + "\r\n" + body.substr(pos, k) + "\r\n";
            pos += k; w.chunks++;
        }
        t += std::string(g.chance(1, 8) ? "000" : "0") + (g.chance(1, 8) ? ";x=1" : "") + "\r\n";
        unsigned k = g.chance(1, 3) ? 1 + g.below(3) : 0;
        while (k--) put(longer(g, g.str(1 + g.below(12), TOK), 60), longer(g, gen_text(g, 30), 60), false);
        t += "\r\n";
        m.body = body; m.has_body = true;
    }
    return w;
}
static std::string show(http_msg_t *m) {
    std::string o;
    for (int i = 0; i < 3; i++) o += fmt("[%s] ", http_msg_get_start(m, i) ? cesc(http_msg_get_start(m, i), 60).c_str() : "(null)");
    for (auto h = http_msg_get_first_header(m); h; h = http_msg_header_get_next(h)) o += fmt("<%s|%s> ", cesc(h->name, 60).c_str(), cesc(h->value, 60).c_str());
    return o + fmt("body %zu", http_msg_get_body_len(m));
}
static void compare(Ctx &c, http_msg_t *m, const HMsg &e, const char *what) {
    for (int i = 0; i < 3; i++) if (!http_msg_get_start(m, i) || e.s[i] != http_msg_get_start(m, i)) c.fail("%s: start field %d is '%s', expected '%s'", what, i, http_msg_get_start(m, i) ? cesc(http_msg_get_start(m, i), 100).c_str() : "(null)", cesc(e.s[i], 100).c_str());
    auto h = http_msg_get_first_header(m);
    for (auto &x : e.h) {
        if (!h) c.fail("%s: header '%s' is missing", what, cesc(x.first, 60).c_str());
        if (x.first != http_msg_header_get_name(h) || x.second != http_msg_header_get_value(h)) c.fail("%s: header is '%s'='%s', expected '%s'='%s'", what, cesc(h->name, 60).c_str(), cesc(h->value, 60).c_str(), cesc(x.first, 60).c_str(), cesc(x.second, 60).c_str());
        h = http_msg_header_get_next(h);
    }
    if (h) c.fail("%s: unexpected header '%s'", what, cesc(h->name, 60).c_str());
    if (http_msg_get_body_len(m) != e.body.size()) c.fail("%s: body length %zu, expected %zu", what, http_msg_get_body_len(m), e.body.size());
    if (!e.body.empty() && memcmp(http_msg_get_body(m), e.body.data(), e.body.size())) c.fail("%s: body differs", what);
}
static ssize_t parse(http_msg_t *m, const std::string &s) { Exact b(s); return http_msg_parse(m, b.p(), s.size()); }

static void c20(Gen &g, Ctx &c) {
    Wire w = gen_wire(g);
    std::string extra = g.chance(1, 2) ? "" : g.chance(1, 2) ? gen_wire(g).text : g.bytes(g.below(20));
    c.descf("%s +%zu", cesc(w.text, 300).c_str(), extra.size());
    http_msg_t m;
    heap::reset();
    http_msg_create(&m);
    // delivered in pieces: incomplete until the last byte, then complete
    std::vector<size_t> cuts;
    unsigned n = 1 + g.below(6);
    for (unsigned i = 0; i < n; i++) cuts.push_back(g.chance(1, 3) ? w.text.size() - 1 - g.uni(std::min<size_t>(8, w.text.size())) : g.uni(w.text.size()));
    cuts.push_back(w.text.size() - 1);
    std::sort(cuts.begin(), cuts.end());
    for (size_t k : cuts) {
        ssize_t r = parse(&m, w.text.substr(0, k));
        if (r != -EAGAIN) c.fail("the first %zu of %zu bytes give %zd (%s), expected incomplete", k, w.text.size(), r, r > 0 ? show(&m).c_str() : http_msg_strerror((int)r));
    }
    ssize_t r = parse(&m, w.text + extra);
    if (r != (ssize_t)w.text.size()) c.fail("parse returned %zd (%s), expected %zu", r, r < 0 ? http_msg_strerror((int)r) : show(&m).c_str(), w.text.size());
    compare(c, &m, w.m, "parsed message");
    if (g.chance(1, 2)) { http_msg_reset(&m); if (http_msg_get_first_header(&m) || http_msg_get_start(&m, 0) || http_msg_get_body(&m) || http_msg_get_body_len(&m)) c.fail("reset left something behind"); }
    http_msg_destroy(&m);
    if (heap::live) c.fail("%ld heap blocks leaked", heap::live);
    if (w.chunked && w.chunks > 1) c.label("chunked");
    if (w.chunked ? w.chunks > 0 : !w.m.body.empty()) c.nontrivial();
}
PROPERTY("C20", "http-wellformed", "the message has a body", 3, c20);

// malformed messages are refused rather than misread
static void c20bad(Gen &g, Ctx &c) {
    std::string body = body_bytes(g, 1 + g.below(40));
    std::string start = "PUT coap://h/p HTTP/1.1\r\n", t; const char *what;
    std::string hdr = g.chance(1, 2) ? "" : "A: b\r\n";
    switch (g.uni(6)) {
    case 0: what = "start line without three fields"; t = g.oneof<const char *>({"GET", "GET /", "", " / HTTP", "GET  HTTP", "  ", "GET / "}); t += "\r\n" + hdr + "\r\n"; break;
    case 1: what = "header line without a colon"; t = start + hdr + g.str(1 + g.below(10), TOK) + "\r\n" + "\r\n"; break;
    case 2: { what = "chunk size that is not a hexadecimal number";
        std::string z = g.oneof<std::string>({"x", "-1", "-4", "g1", "+2", ";a", "", " ", "0x2", "zz;1", "1g", "2 2", "-0", "\t1", "ffffffffffffffff1", "10000000000000001"});
        t = start + hdr + "Transfer-Encoding: chunked\r\n\r\n" + (g.chance(1, 2) ? "1\r\na\r\n" : "") + z + "\r\n" + body + "\r\n0\r\n\r\n"; break; }
    case 3: { what = "chunk data not followed by CRLF"; size_t k = 1 + g.uni(body.size()); if (k == body.size()) body += "x!"; if (body.compare(k, 2, "\r\n") == 0) body[k] = 'x';
        t = start + hdr + "Transfer-Encoding: chunked\r\n\r\n" + fmt("%zx", k) + "\r\n" + body + "\r\n0\r\n\r\n"; break; }
    case 4: what = "content length that is not a number"; t = start + hdr + "Content-Length: " + g.oneof<const char *>({"-1", "x", "1x", "+1", "0x10", "1 1", "-0", "1,2", "--5", "1a", "a", "2F", "0e", "9b9", "99999999999999999999999", "18446744073709551617", "18446744073709551616", "36893488147419103234"}) + "\r\n\r\n" + body + body; break;
    default: what = "trailer line without a colon"; t = start + hdr + "Transfer-Encoding: chunked\r\n\r\n1\r\na\r\n0\r\n" + g.str(1 + g.below(10), TOK) + "\r\n\r\n"; break;
    }
    c.descf("%s: %s", what, cesc(t, 300).c_str());
    c.label(what);
    http_msg_t m; heap::reset(); http_msg_create(&m);
    ssize_t r = parse(&m, t);
    if (r != -EBADMSG) c.fail("%s gives %zd (%s), expected a format error", what, r, r > 0 ? show(&m).c_str() : http_msg_strerror((int)r));
    http_msg_destroy(&m);
    if (heap::live) c.fail("%ld heap blocks leaked", heap::live);
    c.nontrivial();
}
PROPERTY("C20", "http-malformed", "always (each case is a malformed message)", 1, c20bad);

// anything at all
static void c20raw(Gen &g, Ctx &c) {
    std::string t;
    if (g.chance(3, 4)) {
        t = gen_wire(g).text;
        unsigned k = 1 + g.below(6);
        while (k--) {
            if (t.empty()) break;
            size_t i = g.uni(t.size());
            switch (g.uni(6)) {
            case 0: t[i] = (char)g.byte(); break;
            case 1: t.erase(i, 1 + g.below(4)); break;
            case 2: t.insert(i, g.oneof<const char *>({"\r\n", "\r", "\n", ":", " ", "0", "-", "f", ";", "ffffffff", "7fffffff", "80000000", "\r\n\r\n", "Content-Length: 5\r\n", "Transfer-Encoding: chunked\r\n", "\r\n ", "fffffff0", "x"})); break;
            case 3: t.insert(i, 1, '\0'); break;
            case 4: t.resize(i); break;
            case 5: { size_t j = g.uni(t.size()), l = std::min<size_t>(1 + g.below(20), t.size() - j); t.insert(i, t.substr(j, l)); break; }
            }
        }
    } else { size_t n = g.below(60); for (size_t i = 0; i < n; i++) t += g.chance(1, 3) ? (char)g.byte() : "\r\n :;0aG/"[g.uni(9)]; }
    c.descf("%s", cesc(t, 300).c_str());
    http_msg_t m, m2; heap::reset();
    http_msg_create(&m); http_msg_create(&m2);
    bool fail = g.chance(1, 8);
    if (fail) { heap::fail_at = (long)g.below(12); heap::fail_rest = g.chance(1, 2); }
    ssize_t r = parse(&m, t);
    bool denied = fail && heap::count > heap::fail_at;
    heap::fail_at = -1;
    if (denied && r != -ENOMEM) c.fail("an allocation failed but parse returned %zd", r);
    if (!denied && !(r == -EAGAIN || r == -EBADMSG || (r > 0 && r <= (ssize_t)t.size()))) c.fail("parse of %zu bytes returned %zd", t.size(), r);
    if (r > 0) {
        HMsg e;
        for (int i = 0; i < 3; i++) { if (!http_msg_get_start(&m, i)) c.fail("accepted without start field %d", i); e.s[i] = http_msg_get_start(&m, i); }
        for (auto h = http_msg_get_first_header(&m); h; h = http_msg_header_get_next(h)) e.h.push_back({h->name, h->value});
        if (http_msg_get_body_len(&m)) e.body.assign(http_msg_get_body(&m), http_msg_get_body_len(&m));
        if ((ssize_t)e.body.size() >= r) c.fail("the body (%zu bytes) is as long as the whole message (%zd bytes)", e.body.size(), r);
        ssize_t r2 = parse(&m2, t.substr(0, r));
        if (r2 != r) c.fail("parse used %zd bytes but those bytes alone give %zd", r, r2);
        compare(c, &m2, e, "the same bytes alone");
        size_t k = g.chance(1, 2) ? r - 1 : g.uni(r);
        r2 = parse(&m2, t.substr(0, k));
        if (r2 > 0) c.fail("a message of %zd bytes was accepted when only %zu had arrived", r, k);
        c.nontrivial();
    } else if (t.size() > 20) c.nontrivial();
    http_msg_destroy(&m); http_msg_destroy(&m2);
    if (heap::live) c.fail("%ld heap blocks leaked", heap::live);
}
PROPERTY("C20", "http-arbitrary", "accepted, or rejected and longer than 20 bytes", 2, c20raw);

// ------------------------------------------------------------ C21
static void c21(Gen &g, Ctx &c) {
    HMsg e;
    for (auto &s : e.s) s = longer(g, g.str(1 + g.below(14), TOK), 60);
    if (g.chance(1, 4)) e.s[2] = "Request Entity Too Large";
    unsigned n = g.chance(1, 40) ? g.below(70) : g.below(5);
    for (unsigned i = 0; i < n; i++) e.h.push_back({longer(g, g.str(1 + g.below(12), TOK), 100), squeeze(longer(g, gen_text(g, n > 20 ? 8 : 40), 100))});
    size_t blen = g.chance(1, 3) ? 0 : g.below(g.chance(1, 10) ? 5000 : g.chance(1, 100) ? 70000 : 120);
    e.body = body_bytes(g, blen); e.has_body = blen > 0 || g.chance(1, 4);
    if (e.has_body) e.h.push_back({"Content-Length", fmt("%zu", blen)});
    std::string ref = e.s[0] + " " + e.s[1] + " " + e.s[2] + "\r\n";
    for (auto &h : e.h) ref += h.first + ": " + h.second + "\r\n";
    ref += "\r\n" + (e.has_body ? e.body : "");
    heap::reset();
    http_msg_t m; http_msg_create(&m);
    unsigned reps = g.chance(1, 5) ? 2 : 1;                    // the last value set is the one that counts
    if (reps == 2 && http_msg_set_start(&m, "OLD", "0", "old") < 0) c.fail("set_start failed");
    if (http_msg_set_start(&m, e.s[0].c_str(), e.s[1].c_str(), e.s[2].c_str()) < 0) c.fail("set_start failed");
    for (auto &h : e.h) if (http_msg_set_header(&m, h.first.c_str(), h.second.c_str()) < 0) c.fail("set_header failed");
    if (e.has_body) {
        Exact b(e.body);
        if (reps == 2 && http_msg_set_body(&m, "old", 3) < 0) c.fail("set_body failed");
        if (http_msg_set_body(&m, b.p(), e.body.size()) < 0) c.fail("set_body failed");
    }
    c.descf("%s", cesc(ref, 300).c_str());
    compare(c, &m, e, "message as built");
    unsigned tries = 1 + g.below(4);
    for (unsigned i = 0; i < tries; i++) {
        size_t len = g.chance(1, 3) ? g.below(ref.size() + 20) : g.chance(1, 2) ? ref.size() + g.uni(4) - std::min<size_t>(2, ref.size()) : ref.size() - std::min(ref.size(), e.body.size()) + g.uni(3);
        Exact b(len, 0x55);
        size_t r = http_msg_generate(&m, b.p(), len);
        if (len > 0) {
            if (r != ref.size()) c.fail("generate into %zu bytes returned %zu, expected %zu", len, r, ref.size());
            std::string want = ref.substr(0, len - 1);
            want.resize(len, 0);
            if (ref.size() < len ? memcmp(b.p(), ref.data(), ref.size()) || b.p()[ref.size()] : b.str(len) != want) c.fail("generate into %zu bytes wrote %s, expected %s", len, cesc(b.str(std::min(len, ref.size() + 1)), 400).c_str(), cesc(want, 400).c_str());
            if (ref.size() < len) c.label("fits"); else c.label("truncated");
        }
    }
    // round trip
    Exact b(ref.size() + 1, 0x55);
    if (http_msg_generate(&m, b.p(), b.n) != ref.size()) c.fail("generate returned another length");
    http_msg_t m2; http_msg_create(&m2);
    ssize_t r = parse(&m2, b.str(ref.size()));
    if (r != (ssize_t)ref.size()) c.fail("parsing the generated message returned %zd, expected %zu", r, ref.size());
    compare(c, &m2, e, "generated and parsed");
    http_msg_destroy(&m2); http_msg_destroy(&m);
    if (heap::live) c.fail("%ld heap blocks leaked", heap::live);
    if (n && blen) c.nontrivial();
}
PROPERTY("C21", "http-generate", "the message has headers and a body", 2, c21);

static std::string cutz(const std::string &ref, size_t len) { std::string w = ref.substr(0, len ? len - 1 : 0); w += '\0'; return w; }
static void c21chunk(Gen &g, Ctx &c) {
    // a body of generated chunks, assembled from the pieces the API writes, parses back to the data
    unsigned n = g.below(5);
    std::string t = "A b c\r\nTransfer-Encoding: chunked\r\n\r\n", all;
    heap::reset();
    auto call = [&](const char *what, const std::string &ref, std::function<size_t(char *, size_t)> f) {
        size_t lens[3] = {ref.size() + 1, g.below(ref.size() + 3), ref.size() + g.uni(3)};
        for (size_t len : lens) {
            Exact b(len, 0x55);
            size_t r = f(b.p(), len);
            if (r != ref.size()) c.fail("%s into %zu bytes returned %zu, expected %zu", what, len, r, ref.size());
            std::string w = cutz(ref, len);
            if (len && memcmp(b.p(), w.data(), std::min(w.size(), len))) c.fail("%s into %zu bytes wrote %s, expected %s", what, len, cesc(b.str(len), 200).c_str(), cesc(w, 200).c_str());
        }
        t += ref;
    };
    for (unsigned i = 0; i < n; i++) {
        std::string d = body_bytes(g, 1 + g.below(g.chance(1, 8) ? 5000 : g.chance(1, 60) ? 70000 : 40));
        all += d;
        Exact in(d);
        call("generate_chunk", fmt("%zx\r\n", d.size()) + d + "\r\n", [&](char *b, size_t l) { return http_msg_generate_chunk(b, l, in.p(), d.size()); });
    }
    call("generate_last_chunk", "0\r\n", [](char *b, size_t l) { return http_msg_generate_last_chunk(b, l); });
    Hdrs tr; tr.push_back({"Transfer-Encoding", "chunked"});
    unsigned k = g.below(3);
    while (k--) {
        tr.push_back({longer(g, g.str(1 + g.below(9), TOK), 60), squeeze(longer(g, gen_text(g, 20), 60))});
        auto &x = tr.back();
        call("generate_trailer", x.first + ": " + x.second + "\r\n", [&](char *b, size_t l) { return http_msg_generate_trailer(b, l, x.first.c_str(), x.second.c_str()); });
    }
    call("generate_blank_line", "\r\n", [](char *b, size_t l) { return http_msg_generate_blank_line(b, l); });
    HMsg e; e.s[0] = "A"; e.s[1] = "b"; e.s[2] = "c"; e.h = tr; e.body = all;
    http_msg_t m; http_msg_create(&m);
    ssize_t r = parse(&m, t);
    if (r != (ssize_t)t.size()) c.fail("parsing the generated chunks returned %zd, expected %zu", r, t.size());
    compare(c, &m, e, "generated chunks");
    http_msg_destroy(&m);
    if (heap::live) c.fail("%ld heap blocks leaked", heap::live);
    c.descf("%s", cesc(t, 300).c_str());
    if (n > 1) c.nontrivial();
}
PROPERTY("C21", "http-chunks", "at least two chunks", 1, c21chunk);

static void c21mem(Gen &g, Ctx &c) {
    heap::reset();
    http_msg_t m; http_msg_create(&m);
    heap::fail_at = (long)g.below(14); heap::fail_rest = g.chance(1, 2);
    unsigned n = 1 + g.below(8); bool hit = false;
    unsigned hdrs = 0; bool start = false;
    for (unsigned i = 0; i < n; i++) {
        long before = heap::count; int r = 0; unsigned k = g.uni(4);
        auto lost = [&] { return heap::fail_at >= 0 && (heap::fail_rest ? heap::count > heap::fail_at && heap::count > before : before <= heap::fail_at && heap::fail_at < heap::count); };
        if (k == 0) { r = http_msg_set_start(&m, "GET", "/", "H"); if (r == 0) start = true; else start = false; }
        else if (k == 1) { r = http_msg_set_header(&m, "n", "v"); if (r == 0) hdrs++; }
        else if (k == 2) r = http_msg_set_body(&m, "body", 4);
        else { http_msg_reset(&m); hdrs = 0; start = false; }
        if (k < 3 && lost() && r == 0) c.fail("an allocation failed but operation %u reported success", k);
        if (k < 3 && !lost() && r != 0) c.fail("operation %u failed with %d although no allocation failed", k, r);
        if (lost()) hit = true;
        unsigned seen = 0;
        for (auto h = http_msg_get_first_header(&m); h; h = http_msg_header_get_next(h)) { seen++; if (strcmp(h->name, "n") || strcmp(h->value, "v")) c.fail("damaged header"); }
        if (seen != hdrs) c.fail("%u headers instead of %u", seen, hdrs);
        if (start && (!http_msg_get_start(&m, 0) || strcmp(http_msg_get_start(&m, 0), "GET"))) c.fail("start line lost");
    }
    heap::fail_at = -1;
    http_msg_destroy(&m);
    if (heap::live) c.fail("%ld heap blocks leaked", heap::live);
    c.descf("fail_at ops %u", n);
    if (hit) c.nontrivial();
}
PROPERTY("C21", "http-alloc-failure", "an allocation failed during an operation", 1, c21mem);

// ------------------------------------------------------------ C27
static void c27buf(Gen &g, Ctx &c) {
    heap::reset();
    data_buf_t b; memset(&b, 0x77, sizeof b);
    size_t size = g.below(70), max = g.below(600);
    if (g.chance(1, 20)) { size = g.below(5000); max = g.below(70000); }
    if (g.chance(1, 10)) heap::fail_at = 0;
    int r = data_buf_create(&b, size, max);
    int want = size > max ? -EINVAL : heap::fail_at == 0 ? -ENOMEM : 0;
    heap::fail_at = -1;
    if (r != want) c.fail("create(%zu, %zu) returned %d, expected %d", size, max, r, want);
    c.descf("create(%zu,%zu)=%d ", size, max, r);
    if (r) { if (heap::live) c.fail("a failed create leaked"); return; }
    std::string model; bool grown = false, eaten = false;
    unsigned n = 1 + g.below(40); uint8_t next = 1;
    for (unsigned i = 0; i < n; i++) {
        switch (g.weighted({4, 3, 2})) {
        case 0: {
            size_t space = data_buf_get_space(&b), k = g.below(space + 1), over = g.chance(1, 6) ? g.below(5) : 0;
            for (size_t j = 0; j < k; j++) data_buf_get_next(&b)[j] = (char)next, model += (char)next, next = next % 255 + 1;
            if (over) for (size_t j = k; j < space; j++) data_buf_get_next(&b)[j] = (char)next, model += (char)next, next = next % 255 + 1, k++;
            size_t got = data_buf_add(&b, k + over);
            c.descf("add(%zu)=%zu ", k + over, got);
            if (got != k) c.fail("add(%zu) with space for %zu returned %zu", k + over, space, got);
            break; }
        case 1: {
            size_t k = g.below(model.size() + 3), e = std::min(k, model.size());
            size_t got = data_buf_consume(&b, k);
            c.descf("consume(%zu)=%zu ", k, got);
            if (got != e) c.fail("consume(%zu) of %zu returned %zu", k, model.size(), got);
            model.erase(0, e); if (e) eaten = true;
            break; }
        default: {
            bool deny = g.chance(1, 8);
            if (deny) { heap::count = 0; heap::fail_at = 0; }
            size_t old = data_buf_get_size(&b);
            int e = 2 * size > max ? -EINVAL : deny ? -ENOMEM : 0;
            int q = data_buf_expand(&b);
            heap::fail_at = -1;
            c.descf("expand=%d ", q);
            if (q != e) c.fail("expand of a buffer of %zu (maximum %zu) returned %d, expected %d", old, max, q, e);
            if (q == 0) { size *= 2; grown = true; }
            break; }
        }
        if (data_buf_get_size(&b) != size || data_buf_get_max_size(&b) != max || data_buf_get_count(&b) != model.size() || data_buf_get_space(&b) != size - model.size())
            c.fail("size %zu count %zu, expected %zu and %zu", data_buf_get_size(&b), data_buf_get_count(&b), size, model.size());
        if (memcmp(data_buf_get_data(&b), model.data(), model.size())) c.fail("contents differ after %u operations", i + 1);
    }
    data_buf_destroy(&b);
    if (heap::live) c.fail("%ld heap blocks leaked", heap::live);
    if (grown && eaten) c.nontrivial();
}
PROPERTY("C27", "data-buffer", "the buffer was expanded and consumed from", 2, c27buf);

static std::string ztext(Gen &g, size_t max) { std::string s; size_t n = g.below(max); for (size_t i = 0; i < n; i++) s += (char)(1 + g.uni(255)); return longer(g, s, 20); }
static void c27str(Gen &g, Ctx &c) {
    std::string src = ztext(g, 40);
    size_t len = g.below(60); if (src.size() > 60) len = g.chance(1, 2) ? src.size() + g.uni(80) - std::min<size_t>(3, src.size()) : g.below(src.size() * 2);
    Exact s(src + '\0');
    {
        Exact d(len, 0x55);
        size_t r = util_strncpy(d.p(), s.p(), len);
        if (len) {
            if (r != src.size()) c.fail("util_strncpy returned %zu for a string of %zu", r, src.size());
            std::string w = cutz(src, len);
            if (memcmp(d.p(), w.data(), w.size())) c.fail("util_strncpy into %zu bytes wrote the wrong text", len);
        }
    }
    std::string pre = ztext(g, 40);
    Exact d(len, 0x55);
    if (len) {
        std::string w0 = cutz(pre, len); memcpy(d.p(), w0.data(), w0.size());
        size_t r = util_strncat(d.p(), s.p(), pre.size(), len);
        if (r != pre.size() + src.size()) c.fail("util_strncat returned %zu instead of %zu", r, pre.size() + src.size());
        std::string w = cutz(pre + src, len);
        if (memcmp(d.p(), w.data(), w.size())) c.fail("util_strncat of %zu and %zu characters in %zu bytes gives the wrong text", pre.size(), src.size(), len);
    } else util_strncat(d.p(), s.p(), 0, 0);
    c.descf("%zu+%zu in %zu", pre.size(), src.size(), len);
    if (pre.size() + src.size() >= len && len) c.nontrivial();
}
PROPERTY("C27", "strings", "the text does not fit", 1, c27str);

namespace file { long open, calls, fail_at = -1; static bool deny() { return calls++ == fail_at; } }
extern "C" {
FILE *vf_fopen(const char *p, const char *m) { if (file::deny()) { errno = EMFILE; return nullptr; } FILE *f = fopen(p, m); if (f) file::open++; return f; }
int vf_fclose(FILE *f) { file::open--; return fclose(f); }
int vf_fseek(FILE *f, long o, int w) { if (file::deny()) { errno = ESPIPE; return -1; } return fseek(f, o, w); }
long vf_ftell(FILE *f) { if (file::deny()) { errno = ESPIPE; return -1; } return ftell(f); }
size_t vf_fread(void *p, size_t a, size_t b, FILE *f) { if (file::deny()) { size_t n = b / 2; return n ? fread(p, a, n, f) : 0; } return fread(p, a, b, f); }
}
static void c27file(Gen &g, Ctx &c) {
    file::open = file::calls = 0; file::fail_at = -1;
    std::string path = std::string(scratch_dir) + fmt("/f%u.%ld.txt", worker_index, (long)getpid()), data = g.blob(g.below(g.chance(1, 6) ? 20000 : g.chance(1, 30) ? 140000 : 100));
    FILE *f = fopen(path.c_str(), "w"); if (!f) throw Discard{};
    size_t put = fwrite(data.data(), 1, data.size(), f); if (fclose(f) || put != data.size()) { unlink(path.c_str()); throw Discard{}; }
    heap::reset();
    char *buf = (char *)1;
    long r;
    if (g.chance(1, 6)) {
        r = util_load_txt_file((path + ".none").c_str(), &buf);
        if (r != UTIL_FILE_ERROR || buf) c.fail("loading a missing file returned %ld", r);
    } else if (g.chance(1, 6)) {
        r = util_load_txt_file(scratch_dir, &buf);
        if (r >= 0 || buf) c.fail("loading a directory returned %ld", r);
        c.label("directory");
    } else if (g.chance(1, 4)) {
        file::fail_at = (long)g.uni(6); r = util_load_txt_file(path.c_str(), &buf);
        bool denied = file::calls > file::fail_at; file::fail_at = -1;
        if (denied && !data.empty() ? r != UTIL_FILE_ERROR || buf : r >= 0 && r != (long)data.size()) c.fail("loading a file that cannot be read returned %ld", r);
        if (r >= 0) { extern void release(void *); if (memcmp(buf, data.data(), data.size()) || buf[data.size()]) c.fail("the loaded text differs from the file"); release(buf); }
        c.label("read error");
    } else if (g.chance(1, 6)) {
        heap::fail_at = 0; r = util_load_txt_file(path.c_str(), &buf); heap::fail_at = -1;
        if (r != UTIL_NOMEM_ERROR || buf) c.fail("loading without memory returned %ld", r);
    } else {
        r = util_load_txt_file(path.c_str(), &buf);
        if (r != (long)data.size() || !buf) c.fail("loading a file of %zu bytes returned %ld", data.size(), r);
        if (memcmp(buf, data.data(), data.size()) || buf[data.size()]) c.fail("the loaded text differs from the file");
        extern void release(void *); release(buf);
        c.nontrivial();
    }
    if (heap::live) c.fail("%ld heap blocks leaked", heap::live);
    if (file::open) c.fail("%ld files left open", file::open);
    unlink(path.c_str());
}
extern "C" void vf_free(void *);
void release(void *p) { vf_free(p); }
PROPERTY("C27", "load-file", "a file was loaded", 1, c27file);
