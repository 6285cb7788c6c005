// C25: a connection of the HTTP/CoAP proxy. The TLS connection to the HTTP client and the CoAP client are simulated;
// everything between them (receiving, framing, conversion, choice of the server, replying, cleaning up) is the real code.
#include "common.h"
#include <map>
#include <ctype.h>
#include <algorithm>
#include <strings.h>
#include <sys/select.h>
#include <poll.h>
extern "C" {
#include "connection.h"
#include "http_msg.h"
#include "uri.h"
#include "cross.h"
#include "coap_log.h"
void *vf_calloc(size_t, size_t);
void vf_free(void *);
}
using namespace pbt;
static const pool::Cfg PROXY = {{128, 128, 32}, {256, 1024, 8192}};
struct St { unsigned cls, det, code; };
static const St STATUS[] = {{2, 1, 200}, {2, 2, 200}, {2, 3, 304}, {2, 4, 200}, {2, 5, 200}, {4, 0, 400}, {4, 1, 401}, {4, 2, 400}, {4, 3, 403}, {4, 4, 404}, {4, 5, 405}, {4, 6, 406}, {4, 12, 412}, {4, 13, 413}, {4, 15, 415},
    {5, 0, 500}, {5, 1, 501}, {5, 2, 502}, {5, 3, 503}, {5, 4, 504}, {5, 5, 501}};
struct Resp { unsigned cls = 2, det = 5, code = 200; std::string etag, maxage, payload; };
struct Req {
    std::string wire; bool well = true;         // a well-formed request within the limits
    unsigned method = 0; std::string host, port; RMsg coap; std::string body; // what has to reach the server
    unsigned early = 0, alt = 0;                     // status given without asking a server
    int conn_err = 0;                           // connecting to the server fails
    int err = 0; unsigned err_step = 0;         // the exchange fails (in its first or second step)
    bool block2 = false, too_large = false;     // the first answer is a block / 4.13
    Resp resp, first; std::string rbody; bool in_body = false;     // in_body: the answer's body comes from the blockwise transfer
    // history
    unsigned plain = 0, blockwise = 0, forwarded = 0;
};
struct Rec { std::string data; size_t after; };
static struct Sim {
    Ctx *c; std::vector<Req> q; std::vector<Rec> recs; size_t ri, off; bool loaded; int end; size_t fail_write; int write_ret; bool faulty;
    std::string out; size_t parsed; struct Got { unsigned code; std::string head, body; }; std::vector<Got> got; size_t writes; bool dead;
    bool active; std::string ahost, aport; long creates, destroys; bool closed; unsigned idle;
    bool sent(size_t i) const { return i < q.size(); }
} S;
static Req &cur(const char *what) {
    size_t i = S.got.size();
    if (S.dead) S.c->fail("%s after the HTTP connection had failed", what);
    if (i >= S.q.size()) S.c->fail("%s though all %zu requests were answered", what, S.q.size());
    return S.q[i];
}
static bool avail() { return S.ri < S.recs.size() && S.recs[S.ri].after <= S.got.size(); }
// the client's reading of what it receives
static void take() {
    while (S.parsed < S.out.size()) {
        size_t e = S.out.find("\r\n\r\n", S.parsed);
        if (e == std::string::npos) return;
        std::string head = S.out.substr(S.parsed, e + 4 - S.parsed);
        unsigned code = 0; int k = 0;
        if (sscanf(head.c_str(), "HTTP/1.1 %3u %n", &code, &k) < 1 || k < 13) S.c->fail("not a HTTP response: '%s'", cesc(head, 200).c_str());
        static const std::map<unsigned, std::string> reason = {{200, "OK"}, {304, "Not Modified"}, {400, "Bad Request"}, {401, "Unauthorized"}, {403, "Forbidden"}, {404, "Not Found"}, {405, "Method Not Allowed"}, {406, "Not Acceptable"}, {500, "Internal Server Error"}, {501, "Not Implemented"}, {502, "Bad Gateway"}, {503, "Service Unavailable"}, {504, "Gateway Timeout"}};
        std::string text = head.substr(k, head.find("\r\n") - k);
        auto ri = reason.find(code);
        if (ri != reason.end() && code != 504 ? text != ri->second : false) S.c->fail("status %u is explained as '%s'", code, cesc(text, 60).c_str());
        for (auto &x : reason) if (x.first != code && x.second == text) S.c->fail("status %u is explained as '%s'", code, text.c_str());
        size_t len = 0; bool have = false;
        for (size_t p = head.find("\r\n") + 2; p < head.size() - 2;) {
            size_t l = head.find("\r\n", p); std::string line = head.substr(p, l - p); p = l + 2;
            size_t col = line.find(':');
            if (col == std::string::npos || col == 0 || line[0] == ' ') S.c->fail("bad header line '%s'", cesc(line, 100).c_str());
            if (!strcasecmp(line.substr(0, col).c_str(), "content-length")) { if (have) S.c->fail("two Content-Length headers"); have = true; len = strtoul(line.c_str() + col + 1, nullptr, 10); }
            if (!strcasecmp(line.substr(0, col).c_str(), "transfer-encoding")) S.c->fail("a response with a transfer encoding");
        }
        if (code == 304) len = 0;
        else if (!have) S.c->fail("the end of the response with status %u cannot be known (no Content-Length): '%s'", code, cesc(head, 200).c_str());
        if (S.out.size() < e + 4 + len) return;
        S.got.push_back({code, head, S.out.substr(e + 4, len)});
        S.parsed = e + 4 + len;
    }
}
extern "C" {
int vf_select(int, fd_set *, fd_set *, fd_set *, struct timeval *) {
    if (S.dead || ++S.idle > 200) S.c->fail("waiting on a connection that is gone");
    if (avail() || S.end == 0 || S.end == 2) return 1;
    return 0;
}
int vf_poll(struct pollfd *p, nfds_t n, int) { int r = vf_select(0, nullptr, nullptr, nullptr, nullptr); for (nfds_t i = 0; i < n; i++) p[i].revents = r ? p[i].events & POLLIN : 0; return r; }
size_t vf_gnutls_record_check_pending(gnutls_session_t) { return S.loaded ? S.recs[S.ri].data.size() - S.off : 0; }
ssize_t vf_tls_sock_read(tls_sock_t *, void *buf, size_t len) {
    if (S.dead) S.c->fail("reading from a connection that has failed");
    if (len == 0) return SOCK_READ_ERROR;
    if (!S.loaded) {
        if (!avail()) { if (S.end == 0) { S.dead = true; return 0; } S.dead = true; return S.end == 1 ? SOCK_TIMEOUT : SOCK_READ_ERROR; }
        S.loaded = true; S.off = 0;
    }
    S.idle = 0;
    std::string &d = S.recs[S.ri].data;
    size_t n = std::min(len, d.size() - S.off);
    memcpy(buf, d.data() + S.off, n); S.off += n;
    if (S.off == d.size()) { S.loaded = false; S.ri++; }
    return n;
}
ssize_t vf_tls_sock_write_full(tls_sock_t *, void *buf, size_t len) {
    if (S.dead) S.c->fail("writing to a connection that has failed");
    if (S.writes++ == S.fail_write) { S.dead = true; return S.write_ret; }
    S.out.append((char *)buf, len);
    take();
    return len;
}
ssize_t vf_tls_sock_write(tls_sock_t *s, void *buf, size_t len) { return vf_tls_sock_write_full(s, buf, len > 16384 ? 16384 : len); }      // one record
void vf_tls_sock_close(tls_sock_t *) { if (S.closed) S.c->fail("the HTTP connection is closed twice"); S.closed = true; }
void vf_tls_sock_get_addr_string_(char *out, size_t n, sock_in_addr_t) { snprintf(out, n, "addr"); }
const char *vf_sock_strerror(int) { return "error"; }
int vf_thread_block_signals(void) { return 0; }
int vf_coap_client_create(coap_client_t *cl, const char *host, const char *port, const char *key, const char *cert, const char *trust, const char *crl, const char *cn) {
    Req &r = cur("connecting to a CoAP server");
    if (S.active) S.c->fail("a connection to a CoAP server is made while there is one");
    if (!host || !port) S.c->fail("connecting without a host or port");
    if (strcasecmp(host, r.host.c_str()) || r.port != port) S.c->fail("connecting to %s port %s for the request to %s port %s", host, port, r.host.c_str(), r.port.c_str());
    if (!r.well || r.early) S.c->fail("connecting to a CoAP server for a request that has to be refused");
    if (strcmp(key, "ckey") || strcmp(cert, "ccert") || strcmp(trust, "ctrust") || crl) S.c->fail("wrong credentials: %s %s %s", key, cert, trust);
    (void)cn;
    if (r.conn_err) return r.conn_err;
    S.active = true; S.ahost = host; S.aport = port; S.creates++;
    memset(cl, 0, sizeof *cl); memset(cl, 0xa5, 4);
    return 0;
}
void vf_coap_client_destroy(coap_client_t *) { if (!S.active) S.c->fail("a CoAP client is destroyed that does not exist"); S.active = false; S.destroys++; }
static void answer(coap_msg_t *m, const Resp &p, int block_num, int more, unsigned size) {
    coap_msg_reset(m);
    RMsg r; r.type = COAP_MSG_ACK; r.cls = p.cls; r.det = p.det; r.mid = 7; r.token = "tok"; r.payload = p.payload;
    if (!p.etag.empty()) r.opts.push_back({4, p.etag});
    if (!p.maxage.empty()) r.opts.push_back({14, p.maxage});
    if (block_num >= 0) r.opts.push_back({23, ref_block_val(block_num, more, szx_of(size), 3)});
    sort_opts(r);
    long hf = heap::fail_at, pf = pool::fail_at, hc = heap::count, pc = pool::allocs();      // the stand-in itself never runs out of memory
    heap::fail_at = pool::fail_at = -1;
    int ret = to_msg(r, m); if (ret < 0) S.c->fail("harness: to_msg %d", ret);
    if (hf >= 0) heap::fail_at = hf < hc ? hf : hf + heap::count - hc;
    if (pf >= 0) pool::fail_at = pf < pc ? pf : pf + pool::allocs() - pc;
}
static Req &step(coap_client_t *, coap_msg_t *req) {
    Req &r = cur("asking a CoAP server");
    if (!S.active) S.c->fail("a request is sent without a connection to a CoAP server");
    if (strcasecmp(S.ahost.c_str(), r.host.c_str()) || S.aport != r.port) S.c->fail("the request to %s port %s is sent to %s port %s", r.host.c_str(), r.port.c_str(), S.ahost.c_str(), S.aport.c_str());
    if (!r.well || r.early) S.c->fail("a request that has to be refused is sent to a CoAP server");
    RMsg m = from_msg(req), w = r.coap; w.mid = m.mid; w.token = m.token;
    if (r.forwarded && r.too_large) w.payload = "";
    std::string d = diff(m, w);
    if (!d.empty()) S.c->fail("the request sent to the CoAP server differs: %s", d.c_str());
    return r;
}
int vf_coap_client_exchange(coap_client_t *cl, coap_msg_t *req, coap_msg_t *resp) {
    Req &r = step(cl, req);
    if (r.forwarded) S.c->fail("the request is sent twice");
    if (!r.body.empty()) S.c->fail("a request with a body of %zu bytes is sent without it", r.body.size());
    r.forwarded++; r.plain++;
    if (r.err && r.err_step == 0) return r.err;
    if (r.block2) answer(resp, r.first, 0, 1, r.first.payload.size());
    else if (r.too_large) answer(resp, r.first, -1, 0, 0);
    else answer(resp, r.resp, -1, 0, 0);
    return 0;
}
ssize_t vf_coap_client_exchange_blockwise(coap_client_t *cl, coap_msg_t *req, coap_msg_t *resp, unsigned b1, unsigned b2, char *body, size_t len, int have) {
    Req &r = step(cl, req);
    if (szx_of(b1) < 0 || szx_of(b2) < 0) S.c->fail("invalid block size %u or %u", b1, b2);
    if (r.method == 0) {
        if (!r.block2 || !have || !r.forwarded || r.blockwise) S.c->fail("an unexpected blockwise transfer of a GET request");
        if (b2 < r.first.payload.size()) S.c->fail("the transfer continues with blocks of %u bytes, the server used %zu", b2, r.first.payload.size());
        RMsg f = from_msg(resp);
        if (f.payload != r.first.payload || !f.has(23)) S.c->fail("the first block was lost");
    } else {
        const std::string &b = r.too_large ? r.coap.payload : r.body;
        if (b.empty() || have || r.blockwise || (r.forwarded && !r.too_large)) S.c->fail("an unexpected blockwise transfer");
        if (len < b.size() || memcmp(body, b.data(), b.size())) S.c->fail("the body transferred to the CoAP server differs (%zu bytes instead of %zu)", len, b.size());
        if (len != b.size()) S.c->fail("%zu bytes are transferred to the CoAP server instead of %zu", len, b.size());
    }
    r.forwarded++; r.blockwise++;
    if (r.err) return r.err;
    if (r.rbody.size() > len) return -ENOSPC;
    for (size_t i = 0; i < len; i++) if (i < r.rbody.size()) body[i] = r.rbody[i];
    if (r.in_body) { Resp last = r.resp; size_t bs = std::min<size_t>(r.rbody.size(), 16); last.payload = r.rbody.substr(r.rbody.size() - bs); answer(resp, last, 1, 0, b2); return r.rbody.size(); }
    answer(resp, r.resp, -1, 0, 0);
    return 0;
}
}
static std::string flip(Gen &g, std::string s) { if (g.chance(1, 4)) for (auto &c : s) if (g.chance(1, 2)) c = islower(c) ? toupper(c) : tolower(c); return s; }
static const char *METHOD[] = {"GET", "POST", "PUT", "DELETE"};
static const unsigned MDET[] = {COAP_MSG_GET, COAP_MSG_POST, COAP_MSG_PUT, COAP_MSG_DELETE};
static Resp gen_resp(Gen &g, bool ok) {
    Resp p; const St &s = ok ? STATUS[g.oneof<int>({0, 1, 3, 4})] : STATUS[g.uni(sizeof STATUS / sizeof *STATUS)];
    p.cls = s.cls; p.det = s.det; p.code = s.code;
    if (g.chance(1, 4)) p.etag = g.str(1 + g.below(8), "abc123");
    if (g.chance(1, 4)) p.maxage = fmt("%u", g.below(100000));
    if (g.chance(2, 3) && p.code != 304) p.payload = g.blob(1 + g.below(g.chance(1, 4) ? 1024 : 60));
    return p;
}
static Req gen_req(Gen &g, bool small) {
    Req r; unsigned kind = g.uni(20);
    r.method = g.weighted({4, 2, 2, 1});
    std::string method = METHOD[r.method], target, version = "HTTP/1.1", headers;
    r.coap.type = COAP_MSG_CON; r.coap.cls = 0; r.coap.det = MDET[r.method];
    if (kind == 0) { method = g.oneof<std::string>({"HEAD", "OPTIONS", "get", "PATCH"}); r.early = 501; }
    std::string scheme = flip(g, g.chance(3, 4) ? "coaps" : "coap");
    r.host = flip(g, g.oneof<std::string>({"node1", "node2", "node1.example"}));
    bool port = g.chance(3, 4);
    r.port = port ? g.chance(1, 4) ? fmt("%u", 1 + (unsigned)g.oneof({5683, 5427, 56839, 567, 5939, 0x5634 - 1, 65534})) : g.oneof<std::string>({"5684", "5685", "12"}) : strcasecmp(scheme.c_str(), "coap") ? "5684" : "5683";
    r.coap.opts.push_back({3, r.host});
    if (port) r.coap.opts.push_back({7, r.port});
    target = scheme + "://" + r.host + (port ? ":" + r.port : "");
    unsigned n = g.below(4);
    for (unsigned i = 0; i < n; i++) { std::string s = g.str(1 + g.below(6), "abcXYZ019-_"); target += "/" + s; r.coap.opts.push_back({11, s}); }
    if (g.chance(1, 3)) { if (!n) target += "/"; std::string s = g.str(1 + g.below(6), "abc=19"); target += "?" + s; r.coap.opts.push_back({15, s}); }
    if (kind == 1) { target = g.oneof<std::string>({"/local/path", "http://node1:80/", "coap://node1:5684/#x", "coaps:///a/b", "coaps://:5684/a", "coaps://user@/", "coaps:a", "*", "coap://node%zz:1/"}); r.early = r.early ? r.early : 400; }
    if (g.chance(1, 6)) { headers += "Etag: xyz\r\n"; r.coap.opts.push_back({4, "xyz"}); }
    if (g.chance(1, 8)) { headers += "Accept: text/plain\r\n"; r.coap.opts.push_back({17, "0"}); }
    if (kind == 2) { headers += "Accept: image/png\r\n"; if (!r.early) r.early = 406; }
    if (g.chance(1, 3)) headers += "Host: " + r.host + "\r\nUser-Agent: " + g.str(g.chance(1, 8) ? g.below(900) : g.below(20), "abc 123/") + "x\r\n";
    sort_opts(r.coap);
    size_t blen = g.chance(r.method == 0 || r.method == 3 ? 5 : 1, 6) ? 0 : small || g.chance(1, 2) ? 1 + g.below(200) : g.chance(1, 2) ? 1020 + g.uni(9) : g.chance(1, 10) ? 8188 + g.uni(9) : g.chance(1, 16) ? g.below(20000) : g.below(8192);
    std::string body = g.blob(blen);
    if (blen > 8192) { r.alt = 502; if (!r.early) r.early = 502; }      // refused for either reason
    if (blen > COAP_MSG_MAX_PAYLOAD_LEN) { if (r.method == 1 || r.method == 2) r.body = body; } else r.coap.payload = body;
    std::string framed = body;
    if (blen && g.chance(1, 5)) {
        headers += "Transfer-Encoding: chunked\r\n"; framed.clear();
        for (size_t p = 0; p < blen;) { size_t k = std::min<size_t>(blen - p, 1 + g.below(blen)); framed += fmt("%zx\r\n", k) + body.substr(p, k) + "\r\n"; p += k; }
        framed += "0\r\n\r\n";
    } else if (blen || g.chance(1, 3)) headers += fmt("Content-Length: %zu\r\n", blen);
    r.wire = method + " " + target + " " + version + "\r\n" + headers + "\r\n" + framed;
    if (kind == 3) {       // not HTTP, or more than the proxy is prepared to hold
        r.well = false;
        switch (g.uni(4)) {
        case 0: r.wire = "GET" + g.str(g.below(3), "xy") + "\r\n\r\n"; break;
        case 1: r.wire = "GET coaps://node1:5684/ HTTP/1.1\r\nbad header\r\n\r\n"; break;
        case 2: r.wire = "PUT coaps://node1:5684/ HTTP/1.1\r\nContent-Length: -7\r\n\r\n"; break;
        default: r.wire = method + " " + target + " " + version + fmt("\r\nContent-Length: %zu\r\n\r\n", (size_t)34000) + std::string(34000, 'x');
        }
        return r;
    }
    // what happens on the CoAP side
    if (g.chance(1, 12)) r.conn_err = -g.oneof<int>({EINVAL, ECONNREFUSED, ETIMEDOUT, EBADMSG, ENOMEM});
    if (g.chance(1, 6)) { r.err = -g.oneof<int>({ETIMEDOUT, EBADMSG, ECONNRESET, EIO, ENOSPC}); r.err_step = g.uni(2); }
    if (r.method == 0 && g.chance(1, 3)) {
        r.block2 = true; r.first = gen_resp(g, true); r.first.det = 5; r.first.code = 200;
        r.first.payload = g.blob(g.oneof<size_t>({16, 32, 64, 256, 1024}));
    }
    bool pp = r.method == 1 || r.method == 2;
    if (pp && !r.coap.payload.empty() && g.chance(1, 3)) { r.too_large = true; r.first.cls = 4; r.first.det = 13; r.first.code = 413; if (g.chance(1, 2)) r.first.payload = "too large"; }
    bool second = r.block2 || r.too_large || !r.body.empty();
    r.resp = gen_resp(g, false);
    while (pp && !second && r.resp.code == 413) r.resp = gen_resp(g, false);      // the proxy tries again in blocks
    if (r.err && r.err_step && !second) r.err = 0;
    if (second && g.chance(2, 3)) {
        r.resp = gen_resp(g, true); r.in_body = true;
        size_t max = r.block2 ? 8192 : r.body.empty() ? r.coap.payload.size() : r.body.size();
        size_t k = r.block2 && g.chance(1, 3) ? (g.chance(1, 2) ? 4096 : 8192) - g.uni(100) : 1 + g.below(max);
        r.rbody = g.blob(std::min(k, max));
    } else if (!second && r.resp.cls == 2 && r.resp.code == 200 && g.chance(1, 12)) r.resp.payload = g.blob(g.chance(1, 4) ? 1024 : 1000);
    return r;
}
static unsigned status_of(int err) { return err == -ETIMEDOUT ? 504 : err == -EBADMSG ? 502 : 501; }

static void c25(Gen &g, Ctx &c) {
    pool::begin(pool::GUARD, PROXY); heap::reset();
    coap_log_set_level((coap_log_level_t)-1);
    S = Sim(); S.c = &c; S.fail_write = (size_t)-1;
    unsigned n = 1 + g.below(7);
    bool small = g.chance(1, 2);
    for (unsigned i = 0; i < n; i++) S.q.push_back(gen_req(g, small));
    // the same server often
    S.end = g.uni(3);
    bool cut = g.chance(1, 8);
    size_t stop = n;                           // requests that are complete and well-formed up to the first that is not
    for (unsigned i = 0; i < n; i++) if (!S.q[i].well) { stop = i; break; }
    // how the client sends them: one at a time, or ahead
    bool pipe = g.chance(1, 2); size_t window = pipe ? 1 + g.below(4) : 0;
    std::string pend; size_t pafter = 0;
    auto flush = [&] { if (!pend.empty()) S.recs.push_back({pend, pafter}); pend.clear(); };
    unsigned frag = g.uni(4);
    for (unsigned i = 0; i < n; i++) {
        std::string w = S.q[i].wire;
        if (cut && i + 1 == n) { w = w.substr(0, g.uni(w.size())); stop = std::min<size_t>(stop, i); }
        size_t after = i > window ? i - window : 0;
        if (!pend.empty() && pafter != after) flush();
        for (size_t p = 0; p < w.size();) {
            size_t k = frag == 0 ? w.size() - p : frag == 1 ? 1 + g.below(std::min<size_t>(w.size() - p, 16384)) : frag == 2 ? 1 + g.below(std::min<size_t>(w.size() - p, 300)) : std::min<size_t>(w.size() - p, 16384);
            k = std::min(k, 16384 - pend.size());
            if (S.recs.size() > 60) k = std::min(w.size() - p, 16384 - pend.size());
            pafter = after; pend += w.substr(p, k); p += k;
            if (p < w.size() || pend.size() >= 16384 || !pipe || g.chance(1, 2)) flush();
        }
    }
    flush();
    if (g.chance(1, 10)) { S.fail_write = g.uni(n); S.write_ret = g.chance(1, 2) ? 0 : SOCK_WRITE_ERROR; }
    S.faulty = g.chance(1, 6);
    param_t param; memset(&param, 0, sizeof param);
    param.coap_client_key_file_name = (char *)"ckey"; param.coap_client_cert_file_name = (char *)"ccert"; param.coap_client_trust_file_name = (char *)"ctrust";
    param.http_server_key_file_name = (char *)"hkey"; param.http_server_cert_file_name = (char *)"hcert"; param.http_server_trust_file_name = (char *)"htrust";
    std::string d; for (auto &r : S.q) d += cesc(r.wire.substr(0, r.wire.find("\r\n")), 60) + fmt(" (%zu) -> %s", r.wire.size(), !r.well ? "bad" : r.early ? fmt("%u", r.early).c_str() : r.conn_err ? "unreachable" : r.err ? fmt("error %d", r.err).c_str() : fmt("%s%u.%02u %zu", r.block2 ? "blocks " : r.too_large ? "4.13 " : "", r.resp.cls, r.resp.det, r.in_body ? r.rbody.size() : r.resp.payload.size()).c_str()) + "; ";
    c.descf("%zu records, %s%s%s: %s", S.recs.size(), pipe ? "pipelined, " : "", S.end == 0 ? "closed" : S.end == 1 ? "timeout" : "error", cut ? ", last cut" : "", d.c_str());
    tls_sock_t *sock = (tls_sock_t *)vf_calloc(1, sizeof *sock);
    sock->sd = 5; sock->timeout = 10;
    if (S.faulty) { bool p = g.chance(1, 3); (p ? pool::fail_at : heap::fail_at) = (p ? pool::allocs() : heap::count) + (long)(g.chance(1, 2) ? g.below(20) : g.below(120)); }
    if (connection_init()) c.fail("connection_init failed");
    connection_t *con = connection_new(sock, 0, 1, &param);
    if (!con) {
        if (!S.faulty) c.fail("connection_new failed");
        vf_free(sock);
    } else {
        connection_thread_func(con);
        if (!S.closed) c.fail("the HTTP connection was not closed");
    }
    bool denied = S.faulty && ((heap::fail_at >= 0 && heap::count > heap::fail_at) || (pool::fail_at >= 0 && pool::allocs() > pool::fail_at));
    heap::fail_at = -1; pool::fail_at = -1;
    if (S.active) c.fail("the connection to the CoAP server was left open");
    if (heap::live) c.fail("%ld heap blocks leaked", heap::live);
    std::string e = pool::end(); if (!e.empty()) c.fail("%s", e.c_str());
    if (!pool::error.empty()) c.fail("%s", pool::error.c_str());
    if (S.parsed != S.out.size()) c.fail("the HTTP client is left with an incomplete response of %zu bytes: '%s'", S.out.size() - S.parsed, cesc(S.out.substr(S.parsed), 200).c_str());
    // the answers
    size_t want = std::min(stop, S.fail_write);
    if (S.got.size() < want && !denied) c.fail("%zu of %zu requests were answered (%zu of %zu records read)", S.got.size(), want, S.ri, S.recs.size());
    if (S.got.size() > want) {
        if (S.fail_write != (size_t)-1 && want == S.fail_write) c.fail("answers after a failure to answer");
        if (stop < n && !S.q[stop].well && S.got.size() == want + 1 && S.got[want].code >= 400) c.label("bad request answered");
        else c.fail("%zu answers to %zu requests", S.got.size(), want);
    }
    for (size_t i = 0; i < S.got.size() && i < want; i++) {
        Req &r = S.q[i]; auto &a = S.got[i];
        if (denied && a.code >= 400) continue;
        unsigned code; std::string body; bool any5 = false, known = false;
        if (r.early) code = r.early;
        else if (r.conn_err && !r.forwarded) { code = 502; any5 = true; }
        else if (r.err) { code = status_of(r.err); known = false; }
        else { code = r.resp.code; body = r.in_body ? r.rbody : r.resp.payload; known = true; }
        if (any5 ? a.code < 500 || a.code > 599 : a.code != code && !(r.early && a.code == r.alt)) c.fail("request %zu is answered with status %u, expected %u", i, a.code, code);
        if (!known) body = a.code == code && !r.forwarded ? "" : "";
        if (known && a.body != body) c.fail("request %zu is answered with a body of %zu bytes '%s', expected %zu '%s'", i, a.body.size(), cesc(a.body, 100).c_str(), body.size(), cesc(body, 100).c_str());
        if (!known && !r.coap.payload.empty() && r.coap.payload.size() > 8 && a.body.find(r.coap.payload) != std::string::npos) c.fail("the body of request %zu is sent back", i);
        bool etag = a.head.find("Etag: ") != std::string::npos, ma = a.head.find("max-age=") != std::string::npos;
        if (known && (etag != !r.resp.etag.empty() || ma != !r.resp.maxage.empty())) c.fail("request %zu: wrong headers in '%s'", i, cesc(a.head, 300).c_str());
        if (!known && (etag || ma)) c.fail("request %zu: the error answer has headers of another one: '%s'", i, cesc(a.head, 300).c_str());
        unsigned f = r.early || (r.conn_err && !r.forwarded) ? 0 : r.err && r.err_step == 0 ? 1 : r.block2 || r.too_large ? 2 : 1;
        if (r.forwarded != f && !denied) c.fail("request %zu was sent to the CoAP server %u times, expected %u", i, r.forwarded, f);
    }
    for (size_t i = want + (S.fail_write != (size_t)-1 && want == S.fail_write); i < n; i++) if (S.q[i].forwarded) c.fail("request %zu was sent to a CoAP server", i);
    if (S.creates != S.destroys) c.fail("%ld connections to CoAP servers made, %ld ended", S.creates, S.destroys);
    if (denied) c.label("allocation failed");
    if (pipe) c.label("pipelined");
    if (stop < n) c.label("bad or incomplete request");
    if (S.creates > 1) c.label("several servers");
    if (S.got.size() >= 2 && S.creates) c.nontrivial();
}
PROPERTY("C25", "http-connection", "at least two requests answered, at least one by a CoAP server", 1, c25);
