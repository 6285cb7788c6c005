// Blockwise transfers: the real server against an arbitrary client, and the real client against an arbitrary server.
#include "netsim.h"
#include <set>
#include <map>
#include <algorithm>
extern "C" {
#include "coap_client.h"
#include "coap_server.h"
}
using namespace pbt;
using net::MS; using net::SEC;

namespace {
const size_t BUF = 8192;
std::string enc_block(unsigned num, unsigned more, unsigned size) { unsigned szx = szx_of(size); return ref_block_val(num, more, szx, num < 16 ? 1 : num < 4096 ? 2 : 3); }
std::string bstr(const RBlock &b) { return fmt("%u/%u/%u", b.num, b.more, b.size); }

// ---------------------------------------------------------------- server
struct AppCfg {
    unsigned mode = 0;                  // 0 blockwise, 1 plain response
    unsigned s1 = 64, s2 = 64; std::string body; unsigned rcls = 2, rdet = 4; std::string reply; int ret = 0; bool diag = false, norx = false;
};
struct BEp {
    net::Addr a;
    enum { REG, GET, B1, B2 } st = REG;
    unsigned method = 0, s1 = 0, s2 = 0, detail = 0; std::string path, body; size_t n1 = 0, n2 = 0; AppCfg cfg;
    unsigned mid = 0; std::string last, lastresp; bool dup_ok = false;
};
struct BSim {
    Ctx *c; coap_server_t srv; net::Addr me = net::addr(1, 5683); std::vector<BEp> ep; unsigned cur = 0; AppCfg next;
    std::vector<net::Out> outs; unsigned handled = 0; std::vector<std::string> bodies; bool fed = false; std::string pending; bool ended = false;
    static BSim *self;
    static int rx(coap_server_trans_t *tr, coap_msg_t *, coap_msg_t *resp) {
        BSim &s = *self; AppCfg &k = s.ep[s.cur].cfg;
        s.bodies.push_back(std::string(coap_server_trans_get_body(tr), coap_server_trans_get_body_end(tr)));
        if (k.ret < 0) return k.ret;
        size_t n = std::min(k.reply.size(), (size_t)coap_server_trans_get_body_len(tr));
        memcpy(coap_server_trans_get_body(tr), k.reply.data(), n);
        coap_server_trans_set_body_end(tr, n);
        if (k.diag) coap_msg_set_payload(resp, (char *)"why", 3);
        return coap_msg_set_code(resp, k.rcls, k.rdet);
    }
    static int handle(coap_server_trans_t *tr, coap_msg_t *req, coap_msg_t *resp) {
        BSim &s = *self; s.handled++;
        AppCfg &k = s.ep[s.cur].cfg; k = s.next;
        if (k.mode == 1) { coap_msg_set_code(resp, 2, 5); return coap_msg_set_payload(resp, (char *)"plain", 5); }
        Exact b(k.body);
        return coap_server_trans_handle_blockwise(tr, req, resp, k.s1, k.s2, b.p(), k.body.size(), k.norx ? NULL : rx);
    }
    void begin(Gen &g, unsigned n) {
        uint64_t seed = g.seed64(); net::reset(seed);
        pool::begin(pool::GUARD, pool::Cfg{{4096, 4096, 64}, {256, 1024, BUF}});
        self = this; ep.resize(n);
        { auto at = net::endpoints(seed >> 3, n); for (unsigned i = 0; i < n; i++) ep[i].a = at[i]; }
        if (coap_server_create(&srv, handle, net::HOST, "5683")) c->fail("server creation failed");
        coap_server_add_sep_resp_uri_path(&srv, "/sb");
        net::on_send = [this](const net::Out &o) { outs.push_back(o); };
        net::on_idle = [this] { if (fed) return false; fed = true; net::deliver(ep[cur].a, me, pending); return true; };
    }
    void step(unsigned e, const std::string &b) {
        cur = e; pending = b; fed = false; outs.clear(); handled = 0; bodies.clear();
        if (net::run([this] { coap_server_run(&srv); })) ended = true;
    }
    std::string end() {
        net::on_send = nullptr; net::on_idle = nullptr;
        coap_server_destroy(&srv);
        std::string l = pool::end();
        if (!l.empty()) return "after destroying the server: " + l;
        return net::misuse;
    }
};
BSim *BSim::self;

// what the specification makes the server do with a request
struct Exp { bool resp = true; unsigned cls = 0, det = 0; bool b1 = false, b2 = false; RBlock v1, v2; std::string payload; bool anypay = false; bool boundary = false; unsigned handled = 0; std::vector<std::string> bodies; };
void clear(BEp &e) { e.st = BEp::REG; }
void next_block(BEp &e, const RMsg &q, Exp &x) {
    RBlock r1, r2; int p1 = ref_block(q, 27, r1), p2;
    if (p1 < 0) { x.cls = 4; x.det = 0; clear(e); return; }
    if (p1 == 0 && r1.size < e.s1) e.s1 = r1.size;
    p2 = ref_block(q, 23, r2);
    if (p2 < 0) { x.cls = 4; x.det = 0; clear(e); return; }
    if (p2 == 0 && r2.size < e.s2) e.s2 = r2.size;
    if (p1) r1 = RBlock(); if (p2) r2 = RBlock();
    if (e.st == BEp::B1) {
        if (q.det != e.method || q.path() != e.path) { x.cls = 4; x.det = 0; clear(e); return; }
        if ((size_t)r1.num * e.s1 != e.n1) { x.cls = 4; x.det = 8; clear(e); return; }
        if (q.payload.empty()) { x.cls = 4; x.det = 0; clear(e); return; }
        if (e.n1 + q.payload.size() > BUF) { x.cls = 4; x.det = 13; clear(e); return; }
        x.b1 = true; x.v1 = RBlock{(unsigned)(e.n1 / e.s1), r1.more, e.s1};
        e.body += q.payload; e.n1 += q.payload.size();
        x.cls = 2; x.det = 31;
        if (r1.more) return;
        x.bodies.push_back(e.body);
        if (e.cfg.ret < 0) { x.resp = false; clear(e); return; }
        x.cls = e.cfg.rcls; x.det = e.cfg.rdet; if (e.cfg.diag) x.payload = "why";
        if (x.cls != 2 || e.cfg.reply.empty()) { clear(e); return; }
        e.st = BEp::B2; e.detail = x.det; e.body = e.cfg.reply; e.n2 = 0;
    }
    // response blocks
    if (q.det != e.method || q.path() != e.path || (size_t)r2.num * e.s2 != e.n2) { x.cls = 4; x.det = 0; clear(e); x.anypay = true; return; }
    x.b2 = true; size_t left = e.body.size() - e.n2, n = std::min<size_t>(left, e.s2);
    x.boundary = left == e.s2;
    x.v2 = RBlock{(unsigned)(e.n2 / e.s2), left >= e.s2, e.s2};
    x.payload = e.body.substr(e.n2, n); e.n2 += n;
    x.cls = 2; x.det = x.v2.more ? 31 : e.st == BEp::GET ? 5 : e.detail;
    if (!x.v2.more) clear(e);
}
Exp expect(BEp &e, const RMsg &q, const AppCfg &next) {
    Exp x;
    if (e.st != BEp::REG) { next_block(e, q, x); return x; }
    x.handled = 1; e.cfg = next;
    if (next.mode == 1) { x.cls = 2; x.det = 5; x.payload = "plain"; return x; }
    if ((next.s1 && szx_of(next.s1) < 0) || (next.s2 && szx_of(next.s2) < 0) || next.body.size() > BUF) { x.resp = false; return x; }
    if (next.norx && (q.det == 2 || q.det == 3)) { x.resp = false; return x; }
    e.n1 = e.n2 = 0; e.s1 = next.s1; e.s2 = next.s2; e.method = q.det; e.path = q.path(); e.body.clear();
    if (q.det == 1) { e.st = BEp::GET; e.body = next.body; }
    else if (q.det == 2 || q.det == 3) e.st = BEp::B1;
    else { x.cls = 5; x.det = 1; return x; }
    next_block(e, q, x);
    return x;
}
RMsg gen_breq(Gen &g, BEp &e, const AppCfg &next) {
    RMsg q; q.token = g.blob(g.uni(9));
    bool reg = e.st == BEp::REG;
    q.det = reg ? (g.chance(1, 20) ? 4 + g.uni(3) : 1 + g.uni(3)) : e.method;
    if (!reg && g.chance(1, 24)) q.det = 1 + g.uni(4);
    std::string path = reg ? g.oneof({"b", "b", "b", "sb", "c"}) : e.path.substr(1);
    if (!reg && g.chance(1, 24)) path = g.oneof({"b", "c", "bb", "sb"});
    if (reg && g.chance(1, 16)) path = std::string(100 + g.uni(156), 'l') + "/" + std::string(100 + g.uni(156), 'm');
    if (!reg && path.size() > 100 && g.chance(1, 8)) { if (g.chance(1, 2)) path.back() = 'M'; else path.pop_back(); }
    std::vector<ROpt> o;
    for (size_t a = 0;;) { size_t b = path.find('/', a); o.push_back({11, path.substr(a, b == std::string::npos ? b : b - a)}); if (b == std::string::npos) break; a = b + 1; }
    if (!reg && g.chance(1, 40)) o.push_back({11, "x"});
    q.type = g.chance(1, 4);
    unsigned s1 = reg ? next.s1 : e.s1, s2 = reg ? next.s2 : e.s2;
    if (szx_of(s1) < 0) s1 = 16; if (szx_of(s2) < 0) s2 = 16;
    size_t n1 = reg ? 0 : e.n1, n2 = reg || e.st == BEp::B1 ? 0 : e.n2;
    bool one = reg ? (q.det == 2 || q.det == 3) : e.st == BEp::B1;
    auto blk = [&](uint32_t num, unsigned size, size_t start, bool block1) {
        unsigned s = g.chance(1, reg ? 2 : 8) ? 16u << g.uni(7) : size;
        unsigned eff = std::min(s, size), n = (unsigned)(start / eff), more = g.chance(5, 6) && block1;
        if (!block1) more = g.chance(1, 20);
        if (g.chance(1, 24)) n = g.chance(1, 2) ? g.below(20) : g.below(1 << 20);
        if (s > size && !reg && g.chance(1, 2)) n = (unsigned)(start / s);
        std::string v = enc_block(n, more, s);
        if (n == 0 && g.chance(1, 16)) v = more ? v : std::string(g.uni(2), 0);
        if (g.chance(1, 60)) v = g.bytes(g.uni(6));
        o.push_back({num, v});
        if (block1 && !g.chance(1, 30)) q.payload = g.blob(more && !g.chance(1, 24) ? s : 1 + g.below(std::min(2 * s, 1024u)));
    };
    if (one) { if (!g.chance(1, 16)) blk(27, s1, n1, true); else if (g.chance(3, 4)) q.payload = g.blob(1 + g.below(1024)); if (g.chance(1, 3)) blk(23, s2, 0, false); }
    else { if (!(n2 == 0 && g.chance(1, 3)) && !g.chance(1, 40)) blk(23, s2, n2, false); if (g.chance(1, 30)) blk(27, s1, n1, true); }
    if (g.chance(1, 6)) o.push_back({12, "x"});
    q.opts = o; sort_opts(q);
    size_t l = ref_encode(q).size();
    if (l > 1152) q.payload.resize(q.payload.size() - (l - 1152));
    return q;
}
AppCfg gen_app(Gen &g) {
    AppCfg k; k.mode = g.chance(1, 10);
    k.s1 = 16u << g.uni(7); k.s2 = 16u << g.uni(7);
    auto len = [&](unsigned s) -> size_t { switch (g.uni(4)) { case 0: return s * g.uni(6); case 1: { long v = (long)s * (1 + g.uni(6)) + (long)g.uni(3) - 1; return v; } case 2: return g.below(300); default: return g.below(BUF + 1); } };
    k.body = g.blob(len(k.s2));
    if (g.chance(1, 40)) k.body = g.blob(BUF + 1 + g.below(100));
    if (g.chance(1, 60)) k.s1 = g.below(3000); if (k.s1 == 0) k.s1 = 16;
    if (g.chance(1, 60)) k.s2 = g.below(3000); if (k.s2 == 0) k.s2 = 16;
    k.rcls = g.chance(1, 8) ? g.oneof({4, 5}) : 2; k.rdet = k.rcls == 2 ? g.oneof({1, 4}) : g.uni(5);
    if (g.chance(2, 3)) k.reply = g.blob(len(k.s2));
    if (k.reply.size() > BUF) k.reply.resize(BUF);
    k.ret = g.chance(1, 30) ? -EINVAL : 0; k.diag = k.rcls != 2 && g.chance(1, 2); k.norx = g.chance(1, 40);
    return k;
}
void c18(Gen &g, Ctx &c) {
    static BSim s; s = BSim(); s.c = &c;
    s.begin(g, 1 + g.uni(3));
    std::string err; unsigned mid = g.below(60000), done = 0, multi = 0, refused = 0;
    for (unsigned i = 0, n = 1 + g.uni(40); i < n && err.empty(); i++) {
        unsigned k = g.uni(s.ep.size()); BEp &e = s.ep[k];
        net::advance_to(net::now + g.below(1500) * MS);
        if (e.dup_ok && g.chance(1, 10)) {
            s.step(k, e.last);
            RMsg q; ref_decode(e.last, q); c.descf("ep%u duplicate %s\n", k, ref_str(q).c_str());
            if (s.handled || !s.bodies.empty()) err = "a duplicate request was handed to the application";
            else if (q.type == 0 && q.path() != "/sb" && std::none_of(s.outs.begin(), s.outs.end(), [&](const net::Out &o) { return o.to == e.a && o.data == e.lastresp; })) err = "a duplicate was not answered with the response sent before";
            continue;
        }
        s.next = gen_app(g);
        RMsg q = gen_breq(g, e, s.next); q.mid = ++mid;
        bool more1 = e.st == BEp::B1;
        Exp x = expect(e, q, s.next);
        std::string b = ref_encode(q); if (b.size() > COAP_MSG_MAX_BUF_LEN) { err = "internal: request too long"; break; }
        RBlock t;
        c.descf("ep%u %s block1 %s block2 %s", k, ref_str(q).substr(0, 90).c_str(), ref_block(q, 27, t) ? "-" : bstr(t).c_str(), ref_block(q, 23, t) ? "-" : bstr(t).c_str());
        if (x.handled) c.descf(" [app: mode %u sizes %u %u body %zu reply %zu code %u.%02u ret %d]", s.next.mode, s.next.s1, s.next.s2, s.next.body.size(), s.next.reply.size(), s.next.rcls, s.next.rdet, s.next.ret);
        c.descf("\n");
        s.step(k, b);
        std::string at = fmt("step %u: ", i);
        if (s.ended) { err = "the server stopped serving"; break; }
        if (s.handled != x.handled) { err = at + fmt("the application was called %u times, expected %u", s.handled, x.handled); break; }
        if (s.bodies != x.bodies) { err = at + fmt("the application received %zu bodies (%zu bytes), expected %zu (%zu bytes)%s", s.bodies.size(), s.bodies.empty() ? 0 : s.bodies[0].size(), x.bodies.size(), x.bodies.empty() ? 0 : x.bodies[0].size(), s.bodies.size() == x.bodies.size() && s.bodies[0].size() == x.bodies[0].size() ? ", contents differ" : ""); break; }
        std::vector<RMsg> r;
        for (auto &o : s.outs) { RMsg m; if (!(o.to == e.a)) continue; ref_decode(o.data, m); if (!m.empty() && m.token == q.token && (m.type != 2 || m.mid == q.mid)) r.push_back(m); }
        // retransmissions of earlier separate responses carry other tokens or come from the timer; the response to this request is the last one
        e.last = b; e.dup_ok = x.resp;
        if (!x.resp) { if (!r.empty() && r.back().mid == q.mid) err = at + "the application failed but a response was sent: " + ref_str(r.back()); clear(e); continue; }
        if (r.empty()) { err = at + "no response"; break; }
        RMsg a = r.back(); for (auto &o : s.outs) { RMsg m; ref_decode(o.data, m); if (diff(m, a).empty()) e.lastresp = o.data; }
        if (x.boundary && a.cls == 2) {         // the last full block may or may not be announced as the last
            RBlock v; if (ref_block(a, 23, v) == 0 && !v.more) { x.v2.more = 0; x.det = e.st == BEp::GET ? 5 : e.detail; clear(e); }
        }
        RBlock v1, v2; int p1 = ref_block(a, 27, v1), p2 = ref_block(a, 23, v2);
        std::string got = fmt("%u.%02u block1 %s block2 %s payload %zu", a.cls, a.det, p1 ? "-" : bstr(v1).c_str(), p2 ? "-" : bstr(v2).c_str(), a.payload.size());
        std::string want = fmt("%u.%02u block1 %s block2 %s payload %zu", x.cls, x.det, !x.b1 ? "-" : bstr(x.v1).c_str(), !x.b2 ? "-" : bstr(x.v2).c_str(), x.payload.size());
        c.descf("   -> %s\n", got.c_str());
        if (a.cls != x.cls || a.det != x.det) { err = at + "expected " + want + ", got " + got; break; }
        if (x.cls == 2) {
            if ((p1 == 0) != x.b1 || (p2 == 0) != x.b2 || (x.b1 && bstr(v1) != bstr(x.v1)) || (x.b2 && bstr(v2) != bstr(x.v2))) { err = at + "expected " + want + ", got " + got; break; }
        }
        if (!x.anypay && x.cls == 2 && a.payload != x.payload) { err = at + "the payload differs from the block of the body, expected " + want + ", got " + got; break; }
        if (x.cls == 4) refused++;
        if (x.v1.more || x.v2.more || more1) multi++;
        done += x.bodies.size();
    }
    if (multi) c.nontrivial();
    if (done) c.label("body delivered"); if (refused) c.label("transfer refused");
    std::string l = s.end();
    if (!err.empty()) c.fail("%s", err.c_str());
    if (!l.empty()) c.fail("%s", l.c_str());
}

// ---------------------------------------------------------------- client
struct CBlk {
    Gen *g; Ctx *c; net::Addr sa = net::addr(1, 5683);
    RMsg base; unsigned s1, s2; std::string body; size_t room; bool put;
    // model
    bool phase2 = false, finished = false; int want = 0; size_t start = 0; unsigned cur1, cur2; std::string recv; RMsg lastresp; std::string err; unsigned blocks = 0;
    unsigned srv1, srv2; std::string rbody; unsigned hostile; RMsg q; bool lasthad = false;
    std::string curreq;
    void bad(const std::string &m) { if (err.empty()) err = m; }
    // the client acts on a response
    void took(const RMsg &r) {
        lastresp = r; lasthad = true;
        auto endr = [&](int v) { finished = true; want = v; };
        if (r.cls != 2) return endr(0);
        if (put && !phase2) {
            if (r.det != 31 && r.det != 1 && r.det != 4) return endr(0);
            RBlock b; if (ref_block(r, 27, b)) return endr(-1);
            size_t sent = std::min<size_t>(cur1, body.size() - start);
            if (b.size < cur1) cur1 = b.size;
            if ((size_t)b.num * cur1 != start) return endr(-1);
            start += sent;
            if (start < body.size()) return;
            if (r.payload.empty()) return endr(0);
            phase2 = true; start = 0; cur2 = s2;
        }
        if (put ? (r.det != 31 && r.det != 1 && r.det != 4) : (r.det != 31 && r.det != 5)) return endr(0);
        RBlock b; if (ref_block(r, 23, b)) return endr(-1);
        if (b.size < cur2) cur2 = b.size;
        if ((size_t)b.num * cur2 != start) return endr(-1);
        if (r.payload.size() > cur2 || (b.more && r.payload.size() != cur2)) return endr(-1);
        if (start + r.payload.size() > room) return endr(-1);
        recv += r.payload; start += r.payload.size(); blocks++;
        if (!b.more) endr(1);
    }
    // the request the client must send now
    void check_request(const RMsg &m) {
        RMsg w = base; w.token = m.token; w.mid = m.mid;
        RBlock b1, b2; int p1 = ref_block(m, 27, b1), p2 = ref_block(m, 23, b2);
        if (put && !phase2) {
            size_t n = std::min<size_t>(cur1, body.size() - start); bool more = start + n < body.size();
            w.payload = body.substr(start, n);
            RBlock x{(unsigned)(start / cur1), more, cur1};
            if (p1 || bstr(b1) != bstr(x)) return bad("block1 option is " + (p1 ? std::string("missing") : bstr(b1)) + ", expected " + bstr(x));
            if (!more) { RBlock y{0, 0, s2}; if (p2 || bstr(b2) != bstr(y)) return bad("block2 option of the last block is " + (p2 ? std::string("missing") : bstr(b2)) + ", expected " + bstr(y)); }
        } else {
            RBlock y{(unsigned)(start / cur2), 0, cur2};
            if (p2 || bstr(b2) != bstr(y)) return bad("block2 option is " + (p2 ? std::string("missing") : bstr(b2)) + ", expected " + bstr(y));
            if (p1 == 0) return bad("unexpected block1 option");
        }
        RMsg z = m; z.opts.clear(); for (auto &o : m.opts) if (o.num != 27 && o.num != 23) z.opts.push_back(o);
        std::string d = diff(w, z); if (!d.empty()) bad("request differs (expected vs sent): " + d);
    }
    RMsg respond(const RMsg &m) {
        RMsg r; r.cls = 2; r.type = m.type == 0 ? 2 : 1; r.mid = m.type == 0 ? m.mid : 4242 + blocks; r.token = m.token;
        RBlock b1, b2; int p1 = ref_block(m, 27, b1), p2 = ref_block(m, 23, b2);
        size_t off = 0;
        bool second = !put || phase2 || (p1 == 0 && !b1.more);
        if (put && !phase2 && p1 == 0) {
            unsigned s = std::min(b1.size, srv1); unsigned num = (unsigned)((size_t)b1.num * b1.size / s);
            if (g->chance(hostile, 64)) num = g->below(20); if (g->chance(hostile, 64)) s = 16u << g->uni(7);
            std::string v = enc_block(num, b1.more, s); if (g->chance(hostile, 64)) v = g->bytes(g->uni(5));
            if (!g->chance(hostile, 64)) r.opts.push_back({27, v});
            r.det = b1.more ? 31 : g->oneof({1, 4});
            second = second && !rbody.empty();
        }
        if (second) {
            if (p2 == 0) { off = put && !phase2 ? 0 : (size_t)b2.num * b2.size; }
            unsigned s = p2 == 0 ? std::min(b2.size, srv2) : srv2; unsigned num = (unsigned)(off / s);
            size_t left = off < rbody.size() ? rbody.size() - off : 0; size_t n = std::min<size_t>(left, s); unsigned more = left > s || (left == s && g->chance(1, 2));
            if (g->chance(hostile, 64)) num = g->chance(1, 2) ? g->below(20) : g->below(1 << 20);
            if (g->chance(hostile, 64)) s = 16u << g->uni(7);
            if (g->chance(hostile, 64)) more = !more;
            std::string pl = rbody.substr(std::min(off, rbody.size()), n);
            if (g->chance(hostile, 64)) pl = g->blob(g->below(1025));
            std::string v = enc_block(num, more, s); if (g->chance(hostile, 64)) v = g->bytes(g->uni(5));
            if (!g->chance(hostile, 64)) r.opts.push_back({23, v});
            r.payload = pl; r.det = more ? 31 : put ? (r.det && r.det != 31 ? r.det : 4) : 5;
        }
        if (g->chance(hostile, 64)) { r.cls = g->oneof({2, 4, 5}); r.det = g->uni(32); }
        if (g->chance(1, 8)) r.opts.push_back({12, "q"});
        sort_opts(r);
        return r;
    }
};
void c19(Gen &g, Ctx &c) {
    static CBlk s; s = CBlk(); s.g = &g; s.c = &c;
    net::reset(g.seed64());
    pool::begin(pool::GUARD, pool::Cfg{{4096, 4096, 64}, {256, 1024, BUF}});
    coap_client_t cl;
    if (coap_client_create(&cl, net::HOST, "5683")) c.fail("client creation failed");
    s.s1 = 16u << g.uni(7); s.s2 = 16u << g.uni(7); s.srv1 = 16u << g.uni(7); s.srv2 = 16u << g.uni(7); s.hostile = g.oneof({0, 1, 3});
    s.put = g.chance(1, 2); s.cur1 = s.s1; s.cur2 = s.s2;
    auto len = [&](unsigned b) -> size_t { switch (g.uni(4)) { case 0: return b * (1 + g.uni(6)); case 1: { long v = (long)b * (1 + g.uni(6)) + (long)g.uni(3) - 1; return v; } case 2: return 1 + g.below(300); default: return 1 + g.below(3000); } };
    unsigned m1 = std::min(s.s1, s.srv1), m2 = std::min(s.s2, s.srv2);
    s.rbody = g.blob(s.put && g.chance(1, 3) ? 0 : std::min<size_t>(len(m2), m2 * 40));
    s.body = g.blob(std::min<size_t>(len(m1), m1 * 40));
    s.room = s.put ? s.body.size() : g.chance(1, 5) ? g.below(s.rbody.size() + 1) : s.rbody.size() + g.below(2000);
    Exact buf(s.room, 0x5a); if (s.put) memcpy(buf.p(), s.body.data(), s.room);
    s.base.type = g.chance(1, 4); s.base.det = s.put ? g.oneof({2, 3}) : 1; s.base.opts = {{11, "r"}}; if (g.chance(1, 2)) s.base.opts.push_back({g.chance(1, 2) ? 15u : 60u, g.blob(g.below(20))}); sort_opts(s.base);
    bool have = !s.put && g.chance(1, 6);
    coap_msg_t rq, rs; coap_msg_create(&rq); coap_msg_create(&rs); to_msg(s.base, &rq);
    if (have) { RMsg m = s.base; m.opts.push_back({23, enc_block(0, 0, s.s2)}); sort_opts(m); RMsg r = s.respond(m); r.type = 2; if (r.empty()) r.det = 5, r.cls = 2; to_msg(r, &rs); s.took(r); c.descf("first response given: %s\n", ref_str(r).substr(0, 120).c_str()); }
    c.descf("%s, client sizes %u %u, server sizes %u %u, body %zu, reply %zu, room %zu, %s\n", s.put ? "put/post" : "get", s.s1, s.s2, s.srv1, s.srv2, s.body.size(), s.rbody.size(), s.room, ref_str(s.base).c_str());
    unsigned nreq = 0; std::set<std::string> seen;
    net::on_send = [&](const net::Out &o) {
        RMsg m; ref_decode(o.data, m); if (m.empty() || m.cls) return;
        if (seen.count(o.data)) return; seen.insert(o.data);
        nreq++;
        RBlock t; c.descf(" > %s block1 %s", ref_str(m).substr(0, 60).c_str(), ref_block(m, 27, t) ? "-" : bstr(t).c_str()); c.descf(" block2 %s\n", ref_block(m, 23, t) ? "-" : bstr(t).c_str());
        if (s.finished) { s.bad("the client goes on after the transfer has ended"); return; }
        s.check_request(m);
        RMsg r = s.respond(m); if (r.empty()) { r.cls = 2; r.det = 5; }
        c.descf(" < %u.%02u block1 %s", r.cls, r.det, ref_block(r, 27, t) ? "-" : bstr(t).c_str()); c.descf(" block2 %s payload %zu\n", ref_block(r, 23, t) ? "-" : bstr(t).c_str(), r.payload.size());
        s.took(r);
        net::Out p = o; std::string d = ref_encode(r);
        net::at(net::now + MS, [p, d] { net::deliver(p.to, p.from, d); });
    };
    ssize_t ret = 0;
    bool done = net::run([&] { ret = coap_client_exchange_blockwise(&cl, &rq, &rs, s.s1, s.s2, buf.p(), s.room, have); });
    net::on_send = nullptr;
    RMsg got = from_msg(&rs);
    coap_msg_destroy(&rq); coap_msg_destroy(&rs); coap_client_destroy(&cl);
    std::string l = pool::end();
    c.descf("returned %zd\n", ret);
    if (nreq > 1) c.nontrivial();
    if (!s.err.empty()) c.fail("%s", s.err.c_str());
    if (!done) c.fail("the transfer does not end");
    if (!s.finished) c.fail("the transfer ended early with %zd", ret);
    if (s.want < 0) { c.label("transfer must fail"); if (ret >= 0) c.fail("a response that does not continue the transfer was accepted (returned %zd)", ret); }
    else if (s.want == 0) { c.label("no body returned"); if (ret != 0) c.fail("expected 0, returned %zd", ret); }
    else {
        c.label("body returned");
        if (ret < 0 || (size_t)ret != s.recv.size()) c.fail("returned %zd, but %zu bytes were received in sequence", ret, s.recv.size());
        if (buf.str(ret) != s.recv) c.fail("the body differs from the blocks received");
        for (size_t k = ret; k < s.room; k++) if (buf.p()[k] != (s.put ? s.body[k] : 0x5a)) c.fail("byte %zu beyond the %zd bytes received was changed", k, ret);
    }
    if (ret >= 0 && s.lasthad) { got.mid = s.lastresp.mid; RMsg w = s.lastresp; w.type = got.type; w.token = got.token; if (have && nreq == 0) {} std::string d = diff(w, got); if (!d.empty()) c.fail("the last response is not returned as received: %s", d.c_str()); }
    if (!l.empty()) c.fail("%s", l.c_str());
    if (!net::misuse.empty()) c.fail("%s", net::misuse.c_str());
}
}
PROPERTY("C18", "server-blockwise", "a transfer of more than one block was under way", 1, c18);
PROPERTY("C19", "client-blockwise", "the client made more than one request", 1, c19);
