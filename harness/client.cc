// The CoAP client against a scripted, possibly hostile server and generated delays.
#include "netsim.h"
#include <set>
#include <map>
#include <algorithm>
extern "C" {
#include "coap_client.h"
}
using namespace pbt;
using net::MS; using net::SEC;

namespace {
enum Kind { ACK_EMPTY, ACK_RESP, ACK_BADTOK, ACK_OTHER, RST, RST_OTHER, CON_RESP, NON_RESP, CON_BADTOK, NON_BADTOK, REQ_TOK, RAW, PING, OLD, SPURIOUS };
const char *kn[] = {"ack", "piggybacked", "ack-wrong-token", "ack-other-id", "rst", "rst-other-id", "con-response", "non-response", "con-wrong-token", "non-wrong-token", "request-with-token", "raw", "ping", "stale", "spurious"};
struct Step { int64_t dt; Kind k; RMsg m; std::string raw; unsigned arg; bool sameid; unsigned tokmode; bool meet = false; };     // meet: arrives at the very moment the timer expires
struct Exch { RMsg req; std::vector<Step> steps; unsigned refuse = 0; };     // refuse: type | class << 2 of a message that is not a request

RMsg gen_resp(Gen &g) {
    RMsg m;
    m.cls = g.oneof({2, 2, 4, 5}); m.det = g.uni(8);
    for (unsigned i = 0, n = g.uni(4); i < n; i++) {
        uint32_t num = g.weighted({5, 2, 1}) == 0 ? (uint32_t)g.oneof({4, 8, 12, 14, 20, 23, 27, 28}) : g.chance(3, 4) ? 2 * g.below(800) : 2 * g.below(800) + 1;
        m.opts.push_back({num, g.blob(g.below(30))});
    }
    sort_opts(m);
    if (g.chance(2, 3)) m.payload = g.blob(1 + g.below(1000));
    return m;
}
Exch gen_exch(Gen &g, bool timing) {
    Exch x;
    x.req.type = g.chance(1, 3); x.req.det = 1 + g.uni(4);
    for (unsigned i = 0, n = g.uni(3); i < n; i++) x.req.opts.push_back({11, g.str(1 + g.uni(6), "abcdef")});
    if (g.chance(1, 3)) x.req.opts.push_back({(uint32_t)g.oneof({12, 15, 60}), g.blob(g.below(20))});
    sort_opts(x.req);
    if (g.chance(1, 3)) x.req.payload = g.blob(1 + g.below(300));
    if (g.chance(1, 25)) x.refuse = g.chance(1, 2) ? 2 + g.uni(2) + 4 * g.uni(6) : g.uni(4) + 4 * (1 + g.uni(5));
    unsigned n = g.uni(timing ? 5 : 8);
    for (unsigned i = 0; i < n; i++) {
        Step s;
        switch (g.weighted({3, 2, 2, timing ? 3u : 1u})) { case 0: s.dt = 0; break; case 1: s.dt = g.below(900) * MS; break; case 2: s.dt = g.below(5000) * MS; break; default: s.dt = g.below(40000) * MS; }
        s.k = (Kind)(timing ? g.weighted({4, 1, 0, 3, 1, 3, 1, 1, 3, 3, 1, 0, 2, 2, 1}) : g.weighted({3, 3, 2, 2, 1, 2, 3, 3, 3, 3, 2, 2, 1, 2, 1}));
        s.m = gen_resp(g); s.arg = g.below(65536); s.sameid = g.chance(1, 4); s.tokmode = g.uni(5); s.meet = g.chance(1, 8);
        if (s.k == RAW) switch (g.uni(3)) { case 0: s.raw = mutate_bytes(g, ref_encode(gen_msg(g, 100, 60))); break; case 1: s.raw = g.bytes(g.below(10)); break; case 2: s.raw = "+"; break; }
        x.steps.push_back(s);
    }
    return x;
}
struct V { std::string tag, msg; };

struct CSim {
    Ctx *c; coap_client_t cl; net::Addr me; net::Addr srv = net::addr(1, 5683);
    std::vector<V> v; bool stop = false;
    // exchange in progress
    Exch *x; size_t pos; bool draining, inject, met = false; int64_t next_t; std::vector<net::Out> outs;
    enum { CONWAIT, SEPWAIT, NONWAIT } st; std::string first; RMsg req; bool have = false;
    int64_t sent, T, since; unsigned nret; bool over = false;
    RMsg cur; int cls; std::string curb; Kind curk;
    // what the exchange must return now
    enum { GO, OK_, ERR, RESET, TIMEOUT, ERR_OR_GO } want; RMsg wantresp;
    std::vector<std::string> old;
    std::set<std::string> labels; unsigned nsteps = 0; std::vector<std::string> toks; std::vector<unsigned> mids;

    void bad(const char *tag, const std::string &m) { if (v.empty()) v.push_back({tag, m}); stop = true; }
    std::string outstr() { std::string s; for (auto &o : outs) { RMsg m; ref_decode(o.data, m); s += " {" + ref_str(m) + "}"; } return s.empty() ? " nothing" : s; }
    void onsend(const net::Out &o) {
        if (stop) return;
        if (!(o.to == srv)) return bad("C13", "datagram sent to " + net::str(o.to));
        if (!have) {
            have = true; first = o.data; me = o.from;
            if (ref_decode(o.data, req) != R_OK) return bad("C13", "the request sent is malformed: " + hex(o.data));
            RMsg w = x->req; w.mid = req.mid; w.token = req.token;
            std::string d = diff(w, req);
            if (!d.empty()) return bad("C13", "the request sent differs from the one given: " + d);
            if (req.token.empty()) return bad("C13", "the request carries no token");
            toks.push_back(req.token); mids.push_back(req.mid);
            if (!net::rand_bias && toks.size() >= 3 && std::count(toks.begin(), toks.end(), req.token) == (long)toks.size()) return bad("C13", fmt("%zu requests in a row carry the same token", toks.size()));
            if (!net::rand_bias && mids.size() >= 4 && std::count(mids.begin(), mids.end(), req.mid) == (long)mids.size()) return bad("C13", fmt("%zu requests in a row carry the same message ID", mids.size()));
            sent = net::now; T = 0; nret = 0; since = net::now; st = req.type == 0 ? CONWAIT : NONWAIT;
            return;
        }
        if (draining && !(met && o.data == first && st == CONWAIT)) { outs.push_back(o); return; }
        RMsg m; ref_decode(o.data, m);
        if (over) return bad("C14", "datagram sent after the exchange: " + ref_str(m));
        if (st != CONWAIT) return bad("C14", "datagram sent while only waiting for a response: " + ref_str(m));
        if (o.data != first) return bad("C14", "retransmission differs from the request: " + ref_str(m));
        int64_t d = o.t - sent; nret++;
        if (nret > 4) return bad("C14", "more than 4 retransmissions");
        if (nret == 1 ? d < 2 * SEC || d > 3 * SEC : d < 2 * T - 2 * MS || d > 2 * T + 2 * MS) return bad("C14", fmt("retransmission %u after %.3f s (previous wait %.3f s)", nret, d / 1e9, T / 1e9));
        T = d; sent = o.t; labels.insert("retransmission");
    }
    int64_t limit() { return st == CONWAIT ? (nret == 0 ? sent + 3 * SEC : sent + 2 * T + 2 * MS) : since + 30 * SEC + 2 * MS; }
    void expect(size_t n, unsigned type, unsigned id) {
        RMsg w; w.type = type; w.mid = id;
        if (n == 0 ? !outs.empty() : !(outs.size() == 1 && outs[0].data == ref_encode(w)))
            bad("C13", "on " + ref_str(cur) + (n ? fmt(" expected %s id=%u", type == 2 ? "ACK" : "RST", id) : " expected no answer") + ", sent" + outstr());
    }
    // evaluated once the client has dealt with the datagram (returned says whether the exchange ended with it)
    void finish(bool returned) {
        draining = false;
        if (curk == SPURIOUS) { if (!outs.empty()) bad("C13", "unexpected" + outstr()); return; }
        want = GO;
        bool con = curb.size() >= 4 && ((unsigned char)curb[0] >> 4 & 3) == 0;
        if (cls == 3) {
            bool verbad = ((unsigned char)curb[0] >> 6) != 1 || curb.size() < 4;
            RMsg w; w.type = 3; w.mid = curb.size() >= 4 ? (unsigned char)curb[2] << 8 | (unsigned char)curb[3] : 0;
            bool rst = outs.size() == 1 && outs[0].data == ref_encode(w);
            if (con && !verbad ? !rst : !(outs.empty() || (con && curb.size() > COAP_MSG_MAX_BUF_LEN && rst))) bad("C13", "answer to malformed datagram " + hex(curb) + ":" + outstr());
            want = ERR_OR_GO; labels.insert("malformed"); return;
        }
        if (cls == 4) { want = ERR_OR_GO; return; }
        bool idm = cur.mid == req.mid, tok = cur.token == req.token, resp = cur.cls != 0;
        bool crit = false; for (auto &o : cur.opts) if (must_know(o.num) && !ref_recognized(o.num)) crit = true;
        if (cur.type == 3) { expect(0, 0, 0); want = idm ? RESET : GO; if (idm) labels.insert("reset"); return; }
        if (cur.type == 2) {
            expect(0, 0, 0);
            if (!idm) { want = tok && resp ? ERR_OR_GO : GO; return; }
            if (st == CONWAIT) {
                if (cur.empty()) { st = SEPWAIT; since = net::now; labels.insert("separate"); return; }
                if (tok && resp) { want = crit ? ERR : OK_; wantresp = cur; labels.insert("piggybacked"); return; }
                want = ERR_OR_GO; labels.insert("wrong token"); return;
            }
            want = st == SEPWAIT ? GO : ERR_OR_GO; return;
        }
        if (tok && resp) {
            labels.insert("separate response");
            if (crit) { want = ERR; if (cur.type == 0) expect(1, 3, cur.mid); else expect(0, 0, 0); return; }
            want = OK_; wantresp = cur;
            if (cur.type == 0) expect(1, 2, cur.mid); else expect(0, 0, 0);
            return;
        }
        labels.insert("unrelated");
        if (cur.type == 0) expect(1, 3, cur.mid); else expect(0, 0, 0);
    }
    void overdue() {
        if (over || !have) return;
        if (net::now > limit()) bad("C14", st == CONWAIT ? fmt("retransmission %u overdue at %.3f s", nret + 1, net::now / 1e9) : fmt("no time-out at %.3f s although waiting since %.3f s", net::now / 1e9, since / 1e9));
    }
    void start(const Step &s) {
        RMsg m = s.m; std::string b; curk = s.k; outs.clear();
        std::string bt = req.token;
        switch (s.tokmode) { case 0: bt[0] ^= 1; break; case 1: bt = bt.substr(0, bt.size() - 1); break; case 2: bt += "x"; break; case 3: bt = ""; break; case 4: bt[bt.size() - 1] ^= 0x80; break; }
        unsigned oid = (req.mid + 1 + s.arg % 65535) & 0xffff;
        switch (s.k) {
        case ACK_EMPTY: m = RMsg(); m.type = 2; m.mid = req.mid; break;
        case ACK_RESP: m.type = 2; m.mid = req.mid; m.token = req.token; break;
        case ACK_BADTOK: m.type = 2; m.mid = req.mid; m.token = bt; break;
        case ACK_OTHER: m.type = 2; m.mid = oid; if (s.sameid) m.token = req.token; else if (s.arg & 1) m = RMsg(), m.type = 2, m.mid = oid; else m.token = bt; break;
        case RST: m = RMsg(); m.type = 3; m.mid = req.mid; break;
        case RST_OTHER: m = RMsg(); m.type = 3; m.mid = oid; break;
        case CON_RESP: case NON_RESP: m.type = s.k == NON_RESP; m.mid = s.sameid ? req.mid : oid; m.token = req.token; break;
        case CON_BADTOK: case NON_BADTOK: m.type = s.k == NON_BADTOK; m.mid = s.sameid ? req.mid : oid; m.token = bt; break;
        case REQ_TOK: m.type = s.arg % 3; m.cls = 0; m.det = 1 + s.arg % 31; m.mid = s.sameid || m.type == 2 ? req.mid : oid; m.token = req.token; break;
        case PING: m = RMsg(); m.mid = s.sameid ? req.mid : oid; break;
        case OLD: if (old.empty()) return; b = old[s.arg % old.size()]; break;
        case RAW: b = s.raw; if (b == "+") { m.type = s.arg % 2; m.token = req.token; m.mid = oid; m.payload.assign(1200 + s.arg % 300, 'z'); b = ref_encode(m); } break;
        case SPURIOUS: net::fault_at[1] = 0; net::fault_errno[1] = EAGAIN; b = "x"; break;
        }
        if (b.empty() && s.k != RAW) b = ref_encode(m);
        RRes r = ref_decode(b, cur);
        cls = r != R_OK || b.size() > COAP_MSG_MAX_BUF_LEN ? 3 : (cur.payload.size() > 1024 || std::any_of(cur.opts.begin(), cur.opts.end(), [](const ROpt &o) { return o.val.size() > 1024; })) ? 4 : 1;
        curb = b; nsteps++;
        if (c->want) c->descf("  [%.3f s] server: %s %s\n", net::now / 1e9, kn[s.k], cls == 3 ? hex(b, 24).c_str() : ref_str(cur).c_str());
        if (s.k != SPURIOUS && s.k != OLD && old.size() < 20) old.push_back(b);
        draining = true;
        net::deliver(srv, me, b);
    }
    bool idle() {
        if (draining) {
            finish(false);
            if (!stop && want != GO && want != ERR_OR_GO) bad("C13", fmt("the exchange continues although %s decides it", ref_str(cur).c_str()));
        }
        if (!stop) overdue();
        if (stop) return false;
        if (!inject && pos < x->steps.size()) { next_t = net::now + x->steps[pos].dt; inject = true; }
        int64_t t = net::next_event();
        met = false;
        if (inject && x->steps[pos].meet && t != net::NEVER && st == CONWAIT && nret < 4 && x->steps[pos].k != SPURIOUS) {
            net::advance_to(t); overdue(); if (stop) return false;
            inject = false; met = true; labels.insert("datagram at the moment the timer expires");
            start(x->steps[pos++]); return true;
        }
        if (!inject || t <= next_t) {
            if (t == net::NEVER) { bad("C14", "the client waits without a time limit"); return false; }
            net::advance_to(t); return true;
        }
        net::advance_to(next_t); overdue(); if (stop) return false;
        inject = false;
        start(x->steps[pos++]);
        return true;
    }
    void run_exchange(Exch &e) {
        x = &e; pos = 0; draining = inject = false; have = false; over = false; want = GO; outs.clear();
        coap_msg_t rq, rs; coap_msg_create(&rq); coap_msg_create(&rs);
        if (e.refuse) {                 // not a request: refused, and nothing is sent
            RMsg r = e.req; if (to_msg(r, &rq)) { coap_msg_destroy(&rq); coap_msg_destroy(&rs); return; }
            coap_msg_set_type(&rq, e.refuse & 3); coap_msg_set_code(&rq, e.refuse >> 2 & 7, e.req.det);
            over = true; have = true; st = NONWAIT; draining = false; int ret = 0;
            if (c->want) c->descf("exchange of a message that is not a request: type %u class %u\n", e.refuse & 3, e.refuse >> 2 & 7);
            bool back = net::run([&] { ret = coap_client_exchange(&cl, &rq, &rs); });
            if (!stop && !back) bad("C13", "the exchange of a message that is not a request waits");
            if (!stop && ret >= 0) bad("C13", fmt("the exchange of a message that is not a request returned %d", ret));
            if (stop && v.size() && v[0].tag == "C14") v[0].tag = "C13";
            labels.insert("not a request");
            coap_msg_destroy(&rq); coap_msg_destroy(&rs); return;
        }
        RMsg given = e.req; if (to_msg(given, &rq)) { coap_msg_destroy(&rq); coap_msg_destroy(&rs); return; }
        if (c->want) c->descf("exchange %s\n", ref_str(given).c_str());
        int ret = 0;
        bool returned = net::run([&] { ret = coap_client_exchange(&cl, &rq, &rs); });
        over = true;
        if (returned && !stop) {
            if (draining) finish(true);
            else if (have) want = TIMEOUT; else want = ERR;
            if (c->want) c->descf("  [%.3f s] returned %d\n", net::now / 1e9, ret);
            if (!stop) switch (want) {
            case OK_:
                if (ret != 0) bad("C13", fmt("the exchange failed (%d) on the valid response %s", ret, ref_str(cur).c_str()));
                else { std::string d = diff(wantresp, from_msg(&rs)); if (!d.empty()) bad("C13", "the response returned differs from the one received: " + d); }
                break;
            case GO: bad("C13", fmt("the exchange ended (%d) on %s, which does not belong to it", ret, ref_str(cur).c_str())); break;
            case ERR: if (ret >= 0) bad("C13", "the exchange succeeded with " + ref_str(cur)); break;
            case ERR_OR_GO: if (ret >= 0) bad("C13", "the exchange succeeded with " + (cls == 3 ? hex(curb) : ref_str(cur))); break;
            case RESET: if (ret != -ECONNRESET) bad("C13", fmt("reset was reported as %d", ret)); break;
            case TIMEOUT: {
                labels.insert("timeout");
                if (ret != -ETIMEDOUT) { bad("C14", fmt("the exchange returned %d without a datagram", ret)); break; }
                int64_t lo = st == CONWAIT ? sent + 2 * T - 2 * MS : since + 30 * SEC - 2 * MS;
                if (st == CONWAIT && nret < 4) bad("C14", fmt("gave up after %u retransmissions", nret));
                else if (net::now < lo || net::now > limit()) bad("C14", fmt("gave up at %.3f s (expected %.3f to %.3f s)", net::now / 1e9, lo / 1e9, limit() / 1e9));
                break;
            }
            }
        } else if (net::livelock) bad("C14", "the client loops without making progress");
        coap_msg_destroy(&rq); coap_msg_destroy(&rs);
    }
};
void run_client(Gen &g, Ctx &c, const char *tag, bool timing) {
    std::string t0 = tag;
    uint64_t seed = g.seed64();
    net::reset(seed); net::rand_bias = g.chance(1, 6) ? 2 : 0;
    pool::begin(pool::GUARD, pool::Cfg{{512, 512, 8}, {256, 1024, 8192}});
    static CSim s; s = CSim(); s.c = &c;
    std::vector<Exch> xs; for (unsigned i = 0, n = 1 + g.uni(5); i < n; i++) xs.push_back(gen_exch(g, timing));
    net::on_send = [](const net::Out &o) { s.onsend(o); };
    net::on_idle = [] { return s.idle(); };
    if (t0 == "C13" && g.chance(1, 60)) {
        int k = g.uni(3), r = coap_client_create(k == 0 ? nullptr : &s.cl, k == 1 ? nullptr : net::HOST, k == 2 ? nullptr : "5683");
        if (r >= 0) c.fail("client creation without %s returned %d", k == 0 ? "a client" : k == 1 ? "a host" : "a port", r);
    }
    if (coap_client_create(&s.cl, net::HOST, "5683")) c.fail("client creation failed");
    for (auto &x : xs) { s.run_exchange(x); if (s.stop) break; }
    net::on_idle = nullptr;
    coap_client_destroy(&s.cl);
    std::string l = pool::end();
    for (auto &q : s.labels) c.label(q.c_str());
    std::string t = tag;
    if (t == "C13" ? s.nsteps > 0 : s.labels.count("retransmission") || s.labels.count("timeout")) c.nontrivial();
    if (!s.v.empty()) { if (s.v[0].tag == t) c.fail("%s", s.v[0].msg.c_str()); c.label("foreign"); return; }
    if (t == "C07") {
        if (!l.empty()) c.fail("after destroying the client and its messages: %s", l.c_str());
        if (net::open_fds()) c.fail("%ld descriptors still open", net::open_fds());
        if (!net::misuse.empty()) c.fail("%s", net::misuse.c_str());
    }
}
void c13(Gen &g, Ctx &c) { run_client(g, c, "C13", false); }
void c14(Gen &g, Ctx &c) { run_client(g, c, "C14", true); }

// faults: every exchange ends, nothing leaks
void c07x(Gen &g, Ctx &c) {
    uint64_t seed = g.seed64();
    net::reset(seed);
    pool::begin(pool::GUARD, pool::Cfg{{512, 512, 8}, {256, 1024, 8192}});
    coap_client_t cl;
    if (g.chance(1, 4)) { int k = g.oneof({2, 4, 5, 6, 7, 8}); net::fault_at[k] = g.uni(2); }
    int r = coap_client_create(&cl, net::HOST, "5683");
    bool bad = net::fault_hit[2] || net::fault_hit[4] || net::fault_hit[5] || net::fault_hit[6] || net::fault_hit[7] || net::fault_hit[8];
    if (r == 0 && bad) c.fail("a system call failed but client creation reported success");
    if (r == 0) {
        bool block = g.chance(2, 3);
        static RMsg last; static net::Addr from; last = RMsg();
        unsigned bsz = 16u << g.uni(3), total = 1 + g.uni(5); unsigned drop = g.uni(8), behave = g.uni(4);
        net::on_send = [&](const net::Out &o) {
            RMsg q; if (ref_decode(o.data, q) != R_OK || q.type >= 2) return;
            if (drop && (net::rand_calls + o.t / MS) % 8 < drop && o.t > 0 && behave == 0) return;
            RMsg p; p.type = q.type == 0 ? 2 : 1; p.mid = q.mid; p.token = q.token; p.cls = 2; p.det = q.det == 1 ? 5 : 4;
            RBlock b1, b2;
            if (ref_block(q, 27, b1) == 0) { p.opts.push_back({27, ref_block_val(b1.num, b1.more, szx_of(b1.size), 3)}); if (b1.more) p.det = 31; else { p.payload = "done"; p.opts.insert(p.opts.begin(), {23, ref_block_val(0, 0, 0, 3)}); sort_opts(p); } }
            else if (ref_block(q, 23, b2) == 0) { bool more = b2.num + 1 < total; p.opts.push_back({23, ref_block_val(b2.num, more, szx_of(b2.size), 3)}); p.payload.assign(more ? b2.size : 5, 'p'); if (more) p.det = 31; }
            else p.payload = "resp";
            if (behave == 1 && q.type == 0) { RMsg a; a.type = 2; a.mid = q.mid; net::deliver(o.to, o.from, ref_encode(a)); p.type = 0; p.mid = (q.mid + 77) & 0xffff; }
            net::deliver(o.to, o.from, ref_encode(p));
        };
        coap_msg_t rq, rs; coap_msg_create(&rq); coap_msg_create(&rs);
        RMsg m; m.type = g.chance(1, 4); m.det = 1 + g.uni(3); m.opts = {{11, "abc"}, {11, "de"}, {12, "\1"}};
        if (to_msg(m, &rq) == 0) {
            if (g.chance(2, 3)) pool::fail_at = pool::allocs() + g.below(60);
            if (g.chance(1, 3)) { int k = g.uni(2); net::fault_at[k] = g.uni(6); net::fault_errno[k] = k == 0 ? ENETUNREACH : ECONNREFUSED; }
            static char body[4096]; memset(body, 'b', sizeof body); ssize_t ret = 0;
            size_t blen = 1 + g.below(400);
            bool done = net::run([&] { ret = block ? coap_client_exchange_blockwise(&cl, &rq, &rs, bsz, bsz, body, blen, 0) : coap_client_exchange(&cl, &rq, &rs); });
            if (pool::fail_at >= 0 && pool::allocs() > pool::fail_at) { c.nontrivial(); c.label(block ? "failed allocation in a blockwise transfer" : "failed allocation in an exchange"); }
            if (!done) c.fail("the exchange does not end");
            if (ret >= 0 && block) {            // success is only reported for the whole body
                size_t want = m.det == 1 ? (total - 1) * bsz + 5 : 4;
                if ((size_t)ret != want || memcmp(body, m.det == 1 ? std::string(want, 'p').data() : "done", want)) c.fail("a block-wise transfer returned %zd, expected %zu bytes or an error (failed allocation %ld)", ret, want, pool::fail_at);
            } else if (ret >= 0) {
                RMsg got = from_msg(&rs);
                if (got.cls != 2 || got.payload != "resp") c.fail("an exchange succeeded with %s (failed allocation %ld)", ref_str(got).c_str(), pool::fail_at);
            }
        }
        coap_msg_destroy(&rq); coap_msg_destroy(&rs);
        coap_client_destroy(&cl);
        net::on_send = nullptr;
    }
    std::string l = pool::end();
    if (!l.empty()) c.fail("after destroying the client and its messages: %s", l.c_str());
    if (net::gai_live) c.fail("an address list was not released");
    if (net::open_fds()) c.fail("%ld descriptors open after client creation returned %d", net::open_fds(), r);
    if (!net::misuse.empty()) c.fail("%s", net::misuse.c_str());
}
void c07y(Gen &g, Ctx &c) { run_client(g, c, "C07", g.chance(1, 2)); }
}
PROPERTY("C13", "client-accept", "at least one datagram reached the client during an exchange", 1, c13);
PROPERTY("C14", "client-timing", "a retransmission or time-out happened", 1, c14);
PROPERTY("C07", "client-faults", "an allocation failed during an exchange", 1, c07x);
PROPERTY("C07", "client-resources", "an exchange was completed", 1, c07y);
