// The real client and the real server over a simulated network that loses, duplicates, delays and reorders datagrams.
#include "netsim.h"
#include <set>
#include <map>
#include <algorithm>
extern "C" {
#include "coap_client.h"
#include "coap_server.h"
}
using namespace pbt;
using net::MS; using net::SEC;

namespace {
struct E2E {
    Gen *g; Ctx *c;
    coap_server_t srv; coap_client_t cl;
    net::Addr sa;
    // network policy
    unsigned ploss = 0, pdup = 0, pdelay = 0; unsigned max_drops = 0; int64_t max_delay = 0;
    unsigned drops = 0, total_drops = 0, dups = 0;       // drops: since the exchange began
    bool reordered = false, idclash = false; std::vector<unsigned> order; std::set<unsigned> seen_ids;
    unsigned last_new_id = 70000; int max_index = -1; std::string last_req;
    bool server_ended = false; bool clean = true;        // clean: every exchange so far stayed within max_drops

    void on_send(const net::Out &o) {
        bool to_srv = o.to == sa;
        RMsg m; ref_decode(o.data, m);
        if (to_srv && m.type < 2 && !m.empty()) {
            if (std::find(order.begin(), order.end(), m.mid) == order.end()) order.push_back(m.mid);
            else if (order.back() != m.mid || o.data != last_req) idclash = true;   // two requests drew the same message ID
            last_req = o.data;
        }
        if (c->want) c->descf("  [%.3f s] %s %s", net::now / 1e9, to_srv ? "C>S" : "S>C", ref_str(m).c_str());
        unsigned copies = 1;
        if (ploss && drops < max_drops && g->chance(ploss, 16)) { copies = 0; drops++; total_drops++; }
        else if (pdup && g->chance(pdup, 16)) { copies = 2 + g->uni(2); dups++; }
        if (c->want) c->descf("%s\n", copies == 0 ? " (lost)" : copies > 1 ? " (duplicated)" : "");
        for (unsigned i = 0; i < copies; i++) {
            int64_t d = MS; if (pdelay && g->chance(pdelay, 16)) d = (1 + g->below(max_delay / MS)) * MS;
            if (i > 0 && pdelay && g->chance(1, 4)) d += 5 * SEC;
            net::Out p = o;
            net::at(net::now + d, [this, p, to_srv] {
                if (to_srv) { RMsg m; ref_decode(p.data, m); if (m.type < 2 && !m.empty()) { int k = (int)(std::find(order.begin(), order.end(), m.mid) - order.begin()); if (k < max_index) reordered = true; if (k > max_index) max_index = k; } }
                net::deliver(p.from, p.to, p.data);
            });
        }
    }
    void do_pump() {
        net::no_advance = true; auto pm = net::pump; 
        if (net::run([this] { coap_server_run(&srv); })) server_ended = true;
        net::no_advance = false;
    }
    void begin(Gen &gg, Ctx &cc, coap_server_trans_handler_t h) {
        g = &gg; c = &cc;
        net::reset(g->seed64());
        pool::begin(pool::GUARD, pool::Cfg{{4096, 4096, 64}, {256, 1024, 8192}});
        sa = net::addr(1, 5683);
        if (coap_server_create(&srv, h, net::HOST, "5683")) c->fail("server creation failed");
        coap_server_add_sep_resp_uri_path(&srv, "/sep"); coap_server_add_sep_resp_uri_path(&srv, "/sb");
        if (coap_client_create(&cl, net::HOST, "5683")) { coap_server_destroy(&srv); c->fail("client creation failed"); }
        net::on_send = [this](const net::Out &o) { on_send(o); };
        net::pump = [this] { do_pump(); };
        unsigned prof = g->weighted({2, 3, 3, 2});
        max_delay = 400 * MS;
        switch (prof) {
        case 0: c->label("reliable network"); break;
        case 1: ploss = 1 + g->uni(8); max_drops = 1 + g->uni(3); c->label("bounded loss"); break;
        case 2: ploss = g->uni(6); max_drops = 3; pdup = g->uni(6); pdelay = g->uni(10); c->label("bounded loss, duplication and delay"); break;
        case 3: ploss = 2 + g->uni(10); max_drops = 1000; pdup = g->uni(6); pdelay = g->uni(10); max_delay = 20 * SEC; clean = false; c->label("unbounded loss and delay"); break;
        }
    }
    std::string end() {
        net::on_send = nullptr; net::pump = nullptr; net::on_idle = nullptr; net::no_advance = false;
        coap_client_destroy(&cl); coap_server_destroy(&srv);
        std::string l = pool::end();
        if (server_ended) return "the server stopped serving";
        if (net::livelock) return "no progress";
        if (!l.empty()) return "after destroying client and server: " + l;
        if (!net::misuse.empty()) return net::misuse;
        return "";
    }
};
E2E *E;

// ---------------------------------------------------------------- plain exchanges
struct App { std::map<std::string, unsigned> runs; std::map<std::string, RMsg> resp; std::map<std::string, RMsg> want; std::string err; } A;
RMsg answer(const std::string &nonce) {
    RMsg r; uint64_t h = 1469598103934665603ull; for (unsigned char ch : nonce) h = (h ^ ch) * 1099511628211ull;
    r.cls = (unsigned[]){2, 2, 4, 5}[h % 4]; r.det = 1 + h / 4 % 6; r.opts = {{12, std::string(1, (char)(h >> 8))}};
    r.payload = "re:" + nonce + std::string((h >> 16) % 700, (char)(h >> 30));
    return r;
}
int app(coap_server_trans_t *, coap_msg_t *req, coap_msg_t *resp) {
    RMsg m = from_msg(req); std::string nonce = m.payload;
    A.runs[nonce]++;
    auto it = A.want.find(nonce);
    if (it == A.want.end()) { A.err = "the application received a request that nobody made: " + ref_str(m); return -EINVAL; }
    RMsg w = it->second; w.mid = m.mid; w.token = m.token;
    std::string d = diff(w, m); if (!d.empty()) A.err = "the application received a different request: " + d;
    RMsg r = answer(nonce);
    coap_msg_set_code(resp, r.cls, r.det);
    for (auto &o : r.opts) coap_msg_add_op(resp, o.num, o.val.size(), o.val.data());
    return coap_msg_set_payload(resp, (char *)r.payload.data(), r.payload.size());
}
void c15(Gen &g, Ctx &c) {
    static E2E e; e = E2E(); E = &e; A = App();
    e.begin(g, c, app);
    unsigned n = 1 + g.uni(6); std::string err; unsigned ok = 0;
    for (unsigned i = 0; i < n && err.empty(); i++) {
        RMsg q; q.type = g.chance(1, 4); q.det = 1 + g.uni(4); q.payload = fmt("n%u-%u", i, (unsigned)g.below(1000));
        bool sep = g.chance(1, 2);
        q.opts = {{11, sep ? "sep" : "p"}}; if (g.chance(1, 2)) q.opts.push_back({15, g.blob(g.below(30))});
        A.want[q.payload] = q;
        coap_msg_t rq, rs; coap_msg_create(&rq); coap_msg_create(&rs); to_msg(q, &rq);
        c.descf("exchange %s\n", ref_str(q).c_str());
        e.drops = 0; int ret = 0; unsigned idsb = e.order.size();
        bool done = net::run([&] { ret = coap_client_exchange(&e.cl, &rq, &rs); });
        c.descf("  returned %d\n", ret);
        RMsg got = from_msg(&rs);
        coap_msg_destroy(&rq); coap_msg_destroy(&rs);
        if (!done) { err = "the exchange does not end"; break; }
        if (e.server_ended) { err = "the server stopped serving"; break; }
        if (e.order.size() == idsb) e.idclash = true;
        if (e.idclash) break;
        if (!A.err.empty()) { err = A.err; break; }
        if (ret == 0) {
            ok++;
            RMsg w = answer(q.payload); w.type = got.type; w.mid = got.mid; w.token = got.token;
            std::string d = diff(w, got);
            if (!d.empty()) { err = "the response is not the one given to this request (expected vs received): " + d; break; }
            if (!A.runs[q.payload]) { err = "the exchange succeeded but the application never ran"; break; }
        }
        for (auto &r : A.runs) if (r.second > 1 && !e.reordered && e.clean) { err = fmt("request %s was executed %u times", r.first.c_str(), r.second); break; }
        bool must = e.clean && (q.type == 0 || (e.drops == 0)) && !e.reordered;
        if (must && ret != 0) err = fmt("the exchange failed (%d) although only %u datagrams were lost", ret, e.drops);
        if (g.chance(1, 4)) { int64_t t = net::now + g.below(40000) * MS; net::run([&] { while (net::next_event() <= t) { net::advance_to(net::next_event()); e.do_pump(); } net::advance_to(t); e.do_pump(); }); }
    }
    if (e.total_drops || e.dups) c.nontrivial();
    if (ok) c.label("completed exchange"); if (e.reordered) c.label("reordered requests");
    std::string l = e.end();
    if (!err.empty()) c.fail("%s", err.c_str());
    if (!l.empty() && l.find("buffer") == std::string::npos) c.fail("%s", l.c_str());
}

// ---------------------------------------------------------------- blockwise transfers
struct Blk { std::string content; unsigned s1, s2; std::vector<std::string> got; std::string reply; unsigned rcode; bool badcb; unsigned started; } B;
int block_rx(coap_server_trans_t *tr, coap_msg_t *req, coap_msg_t *resp) {
    B.got.push_back(std::string(coap_server_trans_get_body(tr), coap_server_trans_get_body_end(tr)));
    if (coap_server_trans_get_body_len(tr) < B.reply.size()) B.badcb = true; else memcpy(coap_server_trans_get_body(tr), B.reply.data(), B.reply.size());
    coap_server_trans_set_body_end(tr, B.reply.size());
    return coap_msg_set_code(resp, 2, B.rcode);
}
int bapp(coap_server_trans_t *tr, coap_msg_t *req, coap_msg_t *resp) {
    B.started++;
    Exact body(B.content);
    if (coap_msg_get_code_detail(req) == COAP_MSG_GET) return coap_server_trans_handle_blockwise(tr, req, resp, 0, B.s2, body.p(), B.content.size(), NULL);
    return coap_server_trans_handle_blockwise(tr, req, resp, B.s1, B.s2, NULL, 0, block_rx);
}
size_t gen_len(Gen &g, unsigned bs, size_t max) {
    size_t n = 0;
    switch (g.uni(4)) {
    case 0: n = bs * g.uni(9); break;
    case 1: { long v = (long)(bs * (1 + g.uni(8))) + (long)g.uni(3) - 1; n = v < 0 ? 0 : v; break; }
    case 2: n = g.below(600); break;
    case 3: n = g.below(max + 1); break;
    }
    return std::min(n, max);
}
// restricts very long transfers with tiny blocks
size_t cap(size_t n, unsigned bs) { return std::min<size_t>(n, (size_t)bs * 150); }

void c16(Gen &g, Ctx &c) {
    static E2E e; e = E2E(); E = &e; B = Blk();
    e.begin(g, c, bapp);
    std::string err; bool first = true;
    for (unsigned i = 0, n = 1 + g.uni(3); i < n && err.empty(); i++) {
        unsigned cs = 16u << g.uni(7); B.s2 = 16u << g.uni(7); unsigned bs = std::min(cs, B.s2);
        size_t L = cap(gen_len(g, bs, 8192), bs);
        B.content = g.blob(L); B.started = 0;
        size_t room = g.chance(1, 6) ? g.below(L + 1) : L + g.below(64);
        Exact buf(room, 0x5a);
        RMsg q; q.type = g.chance(1, 5); q.det = 1; q.opts = {{11, g.chance(1, 3) ? "sb" : "blk"}};
        coap_msg_t rq, rs; coap_msg_create(&rq); coap_msg_create(&rs); to_msg(q, &rq);
        c.descf("GET transfer: %zu bytes, client block %u, server block %u, room %zu, %s\n", L, cs, B.s2, room, ref_str(q).c_str());
        e.drops = 0; ssize_t ret = 0; e.max_drops = e.max_drops > 3 ? e.max_drops : e.max_drops;
        bool done = net::run([&] { ret = coap_client_exchange_blockwise(&e.cl, &rq, &rs, 0, cs, buf.p(), room, 0); });
        RMsg got = from_msg(&rs);
        coap_msg_destroy(&rq); coap_msg_destroy(&rs);
        c.descf("  returned %zd, %u datagrams lost\n", ret, e.drops);
        if (!done) { err = "the transfer does not end"; break; }
        if (e.idclash) break;
        bool must = e.clean && !e.reordered && (q.type == 0 || e.drops == 0) && first;
        if (L > bs) c.nontrivial();
        if (room < L) { if (ret > 0 && !(got.cls != 2)) { err = fmt("a transfer of %zu bytes into %zu bytes of room returned %zd", L, room, ret); } first = ret >= 0; c.label("too little room"); break; }
        if (ret > 0) {
            if ((size_t)ret != L || buf.str(L) != B.content) { err = fmt("transfer of %zu bytes returned %zd, content %s", L, ret, buf.str(std::min<size_t>(ret, room)) == B.content.substr(0, ret) ? "is a prefix" : "differs"); break; }
            c.label("completed transfer");
        } else if (ret == 0) { if (got.cls == 2 && L != 0) { err = fmt("transfer of %zu bytes returned 0 with a success code", L); break; } }
        for (size_t k = std::max<ssize_t>(ret, 0); k < room && ret >= 0 && got.cls == 2; k++) if ((unsigned char)buf.p()[k] != 0x5a) { err = fmt("byte %zu beyond the %zd bytes received was changed", k, ret); break; }
        if (must && (ret < 0 || (ret == 0 && L != 0))) { err = fmt("the transfer failed (%zd, %u.%02u) although only %u datagrams were lost", ret, got.cls, got.det, e.drops); break; }
        if (must && L == 0 && (got.cls != 2)) { err = fmt("the transfer of an empty body failed with %u.%02u", got.cls, got.det); break; }
        if (must && got.det != COAP_MSG_CONTENT) { err = fmt("the transfer ended with code %u.%02u", got.cls, got.det); break; }
        first = first && (ret > 0 || L == 0);
    }
    std::string l = e.end();
    if (!err.empty()) c.fail("%s", err.c_str());
    if (!l.empty() && l.find("buffer") == std::string::npos) c.fail("%s", l.c_str());
}
void c17(Gen &g, Ctx &c) {
    static E2E e; e = E2E(); E = &e; B = Blk();
    e.begin(g, c, bapp);
    std::string err; bool first = true;
    for (unsigned i = 0, n = 1 + g.uni(3); i < n && err.empty(); i++) {
        unsigned c1 = 16u << g.uni(7), c2 = 16u << g.uni(7); B.s1 = 16u << g.uni(7); B.s2 = 16u << g.uni(7);
        unsigned b1 = std::min(c1, B.s1), b2 = std::min(c2, B.s2);
        size_t L = cap(gen_len(g, b1, g.chance(1, 20) ? 9000 : 4000), b1); if (!L) L = 1;
        std::string body = g.blob(L);
        size_t R = g.chance(1, 3) ? 0 : cap(std::min<size_t>(gen_len(g, b2, 3000), g.chance(1, 6) ? 3000 : L), b2);
        B.reply = g.blob(R); B.rcode = g.oneof({COAP_MSG_CREATED, COAP_MSG_CHANGED}); B.got.clear(); B.badcb = false; B.started = 0;
        Exact buf(body);
        RMsg q; q.type = g.chance(1, 5); q.det = g.oneof({2, 3}); q.opts = {{11, g.chance(1, 3) ? "sb" : "blk"}};
        coap_msg_t rq, rs; coap_msg_create(&rq); coap_msg_create(&rs); to_msg(q, &rq);
        c.descf("%s transfer: %zu bytes, reply %zu bytes, client blocks %u %u, server blocks %u %u, %s\n", q.det == 3 ? "PUT" : "POST", L, R, c1, c2, B.s1, B.s2, ref_str(q).c_str());
        e.drops = 0; ssize_t ret = 0;
        bool done = net::run([&] { ret = coap_client_exchange_blockwise(&e.cl, &rq, &rs, c1, c2, buf.p(), L, 0); });
        RMsg got = from_msg(&rs);
        coap_msg_destroy(&rq); coap_msg_destroy(&rs);
        c.descf("  returned %zd (%u.%02u), callback ran %zu times, %u datagrams lost\n", ret, got.cls, got.det, B.got.size(), e.drops);
        if (!done) { err = "the transfer does not end"; break; }
        if (e.idclash) break;
        if (L > b1) c.nontrivial();
        // (a delayed duplicate of an earlier transfer's request is a new request to a server that only remembers the last one)
        for (auto &s : B.got) if (s != body && !e.reordered) { err = fmt("the application received a body of %zu bytes that differs from the %zu bytes sent", s.size(), L); break; }
        if (!err.empty()) break;
        if (B.got.size() > 1 && e.clean && !e.reordered) { err = fmt("the application received the body %zu times", B.got.size()); break; }
        bool must = e.clean && !e.reordered && (q.type == 0 || e.drops == 0) && first;
        if (L > 8192) { if (must && (ret != 0 || got.cls != 4 || got.det != COAP_MSG_REQ_ENT_TOO_LARGE || !B.got.empty())) { err = fmt("a body of %zu bytes exceeds the server's buffer, but the transfer returned %zd %u.%02u", L, ret, got.cls, got.det); } c.label("too large"); break; }
        bool success = ret > 0 || (ret == 0 && got.cls == 2 && got.det != COAP_MSG_CONTINUE);
        if (success && B.got.empty()) { err = "the transfer succeeded but the application did not receive the body"; break; }
        if (ret > 0 && ((size_t)ret != R || buf.str(R) != B.reply)) { err = fmt("reply of %zu bytes, the client returned %zd bytes", R, ret); break; }
        if (success && ret == 0 && R != 0) { err = fmt("reply of %zu bytes was reported as empty", R); break; }
        if (R > L) { if (ret > 0) err = "the reply does not fit but was accepted"; c.label("reply too large"); break; }
        if (must && (ret < 0 || got.cls != 2 || got.det != B.rcode || (ret == 0) != (R == 0))) { err = fmt("the transfer failed (%zd, %u.%02u) although only %u datagrams were lost", ret, got.cls, got.det, e.drops); break; }
        if (success) c.label("completed transfer");
        first = first && success;
    }
    std::string l = e.end();
    if (!err.empty()) c.fail("%s", err.c_str());
    if (!l.empty() && l.find("buffer") == std::string::npos) c.fail("%s", l.c_str());
}
// ---------------------------------------------------------------- blockwise transfers while an allocation fails
void c07b(Gen &g, Ctx &c) {
    static E2E e; e = E2E(); E = &e; B = Blk();
    e.begin(g, c, bapp);
    e.ploss = e.pdup = e.pdelay = 0; e.clean = true;
    std::string err; bool hit = false, prev_ok = true, prev_probe = false; unsigned n = 1 + g.uni(3);
    for (unsigned i = 0; i <= n + 1 && err.empty(); i++) {
        bool probe = i >= n, put = g.chance(1, 2);      // the last transfer: nothing fails any more
        if (probe) { pool::fail_at = -1; net::run([&] { int64_t t = net::now + 400 * SEC; while (net::next_event() <= t) { net::advance_to(net::next_event()); e.do_pump(); } net::advance_to(t); e.do_pump(); }); }
        unsigned c1 = 16u << g.uni(7), c2 = 16u << g.uni(7); B.s1 = 16u << g.uni(7); B.s2 = 16u << g.uni(7);
        unsigned b1 = std::min(c1, B.s1), b2 = std::min(c2, B.s2);
        size_t L = put ? 1 + g.below(b1 * 8) : 0, R = g.below(b2 * 8); if (put && R > L) R = L;
        std::string body = g.blob(L); B.content = put ? "" : g.blob(R); B.reply = put ? g.blob(R) : "";
        std::string want = put ? B.reply : B.content;
        B.rcode = COAP_MSG_CHANGED; B.got.clear(); B.badcb = false; B.started = 0;
        size_t room = put ? L : R + g.below(40);
        Exact buf(put ? body : std::string(room, 0x5a));
        RMsg q; q.type = g.chance(1, 5); q.det = put ? g.oneof({2, 3}) : 1; q.opts = {{11, g.chance(1, 3) ? "sb" : "blk"}};
        coap_msg_t rq, rs; coap_msg_create(&rq); coap_msg_create(&rs); to_msg(q, &rq);
        long before = pool::allocs();
        if (!probe) pool::fail_at = before + g.below(g.chance(1, 2) ? 30 : 200);
        c.descf("%s: body of %zu bytes, reply of %zu bytes, client blocks %u %u, server blocks %u %u, allocation %ld fails, %s\n", put ? "PUT/POST" : "GET", L, R, c1, c2, B.s1, B.s2, probe ? -1 : pool::fail_at - before, ref_str(q).c_str());
        ssize_t ret = 0;
        bool done = net::run([&] { ret = coap_client_exchange_blockwise(&e.cl, &rq, &rs, put ? c1 : 0, c2, buf.p(), room, 0); });
        bool failed = !probe && pool::allocs() > pool::fail_at; hit = hit || failed;
        pool::fail_at = -1;
        RMsg got = from_msg(&rs);
        coap_msg_destroy(&rq); coap_msg_destroy(&rs);
        c.descf("  returned %zd (%u.%02u), callback ran %zu times\n", ret, got.cls, got.det, B.got.size());
        if (!done) { err = "the transfer does not end"; break; }
        if (e.server_ended) break;
        if (e.idclash) break;
        for (auto &s : B.got) if (s != body) { err = fmt("the application received a body of %zu bytes that differs from the %zu bytes sent", s.size(), L); break; }
        bool success = ret > 0 || (ret == 0 && got.cls == 2 && got.det != COAP_MSG_CONTINUE);
        if (success && put && B.got.empty()) err = "the transfer succeeded but the application did not receive the body";
        if (success && ((size_t)ret != want.size() || buf.str(want.size()) != want)) err = fmt("%zu bytes were sent, the client reports success and %zd bytes%s", want.size(), ret, (size_t)ret <= room && buf.str(ret) == want.substr(0, ret) ? ", a part of them" : "");
        // (a server that still has half a body of an abandoned transfer rejects the first request of another one, and is ready afterwards)
        if (probe && !success && !e.reordered && prev_probe) err = fmt("a later transfer fails (%zd, %u.%02u)", ret, got.cls, got.det);
        if (!failed && !success && prev_ok && !e.reordered && !probe) err = fmt("a transfer without failures fails (%zd, %u.%02u)", ret, got.cls, got.det);
        if (success) c.label(failed ? "transfer completed in spite of the failure" : "completed transfer"); else c.label("transfer failed");
        prev_ok = success; prev_probe = probe;
    }
    if (hit) c.nontrivial();
    std::string l = e.end();
    if (!err.empty()) c.fail("%s", err.c_str());
    if (!l.empty()) c.fail("%s", l.c_str());
}
// ---------------------------------------------------------------- tokens and message IDs
// over n uniformly random values of the given width: no bit may stand still, and repetitions must be as rare as chance makes them
std::string fresh(const char *what, const std::vector<std::string> &v, unsigned allow) {
    if (v.size() < 64) return "";
    std::string all0 = v[0], all1 = v[0];
    for (auto &x : v) {
        if (x.size() != v[0].size()) return fmt("%s of different lengths", what);
        for (size_t i = 0; i < x.size(); i++) { all0[i] |= x[i]; all1[i] &= x[i]; }
    }
    for (size_t i = 0; i < all0.size(); i++) if ((unsigned char)all0[i] != 0xff || all1[i]) return fmt("byte %zu of the %s hardly varies over %zu of them (bits that were ever set %02x, bits that were always set %02x)", i, what, v.size(), (unsigned char)all0[i], (unsigned char)all1[i]);
    std::set<std::string> d(v.begin(), v.end());
    if (d.size() + allow < v.size()) return fmt("only %zu different %s among %zu", d.size(), what, v.size());
    return "";
}
std::string mid2(unsigned m) { return std::string(1, (char)(m >> 8)) + (char)m; }
struct Ids { std::vector<std::string> tok, qid, sid; std::set<std::string> seen, sseen; } I;
int idapp(coap_server_trans_t *, coap_msg_t *, coap_msg_t *resp) { return coap_msg_set_code(resp, 2, 5); }
void c32(Gen &g, Ctx &c) {
    static E2E e; e = E2E(); E = &e; I = Ids();
    uint64_t seed = g.seed64();
    net::reset(seed);
    std::string err;
    { // random strings fill exactly the space given
        size_t n = 1 + g.uni(16); std::vector<std::string> v;
        for (unsigned i = 0; i < 80; i++) { Exact b(std::string(n, (char)0xa5)); coap_msg_gen_rand_str(b.p(), n); v.push_back(b.str(n)); }
        err = fresh("random strings", v, n == 1 ? 60 : n == 2 ? 8 : 2);
        char z = 'z'; coap_msg_gen_rand_str(&z, 0); if (z != 'z') err = "a random string of length 0 was written";
    }
    bool wrap = g.chance(1, 2);
    pool::begin(pool::GUARD, pool::Cfg{{4096, 4096, 64}, {256, 1024, 8192}});
    std::vector<std::string> first;
    if (g.chance(1, 3)) for (unsigned i = 0; i < 64; i++) { if (coap_server_create(&e.srv, idapp, net::HOST, "5683")) { err = "server creation failed"; break; } unsigned m = coap_server_get_next_msg_id(&e.srv); coap_server_destroy(&e.srv); if (m > 65535) err = fmt("message ID %u", m); first.push_back(mid2(m)); }
    e.g = &g; e.c = &c; e.sa = net::addr(1, 5683);
    if (wrap) net::rand_fixed = 255; 
    if (coap_server_create(&e.srv, idapp, net::HOST, "5683")) { pool::end(); c.fail("server creation failed"); }
    net::rand_fixed = -1;
    coap_server_add_sep_resp_uri_path(&e.srv, "/sep");
    if (coap_client_create(&e.cl, net::HOST, "5683")) { coap_server_destroy(&e.srv); pool::end(); c.fail("client creation failed"); }
    net::pump = [] { E->do_pump(); };
    net::on_send = [](const net::Out &o) {
        bool to_srv = o.to == E->sa; RMsg m; ref_decode(o.data, m);
        if (!m.empty() && m.type < 2) { if (to_srv) { I.qid.push_back(mid2(m.mid)); I.tok.push_back(m.token); } else if (I.sseen.insert(o.data).second) I.sid.push_back(mid2(m.mid)); }       // the same datagram again is a retransmission
        net::at(net::now + MS, [o] { net::deliver(o.from, o.to, o.data); });
    };
    unsigned n = 1 + g.uni(160), fails = 0, made = 0;
    for (unsigned i = 0; i < n && err.empty(); i++) {
        unsigned kind = g.uni(3);
        coap_msg_t rq, rs; coap_msg_create(&rq); coap_msg_create(&rs);
        coap_msg_set_type(&rq, kind == 0 ? COAP_MSG_NON : COAP_MSG_CON); coap_msg_set_code(&rq, 0, 1 + g.uni(4));
        if (g.chance(1, 3)) { char old[8]; memset(old, 'o', sizeof old); coap_msg_set_token(&rq, old, 1 + g.uni(8)); coap_msg_set_msg_id(&rq, 77); }
        coap_msg_add_op(&rq, 11, kind == 2 ? 3 : 1, kind == 2 ? "sep" : "p");
        int ret = 0; size_t before = I.qid.size();
        bool done = net::run([&] { ret = coap_client_exchange(&e.cl, &rq, &rs); });
        RMsg q = from_msg(&rq);
        coap_msg_destroy(&rq); coap_msg_destroy(&rs);
        if (!done || e.server_ended) { err = "an exchange does not end"; break; }
        if (ret == 0) made++; else fails++;
        for (size_t k = before + 1; k < I.qid.size(); k++) if (I.qid[k] != I.qid[before] || I.tok[k] != I.tok[before]) err = "a retransmission carries another message ID or token";
        if (I.qid.size() > before) { I.qid.resize(before + 1); I.tok.resize(before + 1); if (mid2(q.mid) != I.qid[before] || q.token != I.tok[before]) err = "the request structure does not show the message ID and token that were sent"; }
        if (fails > 8) err = fmt("%u of %u exchanges over a perfect network failed (%d)", fails, i + 1, ret);
    }
    c.descf("%u exchanges, %zu responses with IDs of the server, %s\n", n, I.sid.size(), wrap ? "server starts at the last message ID" : "random start");
    if (err.empty()) err = fresh("tokens", I.tok, 2);
    if (err.empty()) err = fresh("message IDs of requests", I.qid, 10);
    if (err.empty()) err = fresh("first message IDs of servers", first, 8);
    bool ends = false;      // the range ended somewhere in the middle, and what follows may overlap by chance
    for (size_t i = wrap ? 2 : 0; i < I.sid.size(); i++) if ((unsigned char)I.sid[i][0] == 0xff) ends = true;
    if (err.empty() && !ends) { std::set<std::string> d(I.sid.begin(), I.sid.end()); if (d.size() + 4 < I.sid.size()) err = fmt("only %zu different message IDs among %zu messages of the server", d.size(), I.sid.size()); }
    if (n >= 64) c.nontrivial(); if (wrap) c.label("message ID of the server wraps"); if (!first.empty()) c.label("64 servers created");
    std::string l = e.end();
    if (!err.empty()) c.fail("%s", err.c_str());
    if (!l.empty()) c.fail("%s", l.c_str());
}
}
PROPERTY("C15", "e2e-exchange", "a datagram was lost or duplicated", 1, c15);
PROPERTY("C16", "e2e-blockwise-get", "the body needs more than one block", 1, c16);
PROPERTY("C17", "e2e-blockwise-put-post", "the body needs more than one block", 1, c17);
PROPERTY("C07", "blockwise-faults", "an allocation failed during a transfer", 1, c07b);
PROPERTY("C32", "fresh-ids", "64 or more exchanges", 1, c32);
