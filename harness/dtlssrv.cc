// C29: the DTLS server serves only authenticated sessions, and only their authentic records.
// Built with and without COAP_CLIENT_AUTH.
#include "dtls.h"
#include <map>
#include <set>
extern "C" {
#include "coap_server.h"
#include "coap_log.h"
}
using namespace pbt;
using net::MS; using net::SEC;
#ifdef COAP_CLIENT_AUTH
static const bool AUTH = true;
#else
static const bool AUTH = false;
#endif
namespace {
struct Client {
    net::Addr a; pki::Spec sp; std::shared_ptr<pki::Cert> cert; bool has_cert = true;
    std::unique_ptr<tls::Peer> p;
    bool trusted = false, gone = false, unsure = false; unsigned loss = 0, lost = 0, gone_after = 99, sent_n = 0; uint16_t mid = 1; unsigned serial = 0;
    bool last_flight = false;            // the server has begun to send its last flight
    std::vector<std::string> records;    // what the client has sent after the handshake
    std::string last_req; int64_t last_at = -1000 * SEC; unsigned last_type = 0; uint16_t last_mid = 0; std::string last_resp;
};
struct World {
    Gen &g; Ctx &c; coap_server_t srv; net::Addr me;
    std::vector<Client> cl; std::vector<RMsg> calls; std::vector<std::string> wire, secrets;
    std::function<bool()> script;
    static World *self;
    static int handle(coap_server_trans_t *, coap_msg_t *req, coap_msg_t *resp) {
        RMsg m = from_msg(req); self->calls.push_back(m);
        coap_msg_set_code(resp, 2, 5);
        std::string p = "re:" + m.payload;
        return coap_msg_set_payload(resp, (char *)p.data(), p.size());
    }
};
World *World::self;
}
static void c29(Gen &g, Ctx &c) {
    pki::init();
    uint64_t nseed = g.seed64(); net::reset(nseed); tls::reset(); pool::begin(pool::GUARD, pool::app); heap::reset();
    coap_log_set_level(getenv("VF_LOG") ? COAP_LOG_DEBUG : (coap_log_level_t)-1);
    World w{g, c}; World::self = &w; w.me = net::addr(1, 5684);
    unsigned anchors = 1 + g.weighted({8, 1, 1});
    bool crl = g.chance(1, 3); unsigned crl_ca = g.chance(4, 5) ? 1 : 2; std::vector<unsigned> revoked;
    if (crl) { unsigned n = g.uni(3); for (unsigned i = 0; i < n; i++) revoked.push_back(100 + g.uni(4)); if (revoked.empty()) revoked.push_back(98); }
    pki::Spec ssp; ssp.cn = "server"; ssp.key = 6; auto scert = pki::make(ssp);
    std::string trust; if (anchors & 1) trust += pki::ca_pem(1); if (anchors & 2) trust += pki::ca_pem(2);
    std::string fkey = pki::file(scert->key_pem), fcert = pki::file(scert->pem), ftrust = pki::file(trust), fcrl = crl ? pki::file(pki::crl_pem(crl_ca, revoked)) : "";
    bool badfile = false;
    if (g.chance(1, 20)) {
        badfile = true;
        switch (g.uni(5)) {
        case 0: fkey = "/nonexistent/key"; break;
        case 1: fcert = pki::file("nonsense"); break;
        case 2: ftrust = g.chance(1, 2) ? "/nonexistent/trust" : pki::file("nonsense"); break;
        case 3: crl = true; fcrl = pki::file("nonsense"); break;
        case 4: { pki::Spec o = ssp; o.key = 7; fkey = pki::file(pki::make(o)->key_pem); break; }
        }
    }
    bool inject = g.chance(1, 15);
    if (inject) tls::fail_at = g.below(7);
    memset(&w.srv, 0x5a, sizeof w.srv);
    int r = coap_server_create(&w.srv, World::handle, net::HOST, "5684", fkey.c_str(), fcert.c_str(), ftrust.c_str(), crl ? fcrl.c_str() : g.chance(1, 2) ? nullptr : "");
    bool f = tls::failed; tls::fail_at = -1; tls::failed = false;
    c.descf("anchors=%u%s%s", anchors, crl ? " crl" : "", badfile ? " bad file" : "");
    if (r > 0) c.fail("coap_server_create returned %d", r);
    if (r == 0 && (badfile || f)) c.fail("the server was created %s", badfile ? "with an unusable file" : "though the library failed");
    if (r < 0 && !badfile && !f) c.fail("the server was not created: %d", r);
    auto final = [&] {
        if (net::open_fds()) c.fail("%ld descriptors left open", net::open_fds());
        if (!net::misuse.empty()) c.fail("%s", net::misuse.c_str());
        if (!tls::left().empty()) c.fail("not released: %s", tls::left().c_str());
        if (heap::live) c.fail("%ld heap blocks leaked", heap::live);
        std::string e = pool::end(); if (!e.empty()) c.fail("%s", e.c_str());
        pki::reset();
    };
    if (r < 0) { c.label(badfile ? "bad file" : "library failure"); final(); return; }
    // the clients
    unsigned n = 1 + g.uni(4);
    w.cl.resize(n);
    auto eps = net::endpoints(nseed >> 3, n);
    for (unsigned i = 0; i < n; i++) {
        Client &k = w.cl[i]; k.a = eps[i];
        k.sp.key = g.uni(4); k.sp.serial = 100 + g.uni(4); k.sp.cn = "client";
        if (AUTH && g.chance(1, 2)) {
            k.has_cert = g.chance(5, 6);
            k.sp.issuer = (pki::Issuer)g.weighted({6, 2, 3, 1, 1, 1, 1, 1});
            switch (g.weighted({4, 1, 1})) {
            case 1: k.sp.from = -2000000; k.sp.to = -(int64_t)g.oneof<int64_t>({1000, 86400}); break;
            case 2: k.sp.from = g.oneof<int64_t>({86400, 200000}); k.sp.to = 2000000; break;
            }
        } else if (!AUTH) k.has_cert = g.chance(1, 2);
        bool rev = false; for (unsigned s : revoked) if (crl && s == k.sp.serial && (k.sp.issuer == pki::CA1 ? crl_ca == 1 : k.sp.issuer == pki::CA2 ? crl_ca == 2 : false)) rev = true;
        k.trusted = !AUTH || (k.has_cert && pki::chain_ok(k.sp, anchors) && pki::time_ok(k.sp, 0) && !rev);
        if (k.has_cert) k.cert = pki::make(k.sp);
    }
    // routing
    auto to_server = [&](Client &k, const std::string &d) { net::deliver(k.a, w.me, d); };
    bool capture = false; std::string captured;
    auto connect = [&](Client &k) {
        k.p.reset(new tls::Peer); k.records.clear(); k.sent_n = 0; k.lost = 0; k.last_flight = false; k.gone = false; k.last_resp.clear();
        Client *kp = &k;
        k.p->out = [&, kp](const std::string &d) {
            w.wire.push_back(d);
            if (capture) { captured = d; return; }
            if (kp->p->st == tls::Peer::HANDSHAKE) {
                if (++kp->sent_n > kp->gone_after) { kp->gone = true; return; }
                if (kp->lost < kp->loss && !kp->last_flight && g.chance(1, 4)) { kp->lost++; return; }
            } else kp->records.push_back(d);
            to_server(*kp, d);
        };
        k.p->start(false, false, k.has_cert ? k.cert : nullptr);
    };
    Client *side = nullptr; unsigned side_after = 0; bool side_sent = false; RMsg side_req;      // a request of another client during a handshake
    net::on_send = [&](const net::Out &o) {
        w.wire.push_back(o.data);
        if (side && !side_sent && side_after-- == 0) { side_sent = true; side->last_resp.clear(); side->p->send(ref_encode(side_req)); }
        for (auto &k : w.cl) if (o.to == k.a) {
            if (!k.p) { return; }
            if (!o.data.empty() && o.data[0] == 20) k.last_flight = true;
            if (k.p->st == tls::Peer::HANDSHAKE && !k.last_flight && k.lost < k.loss && g.chance(1, 4)) { k.lost++; return; }
            k.p->in.push_back(o.data); return;
        }
    };
    net::pump = [&] { for (auto &k : w.cl) if (k.p && !k.gone) k.p->pump(); };
    // the script: one step whenever the server is back in its main loop with nothing to do
    unsigned steps = 2 + g.below(10), step = 0; int64_t step_start = 0; unsigned lingering = 0; bool finished = false, restored = false;
    Client *doing = nullptr; enum { NOTHING, CONNECT, REQUEST, ATTACK, CLOSE, AGAIN, MALFORMED } what = NOTHING;
    size_t calls0 = 0; RMsg asked; std::string label;
    auto usable = [&](Client &k) { return k.p && k.p->st == tls::Peer::UP && k.trusted && !k.unsure; };
    std::set<Client *> served;
    auto judge = [&] {
        if (what == CONNECT) {
            Client &k = *doing;
            if (side && side_sent) {
                if (w.calls.size() != calls0 + 1) c.fail("a request of an authenticated client during the handshake of another one reached the application %zu times", w.calls.size() - calls0);
                std::string d = diff(w.calls.back(), side_req); if (!d.empty()) c.fail("the request differs from what the client sent: %s", d.c_str());
                bool ok = false; for (auto &m : side->p->got) { RMsg x; if (ref_decode(m, x) == R_OK && x.token == side_req.token && x.payload == "re:" + side_req.payload) ok = true; }
                if (!ok) c.fail("the client got no response during the handshake of another one");
                k.unsure = true; c.label("request during the handshake of another client"); c.nontrivial();
            } else if (w.calls.size() != calls0) c.fail("the application ran during a handshake");
            bool was = side && side_sent; side = nullptr; if (was) return;
            if (k.trusted && !tls::failed && k.gone_after == 99 && k.p->st != tls::Peer::UP) c.fail("a %s client could not connect (%u datagrams lost): %s", AUTH ? "trusted" : "", k.lost, gnutls_strerror(k.p->err));
            if (tls::failed) { k.unsure = true; }       // no session for this client because the library failed
            if (!k.trusted) { c.nontrivial(); c.label("client not to be trusted"); }
        }
        if (what == REQUEST) {
            Client &k = *doing;
            if (k.trusted && !k.unsure) {
                if (w.calls.size() != calls0 + 1) c.fail("a request of an authenticated client reached the application %zu times", w.calls.size() - calls0);
                std::string d = diff(w.calls.back(), asked); if (!d.empty()) c.fail("the request differs from what the client sent: %s", d.c_str());
                bool ok = false; for (auto &m : k.p->got) { RMsg x; if (ref_decode(m, x) == R_OK && x.token == asked.token && x.payload == "re:" + asked.payload) { ok = true; k.last_resp = m; } }
                if (!ok) c.fail("the client got no response");
                for (auto &o : w.cl) if (&o != &k && o.p && !o.p->got.empty()) c.fail("another client received data");
                c.label("served");
            } else if (!k.trusted) {
                if (w.calls.size() != calls0) c.fail("a request of a client that is not authenticated reached the application (issuer %s, %s, valid %lld..%lld)", pki::issuer_name[k.sp.issuer], k.has_cert ? "certificate" : "no certificate", (long long)k.sp.from, (long long)k.sp.to);
                if (!k.p->got.empty()) c.fail("data was sent to a client that is not authenticated");
                c.label("not served"); c.nontrivial();
            } else if (w.calls.size() > calls0 + 1) c.fail("one request reached the application %zu times", w.calls.size() - calls0);
        }
        if (what == ATTACK) {
            if (w.calls.size() != calls0) c.fail("the application ran for %s", label.c_str());
            for (auto &o : w.cl) if (o.p && !o.p->got.empty()) c.fail("data was sent after %s", label.c_str());
            c.nontrivial();
        }
        if (what == AGAIN) {
            if (w.calls.size() != calls0) c.fail("the application ran for a retransmitted request");
            bool ok = doing->last_type == 1; for (auto &m : doing->p->got) if (m == doing->last_resp) ok = true;
            if (!ok) c.fail("a retransmitted request was not answered with the response given before");
            for (auto &o : w.cl) if (&o != doing && o.p && !o.p->got.empty()) c.fail("another client received data");
            c.nontrivial();
        }
        if (what == MALFORMED) {
            if (w.calls.size() != calls0) c.fail("the application ran for a malformed message");
            bool ok = false; for (auto &m : doing->p->got) { RMsg x; if (ref_decode(m, x) == R_OK && x.type == 3 && x.det == 0 && x.mid == doing->last_mid) ok = true; else c.fail("a malformed message is answered with %s", hex(m).c_str()); }
            if (!ok) c.fail("a malformed confirmable message is not rejected");
            for (auto &o : w.cl) if (&o != doing && o.p && !o.p->got.empty()) c.fail("another client received data");
            c.nontrivial();
        }
        if (what == CLOSE && w.calls.size() != calls0) c.fail("the application ran after a session was closed");
    };
    auto request = [&](Client &k) {
        what = REQUEST; doing = &k;
        asked = RMsg(); asked.type = g.chance(1, 4); asked.det = 1 + g.uni(4); asked.mid = k.mid++; asked.token = g.blob(g.uni(9)); asked.opts.push_back({11, "x" + g.str(8, "abcdef")}); asked.payload = "secret" + fmt("%u-", k.serial++) + g.blob(6 + g.below(g.chance(1, 5) ? 900 : 60));
        w.secrets.push_back(asked.payload);
        c.descf(" | request %zu", &k - &w.cl[0]);
        if (k.p->st == tls::Peer::UP) { k.p->send(ref_encode(asked)); k.last_req = ref_encode(asked); k.last_at = net::now; k.last_type = asked.type; k.last_mid = asked.mid; k.last_resp.clear(); }
    };
    net::on_idle = [&]() -> bool {
        bool busy = false; for (auto &k : w.cl) if (k.p && !k.gone && k.p->st == tls::Peer::HANDSHAKE) busy = true;
        if (net::waiting_until != net::NEVER) {      // the server is in a handshake
            if (net::now - step_start > 200 * SEC) c.fail("the server has been occupied with one client for %.0f s", (net::now - step_start) / 1e9);
            net::advance_to(std::min(net::now + 250 * MS, net::waiting_until)); return true;
        }
        if (busy && net::now - step_start < 65 * SEC) { net::advance_to(net::now + 500 * MS); return true; }      // the client has not finished
        for (auto &k : w.cl) if (k.p && k.p->st == tls::Peer::HANDSHAKE && !k.gone && what == CONNECT && !(side && side_sent) && &k == doing && k.trusted && !tls::failed && k.gone_after == 99) c.fail("a handshake was not completed (%u datagrams lost)", k.lost);
        for (auto &k : w.cl) if (k.p && k.p->st == tls::Peer::HANDSHAKE) k.p.reset();
        if (tls::unverified_used) c.fail("a session is used although its certificate could not be examined");
        if (what != NOTHING) judge();
        for (auto &k : w.cl) if (k.p) k.p->got.clear();
        tls::fail_at = -1; tls::failed = false;
        if (finished) return false;
        if (g.chance(1, 3)) net::advance_to(net::now + g.below(300) * SEC);
        what = NOTHING; calls0 = w.calls.size(); step_start = net::now;
        if (++step > steps) {
            // finally, an authenticated client is served
            if (!restored) {
                restored = true; Client *k = nullptr; for (auto &x : w.cl) if (usable(x)) k = &x;
                if (k) { request(*k); return true; }
            }
            finished = true; return true;
        }
        Client &k = w.cl[g.uni(n)];
        if (!k.p || k.p->st == tls::Peer::DOWN) {
            if (g.chance(1, 6)) {      // a datagram out of the blue
                what = ATTACK; label = "a datagram outside of any session"; c.descf(" | stray"); c.label("stray datagram");
                RMsg q; q.det = 1; q.mid = 5; q.opts.push_back({11, "x"}); q.payload = "evil";
                to_server(k, g.chance(1, 2) ? ref_encode(q) : g.chance(1, 2) ? std::string("\x17\xfe\xfd\x00\x01\x00\x00\x00\x00\x00\x05\x00\x10", 13) + g.bytes(16) : g.bytes(1 + g.below(100)));
                return true;
            }
            if (k.unsure) {      // the server may still have its old session: it comes from another port
                if (lingering + n >= 7) return true;
                lingering++; k.a = net::addr(200 + lingering, 7000);
            }
            what = CONNECT; doing = &k; k.unsure = false; k.loss = g.chance(1, 3) ? g.uni(3) : 0; k.gone_after = g.chance(1, 12) ? g.below(6) : 99;
            if (g.chance(1, 15)) tls::fail_at = tls::count + g.uni(7);
            side = nullptr; side_sent = false;
            if (g.chance(1, 4)) for (auto &x : w.cl) if (&x != &k && usable(x)) {
                side = &x; side_after = g.below(7); side_req = RMsg(); side_req.det = 1; side_req.mid = x.mid++; side_req.token = g.blob(4); side_req.opts.push_back({11, "side"}); side_req.payload = "secret" + fmt("%u-", x.serial++) + g.blob(8); w.secrets.push_back(side_req.payload);
            }
            if (side) c.descf(" | during the next, request %zu", side - &w.cl[0]);
            c.descf(" | connect %zu%s %s%s", &k - &w.cl[0], k.trusted ? "" : " (untrusted)", k.has_cert ? pki::issuer_name[k.sp.issuer] : "none", k.gone_after != 99 ? " vanishing" : "");
            connect(k); k.p->pump(); return true;
        }
        switch (g.weighted({5, 4, 1, 1, 1})) {
        case 0: request(k); return true;
        case 1: {
            what = ATTACK; doing = &k; unsigned a = g.uni(5); uint64_t rr = g.seed64();
            RMsg q; q.det = 1 + g.uni(4); q.type = g.chance(1, 4); q.mid = 900 + g.below(50); q.opts.push_back({11, "evil"}); q.payload = "evil";
            c.descf(" | attack %u on %zu", a, &k - &w.cl[0]);
            // outside of a session of its own, any datagram makes the server wait for a handshake
            switch (a) {
            case 0: label = "a plaintext request"; c.label("plaintext injected"); to_server(k, ref_encode(q)); break;
            case 1: {
                label = "an altered record"; c.label("record altered"); capture = true; k.p->send(ref_encode(q)); capture = false; std::string d = captured; size_t pos = rr % d.size(); if (pos == 11 || pos == 12) { k.unsure = true; }
                d[pos] ^= 1 << (rr >> 40) % 8; to_server(k, d); break; }
            case 2: label = "a replayed record"; c.label("record replayed"); if (k.records.empty() || !k.trusted || k.unsure) { what = NOTHING; break; } to_server(k, k.records[rr % k.records.size()]); break;
            case 3: {
                label = "a record of another client's session"; c.label("record of another session"); Client *o = nullptr; for (auto &x : w.cl) if (&x != &k && x.p && x.p->st == tls::Peer::UP) o = &x;
                if (!o) { what = NOTHING; break; } capture = true; o->p->send(ref_encode(q)); capture = false; to_server(k, captured); break; }
            case 4: { label = "garbage"; c.label("garbage injected"); std::string s; for (unsigned i = 0; i < 20 + rr % 60; i++) s += (char)(rr >> (i % 8 * 8)); if (rr & 1) { s = std::string("\x17\xfe\xfd\x00\x01", 5) + s; k.unsure = true; } to_server(k, s); break; }
            }
            return true; }
        case 3:
            if (!usable(k) || k.last_resp.empty() || net::now - k.last_at > 10 * SEC) { request(k); return true; }
            what = AGAIN; doing = &k; c.descf(" | retransmission %zu", &k - &w.cl[0]); c.label("retransmitted request"); k.p->send(k.last_req); return true;
        case 4: {
            if (!usable(k)) { request(k); return true; }
            RMsg q; q.det = 1; q.mid = k.last_mid = k.mid++; q.token = g.blob(g.uni(9)); std::string e = ref_encode(q); e += g.oneof<std::string>({"\xff", "\xf0", "\x0f", "\xd0", "\x01"}); k.last_resp.clear();
            what = MALFORMED; doing = &k; c.descf(" | malformed %zu", &k - &w.cl[0]); c.label("malformed message"); k.p->send(e); return true; }
        default: what = CLOSE; doing = &k; c.descf(" | close %zu", &k - &w.cl[0]); c.label("closed"); k.p->bye(); return true;
        }
    };
    int ret = 0; bool done = net::run([&] { ret = coap_server_run(&w.srv); });
    if (done) c.fail("the server stopped: %d", ret);
    if (net::livelock) c.fail("the server is busy without end");
    for (auto &d : w.wire) for (auto &s : w.secrets) if (d.find(s) != std::string::npos) c.fail("a message travelled unencrypted");
    net::pump = nullptr;
    coap_server_destroy(&w.srv);
    for (auto &k : w.cl) if (k.p && usable(k)) { k.p->pump(); if (k.p->st == tls::Peer::UP) c.fail("a client was not told that its session ended"); }
    final();
}
PROPERTY("C29", AUTH ? "dtls-server-auth" : "dtls-server", "a client that must be refused, or interference with the server", 1, c29);
