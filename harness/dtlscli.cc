// C28: the DTLS client accepts only a server it may trust, and only that server's authentic records.
#include "dtls.h"
#include <algorithm>
#include <strings.h>
extern "C" {
#include "coap_client.h"
#include "coap_log.h"
}
using namespace pbt;
using net::MS; using net::SEC;
static void c28(Gen &g, Ctx &c) {
    pki::init();
    net::reset(g.seed64()); tls::reset(); pool::begin(pool::GUARD, pool::app); heap::reset();
    coap_log_set_level(getenv("VF_LOG") ? COAP_LOG_DEBUG : (coap_log_level_t)-1);
    net::Addr sa = net::addr(1, 5684), me; bool have_me = false;
    // the server's certificate
    pki::Spec sp; sp.key = g.uni(4); sp.serial = 100 + g.uni(4);
    bool clean = g.chance(1, 3);
    if (!clean) {
        sp.issuer = (pki::Issuer)g.weighted({8, 2, 4, 1, 1, 1, 1, 1});
        switch (g.weighted({4, 1, 1, 1, 1})) {
        case 1: sp.from = -2000000; sp.to = -(int64_t)g.oneof<int64_t>({1, 2, 60, 86400}); break;
        case 2: sp.from = g.oneof<int64_t>({1, 2, 60, 86400}); sp.to = 2000000; break;
        case 3: sp.from = 0; break;
        case 4: sp.to = 0; break;
        }
    } else if (g.chance(1, 2)) sp.issuer = pki::INTER;
    static const char *names[] = {"node.example", "other.example", "node.exampl", "node.example.org", "xnode.example", "NODE.example", "sub.node.example"};
    std::string asked = g.chance(1, 2) ? "" : names[g.weighted({6, 1, 1, 1, 1, 1, 1})];
    sp.cn = names[g.weighted({4, 1, 1, 1, 1, 1, 1})];
    bool use_san = g.chance(1, 2);
    if (use_san) { unsigned n = 1 + g.uni(2); for (unsigned i = 0; i < n; i++) sp.sans.push_back(g.chance(1, 5) ? "*.node.example" : names[g.uni(7)]); }
    bool name_ok = asked.empty();
    auto eq = [](const std::string &a, const std::string &b) { return !strcasecmp(a.c_str(), b.c_str()); };
    if (!asked.empty()) {
        if (use_san) { for (auto &s : sp.sans) if (eq(s, asked) || (s == "*.node.example" && eq(asked, "sub.node.example"))) name_ok = true; }
        else name_ok = eq(sp.cn, asked);
    }
    if (clean) { sp.cn = asked.empty() ? "whatever" : asked; sp.sans.clear(); name_ok = true; }
    unsigned anchors = clean ? 1 : g.weighted({0, 8, 1, 1});
    if (!clean && g.chance(1, 12)) anchors = 0;
    bool crl = g.chance(1, 3); unsigned crl_ca = g.chance(4, 5) ? 1 : 2; std::vector<unsigned> revoked; bool rev = false;
    if (crl) { unsigned n = g.uni(3); for (unsigned i = 0; i < n; i++) revoked.push_back(100 + g.uni(4)); if (clean) revoked = {99}; if (revoked.empty()) revoked.push_back(98); for (unsigned s : revoked) if (s == sp.serial && (sp.issuer == pki::CA1 ? crl_ca == 1 : sp.issuer == pki::CA2 ? crl_ca == 2 : false)) rev = true; }
    // a CRL counts only if its signer is an anchor
    bool trusted = pki::chain_ok(sp, anchors) && pki::time_ok(sp, 0) && name_ok && !rev;
    auto cert = pki::make(sp);
    pki::Spec me_sp; me_sp.cn = "client"; me_sp.key = 5; auto mine = pki::make(me_sp);
    std::string pem_trust; if (anchors & 1) pem_trust += pki::ca_pem(1); if (anchors & 2) pem_trust += pki::ca_pem(2);
    std::string fkey = pki::file(mine->key_pem), fcert = pki::file(mine->pem), ftrust = anchors ? pki::file(pem_trust) : "", fcrl = crl ? pki::file(pki::crl_pem(crl_ca, revoked)) : "";
    bool badfile = false;
    if (!clean && g.chance(1, 16)) {
        badfile = true;
        switch (g.uni(5)) {
        case 0: fkey = "/nonexistent/key"; break;
        case 1: fcert = pki::file("nonsense"); break;
        case 2: ftrust = g.chance(1, 2) ? "/nonexistent/trust" : pki::file("nonsense"); break;
        case 3: fcrl = pki::file("nonsense"); break;
        case 4: { pki::Spec o = me_sp; o.key = 6; fkey = pki::file(pki::make(o)->key_pem); break; }       // a key that does not belong to the certificate
        }
    }
    // what the network and the server do during the handshake
    unsigned loss = clean || g.chance(1, 2) ? 0 : g.uni(3);
    unsigned mode = !clean && g.chance(1, 10) ? 1 + g.uni(4) : 0;          // 1 silent, 2 plaintext, 3 garbage, 4 fails at some flight
    unsigned gone_after = g.below(6), pushed = 0;
    unsigned lost = 0; bool corrupt = false;
    tls::Peer peer; std::vector<std::string> wire; std::vector<std::string> records;
    bool stuck = false;
    enum Attack { NONE, PLAIN, FLIP, REPLAY, OTHER, GARBAGE, DROP, CLOSE, LOSEREQ, STRANGER, MALFORMED, SEPARATE };
    Attack attack = NONE; bool hold = false; unsigned drop_next = 0; std::deque<std::string> held;
    auto to_client = [&](const std::string &d) { net::deliver(sa, me, d); };
    peer.out = [&](const std::string &d) {
        wire.push_back(d); pushed++;
        if (mode == 4 && peer.st != tls::Peer::UP && pushed > gone_after) return;
        if (hold) { held.push_back(d); return; }
        if (lost < loss && peer.st != tls::Peer::UP && g.chance(1, 4)) { lost++; return; }
        to_client(d);
    };
    net::on_send = [&](const net::Out &o) {
        if (!have_me) { me = o.from; have_me = true; }
        if (!(o.to == sa)) c.fail("a datagram is sent to %s", net::str(o.to).c_str());
        wire.push_back(o.data);
        if (mode == 1) return;
        if (mode == 2) { RMsg m; m.type = 2; m.cls = 2; m.det = 5; to_client(ref_encode(m)); return; }
        if (mode == 3) { to_client(g.bytes(g.below(200))); return; }
        if (drop_next) { drop_next--; return; }
        if (lost < loss && peer.st != tls::Peer::UP && g.chance(1, 4)) { lost++; return; }
        peer.in.push_back(o.data);
    };
    net::pump = [&] { if (!stuck) peer.pump(); };
    (void)corrupt;
    peer.start(true, g.chance(1, 2), cert);
    bool inject = g.chance(1, 12);
    if (inject) tls::fail_at = g.below(14);
    net::wall = 1500000000;
    coap_client_t cl; memset(&cl, 0x5a, sizeof cl);
    c.descf("%s%s cn=%s sans=%zu asked=%s from=%lld to=%lld anchors=%u%s%s mode=%u loss=%u", pki::issuer_name[sp.issuer], trusted ? " (trusted)" : "", sp.cn.c_str(), sp.sans.size(), asked.c_str(), (long long)sp.from, (long long)sp.to, anchors, crl ? " crl" : "", rev ? " revoked" : "", mode, loss);
    int ret = 0; int64_t t0 = net::now;
    bool done = net::run([&] { ret = coap_client_create(&cl, net::HOST, "5684", fkey.c_str(), fcert.c_str(), g.chance(1, 2) || anchors ? ftrust.c_str() : nullptr, crl ? fcrl.c_str() : nullptr, asked.empty() ? nullptr : asked.c_str()); });
    tls::fail_at = -1;
    if (!done) c.fail("coap_client_create never returns");
    if (net::now - t0 > 130 * SEC) c.fail("coap_client_create took %.0f s", (net::now - t0) / 1e9);
    trusted = pki::chain_ok(sp, anchors) && pki::time_ok(sp, net::now / SEC) && name_ok && !rev;      // by the time the handshake ended
    bool must_fail = !trusted || badfile || (mode > 0 && mode < 4) || tls::failed;
    if (badfile && !crl && fcrl.size()) must_fail = !trusted || (mode > 0 && mode < 4) || tls::failed;      // the broken revocation list was not given
    if (ret == 0 && must_fail) c.fail("the client accepted the server (issuer %s, valid %lld..%lld, name '%s'/%zu asked '%s', %s, anchors %u)", pki::issuer_name[sp.issuer], (long long)sp.from, (long long)sp.to, sp.cn.c_str(), sp.sans.size(), asked.c_str(), rev ? "revoked" : "not revoked", anchors);
    if (ret != 0 && !must_fail && mode == 0 && loss == 0) c.fail("the client refused a trusted server: %d", ret);
    if (ret != 0 && !must_fail && mode == 0 && lost) { c.label("refused after loss"); if (lost <= 2) c.fail("%u lost datagrams made the handshake fail: %d", lost, ret); }
    if (ret > 0) c.fail("coap_client_create returned %d", ret);
    if (ret < 0) {
        c.label(badfile ? "bad file" : tls::failed ? "library failure" : mode ? "no handshake" : "refused");
        if (!trusted) c.nontrivial();
        for (auto &m : peer.got) c.fail("data was sent to a server that was refused: %s", hex(m).c_str());
        peer.pump();
        if (!peer.got.empty()) c.fail("data was sent to a server that was refused");
    } else {
        c.label("accepted");
        if (peer.st != tls::Peer::UP) c.fail("the handshake is complete for the client only (%d: %s)", peer.err, gnutls_strerror(peer.err));
        unsigned n = 1 + g.uni(4); std::vector<std::string> old; bool desync = false;
        loss = 0;
        for (unsigned i = 0; i < n; i++) {
            RMsg q; q.type = g.chance(1, 4); q.det = 1 + g.uni(4); q.opts.push_back({11, "secret" + g.str(10, "abcdefgh")}); q.payload = g.blob(12 + g.below(g.chance(1, 5) ? 900 : 100));
            RMsg a; a.cls = 2; a.det = 5; a.payload = g.blob(12 + g.below(g.chance(1, 5) ? 900 : 100)); a.type = q.type ? 1 : 2;
            RMsg evil = a; evil.payload = "evil" + g.blob(10);
            attack = (Attack)g.weighted({3, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1}); unsigned when = g.uni(2); uint64_t r = g.seed64();
            size_t w0 = wire.size();
            size_t flipped = 0; int stranger_mid = -1; bool answered = false, suppressed = attack == DROP, closed = false; unsigned first = peer.got.size();
            net::pump = [&] {
                size_t seen = peer.got.size();
                peer.pump();
                if (answered || peer.got.size() == seen) return;
                RMsg m; bool isreq = false;
                for (; seen < peer.got.size() && !isreq; seen++) isreq = ref_decode(peer.got[seen], m) == R_OK && m.det;
                if (!isreq) return;               // the client rejects something left over
                answered = true;
                bool sep = attack == SEPARATE && !q.type;
                if (sep) { RMsg e; e.type = 2; e.mid = m.mid; if (when) peer.send(ref_encode(e)); a.type = 0; }
                a.mid = q.type || sep ? 77 : m.mid; a.token = m.token; evil.mid = a.mid; evil.token = a.token;
                auto genuine = [&] { hold = attack == FLIP || attack == DROP; peer.send(ref_encode(a)); hold = false; if (attack == FLIP) { std::string d = held.back(), f = d; flipped = r % f.size(); if (flipped == 11 || flipped == 12) desync = true; f[flipped] ^= 1 << (r >> 40) % 8; if (when) { to_client(f); to_client(d); } else { to_client(d); to_client(f); } held.clear(); } if (attack == DROP) held.clear(); };
                auto forge = [&] {
                    switch (attack) {
                    case PLAIN: to_client(ref_encode(evil)); break;
                    case STRANGER: { evil.type = (r >> 8) % 2; evil.mid = (uint16_t)(a.mid + 1 + (r >> 16) % 3); evil.token = (r >> 3) & 1 || a.token.empty() ? a.token + "x" : a.token.substr(1); if (evil.token.size() > 8) evil.token = evil.token.substr(1); while (evil.mid == m.mid) evil.mid++; stranger_mid = evil.type ? -1 : evil.mid; peer.send(ref_encode(evil)); break; }
                    case MALFORMED: { evil.type = 0; evil.mid = 99; std::string e = ref_encode(evil); e.resize(4 + evil.token.size()); e += "\xff"; peer.send(e); break; }
                    case REPLAY: for (auto &x : old) to_client(x); break;
                    case GARBAGE: { std::string s; for (unsigned k = 0; k < 20 + r % 60; k++) s += (char)(r >> (k % 8 * 8)); if (r & 1) s = std::string("\x17\xfe\xfd\x00\x01", 5) + s; to_client(s); break; }
                    case OTHER: {       // an authentic record of another session with this server
                        tls::Peer x, y; x.out = [&](const std::string &d) { y.in.push_back(d); }; std::string last; y.out = [&](const std::string &d) { last = d; x.in.push_back(d); };
                        y.start(true, false, cert); x.start(false, false, nullptr);
                        for (int k = 0; k < 10; k++) { x.pump(); y.pump(); }
                        y.send(ref_encode(evil)); to_client(last); break; }
                    default: break;
                    }
                };
                if (attack == CLOSE && when) { peer.bye(); closed = true; return; }
                if (attack == CLOSE || attack == DROP) { } else if (when) forge();
                genuine();
                if (!when) forge();
                if (attack == CLOSE) { peer.bye(); closed = true; }
            };
            peer.got.clear(); first = 0; (void)first; if (attack == LOSEREQ) drop_next = q.type ? 0 : 1 + r % 3;
            size_t base = wire.size();
            coap_msg_t req, resp; coap_msg_create(&req); coap_msg_create(&resp);
            if (to_msg(q, &req)) c.fail("harness: request");
            ret = 0; t0 = net::now;
            done = net::run([&] { ret = coap_client_exchange(&cl, &req, &resp); });
            if (!done) c.fail("the exchange never ends");
            if (net::now - t0 > 130 * SEC) c.fail("the exchange took %.0f s", (net::now - t0) / 1e9);
            c.descf(" | attack %d%s (byte %zu) -> %d", attack, when ? " first" : "", flipped, ret);
            net::pump = [&] { peer.pump(); };
            if (ret == 0) {
                RMsg m = from_msg(&resp); RMsg w2 = a; std::string d = diff(m, w2);
                if (!d.empty()) c.fail("the response differs from what the server sent: %s", d.c_str());
                if (suppressed || (attack == CLOSE && when)) c.fail("a response was returned that the server's records do not contain");
            } else if (desync) c.label("not answered after an altered record length");      // the library may join such a record with the next one
            else if (!suppressed && attack != CLOSE && !(attack == MALFORMED && when)) c.fail("the exchange failed (%d) though the server answered (attack %d)", ret, attack);
            peer.pump();
            auto replied = [&](unsigned type, unsigned mid) { for (auto &x : peer.got) { RMsg m; if (ref_decode(x, m) == R_OK && m.type == type && m.cls == 0 && m.det == 0 && m.mid == mid) return true; } return false; };
            if (attack == MALFORMED && when && !replied(3, 99)) c.fail("a malformed confirmable message of the server was not rejected");
            if (attack == STRANGER && when && stranger_mid >= 0 && !replied(3, stranger_mid)) c.fail("a confirmable message of the server with another token was not rejected");
            if (attack == SEPARATE && !q.type && !replied(2, 77)) c.fail("a confirmable response was not acknowledged");
            if (attack == CLOSE && when && net::now - t0 > 1 * SEC) c.fail("the exchange went on for %.0f s after the server had ended the session", (net::now - t0) / 1e9);
            if (peer.got.empty()) c.fail("the request did not reach the server");
            RMsg m; for (auto &x : peer.got) { ref_decode(x, m); if (m.det) break; } RMsg wq = q; wq.mid = m.mid; wq.token = m.token;
            std::string d = diff(m, wq); if (!d.empty()) c.fail("the request that reached the server differs: %s", d.c_str());
            for (size_t k = base; k < wire.size(); k++) {
                if (wire[k].find(q.payload) != std::string::npos || wire[k].find(q.opts[0].val) != std::string::npos || wire[k].find(a.payload) != std::string::npos) c.fail("a message travelled unencrypted");
            }
            old.assign(wire.begin() + base, wire.end()); (void)w0;
            coap_msg_destroy(&req); coap_msg_destroy(&resp);
            if (attack != NONE) { c.nontrivial(); c.label(attack == PLAIN ? "plaintext injected" : attack == FLIP ? "record altered" : attack == REPLAY ? "record replayed" : attack == OTHER ? "record of another session" : attack == GARBAGE ? "garbage injected" : attack == DROP ? "answer lost" : attack == LOSEREQ ? "request lost" : attack == STRANGER ? "another response" : attack == MALFORMED ? "malformed" : attack == SEPARATE ? "separate response" : "closed"); }
            if (closed || ret || attack == MALFORMED) break;
        }
        coap_client_destroy(&cl);
        peer.pump(); if (peer.st == tls::Peer::UP) c.fail("the server was not told that the session ended");
    }
    if (net::open_fds()) c.fail("%ld descriptors left open", net::open_fds());
    if (!net::misuse.empty()) c.fail("%s", net::misuse.c_str());
    if (!tls::left().empty()) c.fail("not released: %s", tls::left().c_str());
    if (heap::live) c.fail("%ld heap blocks leaked", heap::live);
    std::string e = pool::end(); if (!e.empty()) c.fail("%s", e.c_str());
    pki::reset();
}
PROPERTY("C28", "dtls-client", "a server refused for its certificate, or an attack on an established session", 1, c28);
