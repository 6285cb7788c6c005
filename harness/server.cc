// The CoAP server against generated histories of datagrams, faults and elapsed time.
// Steps are generated first; they are executed on the simulated network against a per-endpoint reference model.
#include "netsim.h"
#include <set>
#include <map>
#include <algorithm>
extern "C" {
#include "coap_server.h"
#include "coap_log.h"
}
using namespace pbt;
using net::MS; using net::SEC;

namespace {
enum Kind { REQ, DUP, ACK_CUR, RST_CUR, ACK_OLD, RST_ANY, STRAY, PING, RAW, WAIT };
const char *kname[] = {"request", "duplicate", "ack", "rst", "old-ack", "stray-rst", "stray-response", "ping", "raw", "wait"};
struct Step { int64_t dt; unsigned ep; Kind k; std::string bytes; unsigned id; bool meet = false; };     // meet: arrives at the very moment the next timer expires
struct Cfg {
    unsigned neps = 1, steps = 10;
    unsigned w[10] = {6, 3, 2, 1, 1, 1, 1, 1, 2, 2};
    bool spaced = false;              // at least a second between datagrams
    bool handler_errors = true, big_resp = true, bad_ops = true;
    std::vector<std::string> seps = {"/sep", "/a/sep2"};
    unsigned waits = 3; bool fixed = false;               // 0: no long waits
};
const char *SEG[] = {"a", "b", "sep", "sep2", "x", "sensor", "s"};

std::string long_path() { return "/" + std::string(254, 'l'); }
void gen_seps(Gen &g, std::vector<std::string> &v) {
    // paths answered separately: also prefixes of one another, repeated ones, the root, and the longest that can be told
    const char *more[] = {"/", "/s", "/a", "/a/b", "/sep/x", "/sensor", "/sensor/x", "/sep", "/se", "/b/a", "", "sep", "/A"};
    if (g.chance(1, 2)) return;
    v.clear();
    for (unsigned i = 0, n = g.uni(6); i < n; i++) v.push_back(g.chance(1, 12) ? long_path() : more[g.uni(13)]);
}
RMsg gen_request(Gen &g, unsigned id, bool bad_ops) {
    RMsg m;
    m.type = g.chance(1, 3); m.cls = 0; m.det = g.chance(1, 8) ? 5 + g.uni(27) : 1 + g.uni(4); m.mid = id;
    m.token = g.blob(g.uni(9));
    unsigned n;
    switch (g.weighted({12, 12, 4, 1})) {
    case 3: { std::string p = g.chance(1, 2) ? long_path() : std::string("/sep"); p = p.substr(1); if (g.chance(2, 3)) p += g.chance(1, 2) ? std::string(1, 0) : g.chance(1, 2) ? "l" : "L"; if (p.size() > 255) { m.opts.push_back({11, p.substr(0, 255)}); if (g.chance(1, 2)) m.opts.push_back({11, "x"}); } else m.opts.push_back({11, p}); break; }
    case 0: n = g.uni(4); for (unsigned i = 0; i < n; i++) m.opts.push_back({11, SEG[g.uni(7)]}); break;
    case 1: m.opts.push_back({11, "sep"}); break;
    case 2: m.opts.push_back({11, "a"}); m.opts.push_back({11, "sep2"}); break;
    }
    n = g.uni(4);
    for (unsigned i = 0; i < n; i++) {
        uint32_t num;
        switch (g.weighted({5, 2, bad_ops ? 1u : 0u})) {
        case 0: num = g.oneof({1, 3, 4, 5, 7, 12, 14, 15, 17, 20, 23, 27, 28, 60}); break;
        case 1: num = 2 * g.below(1000); break;                       // elective
        default: num = 2 * g.below(1000) + 1; break;                  // critical, mostly unknown
        }
        m.opts.push_back({num, g.blob(g.below(40))});
    }
    sort_opts(m);
    if (g.chance(1, 2)) m.payload = g.blob(1 + g.below(200));
    return m;
}
bool fits(const RMsg &m) {
    if (m.opts.size() > 100 || m.payload.size() > 1024) return false;
    for (auto &o : m.opts) if (o.val.size() > 1024) return false;
    return true;
}

std::vector<Step> gen_script(Gen &g, const Cfg &c) {
    std::vector<Step> v;
    std::vector<unsigned> last(c.neps, 0);
    unsigned n = 1 + g.uni(c.steps);
    for (unsigned i = 0; i < n; i++) {
        Step s; s.id = 0;
        s.ep = g.uni(c.neps);
        s.k = (Kind)g.weighted({c.w[0], c.w[1], c.w[2], c.w[3], c.w[4], c.w[5], c.w[6], c.w[7], c.w[8], c.w[9]});
        s.dt = 0;
        if (!c.spaced && c.neps <= 8 && c.waits) s.meet = g.chance(1, 8);
        if (c.spaced) s.dt = SEC + g.uni(3) * SEC / 2;
        else switch (g.weighted({4, 2, 2, c.waits ? 2u : 0u, c.waits ? 1u : 0u})) {
        case 0: break;
        case 1: s.dt = g.below(1000) * MS; break;
        case 2: s.dt = 1500 * MS + g.below(1600) * MS; break;
        case 3: s.dt = g.below(10000) * MS; break;
        case 4: s.dt = g.below(100000) * MS; break;
        }
        unsigned id = g.chance(1, 2) ? (last[s.ep] + 1) & 0xffff : g.below(65536);
        switch (s.k) {
        case REQ: if (v.size() && id == last[s.ep]) id = (id + 1) & 0xffff; last[s.ep] = id; s.bytes = ref_encode(gen_request(g, id, c.bad_ops)); break;
        case RST_ANY: case ACK_OLD: case PING: s.id = id; break;
        case STRAY: { RMsg m = gen_request(g, id, false); m.type = g.uni(2); m.cls = g.oneof({2, 4, 5}); s.bytes = ref_encode(m); break; }
        case RAW: switch (g.uni(4)) {
            case 0: s.bytes = mutate_bytes(g, ref_encode(gen_request(g, id, c.bad_ops))); break;
            case 1: s.bytes = mutate_bytes(g, mutate_bytes(g, ref_encode(gen_msg(g, 100, 60)))); break;
            case 2: s.bytes = g.bytes(g.below(12)); break;
            case 3: { RMsg m = gen_request(g, id, false); m.payload = g.blob(1025 + g.below(600)); s.bytes = ref_encode(m); break; }
            } break;
        default: break;
        }
        v.push_back(s);
    }
    return v;
}

// ---- the application: its answer is a function of the request and the plan seed
struct Rng { uint64_t s; uint64_t operator()() { s += 0x9e3779b97f4a7c15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); } };
uint64_t hash(const std::string &s, uint64_t h) { for (unsigned char c : s) h = (h ^ c) * 1099511628211ull; return h; }
struct Plan { int error = 0; RMsg resp; };
Plan plan_for(const RMsg &req, uint64_t seed, const Cfg &c) {
    RMsg q = req; q.mid = 0;
    Rng r{hash(ref_encode(q), seed ^ 1469598103934665603ull)};
    Plan p;
    if (c.handler_errors && r() % 24 == 0) { p.error = -(int)(1 + r() % 30); return p; }
    p.resp.cls = (unsigned[]){2, 2, 2, 4, 5}[r() % 5]; p.resp.det = r() % 8; if (p.resp.cls == 2 && !p.resp.det) p.resp.det = 5;
    unsigned n = r() % 4;
    for (unsigned i = 0; i < n; i++) { std::string v; unsigned l = r() % 20; for (unsigned k = 0; k < l; k++) v += (char)r(); p.resp.opts.push_back({(uint32_t[]){4, 8, 12, 14, 20, 28, 258, 2048}[r() % 8], v}); }
    unsigned l = (unsigned[]){0, 1, 5, 60, 300, 1024}[r() % 6]; if (l > 5) l = 1 + r() % l;
    if (c.big_resp && r() % 30 == 0) { l = 1024; std::string v(200, 'e'); p.resp.opts.push_back({8, v}); }
    for (unsigned k = 0; k < l; k++) p.resp.payload += (char)r();
    return p;
}

struct Viol { std::set<std::string> tags; std::string msg; unsigned ep = 0; bool any = false; };

struct Ep {
    net::Addr a;
    enum { NONE, KNOWN, UNKNOWN } st = NONE;
    unsigned id = 0; std::string req, resp; bool sep = false;
    bool noisy = false;               // last datagram was rejected
    bool armed = false, maybe = false; int64_t sent = 0, T = 0; unsigned nret = 0; std::string con; unsigned conid = 0; bool hadcon = false;
    std::vector<unsigned> oldids; std::vector<unsigned> genids;
    bool slot = false; int64_t use = 0;
};

struct Sim {
    Cfg cfg; uint64_t seed; std::vector<Step> script; int only = -1; Ctx *c;
    std::vector<Ep> ep; net::Addr me;
    coap_server_t srv;
    Viol v; bool stop = false;          // stop: the rest of the history is not decided
    std::vector<net::Out> outs; std::vector<RMsg> calls; std::vector<net::Addr> call_from;
    bool inject = false; size_t pos = 0; int64_t next_t = 0; bool draining = false, met = false; bool finished = false; unsigned curep = 0;
    RMsg cur; int curclass = 0;         // 0 none, 1 request, 2 rejected, 3 malformed, 4 resource, 5 ack/rst
    std::string curbytes; Kind curk = WAIT;
    uint64_t rc = 0; unsigned stat_dup = 0, stat_retr = 0, stat_rej = 0, stat_req = 0, stat_evict = 0, stat_giveup = 0, stat_met = 0;
    static Sim *self;
    std::map<uint64_t, int> seprule;

    void bad(std::set<std::string> tags, unsigned e, const std::string &m) { if (!v.any) { v.any = true; v.tags = tags; v.ep = e; v.msg = m; } stop = true; }
    bool sep_path(const RMsg &m) { std::string p = m.path(); for (auto &x : cfg.seps) if (x == p) return true; return false; }

    static int handle(coap_server_trans_t *tr, coap_msg_t *req, coap_msg_t *resp) {
        Sim &s = *self;
        RMsg m = from_msg(req);
        s.calls.push_back(m);
        Plan p = plan_for(m, s.seed, s.cfg);
        if (p.error) return p.error;
        int e = coap_msg_set_code(resp, p.resp.cls, p.resp.det);
        for (auto &o : p.resp.opts) { if (e < 0) break; e = coap_msg_add_op(resp, o.num, o.val.size(), o.val.data()); }
        if (e >= 0 && !p.resp.payload.empty()) e = coap_msg_set_payload(resp, (char *)p.resp.payload.data(), p.resp.payload.size());
        return e < 0 ? e : 0;
    }
    int find(const net::Addr &a) { for (size_t i = 0; i < ep.size(); i++) if (ep[i].a == a) return (int)i; return -1; }
    void touch(Ep &e) { e.use = net::now / SEC; }

    // a datagram sent while no input is being processed: must be a due retransmission
    void spontaneous(const net::Out &o) {
        int i = find(o.to);
        if (i < 0) return bad({"C09", "C11", "C12"}, 0, "datagram sent to " + net::str(o.to) + ", which never sent anything");
        Ep &e = ep[i];
        RMsg m; ref_decode(o.data, m);
        std::string d = fmt("endpoint %d at %.3f s: %s", i, o.t / 1e9, ref_str(m).c_str());
        if (e.st == Ep::UNKNOWN && e.maybe) { if (o.data != e.con) bad({"C11"}, i, "unexpected datagram to " + d); return; }
        if (!e.armed) return bad({"C11"}, i, "datagram sent although no confirmable response is outstanding, " + d);
        if (o.data != e.con) return bad({"C11"}, i, "retransmission differs from the response first sent, " + d);
        e.nret++;
        if (e.nret > 4) return bad({"C11"}, i, "more than 4 retransmissions, " + d);
        int64_t dtime = o.t - e.sent;
        if (e.nret == 1) {
            if (dtime < 2 * SEC || dtime > 3 * SEC) return bad({"C11"}, i, fmt("first retransmission after %.3f s, ", dtime / 1e9) + d);
            e.T = dtime;
        } else if (dtime < 2 * e.T - 2 * MS || dtime > 2 * e.T + 2 * MS) return bad({"C11"}, i, fmt("retransmission %u after %.3f s, previous wait was %.3f s, ", e.nret, dtime / 1e9, e.T / 1e9) + d);
        else e.T = dtime;
        e.sent = o.t; touch(e); stat_retr++;
    }
    // no retransmission may be overdue
    void overdue() {
        for (size_t i = 0; i < ep.size(); i++) {
            Ep &e = ep[i];
            if (!e.armed) continue;
            int64_t due = e.sent + (e.nret == 0 ? 3 * SEC : 2 * e.T + 2 * MS);
            if (e.nret >= 4) { if (net::now > due) { e.armed = false; e.maybe = false; e.st = Ep::UNKNOWN; e.slot = false; stat_giveup++; if (cfg.neps > 8) stop = true; } }
            else if (net::now > due) bad({"C11"}, i, fmt("retransmission %u for endpoint %zu is overdue at %.3f s (last sent at %.3f s)", e.nret + 1, i, net::now / 1e9, e.sent / 1e9));
        }
    }
    void sent(const net::Out &o) {
        if (stop) return;
        if (draining && met) { int i = find(o.to); if (i >= 0 && ep[i].armed && o.data == ep[i].con) { if ((unsigned)i == curep && cur.mid == ep[i].id && curbytes != ep[i].req) { stop = true; return; } return spontaneous(o); } }
        if (draining) outs.push_back(o); else spontaneous(o);
    }
    void new_slot(Ep &e) {
        if (e.slot) return;
        std::vector<Ep *> act;
        for (auto &x : ep) if (x.slot) act.push_back(&x);
        if (act.size() >= COAP_SERVER_NUM_TRANS) {
            int64_t mn = INT64_MAX; unsigned cnt = 0; Ep *old = nullptr;
            for (auto x : act) { if (x->use < mn) { mn = x->use; cnt = 1; old = x; } else if (x->use == mn) cnt++; }
            if (cnt != 1) { stop = true; return; }
            old->slot = false; old->st = Ep::UNKNOWN; old->armed = false; old->maybe = false; stat_evict++;
        }
        e.slot = true; touch(e);
    }
    void start(const Step &s) {
        curep = s.ep; Ep &e = ep[s.ep]; curk = s.k;
        std::string b;
        RMsg m;
        auto mk = [&](unsigned type, unsigned id) { m = RMsg(); m.type = type; m.mid = id; b = ref_encode(m); };
        switch (s.k) {
        case WAIT: return;
        case REQ: case STRAY: case RAW: b = s.bytes; break;
        case DUP: if (e.req.empty()) return; b = e.req; break;
        case ACK_CUR: if (!e.hadcon) return; mk(2, e.conid); break;
        case RST_CUR: if (!e.hadcon) return; mk(3, e.conid); break;
        case ACK_OLD: mk(2, e.oldids.empty() ? s.id : e.oldids[s.id % e.oldids.size()]); break;
        case RST_ANY: mk(3, s.id); break;
        case PING: mk(0, s.id); break;
        }
        new_slot(e);
        if (stop) return;
        curbytes = b; outs.clear(); calls.clear();
        RRes r = ref_decode(b, cur);
        curclass = r == R_VERSION || r == R_FORMAT || b.size() > COAP_MSG_MAX_BUF_LEN ? 3 : !fits(cur) ? 4 : (cur.type >= 2) ? 5 : (cur.cls != 0 || cur.empty()) ? 2 : 1;
        if (c->want) c->descf("[%.3f s] ep%u %s%s %s\n", net::now / 1e9, s.ep, kname[s.k], curclass == 3 ? " (malformed)" : "", curclass == 3 ? pbt::hex(b, 24).c_str() : ref_str(cur).c_str());
        rc = net::rand_calls;
        draining = true;
        net::deliver(e.a, me, b);
    }
    std::string outstr() { std::string s; for (auto &o : outs) { RMsg m; ref_decode(o.data, m); s += " {to " + net::str(o.to) + " " + ref_str(m) + "}"; } return s.empty() ? " nothing" : s; }

    // the server has finished with the datagram
    void finish() {
        draining = false;
        Ep &e = ep[curep]; unsigned i = curep;
        std::string in = "on " + ref_str(cur) + " from endpoint " + std::to_string(i) + ":";
        for (auto &o : outs) if (!(o.to == e.a)) return bad({"C09", "C12"}, i, in + " sent to another endpoint:" + outstr());
        bool waspre = e.noisy; e.noisy = false;
        if (curclass == 3 || curclass == 4) {
            e.noisy = true; stat_rej++;
            if (!calls.empty()) return bad({"C10"}, i, fmt("malformed datagram %s reached the application", pbt::hex(curbytes).c_str()));
            RRes r; RMsg m; r = ref_decode(curbytes, m);
            bool con = curbytes.size() >= 4 && ((unsigned char)curbytes[0] >> 4 & 3) == 0;
            unsigned id = curbytes.size() >= 4 ? (unsigned char)curbytes[2] << 8 | (unsigned char)curbytes[3] : 0;
            RMsg rst; rst.type = 3; rst.mid = id;
            bool must = curclass == 3 && con && r != R_VERSION, may = con && (curclass == 4 || r == R_VERSION);
            if (curclass == 3 && r == R_VERSION && curbytes.size() <= COAP_MSG_MAX_BUF_LEN) may = false;
            bool isrst = outs.size() == 1 && outs[0].data == ref_encode(rst);
            if (must ? !isrst : !(outs.empty() || (may && isrst))) return bad({"C10"}, i, fmt("answer to malformed datagram %s:", pbt::hex(curbytes).c_str()) + outstr());
            forget(e, false);
            return;
        }
        if (e.slot) touch(e);
        if (curclass == 5) {
            if (!calls.empty()) return bad({"C10"}, i, in + " reached the application");
            if (!outs.empty()) return bad({"C10"}, i, in + " was answered with" + outstr());
            if (e.hadcon && e.conid == cur.mid && (e.armed || e.maybe)) { e.armed = false; e.maybe = false; }
            else e.noisy = true, stat_rej++;
            return;
        }
        bool sameid = e.st == Ep::KNOWN && e.id == cur.mid;
        if (curclass == 2) {
            e.noisy = true; stat_rej++;
            if (!calls.empty()) return bad({"C10"}, i, in + " reached the application");
            if (sameid || e.st == Ep::UNKNOWN) { if (!outs.empty() && !(outs.size() == 1 && cur.type == 0)) return bad({"C10"}, i, in + " was answered with" + outstr()); return; }
            RMsg rst; rst.type = 3; rst.mid = cur.mid;
            if (cur.type == 0 ? !(outs.size() == 1 && outs[0].data == ref_encode(rst)) : !outs.empty()) return bad({"C10"}, i, in + " expected " + (cur.type == 0 ? "a reset, got" : "no answer, got") + outstr());
            return;
        }
        // a request
        if (sameid && curbytes != e.req) { stop = true; return; }
        if (sameid) {
            stat_dup++;
            if (!calls.empty()) return bad({"C08"}, i, in + " duplicate was handed to the application again");
            if (cur.type == 1) { if (!outs.empty()) return bad({"C08"}, i, in + " duplicate non-confirmable request was answered with" + outstr()); return; }
            if (e.sep) {
                RMsg ack; ack.type = 2; ack.mid = cur.mid;
                if (!(outs.size() == 1 && outs[0].data == ref_encode(ack))) return bad({"C08"}, i, in + " duplicate: expected an empty acknowledgement, got" + outstr());
                return;
            }
            if (!(outs.size() == 1 && outs[0].data == e.resp)) return bad({"C08"}, i, in + " duplicate: expected the response sent before (" + pbt::hex(e.resp, 200) + "), got" + outstr());
            return;
        }
        uint32_t badop = 0;
        for (auto &o : cur.opts) if (must_know(o.num) && !ref_recognized(o.num)) { badop = o.num; break; }
        if (e.st == Ep::UNKNOWN && curbytes == e.req && calls.empty() && !badop) { for (auto &o : outs) { RMsg m; ref_decode(o.data, m); if (m.mid != cur.mid && cur.type == 0) return bad({"C08"}, i, in + " answered with" + outstr()); } return; }
        if (e.st == Ep::UNKNOWN && curbytes == e.req && badop) { stop = true; return; }
        stat_req++;
        std::set<std::string> t8 = {"C08"}; if (waspre) t8.insert("C10");
        bool sep = cur.type == 0 && sep_path(cur);
        RMsg want; bool err = false;
        if (badop) {
            if (!calls.empty()) return bad({"C09", "C10"}, i, in + fmt(" unrecognised critical option %u reached the application", badop));
            want.cls = 4; want.det = 2;
        } else {
            if (calls.empty()) return bad(t8, i, in + " new request was not handed to the application; sent" + outstr());
            if (calls.size() > 1) return bad({"C08"}, i, in + fmt(" request was handed to the application %zu times", calls.size()));
            std::string d = diff(cur, calls[0]);
            if (!d.empty()) return bad({"C09"}, i, in + " the application received a different request: " + d);
            Plan p = plan_for(cur, seed, cfg);
            err = p.error; want = p.resp; sort_opts(want);
        }
        want.token = cur.token;
        want.type = cur.type == 1 ? 1 : sep ? 0 : 2;
        want.mid = want.type == 2 ? cur.mid : 0;
        if (!err && ref_encode(want).size() > COAP_MSG_MAX_BUF_LEN) err = true;
        size_t k = 0;
        if (sep) {
            RMsg ack; ack.type = 2; ack.mid = cur.mid;
            if (outs.empty() || outs[0].data != ref_encode(ack)) return bad({"C09"}, i, in + " expected an empty acknowledgement first, got" + outstr());
            k = 1;
        }
        if (err) {
            if (outs.size() != k) return bad({"C09"}, i, in + " the application failed but the server sent" + outstr());
            forget(e, true);
            return;
        }
        if (outs.size() != k + 1) return bad(waspre || badop ? std::set<std::string>{"C09", "C10"} : std::set<std::string>{"C09"}, i, in + " expected one response, got" + outstr());
        RMsg got;
        if (ref_decode(outs[k].data, got) != R_OK) return bad({"C09"}, i, in + " response is malformed: " + pbt::hex(outs[k].data));
        if (want.type != 2) want.mid = got.mid;
        if (badop) { want.payload = got.payload; want.opts = got.opts; }
        std::string d = diff(want, got);
        if (!d.empty()) return bad(badop ? std::set<std::string>{"C09", "C10"} : std::set<std::string>{"C09"}, i, in + " wrong response (expected vs sent): " + d);
        if (outs[k].data != ref_encode(got)) return bad({"C09"}, i, in + " response is not the canonical encoding");
        if (want.type != 2) {
            if (net::rand_calls == rc || net::rand_bias == 0)
                for (size_t q = e.genids.size() > 16 ? e.genids.size() - 16 : 0; q < e.genids.size(); q++) if (e.genids[q] == got.mid && net::rand_calls == rc0) return bad({"C09"}, i, in + fmt(" message ID %u is reused", got.mid));
            e.genids.push_back(got.mid);
        }
        e.st = Ep::KNOWN; e.id = cur.mid; e.req = curbytes; e.resp = outs[k].data; e.sep = sep; e.armed = false; e.maybe = false;
        if (e.hadcon) e.oldids.push_back(e.conid);
        e.hadcon = want.type == 0;
        if (want.type == 0) { e.armed = true; e.sent = net::now; e.T = 0; e.nret = 0; e.con = e.resp; e.conid = got.mid; }
        else e.conid = 0;
    }
    uint64_t rc0 = 0;
    // the server may have dropped what it knew about the endpoint
    void forget(Ep &e, bool newreq) {
        if (newreq) { e.req = curbytes; e.armed = false; e.maybe = false; e.hadcon = false; }
        e.maybe = e.maybe || e.armed; e.armed = false;
        e.st = Ep::UNKNOWN; e.slot = false;
        if (cfg.neps > 8) stop = true;
    }
    bool idle() {
        if (draining) { if (!stop) finish(); draining = met = false; if (!stop) overdue(); }
        if (stop) return false;
        if (pos >= script.size()) {
            if (finished) return false;
            finished = true; next_t = net::now + 120 * SEC;
        }
        // advance to the next step, letting timers fire on the way
        if (!finished && !inject) { next_t = net::now + script[pos].dt; inject = true; }
        int64_t t = net::next_event();
        if (inject && script[pos].meet && t != net::NEVER && script[pos].k != WAIT && (only < 0 || (int)script[pos].ep == only)) {
            bool late = false; for (auto &e : ep) if (e.armed ? e.nret >= 4 : e.maybe) late = true;     // the server may give up at that moment
            if (!late) { net::advance_to(t); overdue(); if (stop) return false; inject = false; met = true; stat_met++; start(script[pos++]); if (!draining) met = false; return !stop; }
        }
        if (t <= next_t && t != net::NEVER) { net::advance_to(t); overdue(); return !stop; }
        net::advance_to(next_t); overdue();
        if (stop) return false;
        if (finished) return false;
        inject = false;
        const Step &s = script[pos++];
        if (only >= 0 && (int)s.ep != only) return true;
        start(s);
        return !stop;
    }
    void exec() {
        net::reset(seed); net::rand_bias = seed % 7 == 0 ? 3 : 0; if (cfg.fixed) net::rand_fixed = (int)(seed % 1000);
        pool::begin(pool::GUARD, pool::Cfg{{4096, 4096, 64}, {256, 1024, 8192}});
        self = this;
        me = net::addr(1, 5683);
        ep.clear(); ep.resize(cfg.neps);
        { auto at = net::endpoints(seed >> 3, cfg.neps); for (unsigned i = 0; i < cfg.neps; i++) ep[i].a = at[i]; }
        int r = coap_server_create(&srv, handle,  net::HOST,             "5683");
        if (r) return bad({"C09"}, 0, fmt("server creation failed: %d", r));
        for (auto &x : cfg.seps) { std::string y = x; int q = coap_server_add_sep_resp_uri_path(&srv, y.c_str()); y.assign(y.size(), '#'); if (q) return bad({"C09"}, 0, fmt("adding the separate response path '%s' returned %d", x.c_str(), q)); }
        rc0 = net::rand_calls;
        net::on_send = [this](const net::Out &o) { sent(o); };
        net::on_idle = [this] { return idle(); };
        int ret = 0;
        if (net::run([&] { ret = coap_server_run(&srv); })) bad({"C10"}, curep, fmt("the server stopped serving (run returned %d)", ret));
        if (net::livelock) bad({"C10"}, curep, "the server loops without making progress");
        coap_server_destroy(&srv);
        std::string l = pool::end();
        if (!l.empty()) bad({"C07"}, 0, "after destroying the server: " + l);
        if (net::open_fds()) bad({"C07"}, 0, fmt("after destroying the server %ld descriptors are open", net::open_fds()));
        if (!net::misuse.empty()) bad({"C07", "C10"}, 0, net::misuse);
    }
};
Sim *Sim::self;

void run_for(Gen &g, Ctx &c, const Cfg &cfg, const char *tag) {
    static Sim s; s = Sim();
    s.cfg = cfg; s.seed = g.seed64(); s.c = &c;
    if (!cfg.fixed) gen_seps(g, s.cfg.seps);
    s.script = gen_script(g, cfg);
    if (c.want) for (auto &x : s.cfg.seps) c.descf("separate responses for '%s'\n", x.c_str());
    s.exec();
    if (s.stat_dup) c.label("duplicate"); if (s.stat_retr) c.label("retransmission"); if (s.stat_rej) c.label("rejected"); if (s.stat_evict) c.label("eviction"); if (s.stat_met) c.label("datagram at the moment a timer expires"); if (s.stat_giveup) c.label("gave up");
    std::string t = tag;
    if ((t == "C08" && s.stat_dup) || (t == "C09" && s.stat_req) || (t == "C10" && s.stat_rej) || (t == "C11" && s.stat_retr) || (t == "C07" && s.stat_req) || (t == "C12" && s.stat_req > 1)) c.nontrivial();
    if (!s.v.any) return;
    if (t == "C12") {
        // does the endpoint see the same when it is alone?
        Viol v = s.v; bool w = c.want; c.want = false;
        auto script = s.script; uint64_t seed = s.seed;
        s = Sim(); s.cfg = cfg; s.seed = seed; s.c = &c; s.script = script; s.only = v.ep;
        s.exec(); c.want = w;
        if (s.v.any) { c.label("foreign"); return; }
        c.fail("%s (with this endpoint alone the history is as expected)", v.msg.c_str());
    }
    if (!s.v.tags.count(t)) { c.label("foreign"); return; }
    c.fail("%s", s.v.msg.c_str());
}
void c08(Gen &g, Ctx &c) { Cfg k; k.neps = 1 + g.uni(3); k.steps = 24; unsigned w[10] = {8, 8, 2, 1, 1, 1, 1, 1, 0, 1}; memcpy(k.w, w, sizeof w); run_for(g, c, k, "C08"); }
void c09(Gen &g, Ctx &c) { Cfg k; k.neps = 1 + g.uni(4); k.steps = 24; unsigned w[10] = {14, 2, 2, 1, 1, 1, 1, 1, 2, 1}; memcpy(k.w, w, sizeof w); run_for(g, c, k, "C09"); }
void c10(Gen &g, Ctx &c) { Cfg k; k.neps = 1 + g.uni(3); k.steps = 30; unsigned w[10] = {6, 2, 1, 1, 2, 2, 3, 3, 10, 1}; memcpy(k.w, w, sizeof w); run_for(g, c, k, "C10"); }
void c11(Gen &g, Ctx &c) { Cfg k; k.neps = 1 + g.uni(3); k.steps = 24; unsigned w[10] = {8, 3, 3, 1, 2, 1, 1, 1, 0, 4}; memcpy(k.w, w, sizeof w); k.handler_errors = false; k.bad_ops = false; run_for(g, c, k, "C11"); }
void c12(Gen &g, Ctx &c) {
    Cfg k; k.neps = 2 + g.uni(7); k.steps = 40; unsigned w[10] = {8, 6, 3, 1, 1, 1, 1, 1, 2, 1}; memcpy(k.w, w, sizeof w); k.handler_errors = false;
    k.fixed = true; run_for(g, c, k, "C12");
}
void c12lru(Gen &g, Ctx &c) {
    Cfg k; k.neps = 9 + g.uni(4); k.steps = 60; unsigned w[10] = {8, 8, 2, 1, 0, 0, 0, 0, 0, 0}; memcpy(k.w, w, sizeof w); k.handler_errors = false; k.big_resp = false; k.spaced = true;
    k.fixed = true; run_for(g, c, k, "C12");
}
void c07s(Gen &g, Ctx &c) { Cfg k; k.neps = 1 + g.uni(11); k.steps = 30; run_for(g, c, k, "C07"); }
// ---- faults: the exact model does not apply; afterwards the server must still serve and give everything back
struct Robust {
    static void run(Gen &g, Ctx &c, const char *tag, bool memory) {
        Cfg k; k.neps = 1 + g.uni(10); k.steps = 20;
        uint64_t seed = g.seed64();
        auto script = gen_script(g, k);
        net::reset(seed);
        pool::begin(pool::GUARD, pool::Cfg{{4096, 4096, 64}, {256, 1024, 8192}});
        Sim s; s.cfg = k; s.seed = seed; s.c = &c; Sim::self = &s;
        s.me = net::addr(1, 5683);
        if (coap_server_create(&s.srv, Sim::handle, net::HOST,             "5683")) c.fail("server creation failed");
        coap_server_add_sep_resp_uri_path(&s.srv, "/sep"); coap_server_add_sep_resp_uri_path(&s.srv, "/a/sep2");
        if (memory) pool::fail_at = pool::allocs() + g.below(200);
        if (!memory || g.chance(1, 3)) {
            int kind = g.oneof({0, 0, 0, 1, 2});
            net::fault_at[kind] = g.below(30); net::fault_errno[kind] = kind == 0 ? g.oneof({ENETUNREACH, EPERM, EAGAIN, ENOBUFS}) : kind == 1 ? g.oneof({EAGAIN, ECONNREFUSED, ENOMEM}) : EMFILE;
        }
        size_t pos = 0; int phase = 0; int64_t next_t = 0; bool inject = false;
        std::map<unsigned, std::string> lastreq; std::map<std::string, unsigned> lastcon;
        bool answered = false, served = false; RMsg probe; net::Addr pa = net::addr(777, 9999);
        net::on_send = [&](const net::Out &o) {
            RMsg m; if (ref_decode(o.data, m) == R_OK && m.type == 0) lastcon[net::str(o.to)] = m.mid;
            if (phase && o.to == pa && m.mid == probe.mid && m.token == probe.token && m.type == 2 && m.cls == 4 + 0) answered = true;
            if (phase && o.to == pa && m.mid == probe.mid && m.token == probe.token && m.type == 2) answered = true;
        };
        net::on_idle = [&]() -> bool {
            if (phase == 1) return false;
            if (!inject && pos < script.size()) { next_t = net::now + script[pos].dt; inject = true; }
            int64_t t = net::next_event();
            if (inject && t <= next_t && t != net::NEVER) { net::advance_to(t); return true; }
            if (pos >= script.size()) {
                phase = 1; pool::fail_at = -1; for (int i = 0; i < 10; i++) net::fault_at[i] = -1;
                probe = RMsg(); probe.type = 0; probe.det = 1; probe.mid = 4242; probe.token = "prob"; probe.opts = {{11, "x"}};
                while (plan_for(probe, seed, k).error || ref_encode(plan_for(probe, seed, k).resp).size() > 1000) probe.token[0]++;
                net::deliver(pa, s.me, ref_encode(probe));
                return true;
            }
            inject = false; net::advance_to(next_t);
            const Step &st = script[pos++];
            net::Addr a = net::addr(100 + st.ep / 2, 7000 + st.ep % 2);
            std::string b = st.bytes; RMsg m;
            switch (st.k) {
            case WAIT: return true;
            case DUP: b = lastreq[st.ep]; break;
            case ACK_CUR: case ACK_OLD: m.type = 2; m.mid = lastcon[net::str(a)]; b = ref_encode(m); break;
            case RST_CUR: case RST_ANY: m.type = 3; m.mid = lastcon[net::str(a)]; b = ref_encode(m); break;
            case PING: m.mid = st.id; b = ref_encode(m); break;
            case REQ: lastreq[st.ep] = b; break;
            default: break;
            }
            net::deliver(a, s.me, b);
            return true;
        };
        int ret = 0; bool r = net::run([&] { ret = coap_server_run(&s.srv); });
        bool hit = net::fault_hit[0] + net::fault_hit[1] + net::fault_hit[2] > 0 || (memory && pool::allocs() > pool::fail_at);
        if (hit) c.nontrivial();
        bool live = net::livelock;
        coap_server_destroy(&s.srv);
        std::string l = pool::end(); long fd = net::open_fds(); std::string mu = net::misuse;
        net::on_send = nullptr; net::on_idle = nullptr;
        std::string t = tag; (void)served;
        if (t == "C10") {
            if (r) c.fail("the server stopped serving after a fault (run returned %d)", ret);
            if (live) c.fail("the server loops without making progress after a fault");
            if (!answered) c.fail("after a fault the server does not answer a valid request");
            if (!mu.empty()) c.fail("%s", mu.c_str());
        } else {
            if (!l.empty()) c.fail("after destroying the server: %s", l.c_str());
            if (fd) c.fail("after destroying the server %ld descriptors are open", fd);
            if (!mu.empty()) c.fail("%s", mu.c_str());
        }
    }
};
void c10f(Gen &g, Ctx &c) { Robust::run(g, c, "C10", g.chance(1, 2)); }
void c07f(Gen &g, Ctx &c) { Robust::run(g, c, "C07", g.chance(3, 4)); }
void c07c(Gen &g, Ctx &c) {
    // creation failing half way
    net::reset(g.seed64()); pool::begin(pool::GUARD, pool::app);
    std::string err;
    coap_server_t srv; int kind = 4 + g.uni(5); net::fault_at[kind] = g.uni(3); net::fault_errno[kind] = EADDRINUSE;
    int r = coap_server_create(&srv, Sim::handle, net::HOST, "5683");
    if (net::fault_hit[kind]) c.nontrivial();
    if (r == 0) {
        pool::fail_at = g.uni(8);
        size_t cap = coap_mem_small_get_len();
        for (unsigned i = 0, n = g.uni(5); i < n; i++) {
            size_t len = g.chance(1, 2) ? g.uni(8) : cap - 3 + g.uni(6);
            Exact b(std::string(len, 'p') + std::string(1, 0));
            long at = pool::allocs(); 
            int q = coap_server_add_sep_resp_uri_path(&srv, b.p());
            bool fail = (pool::fail_at >= at && pool::fail_at < pool::allocs()) || len + 1 > cap;
            if ((q != 0) != fail && err.empty()) err = fmt("adding a separate response path of %zu bytes (pool buffers have %zu) returned %d", len, cap, q);
        }
        coap_server_destroy(&srv);
    }
    std::string l = pool::end();
    if (!err.empty()) c.fail("%s", err.c_str());
    if (!l.empty()) c.fail("%s after server creation returned %d", l.c_str(), r);
    if (net::open_fds()) c.fail("%ld descriptors open after server creation returned %d", net::open_fds(), r);
    if (net::gai_live) c.fail("an address list was not released");
    if (net::fault_hit[kind] && r == 0) c.fail("a system call failed but server creation reported success");
    if (!net::misuse.empty()) c.fail("%s", net::misuse.c_str());
}
}
PROPERTY("C10", "server-faults", "a send, receive, timer or allocation failure was injected", 1, c10f);
PROPERTY("C07", "server-faults", "a send, receive, timer or allocation failure was injected", 2, c07f);
PROPERTY("C07", "server-create", "creation failed half way", 1, c07c);
PROPERTY("C08", "server-dedup", "a request was received more than once", 1, c08);
PROPERTY("C09", "server-response", "at least one new request was handled", 1, c09);
PROPERTY("C10", "server-reject", "at least one datagram had to be rejected", 1, c10);
PROPERTY("C11", "server-retransmit", "at least one retransmission happened", 1, c11);
PROPERTY("C12", "server-isolation", "several endpoints were served", 2, c12);
PROPERTY("C12", "server-lru", "more than eight endpoints were served", 1, c12lru);
PROPERTY("C07", "server-resources", "requests were served and the server was destroyed", 1, c07s);
