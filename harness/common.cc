#include "common.h"
#include <set>
#include <map>
#include <algorithm>
using pbt::fmt;

#include "heap.inc"

// ---------------------------------------------------------------- pools
namespace pool {
Cfg app = {{128, 128, 32}, {256, 1024, 8192}};
static Mode mode; static Cfg cfg;
static std::set<void *> live[3];
static long nalloc; long fail_at = -1; std::string error;
static bool real_ready; static Cfg real_cfg;
static long base_used[3];

static long realUsed(int k) {
    char *a = k == 0 ? coap_mem_small_get_active() : k == 1 ? coap_mem_medium_get_active() : coap_mem_large_get_active();
    size_t n = k == 0 ? coap_mem_small_get_active_len() : k == 1 ? coap_mem_medium_get_active_len() : coap_mem_large_get_active_len();
    long c = 0;
    for (size_t i = 0; i < n; i++) c += __builtin_popcount((unsigned char)a[i]);
    return c;
}
void setup_real(const Cfg &c) {
    if (real_ready && !memcmp(&c, &real_cfg, sizeof c)) return;
    if (real_ready) coap_mem_all_destroy();
    real_cfg = c; real_ready = true;
    if (coap_mem_all_create(c.num[0], c.len[0], c.num[1], c.len[1], c.num[2], c.len[2]) != 0) abort();
}
void begin(Mode m, const Cfg &c) {
    mode = m; cfg = c; nalloc = 0; fail_at = -1; error.clear();
    for (auto &l : live) { for (void *p : l) free(p); l.clear(); }
    setup_real(c);
    if (m == REAL) for (int k = 0; k < 3; k++) if (realUsed(k)) { coap_mem_all_destroy(); real_ready = false; setup_real(c); break; }
}
long used(int k) { return mode == REAL ? realUsed(k) : (long)live[k].size(); }
long allocs() { return nalloc; }
std::string end() {
    std::string s;
    static const char *nm[3] = {"small", "medium", "large"};
    if (!error.empty()) s = error;
    for (int k = 0; k < 3; k++) if (used(k)) s += fmt("%s%ld %s buffer(s) still allocated", s.empty() ? "" : ", ", used(k), nm[k]);
    return s;
}
static void *alloc(int k, size_t n) {
    long i = nalloc++;
    if (fail_at >= 0 && i == fail_at) return nullptr;
    if (mode == REAL) return k == 0 ? coap_mem_small_alloc(n) : k == 1 ? coap_mem_medium_alloc(n) : coap_mem_large_alloc(n);
    if (n > cfg.len[k] || live[k].size() >= cfg.num[k]) return nullptr;
    void *p = malloc(cfg.len[k]); memset(p, 0xa5, cfg.len[k]);
    live[k].insert(p);
    return p;
}
static void release(int k, void *p) {
    if (mode == REAL) { k == 0 ? coap_mem_small_free(p) : k == 1 ? coap_mem_medium_free(p) : coap_mem_large_free(p); return; }
    if (!p) return;
    if (!live[k].erase(p)) {
        // the pool silently ignores a pointer it does not own; a buffer of another pool stays allocated
        for (int j = 0; j < 3; j++) if (live[j].count(p)) return;
        if (error.empty()) error = "a buffer that is not allocated was freed";
        return;
    }
    free(p);
}
}
extern "C" {
void *vf_coap_mem_small_alloc(size_t n) { return pool::alloc(0, n); }
void *vf_coap_mem_medium_alloc(size_t n) { return pool::alloc(1, n); }
void *vf_coap_mem_large_alloc(size_t n) { return pool::alloc(2, n); }
void vf_coap_mem_small_free(void *p) { pool::release(0, p); }
void vf_coap_mem_medium_free(void *p) { pool::release(1, p); }
void vf_coap_mem_large_free(void *p) { pool::release(2, p); }
size_t vf_coap_mem_small_get_len(void) { return pool::cfg.len[0]; }
size_t vf_coap_mem_medium_get_len(void) { return pool::cfg.len[1]; }
size_t vf_coap_mem_large_get_len(void) { return pool::cfg.len[2]; }
}

// ---------------------------------------------------------------- reference codec
bool ref_sane(const RMsg &m) {
    if (m.empty()) return m.type != 1 && m.token.empty() && m.opts.empty() && m.payload.empty();
    return m.type != 3;
}
RRes ref_decode(const std::string &b, RMsg &m) {
    m = RMsg();
    if (b.size() < 4) return R_FORMAT;
    auto u = [&](size_t i) { return (unsigned)(unsigned char)b[i]; };
    if ((u(0) >> 6) != 1) return R_VERSION;
    m.type = (u(0) >> 4) & 3;
    unsigned tkl = u(0) & 15;
    if (tkl > 8) return R_FORMAT;
    m.cls = u(1) >> 5; m.det = u(1) & 31; m.mid = u(2) << 8 | u(3);
    if (m.cls != 0 && m.cls != 2 && m.cls != 4 && m.cls != 5) return R_FORMAT;
    size_t i = 4;
    if (b.size() - i < tkl) return R_FORMAT;
    m.token = b.substr(i, tkl); i += tkl;
    uint32_t num = 0;
    while (i < b.size()) {
        if (u(i) == 0xff) {
            i++;
            if (i == b.size()) return R_FORMAT;
            m.payload = b.substr(i);
            break;
        }
        uint32_t f[2] = {u(i) >> 4, u(i) & 15};
        i++;
        for (int k = 0; k < 2; k++) {
            if (f[k] == 15) return R_FORMAT;
            if (f[k] == 13) { if (b.size() - i < 1) return R_FORMAT; f[k] = 13 + u(i); i++; }
            else if (f[k] == 14) { if (b.size() - i < 2) return R_FORMAT; f[k] = 269 + (u(i) << 8 | u(i + 1)); i += 2; }
        }
        if (b.size() - i < f[1]) return R_FORMAT;
        num += f[0];
        m.opts.push_back({num, b.substr(i, f[1])});
        i += f[1];
    }
    return ref_sane(m) ? R_OK : R_FORMAT;
}
bool ref_encodable(const RMsg &m) {
    if (!ref_sane(m)) return false;
    uint32_t prev = 0;
    for (auto &o : m.opts) { if (o.num - prev > 65535 + 269 || o.val.size() > 65535 + 269) return false; prev = o.num; }
    return true;
}
std::string ref_encode(const RMsg &m) {
    std::string b;
    auto put = [&](unsigned v) { b += (char)v; };
    put(0x40 | m.type << 4 | (unsigned)m.token.size());
    put(m.cls << 5 | m.det); put(m.mid >> 8); put(m.mid & 255);
    b += m.token;
    uint32_t prev = 0;
    for (auto &o : m.opts) {
        uint32_t f[2] = {o.num - prev, (uint32_t)o.val.size()}; prev = o.num;
        unsigned nib[2]; std::string ext;
        for (int k = 0; k < 2; k++) {
            if (f[k] < 13) nib[k] = f[k];
            else if (f[k] < 269) { nib[k] = 13; ext += (char)(f[k] - 13); }
            else { nib[k] = 14; ext += (char)((f[k] - 269) >> 8); ext += (char)((f[k] - 269) & 255); }
        }
        put(nib[0] << 4 | nib[1]); b += ext + o.val;
    }
    if (!m.payload.empty()) { put(0xff); b += m.payload; }
    return b;
}
std::string ref_str(const RMsg &m) {
    static const char *t[] = {"CON", "NON", "ACK", "RST"};
    std::string s = fmt("%s %u.%02u id=%u tok=%s", m.type < 4 ? t[m.type] : "?", m.cls, m.det, m.mid, pbt::hex(m.token).c_str());
    for (auto &o : m.opts) s += fmt(" opt(%u,%zu:%s)", o.num, o.val.size(), pbt::hex(o.val, 12).c_str());
    if (!m.payload.empty()) s += fmt(" payload(%zu:%s)", m.payload.size(), pbt::hex(m.payload, 8).c_str());
    return s;
}
std::string diff(const RMsg &a, const RMsg &b) {
    if (a.type != b.type) return fmt("type %u vs %u", a.type, b.type);
    if (a.cls != b.cls || a.det != b.det) return fmt("code %u.%02u vs %u.%02u", a.cls, a.det, b.cls, b.det);
    if (a.mid != b.mid) return fmt("message id %u vs %u", a.mid, b.mid);
    if (a.token != b.token) return "token " + pbt::hex(a.token) + " vs " + pbt::hex(b.token);
    if (a.opts.size() != b.opts.size()) return fmt("%zu vs %zu options", a.opts.size(), b.opts.size());
    for (size_t i = 0; i < a.opts.size(); i++) {
        if (a.opts[i].num != b.opts[i].num) return fmt("option[%zu] number %u vs %u", i, a.opts[i].num, b.opts[i].num);
        if (a.opts[i].val != b.opts[i].val) return fmt("option[%zu] (%u) value %s vs %s", i, a.opts[i].num, pbt::hex(a.opts[i].val).c_str(), pbt::hex(b.opts[i].val).c_str());
    }
    if (a.payload != b.payload) return "payload " + pbt::hex(a.payload) + " vs " + pbt::hex(b.payload);
    return "";
}
RMsg from_msg(coap_msg_t *m) {
    RMsg r;
    r.type = coap_msg_get_type(m); r.cls = coap_msg_get_code_class(m); r.det = coap_msg_get_code_detail(m); r.mid = coap_msg_get_msg_id(m);
    unsigned tl = coap_msg_get_token_len(m);
    r.token.assign(coap_msg_get_token(m), tl <= COAP_MSG_MAX_TOKEN_LEN ? tl : COAP_MSG_MAX_TOKEN_LEN);
    for (coap_msg_op_t *o = coap_msg_get_first_op(m); o; o = coap_msg_op_get_next(o)) r.opts.push_back({coap_msg_op_get_num(o), std::string(coap_msg_op_get_val(o), coap_msg_op_get_len(o))});
    if (coap_msg_get_payload(m)) r.payload.assign(coap_msg_get_payload(m), coap_msg_get_payload_len(m));
    else if (coap_msg_get_payload_len(m)) r.payload = "<null payload with length>";
    return r;
}
int to_msg(const RMsg &r, coap_msg_t *m) {
    int e;
    if ((e = coap_msg_set_type(m, r.type)) < 0) return e;
    if ((e = coap_msg_set_code(m, r.cls, r.det)) < 0) return e;
    if ((e = coap_msg_set_msg_id(m, r.mid)) < 0) return e;
    { Exact t(r.token); if ((e = coap_msg_set_token(m, t.p(), r.token.size())) < 0) return e; }
    for (auto &o : r.opts) { Exact v(o.val); if ((e = coap_msg_add_op(m, o.num, o.val.size(), v.p())) < 0) return e; }
    if (!r.payload.empty()) { Exact p(r.payload); if ((e = coap_msg_set_payload(m, p.p(), r.payload.size())) < 0) return e; }
    return 0;
}
void sort_opts(RMsg &m) { std::stable_sort(m.opts.begin(), m.opts.end(), [](const ROpt &a, const ROpt &b) { return a.num < b.num; }); }
int szx_of(unsigned size) { for (int i = 0; i < 7; i++) if (size == 16u << i) return i; return -1; }
int ref_block(const RMsg &m, uint32_t opt, RBlock &b) {
    const ROpt *o = m.find(opt);
    if (!o) return 1;
    if (o->val.size() > 3) return -1;
    unsigned v = 0;
    for (unsigned char c : o->val) v = v << 8 | c;
    if ((v & 7) == 7) return -1;
    b.num = v >> 4; b.more = (v >> 3) & 1; b.size = 16u << (v & 7);
    return 0;
}
std::string ref_block_val(unsigned num, unsigned more, unsigned szx, unsigned len) {
    unsigned v = num << 4 | (more ? 8 : 0) | szx; std::string s;
    for (int i = (int)len - 1; i >= 0; i--) s += (char)(v >> (8 * i));
    return s;
}
bool ref_recognized(uint32_t n) {
    static const std::set<uint32_t> k = {1, 3, 4, 5, 7, 8, 11, 12, 14, 15, 17, 20, 23, 27, 28, 35, 39, 60};
    return k.count(n);
}

// ---------------------------------------------------------------- generators
RMsg gen_msg(pbt::Gen &g, size_t max_payload, size_t max_optlen) {
    RMsg m;
    m.type = g.uni(4);
    switch (g.weighted({3, 3, 3, 1, 1})) {
    case 0: m.cls = 0; m.det = 1 + g.uni(4); break;
    case 1: m.cls = 2; m.det = g.uni(32); break;
    case 2: m.cls = g.oneof({4, 5}); m.det = g.uni(32); break;
    case 3: m.cls = 0; m.det = g.uni(32); break;
    case 4: m.cls = 0; m.det = 0; break;
    }
    m.mid = g.below(65536);
    if (!(m.cls == 0 && m.det == 0) || g.chance(1, 6)) {
        m.token = g.blob(g.uni(9));
        unsigned n = g.weighted({3, 3, 3, 1}) ; n = n == 0 ? 0 : n == 1 ? 1 + g.uni(3) : n == 2 ? 2 + g.uni(8) : g.uni(40);
        for (unsigned i = 0; i < n; i++) {
            ROpt o;
            switch (g.weighted({5, 3, 2, 1})) {
            case 0: o.num = g.oneof({1, 3, 4, 5, 7, 8, 11, 12, 14, 15, 17, 20, 23, 27, 28, 35, 39, 60}); break;
            case 1: o.num = g.below(300); break;
            case 2: o.num = g.below(2000); break;
            case 3: o.num = g.below(65536); break;
            }
            size_t l = g.weighted({6, 3, 2}); l = l == 0 ? g.uni(14) : l == 1 ? g.below(80) : g.below(max_optlen + 1);
            o.val = l <= 4 ? g.bytes(l) : g.blob(l);
            m.opts.push_back(o);
        }
        if (g.chance(1, 2)) m.payload = g.blob(g.below(max_payload + 1));
    }
    return m;
}
std::string mutate_bytes(pbt::Gen &g, std::string s) {
    unsigned k = 1 + g.uni(3);
    while (k--) {
        size_t i = s.empty() ? 0 : g.below(s.size());
        switch (g.uni(7)) {
        case 0: s.resize(g.below(s.size() + 1)); break;
        case 1: if (!s.empty()) s[i] = (char)g.byte(); break;
        case 2: if (!s.empty()) s[i] ^= 1 << g.uni(8); break;
        case 3: s.insert(i, 1, (char)g.byte()); break;
        case 4: if (!s.empty()) s.erase(i, 1 + g.uni(4)); break;
        case 5: s += g.bytes(g.uni(6)); break;
        case 6: if (!s.empty()) s[i] = (char)g.oneof({0xff, 0xd0, 0xe0, 0x0d, 0x0e, 0xdd, 0xee, 0xde, 0xed, 0xf0, 0x0f, 0x80, 0x7f}); break;
        }
    }
    return s;
}
