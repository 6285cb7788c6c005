// C01..C05, C07a: CoAP message codec, editing, block values, option classes.
#include "common.h"
#include <algorithm>
using namespace pbt;

static pool::Mode pickMode(Gen &g) { return g.chance(1, 4) ? pool::REAL : pool::GUARD; }

// ------------------------------------------------------------------ C01 decoding
static void decode_one(Gen &g, Ctx &c, const std::string &b) {
    pool::begin(pickMode(g), pool::app);
    RMsg ref;
    RRes rr = ref_decode(b, ref);
    bool cap = true;                    // fits the buffer pools
    size_t over = 0;
    for (auto &o : ref.opts) if (o.val.size() > pool::app.len[1]) over++;
    if (over || ref.payload.size() > pool::app.len[1] || ref.opts.size() + (ref.payload.empty() ? 0 : 1) > pool::app.num[1]) cap = false;
    Exact e(b);
    coap_msg_t m; memset(&m, 0, sizeof m);
    coap_msg_create(&m);
    // a previous content of the structure must not leak into the result
    if (g.chance(1, 3)) { RMsg junk = gen_msg(g, 40, 20); to_msg(junk, &m); }
    ssize_t r = coap_msg_parse(&m, e.p(), b.size());
    if (b != e.str(b.size())) c.fail("decoding modified its input %s", hex(b).c_str());
    if (rr == R_OK && cap) {
        c.label("accepted");
        if (r < 0) c.fail("well-formed message rejected (%zd): %s = %s", r, hex(b, 200).c_str(), ref_str(ref).c_str());
        RMsg got = from_msg(&m);
        std::string d = diff(ref, got);
        if (!d.empty()) c.fail("decoded fields differ from the wire contents: expected vs actual %s; input %s", d.c_str(), hex(b, 200).c_str());
        if (coap_msg_get_ver(&m) != 1) c.fail("version %u", coap_msg_get_ver(&m));
        if (coap_msg_is_empty(&m) != (ref.empty() ? 1 : 0)) c.fail("emptiness wrong");
        if (!ref.opts.empty() || !ref.payload.empty()) c.nontrivial();
    } else if (rr == R_OK) {
        c.label("too-big");
        if (r >= 0) c.fail("message larger than the buffers accepted: %s", hex(b, 64).c_str());
        c.nontrivial();
    } else {
        if (r >= 0) c.fail("malformed message accepted: %s (%s)", hex(b, 200).c_str(), rr == R_VERSION ? "version" : "format");
        if (rr == R_VERSION && r == -EBADMSG && b.size() >= 4) c.fail("unknown version reported as a format error: %s", hex(b, 40).c_str());
        // a format error must be reported as such (both endpoints answer it with Reset)
        if (rr == R_FORMAT && cap && r != -EBADMSG) c.fail("format error reported as %zd: %s", r, hex(b, 200).c_str());
        c.label(rr == R_VERSION ? "bad-version" : "malformed");
        if (b.size() > 4) c.nontrivial();
    }
    // type and message id are recoverable from any message of at least a header
    unsigned t = 99, id = 99999;
    int q = coap_msg_parse_type_msg_id(e.p(), b.size(), &t, &id);
    if (b.size() < 4 ? q >= 0 : (q != 0 || t != (((unsigned char)b[0] >> 4) & 3u) || id != (((unsigned char)b[2] << 8) | (unsigned char)b[3]))) c.fail("type/message id of %s: %d %u %u", hex(b, 8).c_str(), q, t, id);
    coap_msg_destroy(&m);
    std::string left = pool::end();
    if (!left.empty()) c.fail("after destroying the message: %s; input %s", left.c_str(), hex(b, 100).c_str());
    c.describe(hex(b, 60) + (rr == R_OK ? " ok " + ref_str(ref) : " reject"));
}
static void c01_struct(Gen &g, Ctx &c) {
    RMsg m = gen_msg(g, 1040, 1100);
    sort_opts(m);
    std::string b = ref_encode(m);
    if (g.chance(1, 2)) b = mutate_bytes(g, b);
    decode_one(g, c, b);
}
PROPERTY("C01", "decode-structured", "input longer than a header that is rejected, or accepted with options or payload", 5, c01_struct);
static void c01_raw(Gen &g, Ctx &c) {
    std::string b;
    size_t n = g.below(60);
    b = g.bytes(n);
    if (n && g.chance(7, 8)) b[0] = (char)(0x40 | (b[0] & 0x3f));
    if (n && g.chance(1, 2)) b[0] = (char)(b[0] & 0xf3);
    if (n > 1 && g.chance(2, 3)) b[1] = (char)g.oneof({1, 0x45, 0x84, 2, 3, 0xa0});
    decode_one(g, c, b);
}
PROPERTY("C01", "decode-raw", "input longer than a header that is rejected, or accepted with options or payload", 2, c01_raw);
// handcrafted option headers: every nibble combination with chosen extension bytes and exact/short remainders
static void c01_opts(Gen &g, Ctx &c) {
    std::string b;
    b += (char)(0x40 | g.uni(3) << 4); b += (char)g.oneof({0x01, 0x45}); b += "\x12\x34";
    unsigned n = 1 + g.uni(4);
    for (unsigned i = 0; i < n; i++) {
        unsigned d = g.uni(16), l = g.uni(16);
        b += (char)(d << 4 | l);
        if (d == 13) b += (char)g.byte(); else if (d == 14) { b += (char)g.oneof({0, 0, 1, 0x7f, 0x80, 0xff}); b += (char)g.byte(); }
        size_t len = l;
        if (l == 13) { uint8_t x = g.byte(); b += (char)x; len = 13 + x; } else if (l == 14) { uint8_t h = g.oneof({0, 0, 1, 2, 3, 4}), x = g.byte(); b += (char)h; b += (char)x; len = 269 + (h << 8 | x); }
        else if (l == 15) len = 0;
        if (i + 1 == n && g.chance(1, 3)) len = len ? len - 1 : 0;
        b += g.blob(len);
    }
    if (g.chance(1, 3)) { b += (char)0xff; b += g.blob(g.oneof({0, 1, 5, 900, 1024, 1025})); }
    decode_one(g, c, b);
}
PROPERTY("C01", "decode-options", "input longer than a header that is rejected, or accepted with options or payload", 3, c01_opts);

// ------------------------------------------------------------------ C02 encoding
static void c02_encode(Gen &g, Ctx &c) {
    pool::begin(pickMode(g), pool::app);
    RMsg m = gen_msg(g, 1024, 1024);
    if (g.chance(1, 12)) m.cls = g.uni(8);
    if (g.chance(1, 10) && !m.opts.empty()) m.opts[g.uni(m.opts.size())].num = 65536 + g.below(80000);
    coap_msg_t s; memset(&s, 0, sizeof s); coap_msg_create(&s);
    int e = to_msg(m, &s);
    sort_opts(m);
    bool cap = m.opts.size() + 1 <= pool::app.num[1];
    if (e < 0) {
        if (cap) c.fail("building a valid message failed: %d for %s", e, ref_str(m).c_str());
        coap_msg_destroy(&s);
        std::string l = pool::end(); if (!l.empty()) c.fail("%s", l.c_str());
        return;
    }
    bool enc = ref_encodable(m);
    std::string want = enc ? ref_encode(m) : "";
    size_t lens[4]; unsigned nl = 0;
    lens[nl++] = want.size();
    if (want.size()) lens[nl++] = want.size() - 1;
    lens[nl++] = g.below(want.size() + 3);
    lens[nl++] = 1152;
    for (unsigned i = 0; i < nl; i++) {
        size_t n = lens[i];
        Exact buf(n, 0x5a);
        ssize_t r = coap_msg_format(&s, buf.p(), n);
        if (!enc) { if (r >= 0) c.fail("message that has no wire representation was encoded: %s", ref_str(m).c_str()); c.label("unencodable"); continue; }
        if (n < want.size()) { if (r >= 0) c.fail("encoding %zu bytes into %zu succeeded (%zd): %s", want.size(), n, r, ref_str(m).c_str()); c.label("too-small"); }
        else {
            if (r < 0) c.fail("encoding into a sufficient buffer failed (%zd; need %zu have %zu): %s", r, want.size(), n, ref_str(m).c_str());
            if ((size_t)r != want.size() || buf.str(r) != want) c.fail("encoded bytes differ: got %s want %s for %s", hex(buf.p(), r, 120).c_str(), hex(want, 120).c_str(), ref_str(m).c_str());
        }
    }
    if (enc) {
        std::string d = diff(m, from_msg(&s));
        if (!d.empty()) c.fail("encoding changed the message: %s", d.c_str());
        bool classok = m.cls == 0 || m.cls == 2 || m.cls == 4 || m.cls == 5;
        if (classok) {
            Exact b(want); coap_msg_t t; memset(&t, 0, sizeof t); coap_msg_create(&t);
            ssize_t r = coap_msg_parse(&t, b.p(), want.size());
            bool cap2 = 2 * (m.opts.size() + 1) <= pool::app.num[1];
            if (r < 0) { if (cap2) c.fail("round trip rejected (%zd): %s", r, ref_str(m).c_str()); }
            else { d = diff(m, from_msg(&t)); if (!d.empty()) c.fail("round trip changed the message: %s for %s", d.c_str(), ref_str(m).c_str()); }
            coap_msg_destroy(&t);
        }
        if (!m.opts.empty() || !m.payload.empty()) c.nontrivial();
        c.label("encoded");
    }
    coap_msg_destroy(&s);
    std::string l = pool::end(); if (!l.empty()) c.fail("%s", l.c_str());
    c.describe(ref_str(m));
}
PROPERTY("C02", "encode-roundtrip", "encodable message with at least one option or a payload", 1, c02_encode);

// ------------------------------------------------------------------ C03 editing
static void c03_edit(Gen &g, Ctx &c) {
    pool::begin(pickMode(g), pool::app);
    const unsigned N = 3;
    coap_msg_t m[N]; RMsg r[N];
    memset(m, 0, sizeof m);
    for (auto &x : m) coap_msg_create(&x);
    unsigned steps = g.chance(1, 40) ? 1 + g.below(150) : 1 + g.uni(30), adds = 0, dups = 0;
    auto budget = [&] { size_t n = 0; for (auto &x : r) n += x.opts.size() + (x.payload.empty() ? 0 : 1); return n; };
    std::string log;
    for (unsigned s = 0; s < steps; s++) {
        unsigned i = g.uni(N);
        int e = 0; bool expect_ok = true;
        switch (g.weighted({10, 2, 2, 2, 2, 3, 1, 3, 1, 1})) {
        case 0: {
            ROpt o; o.num = g.chance(1, 2) ? g.uni(6) : g.chance(1, 2) ? g.below(70) : g.below(70000); size_t l = g.chance(1, 15) ? 1000 + g.below(60) : g.uni(10); o.val = g.blob(l);
            expect_ok = l <= 1024 && budget() < pool::app.num[1];
            Exact v(o.val); e = coap_msg_add_op(&m[i], o.num, l, v.p());
            if (expect_ok) { for (auto &x : r[i].opts) if (x.num == o.num) dups++; r[i].opts.push_back(o); sort_opts(r[i]); adds++; }
            log += fmt("add(%u,%u,%zu) ", i, o.num, l); break; }
        case 1: { unsigned t = g.chance(1, 4) ? g.below(300) : g.uni(4); expect_ok = t < 4; e = coap_msg_set_type(&m[i], t); if (expect_ok) r[i].type = t; log += fmt("type(%u,%u) ", i, t); break; }
        case 2: { unsigned a = g.below(12), b = g.below(40); expect_ok = a <= 7 && b <= 31; e = coap_msg_set_code(&m[i], a, b); if (expect_ok) { r[i].cls = a; r[i].det = b; } log += fmt("code(%u,%u.%u) ", i, a, b); break; }
        case 3: { unsigned a = g.below(70000); expect_ok = a <= 65535; e = coap_msg_set_msg_id(&m[i], a); if (expect_ok) r[i].mid = a; log += fmt("id(%u,%u) ", i, a); break; }
        case 4: { size_t l = g.below(13); std::string t = g.blob(l); Exact v(t); expect_ok = l <= 8; e = coap_msg_set_token(&m[i], v.p(), l); if (expect_ok) r[i].token = t; log += fmt("token(%u,%zu) ", i, l); break; }
        case 5: { size_t l = g.chance(1, 3) ? g.below(1030) : g.uni(20); std::string t = g.blob(l); Exact v(t); expect_ok = l <= 1024 && budget() < pool::app.num[1]; e = coap_msg_set_payload(&m[i], v.p(), l); if (e == 0) r[i].payload = t; else r[i].payload = ""; log += fmt("payload(%u,%zu) ", i, l); break; }
        case 6: coap_msg_clear_payload(&m[i]); r[i].payload = ""; log += fmt("clear(%u) ", i); break;
        case 7: { unsigned j = g.uni(N); if (j == i) j = (i + 1) % N;
            coap_msg_reset(&m[j]); r[j] = RMsg();
            expect_ok = budget() + r[i].opts.size() + 1 <= pool::app.num[1];
            e = coap_msg_copy(&m[j], &m[i]);
            if (e == 0) r[j] = r[i]; else { coap_msg_reset(&m[j]); r[j] = RMsg(); }
            if (coap_msg_get_ver(&m[j]) != 1) c.fail("copy has version %u", coap_msg_get_ver(&m[j]));
            c.label("copy"); log += fmt("copy(%u->%u) ", i, j); break; }
        case 8: coap_msg_reset(&m[i]); r[i] = RMsg(); log += fmt("reset(%u) ", i); break;
        case 9: coap_msg_destroy(&m[i]); coap_msg_create(&m[i]); r[i] = RMsg(); break;
        }
        if (expect_ok && e != 0) c.fail("valid edit rejected (%d): %s", e, log.c_str());
        if (!expect_ok && e == 0) c.fail("invalid edit accepted: %s", log.c_str());
        for (unsigned k = 0; k < N; k++) { std::string d = diff(r[k], from_msg(&m[k])); if (!d.empty()) c.fail("message %u after %s: expected vs actual %s", k, log.c_str(), d.c_str()); }
    }
    for (auto &x : m) coap_msg_destroy(&x);
    std::string l = pool::end(); if (!l.empty()) c.fail("%s after %s", l.c_str(), log.c_str());
    if (adds >= 3 && dups) c.nontrivial();
    c.describe(log);
}
PROPERTY("C03", "edit-model", "at least three options added, with a repeated option number", 1, c03_edit);

// ------------------------------------------------------------------ C04 block values
static void c04_block(Gen &g, Ctx &c) {
    if (g.chance(1, 2)) {
        size_t len = g.weighted({1, 3, 3, 4, 1}); if (len == 4) len = 4 + g.uni(6);
        std::string v = g.bytes(len);
        Exact e(v);
        unsigned num = 1u << 30, more = 77, size = 77;
        int r = coap_msg_op_parse_block_val(&num, &more, &size, e.p(), len);
        RMsg m; m.opts.push_back({23, v});
        RBlock b; int rr = ref_block(m, 23, b);
        if (rr == 0 ? (r != 0 || num != b.num || more != b.more || size != b.size) : r >= 0)
            c.fail("block value %s decoded as %d num %u more %u size %u, expected %d num %u more %u size %u", hex(v).c_str(), r, num, more, size, rr, b.num, b.more, b.size);
        if (len >= 1) c.nontrivial();
        c.label(rr == 0 ? "parse-ok" : "parse-reject"); c.describe("parse " + hex(v));
    } else {
        unsigned len = g.uni(5), more = g.chance(1, 8) ? g.below(300) : g.uni(2), size = g.chance(1, 6) ? g.below(3000) : 16u << g.uni(7);
        unsigned num = g.chance(1, 10) ? (unsigned)g.uni(1ull << 32) : g.below((1u << 20) + 4);
        if (len >= 1 && len <= 3 && g.chance(1, 2)) num = (1u << (4 + 8 * (len - 1))) - 2 + g.uni(5);
        Exact e(len, 0x33);
        int r = coap_msg_op_format_block_val(e.p(), len, num, more, size);
        bool ok = len >= 1 && len <= 3 && szx_of(size) >= 0 && num < (1u << (4 + 8 * (len - 1)));
        if (!ok) { if (r >= 0) c.fail("block value num %u size %u in %u bytes accepted (%d: %s)", num, size, len, r, hex(e.p(), len).c_str()); c.label("format-reject"); }
        else {
            std::string w = ref_block_val(num, more, szx_of(size), len);
            if (r != (int)len || e.str(len) != w) c.fail("block value num %u more %u size %u in %u bytes gave %d %s, expected %s", num, more, size, len, r, hex(e.p(), len).c_str(), hex(w).c_str());
            unsigned n2, m2, s2;
            if (coap_msg_op_parse_block_val(&n2, &m2, &s2, e.p(), len) != 0 || n2 != num || m2 != !!more || s2 != size) c.fail("block value does not read back: num %u more %u size %u", num, more, size);
            c.label("format-ok");
        }
        c.nontrivial(); c.describe(fmt("format num %u more %u size %u len %u", num, more, size, len));
    }
    unsigned size = g.chance(1, 2) ? 1u << g.uni(16) : g.below(5000);
    int z = coap_msg_op_calc_block_szx(size), w = szx_of(size);
    if (w < 0 ? z >= 0 : z != w) c.fail("size exponent of %u is %d", size, z);
}
PROPERTY("C04", "block-values", "non-empty value parsed or a value formatted", 3, c04_block);
static void c04_find(Gen &g, Ctx &c) {
    pool::begin(pool::GUARD, pool::app);
    RMsg m; m.cls = 2; m.det = 5;
    unsigned n = g.uni(7);
    for (unsigned i = 0; i < n; i++) { ROpt o; o.num = g.oneof({23, 27, 11, 23, 27, 28, 60, 14}); o.val = g.bytes(g.uni(5)); m.opts.push_back(o); }
    coap_msg_t s; memset(&s, 0, sizeof s); coap_msg_create(&s);
    if (to_msg(m, &s) < 0) c.fail("build failed");
    sort_opts(m);
    for (uint32_t t : {23u, 27u}) {
        unsigned num = 0, more = 0, size = 0; RBlock b;
        int r = coap_msg_parse_block_op(&num, &more, &size, &s, t), w = ref_block(m, t, b);
        if (w == 0 ? (r != 0 || num != b.num || more != b.more || size != b.size) : w == 1 ? r != 1 : r >= 0)
            c.fail("block option %u of %s: got %d num %u more %u size %u, expected %d num %u more %u size %u", t, ref_str(m).c_str(), r, num, more, size, w, b.num, b.more, b.size);
        if (w == 0) { c.nontrivial(); c.label("found"); }
    }
    coap_msg_destroy(&s);
    std::string l = pool::end(); if (!l.empty()) c.fail("%s", l.c_str());
    c.describe(ref_str(m));
}
PROPERTY("C04", "block-option-lookup", "the message has a valid block option", 1, c04_find);

// ------------------------------------------------------------------ C05 option classes and path text
static void c05_classes(Gen &g, Ctx &c) {
    pool::begin(pickMode(g), pool::app);
    RMsg m; m.cls = 0; m.det = 1;
    unsigned n = g.chance(1, 40) ? g.below(60) : g.uni(8);
    for (unsigned i = 0; i < n; i++) { ROpt o; o.num = g.chance(1, 2) ? g.below(70) : g.chance(1, 2) ? g.below(300) : g.below(66000); o.val = g.blob(g.uni(5)); m.opts.push_back(o); }
    coap_msg_t s; memset(&s, 0, sizeof s); coap_msg_create(&s);
    if (to_msg(m, &s) < 0) c.fail("build failed");
    sort_opts(m);
    unsigned crit = 0, uns = 0;
    for (auto &o : m.opts) { bool k = ref_recognized(o.num); if (!crit && (o.num & 1) && !k) crit = o.num; if (!uns && (o.num & 2) && !k) uns = o.num;
        if (!!coap_msg_op_num_is_recognized(o.num) != k) c.fail("option %u recognised: %d", o.num, !k);
        if (!!coap_msg_op_num_is_critical(o.num) != !!(o.num & 1) || !!coap_msg_op_num_is_unsafe(o.num) != !!(o.num & 2) || !!coap_msg_op_num_no_cache_key(o.num) != ((o.num & 0x1e) == 0x1c)) c.fail("option %u classified wrongly", o.num); }
    unsigned a = coap_msg_check_critical_ops(&s), b = coap_msg_check_unsafe_ops(&s);
    if (a != crit) c.fail("unrecognised critical option: got %u expected %u in %s", a, crit, ref_str(m).c_str());
    if (b != uns) c.fail("unrecognised unsafe option: got %u expected %u in %s", b, uns, ref_str(m).c_str());
    if (crit || uns) c.nontrivial();
    c.label(crit ? "critical" : "no-critical");
    coap_msg_destroy(&s);
    std::string l = pool::end(); if (!l.empty()) c.fail("%s", l.c_str());
    c.describe(ref_str(m));
}
PROPERTY("C05", "option-classes", "an unrecognised critical or unsafe option is present", 1, c05_classes);
static void c05_path(Gen &g, Ctx &c) {
    pool::begin(pool::GUARD, pool::app);
    RMsg m; m.cls = 0; m.det = 1;
    unsigned n = g.chance(1, 40) ? g.below(40) : g.uni(6), np = 0;
    for (unsigned i = 0; i < n; i++) { ROpt o; o.num = g.oneof({11, 11, 11, 8, 15, 12, 10, 3}); o.val = g.chance(1, 4) ? g.blob(g.below(300)) : g.str(g.uni(12), "abcde./-"); if (o.num == 11) np++; m.opts.push_back(o); }
    coap_msg_t s; memset(&s, 0, sizeof s); coap_msg_create(&s);
    if (to_msg(m, &s) < 0) c.fail("build failed");
    sort_opts(m);
    std::string want = m.path();
    size_t lens[] = {want.size() + 1, want.size(), want.size() + 2, (size_t)g.below(400), 256, 2};
    for (size_t len : lens) {
        if (len < 2) continue;
        Exact b(len, 0x77);
        size_t r = coap_msg_uri_path_to_str(&s, b.p(), len);
        if (r != want.size()) c.fail("path length %zu, expected %zu, buffer %zu for %s", r, want.size(), len, ref_str(m).c_str());
        std::string w = want.substr(0, len - 1);
        if (b.str(w.size()) != w || b.p()[w.size()] != 0) c.fail("path text '%s' expected '%s'", cesc(b.str(w.size())).c_str(), cesc(w).c_str());
    }
    if (np >= 2) c.nontrivial();
    coap_msg_destroy(&s);
    std::string l = pool::end(); if (!l.empty()) c.fail("%s", l.c_str());
    c.describe(cesc(want));
}
PROPERTY("C05", "path-text", "at least two path segments", 1, c05_path);

// ------------------------------------------------------------------ C07 message operations under allocation failure
static void c07_msg(Gen &g, Ctx &c) {
    pool::Cfg cfg = pool::app;
    cfg.num[0] = 8 * (1 + g.uni(3)); cfg.num[1] = 8 * (1 + g.uni(3));
    cfg.len[1] = g.oneof({1024, 64, 16});
    pool::begin(pickMode(g), cfg);
    pool::fail_at = g.chance(2, 3) ? (long)g.uni(30) : -1;
    coap_msg_t a, b; memset(&a, 0, sizeof a); memset(&b, 0, sizeof b); coap_msg_create(&a); coap_msg_create(&b);
    unsigned steps = 1 + g.uni(8), fails = 0;
    for (unsigned i = 0; i < steps; i++) {
        RMsg m = gen_msg(g, 80, 80); sort_opts(m);
        switch (g.uni(4)) {
        case 0: { coap_msg_reset(&a); if (to_msg(m, &a) < 0) fails++; break; }
        case 1: { std::string s = ref_encode(m); Exact e(s); if (coap_msg_parse(&a, e.p(), s.size()) < 0) fails++; break; }
        case 2: { coap_msg_reset(&b); if (coap_msg_copy(&b, &a) < 0) fails++; else { std::string d = diff(from_msg(&a), from_msg(&b)); if (!d.empty()) c.fail("copy differs: %s", d.c_str()); } break; }
        case 3: { std::string p = g.blob(g.below(120)); Exact e(p); if (coap_msg_set_payload(&a, e.p(), p.size()) < 0) fails++; break; }
        }
    }
    coap_msg_destroy(&a); coap_msg_destroy(&b);
    std::string l = pool::end(); if (!l.empty()) c.fail("after destroying all messages (failed allocation %ld): %s", pool::fail_at, l.c_str());
    if (fails) c.nontrivial();
    c.descf("pools %zux%zu %zux%zu, failing allocation %ld, %u operations failed", cfg.num[0], cfg.len[0], cfg.num[1], cfg.len[1], pool::fail_at, fails);
}
PROPERTY("C07", "message-alloc-failure", "at least one operation failed for lack of memory", 1, c07_msg);
