#include "dtls.h"
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <time.h>
extern "C" time_t vf_time(time_t *);
extern "C" int vf_clock_gettime(clockid_t, struct timespec *);
// the TLS library measures its timeouts with the simulated clock, too
extern "C" int clock_gettime(clockid_t c, struct timespec *t) { return vf_clock_gettime(c, t); }
namespace pki {
const char *issuer_name[] = {"CA1", "CA2", "intermediate", "intermediate-not-sent", "self-signed", "not-a-CA", "forged-CA1", "expired-intermediate"};
static const int NK = 8;
static gnutls_x509_privkey_t key[NK + 6];
static gnutls_x509_crt_t ca[3], inter, leafca, fake, oldinter;      // ca[1], ca[2]
static std::vector<int> open_files;
static void ck(int r, const char *w) { if (r < 0) { fprintf(stderr, "harness: %s: %s\n", w, gnutls_strerror(r)); abort(); } }
static gnutls_x509_crt_t build(const std::string &cn, int64_t from, int64_t to, unsigned serial, gnutls_x509_privkey_t k, gnutls_x509_crt_t issuer, gnutls_x509_privkey_t ik, bool isca, const std::vector<std::string> &sans = {}) {
    gnutls_x509_crt_t c; ck(gnutls_x509_crt_init(&c), "crt_init");
    ck(gnutls_x509_crt_set_version(c, 3), "version"); ck(gnutls_x509_crt_set_key(c, k), "key");
    ck(gnutls_x509_crt_set_dn_by_oid(c, GNUTLS_OID_X520_COMMON_NAME, 0, cn.data(), cn.size()), "dn");
    time_t now = vf_time(nullptr);
    ck(gnutls_x509_crt_set_activation_time(c, now + from), "act"); ck(gnutls_x509_crt_set_expiration_time(c, now + to), "exp");
    unsigned char s[4] = {(unsigned char)(serial >> 24 & 0x7f), (unsigned char)(serial >> 16), (unsigned char)(serial >> 8), (unsigned char)serial};
    ck(gnutls_x509_crt_set_serial(c, s, 4), "serial");
    ck(gnutls_x509_crt_set_ca_status(c, isca), "ca");
    if (isca) ck(gnutls_x509_crt_set_key_usage(c, GNUTLS_KEY_KEY_CERT_SIGN | GNUTLS_KEY_CRL_SIGN), "usage");
    unsigned char id[64]; size_t il = sizeof id;
    ck(gnutls_x509_crt_get_key_id(c, 0, id, &il), "keyid"); ck(gnutls_x509_crt_set_subject_key_id(c, id, il), "ski");
    if (issuer) { il = sizeof id; ck(gnutls_x509_crt_get_subject_key_id(issuer, id, &il, nullptr), "ski"); ck(gnutls_x509_crt_set_authority_key_id(c, id, il), "aki"); }
    for (auto &n : sans) ck(gnutls_x509_crt_set_subject_alt_name(c, GNUTLS_SAN_DNSNAME, n.data(), n.size(), GNUTLS_FSAN_APPEND), "san");
    ck(gnutls_x509_crt_sign2(c, issuer ? issuer : c, ik ? ik : k, GNUTLS_DIG_SHA256, 0), "sign");
    return c;
}
void init() {
    static bool done; if (done) return; done = true;
    net::reset(1);
    gnutls_global_init(); gnutls_global_set_time_function(vf_time);
    for (auto &k : key) { ck(gnutls_x509_privkey_init(&k), "key"); ck(gnutls_x509_privkey_generate(k, GNUTLS_PK_ECDSA, GNUTLS_CURVE_TO_BITS(GNUTLS_ECC_CURVE_SECP256R1), 0), "gen"); }
    int64_t Y = 100000000;
    ca[1] = build("Root One", -Y, Y, 1, key[NK], nullptr, nullptr, true);
    ca[2] = build("Root Two", -Y, Y, 2, key[NK + 1], nullptr, nullptr, true);
    inter = build("Middle", -Y, Y, 3, key[NK + 2], ca[1], key[NK], true);
    leafca = build("Ordinary", -Y, Y, 4, key[NK + 3], ca[1], key[NK], false);
    fake = build("Root One", -Y, Y, 1, key[NK + 4], nullptr, nullptr, true);
    oldinter = build("Old Middle", -Y, -Y / 2, 5, key[NK + 5], ca[1], key[NK], true);
}
static std::string pem(gnutls_x509_crt_t c) { gnutls_datum_t d; ck(gnutls_x509_crt_export2(c, GNUTLS_X509_FMT_PEM, &d), "export"); std::string s((char *)d.data, d.size); gnutls_free(d.data); return s; }
std::string ca_pem(int i) { return pem(ca[i]); }
Cert::~Cert() { if (!chain.empty()) gnutls_x509_crt_deinit(chain[0]); }
std::shared_ptr<Cert> make(const Spec &s) {
    auto c = std::make_shared<Cert>();
    gnutls_x509_privkey_t k = key[s.key % NK];
    gnutls_x509_crt_t is = nullptr; gnutls_x509_privkey_t ik = nullptr;
    switch (s.issuer) {
    case CA1: is = ca[1]; ik = key[NK]; break;
    case CA2: is = ca[2]; ik = key[NK + 1]; break;
    case INTER: case INTER_HIDDEN: is = inter; ik = key[NK + 2]; break;
    case LEAF: is = leafca; ik = key[NK + 3]; break;
    case FAKE_CA1: is = fake; ik = key[NK + 4]; break;
    case OLD_INTER: is = oldinter; ik = key[NK + 5]; break;
    default: break;
    }
    c->chain.push_back(build(s.cn, s.from, s.to, s.serial, k, is, ik, false, s.sans));
    if (s.issuer == INTER || s.issuer == LEAF || s.issuer == OLD_INTER) c->chain.push_back(is);
    if (s.issuer == FAKE_CA1) c->chain.push_back(fake);
    if (s.issuer == CA2) c->chain.push_back(ca[2]);
    c->key = k;
    for (auto x : c->chain) c->pem += pem(x);
    gnutls_datum_t d; ck(gnutls_x509_privkey_export2(k, GNUTLS_X509_FMT_PEM, &d), "export"); c->key_pem.assign((char *)d.data, d.size); gnutls_free(d.data);
    return c;
}
std::string crl_pem(int i, const std::vector<unsigned> &serials) {
    gnutls_x509_crl_t r; ck(gnutls_x509_crl_init(&r), "crl");
    gnutls_x509_crl_set_version(r, 2); time_t now = vf_time(nullptr);
    gnutls_x509_crl_set_this_update(r, now - 1000000); gnutls_x509_crl_set_next_update(r, now + 1000000);
    for (unsigned n : serials) { unsigned char s[4] = {(unsigned char)(n >> 24 & 0x7f), (unsigned char)(n >> 16), (unsigned char)(n >> 8), (unsigned char)n}; ck(gnutls_x509_crl_set_crt_serial(r, s, 4, now - 1000), "crl serial"); }
    unsigned char num = 1; gnutls_x509_crl_set_number(r, &num, 1);
    ck(gnutls_x509_crl_sign2(r, ca[i], key[NK + i - 1], GNUTLS_DIG_SHA256, 0), "crl sign");
    gnutls_datum_t d; ck(gnutls_x509_crl_export2(r, GNUTLS_X509_FMT_PEM, &d), "export"); std::string s((char *)d.data, d.size); gnutls_free(d.data);
    gnutls_x509_crl_deinit(r); return s;
}
std::string file(const std::string &content) {
    int fd = memfd_create("vf", 0); if (fd < 0) abort();
    for (size_t p = 0; p < content.size();) { ssize_t n = write(fd, content.data() + p, content.size() - p); if (n <= 0) abort(); p += n; }
    open_files.push_back(fd);
    return pbt::fmt("/proc/self/fd/%d", fd);
}
void reset() { for (int fd : open_files) close(fd); open_files.clear(); }
bool chain_ok(const Spec &s, unsigned anchors) {
    switch (s.issuer) {
    case CA1: case INTER: return anchors & 1;
    case CA2: return anchors & 2;
    default: return false;
    }
}
bool time_ok(const Spec &s, int64_t elapsed) { return s.from <= elapsed && s.to >= elapsed; }
}
namespace tls {
long live[8], count, fail_at = -1; bool failed, unverified_used; static std::vector<gnutls_session_t> unverified;
static const char *what[] = {"sessions", "credentials", "priorities", "certificates", "Diffie-Hellman parameters", "library references", "", ""};
void reset() { for (auto &l : live) l = 0; count = 0; fail_at = -1; failed = unverified_used = false; unverified.clear(); }
std::string left() { std::string s; for (int i = 0; i < 8; i++) if (live[i]) s += pbt::fmt("%s%ld %s", s.empty() ? "" : ", ", live[i], what[i]); return s; }
static bool deny() { if (fail_at >= 0 && count == fail_at) { count++; failed = true; return true; } count++; return false; }
static ssize_t push(gnutls_transport_ptr_t p, const void *d, size_t n) { Peer *x = (Peer *)p; std::string s((const char *)d, n); if (x->st == Peer::HANDSHAKE) x->flight.push_back(s); x->out(s); return n; }
static ssize_t pull(gnutls_transport_ptr_t p, void *d, size_t n) {
    Peer *x = (Peer *)p; if (x->in.empty()) { gnutls_transport_set_errno(x->s, EAGAIN); return -1; }
    std::string s = x->in.front(); x->in.pop_front(); size_t k = std::min(n, s.size()); memcpy(d, s.data(), k); return k;
}
static int pull_timeout(gnutls_transport_ptr_t p, unsigned) { return !((Peer *)p)->in.empty(); }
void Peer::start(bool is_server, bool ask, std::shared_ptr<pki::Cert> c) {
    server = is_server;
    cert = c;
    gnutls_certificate_allocate_credentials(&cred);
    if (c) { int r = gnutls_certificate_set_x509_key(cred, c->chain.data(), c->chain.size(), c->key); if (r < 0) abort(); }
    const char *e; if (gnutls_priority_init(&prio, "NORMAL", &e) < 0) abort();
    gnutls_init(&s, (server ? GNUTLS_SERVER : GNUTLS_CLIENT) | GNUTLS_DATAGRAM | GNUTLS_NONBLOCK);
    gnutls_priority_set(s, prio); gnutls_credentials_set(s, GNUTLS_CRD_CERTIFICATE, cred);
    if (ask) gnutls_certificate_server_set_request(s, GNUTLS_CERT_REQUEST);
    gnutls_transport_set_ptr(s, this); gnutls_transport_set_push_function(s, push); gnutls_transport_set_pull_function(s, pull); gnutls_transport_set_pull_timeout_function(s, pull_timeout);
    gnutls_dtls_set_mtu(s, 1152); gnutls_dtls_set_timeouts(s, 1000, 60000);
    st = HANDSHAKE;
}
void Peer::pump() {
    for (int i = 0; i < 50 && st == HANDSHAKE; i++) {
        if (!in.empty()) flight.clear();
        int r = gnutls_handshake(s);
        if (r == 0) st = UP;
        else if (r == GNUTLS_E_AGAIN || r == GNUTLS_E_INTERRUPTED) { if (in.empty()) break; }
        else if (gnutls_error_is_fatal(r)) { st = DOWN; err = r; }
    }
    while (st == UP && !in.empty()) {
        // the other side repeats its last flight: ours was lost (the library leaves this to a timer)
        if (server && in.front().size() > 5 && in.front()[0] == 22 && in.front()[4] == 1) for (auto &f : flight) out(f);
        char b[4096]; ssize_t n = gnutls_record_recv(s, b, sizeof b);
        if (n > 0) got.push_back(std::string(b, n));
        else if (n == 0 || (n != GNUTLS_E_AGAIN && gnutls_error_is_fatal(n))) { st = DOWN; err = n; }
    }
}
int Peer::send(const std::string &d) { return st == UP ? gnutls_record_send(s, d.data(), d.size()) : -1; }
void Peer::bye() { if (st == UP) { gnutls_bye(s, GNUTLS_SHUT_WR); st = DOWN; } }
Peer::~Peer() { if (s) gnutls_deinit(s); if (prio) gnutls_priority_deinit(prio); if (cred) gnutls_certificate_free_credentials(cred); }
}
using namespace tls;
extern "C" {
int vf_gnutls_global_init(void) { if (deny()) return GNUTLS_E_MEMORY_ERROR; live[5]++; return gnutls_global_init(); }
void vf_gnutls_global_deinit(void) { live[5]--; gnutls_global_deinit(); }
int vf_gnutls_init(gnutls_session_t *s, unsigned f) { if (deny()) return GNUTLS_E_MEMORY_ERROR; int r = gnutls_init(s, f); if (r >= 0) live[0]++; return r; }
void vf_gnutls_deinit(gnutls_session_t s) { live[0]--; for (size_t i = 0; i < unverified.size(); i++) if (unverified[i] == s) unverified.erase(unverified.begin() + i--); gnutls_deinit(s); }
int vf_gnutls_certificate_allocate_credentials(gnutls_certificate_credentials_t *c) { if (deny()) return GNUTLS_E_MEMORY_ERROR; int r = gnutls_certificate_allocate_credentials(c); if (r >= 0) live[1]++; return r; }
void vf_gnutls_certificate_free_credentials(gnutls_certificate_credentials_t c) { live[1]--; gnutls_certificate_free_credentials(c); }
int vf_gnutls_priority_init(gnutls_priority_t *p, const char *s, const char **e) { if (deny()) return GNUTLS_E_INVALID_REQUEST; int r = gnutls_priority_init(p, s, e); if (r >= 0) live[2]++; return r; }
void vf_gnutls_priority_deinit(gnutls_priority_t p) { live[2]--; gnutls_priority_deinit(p); }
int vf_gnutls_x509_crt_init(gnutls_x509_crt_t *c) { if (deny()) return GNUTLS_E_MEMORY_ERROR; int r = gnutls_x509_crt_init(c); if (r >= 0) live[3]++; return r; }
void vf_gnutls_x509_crt_deinit(gnutls_x509_crt_t c) { live[3]--; gnutls_x509_crt_deinit(c); }
int vf_gnutls_credentials_set(gnutls_session_t s, gnutls_credentials_type_t t, void *c) { return deny() ? GNUTLS_E_MEMORY_ERROR : gnutls_credentials_set(s, t, c); }
int vf_gnutls_priority_set(gnutls_session_t s, gnutls_priority_t p) { return deny() ? GNUTLS_E_INVALID_REQUEST : gnutls_priority_set(s, p); }
// a session whose certificate could not be examined must not be used
int vf_gnutls_certificate_verify_peers2(gnutls_session_t s, unsigned *st) { if (deny()) { unverified.push_back(s); return GNUTLS_E_MEMORY_ERROR; } return gnutls_certificate_verify_peers2(s, st); }
const gnutls_datum_t *vf_gnutls_certificate_get_peers(gnutls_session_t s, unsigned *n) { if (deny()) { unverified.push_back(s); *n = 0; return nullptr; } return gnutls_certificate_get_peers(s, n); }
int vf_gnutls_x509_crt_import(gnutls_x509_crt_t c, const gnutls_datum_t *d, gnutls_x509_crt_fmt_t f) { return deny() ? GNUTLS_E_MEMORY_ERROR : gnutls_x509_crt_import(c, d, f); }
ssize_t vf_gnutls_record_recv(gnutls_session_t s, void *d, size_t n) { for (auto u : unverified) if (u == s) unverified_used = true; return gnutls_record_recv(s, d, n); }
int vf_gnutls_dh_params_init(gnutls_dh_params_t *d) { if (deny()) return GNUTLS_E_MEMORY_ERROR; int r = gnutls_dh_params_init(d); if (r >= 0) live[4]++; return r; }
void vf_gnutls_dh_params_deinit(gnutls_dh_params_t d) { live[4]--; gnutls_dh_params_deinit(d); }
int vf_gnutls_dh_params_generate2(gnutls_dh_params_t d, unsigned) {      // generating a prime takes seconds
    if (deny()) return GNUTLS_E_MEMORY_ERROR;
    return gnutls_dh_params_import_raw(d, &gnutls_ffdhe_2048_group_prime, &gnutls_ffdhe_2048_group_generator);
}
}
