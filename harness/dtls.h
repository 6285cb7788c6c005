// Generated certificates, a reference DTLS peer built directly on GnuTLS, and bookkeeping of the GnuTLS objects of the code under test.
#pragma once
#include "netsim.h"
#include <gnutls/gnutls.h>
#include <gnutls/dtls.h>
#include <gnutls/x509.h>
#include <memory>
namespace pki {
void init();                                      // once per process
enum Issuer { CA1, CA2, INTER, INTER_HIDDEN, SELF, LEAF, FAKE_CA1, OLD_INTER, NUM_ISSUERS };
extern const char *issuer_name[];
struct Spec {
    Issuer issuer = CA1; int64_t from = -1000000, to = 1000000;      // relative to the current time
    std::string cn; std::vector<std::string> sans; unsigned serial = 100; unsigned key = 0;
};
struct Cert { std::vector<gnutls_x509_crt_t> chain; gnutls_x509_privkey_t key; std::string pem, key_pem; ~Cert(); };
std::shared_ptr<Cert> make(const Spec &s);
std::string ca_pem(int ca);                       // 1, 2
std::string crl_pem(int ca, const std::vector<unsigned> &serials);
std::string file(const std::string &content);     // a name under which the content can be read; valid until reset()
void reset();
// does a chain of this kind lead to an anchor among CA1 (1), CA2 (2)?
bool chain_ok(const Spec &s, unsigned anchors);
bool time_ok(const Spec &s, int64_t elapsed);
}
namespace tls {
extern long live[8], count, fail_at;              // objects of the code under test: sessions, credentials, priorities, certificates, dh, global
extern bool failed, unverified_used;            // a call was made to fail; data were read from a session whose certificate could not be examined
void reset();
std::string left();
struct Peer {
    gnutls_session_t s = nullptr; gnutls_certificate_credentials_t cred = nullptr; gnutls_priority_t prio = nullptr;
    std::shared_ptr<pki::Cert> cert;
    std::deque<std::string> in; std::function<void(const std::string &)> out;
    enum { IDLE, HANDSHAKE, UP, DOWN } st = IDLE; int err = 0;
    std::vector<std::string> got, flight;              // received data; the last flight of the handshake
    bool server = false;
    void start(bool is_server, bool ask_client_cert, std::shared_ptr<pki::Cert> c);
    void pump();
    int send(const std::string &d);
    void bye();
    ~Peer();
};
}
