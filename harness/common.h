// Shared harness parts: exact-size buffers, controllable heap and pools, reference CoAP codec.
#pragma once
#include "pbt.h"
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <sanitizer/asan_interface.h>
#include <string>
#include <vector>
#include <utility>
extern "C" {
#include "coap_msg.h"
#include "coap_mem.h"
}

// a heap buffer of exactly n usable bytes: any access outside it is reported by ASan
struct Exact {
    char *raw; size_t n;
    explicit Exact(size_t len, int fill = 0) : n(len) { raw = (char *)malloc(len + 32); memset(raw, fill, len + 32); ASAN_POISON_MEMORY_REGION(raw + len, 32); }
    explicit Exact(const std::string &s) : Exact(s.size()) { memcpy(raw, s.data(), s.size()); }
    ~Exact() { ASAN_UNPOISON_MEMORY_REGION(raw, n + 32); free(raw); }
    Exact(const Exact &) = delete;
    char *p() { return raw; }
    std::string str(size_t k) const { return std::string(raw, k); }
};

// ---- heap used by the code under test (malloc etc. are renamed to vf_* in its objects)
namespace heap {
extern long live;            // blocks currently allocated by the code under test
extern long count;           // allocations since reset
extern long fail_at;         // fail the allocation with this index (-1: never)
extern bool fail_rest;       // and all later ones
void reset();
}
// ---- buffer pools used by the code under test (coap_mem_* calls are renamed to vf_coap_mem_*)
namespace pool {
enum Mode { REAL, GUARD };
struct Cfg { size_t num[3], len[3]; };
extern Cfg app;              // what the sample applications use
void begin(Mode m, const Cfg &c);     // start a case
// how many buffers of pool k are in use
long used(int k);
long allocs();               // number of allocations since begin
extern long fail_at;         // fail the pool allocation with this index
extern std::string error;    // invalid free etc. (GUARD)
std::string end();           // "" or a description of what was left allocated
void setup_real(const Cfg &c);
}

// ---- reference model of a CoAP message (RFC 7252 section 3)
struct ROpt { uint32_t num; std::string val; };
struct RMsg {
    unsigned type = 0, cls = 0, det = 0, mid = 0;
    std::string token;
    std::vector<ROpt> opts;
    std::string payload;
    bool empty() const { return cls == 0 && det == 0; }
    bool has(uint32_t n) const { for (auto &o : opts) if (o.num == n) return true; return false; }
    const ROpt *find(uint32_t n) const { for (auto &o : opts) if (o.num == n) return &o; return nullptr; }
    std::string path() const { std::string s; bool any = false; for (auto &o : opts) if (o.num == 11) { s += "/" + o.val; any = true; } return any ? s : "/"; }
};
enum RRes { R_OK, R_FORMAT, R_VERSION };
RRes ref_decode(const std::string &b, RMsg &m);
std::string ref_encode(const RMsg &m);        // options in the given order (must be sorted)
bool ref_encodable(const RMsg &m);
bool ref_sane(const RMsg &m);                 // type/code/emptiness rules
std::string ref_str(const RMsg &m);
std::string diff(const RMsg &a, const RMsg &b);   // "" when equal
RMsg from_msg(coap_msg_t *m);                 // read through the public accessors
// build through the public API; returns 0 or the first error
int to_msg(const RMsg &r, coap_msg_t *m);
void sort_opts(RMsg &m);
struct RBlock { unsigned num = 0, more = 0, size = 0; };
int ref_block(const RMsg &m, uint32_t opt, RBlock &b);    // 0 ok, 1 absent, -1 invalid
std::string ref_block_val(unsigned num, unsigned more, unsigned szx, unsigned len);
int szx_of(unsigned size);
// options that a recipient must know: as an endpoint the critical ones, in a proxy the unsafe ones
#ifdef COAP_PROXY
inline bool must_know(uint32_t num) { return num & 2; }
#else
inline bool must_know(uint32_t num) { return num & 1; }
#endif
bool ref_recognized(uint32_t num);

// ---- generators
RMsg gen_msg(pbt::Gen &g, size_t max_payload = 1024, size_t max_optlen = 300);
std::string mutate_bytes(pbt::Gen &g, std::string s);
