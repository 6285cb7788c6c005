#include "pbt.h"
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <unordered_set>
#include <set>
#include <algorithm>

namespace pbt {

// ---------------------------------------------------------------- coverage and constants
static const uint32_t MAXG = 1 << 16;
static uint8_t hits[MAXG];
static uint8_t seen[MAXG];
static uint32_t nguards;
static const uint32_t MAXC = 2048;
static uint64_t consts[MAXC];
static uint32_t nconsts;
static uint8_t constmap[1 << 14];
static bool tracing;

static inline void addConst(uint64_t v) {
    if (v < 3 || v > 0xffffffffull) return;
    uint32_t h = (uint32_t)((v * 0x9E3779B97F4A7C15ull) >> 50);
    if (constmap[h]) return;
    constmap[h] = 1;
    if (nconsts < MAXC) consts[nconsts++] = v;
}
}
extern "C" {
void __sanitizer_cov_trace_pc_guard_init(uint32_t *start, uint32_t *stop) {
    if (start == stop || *start) return;
    for (uint32_t *p = start; p < stop; p++) { *p = (++pbt::nguards) & (pbt::MAXG - 1); if (!*p) *p = 1; }
}
void __sanitizer_cov_trace_pc_guard(uint32_t *g) {
    uint8_t &h = pbt::hits[*g]; if (h != 255) h++;
}
void __sanitizer_cov_trace_const_cmp1(uint8_t a, uint8_t) { if (pbt::tracing) pbt::addConst(a); }
void __sanitizer_cov_trace_const_cmp2(uint16_t a, uint16_t) { if (pbt::tracing) pbt::addConst(a); }
void __sanitizer_cov_trace_const_cmp4(uint32_t a, uint32_t) { if (pbt::tracing) pbt::addConst(a); }
void __sanitizer_cov_trace_const_cmp8(uint64_t a, uint64_t) { if (pbt::tracing) pbt::addConst(a); }
void __sanitizer_cov_trace_cmp1(uint8_t, uint8_t) {}
void __sanitizer_cov_trace_cmp2(uint16_t, uint16_t) {}
void __sanitizer_cov_trace_cmp4(uint32_t, uint32_t) {}
void __sanitizer_cov_trace_cmp8(uint64_t, uint64_t) {}
void __sanitizer_cov_trace_div4(uint32_t) {}
void __sanitizer_cov_trace_div8(uint64_t) {}
void __sanitizer_cov_trace_gep(uintptr_t) {}
void __sanitizer_cov_trace_switch(uint64_t, uint64_t *c) {
    if (!pbt::tracing) return;
    for (uint64_t i = 0; i < c[0] && i < 64; i++) pbt::addConst(c[2 + i]);
}
}
namespace pbt {

// ---------------------------------------------------------------- random source
static inline uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
static uint64_t splitmix(uint64_t &x) {
    uint64_t z = (x += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31);
}
void Gen::reseed(uint64_t seed) { for (auto &v : s) v = splitmix(seed); }
uint64_t Gen::next() {
    uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
    s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
    return r;
}
uint64_t Gen::emit(uint64_t v) {
    if (nrec && *nrec < maxrec) { rec[*nrec] = v; __atomic_store_n(nrec, *nrec + 1, __ATOMIC_RELEASE); }
    pos++;
    return v;
}
bool Gen::fromBase(uint64_t n, uint64_t *v) {
    if (pos >= maxrec) { *v = 0; return true; }
    if (mode == REPLAY) {
        if (pos < base.size()) { *v = base[pos] % n; return true; }
        if (!pad_random) { *v = 0; return true; }
    }
    return false;
}
uint64_t Gen::uni(uint64_t n) {
    uint64_t v;
    if (n == 0) n = 1;
    if (fromBase(n, &v)) return emit(v);
    return emit(next() % n);
}
uint64_t Gen::below(uint64_t n, int64_t lo) {
    uint64_t v;
    if (n == 0) n = 1;
    if (fromBase(n, &v)) return emit(v);
    if (n <= 8) return emit(next() % n);
    uint64_t r = next() % 100;
    if (r < 35) v = next() % n;
    else if (r < 60) { uint64_t m = 1ull << (next() % 12); if (m > n) m = n; v = next() % m; }
    else if (r < 68) { uint64_t k = next() % 4; v = k < n ? n - 1 - k : 0; }
    else if (r < 88 && nconsts) {
        int64_t c = (int64_t)consts[next() % nconsts] - lo;
        int64_t d = (int64_t)(next() % 8); c += d < 4 ? 0 : d == 4 ? -1 : d == 5 ? 1 : d == 6 ? -2 : 2;
        if (c < 0 || (uint64_t)c >= n) v = next() % n; else v = (uint64_t)c;
    } else {
        int64_t c = (int64_t)1 << (next() % 32); c += (int64_t)(next() % 3) - 1; c -= lo;
        if (c < 0 || (uint64_t)c >= n) v = next() % n; else v = (uint64_t)c;
    }
    return emit(v);
}
bool Gen::chance(unsigned num, unsigned den) {
    uint64_t v;
    if (num >= den) return true;
    if (fromBase(2, &v)) return emit(v);
    return emit(next() % den < num ? 1 : 0);
}
unsigned Gen::weighted(std::initializer_list<unsigned> w) {
    uint64_t v;
    if (fromBase(w.size(), &v)) return (unsigned)emit(v);
    unsigned tot = 0, i = 0;
    for (unsigned x : w) tot += x;
    uint64_t r = next() % tot;
    for (unsigned x : w) { if (r < x) break; r -= x; i++; }
    return (unsigned)emit(i);
}
std::string Gen::bytes(size_t n) { std::string o(n, 0); for (auto &c : o) c = (char)byte(); return o; }
std::string Gen::blob(size_t n) {
    uint64_t x = uni(1ull << 32);
    std::string o(n, 0);
    uint64_t v = 0;
    for (size_t i = 0; i < n; i++) { if (i % 8 == 0) v = splitmix(x); o[i] = (char)(v >> (8 * (i % 8))); }
    return o;
}
std::string Gen::str(size_t n, const char *a) { size_t l = strlen(a); std::string o(n, 0); for (auto &c : o) c = a[uni(l)]; return o; }

// ---------------------------------------------------------------- context helpers
static std::string vfmt(const char *f, va_list ap) {
    char b[4096]; int n = vsnprintf(b, sizeof b, f, ap); if (n < 0) n = 0; if (n >= (int)sizeof b) n = sizeof b - 1; return std::string(b, n);
}
std::string fmt(const char *f, ...) { va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap); return s; }
void Ctx::fail(const char *f, ...) { va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap); if (first.empty()) first = s; throw Fail{first}; }
void Ctx::note(const char *f, ...) { va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap); if (first.empty()) first = s; }
void Ctx::descf(const char *f, ...) { if (!want) return; va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap); describe(s); }
std::string hex(const void *p, size_t n, size_t max) {
    std::string o; const uint8_t *b = (const uint8_t *)p; char t[4];
    for (size_t i = 0; i < n && i < max; i++) { snprintf(t, 4, "%02x", b[i]); o += t; }
    if (n > max) o += fmt("..(%zu)", n);
    return o;
}
std::string hex(const std::string &s, size_t max) { return hex(s.data(), s.size(), max); }
std::string cesc(const std::string &s, size_t max) {
    std::string o;
    for (size_t i = 0; i < s.size() && i < max; i++) {
        unsigned char c = s[i];
        if (c == '\r') o += "\\r"; else if (c == '\n') o += "\\n"; else if (c == '\\') o += "\\\\"; else if (c < 32 || c > 126) o += fmt("\\x%02x", c); else o += (char)c;
    }
    if (s.size() > max) o += fmt("..(%zu)", s.size());
    return o;
}
void (*worker_init)();
const char *scratch_dir = "/tmp";
unsigned worker_index;

// ---------------------------------------------------------------- registry
static std::vector<Prop> &props() { static std::vector<Prop> p; return p; }
void add(const Prop &p) { props().push_back(p); }

// ---------------------------------------------------------------- shared state
static const uint32_t MAXCH = 1 << 15;
static const uint32_t NHIST = 24;
static const uint32_t HISTCH = 2048;
struct Rec { uint32_t prop; uint32_t n; uint64_t ch[HISTCH]; };
struct Shm {
    volatile uint64_t cases;
    volatile uint64_t started_ms;        // start time of the current case
    volatile uint32_t prop;              // index of the current case's property
    uint32_t n;
    uint64_t ch[MAXCH];
    uint32_t state;                      // 0 running, 1 failed, 2 done
    char msg[8192];
    uint32_t hist_n;
    Rec hist[NHIST];
};
static uint64_t now_ms() { struct timespec t; syscall(228 /* clock_gettime */, CLOCK_MONOTONIC, &t); return (uint64_t)t.tv_sec * 1000 + t.tv_nsec / 1000000; }

struct Seq { uint32_t prop; std::vector<uint64_t> ch; };

static uint64_t hashSeq(uint32_t prop, const uint64_t *c, uint32_t n) {
    uint64_t h = 0xcbf29ce484222325ull ^ prop;
    for (uint32_t i = 0; i < n; i++) { h ^= c[i]; h *= 0x100000001b3ull; h ^= h >> 29; }
    return h;
}

struct Stats {
    uint64_t evals = 0, nontrivial = 0, discards = 0;
    std::unordered_set<uint64_t> distinct;
    std::map<std::string, uint64_t> labels;
    std::map<std::string, uint64_t> per;
    std::vector<std::string> samples;
    uint64_t edges = 0, corpus = 0;
};

// run one case in this process; returns false and sets msg on failure
static bool runCase(const Prop &p, Gen &g, Ctx &c, std::string &msg) {
    try { p.run(g, c); if (c.failed()) { msg = c.first; return false; } }
    catch (Fail &f) { msg = f.msg; return false; }
    catch (Discard &) { c.nt = false; c.labels["discarded"]++; }
    return true;
}

struct Corpus { std::vector<std::vector<uint64_t>> v; };

static void mutate(std::vector<uint64_t> &v, Gen &r, const Corpus &co) {
    unsigned k = 1 + r.next() % 4;
    while (k--) {
        if (v.empty()) return;
        size_t i = r.next() % v.size();
        switch (r.next() % 7) {
        case 0: v[i] = r.next(); break;
        case 1: v[i] += 1; break;
        case 2: v[i] = v[i] ? v[i] - 1 : 0; break;
        case 3: v[i] = nconsts ? consts[r.next() % nconsts] + r.next() % 3 - 1 : r.next() % 300; break;
        case 4: { size_t l = 1 + r.next() % 8; if (i + l > v.size()) l = v.size() - i; v.erase(v.begin() + i, v.begin() + i + l); break; }
        case 5: { size_t l = 1 + r.next() % 12; if (i + l > v.size()) l = v.size() - i; std::vector<uint64_t> t(v.begin() + i, v.begin() + i + l); v.insert(v.begin() + (r.next() % (v.size() + 1)), t.begin(), t.end()); break; }
        case 6: { const auto &o = co.v[r.next() % co.v.size()]; if (o.empty()) break; size_t j = r.next() % o.size(); v.resize(i); v.insert(v.end(), o.begin() + j, o.end()); break; }
        }
    }
    if (v.size() > MAXCH) v.resize(MAXCH);
}

static void worker(unsigned wi, const std::vector<uint32_t> &sel, uint64_t seed, double secs, uint64_t maxcases, Shm *shm, const std::string &out) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    worker_index = wi;
    if (worker_init) worker_init();
    Stats st;
    Gen pr; pr.reseed(seed * 1000003 + wi * 7919 + 17);
    std::map<uint32_t, Corpus> corp;
    unsigned totw = 0;
    for (uint32_t i : sel) totw += props()[i].weight;
    uint64_t t0 = now_ms();
    tracing = true;
    for (uint64_t k = 0; k < maxcases; k++) {
        if ((k & 15) == 0 && now_ms() - t0 > secs * 1000) break;
        uint32_t pi = sel[0];
        if (sel.size() > 1) { uint64_t r = pr.next() % totw; for (uint32_t i : sel) { if (r < props()[i].weight) { pi = i; break; } r -= props()[i].weight; } }
        const Prop &p = props()[pi];
        Gen g; Ctx c;
        g.reseed(pr.next());
        Corpus &co = corp[pi];
        if (!co.v.empty() && pr.next() % 100 < 40) {
            g.mode = Gen::REPLAY; g.pad_random = true;
            g.base = co.v[pr.next() % co.v.size()];
            mutate(g.base, pr, co);
        }
        shm->n = 0; shm->prop = pi; shm->started_ms = now_ms();
        g.rec = shm->ch; g.nrec = &shm->n; g.maxrec = MAXCH;
        c.want = st.samples.size() < 2 && k > 20;
        std::string msg;
        bool ok = runCase(p, g, c, msg);
        st.evals++; st.per[p.name]++;
        shm->cases = st.evals;
        if (!ok) {
            snprintf(shm->msg, sizeof shm->msg, "%s", msg.c_str());
            __atomic_store_n(&shm->state, 1, __ATOMIC_RELEASE);
            _exit(77);
        }
        for (auto &l : c.labels) st.labels[std::string(p.name) + "/" + l.first] += l.second;
        if (c.nt) {
            st.nontrivial++;
            if (st.distinct.size() < 3000000) st.distinct.insert(hashSeq(pi, shm->ch, shm->n));
            if (c.want && !c.desc.empty()) st.samples.push_back(std::string(p.name) + ": " + c.desc);
        }
        bool fresh = false;
        for (uint32_t i = 1; i <= nguards && i < MAXG; i++) if (hits[i]) {
            uint8_t h = hits[i], b = h < 4 ? h : h < 8 ? 4 : h < 16 ? 5 : h < 32 ? 6 : h < 128 ? 7 : 8;
            uint8_t m = (uint8_t)(1u << (b - 1));
            if (!(seen[i] & m)) { if (!seen[i]) st.edges++; seen[i] |= m; fresh = true; }
            hits[i] = 0;
        }
        if (fresh && co.v.size() < 4000 && shm->n < 6000) { co.v.emplace_back(shm->ch, shm->ch + shm->n); st.corpus++; }
        Rec &h = shm->hist[shm->hist_n % NHIST];
        h.prop = pi; h.n = shm->n <= HISTCH ? shm->n : 0; memcpy(h.ch, shm->ch, h.n * 8);
        shm->hist_n++;
    }
    FILE *f = fopen(out.c_str(), "w");
    if (f) {
        fprintf(f, "evals %llu\nnontrivial %llu\nedges %llu\ncorpus %llu\nguards %u\n", (unsigned long long)st.evals, (unsigned long long)st.nontrivial, (unsigned long long)st.edges, (unsigned long long)st.corpus, nguards);
        for (auto &l : st.labels) fprintf(f, "label %llu %s\n", (unsigned long long)l.second, l.first.c_str());
        for (auto &l : st.per) fprintf(f, "per %llu %s\n", (unsigned long long)l.second, l.first.c_str());
        for (auto &s : st.samples) { std::string e = cesc(s, 3000); fprintf(f, "sample %s\n", e.c_str()); }
        for (auto h : st.distinct) fprintf(f, "h %llx\n", (unsigned long long)h);
        fclose(f);
    }
    __atomic_store_n(&shm->state, 2, __ATOMIC_RELEASE);
    _exit(0);
}

struct Outcome { bool failed; std::string kind, msg; std::vector<Seq> ran; };
static Shm *rshm;
static std::string errfile;

// replay sequences in a fresh child
static Outcome replay(const std::vector<Seq> &seqs, double timeout_s, bool verbose) {
    Outcome o{false, "", "", {}};
    rshm->state = 0; rshm->msg[0] = 0; rshm->n = 0; rshm->cases = 0;
    pid_t pid = fork();
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        if (!verbose) { int fd = open(errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); } }
        if (worker_init) worker_init();
        for (size_t i = 0; i < seqs.size(); i++) {
            Gen g; Ctx c; g.reseed(1); g.mode = Gen::REPLAY; g.pad_random = false; g.base = seqs[i].ch;
            rshm->n = 0; rshm->prop = seqs[i].prop; g.rec = rshm->ch; g.nrec = &rshm->n; g.maxrec = MAXCH;
            c.want = verbose;
            std::string msg;
            bool ok = runCase(props()[seqs[i].prop], g, c, msg);
            rshm->cases = i + 1;
            if (verbose) fprintf(stderr, "[%s] %s\n", props()[seqs[i].prop].name, c.desc.c_str());
            if (!ok) { snprintf(rshm->msg, sizeof rshm->msg, "%s", msg.c_str()); rshm->state = 1; _exit(77); }
        }
        rshm->state = 2;
        _exit(0);
    }
    uint64_t t0 = now_ms(); int status = 0; bool timed = false;
    while (true) {
        pid_t r = waitpid(pid, &status, WNOHANG);
        if (r == pid) break;
        if (now_ms() - t0 > timeout_s * 1000) { kill(pid, SIGKILL); waitpid(pid, &status, 0); timed = true; break; }
        usleep(now_ms() - t0 < 20 ? 200 : 2000);
    }
    if (timed) { o.failed = true; o.kind = "hang"; o.msg = fmt("case did not finish within %.0f s", timeout_s); }
    else if (WIFEXITED(status) && WEXITSTATUS(status) == 0) return o;
    else if (WIFEXITED(status) && WEXITSTATUS(status) == 77) { o.failed = true; o.kind = "oracle"; o.msg = rshm->msg; }
    else {
        o.failed = true; o.kind = "crash";
        o.msg = WIFSIGNALED(status) ? fmt("killed by signal %d", WTERMSIG(status)) : fmt("sanitizer or abnormal exit %d", WEXITSTATUS(status));
        FILE *f = fopen(errfile.c_str(), "r");
        if (f) { char b[512]; while (fgets(b, sizeof b, f)) if (strstr(b, "ERROR: AddressSanitizer") || strstr(b, "runtime error") || strstr(b, "WARNING: ThreadSanitizer")) { b[strcspn(b, "\n")] = 0; o.msg += std::string(": ") + b; break; }
            while (f && fgets(b, sizeof b, f)) if (!strncmp(b, "SUMMARY:", 8)) { b[strcspn(b, "\n")] = 0; o.msg += std::string("; ") + b; break; } fclose(f); }
    }
    size_t done = rshm->cases;
    for (size_t i = 0; i < done && i < seqs.size() && !(o.failed && i + 1 > done); i++) o.ran.push_back(seqs[i]);
    if (o.failed) {
        if (o.kind == "oracle" && !o.ran.empty()) o.ran.pop_back();
        o.ran.push_back(Seq{rshm->prop, std::vector<uint64_t>(rshm->ch, rshm->ch + rshm->n)});
    }
    return o;
}

static std::vector<Seq> shrink(std::vector<Seq> cur, double budget_s, double to, std::string kind, uint64_t &tries) {
    uint64_t t0 = now_ms();
    auto left = [&] { return now_ms() - t0 < budget_s * 1000; };
    auto test = [&](std::vector<Seq> &cand) {
        tries++;
        Outcome o = replay(cand, to, false);
        if (o.failed && o.kind == kind) {
            if (o.ran.size() <= cand.size() && !o.ran.empty()) cand = o.ran;  // canonical (truncated) sequence
            return true;
        }
        return false;
    };
    // drop leading cases
    while (cur.size() > 1 && left()) {
        bool any = false;
        for (size_t i = 0; i + 1 < cur.size() && left(); i++) {
            auto c = cur; c.erase(c.begin() + i);
            if (test(c)) { cur = c; any = true; break; }
        }
        if (!any) break;
    }
    bool progress = true;
    while (progress && left()) {
        progress = false;
        for (size_t q = 0; q < cur.size() && left(); q++) {
            for (size_t len = std::max<size_t>(1, cur[q].ch.size() / 2); len >= 1 && left(); len = len / 2) {
                for (size_t i = 0; i + len <= cur[q].ch.size() && left();) {
                    auto c = cur; c[q].ch.erase(c[q].ch.begin() + i, c[q].ch.begin() + i + len);
                    if (test(c) && c.size() > q && c[q].ch.size() < cur[q].ch.size()) { cur = c; progress = true; } else i += len;
                    if (q >= cur.size()) break;
                }
                if (len == 1) break;
            }
            for (size_t i = 0; q < cur.size() && i < cur[q].ch.size() && left(); i++) {
                uint64_t v = cur[q].ch[i];
                if (!v) continue;
                for (uint64_t nv : {(uint64_t)0, v / 2, v - 1}) {
                    if (nv >= v) continue;
                    auto c = cur; c[q].ch[i] = nv;
                    if (test(c)) { if (c[q].ch.size() <= cur[q].ch.size()) { cur = c; progress = true; break; } }
                    if (!left()) break;
                }
            }
        }
    }
    return cur;
}

static bool saveSeqs(const std::string &path, const std::vector<Seq> &s, const std::string &id, const Outcome &o) {
    FILE *f = fopen(path.c_str(), "w");
    if (!f) return false;
    std::string m = cesc(o.msg, 1500);
    fprintf(f, "# property %s\n# %s: %s\n", id.c_str(), o.kind.c_str(), m.c_str());
    for (auto &q : s) { fprintf(f, "case %s", props()[q.prop].name); for (auto v : q.ch) fprintf(f, " %llu", (unsigned long long)v); fprintf(f, "\n"); }
    fclose(f);
    return true;
}
static bool loadSeqs(const std::string &path, std::vector<Seq> &s) {
    FILE *f = fopen(path.c_str(), "r");
    if (!f) return false;
    std::string line; int ch;
    while ((ch = fgetc(f)) != EOF) {
        if (ch != '\n') { line += (char)ch; continue; }
        if (line.compare(0, 5, "case ") == 0) {
            char *p = strdup(line.c_str() + 5), *save, *t = strtok_r(p, " ", &save);
            Seq q; bool found = false;
            for (uint32_t i = 0; i < props().size(); i++) if (t && !strcmp(props()[i].name, t)) { q.prop = i; found = true; }
            while ((t = strtok_r(nullptr, " ", &save))) q.ch.push_back(strtoull(t, nullptr, 10));
            free(p);
            if (found) s.push_back(q);
        }
        line.clear();
    }
    fclose(f);
    return true;
}

static std::string jstr(const std::string &s) {
    std::string o = "\"";
    for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c < 32 || c > 126) o += fmt("\\u%04x", c); else o += (char)c; }
    return o + "\"";
}

// usage: harness ID --secs S --seed N --jobs J --out DIR [--max N] | harness ID --replay FILE [--verbose]
int main(int argc, char **argv) {
    std::string id, outdir = "/tmp", rfile, only; double secs = 10; uint64_t seed = 1, maxc = UINT64_MAX; unsigned jobs = 8; bool verbose = false; double case_to = 30;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nx = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--secs") secs = atof(nx().c_str()); else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10);
        else if (a == "--jobs") jobs = atoi(nx().c_str()); else if (a == "--out") outdir = nx(); else if (a == "--max") maxc = strtoull(nx().c_str(), 0, 10);
        else if (a == "--replay") rfile = nx(); else if (a == "--verbose") verbose = true; else if (a == "--only") only = nx(); else if (a == "--case-timeout") case_to = atof(nx().c_str());
        else id = a;
    }
    static std::string sd = outdir; scratch_dir = sd.c_str();
    errfile = outdir + "/stderr.txt";
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    rshm = (Shm *)mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::vector<uint32_t> sel;
    for (uint32_t i = 0; i < props().size(); i++) if (id == props()[i].id && (only.empty() || only == props()[i].name)) sel.push_back(i);
    if (sel.empty()) { fprintf(stderr, "no such property %s\n", id.c_str()); return 2; }
    if (!rfile.empty()) {
        std::vector<Seq> s;
        if (!loadSeqs(rfile, s)) { fprintf(stderr, "cannot read %s\n", rfile.c_str()); return 2; }
        Outcome o = replay(s, case_to, verbose);
        printf("%s %s %s\n", o.failed ? "FAIL" : "PASS", o.kind.c_str(), o.msg.c_str());
        return o.failed ? 1 : 0;
    }
    std::vector<Shm *> sh(jobs); std::vector<pid_t> pid(jobs); std::vector<std::string> wout(jobs);
    uint64_t t0 = now_ms();
    uint64_t unrepro = 0;
    Stats tot; std::vector<std::string> unmsg;
    Outcome fo{false, "", "", {}}; std::vector<Seq> fseq; uint64_t tries = 0;
    for (unsigned w = 0; w < jobs; w++) sh[w] = (Shm *)mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    auto spawn = [&](unsigned w, uint64_t sd2, double s2) {
        sh[w]->state = 0; sh[w]->cases = 0; sh[w]->hist_n = 0; sh[w]->n = 0; sh[w]->started_ms = now_ms();
        wout[w] = outdir + fmt("/w%u.txt", w);
        unlink(wout[w].c_str());
        pid[w] = fork();
        if (pid[w] == 0) {
            std::string ef = outdir + fmt("/w%u.err", w);
            int fd = open(ef.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); }
            worker(w, sel, sd2, s2, maxc, sh[w], wout[w]);
        }
    };
    for (unsigned w = 0; w < jobs; w++) spawn(w, seed, secs);
    unsigned alive = jobs; unsigned respawns = 0;
    while (alive) {
        bool any = false;
        for (unsigned w = 0; w < jobs; w++) {
            if (pid[w] <= 0) continue;
            int status; pid_t r = waitpid(pid[w], &status, WNOHANG); bool hang = false;
            if (r == 0) {
                int64_t began = (int64_t)sh[w]->started_ms;     // read before the clock, so that the difference is not negative
                if ((int64_t)now_ms() - began > (int64_t)(case_to * 1000)) { kill(pid[w], SIGKILL); waitpid(pid[w], &status, 0); hang = true; }
                else continue;
            }
            any = true; pid[w] = 0; alive--;
            if (!hang && WIFEXITED(status) && WEXITSTATUS(status) == 0) continue;
            // failure: reproduce in a fresh process
            tot.evals += sh[w]->cases;
            Seq q{sh[w]->prop, std::vector<uint64_t>(sh[w]->ch, sh[w]->ch + sh[w]->n)};
            std::string wmsg = sh[w]->msg;
            std::vector<Seq> one{q};
            Outcome o = replay(one, case_to, false);
            std::vector<Seq> rep = one;
            if (!o.failed) {
                std::vector<Seq> h; uint32_t n = sh[w]->hist_n, m = n < NHIST ? n : NHIST;
                for (uint32_t i = n - m; i < n; i++) { Rec &c = sh[w]->hist[i % NHIST]; h.push_back(Seq{c.prop, std::vector<uint64_t>(c.ch, c.ch + c.n)}); }
                h.push_back(q);
                o = replay(h, case_to, false); rep = h;
            }
            if (o.failed) { Outcome o2 = replay(rep, case_to, false); if (!o2.failed) o = replay(rep, case_to, false); }
            if (!o.failed) {
                unrepro++;
                std::string kind = hang ? "hang" : WIFSIGNALED(status) ? fmt("signal %d", WTERMSIG(status)) : fmt("exit %d", WEXITSTATUS(status));
                unmsg.push_back(kind + ": " + wmsg);
                double left = secs - (now_ms() - t0) / 1000.0;
                if (left > 1 && respawns < 20) { respawns++; spawn(w, seed + 1000 + respawns, left); alive++; }
                continue;
            }
            for (unsigned v = 0; v < jobs; v++) if (pid[v] > 0) { kill(pid[v], SIGKILL); waitpid(pid[v], &status, 0); pid[v] = 0; tot.evals += sh[v]->cases; alive--; }
            // and once more with nothing else of this run going on
            Outcome oq = o;
            for (int t = 0; t < 4; t++) { oq = replay(rep, case_to, false); if (oq.failed) break; }
            if (!oq.failed) {
                unrepro++; unmsg.push_back("only while other workers ran: " + o.kind + " " + o.msg);
                double left = secs - (now_ms() - t0) / 1000.0;
                if (left > 1 && respawns < 20) { respawns++; for (unsigned v = 0; v < jobs; v++) { spawn(v, seed + 1000 + respawns, left); alive++; } }
                break;
            }
            fo = oq; fseq = rep;
            break;
        }
        if (!any) usleep(5000);
    }
    if (fo.failed) {
        fseq = shrink(fseq, fo.kind == "hang" ? 20 : 25, fo.kind == "hang" ? 3 : case_to, fo.kind, tries);
        Outcome o = replay(fseq, case_to, false);
        if (o.failed) fo = o;
        std::string path = outdir + "/replay.txt";
        saveSeqs(path, fseq, id, fo);
    }
    std::set<std::string> rules;
    for (unsigned w = 0; w < jobs; w++) {
        FILE *f = fopen(wout[w].c_str(), "r");
        if (!f) continue;
        char *b = nullptr; size_t cap = 0; ssize_t n;
        while ((n = getline(&b, &cap, f)) > 0) {
            if (b[n - 1] == '\n') b[n - 1] = 0;
            unsigned long long v = 0; int off = 0;
            if (sscanf(b, "h %llx", &v) == 1) tot.distinct.insert(v);
            else if (sscanf(b, "evals %llu", &v) == 1) tot.evals += v;
            else if (sscanf(b, "nontrivial %llu", &v) == 1) tot.nontrivial += v;
            else if (sscanf(b, "edges %llu", &v) == 1) tot.edges = std::max<uint64_t>(tot.edges, v);
            else if (sscanf(b, "corpus %llu", &v) == 1) tot.corpus += v;
            else if (sscanf(b, "guards %llu", &v) == 1) nguards = (uint32_t)v;
            else if (sscanf(b, "label %llu %n", &v, &off) == 1 && off) tot.labels[b + off] += v;
            else if (sscanf(b, "per %llu %n", &v, &off) == 1 && off) tot.per[b + off] += v;
            else if (!strncmp(b, "sample ", 7) && tot.samples.size() < 8) tot.samples.push_back(b + 7);
        }
        free(b); fclose(f);
    }
    for (uint32_t i : sel) rules.insert(std::string(props()[i].name) + ": " + props()[i].rule);
    std::string js = "{";
    js += fmt("\"evaluations\":%llu,\"nontrivial\":%llu,\"distinct_nontrivial\":%zu,\"edges\":%llu,\"edges_total\":%u,\"corpus\":%llu,\"wall_s\":%.2f,\"unreproduced\":%llu,\"jobs\":%u,", (unsigned long long)tot.evals, (unsigned long long)tot.nontrivial, tot.distinct.size(), (unsigned long long)tot.edges, nguards, (unsigned long long)tot.corpus, (now_ms() - t0) / 1000.0, (unsigned long long)unrepro, jobs);
    js += "\"rule\":"; { std::string r; for (auto &x : rules) { if (!r.empty()) r += "; "; r += x; } js += jstr(r); }
    js += ",\"labels\":{"; { bool f1 = true; for (auto &l : tot.labels) { if (!f1) js += ","; f1 = false; js += jstr(l.first) + fmt(":%llu", (unsigned long long)l.second); } }
    js += "},\"cases\":{"; { bool f1 = true; for (auto &l : tot.per) { if (!f1) js += ","; f1 = false; js += jstr(l.first) + fmt(":%llu", (unsigned long long)l.second); } }
    js += "},\"samples\":["; { bool f1 = true; for (auto &x : tot.samples) { if (!f1) js += ","; f1 = false; js += jstr(x); } }
    js += "],\"unreproduced_msgs\":["; { bool f1 = true; for (auto &x : unmsg) { if (!f1) js += ","; f1 = false; js += jstr(x); } }
    js += "]";
    if (fo.failed) js += ",\"failure\":{\"kind\":" + jstr(fo.kind) + ",\"msg\":" + jstr(fo.msg) + fmt(",\"shrink_tries\":%llu,\"sub\":", (unsigned long long)tries) + jstr(props()[fseq.back().prop].name) + "}";
    js += "}\n";
    FILE *f = fopen((outdir + "/stats.json").c_str(), "w");
    if (f) { fputs(js.c_str(), f); fclose(f); }
    return fo.failed ? 1 : 0;
}
}
int main(int argc, char **argv) { return pbt::main(argc, argv); }
