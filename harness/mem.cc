// C06: fixed-size buffer allocators against a model; C31 (built with ThreadSanitizer): the shared pools used by several threads.
#include "pbt.h"
#include <errno.h>
#include <stdlib.h>
#include <pthread.h>
#include <set>
#include <algorithm>
#include <string.h>
#include <vector>
extern "C" {
#include "coap_mem.h"
}
#ifndef THREADED
namespace heap { extern long live, count, fail_at; extern bool fail_rest; void reset(); }
#include "heap.inc"
#endif
using namespace pbt;

namespace {
struct Api {
    int k;                        // 0: object, 1..3: shared pools
    coap_mem_t obj;
    int create(size_t n, size_t l) { switch (k) { case 0: return coap_mem_create(&obj, n, l); case 1: return coap_mem_small_create(n, l); case 2: return coap_mem_medium_create(n, l); default: return coap_mem_large_create(n, l); } }
    void destroy() { switch (k) { case 0: coap_mem_destroy(&obj); break; case 1: coap_mem_small_destroy(); break; case 2: coap_mem_medium_destroy(); break; default: coap_mem_large_destroy(); } }
    void *alloc(size_t l) { switch (k) { case 0: return coap_mem_alloc(&obj, l); case 1: return coap_mem_small_alloc(l); case 2: return coap_mem_medium_alloc(l); default: return coap_mem_large_alloc(l); } }
    void release(void *p) { switch (k) { case 0: coap_mem_free(&obj, p); break; case 1: coap_mem_small_free(p); break; case 2: coap_mem_medium_free(p); break; default: coap_mem_large_free(p); } }
    size_t num() { switch (k) { case 0: return coap_mem_get_num(&obj); case 1: return coap_mem_small_get_num(); case 2: return coap_mem_medium_get_num(); default: return coap_mem_large_get_num(); } }
    size_t len() { switch (k) { case 0: return coap_mem_get_len(&obj); case 1: return coap_mem_small_get_len(); case 2: return coap_mem_medium_get_len(); default: return coap_mem_large_get_len(); } }
    char *active() { switch (k) { case 0: return coap_mem_get_active(&obj); case 1: return coap_mem_small_get_active(); case 2: return coap_mem_medium_get_active(); default: return coap_mem_large_get_active(); } }
    size_t active_len() { switch (k) { case 0: return coap_mem_get_active_len(&obj); case 1: return coap_mem_small_get_active_len(); case 2: return coap_mem_medium_get_active_len(); default: return coap_mem_large_get_active_len(); } }
};
struct Live { unsigned char *p; unsigned char tag; };
struct Model { bool made = false; size_t num = 0, len = 0; std::vector<Live> live; std::vector<unsigned char *> freed; };
}

#ifndef THREADED
static void model(Gen &g, Ctx &c) {
    Api api[4]; Model m[4]; heap::reset();
    for (int i = 0; i < 4; i++) { api[i].k = i; memset(&api[i].obj, 0, sizeof api[i].obj); }
    auto verify = [&](const char *op) {
        for (int i = 0; i < 4; i++) {
            if (!m[i].made) continue;
            for (auto &l : m[i].live)
                for (size_t j = 0; j < m[i].len; j++)
                    if (l.p[j] != l.tag) c.fail("after %s: byte %zu of a live buffer of allocator %d was changed", op, j, i);
            if (api[i].num() != m[i].num || api[i].len() != m[i].len) c.fail("after %s: allocator %d reports %zu x %zu instead of %zu x %zu", op, i, api[i].num(), api[i].len(), m[i].num, m[i].len);
            size_t on = 0;
            for (size_t j = 0; j < api[i].active_len(); j++) on += __builtin_popcount((unsigned char)api[i].active()[j]);
            if (on != m[i].live.size()) c.fail("after %s: allocator %d marks %zu buffers active, %zu are", op, i, on, m[i].live.size());
        }
    };
    unsigned char tag = 1;
    bool full = false, reuse = false;
    unsigned steps = 1 + g.below(80);
    std::string log;
    for (unsigned s = 0; s < steps; s++) {
        int i = g.uni(4);
        char op[80];
        unsigned w = g.weighted({20, 12, 2, 1, 1, 1, 2});
        if (!m[i].made && w != 4) {
            size_t num = g.chance(1, 6) ? g.below(70) : 8 * g.below(9), len = g.chance(1, 12) ? 0 : 1 + g.below(300);
            if (g.chance(1, 40)) { num = 8 * (32 + g.below(130)); len = 1 + g.below(4); c.label("more than 255 buffers"); }
            else if (g.chance(1, 40)) { num = 8; len = 60000 + g.below(20000); c.label("more than 60000 bytes"); }
            else if (g.chance(1, 30)) {        // absurd sizes
                num = (size_t)8 << g.uni(60); len = g.chance(1, 2) ? ((size_t)1 << g.uni(63)) + g.below(3) : ~(size_t)0 / num + g.below(2);
                if ((unsigned __int128)num * len < (unsigned __int128)1 << 50) len = ~(size_t)0 / 4;
            }
            bool fault = g.chance(1, 8); if (fault) heap::fail_at = heap::count + g.uni(2);
            int ret = api[i].create(num, len);
            bool denied = fault && heap::count > heap::fail_at; heap::fail_at = -1;
            snprintf(op, sizeof op, "create%d(%zu,%zu)=%d", i, num, len, ret);
            c.descf("%s ", op);
            bool bad = num % 8 || !len, huge = len && num > ((size_t)1 << 28) / len;
            if (bad && ret != -EINVAL) c.fail("%s: expected EINVAL", op);
            if (!bad && huge && ret == 0) c.fail("%s: succeeded", op);
            if (!bad && denied) { c.label("allocation failed"); if (ret != -ENOMEM) c.fail("%s without memory", op); if (api[i].num() != 0) c.fail("%s without memory left an allocator in existence", op); }
            else if (!bad && !huge && ret != 0) c.fail("%s: failed", op);
            if (ret == 0) { m[i].made = true; m[i].num = num; m[i].len = len; m[i].live.clear(); m[i].freed.clear(); }
            verify(op);
            continue;
        }
        if (w == 6) {                  // take all that is left
            size_t left = m[i].num - m[i].live.size(), k = 0;
            while (k < left) {
                unsigned char *p = (unsigned char *)api[i].alloc(m[i].len);
                if (!p) c.fail("allocator %d is exhausted with %zu of %zu buffers in use", i, m[i].live.size(), m[i].num);
                for (auto f : m[i].freed) if (f == p) { reuse = true; break; }
                memset(p, tag, m[i].len); m[i].live.push_back({p, tag}); tag = tag == 255 ? 1 : tag + 1; k++;
            }
            std::vector<unsigned char *> at; for (auto &l : m[i].live) at.push_back(l.p);
            std::sort(at.begin(), at.end());
            for (size_t j = 1; j < at.size(); j++) if (at[j] - at[j - 1] < (long)m[i].len) c.fail("allocator %d handed out overlapping buffers", i);
            if (m[i].num) full = true;
            snprintf(op, sizeof op, "fill%d(+%zu)", i, k);
            c.descf("%s ", op);
        } else if (w == 0 || (w == 1 && m[i].live.empty())) {
            size_t n = g.chance(1, 5) ? m[i].len + g.below(4) : g.below(m[i].len + 1);
            bool ok = n <= m[i].len && m[i].live.size() < m[i].num;
            void *p = api[i].alloc(n);
            snprintf(op, sizeof op, "alloc%d(%zu)=%s", i, n, p ? "buf" : "NULL");
            c.descf("%s ", op);
            if (!p && ok) c.fail("%s with %zu of %zu buffers of %zu in use", op, m[i].live.size(), m[i].num, m[i].len);
            if (p && !ok) c.fail("%s with %zu of %zu buffers of %zu in use", op, m[i].live.size(), m[i].num, m[i].len);
            if (p) {
                for (int k = 0; k < 4; k++) for (auto &l : m[k].live)
                    if ((unsigned char *)p < l.p + m[k].len && l.p < (unsigned char *)p + m[i].len) c.fail("%s overlaps a live buffer of allocator %d", op, k);
                for (auto f : m[i].freed) if (f == p) reuse = true;
                m[i].live.push_back({(unsigned char *)p, tag});
                memset(p, tag, m[i].len);           // ASan: inside the arena
                tag = tag == 255 ? 1 : tag + 1;
                if (m[i].live.size() == m[i].num) full = true;
            }
        } else if (w == 1) {
            size_t j = g.uni(m[i].live.size());
            unsigned char *p = m[i].live[j].p;
            m[i].live.erase(m[i].live.begin() + j);
            m[i].freed.push_back(p);
            api[i].release(p);
            snprintf(op, sizeof op, "free%d[%zu]", i, j);
            c.descf("%s ", op);
        } else if (w == 2) {           // not a live buffer of this allocator: ignored
            void *p = nullptr;
            unsigned how = g.uni(5);
            if (how == 1) { int k = (i + 1 + g.uni(3)) % 4; if (!m[k].live.empty()) p = m[k].live[g.uni(m[k].live.size())].p; }
            else if (how == 2 && !m[i].live.empty() && m[i].len > 1) p = m[i].live[g.uni(m[i].live.size())].p + 1 + g.uni(m[i].len - 1);
            else if (how == 3 && !m[i].freed.empty()) { p = m[i].freed[g.uni(m[i].freed.size())]; for (auto &l : m[i].live) if (l.p == p) p = nullptr; }
            else if (how == 4 && !m[i].live.empty()) {        // just outside the memory of the allocator
                unsigned char *lo = m[i].live[0].p; for (auto &l : m[i].live) lo = std::min(lo, l.p);
                if (m[i].live.size() == m[i].num) p = g.chance(1, 2) ? lo + m[i].num * m[i].len : lo - m[i].len;
                for (int k = 0; k < 4; k++) for (auto &l : m[k].live) if (l.p == p) p = nullptr;
            }
            api[i].release(p);
            snprintf(op, sizeof op, "foreign free%d kind %u", i, how);
            c.descf("%s ", op);
        } else if (w == 3) {
            api[i].destroy(); m[i].made = false; m[i].live.clear(); m[i].freed.clear();
            snprintf(op, sizeof op, "destroy%d", i);
            c.descf("%s ", op);
        } else if (w == 4) {           // all three pools at once
            for (int k = 1; k < 4; k++) if (m[k].made) { api[k].destroy(); m[k].made = false; m[k].live.clear(); m[k].freed.clear(); }
            size_t n[3], l[3]; int want = 0;
            for (int k = 0; k < 3; k++) { n[k] = 8 * g.below(5) + (g.chance(1, 10) ? 1 : 0); l[k] = g.chance(1, 12) ? 0 : 1 + g.below(64); if (n[k] % 8 || !l[k]) want = -EINVAL; }
            bool fault = g.chance(1, 6); if (fault) heap::fail_at = heap::count + g.uni(6);
            int ret = coap_mem_all_create(n[0], l[0], n[1], l[1], n[2], l[2]);
            if (fault && heap::count > heap::fail_at) want = -ENOMEM;
            heap::fail_at = -1;
            snprintf(op, sizeof op, "all_create(%zux%zu,%zux%zu,%zux%zu)=%d", n[0], l[0], n[1], l[1], n[2], l[2], ret);
            c.descf("%s ", op);
            if (ret != want) c.fail("%s: expected %d", op, want);
            for (int k = 1; k < 4; k++) {
                if (ret == 0) { m[k].made = true; m[k].num = n[k - 1]; m[k].len = l[k - 1]; m[k].live.clear(); m[k].freed.clear(); }
                else if (api[k].num() != 0) c.fail("%s left pool %d in existence", op, k);
            }
        } else {
            coap_mem_all_destroy();
            for (int k = 1; k < 4; k++) { m[k].made = false; m[k].live.clear(); m[k].freed.clear(); if (api[k].num() != 0) c.fail("all_destroy left pool %d in existence", k); }
            snprintf(op, sizeof op, "all_destroy");
            c.descf("%s ", op);
        }
        verify(op);
    }
    // every buffer of every surviving allocator can be obtained exactly once more
    for (int i = 0; i < 4; i++) {
        if (!m[i].made) continue;
        while (m[i].live.size() < m[i].num) {
            void *p = api[i].alloc(m[i].len);
            if (!p) c.fail("allocator %d is exhausted with %zu of %zu buffers in use", i, m[i].live.size(), m[i].num);
            for (auto &l : m[i].live) if (l.p == p) c.fail("allocator %d handed out a live buffer", i);
            memset(p, 7, m[i].len);
            m[i].live.push_back({(unsigned char *)p, 7});
        }
        verify("filling up");
        if (api[i].alloc(0)) c.fail("allocator %d handed out more than %zu buffers", i, m[i].num);
    }
    for (int i = 0; i < 4; i++) if (m[i].made) api[i].destroy();
    if (heap::live) c.fail("%ld heap blocks leaked", heap::live);
    if (full) c.label("filled");
    if (reuse) c.label("reused");
    if (full && reuse) c.nontrivial();
}
PROPERTY("C06", "allocator-model", "an allocator was completely filled and a freed buffer was handed out again", 1, model);
#else
// Each thread performs a generated list of operations and holds buffers stamped with its own marks; a buffer owned by two
// threads at once loses its stamp (and ThreadSanitizer reports unsynchronised access to the pool's own data).
struct Plan { std::vector<std::pair<int, int>> ops; Api *api; size_t len[3]; size_t num[3]; int id; std::string err; unsigned got = 0, denied = 0; pthread_barrier_t *bar; };
static void *worker(void *v) {
    Plan &p = *(Plan *)v;
    std::vector<Live> live[3];
    unsigned char n = 0;
    pthread_barrier_wait(p.bar);
    for (auto &o : p.ops) {
        int k = o.first;
        if (o.second < 6) {
            unsigned char *b = (unsigned char *)p.api[k].alloc(p.len[k]);
            if (!b) { p.denied++; continue; }
            p.got++;
            unsigned char t = (unsigned char)(p.id * 64 + (n++ & 63));
            memset(b, t, p.len[k]);
            live[k].push_back({b, t});
        } else if (!live[k].empty()) {
            size_t j = o.second % live[k].size();
            Live l = live[k][j];
            for (size_t i = 0; i < p.len[k]; i++) if (l.p[i] != l.tag && p.err.empty()) p.err = fmt("thread %d: buffer of pool %d was changed by another thread", p.id, k);
            p.api[k].release(l.p);
            live[k].erase(live[k].begin() + j);
        }
        if (o.second & 1) sched_yield();
    }
    for (int k = 0; k < 3; k++) for (auto &l : live[k]) {
        for (size_t i = 0; i < p.len[k]; i++) if (l.p[i] != l.tag && p.err.empty()) p.err = fmt("thread %d: buffer of pool %d was changed by another thread", p.id, k);
        p.api[k].release(l.p);
    }
    return nullptr;
}
static void threads(Gen &g, Ctx &c) {
    Api api[3]; size_t num[3], len[3];
    for (int k = 0; k < 3; k++) { api[k].k = k + 1; num[k] = 8 * (1 + g.below(4)); len[k] = 1 + g.below(32); }
    if (coap_mem_all_create(num[0], len[0], num[1], len[1], num[2], len[2]) != 0) c.fail("cannot create the pools");
    unsigned nt = 2 + g.uni(3);
    std::vector<Plan> plan(nt);
    pthread_barrier_t bar;
    pthread_barrier_init(&bar, nullptr, nt);
    for (unsigned t = 0; t < nt; t++) {
        plan[t].api = api; plan[t].id = (int)t; plan[t].bar = &bar;
        memcpy(plan[t].len, len, sizeof len); memcpy(plan[t].num, num, sizeof num);
        unsigned n = 20 + g.below(120);
        for (unsigned i = 0; i < n; i++) { int k = g.uni(3), o = g.uni(12); plan[t].ops.push_back({k, o}); }
    }
    std::vector<pthread_t> th(nt);
    for (unsigned t = 0; t < nt; t++) pthread_create(&th[t], nullptr, worker, &plan[t]);
    for (unsigned t = 0; t < nt; t++) pthread_join(th[t], nullptr);
    pthread_barrier_destroy(&bar);
    unsigned got = 0;
    for (auto &p : plan) { got += p.got; c.descf("[thread %d: %zu ops, %u buffers, %u refused]", p.id, p.ops.size(), p.got, p.denied); if (!p.err.empty()) c.fail("%s", p.err.c_str()); }
    for (int k = 0; k < 3; k++) {
        size_t on = 0;
        for (size_t j = 0; j < api[k].active_len(); j++) on += __builtin_popcount((unsigned char)api[k].active()[j]);
        if (on) c.fail("%zu buffers of pool %d are still marked active after every thread released its own", on, k);
        for (size_t j = 0; j < num[k]; j++) if (!api[k].alloc(1)) c.fail("pool %d has lost buffers: only %zu of %zu available", k, j, num[k]);
        if (api[k].alloc(1)) c.fail("pool %d has more buffers than it was created with", k);
    }
    coap_mem_all_destroy();
    if (got >= 10) c.nontrivial();
}
PROPERTY("C31", "pool-threads", "at least two threads ran together and obtained at least 10 buffers", 1, threads);
#endif
