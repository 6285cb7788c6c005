// Simulated sockets, timers, clock and random numbers for the code under test
// (its calls to socket, sendto, select, timerfd_*, time, rand ... are renamed to vf_*).
#pragma once
#include "common.h"
#include <netinet/in.h>
#include <sys/socket.h>
#include <functional>
#include <deque>
extern "C" {
#include "coap_ipv.h"
}
namespace net {
const int64_t MS = 1000000, SEC = 1000 * MS, NEVER = INT64_MAX;
struct Addr {
    coap_ipv_sockaddr_in_t sin;
    socklen_t len = 0;
    Addr() { memset(&sin, 0, sizeof sin); }
    bool operator==(const Addr &o) const { return len == o.len && !memcmp(&sin, &o.sin, len); }
};
#ifdef COAP_IP6
static const char *const HOST = "fd00::1";
#else
static const char *const HOST = "10.0.0.1";
#endif
Addr addr(unsigned host, unsigned port);          // a distinct endpoint
std::vector<Addr> endpoints(uint64_t seed, unsigned n);   // n distinct endpoints; for odd seeds each differs from another in a single byte of its port or address
std::string str(const Addr &a);
struct Out { int64_t t; Addr from, to; std::string data; };

void reset(uint64_t rand_seed);                   // close everything, time = 0
extern int64_t now;                               // monotonic, ns
extern int64_t wall;                              // time(NULL) at now == 0
extern unsigned rand_bias;                        // 0: uniform, else: k of 8 values are 0 or all ones
extern uint64_t rand_calls;
extern int rand_fixed;                            // >= 0: rand() always returns this
void at(int64_t t, std::function<void()> f);      // run f when the clock reaches t
void deliver(const Addr &from, const Addr &to, const std::string &d);   // into the receive queue now
size_t queued(const Addr &to);
extern std::function<void(const Out &)> on_send;  // every datagram that the code under test sends
extern std::function<bool()> on_idle;             // nothing ready: advance the script; false = stop (the caller of run() gets control)
extern std::function<void()> pump;                // called in select before time advances (runs the other party)
// run f until it returns (true) or until the simulation is stopped from inside select (false)
bool run(const std::function<void()> &f);
extern int64_t waiting_until;                     // while on_idle or pump runs: when the select in progress ends (NEVER: no limit)
extern bool no_advance;                           // select must not let time pass (stop instead)
extern long selects, max_selects; extern bool livelock;
// faults: fail the k-th call (from now) of a kind with an errno; kinds: 0 send, 1 recv, 2 timerfd_create, 3 timerfd_settime, 4 socket, 5 bind/connect, 6 fcntl
extern long fault_at[10]; extern int fault_errno[10]; extern long fault_hit[10];
extern long gai_live;         // address lists not released
long open_fds();
extern std::string misuse;                        // operation on a closed descriptor etc.
void advance_to(int64_t t);                       // used by drivers on idle
int64_t next_event();                             // next timer expiry or scheduled event
bool any_timer_due();
}
