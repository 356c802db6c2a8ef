// Deterministic simulator: API seen by the harnesses (workloads + oracles).
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdarg>
#include <string>
#include <vector>
#include <functional>

namespace sim {

// ---- decision kinds (also: event kinds in replay files) ----
enum Kind : int {
    K_PREEMPT=0,   // preemption/stall at a (thread,step) point
    K_PICK,        // which runnable thread continues when one blocks
    K_SIGPICK,     // which waiter a signal wakes
    K_SPURIOUS,    // spurious wake-up of a condition/futex wait
    K_GEN,         // workload draw
    K_CLOCKJUMP,   // wall-clock adjustment
    K_THREADFAIL,  // pthread_create fails with EAGAIN
    K_MALLOCFAIL,  // allocation fails
    K_USERFAULT,   // callback throws / harness-defined fault
    K_USERDELAY,   // callback is slow
    K_IO_OPEN,     // open/mkdir/opendir failure
    K_IO_WRITE,    // write error: ENOSPC/EIO/short
    K_IO_READ,     // read error: EIO/short
    K_IO_CLOSE,    // error at close/flush
    K_IO_STAT,     // stat failure
    K_CRASH,       // process crash inside an I/O call
    K_DIRORDER,    // directory enumeration order
    K_RAND,        // rand()/random_device results
    K_CORRUPT,     // stored byte flipped
    K_NKINDS
};
extern const char* const kind_names[K_NKINDS];

// ---- workload draws: recorded, default 0 = simplest ----
uint32_t gen(uint32_t n);                       // [0,n)
inline bool gen_bool(){return gen(2)!=0;}
// biased: 0 with probability (1-num/den), else uniform in [1,n)
uint32_t gen_rare(uint32_t n, uint32_t num, uint32_t den);
// ---- fault windows ----
void enable(Kind k, double maxrate);            // harness permits a fault kind; the run's swarm configuration decides whether and how often it fires
void disable(Kind k);
bool fault(Kind k=K_USERFAULT);                 // fault point inside harness callbacks
uint64_t delay_choice();                        // K_USERDELAY: nanoseconds (0 = none)
struct MallocFaults { explicit MallocFaults(bool inherit=false); ~MallocFaults(); bool inh; };   // allocations of this thread (and, if inherit, of threads it creates meanwhile) may fail
struct IoFaults { IoFaults(); ~IoFaults(); };
struct ThreadFaults { ThreadFaults(); ~ThreadFaults(); };
uint64_t fired(Kind k);                         // how often a kind fired in this run so far
uint64_t fired_by_me(Kind k);                   // ... in this thread
// ---- oracle scope: atomic with respect to the scheduler, no checks, no faults ----
struct Quiet { Quiet(); ~Quiet(); };
// ---- observation ----
[[noreturn]] void violation(const char* cls, const char* fmt, ...) __attribute__((format(printf,2,3)));
void logf(const char* fmt, ...) __attribute__((format(printf,1,2)));    // part of the recorded history
void probe(const char* name);                   // "this rare condition was reached"
uint64_t now_ns();                              // simulated monotonic time
int64_t wall_offset_ns();
uint64_t seq();                                 // global event sequence number
int tid();
void sleep_ns(uint64_t ns);
void yield_point();                             // explicit scheduling point
void step_point();                              // plain preemption candidate
void touch(const void* p, size_t n, bool write);// declare an access (race + addressability check)
int alive_threads();                            // simulated threads created and not finished (without OpenMP pool)
void set_team(int n);                           // OpenMP team size
int team();
uint64_t total_stall_ns();                      // stalls injected so far
uint64_t stalled_until();                       // simulated time at which the last injected stall ends
void set_max_time(uint64_t ns);                 // simulated-time bound for the whole run
void faults_off();                              // stop injecting faults (bounded-liveness phases)
void set_fair_cap(uint64_t steps);              // steps under a fair schedule without faults after which a run counts as stuck (computing workloads need more)
void race_check(bool on);
void set_rand_seed(uint64_t s);                 // reseed the simulated rand()/random_device of the calling thread
void rand_per_thread(bool on);                  // rand() draws a stream per thread instead of one per process
void end_ok();                                  // finish run successfully now
bool is_heap_live(const void* p, size_t n);
// ---- crash / restart ----
int phase();                                    // 1 = first life, 2 = after crash
void* durable();                                // 64 KB surviving a crash (oracle bookkeeping)
bool crashed_before();
void force_crash();
// ---- simulated file system ("/simfs/...") ----
namespace vfs {
    bool exists(const std::string&);
    bool is_dir(const std::string&);
    bool get(const std::string&, std::string& out);
    void put(const std::string&, const std::string& data); // creates parents
    void mkdirs(const std::string&);
    void remove(const std::string&);
    std::vector<std::string> list(const std::string& dir);
    void set_capacity(uint64_t bytes);           // total bytes, ENOSPC beyond
    uint64_t used();
    int open_count();
    void make_readonly(const std::string&, bool ro);
}
// ---- registration ----
typedef void (*HarnessFn)();
struct Reg { Reg(const char* prop, const char* name, HarnessFn fn, int weight=1); };
#define SIM_HARNESS(prop,name) static void name(); static sim::Reg reg_##name(prop,#name,&name); static void name()
#define SIM_HARNESS_W(prop,name,w) static void name(); static sim::Reg reg_##name(prop,#name,&name,w); static void name()
}
#define SIM_CHECK(c,cls,...) do{ if(!(c)) ::sim::violation(cls,__VA_ARGS__); }while(0)
