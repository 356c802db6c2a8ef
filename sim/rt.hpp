// Simulator runtime internals (never instrumented).
#pragma once
#include "sim.hpp"
#include <pthread.h>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <cerrno>
#include <ctime>
#define NOINSTR __attribute__((no_sanitize("thread")))
#define HID __attribute__((visibility("hidden")))

namespace sim {
enum { MAXT=64, MAXEV=200000, MAXPROBE=96, LOGSZ=65536 };
typedef uint32_t u32; typedef uint64_t u64; typedef int64_t i64; typedef uint8_t u8; typedef uint16_t u16;

struct Event { u16 kind; u16 tid; u32 val; u64 key; };
struct Probe { char name[44]; u32 count; };
struct Shared {
    volatile int status;               // ST_*
    char cls[48]; char msg[3000];
    u64 pcs[2][24]; int npcs[2];
    int vtid;
    u32 nev; u32 ev_overflow;
    Event ev[MAXEV];
    u64 fired[K_NKINDS];
    Probe probes[MAXPROBE]; u32 nprobes;
    u64 steps, syncops, switches, preempts; u64 simtime; u64 il_hash, tr_hash;
    u32 nthreads;
    u32 log_n; char log[LOGSZ];
    int phase; u8 durable[65536];
    char harness[64];
    u64 vfs_used_nodes;
};
enum { ST_RUN=0, ST_OK=1, ST_VIOL=2, ST_INCONCL=3, ST_CRASHED=4 };
extern Shared* G;

struct VC { u32 c[MAXT]; };
static inline void vc_join(VC& a,const VC& b,int n){ for(int i=0;i<n;i++) if(b.c[i]>a.c[i]) a.c[i]=b.c[i]; }

enum { S_FREE=0, S_RUN, S_BLOCK, S_DONE, S_FROZEN };
struct TlsDtor { void(*f)(void*); void* o; };
struct Thr {
    int tid; int state; int fut; int quiet;
    u64 step, next_pre, since_switch;
    int mf,mfi,iof,thf;
    u64 deadline; int dl_real; int timed_out; int spurious; const void* wobj; int wkind; // waiting
    u64 wseq;
    VC vc;
    u64 cnt[K_NKINDS]; u64 firedk[K_NKINDS];
    void*(*fn)(void*); void* arg; void* ret; pthread_t real;
    bool detached, joined, finished, daemon, idle, nexttarget;
    u32 ev_i; // replay: index in per-thread preempt list
    uintptr_t ss[512]; int ssp;
    TlsDtor td[64]; int ntd;
    int prio;
    char* stk; size_t stksz;
    // omp
    struct Team* team; int omp_id; struct Team* own; 
    int ompjob;
    u64 randst;
    int omp_max;
};
extern Thr T[MAXT]; extern int nT;
extern __thread Thr* me;
extern volatile int on;            // simulation running
extern u64 now; extern i64 wall_off; extern u64 gseq;

u32 decide(Kind k,u32 n,double p);           // 0 default; recorded when non-zero
u32 decide_val(Kind k,u32 n);                // uniform draw, recorded
void sched_point(int op,const void* obj);
void block(int wkind,const void* obj,u64 deadline,int dl_real);   // returns when runnable again (me->timed_out)
void wake(Thr* t);
void deadlines_changed(); extern int n_live;
void yield_cpu();
void note(int op,u64 a);
void check_addr(const void* p,size_t n,bool wr,void* pc);
void race_access(const void* p,size_t n,int flags,void* pc);
enum { A_W=1, A_LIB=2, A_ATOMIC=4 };
void rel(VC& v); void acq(const VC& v);
VC* syncvar(const void* a);
[[noreturn]] void finish(int st);
[[noreturn]] void viol(const char* cls,void* pc,const char* fmt,...) __attribute__((format(printf,3,4)));
void count_fired(Kind k);
double rate(Kind k);
extern int team_size;
Thr* spawn_thread(void*(*fn)(void*),void* arg,bool daemon);
[[noreturn]] void thread_end();
int reap(int tid);
int real_fd_base();
void run_tls_dtors();
void vfs_init_shared(); void vfs_reset();
void heap_init(); void heap_set_fill(int mode);
extern bool replaying; extern bool verbose;
extern bool no_more_faults;
static inline long rawsys(long n,long a,long b=0,long c=0,long d=0,long e=0,long f=0){
    long r; register long r10 asm("r10")=d; register long r8 asm("r8")=e; register long r9 asm("r9")=f;
    asm volatile("syscall":"=a"(r):"a"(n),"D"(a),"S"(b),"d"(c),"r"(r10),"r"(r8),"r"(r9):"rcx","r11","memory"); return r; }
void crash_now();
extern u64 max_time;
// memory regions
static char* const H_BASE=(char*)0x200000000000ull; static const size_t H_SIZE=(size_t)4<<30;
static char* const S_BASE=(char*)0x210000000000ull; static const size_t S_STK=(size_t)2<<20; static const size_t S_SIZE=S_STK*(MAXT+1)+((size_t)16<<20);
static char* const AS_BASE=(char*)0x220000000000ull;   // addressability shadow of heap
static char* const RS_H=(char*)0x230000000000ull;      // race cells (heap): 32 bytes per 8
static char* const RS_S=(char*)0x240000000000ull;      // race cells (stacks)
static char* const RS_G=(char*)0x250000000000ull;      // race cells (globals 0..64MB)
static char* const PC_H=(char*)0x260000000000ull;      // pcs: 16 bytes per 8
static char* const PC_S=(char*)0x270000000000ull;
static char* const PC_G=(char*)0x280000000000ull;
static char* const PA_BASE=(char*)0x290000000000ull; static const size_t PA_SIZE=(size_t)4<<30;
void heap_parent(bool); void heap_run();
static const size_t GL_MAX=(size_t)64<<20;
}
