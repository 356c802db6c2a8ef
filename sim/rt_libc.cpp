// Interposed threading, time, randomness and OpenMP entry points.
#include "rt.hpp"
#include <dlfcn.h>
#include <unistd.h>
#include <stdarg.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <linux/futex.h>
#include <sched.h>
#include <cxxabi.h>

namespace sim {
int (*real_pthread_create)(pthread_t*,const pthread_attr_t*,void*(*)(void*),void*);
static const i64 WALL0=1600000000000000000ll;
static size_t (*real_strftime)(char*,size_t,const char*,const struct tm*);
void libc_init(){ real_pthread_create=(int(*)(pthread_t*,const pthread_attr_t*,void*(*)(void*),void*))dlsym(RTLD_NEXT,"pthread_create"); real_strftime=(size_t(*)(char*,size_t,const char*,const struct tm*))dlsym(RTLD_NEXT,"strftime"); }
// ---- object tables: index kept in the first word of the pthread object, zero memory = fresh ----
struct Mx{ const void* addr; int owner; int count; int kind; int readers; VC vc; VC rvc; };
struct Cv{ const void* addr; };
enum{ MXN=1<<16 }; void* big_alloc(size_t n);
static Mx* mx; static u32 nmx=1;
static Mx* getmx(void* p,bool fresh,int kind=-1){
    if(!mx) mx=(Mx*)big_alloc(sizeof(Mx)*MXN);
    u32* w=(u32*)p; u32 i=*w;
    if(!fresh&&i&&i<nmx&&mx[i].addr==p) return &mx[i];
    if(nmx>=MXN) { viol("harness-limit",0,"too many mutexes"); }
    i=nmx++; Mx*m=&mx[i]; m->addr=p; m->owner=0; m->count=0; m->readers=0; m->kind=kind>=0?kind:((int*)p)[4]; *w=i; return m;
}
void* big_alloc(size_t n){ return (void*)rawsys(SYS_mmap,0,n,3,0x4022,-1,0); }
static inline int mytid(){ return me?me->tid:-1; }
static u32 mid(Mx*m){return (u32)(m-mx);}
static void wake_mx(Mx* m){ for(int i=1;i<nT;i++) if(T[i].state==S_BLOCK&&T[i].wkind==1&&T[i].wobj==m) wake(&T[i]); }
static int mlock(void* p,u64 dl,int real,void* pc){
    Thr*t=me; Mx* m=getmx(p,false);
    if(!on||!t){ m->owner=-1; m->count++; return 0; }
    if(!t->quiet) check_addr(p,4,true,pc);
    sched_point(1,(void*)(uintptr_t)mid(m));
    if(m->owner==t->tid){ if(m->kind==PTHREAD_MUTEX_RECURSIVE){ m->count++; return 0; } if(m->kind==PTHREAD_MUTEX_ERRORCHECK) return EDEADLK; }
    while(m->owner!=0){ 
        if(m->owner==-1){ m->owner=0; break; }
        if(t->quiet) viol("harness-error",pc,"blocking on a mutex inside an oracle scope");
        block(1,m,dl,real); if(t->timed_out&&m->owner!=0) return ETIMEDOUT; if(!t->quiet) check_addr(p,4,true,pc); }
    m->owner=t->tid; m->count=1; acq(m->vc); return 0;
}
static int mtry(void* p,void* pc){ Thr*t=me; Mx*m=getmx(p,false); if(!on||!t){ m->owner=-1; m->count++; return 0;} if(!t->quiet) check_addr(p,4,true,pc); sched_point(2,(void*)(uintptr_t)mid(m)); if(m->owner==t->tid&&m->kind==PTHREAD_MUTEX_RECURSIVE){m->count++; return 0;} if(m->owner>0) return EBUSY; m->owner=t->tid; m->count=1; acq(m->vc); return 0; }
static int munlock(void* p,void* pc,bool point=true){
    Thr*t=me; Mx*m=getmx(p,false);
    if(!on||!t){ if(m->count>0&&--m->count==0) m->owner=0; return 0; }
    if(!t->quiet) check_addr(p,4,true,pc);
    if(m->owner==-1){ m->owner=0; return 0; }
    if(m->owner!=t->tid){ if(m->owner==0) viol("lock-misuse",pc,"unlocking a mutex that is not locked"); viol("lock-misuse",pc,"unlocking a mutex owned by another thread (t%d)",m->owner); }
    if(--m->count>0) return 0;
    rel(m->vc); m->owner=0; wake_mx(m); if(point) sched_point(3,(void*)(uintptr_t)mid(m)); return 0;
}
static u64 ts2ns(const struct timespec* ts){ return (u64)ts->tv_sec*1000000000ull+ts->tv_nsec; }
static u64 absdl(const struct timespec* ts){ if(ts->tv_sec<0) return 0; if(ts->tv_sec>9000000000ll) return ~0ull; return ts2ns(ts); }
// ---- condition variables ----
static int cwait(void* c,void* m,u64 dl,int real,void* pc){
    Thr*t=me; if(!on||!t) return 0; if(t->quiet) viol("harness-error",pc,"condition wait inside an oracle scope");
    check_addr(c,4,true,pc);
    sched_point(4,0);
    Mx* mm=getmx(m,false); if(mm->owner!=t->tid) viol("lock-misuse",pc,"condition wait without holding the mutex");
    static const u64 sp[4]={0,0,2000,500000};
    u32 s=decide(K_SPURIOUS,4,rate(K_SPURIOUS));
    rel(mm->vc); int cnt=mm->count; mm->count=0; mm->owner=0; wake_mx(mm);
    bool spur=false;
    if(s){ u64 d=now+sp[s]; u64 md=dl; if(!real&&md<=d) {} else { // spurious return (unless deadline comes first)
            spur=true; block(2,c,d,0); } }
    if(!spur) block(2,c,dl,real);
    bool to=t->timed_out&&!spur; t->timed_out=0;
    while(mm->owner!=0){ block(1,mm,~0ull,0); }
    mm->owner=t->tid; mm->count=cnt; acq(mm->vc); note(5,to); check_addr(c,4,true,pc);
    return to?ETIMEDOUT:0;
}
static void csig(void* c,bool all,void* pc){
    Thr*t=me; if(!on||!t) return; if(!t->quiet) check_addr(c,4,true,pc); sched_point(all?7:6,0);
    int w[MAXT]; int n=0; for(int i=1;i<nT;i++) if(T[i].state==S_BLOCK&&T[i].wkind==2&&T[i].wobj==c) w[n++]=i;
    if(!n) return;
    for(int i=0;i<n;i++) for(int j=i+1;j<n;j++) if(T[w[j]].wseq<T[w[i]].wseq){int x=w[i];w[i]=w[j];w[j]=x;}
    if(all){ for(int i=0;i<n;i++) wake(&T[w[i]]); return; }
    u32 v=n>1?decide_val(K_SIGPICK,n):0; if(v) count_fired(K_SIGPICK);
    wake(&T[w[v]]);
}
static void maybe_jump(){ Thr*t=me; if(!on||!t||t->quiet) return; static const i64 j[8]={0,3000000ll,-3000000ll,2000000000ll,-2000000000ll,3600000000000ll,-3600000000000ll,-90000000000000ll}; u32 v=decide(K_CLOCKJUMP,8,rate(K_CLOCKJUMP)); if(v){ wall_off+=j[v]; deadlines_changed(); } }
static bool g_rand_pt=false; static u64 g_rand=88172645463325252ull;
void rand_per_thread(bool b){ g_rand_pt=b; }
static u64 rnd(){ u64& s=(g_rand_pt&&me)?me->randst:g_rand; s+=0x9E3779B97F4A7C15ull; u64 z=s; z=(z^(z>>30))*0xBF58476D1CE4E5B9ull; z=(z^(z>>27))*0x94D049BB133111EBull; return z^(z>>31); }
void rand_global_seed(u64 s){ g_rand=s; }
// ---- OpenMP ----
struct Team{ int n; void(*fn)(void*); void* data; int done; Thr* w[16]; int nw; Thr* master;
    // dynamic loop
    long nxt,end,chunk,incr; int ws_users; u32 ws_gen; int bar_n; u32 bar_gen; VC barvc; };
static Team teams[MAXT]; 
static int critical_dummy[16];
static void* omp_worker(void* a){ Thr*t=me; Team* tm=(Team*)a; 
    for(;;){ 
        while(!t->ompjob){ if(!t->idle){t->idle=true; n_live--;} block(7,t,~0ull,0);} 
        if(t->idle){ t->idle=false; n_live++; }
        t->ompjob=0; t->team=tm; 
        tm->fn(tm->data);
        sched_point(20,0);
        rel(tm->barvc); t->team=0; tm->done++; t->idle=true; n_live--; if(tm->master->state==S_BLOCK&&tm->master->wkind==7) wake(tm->master);
    } return 0; }
static void par(void(*fn)(void*),void* data,unsigned num,long st,long en,long inc,long chunk){
    Thr*t=me; Team loc; 
    int n=team_size; if(num) n=(int)num; if(n>16) n=16; if(!on||!t||t->team||t->quiet) n=1;
    if(n==1){ // serial team
        if(!t){ fn(data); return; }
        Team* sv=t->team; int sid=t->omp_id; memset((void*)&loc,0,offsetof(Team,barvc)); loc.n=1; loc.nxt=st; loc.end=en; loc.incr=inc; loc.chunk=chunk; t->team=&loc; t->omp_id=0; 
        struct Rst{Thr*t;Team*s;int i; ~Rst(){t->team=s;t->omp_id=i;}} rst{t,sv,sid}; fn(data); return; }
    Team* tm=&teams[t->tid]; tm->master=t; tm->n=n; tm->fn=fn; tm->data=data; tm->done=0; tm->nxt=st; tm->end=en; tm->incr=inc; tm->chunk=chunk; tm->ws_users=0; tm->bar_n=0;
    while(tm->nw<n-1){ Thr* w=spawn_thread(omp_worker,tm,true); if(!w) { tm->n=n=tm->nw+1; break;} w->omp_id=++tm->nw; tm->w[tm->nw-1]=w; w->iof=w->mf=w->thf=0; }
    sched_point(21,0);
    for(int i=0;i<n-1;i++){ Thr* w=tm->w[i]; vc_join(w->vc,t->vc,nT); if(w->idle){ w->idle=false; n_live++; } w->ompjob=1; w->randst=t->randst; wake(w); }
    t->vc.c[t->tid]++;
    t->team=tm; t->omp_id=0;
    fn(data);
    sched_point(22,0);
    while(tm->done<n-1) block(7,tm,~0ull,0);
    acq(tm->barvc); t->team=0;
}
static bool ws_next(long* a,long* b){ Thr*t=me; Team*tm=t?t->team:0; if(!tm) return false; sched_point(23,0); long left=tm->incr>0?tm->end-tm->nxt:tm->nxt-tm->end; if(left<=0) return false; long c=tm->chunk*(tm->incr>0?tm->incr:-tm->incr); if(c>left) c=left; *a=tm->nxt; tm->nxt+=tm->incr>0?c:-c; *b=tm->nxt; return true; }
static void barrier(){ Thr*t=me; Team*tm=t?t->team:0; if(!tm||tm->n<2) return; sched_point(24,0); rel(tm->barvc); u32 g=tm->bar_gen; if(++tm->bar_n==tm->n){ tm->bar_n=0; tm->bar_gen++; for(int i=1;i<nT;i++) if(T[i].state==S_BLOCK&&T[i].wkind==7&&T[i].wobj==&tm->bar_gen) wake(&T[i]); } else while(tm->bar_gen==g) block(7,&tm->bar_gen,~0ull,0); acq(tm->barvc); }
static int crit_mx[10*8];
// ---- once / guards ----
static VC oncevc;
}
using namespace sim;
#define PC __builtin_return_address(0)
extern "C" {
// ---- mutex ----
int pthread_mutex_init(pthread_mutex_t* m,const pthread_mutexattr_t* a){ int k=0; if(a) pthread_mutexattr_gettype(a,&k); memset((void*)m,0,sizeof *m); ((int*)m)[4]=k; getmx(m,true,k); return 0; }
int pthread_mutex_destroy(pthread_mutex_t* m){ Mx* x=getmx(m,false); if(on&&me&&x->owner>0&&!me->quiet) viol("lock-misuse",PC,"destroying a locked mutex (owner t%d)",x->owner); *(u32*)m=0; return 0; }
int pthread_mutex_lock(pthread_mutex_t* m){ return mlock(m,~0ull,0,PC); }
int pthread_mutex_trylock(pthread_mutex_t* m){ return mtry(m,PC); }
int pthread_mutex_timedlock(pthread_mutex_t* m,const struct timespec* ts){ return mlock(m,absdl(ts),1,PC); }
int pthread_mutex_clocklock(pthread_mutex_t* m,clockid_t c,const struct timespec* ts){ return mlock(m,absdl(ts),c==CLOCK_REALTIME,PC); }
int pthread_mutex_unlock(pthread_mutex_t* m){ return munlock(m,PC); }
// ---- rwlock ----
int pthread_rwlock_init(pthread_rwlock_t* m,const pthread_rwlockattr_t*){ memset((void*)m,0,sizeof *m); getmx(m,true,0); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t* m){ *(u32*)m=0; return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* p){ Thr*t=me; Mx*m=getmx(p,false); if(!on||!t) return 0; sched_point(8,0); while(m->owner>0) block(1,m,~0ull,0); m->readers++; acq(m->vc); return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* p){ Thr*t=me; Mx*m=getmx(p,false); if(!on||!t) return 0; sched_point(8,0); while(m->owner>0||m->readers>0) block(1,m,~0ull,0); m->owner=t->tid; acq(m->vc); acq(m->rvc); return 0; }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* p){ Thr*t=me; Mx*m=getmx(p,false); if(!on||!t) return 0; sched_point(8,0); if(m->owner>0) return EBUSY; m->readers++; acq(m->vc); return 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t* p){ Thr*t=me; Mx*m=getmx(p,false); if(!on||!t) return 0; sched_point(8,0); if(m->owner>0||m->readers>0) return EBUSY; m->owner=t->tid; acq(m->vc); acq(m->rvc); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t* p){ Thr*t=me; Mx*m=getmx(p,false); if(!on||!t) return 0; if(m->owner==t->tid){ rel(m->vc); m->owner=0; } else if(m->readers>0){ rel(m->rvc); m->readers--; } wake_mx(m); sched_point(9,0); return 0; }
// ---- cond ----
int pthread_cond_init(pthread_cond_t* c,const pthread_condattr_t* a){ memset((void*)c,0,sizeof *c); clockid_t k=0; if(a) pthread_condattr_getclock(a,&k); ((int*)c)[2]=(int)k; return 0; }
int pthread_cond_destroy(pthread_cond_t* c){ if(on&&me&&!me->quiet) for(int i=1;i<nT;i++) if(T[i].state==S_BLOCK&&T[i].wkind==2&&T[i].wobj==c) viol("lock-misuse",PC,"destroying a condition variable with a waiting thread (t%d)",i); return 0; }
int pthread_cond_wait(pthread_cond_t* c,pthread_mutex_t* m){ return cwait(c,m,~0ull,0,PC); }
int pthread_cond_timedwait(pthread_cond_t* c,pthread_mutex_t* m,const struct timespec* ts){ return cwait(c,m,absdl(ts),((int*)c)[2]!=CLOCK_MONOTONIC,PC); }
int pthread_cond_clockwait(pthread_cond_t* c,pthread_mutex_t* m,clockid_t k,const struct timespec* ts){ return cwait(c,m,absdl(ts),k==CLOCK_REALTIME,PC); }
int pthread_cond_signal(pthread_cond_t* c){ csig(c,false,PC); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c){ csig(c,true,PC); return 0; }
// ---- threads ----
int pthread_create(pthread_t* o,const pthread_attr_t* a,void*(*fn)(void*),void* arg){
    Thr*t=me; if(!on||!t) return real_pthread_create(o,a,fn,arg);
    sched_point(30,0);
    if(t->thf>0&&!t->quiet&&decide(K_THREADFAIL,2,rate(K_THREADFAIL))) return EAGAIN;
    Thr* n=spawn_thread(fn,arg,false); if(!n) return EAGAIN;
    *o=(pthread_t)(uintptr_t)(0x51000000ull+n->tid); note(31,n->tid); sched_point(31,0); return 0; }
static Thr* byid(pthread_t p){ u64 x=(u64)p; if(x>0x51000000ull&&x<0x51000000ull+MAXT&&(int)(x-0x51000000ull)<nT) return &T[x-0x51000000ull]; return 0; }
int pthread_join(pthread_t p,void** r){ Thr*t=me; Thr* o=byid(p); if(!on||!t||!o) return ESRCH; if(o->joined||o->detached) viol("lock-misuse",PC,"join of a thread that is not joinable"); sched_point(32,0); while(!o->finished) block(3,o,~0ull,0); acq(o->vc); o->joined=true; if(r) *r=o->ret; return 0; }
int pthread_detach(pthread_t p){ Thr* o=byid(p); if(o) o->detached=true; return 0; }
pthread_t pthread_self(){ if(on&&me) return (pthread_t)(uintptr_t)(0x51000000ull+me->tid); static pthread_t(*f)(); if(!f) f=(pthread_t(*)())dlsym(RTLD_NEXT,"pthread_self"); return f(); }
int pthread_equal(pthread_t a,pthread_t b){ return a==b; }
int pthread_once(pthread_once_t* c,void(*fn)()){
    int* s=(int*)c; Thr*t=me; if(!on||!t){ if(*s!=2){ *s=2; fn(); } return 0; }
    sched_point(33,0);
    for(;;){ if(*s==2){ acq(*syncvar(c)); return 0; } if(*s==0) break; block(6,c,~0ull,0); }
    *s=1; try{ fn(); }catch(...){ *s=0; for(int i=1;i<nT;i++) if(T[i].state==S_BLOCK&&T[i].wkind==6&&T[i].wobj==c) wake(&T[i]); throw; }
    rel(*syncvar(c)); *s=2; for(int i=1;i<nT;i++) if(T[i].state==S_BLOCK&&T[i].wkind==6&&T[i].wobj==c) wake(&T[i]); return 0; }
int __cxa_guard_acquire(u8* g){
    Thr*t=me; if(!on||!t){ if(g[0]) return 0; g[1]=1; return 1; }
    sched_point(34,0);
    for(;;){ if(g[0]){ acq(*syncvar(g)); return 0; } if(!g[1]){ g[1]=1; return 1; } if(t->quiet) viol("harness-error",PC,"guard contention in oracle scope"); block(6,g,~0ull,0); } }
void __cxa_guard_release(u8* g){ Thr*t=me; if(on&&t) rel(*syncvar(g)); g[0]=1; g[1]=0; if(on&&t) for(int i=1;i<nT;i++) if(T[i].state==S_BLOCK&&T[i].wkind==6&&T[i].wobj==g) wake(&T[i]); }
void __cxa_guard_abort(u8* g){ g[1]=0; if(on&&me) for(int i=1;i<nT;i++) if(T[i].state==S_BLOCK&&T[i].wkind==6&&T[i].wobj==g) wake(&T[i]); }
int __cxa_thread_atexit(void(*f)(void*),void* o,void*){ Thr*t=me; if(t&&t->ntd<64){ t->td[t->ntd].f=f; t->td[t->ntd++].o=o; } return 0; }
int sched_yield(){ if(on&&me){ yield_cpu(); } return 0; }
// ---- time ----
bool rt_started; // before main: a fixed time, so that static initialisers are repeatable
int clock_gettime(clockid_t c,struct timespec* ts){
    if(!rt_started){ ts->tv_sec=WALL0/1000000000; ts->tv_nsec=0; return 0; }
    if(!on||!me) return (int)rawsys(SYS_clock_gettime,c,(long)ts);
    if(!me->quiet){ sched_point(41,0); now+=800; maybe_jump(); }
    i64 v=(c==CLOCK_REALTIME||c==CLOCK_REALTIME_COARSE)?(i64)now+wall_off+WALL0:(i64)now+1000000000ll*0; ts->tv_sec=v/1000000000; ts->tv_nsec=v%1000000000; return 0; }
int gettimeofday(struct timeval* tv,void*){ struct timespec ts; clock_gettime(CLOCK_REALTIME,&ts); if(tv){tv->tv_sec=ts.tv_sec; tv->tv_usec=ts.tv_nsec/1000;} return 0; }
time_t time(time_t* o){ struct timespec ts; clock_gettime(CLOCK_REALTIME,&ts); if(o) *o=ts.tv_sec; return ts.tv_sec; }
// broken-down time: the non-reentrant form shares one result object, as in every C library
static void civil(i64 t,struct tm* o){ memset((void*)o,0,sizeof *o); i64 d=t/86400,r=t%86400; if(r<0){ r+=86400; d--; } o->tm_hour=(int)(r/3600); o->tm_min=(int)(r/60%60); o->tm_sec=(int)(r%60); o->tm_wday=(int)(((d+4)%7+7)%7);
    d+=719468; i64 era=(d>=0?d:d-146096)/146097; unsigned doe=(unsigned)(d-era*146097); unsigned yoe=(doe-doe/1460+doe/36524-doe/146096)/365; i64 y=(i64)yoe+era*400; unsigned doy=doe-(365*yoe+yoe/4-yoe/100); unsigned mp=(5*doy+2)/153; o->tm_mday=(int)(doy-(153*mp+2)/5+1); o->tm_mon=(int)(mp<10?mp+2:mp-10); y+=o->tm_mon<=1; o->tm_year=(int)(y-1900);
    static const int cum[12]={0,31,59,90,120,151,181,212,243,273,304,334}; bool leap=(y%4==0&&y%100!=0)||y%400==0; o->tm_yday=cum[o->tm_mon]+o->tm_mday-1+(leap&&o->tm_mon>1); o->tm_zone="UTC"; }
static struct tm g_tm;
struct tm* localtime_r(const time_t* t,struct tm* o){ if(on&&me&&!me->quiet){ sched_point(42,0); sim::touch(o,sizeof *o,true); } civil(*t,o); return o; }
struct tm* gmtime_r(const time_t* t,struct tm* o){ return localtime_r(t,o); }
struct tm* localtime(const time_t* t){ return localtime_r(t,&g_tm); }
struct tm* gmtime(const time_t* t){ return localtime_r(t,&g_tm); }
size_t strftime(char* s,size_t n,const char* f,const struct tm* tm){ auto r=real_strftime; if(!r) r=real_strftime=(size_t(*)(char*,size_t,const char*,const struct tm*))dlsym(RTLD_NEXT,"strftime"); if(on&&me&&!me->quiet){ sched_point(43,0); sim::touch(tm,sizeof *tm,false); } return r(s,n,f,tm); }
clock_t clock(){ if(!on||!me) return 0; return (clock_t)(now/1000); }
int nanosleep(const struct timespec* r,struct timespec*){ if(on&&me) sim::sleep_ns(ts2ns(r)); return 0; }
int clock_nanosleep(clockid_t c,int fl,const struct timespec* r,struct timespec*){ if(!on||!me) return 0; if(fl&TIMER_ABSTIME){ sched_point(40,0); block(5,0,absdl(r),c==CLOCK_REALTIME); me->timed_out=0; } else sim::sleep_ns(ts2ns(r)); return 0; }
int usleep(useconds_t u){ if(on&&me) sim::sleep_ns((u64)u*1000); return 0; }
unsigned sleep(unsigned s){ if(on&&me) sim::sleep_ns((u64)s*1000000000ull); return 0; }
// ---- randomness ----
int rand(){ if(on&&me&&!me->quiet) step_point(); return (int)(rnd()>>33); }
void srand(unsigned s){ if(g_rand_pt&&me) me->randst=s; else g_rand=s; }
int rand_r(unsigned* s){ *s=*s*1103515245u+12345u; return (int)((*s>>16)&0x7fffffff); }
long random(){ return rand(); } void srandom(unsigned s){ srand(s); }
unsigned arc4random(){ return (unsigned)rnd(); }
ssize_t getrandom(void* p,size_t n,unsigned){ for(size_t i=0;i<n;i++) ((u8*)p)[i]=(u8)rnd(); return n; }
// ---- futex ----
long syscall(long n,...){
    va_list ap; va_start(ap,n); long a=va_arg(ap,long),b=va_arg(ap,long),c=va_arg(ap,long),d=va_arg(ap,long),e=va_arg(ap,long),f=va_arg(ap,long); va_end(ap);
    Thr*t=me;
    if(on&&t&&n==SYS_futex){
        int op=(int)b&0x7f; int* p=(int*)a;
        if(op==FUTEX_WAIT||op==FUTEX_WAIT_BITSET){
            if(!t->quiet) check_addr(p,4,false,PC); sched_point(35,p); if(*p!=(int)c){ errno=EAGAIN; return -1; }
            u64 dl=~0ull; int real=0; if(d){ u64 v=absdl((struct timespec*)d); if(op==FUTEX_WAIT) dl=now+v; else { dl=v; real=(b&FUTEX_CLOCK_REALTIME)!=0; } }
            u32 s=decide(K_SPURIOUS,4,rate(K_SPURIOUS)); bool spur=false; if(s){ spur=true; block(4,p,now+1000*s,0);} else block(4,p,dl,real);
            bool to=t->timed_out; t->timed_out=0; if(spur){ errno=EINTR; return -1; } if(to){ errno=ETIMEDOUT; return -1; } return 0; }
        if(op==FUTEX_WAKE||op==FUTEX_WAKE_BITSET){ sched_point(36,p); int k=0; for(int i=1;i<nT&&k<(int)c;i++) if(T[i].state==S_BLOCK&&T[i].wkind==4&&T[i].wobj==p){ wake(&T[i]); k++; } return k; }
        viol("harness-limit",PC,"futex op %d",op);
    }
    if(n==SYS_gettid&&on&&t) return 1000+t->tid;
    long r=rawsys(n,a,b,c,d,e,f); if(r<0&&r>-4096){ errno=-(int)r; return -1; } return r; }
// ---- OpenMP ----
int omp_get_thread_num(){ return me&&me->team?me->omp_id:0; }
int omp_get_num_threads(){ return me&&me->team?me->team->n:1; }
int omp_get_max_threads(){ return on?team_size:1; }
int omp_get_num_procs(){ return on?team_size:1; }
int omp_in_parallel(){ return me&&me->team&&me->team->n>1; }
void omp_set_num_threads(int n){ if(n>0&&n<16) team_size=n; }
void omp_set_dynamic(int){} void omp_set_nested(int){} int omp_get_nested(){return 0;} int omp_get_dynamic(){return 0;} int omp_get_level(){return omp_in_parallel();} int omp_get_team_size(int){return omp_get_num_threads();} int omp_get_ancestor_thread_num(int){return omp_get_thread_num();}
double omp_get_wtime(){ return now*1e-9; }
void GOMP_parallel(void(*fn)(void*),void* d,unsigned n,unsigned){ par(fn,d,n,0,0,1,1); }
#define GP(N) void GOMP_parallel_loop_##N(void(*fn)(void*),void* d,unsigned n,long s,long e,long i,long c,unsigned){ par(fn,d,n,s,e,i,c<1?1:c); } 
GP(dynamic) GP(nonmonotonic_dynamic) GP(guided) GP(nonmonotonic_guided)
#define GR(N) void GOMP_parallel_loop_##N(void(*fn)(void*),void* d,unsigned n,long s,long e,long i,unsigned){ par(fn,d,n,s,e,i,1); }
GR(runtime) GR(nonmonotonic_runtime) GR(maybe_nonmonotonic_runtime)
bool GOMP_loop_dynamic_next(long*a,long*b){return ws_next(a,b);} bool GOMP_loop_nonmonotonic_dynamic_next(long*a,long*b){return ws_next(a,b);} bool GOMP_loop_guided_next(long*a,long*b){return ws_next(a,b);} bool GOMP_loop_nonmonotonic_guided_next(long*a,long*b){return ws_next(a,b);} bool GOMP_loop_runtime_next(long*a,long*b){return ws_next(a,b);} bool GOMP_loop_maybe_nonmonotonic_runtime_next(long*a,long*b){return ws_next(a,b);} bool GOMP_loop_nonmonotonic_runtime_next(long*a,long*b){return ws_next(a,b);}
static bool lstart(long s,long e,long inc,long c,long*a,long*b){ Thr*t=me; Team*tm=t?t->team:0; if(!tm){ static __thread Team solo; solo.n=1; t->team=&solo; tm=&solo; } if(tm->ws_users==0){ tm->nxt=s; tm->end=e; tm->incr=inc; tm->chunk=c<1?1:c; } tm->ws_users++; return ws_next(a,b); }
bool GOMP_loop_dynamic_start(long s,long e,long i,long c,long*a,long*b){return lstart(s,e,i,c,a,b);} bool GOMP_loop_nonmonotonic_dynamic_start(long s,long e,long i,long c,long*a,long*b){return lstart(s,e,i,c,a,b);} bool GOMP_loop_guided_start(long s,long e,long i,long c,long*a,long*b){return lstart(s,e,i,c,a,b);}  bool GOMP_loop_nonmonotonic_guided_start(long s,long e,long i,long c,long*a,long*b){return lstart(s,e,i,c,a,b);}
void GOMP_loop_end(){ Thr*t=me; Team*tm=t?t->team:0; if(!tm||tm->n<2){ if(tm) tm->ws_users=0; return; } barrier(); tm->ws_users=0; barrier(); }
void GOMP_loop_end_nowait(){}
void GOMP_barrier(){ barrier(); }
void GOMP_critical_start(){ mlock(crit_mx,~0ull,0,PC); } void GOMP_critical_end(){ munlock(crit_mx,PC); }
static void** cn[16]; static int cnm[16][20];
static void* cslot(void** p){ for(int i=0;i<16;i++){ if(!cn[i]) cn[i]=p; if(cn[i]==p) return cnm[i]; } return cnm[15]; }
void GOMP_critical_name_start(void** p){ mlock(cslot(p),~0ull,0,PC); } void GOMP_critical_name_end(void** p){ munlock(cslot(p),PC); }
void GOMP_atomic_start(){ mlock(crit_mx+20,~0ull,0,PC); } void GOMP_atomic_end(){ munlock(crit_mx+20,PC); }
bool GOMP_single_start(){ Thr*t=me; Team*tm=t?t->team:0; return !tm||t->omp_id==0; }
}
// std::random_device
extern "C" unsigned _ZNSt13random_device9_M_getvalEv(void*){ return (unsigned)rnd(); }
extern "C" void _ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(void*,const void*){}
extern "C" void _ZNSt13random_device7_M_finiEv(void*){}
