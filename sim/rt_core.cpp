// Scheduler, decisions, happens-before race detection, checked heap, __tsan_* entry points.
#include "rt.hpp"
#include <sys/mman.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <dlfcn.h>
#include <unistd.h>
#include <cmath>

namespace sim {
const char* const kind_names[K_NKINDS]={"preempt","pick","sigpick","spurious","gen","clockjump","threadfail","mallocfail","userfault","userdelay","io_open","io_write","io_read","io_close","io_stat","crash","dirorder","rand","corrupt"};
Shared* G;
Thr T[MAXT]; int nT=1;
__thread Thr* me;
volatile int on=0;
u64 now=0; i64 wall_off=0; u64 gseq=0;
bool replaying=false, verbose=false, no_more_faults=false;
u64 max_time=~0ull;
int team_size=1;
static bool race_on=true; int n_live=0;
static u64 run_steps_cap=60000000ull,run_fair_cap=60000000ull;
void set_fair_cap(u64 n){ run_fair_cap=n; }
static u64 base_steps=0;
static bool fair_mode=false;
static u64 stall_total=0,stall_end=0;

// ---------- PRNG ----------
struct Rng{ u64 s; u64 next(){ u64 z=(s+=0x9E3779B97F4A7C15ull); z=(z^(z>>30))*0xBF58476D1CE4E5B9ull; z=(z^(z>>27))*0x94D049BB133111EBull; return z^(z>>31);} 
    double uni(){return (next()>>11)*(1.0/9007199254740992.0);} u32 below(u32 n){return n<2?0:(u32)(next()%n);} };
static Rng r_sched,r_fault,r_gen;
struct Cfg { int strat; double p_access,p_sync,p_stall; double rate[K_NKINDS]; bool ken[K_NKINDS]; double kscale[K_NKINDS]; u64 change[8]; int nchange; int ichange; u64 gsteps_est; } static cfg;
double rate(Kind k){ return no_more_faults?0:cfg.rate[k]; }

void note(int op,u64 a){
    Thr* t=me; u64 x=((u64)(t?t->tid:0)<<56)^((u64)op<<48)^a;
    G->il_hash=(G->il_hash^x)*0x100000001B3ull; G->il_hash^=G->il_hash>>29;
}
bool trace=false;
static struct { u64 a,b,c,d; } tbuf[1<<18]; static u32 ntb; // SIM_TRACE: kept in memory and written at the end, so that tracing does not disturb anything
static inline void tput(u64 a,u64 b,u64 c){ if(trace&&ntb<(1u<<18)){ tbuf[ntb].a=a; tbuf[ntb].b=b; tbuf[ntb].c=c; tbuf[ntb++].d=now; } }
static void tdump(){ if(!trace) return; for(u32 i=0;i<ntb;i++){ char b[128]; int n=snprintf(b,128,"T %llx %llx %llx now=%llu\n",(unsigned long long)tbuf[i].a,(unsigned long long)tbuf[i].b,(unsigned long long)tbuf[i].c,(unsigned long long)tbuf[i].d); rawsys(SYS_write,2,(long)b,n); } }
static void trh(u64 x){ tput(x,0,0); G->tr_hash=(G->tr_hash^x)*0x100000001B3ull; G->tr_hash^=G->tr_hash>>31; }

// ---------- decisions ----------
static void record(Kind k,int tid,u64 key,u32 val){ if(G->phase==2) tid|=0x100;
    if(G->nev<MAXEV){ Event& e=G->ev[G->nev++]; e.kind=(u16)k; e.tid=(u16)tid; e.key=key; e.val=val; } else G->ev_overflow++;
}
// once the decision log is full every further decision takes its default, so that the log still describes the whole run
static inline bool full(){ return !replaying&&G->nev+4>=MAXEV; }
// replay tables
static Event* rp; static u32 nrp;
struct RHash{ u64 k; u32 v; bool used; }; static RHash* rh; static u32 rhm;
static Event** rpre[MAXT]; static u32 nrpre[MAXT];
static u64 hk(int kind,int tid,u64 key){ u64 x=((u64)kind<<58)^((u64)tid<<50)^key; x^=x>>33; x*=0xff51afd7ed558ccdull; x^=x>>33; x*=0xc4ceb9fe1a85ec53ull; x^=x>>33; return x?x:1; }
static bool rlookup(int kind,int tid,u64 key,u32& v){ if(!rhm) return false; u64 h=hk(kind,tid,key); for(u32 i=h&(rhm-1);rh[i].used;i=(i+1)&(rhm-1)) if(rh[i].k==h){ v=rh[i].v; return true;} return false; }
void load_replay(const Event* e0,u32 n0){
    replaying=true; static Event tmp[MAXEV]; u32 n=0; int ph=G->phase==2?0x100:0; for(u32 i=0;i<n0&&i<MAXEV;i++) if((e0[i].tid&0x100)==ph){ tmp[n]=e0[i]; tmp[n].tid&=0xff; n++; } const Event* e=tmp;
    size_t sz=sizeof(Event)*(n+1); rp=(Event*)mmap(0,sz,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); memcpy(rp,e,sizeof(Event)*n); nrp=n;
    rhm=64; while(rhm<n*3+16) rhm*=2;
    rh=(RHash*)mmap(0,sizeof(RHash)*rhm,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0);
    u32 cnt[MAXT]={0};
    for(u32 i=0;i<n;i++){ if(rp[i].kind==K_PREEMPT){ if(rp[i].tid<MAXT) cnt[rp[i].tid]++; continue; } u64 h=hk(rp[i].kind,rp[i].tid,rp[i].key); u32 j=h&(rhm-1); while(rh[j].used) j=(j+1)&(rhm-1); rh[j].used=true; rh[j].k=h; rh[j].v=rp[i].val; }
    for(int t=0;t<MAXT;t++){ rpre[t]=0; nrpre[t]=0; if(cnt[t]) rpre[t]=(Event**)mmap(0,sizeof(Event*)*cnt[t],PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); }
    for(u32 i=0;i<n;i++) if(rp[i].kind==K_PREEMPT&&rp[i].tid<MAXT){ int t=rp[i].tid; u32 j=nrpre[t]++; while(j>0&&rpre[t][j-1]->key>rp[i].key){ rpre[t][j]=rpre[t][j-1]; j--; } rpre[t][j]=&rp[i]; }
}
void count_fired(Kind k){ G->fired[k]++; if(me) me->firedk[k]++; trh(0xF0000000ull+k); }
// decide: with probability p choose 1..n-1
u32 decide(Kind k,u32 n,double p){
    Thr* t=me; u64 key=t->cnt[k]++;
    if(n<2) return 0;
    u32 v=0;
    if(replaying){ if(!rlookup(k,t->tid,key,v)) return 0; v%=n; }
    else { if(no_more_faults||p<=0||full()) return 0; if(r_fault.uni()>=p) return 0; v=1+r_fault.below(n-1); }
    if(v){ record(k,t->tid,key,v); count_fired(k);} 
    return v;
}
u32 decide_val(Kind k,u32 n){
    Thr* t=me; u64 key=t->cnt[k]++; if(n<2) return 0;
    u32 v=0;
    if(replaying){ if(!rlookup(k,t->tid,key,v)) return 0; v%=n; }
    else { if(full()) return 0; v=(k==K_GEN?r_gen:r_sched).below(n); }
    if(v) record(k,t->tid,key,v);
    return v;
}
u32 gen(u32 n){ Quiet q; return decide_val(K_GEN,n); }
u32 gen_rare(u32 n,u32 num,u32 den){
    Quiet q; Thr* t=me; u64 key=t->cnt[K_GEN]++; if(n<2) return 0; u32 v=0;
    if(replaying){ if(!rlookup(K_GEN,t->tid,key,v)) return 0; v%=n; }
    else { if(!full()&&r_gen.below(den)<num) v=1+r_gen.below(n-1); }
    if(v) record(K_GEN,t->tid,key,v);
    return v;
}
void enable(Kind k,double maxrate){ if(cfg.ken[k]) cfg.rate[k]=maxrate*cfg.kscale[k]; else cfg.rate[k]=0; }
void disable(Kind k){ cfg.rate[k]=0; }
bool fault(Kind k){ return decide(k,2,rate(k))!=0; }
u64 delay_choice(){ static const u64 d[]={0,1000,50000,1000000,7000000,60000000,400000000,2500000000ull}; return d[decide(K_USERDELAY,8,rate(K_USERDELAY))]; }
MallocFaults::MallocFaults(bool i):inh(i){me->mf++; me->mfi+=i;} MallocFaults::~MallocFaults(){me->mf--; me->mfi-=inh;}
IoFaults::IoFaults(){me->iof++;} IoFaults::~IoFaults(){me->iof--;}
ThreadFaults::ThreadFaults(){me->thf++;} ThreadFaults::~ThreadFaults(){me->thf--;}
Quiet::Quiet(){ if(me) me->quiet++; } Quiet::~Quiet(){ if(me) me->quiet--; }
u64 fired(Kind k){return G->fired[k];} u64 fired_by_me(Kind k){return me->firedk[k];}
u64 now_ns(){return now;} i64 wall_offset_ns(){return wall_off;} u64 seq(){return ++gseq;} int tid(){return me?me->tid:0;}
u64 total_stall_ns(){return stall_total;} u64 stalled_until(){return stall_end;} void set_max_time(u64 ns){max_time=ns;}
void faults_off(){ no_more_faults=true; for(int i=0;i<K_NKINDS;i++) cfg.rate[i]=0; }
void race_check(bool b){race_on=b;}
void set_team(int n){team_size=n;} int team(){return team_size;}
int phase(){return G->phase;} void* durable(){return G->durable;} bool crashed_before(){return G->phase>1;}
void probe(const char* name){ for(u32 i=0;i<G->nprobes;i++) if(!strcmp(G->probes[i].name,name)){G->probes[i].count++;return;} if(G->nprobes<MAXPROBE){ Probe&p=G->probes[G->nprobes++]; strncpy(p.name,name,43); p.name[43]=0; p.count=1; } }
void logf(const char* f,...){ Quiet q; char b[512]; va_list a; va_start(a,f); int n=vsnprintf(b,sizeof b,f,a); va_end(a); if(n>(int)sizeof b-1) n=sizeof b-1; 
    u64 h=0; for(int i=0;i<n;i++) h=h*131+(u8)b[i]; trh(h);
    char c[600]; int m=snprintf(c,sizeof c,"[%llu.%06llums t%d] %s\n",(unsigned long long)(now/1000000),(unsigned long long)(now%1000000),me?me->tid:0,b); if(G->log_n+m<LOGSZ){ memcpy(G->log+G->log_n,c,m); G->log_n+=m; } if(verbose) { rawsys(SYS_write,2,(long)c,m);} }

// ---------- ending ----------
void finish(int st){ G->simtime+=now; u64 s=0; for(int i=0;i<nT;i++) s+=T[i].step; G->steps+=s; trh(now); trh(s); G->nthreads=nT; tdump(); __sync_synchronize(); G->status=st; rawsys(SYS_exit_group,0); for(;;); }
static void fillpcs(int w,Thr* t,void* pc){ int n=0; if(pc) G->pcs[w][n++]=(u64)pc; for(int i=t->ssp-1;i>=0&&n<24;i--) G->pcs[w][n++]=t->ss[i]; G->npcs[w]=n; }
static u64 msg_hash(const char* c){ u64 h=0; while(*c){ if(c[0]=='0'&&c[1]=='x'){ c+=2; while((*c>='0'&&*c<='9')||(*c>='a'&&*c<='f')) c++; continue; } h=h*131+(u8)*c++; } return h; } // addresses are not part of the trace
void viol(const char* cls,void* pc,const char* f,...){
    Thr* t=me; if(t) {t->quiet++; fillpcs(0,t,pc); G->vtid=t->tid;}
    snprintf(G->cls,sizeof G->cls,"%s",cls); va_list a; va_start(a,f); vsnprintf(G->msg,sizeof G->msg,f,a); va_end(a); trh(msg_hash(G->msg)); finish(ST_VIOL); }
void violation(const char* cls,const char* f,...){ Thr* t=me; t->quiet++; fillpcs(0,t,__builtin_return_address(0)); G->vtid=t->tid; snprintf(G->cls,sizeof G->cls,"%s",cls); va_list a; va_start(a,f); vsnprintf(G->msg,sizeof G->msg,f,a); va_end(a); trh(msg_hash(G->msg)); finish(ST_VIOL); }
void end_ok(){ finish(ST_OK); }
void crash_now(){ finish(ST_CRASHED); }
void force_crash(){ crash_now(); }

// ---------- scheduling ----------
static void fwait(Thr* t){ while(__atomic_load_n(&t->fut,__ATOMIC_ACQUIRE)==0) rawsys(SYS_futex,(long)&t->fut,FUTEX_WAIT_PRIVATE,0,0); __atomic_store_n(&t->fut,0,__ATOMIC_RELEASE); }
static void fwake(Thr* t){ __atomic_store_n(&t->fut,1,__ATOMIC_RELEASE); rawsys(SYS_futex,(long)&t->fut,FUTEX_WAKE_PRIVATE,1); }
static u64 mono_deadline(Thr* t){ if(t->deadline==~0ull) return ~0ull; if(!t->dl_real) return t->deadline; i64 d=(i64)t->deadline-wall_off-1600000000000000000ll; return d<0?0:(u64)d; }
static u64 min_dl=~0ull;
void deadlines_changed(){ min_dl=0; }
static void expire(){ if(now<min_dl) return; min_dl=~0ull; for(int i=1;i<nT;i++){ Thr&t=T[i]; if(t.state==S_BLOCK&&t.deadline!=~0ull){ u64 d=mono_deadline(&t); if(d<=now){ t.timed_out=1; t.state=S_RUN; } else if(d<min_dl) min_dl=d; } } }
static void plan(Thr* t){ // next preemption step of a thread being switched in
    if(replaying){ while(t->ev_i<nrpre[t->tid]&&rpre[t->tid][t->ev_i]->key<=t->step) t->ev_i++; t->next_pre=t->ev_i<nrpre[t->tid]?rpre[t->tid][t->ev_i]->key:~0ull; return; }
    if(fair_mode){ t->next_pre=~0ull; return; }
    if(cfg.strat==1){ u64 gs=0; for(int i=1;i<nT;i++) gs+=T[i].step; while(cfg.ichange<cfg.nchange&&cfg.change[cfg.ichange]<=gs) cfg.ichange++; t->next_pre=cfg.ichange<cfg.nchange? t->step+(cfg.change[cfg.ichange]-gs):~0ull; return; }
    if(cfg.p_access<=0){ t->next_pre=~0ull; return; }
    double g=std::log(1.0-r_sched.uni())/std::log(1.0-cfg.p_access); if(g>1e12) g=1e12; t->next_pre=t->step+1+(u64)g;
}
static int runnable(int* out,Thr* excl){ int n=0; int c=me?me->tid:0; for(int k=1;k<=nT;k++){ int i=(c+k)%nT; if(i==0) continue; Thr&t=T[i]; if(t.state==S_RUN&&&t!=excl) out[n++]=i; } return n; }
static void go(Thr* n){ Thr* t=me; if(n==t){ plan(t); return; } G->switches++; note(99,n->tid); trh(((u64)n->tid<<40)^t->step); n->since_switch=0; plan(n); fwake(n); }
static const u64 stall_tab[8]={0,1000,40000,1000000,8000000,70000000,600000000,10000000000ull};
static void deadlock(){
    char b[2000]; int p=0; for(int i=1;i<nT&&p<1800;i++) if(!T[i].finished&&!T[i].idle) p+=snprintf(b+p,sizeof b-p," t%d:%s",i,T[i].state==S_BLOCK?(T[i].wkind==1?"mutex":T[i].wkind==2?"cond":T[i].wkind==3?"join":T[i].wkind==4?"futex":T[i].wkind==5?"sleep":T[i].wkind==6?"once/guard":T[i].wkind==7?"omp":"?"):"?");
    // stack of the harness main thread is the most telling one
    Thr* o=me; G->npcs[1]=0; if(o!=&T[1]) fillpcs(1,&T[1],0);
    viol("deadlock",0,"no thread can make progress:%s",b);
}
static Thr* pick(Thr* excl){ // must choose somebody to run
    int c[MAXT]; int n;
    for(;;){ expire(); n=runnable(c,excl); if(n) break;
        if(excl&&excl->state==S_RUN) return excl;
        u64 best=~0ull; for(int i=1;i<nT;i++) if(T[i].state==S_BLOCK){ u64 d=mono_deadline(&T[i]); if(d<best) best=d; }
        if(best==~0ull) deadlock();
        if(best>now) now=best;
        if(now>max_time) viol("no-progress",0,"simulated time bound %llu ms exceeded while waiting",(unsigned long long)(max_time/1000000));
    }
    if(n==1){ if(me) me->cnt[K_PICK]++; return &T[c[0]]; }
    if(!replaying&&cfg.strat==1&&!fair_mode){ int b=0; for(int i=1;i<n;i++) if(T[c[i]].prio>T[c[b]].prio) b=i; u64 key=me->cnt[K_PICK]++; if(b){ record(K_PICK,me->tid,key,b); G->fired[K_PICK]++; } return &T[c[b]]; }
    if(fair_mode){ return &T[c[0]]; }
    u32 v=decide_val(K_PICK,n); if(v) G->fired[K_PICK]++;
    return &T[c[v]];
}
void yield_cpu(){ Thr* t=me; if(!on||!t) return; now+=1000; G->syncops++; expire(); Thr* n=pick(t); if(n!=t){ go(n); fwait(t);} else plan(t); }
void block(int wk,const void* obj,u64 dl,int real){
    Thr* t=me; t->wkind=wk; t->wobj=obj; t->deadline=dl; t->dl_real=real; t->timed_out=0; t->state=S_BLOCK; min_dl=0; static u64 ws=0; t->wseq=++ws;
    Thr* n=pick(nullptr);
    if(n!=t){ go(n); fwait(t);} else { t->state=S_RUN; plan(t);} 
    t->wobj=0; t->deadline=~0ull;
}
void wake(Thr* t){ if(t->state==S_BLOCK){ t->state=S_RUN; t->timed_out=0; } }
static void stall(u64 d){ Thr* t=me; stall_total+=d; if(now+d>stall_end) stall_end=now+d; block(5,0,now+d,0); t->timed_out=0; }
static void total_check(Thr* t){
    u64 s=0; for(int i=1;i<nT;i++) s+=T[i].step;
    if(s>run_steps_cap&&!fair_mode){ fair_mode=true; no_more_faults=true; base_steps=s; }
    if(fair_mode&&s>base_steps+run_fair_cap) viol("livelock",0,"no completion within %llu steps, %llu of them under a fair schedule without faults",(unsigned long long)s,(unsigned long long)run_fair_cap);
}
static void pre_slow(Thr* t){ // called before an access/sync op when step>=next_pre
    if(t->since_switch>1500000){ total_check(t); t->since_switch=0; int c[MAXT]; expire(); int n=runnable(c,t); if(n){ Thr* x=&T[c[0]]; go(x); fwait(t);} else {plan(t); now+=1000000;} return; }
    u32 v=0; if(full()){ plan(t); return; }
    if(replaying){ if(t->ev_i>=nrpre[t->tid]||rpre[t->tid][t->ev_i]->key!=t->step){ plan(t); return; } v=rpre[t->tid][t->ev_i]->val; t->ev_i++; }
    else {
        if(cfg.strat==1){ t->prio=-(++cfg.ichange); int c[MAXT]; expire(); int n=runnable(c,t); if(!n){ plan(t); return; } int b=0; for(int i=1;i<n;i++) if(T[c[i]].prio>T[c[b]].prio) b=i; v=1+b; }
        else { int c[MAXT]; expire(); int n=runnable(c,t); bool st=!no_more_faults&&cfg.p_stall>0&&r_sched.uni()<cfg.p_stall; if(st){ v=0x100*(1+r_sched.below(7)); } else if(n) v=1+r_sched.below(n); else { plan(t); return; } }
    }
    if(v>=0x100){ u64 d=stall_tab[(v>>8)&7]; record(K_PREEMPT,t->tid,t->step,v); G->fired[K_PREEMPT]++; G->preempts++; probe("fault:stall"); stall(d); plan(t); return; }
    int c[MAXT]; expire(); int n=runnable(c,t); if(!n||!v){ plan(t); return; }
    Thr* x=&T[c[(v-1)%n]]; record(K_PREEMPT,t->tid,t->step,1+(v-1)%n); G->fired[K_PREEMPT]++; G->preempts++;
    go(x); fwait(t);
}
void sched_point(int op,const void* obj){
    Thr* t=me; if(!on||!t) return; now+=200; G->syncops++; gseq++; expire(); tput(0x5000000000000000ull|((u64)t->tid<<32)|((u64)op<<16)|t->quiet,(u64)obj,t->step);
    if(t->quiet) return;
    t->step++; t->since_switch++;
    if((G->syncops&0x3fff)==0){ total_check(t); if(now>max_time) viol("no-progress",0,"simulated time bound %llu ms exceeded",(unsigned long long)(max_time/1000000)); }
    if(t->step>=t->next_pre||t->since_switch>1500000){ pre_slow(t); }
    else if(!replaying&&!fair_mode&&!full()){
        if(cfg.strat==1){ int c[MAXT]; expire(); int n=runnable(c,t); int b=-1; for(int i=0;i<n;i++) if(T[c[i]].prio>t->prio&&(b<0||T[c[i]].prio>T[c[b]].prio)) b=i; if(b>=0){ record(K_PREEMPT,t->tid,t->step,1+b); G->fired[K_PREEMPT]++; G->preempts++; go(&T[c[b]]); fwait(t);} }
        else if(cfg.p_sync>0&&r_sched.uni()<cfg.p_sync){ u64 sv=t->next_pre; t->next_pre=t->step; pre_slow(t); (void)sv; }
    } else if(fair_mode&&t->since_switch>2000){ yield_cpu(); }
    note(op,(u64)(uintptr_t)obj);
}
void step_point(){ Thr* t=me; if(!on||!t||t->quiet) return; t->step++; t->since_switch++; if(t->step>=t->next_pre||t->since_switch>1500000) pre_slow(t); }
void plan_first(){ plan(&T[1]); }
void yield_point(){ yield_cpu(); }
void sleep_ns(u64 ns){ Thr*t=me; sched_point(40,0); if(ns==0){ yield_cpu(); return; } block(5,0,now+ns,0); t->timed_out=0; }
int alive_threads(){ int n=0; for(int i=1;i<nT;i++) if(!T[i].finished&&!T[i].daemon) n++; return n; }

// ---------- threads ----------
struct Boot{ Thr* t; };
extern int (*real_pthread_create)(pthread_t*,const pthread_attr_t*,void*(*)(void*),void*);
static void* boot(void* p){ Thr* t=(Thr*)p; me=t; fwait(t); sigset_t* x=0; (void)x; void* r=t->fn(t->arg); t->ret=r; run_tls_dtors(); thread_end(); return 0; }
void run_tls_dtors(){ Thr* t=me; while(t->ntd>0){ TlsDtor d=t->td[--t->ntd]; d.f(d.o);} }
void thread_end(){ Thr* t=me; t->quiet=0; sched_point(50,0); t->finished=true; t->state=S_DONE; n_live--;
    t->vc.c[t->tid]++;
    for(int i=1;i<nT;i++) if(T[i].state==S_BLOCK&&T[i].wkind==3&&T[i].wobj==t) wake(&T[i]);
    Thr* n=pick(nullptr); go(n); for(;;) rawsys(SYS_futex,(long)&t->fut,FUTEX_WAIT_PRIVATE,0,0); }
Thr* spawn_thread(void*(*fn)(void*),void* arg,bool daemon){
    if(nT>=MAXT) return 0;
    Thr* t=&T[nT]; memset((void*)t,0,sizeof *t); t->tid=nT; t->fn=fn; t->arg=arg; t->daemon=daemon; t->deadline=~0ull; t->next_pre=~0ull; t->omp_max=0;
    if(me&&me->tid){ t->mf=t->mfi=me->mfi; t->iof=me->iof; t->thf=me->thf; vc_join(t->vc,me->vc,MAXT); me->vc.c[me->tid]++; }
    t->vc.c[t->tid]=1; t->prio=1000+(int)(r_sched.next()%100000); t->randst=0x1234567+t->tid;
    t->stk=S_BASE+S_STK*t->tid+4096; t->stksz=S_STK-8192; 
    if(t->tid==1){ t->stk=S_BASE+S_STK*MAXT; t->stksz=((size_t)16<<20)-8192; }
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at,t->stk,t->stksz);
    int q=0; if(me) me->quiet++; int r=real_pthread_create(&t->real,&at,boot,t); if(me) me->quiet--; (void)q;
    if(r){ G->status=ST_INCONCL; snprintf(G->msg,sizeof G->msg,"real pthread_create failed %d",r); rawsys(SYS_exit_group,0); }
    nT++; n_live++; t->state=S_RUN; return t;
}

// ---------- happens-before ----------
struct SV{ const void* a; VC v; }; static SV* svt; enum{SVN=1<<15}; static u32 svused;
VC* syncvar(const void* a){ u64 h=(u64)(uintptr_t)a; h=(h>>2)*0x9E3779B97F4A7C15ull; u32 i=(h>>40)&(SVN-1); while(svt[i].a&&svt[i].a!=a) i=(i+1)&(SVN-1); if(!svt[i].a){ if(++svused>SVN*3/4){ memset((void*)svt,0,sizeof(SV)*SVN); svused=1; i=(h>>40)&(SVN-1);} svt[i].a=a; } return &svt[i].v; }
void rel(VC& v){ Thr*t=me; if(!t) return; vc_join(v,t->vc,nT); t->vc.c[t->tid]++; }
void acq(const VC& v){ Thr*t=me; if(!t) return; vc_join(t->vc,v,nT); }

struct Cell{ u32 clk; u8 tid; u8 mask; u8 fl; u8 pad; };
extern "C" char __executable_start, _end, etext;
static inline bool shadow_of(uintptr_t a,Cell*& c,u32*& p){
    size_t o; if((o=a-(uintptr_t)H_BASE)<H_SIZE){ c=(Cell*)(RS_H+(o>>3)*32); p=(u32*)(PC_H+(o>>3)*16); return true; }
    if((o=a-(uintptr_t)S_BASE)<S_SIZE){ c=(Cell*)(RS_S+(o>>3)*32); p=(u32*)(PC_S+(o>>3)*16); return true; }
    if(a<GL_MAX){ c=(Cell*)(RS_G+(a>>3)*32); p=(u32*)(PC_G+(a>>3)*16); return true; }
    return false;
}
static inline bool multi(){ return n_live>1; }
static void race_found(Cell& c,u32 pc,const void* a,int fl,void* mypc){
    Thr*t=me; G->npcs[1]=0; G->pcs[1][G->npcs[1]++]=pc; 
    viol("data-race",mypc,"data race on %p: %s by t%d and %s by t%d, unordered",a,(fl&A_W)?"write":"read",t->tid,(c.fl&A_W)?"write":"read",c.tid);
}
static inline void race_word(uintptr_t w,u8 mask,int fl,void* pc){
    Cell* c; u32* p; if(!shadow_of(w,c,p)) return; Thr* t=me; int slot=-1, freeslot=-1; u32 myclk=t->vc.c[t->tid];
    for(int i=0;i<4;i++){
        Cell& x=c[i]; if(!x.mask){ if(freeslot<0) freeslot=i; continue; }
        if(x.tid==t->tid){ if((x.mask&mask)==x.mask&&((fl&A_W)||!(x.fl&A_W))&&(!(fl&A_ATOMIC)||(x.fl&A_ATOMIC))&&(!(fl&A_LIB)||(x.fl&A_LIB))){ if(slot<0) slot=i; else x.mask=0; } continue; }
        if(!(x.mask&mask)) continue;
        if(x.clk<=t->vc.c[x.tid]){ // ordered before us: a covering write supersedes it
            if((x.mask&mask)==x.mask&&((fl&A_W))){ x.mask=0; if(freeslot<0) freeslot=i; }
            continue; }
        if(!((fl|x.fl)&A_W)) continue;
        if((fl&x.fl)&A_ATOMIC) continue;
        if((fl&x.fl)&A_LIB) continue;
        race_found(x,p[i],(void*)w,fl,pc);
    }
    if(slot<0) slot=freeslot; if(slot<0) slot=(t->step)&3;
    c[slot].clk=myclk; c[slot].tid=(u8)t->tid; c[slot].mask=mask; c[slot].fl=(u8)fl; p[slot]=(u32)(uintptr_t)pc;
}
void race_access(const void* p,size_t n,int fl,void* pc){
    if(!race_on||!multi()) return;
    uintptr_t a=(uintptr_t)p,e=a+n; 
    while(a<e){ uintptr_t w=a&~7ull; size_t lo=a-w,hi=e-w; if(hi>8) hi=8; u8 m=(u8)(((1u<<hi)-1)&~((1u<<lo)-1)); race_word(w,m,fl,pc); a=w+8; }
}

// ---------- addressability ----------
static char mem_msg(u8 s){return s;}
static void bad_access(const void* p,size_t n,bool wr,void* pc,u8 s){ (void)mem_msg;
    viol("memory-error",pc,"%s of %zu bytes at %p: %s",wr?"write":"read",n,p,s==0xfd?"use after free":s==0xfa?"outside an allocation (heap overflow)":s==0xfb?"never allocated heap":"past the end of an allocation"); }
void check_addr(const void* p,size_t n,bool wr,void* pc){
    size_t o=(uintptr_t)p-(uintptr_t)H_BASE; if(o>=H_SIZE||!n) return;
    if(n<=16){ for(size_t a=o&~7ull;a<o+n;a+=8){ u8 s=((u8*)AS_BASE)[a>>3]; if(s==0) bad_access(p,n,wr,pc,0xfb); if(s==8) continue; if(s>8){ bad_access(p,n,wr,pc,s);} size_t last=(o+n<a+8)?o+n-a:8; if(last>s) bad_access(p,n,wr,pc,1);} return; }
    u8* sh=(u8*)AS_BASE; size_t a=o>>3,e=(o+n)>>3; for(;a<e;a++) if(sh[a]!=8) bad_access(p,n,wr,pc,sh[a]==0?0xfb:sh[a]); size_t rem=(o+n)&7; if(rem){ u8 s=sh[e]; if(s==8) return; if(s==0||s>8||rem>s) bad_access(p,n,wr,pc,s==0?0xfb:s);} }
bool is_heap_live(const void* p,size_t n){ size_t o=(uintptr_t)p-(uintptr_t)H_BASE; if(o>=H_SIZE) return true; u8* sh=(u8*)AS_BASE; for(size_t a=o>>3;a<=(o+n-1)>>3;a++) if(sh[a]==0||sh[a]>8) return false; return true; }
void touch(const void* p,size_t n,bool w){ if(!on||!me||me->quiet||!n) return; step_point(); check_addr(p,n,w,__builtin_return_address(0)); race_access(p,n,w?A_W:0,__builtin_return_address(0)); }

// ---------- heap ----------
struct Hdr{ u64 size; u32 cls; u32 off; };
static char* h_top; static void* h_free[256]; static bool h_ready=false;
struct QB{ void* b; u32 cls; }; enum{QN=1<<14}; static QB* quar; static u32 q_h,q_t; static size_t q_bytes;
static int fill_mode=0; static u64 fill_seed=1;
void heap_set_fill(int m){ fill_mode=m; }
static size_t cls_size(u32 c){ if(c<64) return (size_t)(c+1)*16; u32 k=c-64; size_t b=(size_t)1024<<(k/4); return b+(b/4)*(k%4+1); }
static u32 size_cls(size_t n){ if(n<=1024) return (u32)((n+15)/16)-1; u32 c=64; while(cls_size(c)<n) c++; return c; }
void heap_init(){ if(h_ready) return; h_ready=true;
    #define MAPAT(b,s) { void* r=mmap((b),(s),PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0); if(r!=(void*)(b)){ const char m[]="sim: cannot map region\n"; rawsys(SYS_write,2,(long)m,sizeof m-1); rawsys(SYS_exit_group,99);} }
    MAPAT(H_BASE,H_SIZE) MAPAT(S_BASE,S_SIZE) MAPAT(AS_BASE,H_SIZE/8) MAPAT(RS_H,H_SIZE*4) MAPAT(RS_S,S_SIZE*4) MAPAT(RS_G,GL_MAX*4) MAPAT(PC_H,H_SIZE*2) MAPAT(PC_S,S_SIZE*2) MAPAT(PC_G,GL_MAX*2) MAPAT(PA_BASE,PA_SIZE)
    madvise(H_BASE,H_SIZE,MADV_NOHUGEPAGE); madvise(RS_H,H_SIZE*4,MADV_NOHUGEPAGE); madvise(PC_H,H_SIZE*2,MADV_NOHUGEPAGE); madvise(S_BASE,S_SIZE,MADV_NOHUGEPAGE); madvise(AS_BASE,H_SIZE/8,MADV_NOHUGEPAGE);
    h_top=H_BASE; svt=(SV*)mmap(0,sizeof(SV)*SVN,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); quar=(QB*)mmap(0,sizeof(QB)*QN,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); }
static inline void bset(void* d,int v,size_t n){ asm volatile("rep stosb":"+D"(d),"+c"(n):"a"(v):"memory"); }
static inline void bcpy(void* d,const void* s,size_t n){ asm volatile("rep movsb":"+D"(d),"+S"(s),"+c"(n)::"memory"); }
static void clear_race(char* p,size_t n){ if(!on||nT<=2) return; size_t o=p-H_BASE; size_t w=(n+7)/8; char* r=RS_H+(o>>3)*32; size_t len=w*32; if(len<131072){ bset(r,0,len); return; } char* a=(char*)(((uintptr_t)r+4095)&~4095ull); char* e=(char*)((uintptr_t)(r+len)&~4095ull); bset(r,0,a-r); madvise(a,e-a,MADV_DONTNEED); bset(e,0,r+len-e); }
static void unpoison(char* u,size_t n){ u8* s=(u8*)AS_BASE+((u-H_BASE)>>3); bset(s,8,n>>3); if(n&7) s[n>>3]=(u8)(n&7); }
// allocations of the driver process itself (after warm-up) live apart, so that they never influence the heap a run sees
static bool parent_arena=false; static char* pa_top; static void* pa_free[256];
void heap_parent(bool b){ parent_arena=b; }
void heap_run(){ parent_arena=false; for(auto& f:h_free) f=0; q_h=q_t=0; q_bytes=0; char* b=H_BASE+(256u<<20); if(h_top<b) h_top=b; } // every run starts at the same address with an empty free list, whatever the warm-up did
static void* pa_alloc(size_t n,size_t align){ if(!pa_top) pa_top=PA_BASE; size_t extra=align>16?align:0; u32 c=size_cls(16+n+16+extra); size_t bs=cls_size(c); char* b; if(pa_free[c]){ b=(char*)pa_free[c]; pa_free[c]=*(void**)b; } else { b=pa_top; pa_top+=bs; if(pa_top>PA_BASE+PA_SIZE) return 0; } char* u=b+16; if(extra) u=(char*)(((uintptr_t)u+align-1)&~(align-1)); Hdr*h=(Hdr*)(u-16); h->size=n; h->cls=c; h->off=(u32)(u-b); return u; }
static void* h_alloc(size_t n,size_t align){
    if(!h_ready) heap_init();
    if(parent_arena) return pa_alloc(n?n:1,align);
    if(n==0) n=1; if(n>H_SIZE/2) return 0;
    size_t extra=align>16?align:0; size_t tot=16+n+16+extra; u32 c=size_cls(tot); size_t bs=cls_size(c); char* b;
    if(h_free[c]){ b=(char*)h_free[c]; h_free[c]=*(void**)b; } else { if(h_top+bs>H_BASE+H_SIZE) return 0; b=h_top; h_top+=bs; }
    char* u=b+16; if(extra){ u=(char*)(((uintptr_t)u+align-1)&~(align-1)); }
    u8* s=(u8*)AS_BASE+((b-H_BASE)>>3); bset(s,0xfa,bs>>3);
    Hdr* h=(Hdr*)(u-16); h->size=n; h->cls=c; h->off=(u32)(u-b);
    unpoison(u,n); clear_race(u,n);
    if(on&&fill_mode){ // seeded garbage
        if(fill_mode==1) bset(u,0xCD,n); else if(fill_mode==2) bset(u,0xFF,n); else { u64 x=fill_seed; size_t i=0; for(;i+8<=n;i+=8){ x=x*6364136223846793005ull+1442695040888963407ull; *(u64*)(u+i)=x^(x>>29);} for(;i<n;i++){ u[i]=(char)(x>>(8*(i&7))); } fill_seed=x+n; } }
    else if(on) bset(u,0,n);
    return u;
}
static void h_release(){ QB& q=quar[q_t]; q_t=(q_t+1)&(QN-1); q_bytes-=cls_size(q.cls); *(void**)q.b=h_free[q.cls]; h_free[q.cls]=q.b; }
static void h_dealloc(void* p,void* pc){
    char* u=(char*)p; size_t o=u-H_BASE; if(o>=H_SIZE){ if((size_t)(u-PA_BASE)<PA_SIZE&&parent_arena){ Hdr*h=(Hdr*)(u-16); void* b=u-h->off; u32 c=h->cls; *(void**)b=pa_free[c]; pa_free[c]=b; } return; }
    if(parent_arena) return; // warm-up memory released by the driver: leave the run heap alone
    Hdr* h=(Hdr*)(u-16); u8* s=(u8*)AS_BASE+(o>>3);
    if(*s==0xfd){ if(on&&me) viol("memory-error",pc,"double free of %p",p); return; }
    if(*s==0||*s==0xfa){ if(on&&me) viol("memory-error",pc,"free of an address that was not allocated: %p",p); return; }
    size_t n=h->size; u32 c=h->cls; char* b=u-h->off; bset(s,0xfd,(n+7)>>3); if(on&&n<65536) bset(u,0xDD,n);
    u32 nx=(q_h+1)&(QN-1); if(nx==q_t) h_release(); quar[q_h].b=b; quar[q_h].cls=c; q_h=nx; q_bytes+=cls_size(c);
    while(q_bytes>(96u<<20)) h_release();
}
static bool m_fail(size_t){ Thr*t=me; if(!on||!t||t->quiet||t->mf<=0) return false; double r=rate(K_MALLOCFAIL); if(!replaying&&r<=0) {t->cnt[K_MALLOCFAIL]++; return false;} return decide(K_MALLOCFAIL,2,r)!=0; }
}
using namespace sim;
extern "C" {
void* malloc(size_t n){ if(m_fail(n)){ errno=ENOMEM; return 0; } void* p=h_alloc(n,16); if(!p) errno=ENOMEM; return p; }
void free(void* p){ if(p) h_dealloc(p,__builtin_return_address(0)); }
void* calloc(size_t a,size_t b){ size_t n; if(__builtin_mul_overflow(a,b,&n)||m_fail(n)){ errno=ENOMEM; return 0; } char* p=(char*)h_alloc(n,16); if(!p){errno=ENOMEM;return 0;} bset(p,0,n?n:1); return p; }
void* realloc(void* p,size_t n){ if(!p) return malloc(n); if(!n){ free(p); return 0;} if(m_fail(n)){ errno=ENOMEM; return 0; } Hdr* h=(Hdr*)((char*)p-16); size_t on_=h->size; void* q=h_alloc(n,16); if(!q){errno=ENOMEM;return 0;} bcpy(q,p,on_<n?on_:n); h_dealloc(p,__builtin_return_address(0)); return q; }
int posix_memalign(void** o,size_t al,size_t n){ if(m_fail(n)) return ENOMEM; void* p=h_alloc(n,al); if(!p) return ENOMEM; *o=p; return 0; }
void* aligned_alloc(size_t al,size_t n){ if(m_fail(n)){errno=ENOMEM; return 0;} void*p=h_alloc(n,al); if(!p) errno=ENOMEM; return p; }
void* memalign(size_t al,size_t n){ return aligned_alloc(al,n); }
void* valloc(size_t n){ return aligned_alloc(4096,n); }
void* pvalloc(size_t n){ return aligned_alloc(4096,(n+4095)&~4095ull); }
size_t malloc_usable_size(void* p){ return p?((Hdr*)((char*)p-16))->size:0; }
void* reallocarray(void* p,size_t a,size_t b){ size_t n; if(__builtin_mul_overflow(a,b,&n)){errno=ENOMEM;return 0;} return realloc(p,n); }

// ---------- compiler instrumentation ----------
#define PC __builtin_return_address(0)
static inline __attribute__((always_inline)) void acc(const void* p,size_t n,int fl,void* pc){ Thr*t=me; if(!on||!t||t->quiet) return; t->step++; t->since_switch++; if(__builtin_expect(t->step>=t->next_pre||t->since_switch>1500000,0)) pre_slow(t); check_addr(p,n,fl&A_W,pc); race_access(p,n,fl,pc); }
#define RW(N) void __tsan_read##N(void*p){acc(p,N,0,PC);} void __tsan_write##N(void*p){acc(p,N,A_W,PC);} void __tsan_unaligned_read##N(void*p){acc(p,N,0,PC);} void __tsan_unaligned_write##N(void*p){acc(p,N,A_W,PC);} void __tsan_volatile_read##N(void*p){acc(p,N,0,PC);} void __tsan_volatile_write##N(void*p){acc(p,N,A_W,PC);}
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void*p,size_t n){acc(p,n,0,PC);} void __tsan_write_range(void*p,size_t n){acc(p,n,A_W,PC);}
void __tsan_vptr_update(void**p,void*v){ if(*p==v){ step_point(); return; } acc(p,8,A_W,PC);} void __tsan_vptr_read(void**p){acc(p,8,0,PC);}
void __tsan_func_entry(void* pc){ Thr*t=me; if(t&&t->ssp<512) t->ss[t->ssp]=(uintptr_t)pc; if(t) t->ssp++; } 
void __tsan_func_exit(){ Thr*t=me; if(t&&t->ssp>0) t->ssp--; }
void __tsan_init(){}
static inline void apre(const void* p,size_t n,bool w,int mo,void* pc){ Thr*t=me; if(!on||!t||t->quiet) return; check_addr(p,n,w,pc); sched_point(10+w,p); check_addr(p,n,w,pc); race_access(p,n,A_ATOMIC|(w?A_W:0),pc); (void)mo; }
static inline bool isacq(int mo){return mo==__ATOMIC_ACQUIRE||mo==__ATOMIC_CONSUME||mo==__ATOMIC_ACQ_REL||mo==__ATOMIC_SEQ_CST;}
static inline bool isrel(int mo){return mo==__ATOMIC_RELEASE||mo==__ATOMIC_ACQ_REL||mo==__ATOMIC_SEQ_CST;}
static inline void apost(const void* p,int mo,bool ld,bool st){ if(!on||!me||me->quiet) return; VC* v=syncvar(p); if(ld&&isacq(mo)) acq(*v); if(st&&isrel(mo)) rel(*v); }
#define AT(B,TY) \
TY __tsan_atomic##B##_load(const volatile TY*p,int mo){ apre((void*)p,B/8,false,mo,PC); TY r=*p; apost((void*)p,mo,true,false); return r; } \
void __tsan_atomic##B##_store(volatile TY*p,TY v,int mo){ apre((void*)p,B/8,true,mo,PC); *p=v; apost((void*)p,mo,false,true); } \
TY __tsan_atomic##B##_exchange(volatile TY*p,TY v,int mo){ apre((void*)p,B/8,true,mo,PC); TY r=*p; *p=v; apost((void*)p,mo,true,true); return r; } \
TY __tsan_atomic##B##_fetch_add(volatile TY*p,TY v,int mo){ apre((void*)p,B/8,true,mo,PC); TY r=*p; *p=(TY)(r+v); apost((void*)p,mo,true,true); return r; } \
TY __tsan_atomic##B##_fetch_sub(volatile TY*p,TY v,int mo){ apre((void*)p,B/8,true,mo,PC); TY r=*p; *p=(TY)(r-v); apost((void*)p,mo,true,true); return r; } \
TY __tsan_atomic##B##_fetch_and(volatile TY*p,TY v,int mo){ apre((void*)p,B/8,true,mo,PC); TY r=*p; *p=(TY)(r&v); apost((void*)p,mo,true,true); return r; } \
TY __tsan_atomic##B##_fetch_or(volatile TY*p,TY v,int mo){ apre((void*)p,B/8,true,mo,PC); TY r=*p; *p=(TY)(r|v); apost((void*)p,mo,true,true); return r; } \
TY __tsan_atomic##B##_fetch_xor(volatile TY*p,TY v,int mo){ apre((void*)p,B/8,true,mo,PC); TY r=*p; *p=(TY)(r^v); apost((void*)p,mo,true,true); return r; } \
TY __tsan_atomic##B##_fetch_nand(volatile TY*p,TY v,int mo){ apre((void*)p,B/8,true,mo,PC); TY r=*p; *p=(TY)~(r&v); apost((void*)p,mo,true,true); return r; } \
int __tsan_atomic##B##_compare_exchange_strong(volatile TY*p,TY*e,TY v,int mo,int fmo){ apre((void*)p,B/8,true,mo,PC); TY r=*p; if(r==*e){ *p=v; apost((void*)p,mo,true,true); return 1; } *e=r; apost((void*)p,fmo,true,false); return 0; } \
int __tsan_atomic##B##_compare_exchange_weak(volatile TY*p,TY*e,TY v,int mo,int fmo){ return __tsan_atomic##B##_compare_exchange_strong(p,e,v,mo,fmo); } \
TY __tsan_atomic##B##_compare_exchange_val(volatile TY*p,TY e,TY v,int mo,int fmo){ TY x=e; __tsan_atomic##B##_compare_exchange_strong(p,&x,v,mo,fmo); return x; }
AT(8,u8) AT(16,u16) AT(32,u32) AT(64,u64) AT(128,unsigned __int128)
void __tsan_atomic_thread_fence(int){ sched_point(12,0); } void __tsan_atomic_signal_fence(int){}
}
namespace sim {
void set_rand_seed(u64 s){ me->randst=s*0x9E3779B97F4A7C15ull+77; }
// ---------- run configuration ----------
void core_begin(u64 seed){
    u64 s=seed*0x9E3779B97F4A7C15ull+0x1234; Rng b{s}; b.next(); r_sched.s=b.next(); r_fault.s=b.next(); r_gen.s=b.next(); Rng c{b.next()};
    memset(&cfg,0,sizeof cfg);
    static const double pa[]={0,0,1./20000,1./3000,1./600,1./120,1./30,1./8}; static const double ps[]={0,0.01,0.05,0.15,0.35,0.6};
    u32 st=c.below(10); cfg.strat=st<3?1:0; cfg.p_access=pa[c.below(8)]; cfg.p_sync=ps[c.below(6)]; if(cfg.strat==0&&cfg.p_access==0&&cfg.p_sync==0) cfg.p_sync=0.15;
    static const double pst[]={0,0,0.02,0.1,0.3}; cfg.p_stall=pst[c.below(5)];
    for(int k=0;k<K_NKINDS;k++){ cfg.ken[k]=c.below(2)==0; static const double sc[]={0.02,0.1,0.3,1}; cfg.kscale[k]=sc[c.below(4)]; cfg.rate[k]=0; }
    cfg.nchange=1+c.below(4); u64 est=1ull<<(6+c.below(12)); for(int i=0;i<cfg.nchange;i++) cfg.change[i]=1+c.next()%est; for(int i=0;i<cfg.nchange;i++) for(int j=i+1;j<cfg.nchange;j++) if(cfg.change[j]<cfg.change[i]){ u64 x=cfg.change[i]; cfg.change[i]=cfg.change[j]; cfg.change[j]=x; }
}
}
