// Worker: seeded runs in forked children, determinism gate, minimisation, replay.
#include "rt.hpp"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <cxxabi.h>
#include <exception>
#include <typeinfo>
#include <vector>
#include <string>
#include <map>
#include <set>
#include <algorithm>
extern "C" void sim_warmup() __attribute__((weak));
namespace sim {
void core_begin(u64 seed); void plan_first(); void libc_init(); void load_replay(const Event*,u32); void rand_global_seed(u64);
struct H{ const char* prop; const char* name; HarnessFn fn; int w; }; static H hs[64]; static int nh;
Reg::Reg(const char* p,const char* n,HarnessFn f,int w){ hs[nh++]={p,n,f,w}; }
static HarnessFn cur; static const Event* rev; static u32 nrev; static bool rmode;
static void onsig(int s,siginfo_t* si,void* uc){
    (void)si; void* pc=0; if(uc) pc=(void*)((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP];
    if(!on||!me) { _exit(97); }
    if(s==SIGABRT) viol("abort",0,"process aborted");
    viol("crash",pc,"process crashed with signal %d",s); }
static void onterm(){ if(!on||!me) _exit(98); me->quiet++; const char* tn="no exception"; char w[400]=""; 
    if(std::type_info* t=abi::__cxa_current_exception_type()){ tn=t->name(); try{ throw; }catch(const std::exception& e){ snprintf(w,sizeof w,"%s",e.what()); }catch(...){} }
    viol("terminate",0,"std::terminate called (%s %s)",tn,w); }
static void* mainthr(void*){ 
    u32 f=gen(4); heap_set_fill((int)f); rand_global_seed(gen(1000000)+1);
    cur(); finish(ST_OK); return 0; }
static void child(u64 seed){ heap_run();
    struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_sigaction=onsig; sa.sa_flags=SA_SIGINFO|SA_NODEFER; int ss[]={SIGSEGV,SIGBUS,SIGFPE,SIGILL,SIGABRT}; for(int s:ss) sigaction(s,&sa,0);
    std::set_terminate(onterm); signal(SIGALRM,SIG_DFL); struct itimerval it={{0,0},{60,0}}; setitimer(ITIMER_REAL,&it,0);
    core_begin(seed*2+(G->phase==2)); if(rmode) load_replay(rev,nrev);
    nT=1; Thr* t=spawn_thread(mainthr,0,false); (void)t; plan_first(); on=1; __atomic_store_n(&T[1].fut,1,__ATOMIC_RELEASE); rawsys(SYS_futex,(long)&T[1].fut,1|128,1);
    static int w=0; for(;;) rawsys(SYS_futex,(long)&w,0|128,0,0); }
static int one_life(u64 seed){ G->status=ST_RUN; pid_t p=fork(); if(p==0){ child(seed); } int st; while(waitpid(p,&st,0)<0&&errno==EINTR); if(G->status==ST_RUN){ if(WIFSIGNALED(st)&&WTERMSIG(st)!=SIGALRM&&WTERMSIG(st)!=SIGKILL){ G->status=ST_VIOL; snprintf(G->cls,sizeof G->cls,"crash"); snprintf(G->msg,sizeof G->msg,"process killed by signal %d",WTERMSIG(st)); } else { G->status=ST_INCONCL; snprintf(G->msg,sizeof G->msg,"wall-clock limit or exit status %x",st); } } return G->status; }
static int run(HarnessFn f,const char* name,u64 seed,const Event* ev,u32 n){
    cur=f; rmode=ev!=nullptr; rev=ev; nrev=n;
    size_t keep=0; (void)keep; G->cls[0]=0; G->msg[0]=0; G->npcs[0]=G->npcs[1]=0; G->nev=0; G->ev_overflow=0; memset((void*)G->fired,0,sizeof G->fired); G->nprobes=0; G->steps=G->syncops=G->switches=G->preempts=G->simtime=0; G->il_hash=G->tr_hash=1469598103934665603ull; G->log_n=0; G->phase=1; memset(G->durable,0,sizeof G->durable); snprintf(G->harness,sizeof G->harness,"%s",name); vfs_reset();
    int s=one_life(seed); if(s==ST_CRASHED){ G->phase=2; s=one_life(seed); if(s==ST_CRASHED) s=G->status=ST_INCONCL; }
    if(s==ST_VIOL&&!strncmp(G->cls,"harness",7)) s=G->status=ST_INCONCL;
    return s; }
struct Out{ u64 hash; std::string cls,msg; std::vector<Event> ev; int st; };
static Out snap(){ Out o; o.hash=G->tr_hash; o.cls=G->cls; o.msg=G->msg; o.ev.assign(G->ev,G->ev+G->nev); o.st=G->status; return o; }
static double rnow(){ struct timespec ts; rawsys(SYS_clock_gettime,CLOCK_MONOTONIC,(long)&ts); return ts.tv_sec+ts.tv_nsec*1e-9; }
static std::string esc(const std::string& s){ std::string o; for(char c:s){ if(c=='"'||c=='\\'){o+='\\';o+=c;} else if(c=='\n') o+="\\n"; else if((u8)c<32||(u8)c>126){ char b[8]; snprintf(b,8,"\\u%04x",(u8)c); o+=b; } else o+=c; } return o; }
static void write_replay(const char* path,const char* prop,const char* name,u64 seed,const std::vector<Event>& ev){
    FILE* f=fopen(path,"w"); if(!f) return; fprintf(f,"property %s\nharness %s\nseed %llu\nclass %s\nhash %016llx\nmessage %s\n",prop,name,(unsigned long long)seed,G->cls,(unsigned long long)G->tr_hash,esc(G->msg).c_str());
    for(int w=0;w<2;w++){ fprintf(f,"stack%d",w); for(int i=0;i<G->npcs[w];i++) fprintf(f," %llx",(unsigned long long)G->pcs[w][i]); fprintf(f,"\n"); }
    fprintf(f,"simtime_ns %llu\nthreads %u\nevents %zu\n",(unsigned long long)G->simtime,G->nthreads,ev.size()); for(auto&e:ev) fprintf(f,"%s %d %llu %u\n",kind_names[e.kind],e.tid,(unsigned long long)e.key,e.val);
    fprintf(f,"history\n%.*s",(int)G->log_n,G->log); fclose(f); }
static bool try_ev(HarnessFn f,const char* nm,u64 seed,std::vector<Event>& ev,const std::string& cls,const std::string& msgkey){ Event dummy; int s=run(f,nm,seed,ev.empty()?&dummy:ev.data(),(u32)ev.size()); return s==ST_VIOL&&cls==G->cls; }
static std::vector<Event> minimise(HarnessFn f,const char* nm,u64 seed,std::vector<Event> ev,const std::string& cls,double budget,int& trials){
    double t0=rnow(); trials=0; 
    auto ok=[&](std::vector<Event>& c){ trials++; return try_ev(f,nm,seed,c,cls,""); };
    for(int round=0;round<4;round++){ bool any=false; 
        // ddmin
        size_t chunk=ev.size()/2; if(chunk<1) chunk=1;
        while(ev.size()&&rnow()-t0<budget){ bool red=false; for(size_t i=0;i<ev.size()&&rnow()-t0<budget;){ std::vector<Event> c(ev.begin(),ev.begin()+i); size_t e=std::min(ev.size(),i+chunk); c.insert(c.end(),ev.begin()+e,ev.end()); if(ok(c)){ ev=c; red=any=true; } else i+=chunk; } if(chunk==1){ if(!red) break; } else chunk=std::max<size_t>(1,chunk/2); }
        // value reduction
        for(size_t i=0;i<ev.size()&&rnow()-t0<budget;i++) if(ev[i].val>1&&ev[i].kind!=K_PREEMPT){ u32 v=ev[i].val; u32 tryv[3]={1,v/2,v-1}; for(u32 x:tryv){ if(x==0||x>=ev[i].val) continue; std::vector<Event> c=ev; c[i].val=x; if(ok(c)){ ev=c; any=true; break; } } }
        if(!any) break; }
    return ev; }
static HarnessFn pickh(const char* prop,u64 seed,const char*& nm,const char* only){ int tot=0; for(int i=0;i<nh;i++) if(!strcmp(hs[i].prop,prop)&&(!only||!strcmp(only,hs[i].name))) tot+=hs[i].w; if(!tot) return 0; int k=(int)(((seed*0x9E3779B97F4A7C15ull)>>33)%tot); for(int i=0;i<nh;i++) if(!strcmp(hs[i].prop,prop)&&(!only||!strcmp(only,hs[i].name))){ if(k<hs[i].w){ nm=hs[i].name; return hs[i].fn; } k-=hs[i].w; } return 0; }
}
using namespace sim;
namespace sim{extern bool trace;}
extern "C" bool rt_started;
int main(int argc,char** argv){ rt_started=true; heap_init(); heap_parent(true);
    std::string prop,outf,repf,replay,known; u64 s0=1; long count=1000; int stride=1; double tmax=60; bool verb=false; const char* only=0; int detcheck=0; bool hashes=false; double minb=60;
    for(int i=1;i<argc;i++){ std::string a=argv[i]; auto v=[&]{ return std::string(argv[++i]); }; if(a=="--prop") prop=v(); else if(a=="--seed") s0=strtoull(v().c_str(),0,10); else if(a=="--count") count=atol(v().c_str()); else if(a=="--stride") stride=atoi(v().c_str()); else if(a=="--time") tmax=atof(v().c_str()); else if(a=="--out") outf=v(); else if(a=="--replay-out") repf=v(); else if(a=="--replay") replay=v(); else if(a=="--known") known=v(); else if(a=="-v") verb=true; else if(a=="--only") only=argv[++i]; else if(a=="--det") detcheck=atoi(v().c_str()); else if(a=="--hashes") hashes=true; else if(a=="--minbudget") minb=atof(v().c_str()); }
    trace=getenv("SIM_TRACE")!=0; setenv("TZ","UTC",1); tzset();
    libc_init(); heap_init(); G=(Shared*)mmap(0,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); vfs_init_shared();
    if(!verb){ int n=open("/dev/null",O_WRONLY); int keep=dup(2); (void)keep; dup2(n,1); if(!getenv("SIM_STDERR")) dup2(n,2); }
    heap_parent(false); if(sim_warmup) sim_warmup(); heap_parent(true);
    if(!replay.empty()){
        verbose=verb; FILE* f=fopen(replay.c_str(),"r"); if(!f) return 3; char line[8192]; std::string hn,cls; u64 seed=1,hash=0; std::vector<Event> ev; bool evs=false; long left=0;
        while(fgets(line,sizeof line,f)){ char a[256],b[64]; unsigned long long x; if(evs&&left>0){ char k[32]; int t; unsigned long long key; unsigned val; if(sscanf(line,"%31s %d %llu %u",k,&t,&key,&val)==4){ Event e; e.kind=0; for(int i=0;i<K_NKINDS;i++) if(!strcmp(kind_names[i],k)) e.kind=i; e.tid=t; e.key=key; e.val=val; ev.push_back(e); } if(--left==0) break; continue; } if(sscanf(line,"harness %255s",a)==1) hn=a; else if(sscanf(line,"class %63s",b)==1) cls=b; else if(sscanf(line,"seed %llu",&x)==1) seed=x; else if(sscanf(line,"hash %llx",&x)==1) hash=x; else if(sscanf(line,"property %255s",a)==1) prop=a; else if(sscanf(line,"events %llu",&x)==1){ evs=true; left=(long)x; if(!left) break; } }
        fclose(f); HarnessFn fn=0; for(int i=0;i<nh;i++) if(hn==hs[i].name) fn=hs[i].fn; if(!fn) return 3;
        Event dummy; run(fn,hn.c_str(),seed,ev.empty()?&dummy:ev.data(),(u32)ev.size());
        bool same=G->status==ST_VIOL&&cls==G->cls&&hash==G->tr_hash;
        FILE* o=outf.empty()?stdout:fopen(outf.c_str(),"w"); if(o){ fprintf(o,"status %d\nclass %s\nhash %016llx\nsame %d\nmessage %s\n",G->status,G->cls,(unsigned long long)G->tr_hash,same,G->msg); for(int w=0;w<2;w++){ fprintf(o,"stack%d",w); for(int i=0;i<G->npcs[w];i++) fprintf(o," %llx",(unsigned long long)G->pcs[w][i]); fprintf(o,"\n"); } fprintf(o,"%.*s",(int)G->log_n,G->log); fflush(o); }
        _exit(same?1:G->status==ST_VIOL&&cls==G->cls?4:0); }
    std::vector<std::pair<std::string,std::string>> kn; { size_t p=0; while(p<known.size()){ size_t e=known.find(";;",p); if(e==std::string::npos) e=known.size(); std::string k=known.substr(p,e-p); size_t b=k.find('|'); if(b!=std::string::npos) kn.push_back({k.substr(0,b),k.substr(b+1)}); p=e+2; } }
    double t0=rnow(); u64 runs=0,okc=0,inc=0,steps=0,sync=0,sw=0,pre=0,simt=0,crashes=0,detruns=0,detbad=0; std::map<std::string,u64> probes,harn; u64 fk[K_NKINDS]={0},runs_with[K_NKINDS]={0}; std::set<u64> il; std::vector<std::string> samples; std::map<std::string,u64> knownhit; int viol=0; std::string vjson,incmsg; FILE* hf=hashes?fopen((outf+".hashes").c_str(),"w"):0;
    for(long i=0;i<count&&rnow()-t0<tmax;i++){
        u64 seed=s0+(u64)i*stride; const char* nm=0; HarnessFn f=pickh(prop.c_str(),seed,nm,only); if(!f) _exit(4);
        int st=run(f,nm,seed,0,0); runs++; harn[nm]++; steps+=G->steps; sync+=G->syncops; sw+=G->switches; pre+=G->preempts; simt+=G->simtime; if(G->phase==2) crashes++;
        for(int k=0;k<K_NKINDS;k++){ fk[k]+=G->fired[k]; if(G->fired[k]) runs_with[k]++; } for(u32 p=0;p<G->nprobes;p++) probes[G->probes[p].name]+=G->probes[p].count; il.insert(G->il_hash);
        if(hf) fprintf(hf,"%llu %s %d %016llx %016llx %llu\n",(unsigned long long)seed,nm,st,(unsigned long long)G->tr_hash,(unsigned long long)G->il_hash,(unsigned long long)G->steps);
        if(samples.size()<4&&(runs%7==1)){ std::string l(G->log,G->log_n<700?G->log_n:700); char b[300]; snprintf(b,sizeof b,"{\"seed\":%llu,\"workload\":\"%s\",\"threads\":%u,\"switches\":%llu,\"simulated_ns\":%llu,\"decisions\":%u,\"history\":\"",(unsigned long long)seed,nm,G->nthreads,(unsigned long long)G->switches,(unsigned long long)G->simtime,G->nev); samples.push_back(std::string(b)+esc(l)+"\"}"); }
        if(st==ST_OK){ okc++; if(detcheck&&(i%detcheck)==0){ Out a=snap(); run(f,nm,seed,0,0); detruns++; if(a.hash!=G->tr_hash||G->status!=ST_OK) {detbad++; incmsg="nondeterministic rerun of seed "+std::to_string(seed);} else { std::vector<Event> ev=a.ev; Event dummy; run(f,nm,seed,ev.empty()?&dummy:ev.data(),(u32)ev.size()); detruns++; if(a.hash!=G->tr_hash||G->status!=ST_OK){ detbad++; incmsg="replay differs from search run, seed "+std::to_string(seed)+" harness "+nm; } } } continue; }
        if(st==ST_INCONCL){ inc++; incmsg=std::string(nm)+" seed "+std::to_string(seed)+": "+G->cls+" "+G->msg; continue; }
        if(st!=ST_VIOL){ inc++; continue; }
        bool isk=false; for(auto&k:kn) if(k.first==G->cls&&strstr(G->msg,k.second.c_str())){ knownhit[k.first+"|"+k.second]++; isk=true; } if(isk) continue;
        // gate: identical rerun, then replay from events, then minimise
        Out a=snap(); run(f,nm,seed,0,0); bool g1=a.hash==G->tr_hash&&a.cls==G->cls&&G->status==ST_VIOL; std::vector<Event> ev=a.ev; Event dummy; int trials=0;
        run(f,nm,seed,ev.empty()?&dummy:ev.data(),(u32)ev.size()); bool g2=a.hash==G->tr_hash&&a.cls==G->cls&&G->status==ST_VIOL;
        if(g1&&g2){ size_t n0=ev.size(); std::vector<Event> m=minimise(f,nm,seed,ev,a.cls,minb,trials); run(f,nm,seed,m.empty()?&dummy:m.data(),(u32)m.size()); if(!(G->status==ST_VIOL&&a.cls==G->cls)) { m=ev; run(f,nm,seed,m.empty()?&dummy:m.data(),(u32)m.size()); } write_replay(repf.c_str(),prop.c_str(),nm,seed,m); viol++; char b[400]; snprintf(b,sizeof b,"{\"seed\":%llu,\"harness\":\"%s\",\"class\":\"%s\",\"events_before\":%zu,\"events_after\":%zu,\"trials\":%d,\"message\":\"",(unsigned long long)seed,nm,G->cls,n0,m.size(),trials); vjson=std::string(b)+esc(G->msg)+"\"}"; break; }
        else { detbad++; incmsg=std::string("violation did not reproduce: ")+nm+" seed "+std::to_string(seed)+" "+a.cls+" "+a.msg+(g1?" (replay from events)":" (rerun)"); }
    }
    if(hf) fclose(hf);
    FILE* o=fopen(outf.c_str(),"w"); if(!o) _exit(5); double el=rnow()-t0;
    fprintf(o,"{\"runs\":%llu,\"ok\":%llu,\"inconclusive\":%llu,\"steps\":%llu,\"syncops\":%llu,\"switches\":%llu,\"preempts\":%llu,\"sim_ns\":%llu,\"crash_restarts\":%llu,\"det_runs\":%llu,\"det_bad\":%llu,\"elapsed\":%.3f,\"inc_msg\":\"%s\",\n\"faults\":{",(unsigned long long)runs,(unsigned long long)okc,(unsigned long long)inc,(unsigned long long)steps,(unsigned long long)sync,(unsigned long long)sw,(unsigned long long)pre,(unsigned long long)simt,(unsigned long long)crashes,(unsigned long long)detruns,(unsigned long long)detbad,el,esc(incmsg).c_str());
    for(int k=0;k<K_NKINDS;k++) fprintf(o,"%s\"%s\":[%llu,%llu]",k?",":"",kind_names[k],(unsigned long long)fk[k],(unsigned long long)runs_with[k]);
    fprintf(o,"},\n\"probes\":{"); bool fst=true; for(auto&p:probes){ fprintf(o,"%s\"%s\":%llu",fst?"":",",esc(p.first).c_str(),(unsigned long long)p.second); fst=false; } fprintf(o,"},\n\"harnesses\":{"); fst=true; for(auto&p:harn){ fprintf(o,"%s\"%s\":%llu",fst?"":",",p.first.c_str(),(unsigned long long)p.second); fst=false; }
    fprintf(o,"},\n\"known\":{"); fst=true; for(auto&p:knownhit){ fprintf(o,"%s\"%s\":%llu",fst?"":",",esc(p.first).c_str(),(unsigned long long)p.second); fst=false; }
    fprintf(o,"},\n\"samples\":["); for(size_t i=0;i<samples.size();i++) fprintf(o,"%s%s",i?",\n":"",samples[i].c_str()); fprintf(o,"],\n\"violations\":%d,\"violation\":%s,\n\"il\":[",viol,viol?vjson.c_str():"null"); fst=true; for(u64 h:il){ fprintf(o,"%s\"%llx\"",fst?"":",",(unsigned long long)h); fst=false; } fprintf(o,"]}\n"); fclose(o);
    _exit(0);
}
