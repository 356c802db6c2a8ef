// P07..P11: worker pool, futures, semaphore, unlock guard, logging.
#include "sim.hpp"
#include "litiv/utils/cxx.hpp"
#include "litiv/utils/console.hpp"
#include <thread>
#include <map>
#include <cstring>
using namespace std::chrono;

// =====================================================================================================
// P07: exactly once, start order, concurrency bound, pick-up without further events, drain on destruction
// =====================================================================================================
namespace {
struct PoolOracle {
    struct Task { uint64_t q0=0,q1=0,st=0,en=0; int runs=0; bool accepted=false; };
    std::vector<Task> t; int running=0,maxrun=0; bool destroyed=false,destroying=false; int closures=0;
    int add(){ sim::Quiet q; t.push_back(Task()); t.back().q0=sim::seq(); return (int)t.size()-1; }
    void queued(int i){ sim::Quiet q; t[i].q1=sim::seq(); t[i].accepted=true; }
    void start(int i,int workers){ sim::Quiet q;
        SIM_CHECK(!destroyed,"pool-after-destruction","task %d started after the pool was destroyed",i);
        SIM_CHECK(++t[i].runs==1,"pool-task-twice","task %d executed %d times",i,t[i].runs);
        t[i].st=sim::seq(); ++running; if(running>maxrun) maxrun=running;
        SIM_CHECK(running<=workers,"pool-concurrency","%d tasks at once on %d workers",running,workers);
        // tasks queued strictly before this one may at most be held by the other workers
        int waiting=0; for(size_t j=0;j<t.size();j++) if(t[j].accepted&&t[j].q1<t[i].q0&&!t[j].st) ++waiting;
        SIM_CHECK(waiting<=workers-1,"pool-start-order","task %d started while %d tasks queued before it had not (workers: %d)",i,waiting,workers);
        sim::logf("start %d",i); }
    void end(int i){ sim::Quiet q; t[i].en=sim::seq(); --running; sim::logf("end %d",i); }
    void all_done(const char* when){ sim::Quiet q; for(size_t i=0;i<t.size();i++) if(t[i].accepted){
        SIM_CHECK(t[i].runs==1,"pool-task-lost","task %d executed %d times %s",(int)i,t[i].runs,when);
        SIM_CHECK(t[i].en!=0,"pool-not-drained","task %d not finished %s",(int)i,when); } 
        for(size_t i=0;i<t.size();i++) if(!t[i].accepted) SIM_CHECK(t[i].runs==0,"pool-rejected-ran","task %d ran although queuing it threw",(int)i); }
};
// counts live copies of a task's state
struct Token { PoolOracle* o; explicit Token(PoolOracle* p):o(p){sim::Quiet q; ++o->closures;} Token(const Token& r):o(r.o){sim::Quiet q; ++o->closures;} Token(Token&& r):o(r.o){sim::Quiet q; ++o->closures;} ~Token(){sim::Quiet q; --o->closures;} };

void work(){ uint64_t d=sim::delay_choice(); if(d) sim::sleep_ns(d); else if(sim::gen_rare(2,1,3)) sim::yield_point(); }

template<size_t N> void pool_run(){
    sim::enable(sim::K_SPURIOUS,0.2); sim::enable(sim::K_USERDELAY,0.3);
    const int base=sim::alive_threads();
    PoolOracle o; const int producers=1+(int)sim::gen(3); const int per=1+(int)sim::gen(6);
    const bool nested=sim::gen_bool(), lateNest=sim::gen_rare(2,1,4), waitAll=sim::gen_bool(); const int barrier=sim::gen_rare(2,1,3)?(int)N:0;
    std::vector<std::future<int>> fut; std::mutex fm;
    {
        std::unique_ptr<lv::WorkerPool<N>> pool(new lv::WorkerPool<N>());
        lv::WorkerPool<N>* pp=pool.get();
        struct Ctx{ PoolOracle& o; lv::WorkerPool<N>* p; std::vector<std::future<int>>& fut; std::mutex& fm; } c{o,pp,fut,fm};
        std::function<void(int)> submit=[&](int depth){
            int id=o.add(); Token tok(&o);
            try{
                auto f=pp->queueTask([&o,&submit,id,depth,tok](int a){ o.start(id,(int)N); work(); if(depth>0){ int n=(int)sim::gen(3); for(int k=0;k<n;k++) submit(depth-1); } work(); o.end(id); return a*7+1; },id);
                o.queued(id); std::lock_guard<std::mutex> l(fm); fut.push_back(std::move(f));
            } catch(const std::runtime_error&){ sim::probe("queue-rejected-during-destruction"); bool d; { sim::Quiet q; d=o.destroying; } SIM_CHECK(d,"pool-rejected","queueTask threw while the pool was alive"); }
        };
        auto produce=[&](int){ for(int i=0;i<per;i++){ submit(nested?(int)sim::gen(2):0); work(); } };
        std::vector<std::thread> th; for(int p=1;p<producers;p++) th.emplace_back(produce,p);
        produce(0); for(auto& t:th) t.join();
        SIM_CHECK(sim::alive_threads()-base<=(int)N,"pool-threads","%d threads for %d workers",sim::alive_threads()-base,(int)N);
        if(barrier){ // N tasks that can only finish together: every free worker has to pick one up
            sim::probe("barrier"); std::mutex m; std::condition_variable cv; int n=0; std::vector<std::future<void>> bf;
            for(int i=0;i<barrier;i++){ int id=o.add(); bf.push_back(pp->queueTask([&,id]{ o.start(id,(int)N); { std::unique_lock<std::mutex> l(m); if(++n==barrier) cv.notify_all(); else cv.wait(l,[&]{return n==barrier;}); } o.end(id); })); o.queued(id); work(); }
            for(auto& f:bf) f.get();
        }
        if(waitAll){ sim::probe("wait-while-alive"); for(;;){ std::future<int> f; { std::lock_guard<std::mutex> l(fm); if(fut.empty()) break; f=std::move(fut.back()); fut.pop_back(); } int r=f.get(); SIM_CHECK(r%7==1,"pool-result","wrong result %d",r); } o.all_done("although its future was ready"); }
        if(lateNest){ // tasks that queue while the pool is being destroyed: refused or executed
            sim::probe("queue-while-destroying"); for(int i=0;i<2;i++){ int id=o.add(); auto f=pp->queueTask([&o,&submit,id]{ o.start(id,(int)N); work(); submit(0); o.end(id); return 0; }); o.queued(id); std::lock_guard<std::mutex> l(fm); fut.push_back(std::move(f)); } }
        { sim::Quiet q; o.destroying=true; } pool.reset();
    }
    { sim::Quiet q; o.destroyed=true; }
    o.all_done("when the pool's destructor returned");
    SIM_CHECK(sim::alive_threads()==base,"pool-threads","%d worker threads left after destruction",sim::alive_threads()-base);
    for(auto& f:fut){ SIM_CHECK(f.valid()&&f.wait_for(seconds(0))==std::future_status::ready,"pool-future","future not ready after destruction"); try{ f.get(); }catch(const std::future_error&){ sim::violation("pool-future","broken promise"); } }
    fut.clear();
    SIM_CHECK(o.closures==0,"pool-leak","%d copies of task state left after destruction",o.closures);
}
}
SIM_HARNESS("P07",pool_1){ pool_run<1>(); }
SIM_HARNESS("P07",pool_2){ pool_run<2>(); }
SIM_HARNESS("P07",pool_3){ pool_run<3>(); }
SIM_HARNESS("P07",pool_4){ pool_run<4>(); }
// single worker: exact start order, and nothing else runs meanwhile; pool reused after idle periods
SIM_HARNESS("P07",pool_fifo_idle){
    sim::enable(sim::K_SPURIOUS,0.3); sim::enable(sim::K_USERDELAY,0.3);
    PoolOracle o; lv::WorkerPool<1> p; int last=-1; int rounds=1+(int)sim::gen(4);
    for(int r=0;r<rounds;r++){ std::vector<std::future<int>> f; int k=1+(int)sim::gen(4); int first=(int)o.t.size();
        for(int i=0;i<k;i++){ int id=o.add(); f.push_back(p.queueTask([&o,&last,id]{ o.start(id,1); SIM_CHECK(last==id-1,"pool-start-order","task %d started after task %d",id,last); last=id; work(); o.end(id); return id; })); o.queued(id); if(sim::gen_bool()) work(); }
        (void)first; for(int i=k-1;i>=0;i--) SIM_CHECK(f[i].get()==first+i,"pool-result","wrong result");
        o.all_done("although its future was ready"); if(sim::gen_bool()) sim::sleep_ns(1000000); }
}
// destruction right after construction / with idle workers
SIM_HARNESS("P07",pool_idle_destroy){
    sim::enable(sim::K_SPURIOUS,0.3); const int base=sim::alive_threads(); int ran=0;
    { lv::WorkerPool<3> p; if(sim::gen_bool()) sim::sleep_ns(500000); if(sim::gen_bool()) p.queueTask([&]{ sim::Quiet q; ran++; }); else ran=1; }
    SIM_CHECK(ran==1,"pool-task-lost","task executed %d times",ran); SIM_CHECK(sim::alive_threads()==base,"pool-threads","workers left");
}
// state destroyed with a task may itself use the pool
SIM_HARNESS("P07",pool_requeue_on_release){
    sim::enable(sim::K_SPURIOUS,0.2); PoolOracle o; int fin=0;
    { lv::WorkerPool<2> p;
      struct Last{ lv::WorkerPool<2>* p; int* fin; Last(lv::WorkerPool<2>* a,int* b):p(a),fin(b){} ~Last(){ int* f=fin; try{ p->queueTask([f]{ sim::Quiet q; ++*f; }); }catch(const std::runtime_error&){ sim::Quiet q; ++*f; } } };
      std::vector<std::future<void>> v; int n=1+(int)sim::gen(3); for(int i=0;i<n;i++){ auto s=std::make_shared<Last>(&p,&fin); v.push_back(p.queueTask([s]{ work(); })); }
      for(auto& f:v) f.get(); if(sim::gen_bool()) sim::sleep_ns(3000000); 
      { sim::Quiet q; o.maxrun=n; } }
    SIM_CHECK(fin==o.maxrun,"pool-task-lost","%d of %d follow-up tasks accounted for",fin,o.maxrun);
}

// =====================================================================================================
// P08: futures
// =====================================================================================================
namespace {
struct Boom : std::runtime_error { int id; explicit Boom(int i):std::runtime_error("boom"),id(i){} };
struct FutTask { std::future<int> f; int kind=0; volatile bool done=false; int runs=0; bool accepted=false; };
template<size_t N> void fut_run(bool faults){
    sim::enable(sim::K_SPURIOUS,0.2); sim::enable(sim::K_USERDELAY,0.3); sim::enable(sim::K_USERFAULT,0.4);
    if(faults){ sim::enable(sim::K_THREADFAIL,0.3); sim::enable(sim::K_MALLOCFAIL,0.15); }
    const int base=sim::alive_threads(); const int n=2+(int)sim::gen(8);
    std::vector<std::unique_ptr<FutTask>> t; for(int i=0;i<n;i++) t.emplace_back(new FutTask());
    {
        std::unique_ptr<lv::WorkerPool<N>> p;
        if(faults){ void* mem=::operator new(sizeof(lv::WorkerPool<N>)); lv::WorkerPool<N>* raw=nullptr; bool fail=false; const uint64_t f0=sim::fired(sim::K_THREADFAIL)+sim::fired(sim::K_MALLOCFAIL);
            { sim::ThreadFaults tf; sim::MallocFaults mf; try{ raw=new(mem) lv::WorkerPool<N>(); }catch(const std::system_error&){ fail=true; }catch(const std::bad_alloc&){ fail=true; } }
            if(fail){ sim::probe("pool-construction-failed"); SIM_CHECK(sim::fired(sim::K_THREADFAIL)+sim::fired(sim::K_MALLOCFAIL)>f0,"pool-ctor","constructor failed without a fault"); ::operator delete(mem);
                SIM_CHECK(sim::alive_threads()==base,"pool-threads","%d threads left behind by a failed constructor",sim::alive_threads()-base); return; }
            p.reset(raw); }
        else p.reset(new lv::WorkerPool<N>());
        auto submit=[&](int i){ FutTask* k=t[i].get(); const int kind=(int)sim::gen(3); k->kind=kind; const int mul=3+i;
            auto body=[k,kind,i](const std::vector<int>& v){ { sim::Quiet q; k->runs++; sim::logf("t%d runs task %d",sim::tid(),i); } work(); bool thr=kind==1||(kind==2&&sim::fault()); { sim::Quiet q; k->kind=thr?1:0; k->done=true; } sim::step_point(); if(thr) throw Boom(i); return v[0]*v.back(); };
            std::vector<int> arg(2+(i%3)*40,i+1); arg.back()=mul;
            try{ 
                if(faults){ sim::MallocFaults mf; k->f=p->queueTask(body,arg); } else k->f=p->queueTask(body,arg);
                k->accepted=true; } catch(const std::bad_alloc&){ sim::probe("queue-alloc-failed"); SIM_CHECK(faults,"pool-queue-throw","queueTask threw"); }
            arg.assign(arg.size(),-1); // the caller's copy changes after queuing
        };
        int half=n/2; std::thread other([&]{ for(int i=half;i<n;i++){ submit(i); work(); } });
        for(int i=0;i<half;i++){ submit(i); work(); }
        other.join();
        // consumers: some while the pool is alive
        auto consume=[&](int i){ FutTask* k=t[i].get(); if(!k->accepted) return; SIM_CHECK(k->f.valid(),"future-invalid","future of an accepted task is not valid");
            if(sim::gen_bool()){ auto s=k->f.wait_for(microseconds(1+sim::gen(3000))); bool d; { sim::Quiet q; d=k->done; } if(s==std::future_status::ready) SIM_CHECK(d,"future-early","future of task %d ready before the task was done",i); else sim::probe("future-not-ready-yet"); }
            try{ int r=k->f.get(); sim::Quiet q; SIM_CHECK(k->done,"future-early","result of task %d before the task was done",i); SIM_CHECK(k->kind==0,"future-exception-lost","task %d threw but its future gave a value",i); SIM_CHECK(r==(i+1)*(3+i),"future-wrong-value","task %d: got %d, expected %d",i,r,(i+1)*(3+i)); }
            catch(const Boom& b){ sim::Quiet q; sim::probe("exception-delivered"); SIM_CHECK(k->kind==1,"future-spurious-exception","task %d did not throw",i); SIM_CHECK(b.id==i,"future-wrong-exception","task %d received the exception of task %d",i,b.id); }
            catch(const std::future_error& e){ sim::violation("future-broken","future of task %d is broken: %s",i,e.what()); }
            SIM_CHECK(k->runs==1,"pool-task-twice","task %d executed %d times",i,k->runs); k->accepted=false; };
        const bool dropSome=sim::gen_rare(2,1,4); // abandoned futures must not block or disturb
        if(dropSome){ for(int i=0;i<n;i+=3){ t[i]->f=std::future<int>(); t[i]->accepted=false; } }
        std::thread c2([&]{ for(int i=half;i<n;i+=2) consume(i); });
        for(int i=0;i<half;i+=2) consume(i);
        c2.join();
        // destroy the pool with results outstanding
        p.reset();
        for(int i=0;i<n;i++) if(t[i]->accepted) SIM_CHECK(t[i]->f.wait_for(seconds(0))==std::future_status::ready,"future-not-ready","future of task %d not ready after the pool was destroyed",i);
        for(int i=0;i<n;i++) consume(i);
    }
    SIM_CHECK(sim::alive_threads()==base,"pool-threads","worker threads left after destruction");
}
}
SIM_HARNESS("P08",futures_1){ fut_run<1>(false); }
SIM_HARNESS("P08",futures_3){ fut_run<3>(false); }
SIM_HARNESS("P08",futures_faults_2){ fut_run<2>(true); }
SIM_HARNESS("P08",futures_faults_4){ fut_run<4>(true); }
// result kinds: void, reference, move-only, large; queued from within tasks; results taken in another task
SIM_HARNESS("P08",futures_types){
    sim::enable(sim::K_SPURIOUS,0.2); sim::enable(sim::K_USERDELAY,0.3);
    lv::WorkerPool<3> p; int target=5; 
    auto fr=p.queueTask([&target]()->int&{ work(); return target; });
    auto fu=p.queueTask([](const std::unique_ptr<int>& q){ work(); return std::unique_ptr<int>(new int(*q+1)); },std::unique_ptr<int>(new int(41)));
    auto fv=p.queueTask([](size_t n,int v){ std::vector<int> r(n,v); work(); return r; },size_t(1000),9);
    std::string s("hello"); auto fs=p.queueTask([](const std::string& x,const char* y){ work(); return x+y; },s,"!"); s="gone";
    auto fvoid=p.queueTask([]{ work(); throw Boom(77); });
    auto fn=p.queueTask([&p]{ auto f=p.queueTask([]{ work(); return 3; }); auto g=p.queueTask([]()->int{ throw Boom(4); }); int e=0; try{ g.get(); }catch(const Boom& b){ e=b.id; } return f.get()*10+e; });
    SIM_CHECK(fn.get()==34,"future-wrong-value","nested tasks");
    SIM_CHECK(&fr.get()==&target,"future-wrong-value","reference result");
    SIM_CHECK(*fu.get()==42,"future-wrong-value","move-only result");
    auto v=fv.get(); SIM_CHECK(v.size()==1000&&v[999]==9,"future-wrong-value","large result");
    std::string rs=fs.get(); SIM_CHECK(rs=="hello!","future-wrong-value","string result %s",rs.c_str());
    bool thrown=false; try{ fvoid.get(); }catch(const Boom& b){ thrown=b.id==77; } SIM_CHECK(thrown,"future-exception-lost","void task's exception");
    // shared by several readers
    auto sf=p.queueTask([]()->int{ work(); throw Boom(8); }).share(); int got=0; std::vector<std::thread> th; for(int i=0;i<2;i++) th.emplace_back([&]{ try{ sf.get(); }catch(const Boom&){ sim::Quiet q; ++got; } }); for(auto& t:th) t.join(); SIM_CHECK(got==2,"future-exception-lost","shared future");
}

// what a task captured is destroyed outside the pool's lock: its destructor may queue again
SIM_HARNESS("P07",pool_release){
    sim::enable(sim::K_SPURIOUS,0.2); const int base=sim::alive_threads(); int accepted=0,done=0,refused=0; std::mutex m;
    { lv::WorkerPool<2> p; struct Rel{ lv::WorkerPool<2>& p; int depth; int& acc; int& done; int& ref; std::mutex& m; Rel(lv::WorkerPool<2>& p_,int d,int& a,int& dn,int& r,std::mutex& m_):p(p_),depth(d),acc(a),done(dn),ref(r),m(m_){}
            ~Rel(){ if(depth<=0) return; auto n=std::make_shared<Rel>(p,depth-1,acc,done,ref,m); int& dn=done; std::mutex& mm=m; try{ p.queueTask([n,&dn,&mm]{ std::lock_guard<std::mutex> l(mm); dn++; }); std::lock_guard<std::mutex> l(m); acc++; }catch(const std::runtime_error&){ n->depth=0; std::lock_guard<std::mutex> l(m); ref++; } } };
        int n=1+(int)sim::gen(3); for(int i=0;i<n;i++){ auto r=std::make_shared<Rel>(p,1+(int)sim::gen(2),accepted,done,refused,m); p.queueTask([r,&done,&m]{ work(); std::lock_guard<std::mutex> l(m); done++; }); std::lock_guard<std::mutex> l(m); accepted++; } 
        if(sim::gen_bool()) sim::sleep_ns(2000000); }
    SIM_CHECK(done==accepted,"pool-task-lost","%d tasks accepted, %d executed",accepted,done); SIM_CHECK(sim::alive_threads()==base,"pool-threads","worker threads left after destruction"); if(refused) sim::probe("pool:refused-in-destructor"); }

// =====================================================================================================
// P09: semaphore
// =====================================================================================================
namespace {
struct SemOracle {
    long init,ns=0,nc=0;       // notifications started / completed
    long as=0,ac=0,af=0;       // acquire attempts started / succeeded / failed
    struct Op{ bool live; bool after; long minlow; }; Op op[16]; // per thread: lowest certain availability seen
    explicit SemOracle(long i):init(i){ for(auto& o:op) o={false,false,0}; }
    long low(int self)const{ return init+nc-(as-af-(op[self].live?1:0)); } // certain availability apart from the caller's own attempt
    void ev(){ for(int i=0;i<16;i++) if(op[i].live){ long l=low(i); if(l<op[i].minlow) op[i].minlow=l; } }
    void nstart(){ sim::Quiet q; ns++; } void nend(){ sim::Quiet q; nc++; ev(); sim::logf("t%d notify",sim::tid()); }
    void astart(int i){ sim::Quiet q; as++; op[i].live=true; op[i].minlow=1<<30; ev(); }
    void restart(int i){ sim::Quiet q; op[i].minlow=1<<30; ev(); }
    void aend(int i,bool ok,const char* what){ sim::Quiet q; ev(); sim::logf("t%d %s -> %d",sim::tid(),what,ok);
        if(ok){ ac++; op[i].live=false; SIM_CHECK(ac<=init+ns,"semaphore-overdraw","%s succeeded: %ld acquired of %ld+%ld",what,ac,init,ns); }
        else { SIM_CHECK(op[i].minlow<=0,"semaphore-refused","%s failed although a resource was available throughout (at least %ld)",what,op[i].minlow); af++; op[i].live=false; ev(); } }
};
template<typename C> void sem_until(lv::Semaphore& s,SemOracle& o,int id,uint64_t ns,bool jumps){
    auto dl=C::now()+nanoseconds(ns); const uint64_t j0=sim::fired(sim::K_CLOCKJUMP); o.astart(id); const uint64_t b0=sim::now_ns();
    bool ok=s.wait_until(dl); auto t=C::now(); o.aend(id,ok,"wait_until");
    if(!ok&&!(jumps&&sim::fired(sim::K_CLOCKJUMP)!=j0)) SIM_CHECK(t>=dl,"semaphore-early-timeout","wait_until gave up %lld ns early",(long long)duration_cast<nanoseconds>(dl-t).count());
    if(!ok) sim::probe("timed-out"); (void)b0;
}
}
SIM_HARNESS_W("P09",sem_mixed,3){
    sim::enable(sim::K_SPURIOUS,0.3); sim::enable(sim::K_CLOCKJUMP,0.1); sim::enable(sim::K_USERDELAY,0.3);
    const int init=(int)sim::gen(3), users=2+(int)sim::gen(3), ops=1+(int)sim::gen(5);
    std::unique_ptr<lv::Semaphore> ps(new lv::Semaphore(size_t(init))); lv::Semaphore& s=*ps; SemOracle o(init);
    { sim::Quiet q; } SIM_CHECK(s.count()==size_t(init),"semaphore-count","fresh semaphore reports %zu instead of %d",s.count(),init);
    long blocking[16]={0}; for(int u=0;u<users;u++) blocking[u]=0;
    std::vector<std::thread> th;
    for(int u=0;u<users;u++) th.emplace_back([&,u]{
        int held=0; for(int k=0;k<ops;k++){ switch(sim::gen(6)){
            case 0: { // give back or give new
                o.nstart(); s.notify(); o.nend(); break; }
            case 1: { o.astart(u); uint64_t t0=sim::now_ns(),st0=sim::total_stall_ns(); bool ok=s.try_wait(); (void)t0; (void)st0; o.aend(u,ok,"try_wait"); held+=ok; break; }
            case 2: { uint64_t ns=sim::gen(4)*700000ull; uint64_t t0=sim::now_ns(); o.astart(u); bool ok=s.wait_for(nanoseconds(ns)); uint64_t t1=sim::now_ns(); o.aend(u,ok,"wait_for"); held+=ok; if(!ok){ sim::probe("timed-out"); SIM_CHECK(t1-t0>=ns,"semaphore-early-timeout","wait_for(%llu ns) gave up after %llu ns",(unsigned long long)ns,(unsigned long long)(t1-t0)); } break; }
            case 3: sem_until<steady_clock>(s,o,u,sim::gen(4)*600000ull,false); break;
            case 4: sem_until<system_clock>(s,o,u,sim::gen(4)*600000ull,true); break;
            default: { long ac0,nc0,as0; { sim::Quiet q; ac0=o.ac; nc0=o.nc; } size_t c=s.count(); sim::Quiet q; as0=o.as-o.af; SIM_CHECK((long)c<=o.init+o.ns-ac0,"semaphore-count","count %zu above what can be available (%ld)",c,o.init+o.ns-ac0); SIM_CHECK((long)c>=o.init+nc0-as0,"semaphore-count","count %zu below what must be available (%ld)",c,o.init+nc0-as0); }
        } work(); }
    });
    for(auto& t:th) t.join();
    { long expect=o.init+o.nc-o.ac; SIM_CHECK((long)s.count()==expect,"semaphore-count","%ld resources expected, count reports %zu",expect,s.count()); 
      for(long i=0;i<expect;i++) SIM_CHECK(s.try_wait(),"semaphore-refused","try_wait failed with %ld resources left",expect-i); SIM_CHECK(!s.try_wait(),"semaphore-overdraw","try_wait succeeded on an empty semaphore"); }
}
// blocking waiters: with as many notifications as waits everybody gets through, however they interleave
SIM_HARNESS_W("P09",sem_progress,3){
    sim::enable(sim::K_SPURIOUS,0.3); sim::enable(sim::K_USERDELAY,0.3);
    const int init=(int)sim::gen(3), W=1+(int)sim::gen(4), per=1+(int)sim::gen(3), NT=1+(int)sim::gen(3); SemOracle o(init);
    int total=W*per; int give=total>init?total-init:0; const int extra=(int)sim::gen(2); give+=extra; lv::Semaphore s{size_t(init)}; 
    std::vector<std::thread> th; std::vector<int> share(NT,0); for(int i=0;i<give;i++) share[sim::gen(NT)]++;
    for(int w=0;w<W;w++) th.emplace_back([&,w]{ for(int k=0;k<per;k++){ o.astart(w); s.wait(); o.aend(w,true,"wait"); work(); } });
    for(int n=0;n<NT;n++) th.emplace_back([&,n]{ for(int k=0;k<share[n];k++){ work(); o.nstart(); s.notify(); o.nend(); } });
    for(auto& t:th) t.join();
    long expect=init+give-total; SIM_CHECK((long)s.count()==expect,"semaphore-count","%ld resources expected, count reports %zu",expect,s.count());
}
// a timed or abandoned waiter never swallows a notification meant for a blocked one; every blocked waiter leaves as soon as it can
SIM_HARNESS_W("P09",sem_timed_vs_blocked,2){
    sim::enable(sim::K_SPURIOUS,0.3); sim::enable(sim::K_CLOCKJUMP,0.1); SemOracle o(0); lv::Semaphore s{0}; const int B=1+(int)sim::gen(2),Tn=1+(int)sim::gen(2); int timed_ok=0,blocked_done=0;
    std::vector<std::thread> th; for(int b=0;b<B;b++) th.emplace_back([&,b]{ o.astart(b); s.wait(); o.aend(b,true,"wait"); sim::Quiet q; blocked_done++; });
    for(int t=0;t<Tn;t++) th.emplace_back([&,t]{ uint64_t ns=200000+sim::gen(3)*300000ull; uint64_t t0=sim::now_ns(); o.astart(4+t); bool ok=sim::gen_bool()?s.wait_for(nanoseconds(ns)):s.wait_until(steady_clock::now()+nanoseconds(ns)); o.aend(4+t,ok,"timed wait"); if(!ok) SIM_CHECK(sim::now_ns()-t0>=ns,"semaphore-early-timeout","timed wait gave up early"); sim::Quiet q; timed_ok+=ok; });
    const int first=(int)sim::gen(B+Tn+1); for(int i=0;i<first;i++){ if(sim::gen_bool()) sim::sleep_ns(sim::gen(5)*150000ull); o.nstart(); s.notify(); o.nend(); }
    for(int t=0;t<Tn;t++) th[B+t].join(); // timed waiters always come back
    long missing; { sim::Quiet q; missing=B-(first-timed_ok); if(missing<0) missing=0; } // exactly what is still owed to the blocked waiters
    for(int i=0;i<missing;i++){ o.nstart(); s.notify(); o.nend(); }
    for(int b=0;b<B;b++) th[b].join(); (void)blocked_done;
    SIM_CHECK((long)s.count()==o.init+o.nc-o.ac,"semaphore-count","count %zu, expected %ld",s.count(),o.init+o.nc-o.ac);
}
// typical use: bounded hand-over between producers and consumers
SIM_HARNESS("P09",sem_bounded_buffer){
    sim::enable(sim::K_SPURIOUS,0.3); const int cap=1+(int)sim::gen(3),n=2+(int)sim::gen(8); lv::Semaphore free_{size_t(cap)},full{0}; std::vector<int> buf(cap,-1); std::mutex m; int wi=0,ri=0; std::vector<int> seen(n*2,0);
    auto prod=[&](int b){ for(int i=0;i<n;i++){ free_.wait(); { std::lock_guard<std::mutex> l(m); SIM_CHECK(buf[wi%cap]==-1,"semaphore-overdraw","slot overwritten"); buf[wi++%cap]=b*n+i; } full.notify(); } };
    auto cons=[&]{ for(int i=0;i<n;i++){ full.wait(); { std::lock_guard<std::mutex> l(m); int v=buf[ri%cap]; SIM_CHECK(v>=0,"semaphore-overdraw","empty slot read"); buf[ri++%cap]=-1; seen[v]++; } free_.notify(); } };
    std::thread a(prod,0),b(prod,1),c(cons),d(cons); a.join(); b.join(); c.join(); d.join(); for(int v:seen) SIM_CHECK(v==1,"semaphore-overdraw","item handed over %d times",v); SIM_CHECK(free_.count()==size_t(cap)&&full.count()==0,"semaphore-count","final counts %zu/%zu",free_.count(),full.count());
}

// =====================================================================================================
// P10: unlock guard
// =====================================================================================================
namespace {
struct TM { // lockable that knows its owner
    std::mutex m; int owner=0; int id=0; 
    void lock(){ { sim::Quiet q; SIM_CHECK(owner!=sim::tid(),"guard-double-lock","lock %d locked again by its owner",id); } m.lock(); sim::Quiet q; owner=sim::tid(); }
    bool try_lock(){ { sim::Quiet q; SIM_CHECK(owner!=sim::tid(),"guard-double-lock","lock %d locked again by its owner",id); } if(!m.try_lock()) return false; sim::Quiet q; owner=sim::tid(); return true; }
    void unlock(){ { sim::Quiet q; SIM_CHECK(owner==sim::tid(),"guard-foreign-unlock","lock %d released by a thread that does not own it",id); owner=0; } m.unlock(); }
    bool mine(){ sim::Quiet q; return owner==sim::tid(); }
};
struct Oops{};
#define MINE(x) SIM_CHECK((x).mine(),"guard-not-reacquired","lock %d not owned after the guard's scope",(x).id)
#define FREE(x) SIM_CHECK(!(x).mine(),"guard-not-released","lock %d still owned inside the guard's scope",(x).id)
struct Excl{ int inside[4]={0,0,0,0}; void in(int l){ sim::Quiet q; sim::logf("t%d enters %d",sim::tid(),l); SIM_CHECK(++inside[l]==1,"guard-exclusion","two threads inside lock %d",l); } void out(int l){ sim::Quiet q; --inside[l]; } };
template<class A,class B> void two(A& a,B& b,Excl& e,int la,int lb){
    std::lock(a,b); e.in(la); e.in(lb); work(); bool thr=sim::gen_rare(2,1,3);
    try{ e.out(la); e.out(lb); { lv::unlock_guard<A,B> g(a,b); FREE(a); FREE(b); work(); if(thr) throw Oops(); } MINE(a); MINE(b); }
    catch(const Oops&){ MINE(a); MINE(b); sim::probe("guard-exception"); }
    e.in(la); e.in(lb); work(); e.out(la); e.out(lb); a.unlock(); b.unlock();
}
}
SIM_HARNESS_W("P10",guard_many,3){
    sim::enable(sim::K_USERDELAY,0.2); TM m[3]; for(int i=0;i<3;i++) m[i].id=i; Excl e; const int n=2+(int)sim::gen(3),reps=1+(int)sim::gen(3);
    std::vector<std::thread> th; for(int t=0;t<n;t++) th.emplace_back([&]{ for(int r=0;r<reps;r++) switch(sim::gen(8)){
        case 0: two(m[0],m[1],e,0,1); break; case 1: two(m[1],m[0],e,1,0); break; case 2: two(m[1],m[2],e,1,2); break; case 3: two(m[2],m[0],e,2,0); break; case 4: two(m[0],m[2],e,0,2); break;
        case 5: { std::lock(m[0],m[1],m[2]); for(int i=0;i<3;i++) e.in(i); for(int i=0;i<3;i++) e.out(i); try{ lv::unlock_guard<TM,TM,TM> g(m[2],m[0],m[1]); for(int i=0;i<3;i++) FREE(m[i]); work(); if(sim::gen_rare(2,1,3)) throw Oops(); }catch(const Oops&){} for(int i=0;i<3;i++){ MINE(m[i]); e.in(i); } work(); for(int i=0;i<3;i++){ e.out(i); m[i].unlock(); } break; }
        case 6: { std::lock(m[2],m[1],m[0]); { lv::unlock_guard<TM,TM,TM> g(m[0],m[1],m[2]); work(); } for(int i=0;i<3;i++){ MINE(m[i]); e.in(i); } for(int i=0;i<3;i++){ e.out(i); m[i].unlock(); } break; }
        default: { int k=(int)sim::gen(3); m[k].lock(); e.in(k); e.out(k); try{ lv::unlock_guard<TM> g(m[k]); FREE(m[k]); work(); if(sim::gen_rare(2,1,3)) throw Oops(); }catch(const Oops&){} MINE(m[k]); e.in(k); work(); e.out(k); m[k].unlock(); }
    } });
    for(auto& t:th) t.join(); for(int i=0;i<3;i++) SIM_CHECK(m[i].owner==0,"guard-leak","lock %d still held",i);
}
// in scope the locks really are available to others: a partner must be able to take them all while the guard is alive
SIM_HARNESS("P10",guard_releases){
    std::mutex a,b; std::recursive_mutex c; lv::Semaphore in{0},done{0}; int shared=0; const int form=(int)sim::gen(3);
    std::thread p([&]{ in.wait(); if(form==0){ std::lock_guard<std::mutex> l(a); shared++; } else if(form==1){ std::lock(a,b); shared++; a.unlock(); b.unlock(); } else { std::lock(a,b,c); shared++; a.unlock(); b.unlock(); c.unlock(); } done.notify(); });
    std::lock(a,b,c); shared++;
    if(form==0){ lv::unlock_guard<std::mutex> g(a); in.notify(); done.wait(); } else if(form==1){ lv::unlock_guard<std::mutex,std::mutex> g(b,a); in.notify(); done.wait(); } else { lv::unlock_guard<std::mutex,std::mutex,std::recursive_mutex> g(a,b,c); in.notify(); done.wait(); }
    SIM_CHECK(shared==2,"guard-not-released","partner did not run"); shared++;
    bool got=true; std::thread q([&]{ got=a.try_lock(); if(got) a.unlock(); }); q.join(); SIM_CHECK(!got,"guard-not-reacquired","first lock free after scope");
    std::thread q2([&]{ got=b.try_lock(); if(got) b.unlock(); }); q2.join(); SIM_CHECK(!got,"guard-not-reacquired","second lock free after scope");
    std::thread q3([&]{ got=c.try_lock(); if(got) c.unlock(); }); q3.join(); SIM_CHECK(!got,"guard-not-reacquired","third lock free after scope");
    a.unlock(); b.unlock(); c.unlock(); p.join();
}
// over unique_lock objects, nested guards, condition variables
SIM_HARNESS("P10",guard_unique_lock){
    sim::enable(sim::K_SPURIOUS,0.3); std::mutex a,b; std::condition_variable cv; int turn=0; const int n=2+(int)sim::gen(2);
    auto body=[&](int id){ std::unique_lock<std::mutex> la(a,std::defer_lock),lb(b,std::defer_lock); if(sim::gen_bool()) std::lock(la,lb); else std::lock(lb,la);
        turn++; try{ lv::unlock_guard<std::unique_lock<std::mutex>,std::unique_lock<std::mutex>> g(la,lb); SIM_CHECK(!la.owns_lock()&&!lb.owns_lock(),"guard-not-released","unique_lock still owned"); work(); if(sim::gen_rare(2,1,3)) throw Oops(); }catch(const Oops&){}
        SIM_CHECK(la.owns_lock()&&lb.owns_lock(),"guard-not-reacquired","unique_lock not owned"); turn++;
        { lv::unlock_guard<std::unique_lock<std::mutex>> g(lb); work(); } SIM_CHECK(lb.owns_lock()&&la.owns_lock(),"guard-not-reacquired","unique_lock not owned"); lb.unlock(); (void)id; la.unlock(); };
    // single-lock guards are used with one lock at a time so that callers' own ordering cannot deadlock
    auto body1=[&](int){ std::unique_lock<std::mutex> la(a); turn++; { lv::unlock_guard<std::unique_lock<std::mutex>> g(la); work(); { std::unique_lock<std::mutex> lb(b); lv::unlock_guard<std::unique_lock<std::mutex>> g2(lb); work(); } } SIM_CHECK(la.owns_lock(),"guard-not-reacquired","unique_lock not owned"); turn++; cv.notify_all(); };
    (void)body; std::vector<std::thread> th; for(int i=0;i<n;i++) th.emplace_back(body1,i); 
    { std::unique_lock<std::mutex> l(a); cv.wait(l,[&]{ return turn==2*n; }); } for(auto& t:th) t.join();
}
SIM_HARNESS("P10",guard_unique_lock_pair){
    std::mutex a,b; int turn=0; const int n=2+(int)sim::gen(2);
    auto body=[&](int id){ std::unique_lock<std::mutex> la(a,std::defer_lock),lb(b,std::defer_lock); if(sim::gen_bool()) std::lock(la,lb); else std::lock(lb,la);
        turn++; try{ typedef std::unique_lock<std::mutex> U; if(id&1){ lv::unlock_guard<U,U> g(la,lb); SIM_CHECK(!la.owns_lock()&&!lb.owns_lock(),"guard-not-released","unique_lock still owned"); work(); if(sim::gen_rare(2,1,3)) throw Oops(); } else { lv::unlock_guard<U,U> g(lb,la); work(); } }catch(const Oops&){}
        SIM_CHECK(la.owns_lock()&&lb.owns_lock(),"guard-not-reacquired","unique_lock not owned"); turn++; };
    std::vector<std::thread> th; for(int i=0;i<n;i++) th.emplace_back(body,i); for(auto& t:th) t.join(); SIM_CHECK(turn==2*n,"guard-exclusion","lost update");
}

// =====================================================================================================
// P11: logging
// =====================================================================================================
namespace {
std::string* g_cap=nullptr; int g_in=0; 
void cap_write(const char* s,size_t n){ if(!g_cap) return;
    // one shared sink without protection of its own: concurrent entry is visible as a race and as mixed output
    sim::touch(&g_in,sizeof g_in,true); for(size_t i=0;i<n;){ size_t k=n-i; if(k>7) k=7+sim::gen_rare(400,1,4)%(k-6); if(k>n-i) k=n-i; { sim::Quiet q; g_cap->append(s+i,k); } i+=k; if(sim::gen_rare(2,1,6)) sim::yield_point(); else sim::step_point(); } }
struct CapBuf : std::streambuf { int overflow(int c)override{ char ch=(char)c; if(c!=EOF) cap_write(&ch,1); return c; } std::streamsize xsputn(const char* s,std::streamsize n)override{ cap_write(s,(size_t)n); return n; } int sync()override{ sim::step_point(); return 0; } };
std::string body(int t,int k,size_t len){ std::string s; for(size_t i=0;i<len;i++) s+=char('a'+(t*7+k*3+i)%26); return s; }
std::string msg(int t,int k,size_t len){ char b[48]; snprintf(b,sizeof b,"{T%d#%d:",t,k); return b+body(t,k,len)+"}"; }
struct Cap { std::string s; CapBuf b; std::streambuf* o,*e; std::ostream extra; Cap():extra(&b){ g_cap=&s; o=std::cout.rdbuf(&b); e=std::cerr.rdbuf(&b); } ~Cap(){ std::cout.rdbuf(o); std::cerr.rdbuf(e); g_cap=nullptr; } };
struct Expect{ int t,k; size_t len; bool shown; };
void parse(const std::string& s,const std::vector<std::vector<Expect>>& ex,bool bars){
    std::vector<size_t> next(ex.size(),0); size_t i=0; auto ctx=[&](size_t p){ std::string c=s.substr(p>20?p-20:0,60); for(char& ch:c) if(ch=='\n') ch='$'; return c; };
    auto skip=[&](int t){ while(next[t]<ex[t].size()&&!ex[t][next[t]].shown) next[t]++; };
    while(i<s.size()){
        if(bars&&s[i]==' '){ // a complete progress bar line: " P  [=====   ]\n"
            size_t e=s.find('\n',i); SIM_CHECK(e!=std::string::npos&&s.compare(i,5," P  [")==0&&s[e-1]==']'&&e-i==26,"log-mixed","progress bar not whole near '%s'",ctx(i).c_str()); bool sp=false; for(size_t p=i+5;p<e-1;p++){ if(s[p]==' ') sp=true; else SIM_CHECK(s[p]=='='&&!sp,"log-mixed","progress bar mixed near '%s'",ctx(i).c_str()); } i=e+1; continue; }
        int t,k,n=0; SIM_CHECK(sscanf(s.c_str()+i,"{T%d#%d:%n",&t,&k,&n)==2&&n>0,"log-mixed","output is not a sequence of whole messages near '%s'",ctx(i).c_str());
        SIM_CHECK(t>=0&&t<(int)ex.size(),"log-mixed","unknown sender near '%s'",ctx(i).c_str()); skip(t);
        SIM_CHECK(next[t]<ex[t].size(),"log-duplicate","unexpected message %d of thread %d",k,t); const Expect& x=ex[t][next[t]];
        SIM_CHECK(k==x.k,k<x.k?"log-duplicate":"log-order","thread %d: message %d came out where %d was due (verbosity-suppressed ones excluded)",t,k,x.k);
        std::string m=msg(t,k,x.len); SIM_CHECK(s.compare(i,m.size(),m)==0,"log-mixed","message %d of thread %d (%zu characters) not whole",k,t,m.size()); i+=m.size(); while(i<s.size()&&s[i]=='\n') i++; next[t]++; }
    for(size_t t=0;t<ex.size();t++){ skip((int)t); SIM_CHECK(next[t]==ex[t].size(),"log-lost","message %d of thread %d never came out",ex[t][next[t]].k,(int)t); }
}
size_t pick_len(){ static const size_t L[]={0,1,5,12,40,90,200}; switch(sim::gen(6)){ case 0: return 1010+sim::gen(12); case 1: return 1500+sim::gen(3)*1024; default: return L[sim::gen(7)]; } }
size_t wide(size_t total,int t,int k){ size_t h=msg(t,k,0).size(); return total>h?total-h:0; }
size_t pick_total_near(int t,int k){ static const size_t c[]={1022,1023,1024,1025,2047,2048,2049,511,512}; return wide(c[sim::gen(9)],t,k); }
struct Obj{ std::string s; }; std::ostream& operator<<(std::ostream& os,const Obj& o){ size_t h=o.s.size()/2; os<<o.s.substr(0,h); os<<o.s.substr(h); return os; }
void emit(Cap& c,int t,int k,size_t len,int how,int level,int nl){
    sim::logf("t%d message %d: %zu chars, helper %d, level %d",sim::tid(),k,len,how,level);
    std::string m=msg(t,k,len); char head[48]; snprintf(head,sizeof head,"{T%d#%d:",t,k); std::string b=body(t,k,len);
    switch(how){
        case 0: lv::safe_print(c.extra,"%s%s}",head,b.c_str()); break;
        case 1: lv::safe_print(c.extra,"{T%d#%d:%s}%s",t,k,b.c_str(),nl?"\n":""); break;
        case 2: { Obj o{m}; lv::safe_print(o,c.extra); break; }
        case 3: lvCout_(level)<<head<<b<<"}"; break;
        case 4: lvCout_(level)<<"{T"<<t<<"#"<<k<<":"<<b<<'}'<<std::endl; break;
        case 5: lvLog(level,m); break;
        case 6: lvLog_(level,"{T%d#%d:%s}",t,k,b.c_str()); break;
        case 7: lvCerr_(level)<<m<<std::flush; break;
        default: lvCout<<lv::putf("%s%s}",head,b.c_str()); }
}
}
SIM_HARNESS_W("P11",log_threads,4){
    sim::enable(sim::K_USERDELAY,0.2); Cap c; const int n=2+(int)sim::gen(3),per=1+(int)sim::gen(5); lv::setVerbosity((int)sim::gen(3)); const int verb=lv::getVerbosity();
    std::vector<std::vector<Expect>> ex(n); std::vector<std::thread> th;
    for(int t=0;t<n;t++) th.emplace_back([&,t]{ for(int k=0;k<per;k++){ size_t len=sim::gen_rare(2,1,4)?pick_total_near(t,k):pick_len(); int how=(int)sim::gen(9),level=(int)sim::gen(4); bool shown=!(how>=3&&how<=7)||verb>=level; { sim::Quiet q; ex[t].push_back({t,k,len,shown}); } emit(c,t,k,len,how,level,(int)sim::gen(2)); work(); } });
    for(auto& t:th) t.join(); { sim::Quiet q; parse(c.s,ex,false); }
}
// every length around the internal buffer boundaries, with a competing thread
SIM_HARNESS("P11",log_lengths){
    Cap c; std::vector<std::vector<Expect>> ex(2); size_t base=(size_t)sim::gen(3); static const size_t c0[3]={1000,2030,200}; 
    std::thread o([&]{ for(int k=0;k<3;k++){ { sim::Quiet q; ex[1].push_back({1,k,30,true}); } emit(c,1,k,30,(int)sim::gen(3),0,0); } });
    size_t start=c0[base]+sim::gen(30); for(int k=0;k<6;k++){ size_t len=start+k; { sim::Quiet q; ex[0].push_back({0,k,len,true}); } emit(c,0,k,len,(int)sim::gen(2)*8,0,0); }
    o.join(); { sim::Quiet q; parse(c.s,ex,false); }
}
// progress bar shared by threads, together with messages, under wall-clock adjustments
extern "C" { 
int printf(const char* f,...){ char b[512]; va_list a; va_start(a,f); int n=vsnprintf(b,sizeof b,f,a); va_end(a); cap_write(b,n<511?n:511); return n; }
int __printf_chk(int,const char* f,...){ char b[512]; va_list a; va_start(a,f); int n=vsnprintf(b,sizeof b,f,a); va_end(a); cap_write(b,n<511?n:511); return n; }
int putchar(int ch){ char b=(char)ch; cap_write(&b,1); return ch; }
int puts(const char* s){ cap_write(s,strlen(s)); cap_write("\n",1); return 1; }
}
SIM_HARNESS_W("P11",log_progress,3){
    sim::enable(sim::K_CLOCKJUMP,0.3); sim::enable(sim::K_USERDELAY,0.5); Cap c; lv::setVerbosity(1); const int n=1+(int)sim::gen(3),per=2+(int)sim::gen(6);
    const double init_s=sim::gen(3)*0.001, rate_s=0.0005*(1+sim::gen(4)); const uint64_t born=sim::now_ns();
    lv::ProgressBarManager bar("P",init_s,rate_s,false,20); const uint64_t ready=sim::now_ns(); struct U{ uint64_t s,e; float f; bool ok; }; std::vector<U> us; std::vector<std::vector<Expect>> ex(n); std::vector<std::thread> th;
    for(int t=0;t<n;t++) th.emplace_back([&,t]{ float f=0; for(int k=0;k<per;k++){ if(sim::gen_rare(2,1,3)){ size_t len=sim::gen(60); { sim::Quiet q; ex[t].push_back({t,k,len,true}); } emit(c,t,k,len,(int)sim::gen(9)%3,0,0); }
        f+=0.02f+sim::gen(5)*0.05f; if(f>1) f=1; if(sim::gen_rare(2,1,5)) f=f/2; uint64_t s=sim::now_ns(); bool ok=bar.update(f); uint64_t e=sim::now_ns(); { sim::Quiet q; us.push_back({s,e,f,ok}); sim::logf("t%d update %.2f -> %d",sim::tid(),f,ok); } sim::sleep_ns(sim::gen(5)*300000ull); } });
    for(auto& t:th) t.join();
    { sim::Quiet q; parse(c.s,ex,true);
      // bars printed must strictly grow (without reset) and match accepted updates
      std::vector<int> bars; for(size_t p=0;(p=c.s.find(" P  [",p))!=std::string::npos;p++){ int eq=0; for(size_t i=p+5;c.s[i]=='=';i++) eq++; bars.push_back(eq); }
      size_t acc=0; for(auto& u:us) acc+=u.ok; size_t first=init_s<=0?1:0; SIM_CHECK(bars.size()==acc+first,"progress-shown","%zu bars shown for %zu accepted updates",bars.size(),acc+first);
      for(size_t i=1+0;i<bars.size();i++) SIM_CHECK(bars[i]>bars[i-1]||(bars[i]==bars[i-1]&&bars[i]>=20),"progress-order","progress went from %d to %d columns",bars[i-1],bars[i]);
      // refresh interval in elapsed time: two accepted updates cannot both lie inside one interval
      std::vector<U> a; for(auto& u:us) if(u.ok) a.push_back(u); const double slack=2e-7;
      std::sort(a.begin(),a.end(),[](const U& x,const U& y){ return x.f<y.f; });
      for(size_t i=0;i<a.size();i++){ if(i) SIM_CHECK((double)(a[i].e-a[i-1].s)*1e-9>=rate_s-slack,"progress-interval","two updates within %.6f s (interval %.6f s)",(a[i].e-a[i-1].s)*1e-9,rate_s); else SIM_CHECK((double)(a[i].e-born)*1e-9>=init_s-slack,"progress-interval","first update after %.6f s (initial delay %.6f s)",(a[i].e-born)*1e-9,init_s); }
      // and progress is not withheld: an update alone (no other overlapping), larger than all before and late enough, is accepted
      if(n==1){ float best=0; uint64_t lastS=ready; bool any=false; size_t bestbars=0; for(auto& u:us){ size_t nb=size_t(u.f*20); double since=(double)(u.s-lastS)*1e-9; bool must=u.f>best&&nb>bestbars&&since>=(any?rate_s:init_s)+1e-6; 
            // time of last refresh is taken inside the accepted call: use its end
            if(must) SIM_CHECK(u.ok,"progress-withheld","update to %.2f refused %.6f s after the previous one",u.f,since); if(u.ok){ best=u.f; bestbars=nb; any=true; lastS=u.e; } } }
    }
}
// bars that are created and reset while other threads log
SIM_HARNESS("P11",log_bars){
    Cap c; lv::setVerbosity(1); const int n=2+(int)sim::gen(2),per=1+(int)sim::gen(4); std::vector<std::vector<Expect>> ex(n); std::vector<std::thread> th; std::vector<size_t> shown(n,0);
    for(int t=0;t<n;t++) th.emplace_back([&,t]{ for(int k=0;k<per;k++){ switch(sim::gen(3)){
        case 0: { size_t len=sim::gen(60); { sim::Quiet q; ex[t].push_back({t,k,len,true}); } emit(c,t,k,len,(int)sim::gen(9)%3,0,0); break; }
        case 1: { lv::ProgressBarManager bar("P",0.0,0.0005,false,20); shown[t]++; break; }
        default: { lv::ProgressBarManager bar("P",0.001,0.0005,false,20); bar.reset(); shown[t]++; sim::sleep_ns(2000000); if(bar.update(0.3f)) shown[t]++; bar.reset(); shown[t]++; } } work(); } });
    for(auto& t:th) t.join(); { sim::Quiet q; parse(c.s,ex,true); size_t bars=0,want=0; for(size_t p=0;(p=c.s.find(" P  [",p))!=std::string::npos;p++) bars++; for(size_t s:shown) want+=s; SIM_CHECK(bars==want,"progress-shown","%zu bars shown, %zu expected",bars,want); }
}
