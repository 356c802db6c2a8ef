// P01..P06: asynchronous precaching and writing of data packets.
#include "sim.hpp"
#include "litiv/datasets/utils.hpp"
#include <thread>
#include <condition_variable>
#include <map>
#include <set>
using namespace std::chrono;
extern "C" size_t sim_cache_min_value;
namespace {
struct Gate { std::mutex m; std::condition_variable c; int n=0; void notify(){ std::lock_guard<std::mutex> l(m); ++n; c.notify_one(); } void wait(){ std::unique_lock<std::mutex> l(m); c.wait(l,[&]{return n>0;}); --n; } };
struct Err : std::exception { int id; explicit Err(int i):id(i){} const char* what()const noexcept override{ return "loader failure"; } };
struct ErrX { int id; }; // failures need not derive from std::exception
template<class F> void norm(F f){ int id=0; try{ f(); return; }catch(const ErrX& e){ id=e.id; } throw Err(id); }
[[noreturn]] void raise_failure(int id){ if(sim::gen_rare(2,1,3)) throw ErrX{id}; throw Err(id); }
// ---------------------------------------------------------------------------------------------- packets
struct Shape { int rows,cols,type,dims3; size_t bytes()const{ return (size_t)rows*cols*(dims3?dims3:1)*CV_ELEM_SIZE(type); } };
uint32_t mix(uint32_t a){ a^=a>>16; a*=0x7feb352dU; a^=a>>15; a*=0x846ca68bU; a^=a>>16; return a; }
struct Source { // what the underlying loader produces
    size_t count; uint32_t salt; int sizing; // sizing: 0 = uniform, 1 = varied, 2 = varied with some larger than the buffer, 3 = varied with zero-sized gaps
    size_t unit;
    Shape shape(size_t i)const{ uint32_t h=mix(salt+(uint32_t)i*77); Shape s; s.dims3=0; static const int ty[4]={CV_8UC1,CV_8UC3,CV_32FC1,CV_16UC2};
        if(sizing==0){ s.type=CV_8UC1; s.rows=1; s.cols=(int)unit; return s; }
        s.type=ty[h%4]; s.rows=1+(h>>4)%3; s.cols=1+(int)((h>>8)%(unit/8+1)); if((h>>16)%5==0) s.dims3=2; if(sizing==2&&(h>>20)%6==0) s.cols+=(int)unit*6; return s; }
    uint8_t byte(size_t i,size_t k)const{ return (uint8_t)(mix(salt*31+(uint32_t)i*1000003u+(uint32_t)k)>>5); }
    cv::Mat make(size_t i)const{ if(i>=count) return cv::Mat(); Shape s=shape(i); cv::Mat m; if(s.dims3){ int d[3]={s.dims3,s.rows,s.cols}; m.create(3,d,s.type); } else m.create(s.rows,s.cols,s.type);
        sim::Quiet q; for(size_t k=0;k<s.bytes();k++) m.data[k]=byte(i,k); return m; }
    bool same(const cv::Mat& m,size_t i,std::string& why)const{ // reads through the checked heap first
        if(i>=count){ why="not empty past the end"; return m.empty(); } Shape s=shape(i); 
        if(m.empty()){ why="empty"; return false; }
        if(m.type()!=s.type||m.dims!=(s.dims3?3:2)||m.total()*m.elemSize()!=s.bytes()||(s.dims3?(m.size[0]!=s.dims3||m.size[1]!=s.rows||m.size[2]!=s.cols):(m.rows!=s.rows||m.cols!=s.cols))){ why="type or size"; return false; }
        if(!m.isContinuous()){ why="layout"; return false; }
        sim::touch(m.data,s.bytes(),false); sim::Quiet q; for(size_t k=0;k<s.bytes();k++) if(m.data[k]!=byte(i,k)){ char b[80]; snprintf(b,sizeof b,"content differs at byte %zu of %zu",k,s.bytes()); why=b; return false; } return true; }
};
struct Call{ size_t idx; uint64_t t0,t1,seq; int tid; };
struct Loader { Source src; std::vector<Call> calls; int active=0; bool slow=false; bool stopped=true; int owner=0; uint64_t maxdelay=0;
    int thrown=0; std::vector<int> bg_pending; std::set<int> outstanding,delivered; bool faults=false;
    cv::Mat operator()(size_t i){ size_t me; { sim::Quiet q; me=calls.size(); calls.push_back({i,sim::now_ns(),0,sim::seq(),sim::tid()}); sim::logf("t%d load %zu",sim::tid(),i);
            SIM_CHECK(!(stopped&&sim::tid()!=owner),"loader-after-stop","packet %zu loaded in the background although precaching is stopped",i);
            SIM_CHECK(++active==1,"loader-concurrent","loader called concurrently"); }
        if(slow){ uint64_t d=sim::delay_choice(); if(d){ if(d>maxdelay&&maxdelay) d=maxdelay; sim::sleep_ns(d); } else sim::step_point(); }
        bool bad=faults&&sim::fault(); int id=0; { sim::Quiet q; --active; calls[me].t1=sim::now_ns(); if(bad){ id=++thrown; outstanding.insert(id); if(sim::tid()!=owner) bg_pending.push_back(id); sim::logf("t%d load %zu fails (#%d)",sim::tid(),i,id); } }
        if(bad) raise_failure(id); return src.make(i); }
};
size_t pick_idx(size_t cur,size_t count){ switch(sim::gen(8)){ case 0: case 1: case 2: return cur; case 3: return cur+1+sim::gen(3); case 4: return cur?cur-1:0; case 5: return cur>1?cur-1-sim::gen((uint32_t)std::min<size_t>(cur,6)):0; case 6: return sim::gen((uint32_t)count+1); default: return count+sim::gen(3); } }
void set_min(size_t v){ sim_cache_min_value=v; }
}
// =====================================================================================================
// P01
// =====================================================================================================
namespace {
struct Held { cv::Mat shallow; const cv::Mat* ref=nullptr; size_t idx=0; bool valid=false; };
void check_held(const Source& s,const Held& h,const char* when){ if(!h.valid) return; std::string why; if(!s.same(h.shallow,h.idx,why)) sim::violation("packet-not-intact","packet %zu no longer intact %s: %s",h.idx,when,why.c_str()); if(!s.same(*h.ref,h.idx,why)) sim::violation("packet-not-intact","packet %zu (by reference) no longer intact %s: %s",h.idx,when,why.c_str()); }
void pre_run(int sizing,bool seq_bias){
    sim::enable(sim::K_SPURIOUS,0.2); sim::enable(sim::K_USERDELAY,0.3); sim::enable(sim::K_CLOCKJUMP,0.1); 
    Loader L; L.src.count=1+sim::gen(14); L.src.salt=sim::gen(1000); L.src.sizing=sizing; L.src.unit=16+sim::gen(5)*16; L.slow=sim::gen_bool(); L.owner=sim::tid();
    set_min(L.src.unit*(1+sim::gen(5))+sim::gen(3)*sim::gen(20)); Held h; size_t cur=0; int ops=4+(int)sim::gen(26);
    std::unique_ptr<lv::DataPrecacher> p(new lv::DataPrecacher(std::ref(L)));
    if(sim::gen_rare(2,3,4)){ { sim::Quiet q; L.stopped=false; } SIM_CHECK(p->startAsyncPrecaching(1+sim::gen(400)),"start-refused","startAsyncPrecaching returned false"); }
    for(int k=0;k<ops;k++){
        uint32_t op=sim::gen(seq_bias?16:10);
        if(op==1){ sim::probe("stop"); p->stopAsyncPrecaching(); { sim::Quiet q; L.stopped=true; } check_held(L.src,h,"after stopping"); sim::logf("stop"); }
        else if(op==2){ sim::probe("start"); { sim::Quiet q; L.stopped=false; } size_t b=sim::gen_rare(2,1,6)?0:1+sim::gen(600); bool a=p->startAsyncPrecaching(b); SIM_CHECK(a==(b>0)&&p->isActive()==a,"start-refused","startAsyncPrecaching(%zu) returned %d",b,a); if(!b){ sim::Quiet q; L.stopped=true; } check_held(L.src,h,"after restarting"); sim::logf("start %zu",b); }
        else if(op==3){ sim::sleep_ns(sim::gen(5)*7000000ull); check_held(L.src,h,"after a pause"); }
        else if(op==4&&sim::gen_rare(2,1,2)){ sim::probe("same-again"); if(h.valid){ check_held(L.src,h,"before repeating"); const cv::Mat& m=p->getPacket(h.idx); std::string why; if(!L.src.same(m,h.idx,why)) sim::violation("wrong-packet","repeated request for packet %zu: %s",h.idx,why.c_str()); h.shallow=m; h.ref=&m; check_held(L.src,h,"after repeating"); } }
        else { size_t i=pick_idx(cur,L.src.count); check_held(L.src,h,"before the next request"); const cv::Mat& m=p->getPacket(i); std::string why; 
            sim::logf("get %zu -> %zu bytes",i,m.total()*m.elemSize());
            if(!L.src.same(m,i,why)) sim::violation("wrong-packet","request for packet %zu of %zu: %s (buffer %zu bytes, precaching %d)",i,L.src.count,why.c_str(),sim_cache_min_value,(int)p->isActive());
            SIM_CHECK(p->getLastReqIdx()==i,"wrong-packet","getLastReqIdx gives %zu after requesting %zu",p->getLastReqIdx(),i);
            h.shallow=m; h.ref=&m; h.idx=i; h.valid=true; if(i<L.src.count) cur=i+1; else { sim::probe("past-end"); cur=sim::gen((uint32_t)L.src.count); } }
    }
    if(sim::gen_bool()) p->stopAsyncPrecaching(), check_held(L.src,h,"after stopping");
    h=Held(); p.reset(); SIM_CHECK(sim::alive_threads()==1,"thread-left","prefetch thread left after destruction");
}
}
SIM_HARNESS_W("P01",precache_uniform,2){ pre_run(0,true); }
SIM_HARNESS_W("P01",precache_varied,3){ pre_run(1,true); }
SIM_HARNESS_W("P01",precache_large,2){ pre_run(2,true); }
SIM_HARNESS_W("P01",precache_random,2){ pre_run(1+sim::gen(2),false); }
// long sequential reading with pauses: wrap-around of the buffer at every alignment
SIM_HARNESS_W("P01",precache_wrap,3){
    sim::enable(sim::K_SPURIOUS,0.2); sim::enable(sim::K_USERDELAY,0.2); Loader L; L.src.count=20+sim::gen(30); L.src.salt=sim::gen(1000); L.src.sizing=(int)sim::gen(2); L.src.unit=16+sim::gen(40); L.slow=sim::gen_bool(); L.owner=sim::tid(); L.stopped=false; set_min(L.src.unit*2+sim::gen(100));
    lv::DataPrecacher p{std::ref(L)}; p.startAsyncPrecaching(1); uint32_t pace=sim::gen(4); Held h;
    for(size_t i=0;i<L.src.count+2;i++){ if(pace&&sim::gen_rare(2,pace,6)) sim::sleep_ns(sim::gen(4)*9000000ull); check_held(L.src,h,"before the next request"); const cv::Mat& m=p.getPacket(i); std::string why; if(!L.src.same(m,i,why)) sim::violation("wrong-packet","sequential request for packet %zu of %zu: %s",i,L.src.count,why.c_str()); h.shallow=m; h.ref=&m; h.idx=i; h.valid=true; if(sim::gen_rare(2,1,12)) i+=sim::gen(4); }
    p.stopAsyncPrecaching(); check_held(L.src,h,"after stopping");
}
// =====================================================================================================
// P02
// =====================================================================================================
namespace {
struct Outcome{ bool ok; bool err; int id; bool mem; bool thr; };
template<class F> Outcome attempt(Loader& L,const char* what,F f){
    Outcome o{true,false,0,false,false};
    auto met=[&](int id){ o.ok=false; o.err=true; o.id=id; sim::Quiet q; SIM_CHECK(!L.delivered.count(id),"failure-reported-twice","%s raised failure #%d again",what,id); SIM_CHECK(L.outstanding.count(id),"failure-invented","%s raised unknown failure #%d",what,id); L.delivered.insert(id); L.outstanding.erase(id); };
    try{ f(); }
    catch(const Err& e){ met(e.id); } catch(const ErrX& e){ met(e.id); }
    catch(const std::bad_alloc&){ o.ok=false; o.mem=true; }
    catch(const cv::Exception& e){ o.ok=false; o.mem=true; SIM_CHECK(e.code==cv::Error::StsNoMem,"unexpected-exception","%s raised %s",what,e.what()); }
    catch(const std::system_error& e){ o.ok=false; o.thr=true; }
    catch(const std::exception& e){ sim::violation("unexpected-exception","%s raised: %s",what,e.what()); }
    sim::logf("%s -> %s",what,o.ok?"ok":o.err?"loader failure":o.mem?"no memory":"no thread");
    if(o.mem) SIM_CHECK(sim::fired(sim::K_MALLOCFAIL)>0,"unexpected-exception","%s ran out of memory without a fault",what);
    if(o.thr) SIM_CHECK(sim::fired(sim::K_THREADFAIL)>0,"unexpected-exception","%s failed to start a thread without a fault",what);
    return o; }
void fail_run(bool mem){
    sim::enable(sim::K_SPURIOUS,0.1); sim::enable(sim::K_USERFAULT,0.25); sim::enable(sim::K_USERDELAY,0.2); sim::enable(sim::K_THREADFAIL,0.4); if(mem) sim::enable(sim::K_MALLOCFAIL,0.03);
    Loader L; L.src.count=2+sim::gen(8); L.src.salt=sim::gen(1000); L.src.sizing=(int)sim::gen(3); L.src.unit=16+sim::gen(3)*16; L.slow=sim::gen_bool(); L.owner=sim::tid(); L.faults=true; set_min(L.src.unit*(1+sim::gen(5)));
    std::unique_ptr<lv::DataPrecacher> p(new lv::DataPrecacher(std::ref(L))); size_t cur=0,last=SIZE_MAX; int ops=4+(int)sim::gen(16); bool quietpending=false; (void)quietpending;
    // a failure that happened in the background, in this precaching session, and that nobody was told about yet
    auto pending=[&]{ sim::Quiet q; for(int id:L.bg_pending) if(L.outstanding.count(id)) return id; return 0; };
    for(int k=0;k<ops;k++){ uint32_t op=sim::gen(8);
        if(op==1){ int pend; Outcome o=attempt(L,"stop",[&]{ if(mem){ sim::MallocFaults mf; p->stopAsyncPrecaching(); } else p->stopAsyncPrecaching(); }); { sim::Quiet q; if(!p->isActive()) L.stopped=true; } pend=pending();
            if(o.ok||o.err){ SIM_CHECK(!p->isActive(),"still-active","precaching active after stop"); SIM_CHECK(!pend||o.err,"failure-absorbed","stop did not report loader failure #%d",pend); }
            if(o.ok) SIM_CHECK(!pend,"failure-absorbed","stop did not report loader failure #%d",pend); }
        else if(op==2){ sim::Quiet* n=nullptr; (void)n; { sim::Quiet q; L.stopped=false; } int pend0=pending(); Outcome o=attempt(L,"start",[&]{ if(mem){ sim::ThreadFaults tf; sim::MallocFaults mf(true); p->startAsyncPrecaching(1+sim::gen(300)); } else { sim::ThreadFaults tf; p->startAsyncPrecaching(1+sim::gen(300)); } });
            if(o.ok){ SIM_CHECK(!pend0,"failure-absorbed","start discarded loader failure #%d of the previous session",pend0); SIM_CHECK(p->isActive(),"start-refused","start returned without precaching"); }
            else { if(o.thr){ sim::probe("thread-refused"); SIM_CHECK(!p->isActive(),"still-active","precaching marked active although its thread could not be started"); } { sim::Quiet q; if(!p->isActive()) L.stopped=true; } } }
        else if(op==3) sim::sleep_ns(sim::gen(5)*8000000ull);
        else { size_t i=pick_idx(cur,L.src.count); bool act=p->isActive(); int pend0=i!=last&&act?pending():0; const cv::Mat* m=nullptr;
            Outcome o=attempt(L,"get",[&]{ if(mem){ sim::MallocFaults mf; m=&p->getPacket(i); } else m=&p->getPacket(i); });
            if(o.ok){ std::string why; if(!L.src.same(*m,i,why)) sim::violation("wrong-packet","request for packet %zu of %zu: %s",i,L.src.count,why.c_str()); last=i; SIM_CHECK(!pend0,"failure-absorbed","request returned although precaching had failed before (#%d)",pend0); cur=i<L.src.count?i+1:0; }
            else { sim::probe("request-failed"); if(o.err) SIM_CHECK(!p->isActive(),"still-active","precaching still active after its failure was reported"); if(!p->isActive()){ sim::Quiet q; L.stopped=true; } } }
    }
    if(sim::gen_bool()){ // recovery: everything works again once the faults stop
        sim::faults_off(); { sim::Quiet q; L.faults=false; } sim::probe("recovery");
        Outcome o=attempt(L,"stop",[&]{ p->stopAsyncPrecaching(); }); o=attempt(L,"stop",[&]{ p->stopAsyncPrecaching(); }); SIM_CHECK(o.ok,"failure-reported-twice","second stop failed"); { sim::Quiet q; L.stopped=false; }
        o=attempt(L,"start",[&]{ p->startAsyncPrecaching(100); }); SIM_CHECK(o.ok&&p->isActive(),"not-usable","precaching cannot be started again");
        for(size_t i=0;i<=L.src.count;i++){ const cv::Mat* m=nullptr; o=attempt(L,"get",[&]{ m=&p->getPacket(i); }); SIM_CHECK(o.ok,"not-usable","request failed after recovery"); std::string why; if(!L.src.same(*m,i,why)) sim::violation("wrong-packet","after recovery, packet %zu: %s",i,why.c_str()); }
    }
    p.reset(); SIM_CHECK(sim::alive_threads()==1,"thread-left","prefetch thread left after destruction");
}
}
SIM_HARNESS_W("P02",precache_loader_fails,3){ fail_run(false); }
SIM_HARNESS_W("P02",precache_no_memory,2){ fail_run(true); }
// =====================================================================================================
// P03
// =====================================================================================================
SIM_HARNESS_W("P03",precache_progress,3){
    sim::enable(sim::K_SPURIOUS,0.3); sim::enable(sim::K_USERDELAY,0.4); sim::enable(sim::K_CLOCKJUMP,0.3);
    Loader L; L.src.count=2+sim::gen(30); L.src.salt=sim::gen(1000); L.src.sizing=(int)sim::gen(3); L.src.unit=16+sim::gen(3)*16; L.slow=true; L.owner=sim::tid(); L.maxdelay=1000000000ull; set_min(L.src.unit*(1+sim::gen(40)));
    lv::DataPrecacher p{std::ref(L)}; size_t cur=0; int ops=4+(int)sim::gen(14);
    auto bounded=[&](const char* what,auto f){ uint64_t t0=sim::now_ns(),s0=sim::total_stall_ns(),e0=sim::stalled_until(); if(e0>t0) s0-=e0-t0; f(); uint64_t t1=sim::now_ns(); uint64_t lim=5000000000ull+4*L.maxdelay+1000000000ull+(sim::total_stall_ns()-s0); sim::logf("%s took %.3f s",what,(t1-t0)*1e-9); if(t1-t0>1000000000ull) sim::probe("slow-call"); SIM_CHECK(t1-t0<=lim,"not-bounded","%s took %.3f simulated s (bound %.3f)",what,(t1-t0)*1e-9,lim*1e-9); };
    for(int k=0;k<ops;k++){ uint32_t op=sim::gen(8);
        if(op==1){ bounded("stop",[&]{ p.stopAsyncPrecaching(); }); size_t n; { sim::Quiet q; L.stopped=true; n=L.calls.size(); } if(sim::gen_bool()){ sim::sleep_ns(700000000ull); sim::Quiet q; SIM_CHECK(n==L.calls.size(),"loader-after-stop","loader called after stop"); } }
        else if(op==2||k==0){ { sim::Quiet q; L.stopped=false; } bounded("start",[&]{ p.startAsyncPrecaching(1+sim::gen(2000)); }); }
        else if(op==3) sim::sleep_ns(sim::gen(5)*300000000ull);
        else { size_t i=pick_idx(cur,L.src.count); bounded("request",[&]{ const cv::Mat& m=p.getPacket(i); std::string why; if(!L.src.same(m,i,why)) sim::violation("wrong-packet","packet %zu: %s",i,why.c_str()); }); cur=i<L.src.count?i+1:0; } }
    bounded("destruction/stop",[&]{ p.stopAsyncPrecaching(); });
}
// an idle reader comes back to packets that are already there
SIM_HARNESS_W("P03",precache_ahead,3){
    sim::enable(sim::K_SPURIOUS,0.2); sim::enable(sim::K_CLOCKJUMP,0.3); Loader L; L.src.count=10+sim::gen(40); L.src.salt=sim::gen(1000); L.src.sizing=0; L.src.unit=16+sim::gen(33); L.owner=sim::tid(); L.stopped=false;
    const size_t fit=3+sim::gen(10); set_min(L.src.unit*fit+sim::gen((uint32_t)L.src.unit)); lv::DataPrecacher p{std::ref(L)}; p.startAsyncPrecaching(1); size_t cur=0; int rounds=2+(int)sim::gen(5);
    for(int r=0;r<rounds;r++){
        // move: sequential, jump, back to the start, or past the end and back
        uint32_t mv=sim::gen(5); size_t steps=sim::gen(6); bool fresh=r==0&&mv==0&&steps==0;
        if(mv==1){ size_t i=sim::gen((uint32_t)L.src.count); (void)p.getPacket(i); cur=i+1; } else if(mv==2){ (void)p.getPacket(0); cur=1; } else if(mv==3){ (void)p.getPacket(L.src.count+sim::gen(2)); if(sim::gen_bool()) sim::sleep_ns(30000000); sim::probe("past-end-and-back"); size_t i=sim::gen((uint32_t)L.src.count); (void)p.getPacket(i); cur=i+1; }
        for(size_t s=0;s<steps;s++) if(cur<L.src.count) (void)p.getPacket(cur++);
        if(cur==0){ (void)fresh; }
        bool quiet=false; for(int tries=0;tries<40&&!quiet;tries++){ uint64_t e=sim::stalled_until(); if(e>sim::now_ns()) sim::sleep_ns(e-sim::now_ns()); uint64_t s0=sim::total_stall_ns(); bool running=sim::stalled_until()<=sim::now_ns(); sim::sleep_ns(1500000000ull); quiet=running&&sim::total_stall_ns()==s0; } // injected stalls do not count as idle time
        if(!quiet) continue;
        const size_t ahead=std::min<size_t>(fit-2,L.src.count>cur?L.src.count-cur:0); sim::logf("idle at %zu, expecting %zu ready",cur,ahead);
        std::vector<bool> loaded(L.src.count+8,false); { sim::Quiet q; for(auto& c:L.calls) if(c.t1&&c.idx<loaded.size()) loaded[c.idx]=true; }
        size_t base; { sim::Quiet q; base=L.calls.size(); }
        for(size_t k=0;k<ahead;k++){ size_t i=cur++; size_t n0; { sim::Quiet q; n0=L.calls.size(); } const cv::Mat& m=p.getPacket(i); std::string why; if(!L.src.same(m,i,why)) sim::violation("wrong-packet","packet %zu: %s",i,why.c_str());
            sim::Quiet q; for(size_t c=n0;c<L.calls.size();c++) if(L.calls[c].idx==i) sim::violation("not-prefetched","packet %zu loaded on demand although the reader had been idle (%zu packets fit the buffer)",i,fit); for(size_t c=base;c<L.calls.size();c++) if(L.calls[c].idx==i) sim::violation("not-prefetched","packet %zu loaded only after the idle period",i); }
    }
}
// =====================================================================================================
// P04..P06
// =====================================================================================================
namespace {
struct Ver { int id; size_t idx,bytes; uint64_t q0=0,q1=0,w0=0,w1=0; int prod; int writes=0; bool accepted=false,failed=false,dropped=false,direct=false; };
struct WOracle {
    std::vector<Ver> v; std::map<size_t,int> writing,ownwriting; std::set<int> incall; bool stopped=false; int maxw=0,nw=0; size_t limit=0; bool canfail=false; bool delays=true; std::vector<int> thrown; Gate* gate=nullptr; int atgate=0,tokens=0; bool gated=false; void release(){ { sim::Quiet q; ++tokens; } gate->notify(); }
    int add(size_t idx,size_t bytes,int prod){ sim::Quiet q; Ver r; r.id=(int)v.size(); r.idx=idx; r.bytes=bytes; r.prod=prod; r.q0=sim::seq(); v.push_back(r); return r.id; }
    static void fill(cv::Mat& m,int id,size_t idx){ sim::Quiet q; size_t n=m.total()*m.elemSize(); for(size_t k=0;k<n;k++) m.data[k]=(uint8_t)(mix((uint32_t)(id*7919+k*13+idx))>>3); if(n>=8){ uint32_t a=(uint32_t)id,b=(uint32_t)idx; memcpy(m.data,&a,4); memcpy(m.data+4,&b,4); } }
    int identify(const cv::Mat& m,size_t idx,const char* when){ size_t n=m.total()*m.elemSize(); if(n<8) sim::violation("packet-changed","packet of %zu bytes handed over for index %zu",n,idx); sim::touch(m.data,n,false); sim::Quiet q; uint32_t a,b; memcpy(&a,m.data,4); memcpy(&b,m.data+4,4);
        if(a>=v.size()||b!=idx||v[a].idx!=idx||v[a].bytes!=n) sim::violation("packet-changed","content handed over for index %zu %s is not that of any packet queued for it",idx,when);
        for(size_t k=8;k<n;k++) if(m.data[k]!=(uint8_t)(mix((uint32_t)(a*7919+k*13+idx))>>3)) sim::violation("packet-changed","packet #%u for index %zu changed %s (byte %zu of %zu)",a,idx,when,k,n); return (int)a; }
    size_t operator()(const cv::Mat& m,size_t idx){
        int id=identify(m,idx,"when written"); bool fail=false;
        { sim::Quiet q; Ver& r=v[id]; sim::logf("t%d writes #%d (index %zu)",sim::tid(),id,idx); SIM_CHECK(++r.writes==1,"written-twice","packet #%d (index %zu) written %d times",id,idx,r.writes); SIM_CHECK(!stopped||r.direct,"write-after-stop","packet #%d written after stopping returned",id);
          bool own=incall.count(sim::tid())!=0; ++writing[idx]; if(own) ++ownwriting[idx]; SIM_CHECK(writing[idx]==1||ownwriting[idx]==writing[idx],"overlapping-writes","two writes of index %zu at once",idx); r.w0=sim::seq(); if(++nw>maxw) maxw=nw; 
          for(auto& o:v) if(o.idx==idx&&o.id!=id&&o.accepted&&o.writes&&o.q0>r.q1&&r.q1) sim::violation("stale-write","index %zu: packet #%d written after the newer #%d",idx,id,o.id); }
        if(gate){ bool g; { sim::Quiet q; g=gated; if(g) ++atgate; } if(g) for(;;){ { sim::Quiet q; if(tokens>0||!gated){ if(tokens>0) --tokens; --atgate; break; } } gate->wait(); } }

        if(delays){ uint64_t d=sim::delay_choice(); if(d) sim::sleep_ns(d); else if(sim::gen_rare(2,1,3)) sim::yield_point(); else sim::step_point(); }
        if(canfail) fail=sim::fault();
        int id2=identify(m,idx,"while being written"); (void)id2;
        { sim::Quiet q; Ver& r=v[id]; r.w1=sim::seq(); --writing[idx]; if(incall.count(sim::tid())) --ownwriting[idx]; --nw; if(fail){ r.failed=true; thrown.push_back(id); sim::logf("write of #%d fails",id); } } if(fail) raise_failure(id); return 0; }
    void finish(const char* when){ sim::Quiet q; std::map<size_t,std::vector<Ver*>> by; for(auto& r:v) if(r.accepted) by[r.idx].push_back(&r);
        for(auto& r:v){ if(r.dropped) SIM_CHECK(r.writes==0,"dropped-written","packet #%d was reported as dropped but written",r.id); if(r.writes) SIM_CHECK(r.w1!=0,"not-drained","packet #%d still being written %s",r.id,when); }
        for(auto& e:by) for(Ver* r:e.second) if(!r->writes){ bool repl=false; for(Ver* o:e.second) if(o!=r&&o->q1>r->q0) repl=true; SIM_CHECK(repl,"packet-lost","packet #%d (index %zu) accepted but not written %s",r->id,r->idx,when);
                bool later=false; for(Ver* o:e.second) if(o!=r&&o->q1>r->q0&&o->writes) later=true; SIM_CHECK(later,"packet-lost","index %zu: neither packet #%d nor a newer one written %s",r->idx,r->id,when); }
        // the last written version of an index is not older than another accepted one
        for(auto& e:by){ Ver* last=nullptr; for(Ver* r:e.second) if(r->writes&&(!last||r->w0>last->w0)) last=r; if(last) for(Ver* o:e.second) if(o!=last&&o->q0>last->q1) sim::violation("stale-write","index %zu: #%d is the last one written but #%d was queued after it",e.first,last->id,o->id); } }
};
cv::Mat wmat(size_t bytes){ cv::Mat m; int t=(int)(bytes%3); if(t==0&&bytes%4==0) m.create(1,(int)(bytes/4),CV_32FC1); else if(t==1) m.create((int)bytes,1,CV_8UC1); else m.create(1,(int)bytes,CV_8UC1); return m; }
size_t queue_one(lv::DataWriter& w,WOracle& o,size_t idx,size_t bytes,int prod,cv::Mat& reuse,bool direct=false){
    int id=o.add(idx,bytes,prod); { sim::Quiet q; o.v[id].direct=direct; } cv::Mat m; if(reuse.total()*reuse.elemSize()==bytes&&!reuse.empty()) m=reuse; else reuse=m=wmat(bytes); 
    sim::touch(m.data,bytes,true); WOracle::fill(m,id,idx); 
    { sim::Quiet q; o.incall.insert(sim::tid()); } size_t pos=w.queue(m,idx); { sim::Quiet q; o.incall.erase(sim::tid()); o.v[id].q1=sim::seq(); if(pos==SIZE_MAX) o.v[id].dropped=true; else o.v[id].accepted=true; sim::logf("t%d queued #%d (index %zu, %zu bytes) -> %zd",sim::tid(),id,idx,bytes,(ssize_t)pos); }
    sim::touch(m.data,bytes,true); { sim::Quiet q; memset(m.data,0xEE,bytes); } // the caller recycles its buffer
    return pos; }
void writer_run(bool stop_race,bool dup){
    sim::enable(sim::K_SPURIOUS,0.2); sim::enable(sim::K_USERDELAY,0.4); WOracle o; const size_t unit=sim::gen_rare(2,1,6)?500+sim::gen(8)*500:16+sim::gen(4)*16; /* large packets must be copied, too */ set_min(unit*(1+sim::gen(6))); const int P=1+(int)sim::gen(3),W=1+(int)sim::gen(3),per=1+(int)sim::gen(7);
    std::unique_ptr<lv::DataWriter> w(new lv::DataWriter(std::ref(o))); const int sessions=stop_race?1:1+(int)sim::gen_rare(3,1,3);
    for(int s=0;s<sessions;s++){ { sim::Quiet q; o.stopped=false; }
        SIM_CHECK(w->startAsyncWriting(1,false,W),"start-refused","startAsyncWriting returned false"); std::atomic<int> done{0};
        auto prod=[&](int p){ cv::Mat buf; for(int k=0;k<per;k++){ size_t idx=dup?sim::gen(3):(size_t)((s*10+p)*100+k)*7%1000; size_t pos=queue_one(*w,o,idx,8+sim::gen((uint32_t)unit-7),p,buf,stop_race); SIM_CHECK(pos!=SIZE_MAX,"dropped-without-permission","packet dropped although dropping is off"); if(sim::gen_rare(2,1,3)) sim::sleep_ns(sim::gen(3)*500000ull); } ++done; };
        std::vector<std::thread> th; for(int p=1;p<P+(stop_race?1:0);p++) th.emplace_back(prod,p); if(!stop_race) prod(0);
        if(stop_race){ sim::probe("stop-while-queuing"); if(sim::gen_bool()) sim::sleep_ns(sim::gen(4)*400000ull); else for(uint32_t y=sim::gen(6);y>0;y--) sim::yield_point(); w->stopAsyncWriting(); for(auto& t:th) t.join(); }
        else { for(auto& t:th) t.join(); if(sim::gen_rare(3,1,4)==2&&s==sessions-1){ sim::probe("destroy-while-active"); w.reset(); } else w->stopAsyncWriting(); }
        { sim::Quiet q; o.stopped=true; } o.finish("when stopping returned"); SIM_CHECK(o.maxw<=W+(stop_race?P+1:0),"too-many-writers","%d writes at once with %d threads",o.maxw,W);
        if(o.maxw>1) sim::probe("parallel-writes"); if(!w) break; SIM_CHECK(w->getCurrentQueueCount()==0&&w->getCurrentQueueSize()==0,"counters","queue count %zu / size %zu after stopping",w->getCurrentQueueCount(),w->getCurrentQueueSize());
        if(sim::gen_bool()){ cv::Mat b; queue_one(*w,o,5,20,9,b,true); Ver& r=o.v.back(); SIM_CHECK(r.writes==1&&r.w1,"packet-lost","synchronous write did not happen"); } }
    w.reset(); SIM_CHECK(sim::alive_threads()==1,"thread-left","writer threads left");
}
}
SIM_HARNESS_W("P04",writer_distinct,2){ writer_run(false,false); }
SIM_HARNESS_W("P04",writer_requeue,4){ writer_run(false,true); }
SIM_HARNESS_W("P04",writer_stop_race,2){ writer_run(true,true); }
SIM_HARNESS("P04",writer_stop_race_distinct){ writer_run(true,false); }
// ---------------------------------------------------------------------------------------------- P05
// exact model: the archiving callback is held at a gate, so that the state of the queue is known
SIM_HARNESS_W("P05",writer_gated,4){
    sim::enable(sim::K_SPURIOUS,0.2); Gate gate; WOracle o; o.gate=&gate; o.gated=true; o.delays=false; const size_t unit=16+sim::gen(4)*16; set_min(unit*(1+sim::gen(5))+sim::gen(9)); const int W=1+(int)sim::gen(3); const bool drop=sim::gen_rare(2,3,4);
    lv::DataWriter w{std::ref(o)}; size_t sug=sim::gen_bool()?1:sim_cache_min_value+sim::gen(64); w.startAsyncWriting(sug,drop,W); const size_t lim=w.getMaxQueueSize(); SIM_CHECK(lim>=std::max(sug,sim_cache_min_value)&&lim<=std::max(sug,sim_cache_min_value),"limit","queue limit %zu for a suggestion of %zu",lim,sug);
    std::map<size_t,size_t> pend; std::map<size_t,size_t> fly; size_t held=0; cv::Mat buf; int ops=4+(int)sim::gen(12);
    auto settle=[&]{ // wait until every worker that can is at the gate: then what is in flight is known
        for(int k=0;k<2000;k++){ bool ok; { sim::Quiet q; size_t elig=0; for(auto& e:pend) if(!fly.count(e.first)) ++elig; size_t now=0; for(auto& e:o.writing) now+=e.second; (void)elig; 
                // recompute in flight from the oracle
                std::map<size_t,size_t> f; for(auto& r:o.v) if(r.accepted&&r.writes&&!r.w1) f[r.idx]=r.bytes; size_t left=0; for(auto& r:o.v) if(r.accepted&&!r.writes){ bool repl=false; for(auto& x:o.v) if(x.accepted&&x.idx==r.idx&&x.id>r.id) repl=true; if(!repl&&!f.count(r.idx)) ++left; }
                ok=o.tokens==0&&o.atgate==(int)f.size()&&(left==0||(int)f.size()==W); if(ok){ fly=f; pend.clear(); for(auto& r:o.v) if(r.accepted&&!r.writes){ bool repl=false; for(auto& x:o.v) if(x.accepted&&x.idx==r.idx&&x.id>r.id) repl=true; if(!repl) pend[r.idx]=r.bytes; } held=0; for(auto& e:fly) held+=e.second; for(auto& e:pend) held+=e.second; } }
            if(ok){ for(int y=0;y<6;y++) sim::yield_point(); return; } sim::sleep_ns(200000+sim::total_stall_ns()/100); }
        sim::violation("no-pickup","a pending packet was not picked up by a free writer thread"); };
    auto settled_counts=[&](const char* when){ size_t c=0,s=0; for(int k=0;k<200;k++){ c=w.getCurrentQueueCount(); s=w.getCurrentQueueSize(); if(c==pend.size()+fly.size()&&s==held) return; sim::sleep_ns(100000+sim::total_stall_ns()/100); } sim::violation("counters","%s: queue reports %zu packets / %zu bytes, %zu / %zu not yet written",when,c,s,pend.size()+fly.size(),held); };
    for(int k=0;k<ops;k++){ uint32_t op=sim::gen(6);
        if(op==1&&!fly.empty()){ size_t n; { sim::Quiet q; n=0; for(auto& r:o.v) n+=r.w1!=0; } o.release(); for(;;){ size_t m=0; { sim::Quiet q; for(auto& r:o.v) m+=r.w1!=0; } if(m>n) break; sim::sleep_ns(100000); } settle(); settled_counts("after a write"); continue; }
        size_t idx=sim::gen(5), bytes=8+sim::gen((uint32_t)unit-7); if(sim::gen_rare(2,1,8)) bytes=lim+1+sim::gen(10); settle();
        if(bytes>lim){ sim::probe("too-large"); cv::Mat b=wmat(bytes); bool thrown=false; try{ w.queue(b,idx); }catch(const lv::Exception&){ thrown=true; } SIM_CHECK(thrown,"too-large-accepted","packet of %zu bytes accepted with a limit of %zu",bytes,lim); settled_counts("after refusing a packet"); continue; }
        size_t old=pend.count(idx)?pend[idx]:0; bool fits=held+bytes-old<=lim; 
        cv::Mat probe_m=wmat(bytes); bool chk=w.queue_check(probe_m,idx); if(drop) SIM_CHECK(chk==fits,"queue-check","queue_check says %d for %zu bytes with %zu of %zu held",chk,bytes,held,lim); else SIM_CHECK(chk,"queue-check","queue_check predicts a drop although dropping is off");
        if(!fits&&!drop){ // must block until room is made
            sim::probe("producer-blocks"); bool back=false; size_t pos=0; std::thread t([&]{ cv::Mat b2; pos=queue_one(w,o,idx,bytes,1,b2); sim::Quiet q; back=true; });
            sim::sleep_ns(2000000+sim::total_stall_ns()/50); for(int y=0;y<10;y++) sim::yield_point(); { sim::Quiet q; SIM_CHECK(!back,"limit","packet of %zu bytes accepted with %zu of %zu held",bytes,held,lim); }
            while(true){ { sim::Quiet q; if(back) break; } bool some; { sim::Quiet q; some=o.atgate>0&&o.tokens==0; } if(some) o.release(); sim::sleep_ns(1000000+sim::total_stall_ns()/50); } t.join(); SIM_CHECK(pos!=SIZE_MAX,"dropped-without-permission","dropped although dropping is off");
            // surplus notifications may have been given: bring the gate back to zero
            { sim::Quiet q; o.tokens=0; } settle(); settled_counts("after blocking"); continue; }
        size_t pos=queue_one(w,o,idx,bytes,0,buf);
        if(fits) SIM_CHECK(pos!=SIZE_MAX,"dropped-with-room","packet of %zu bytes dropped with %zu of %zu held (index pending: %zu bytes)",bytes,held,lim,old); else { sim::probe("dropped"); SIM_CHECK(pos==SIZE_MAX,"limit","packet of %zu bytes accepted with %zu of %zu held",bytes,held,lim); }
        settle(); settled_counts("after queuing"); SIM_CHECK(w.getCurrentQueueSize()<=lim,"limit","queue size %zu above the limit %zu",w.getCurrentQueueSize(),lim);
    }
    { sim::Quiet q; o.gated=false; } for(int i=0;i<64;i++) gate.notify(); w.stopAsyncWriting(); { sim::Quiet q; o.stopped=true; } o.finish("when stopping returned"); SIM_CHECK(w.getCurrentQueueCount()==0&&w.getCurrentQueueSize()==0,"counters","queue count %zu / size %zu after stopping",w.getCurrentQueueCount(),w.getCurrentQueueSize());
}
// several blocked producers: each goes on as soon as its own packet fits, whoever else still has to wait
SIM_HARNESS_W("P05",writer_waiters,2){
    sim::enable(sim::K_SPURIOUS,0.1); Gate gate; WOracle o; o.gate=&gate; o.gated=true; o.delays=false; const size_t u=16+sim::gen(3)*8; set_min(u*4); lv::DataWriter w{std::ref(o)}; const int W=1; w.startAsyncWriting(1,false,W); const size_t lim=w.getMaxQueueSize(); SIM_CHECK(lim==u*4,"limit","queue limit %zu, expected %zu",lim,u*4);
    cv::Mat buf; queue_one(w,o,1,u,0,buf); auto until=[&](std::function<bool()> f){ for(int k=0;k<3000;k++){ { sim::Quiet q; if(f()) return true; } sim::sleep_ns(200000+sim::total_stall_ns()/100); } return false; }; SIM_CHECK(until([&]{ return o.atgate==1; }),"no-pickup","a pending packet was not picked up by a free writer thread");
    queue_one(w,o,2,2*u+sim::gen((uint32_t)u/2),0,buf); queue_one(w,o,3,u/2,0,buf); // full but for less than u/2: small packets (u/2..u) fit once the first one is written, large ones (2u..) do not
    const int nl=1+(int)sim::gen(2),ns=1; std::vector<char> back(nl+ns,0); std::vector<std::thread> th; int first=(int)sim::gen(2); for(int k=0;k<nl+ns;k++){ bool small=first?k==0:k==nl+ns-1; int slot=small?0:1+(first?k-1:k); th.emplace_back([&,small,slot]{ cv::Mat b; size_t pos=queue_one(w,o,10+slot,small?u/2+1+sim::gen((uint32_t)u/2):2*u+u/2+sim::gen((uint32_t)u),1+slot,b); SIM_CHECK(pos!=SIZE_MAX,"dropped-without-permission","dropped although dropping is off"); sim::Quiet q; back[slot]=1; }); if(sim::gen_rare(2,3,4)==0) sim::sleep_ns(3000000+sim::total_stall_ns()/50); }
    sim::sleep_ns(3000000+sim::total_stall_ns()/50); for(int y=0;y<10;y++) sim::yield_point(); { sim::Quiet q; for(char b:back) SIM_CHECK(!b,"limit","a packet was accepted by a full queue"); }
    o.release(); SIM_CHECK(until([&]{ return back[0]!=0; }),"blocked-with-room","a producer whose packet fits stays blocked (a producer with a larger packet waits as well)"); { sim::Quiet q; for(size_t k=1;k<back.size();k++) SIM_CHECK(!back[k],"limit","a packet was accepted by a full queue"); } sim::probe("small-overtakes");
    if(sim::gen_bool()){ { sim::Quiet q; o.gated=false; } for(int i=0;i<64;i++) gate.notify(); for(auto& t:th) t.join(); } else { // stopping lets every blocked producer go on
        { sim::Quiet q; for(auto& r:o.v) if(!r.q1) r.direct=true; } std::thread st([&]{ w.stopAsyncWriting(); }); sim::sleep_ns(1000000); { sim::Quiet q; o.gated=false; } for(int i=0;i<64;i++) gate.notify(); for(auto& t:th) t.join(); st.join(); sim::probe("stop-with-blocked"); }
    w.stopAsyncWriting(); o.finish("when stopping returned"); SIM_CHECK(w.getCurrentQueueCount()==0&&w.getCurrentQueueSize()==0,"counters","queue count %zu / size %zu after stopping",w.getCurrentQueueCount(),w.getCurrentQueueSize());
}
// free running: bounds that hold at every moment
SIM_HARNESS_W("P05",writer_limit,4){
    sim::enable(sim::K_SPURIOUS,0.2); sim::enable(sim::K_USERDELAY,0.4); WOracle o; const size_t unit=16+sim::gen(4)*16; set_min(unit*(1+sim::gen(4))); const int P=1+(int)sim::gen(3),W=1+(int)sim::gen(3),per=2+(int)sim::gen(7); const bool drop=sim::gen_bool(),dup=sim::gen_rare(2,1,3);
    lv::DataWriter w{std::ref(o)}; w.startAsyncWriting(1,drop,W); const size_t lim=w.getMaxQueueSize(); bool stop=false;
    auto held_low=[&]{ size_t h=0; for(auto& r:o.v) if(r.accepted&&!r.w1){ bool repl=false; for(auto& x:o.v) if(x.id!=r.id&&x.idx==r.idx&&(!x.q1||x.q1>r.q0)) repl=true; if(!(repl&&!r.writes)) h+=r.bytes; } return h; };
    std::thread mon([&]{ for(;;){ { sim::Quiet q; if(stop) break; } size_t s=w.getCurrentQueueSize(); SIM_CHECK(s<=lim,"limit","queue size %zu above the limit %zu",s,lim); size_t c=w.getCurrentQueueCount(); { sim::Quiet q; SIM_CHECK(c<=o.v.size(),"counters","queue count %zu with %zu packets ever queued",c,o.v.size()); } sim::sleep_ns(150000); } });
    auto prod=[&](int p){ cv::Mat buf; for(int k=0;k<per;k++){ size_t idx=dup?sim::gen(4):(size_t)(p*100+k); size_t bytes=8+sim::gen((uint32_t)unit-7); size_t pos=queue_one(w,o,idx,bytes,p,buf); { sim::Quiet q; if(pos==SIZE_MAX){ sim::probe("dropped"); SIM_CHECK(drop,"dropped-without-permission","dropped although dropping is off");
                // even with everything ever accepted and not known to be written, there was room
                size_t up=bytes; for(auto& r:o.v) if(!r.dropped&&r.q0&&(r.accepted||!r.q1)) up+=r.bytes; if(up<=lim&&!dup) sim::violation("dropped-with-room","packet dropped although all packets together need %zu of %zu bytes",up,lim); }
            size_t h=held_low(); SIM_CHECK(h<=lim,"limit","%zu bytes accepted and unwritten with a limit of %zu",h,lim); } if(sim::gen_rare(2,1,3)) sim::sleep_ns(sim::gen(3)*400000ull); } };
    std::vector<std::thread> th; for(int p=1;p<P;p++) th.emplace_back(prod,p); prod(0); for(auto& t:th) t.join();
    if(sim::gen_bool()){ // quiescent: everything written, counters at zero without stopping
        bool ok=false; for(int k=0;k<3000&&!ok;k++){ sim::sleep_ns(30000000+sim::total_stall_ns()/100); ok=w.getCurrentQueueCount()==0&&w.getCurrentQueueSize()==0; } SIM_CHECK(ok,"counters","queue count %zu / size %zu long after the last packet",w.getCurrentQueueCount(),w.getCurrentQueueSize()); o.finish("although the queue is reported empty"); }
    w.stopAsyncWriting(); { sim::Quiet q; stop=true; o.stopped=true; } mon.join(); o.finish("when stopping returned"); SIM_CHECK(w.getCurrentQueueCount()==0&&w.getCurrentQueueSize()==0,"counters","queue count %zu / size %zu after stopping",w.getCurrentQueueCount(),w.getCurrentQueueSize());
}
// ---------------------------------------------------------------------------------------------- P06
namespace {
void wfail_run(bool mem){
    sim::enable(sim::K_SPURIOUS,0.2); sim::enable(sim::K_USERDELAY,0.3); sim::enable(sim::K_USERFAULT,0.5); sim::enable(sim::K_THREADFAIL,0.4); if(mem) sim::enable(sim::K_MALLOCFAIL,0.15);
    WOracle o; o.canfail=true; const size_t unit=16+sim::gen(4)*16; set_min(unit*(1+sim::gen(5))); const int P=1+(int)sim::gen(2),per=1+(int)sim::gen(6); std::unique_ptr<lv::DataWriter> w(new lv::DataWriter(std::ref(o))); const int sessions=1+(int)sim::gen(3); size_t raised=0; bool rejected=false; (void)rejected;
    for(int s=0;s<sessions;s++){ { sim::Quiet q; o.stopped=false; } const int W=1+(int)sim::gen(3); bool act=false; const uint64_t tf0=sim::fired(sim::K_THREADFAIL);
        try{ sim::ThreadFaults tf; if(mem){ sim::MallocFaults mf; norm([&]{ act=w->startAsyncWriting(1,false,W); }); } else norm([&]{ act=w->startAsyncWriting(1,false,W); }); SIM_CHECK(act&&w->isActive(),"start-refused","start returned without writing"); SIM_CHECK(sim::fired(sim::K_THREADFAIL)==tf0,"failure-absorbed","start reported success although a writer thread could not be created"); }
        catch(const std::system_error&){ sim::probe("thread-refused"); SIM_CHECK(sim::fired(sim::K_THREADFAIL)>0,"unexpected-exception","thread failure without a fault"); SIM_CHECK(!w->isActive(),"still-active","writer active although its threads could not be started"); SIM_CHECK(sim::alive_threads()==1,"thread-left","threads left after a failed start"); }
        catch(const std::bad_alloc&){ SIM_CHECK(sim::fired(sim::K_MALLOCFAIL)>0,"unexpected-exception","no memory without a fault"); SIM_CHECK(sim::alive_threads()==1||w->isActive(),"thread-left","threads left after a failed start"); if(w->isActive()) w->stopAsyncWriting(); }
        catch(const Err& e){ sim::violation("failure-reported-twice","start raised failure of packet #%d again",e.id); }
        act=w->isActive(); size_t before; { sim::Quiet q; before=o.thrown.size(); } 
        auto prod=[&](int p){ cv::Mat buf; for(int k=0;k<per;k++){ size_t idx=(size_t)((s*4+p)*50+k)+1; size_t bytes=8+sim::gen((uint32_t)unit-7); int id=o.add(idx,bytes,p); { sim::Quiet q; o.v[id].direct=!act; } cv::Mat m=wmat(bytes); WOracle::fill(m,id,idx);
                try{ if(mem){ sim::MallocFaults mf; norm([&]{ w->queue(m,idx); }); } else norm([&]{ w->queue(m,idx); }); sim::Quiet q; o.v[id].accepted=true; o.v[id].q1=sim::seq(); }
                catch(const Err& e){ SIM_CHECK(!act&&e.id==id,"unexpected-exception","queue raised the failure of packet #%d",e.id); sim::Quiet q; ++before; o.v[id].q1=sim::seq(); }
                catch(const std::bad_alloc&){ sim::probe("queue-no-memory"); sim::Quiet q; o.v[id].q1=sim::seq(); SIM_CHECK(mem,"unexpected-exception","queue ran out of memory"); }
                catch(const cv::Exception& e){ sim::probe("queue-no-memory"); sim::Quiet q; o.v[id].q1=sim::seq(); SIM_CHECK(mem&&e.code==cv::Error::StsNoMem,"unexpected-exception","queue raised %s",e.what()); }
                { sim::Quiet q; memset(m.data,0xEE,bytes); } if(sim::gen_rare(2,1,3)) sim::sleep_ns(sim::gen(3)*400000ull); } };
        std::vector<std::thread> th; for(int p=1;p<P;p++) th.emplace_back(prod,p); prod(0); for(auto& t:th) t.join();
        if(sim::gen_rare(2,1,6)){ sim::probe("destroy-with-failures"); w.reset(); { sim::Quiet q; o.stopped=true; } o.finish("when destruction returned"); break; }
        bool got=false; try{ norm([&]{ w->stopAsyncWriting(); }); }catch(const Err& e){ got=true; sim::Quiet q; bool mine=false; for(size_t k=before;k<o.thrown.size();k++) mine|=o.thrown[k]==e.id; bool direct=o.v[e.id].direct; SIM_CHECK(mine&&!direct,"failure-reported-twice","stop raised a failure of an earlier session (packet #%d)",e.id); }
        catch(const std::exception& e){ sim::violation("unexpected-exception","stop raised %s",e.what()); }
        { sim::Quiet q; o.stopped=true; size_t n=0; for(size_t k=0;k<o.thrown.size();k++) if(!o.v[o.thrown[k]].direct) ++n; if(n>raised) SIM_CHECK(got,"failure-absorbed","%zu packets could not be written but stopping reported nothing",n-raised); else SIM_CHECK(!got,"failure-invented","stop raised an exception without a failure"); raised=n; if(got) sim::probe("failure-raised"); }
        SIM_CHECK(!w->isActive(),"still-active","writer active after stopping"); o.finish("when stopping returned"); SIM_CHECK(sim::alive_threads()==1,"thread-left","writer threads left after stopping"); SIM_CHECK(w->getCurrentQueueCount()==0&&w->getCurrentQueueSize()==0,"counters","queue count %zu / size %zu after stopping",w->getCurrentQueueCount(),w->getCurrentQueueSize());
        for(uint32_t r=sim::gen(3);r>0;r--) try{ norm([&]{ w->stopAsyncWriting(); }); }catch(...){ sim::violation("failure-reported-twice","repeated stop raised an exception again"); } }
    w.reset(); SIM_CHECK(sim::alive_threads()==1,"thread-left","writer threads left");
}
}
// many failures while the writer threads themselves run out of memory: whatever cannot be written is reported when stopping, in the caller
SIM_HARNESS_W("P06",writer_threads_no_memory,2){
    sim::enable(sim::K_SPURIOUS,0.1); const bool always=sim::gen_bool(); const double pm=sim::gen_bool()?0.5:0.1; sim::enable(sim::K_MALLOCFAIL,pm); set_min(4096); const int W=1+(int)sim::gen(3),N=10+(int)sim::gen(70); std::map<size_t,int> done; size_t nfail=0; bool stopped=false;
    auto cb=[&](const cv::Mat& m,size_t idx)->size_t{ bool fail; { sim::Quiet q; SIM_CHECK(!stopped,"write-after-stop","packet %zu written after stopping returned",idx); SIM_CHECK(m.total()==16&&m.data[0]==(uint8_t)idx,"packet-changed","packet %zu changed",idx); SIM_CHECK(++done[idx]==1,"written-twice","packet %zu written twice",idx); fail=always||sim::gen_rare(2,1,2); if(fail) ++nfail; } sim::step_point(); if(fail){ sim::Quiet q; raise_failure((int)idx); } return 0; };
    lv::DataWriter w(cb); { sim::MallocFaults mf(true); bool ok=false; for(int k=0;k<50&&!ok;k++) try{ ok=w.startAsyncWriting(1,false,W); }catch(const std::bad_alloc&){ SIM_CHECK(!w.isActive()&&sim::alive_threads()==1,"thread-left","threads left after a failed start"); } if(!ok) return; }
    cv::Mat m(1,16,CV_8UC1); for(int k=0;k<N;k++){ { sim::Quiet q; memset(m.data,k,16); } w.queue(m,(size_t)k); if(sim::gen_rare(2,1,8)) sim::sleep_ns(100000); }
    bool got=false,nomem=false; try{ norm([&]{ w.stopAsyncWriting(); }); }catch(const Err&){ got=true; }catch(const std::bad_alloc&){ got=nomem=true; } stopped=true;
    { sim::Quiet q; const bool lost=done.size()<(size_t)N; SIM_CHECK(!(nfail||lost)||got,"failure-absorbed","%zu writes failed, %zu of %d packets written, but stopping reported nothing",nfail,done.size(),N); SIM_CHECK(!got||nfail||nomem,"failure-invented","stop raised an exception without a failure"); if(lost) SIM_CHECK(sim::fired(sim::K_MALLOCFAIL)>0,"packet-lost","%zu of %d packets written",done.size(),N); if(got) sim::probe("failure-raised"); }
    SIM_CHECK(sim::alive_threads()==1&&!w.isActive(),"thread-left","writer threads left"); SIM_CHECK(w.getCurrentQueueCount()==0&&w.getCurrentQueueSize()==0,"counters","queue count %zu / size %zu after stopping",w.getCurrentQueueCount(),w.getCurrentQueueSize());
    try{ w.stopAsyncWriting(); }catch(...){ sim::violation("failure-reported-twice","repeated stop raised an exception again"); }
}
SIM_HARNESS_W("P06",writer_fails,3){ wfail_run(false); }
SIM_HARNESS_W("P06",writer_no_memory,2){ wfail_run(true); }
