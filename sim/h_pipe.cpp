// P16, P17, P18: processing sessions, concurrent batch processing and the feature store of datasets on a simulated disk.
#include "sim.hpp"
#include "h_pipe.hpp"
#include "litiv/datasets.hpp"
#include <thread>
#include <map>
#include <set>
#include <array>
// ---- a dataset of image arrays (modelled on samples/datasets/src/middlebury2005.hpp) and one without evaluation
namespace lv {
static const DatasetList Dataset_SimArr=DatasetList(Dataset_Custom+1), Dataset_SimNone=DatasetList(Dataset_Custom+2);
template<> constexpr DatasetEvalList getDatasetEval<DatasetTask_EdgDet,Dataset_SimNone>(){ return DatasetEval_None; }
template<> constexpr DatasetSourceList getDatasetSource<DatasetTask_Cosegm,Dataset_SimArr>(){ return DatasetSource_ImageArray; }
template<DatasetTaskList eDatasetTask> struct DataProducer_<eDatasetTask,DatasetSource_ImageArray,Dataset_SimArr> : public IDataProducerWrapper_<eDatasetTask,DatasetSource_ImageArray,Dataset_SimArr> {
    virtual size_t getInputStreamCount() const override final { return 2; }
    virtual size_t getGTStreamCount() const override final { return 2; }
protected:
    virtual void parseData() override final {
        this->m_vvsInputPaths.clear(); this->m_vvsGTPaths.clear(); this->m_vvInputInfos.clear(); this->m_vvGTInfos.clear(); this->m_mGTIndexLUT.clear(); this->m_bIsInputInfoConst=this->m_bIsGTInfoConst=false;
        for(size_t i=0;;i++){ auto nm=[&](const char* k,int s){ return this->getDataPath()+k+std::to_string(i)+"_"+std::to_string(s)+".bmp"; }; if(!lv::checkIfExists(nm("in",0))) break;
            std::vector<std::string> ip{nm("in",0),nm("in",1)},gp{nm("gt",0),nm("gt",1)}; std::vector<lv::MatInfo> ii,gi; for(auto& p:ip){ cv::Mat m=cv::imread(p,cv::IMREAD_UNCHANGED); lvAssert(!m.empty()); ii.push_back(lv::MatInfo{m.size(),m.type()}); } for(auto& p:gp){ cv::Mat m=cv::imread(p,cv::IMREAD_UNCHANGED); lvAssert(!m.empty()); gi.push_back(lv::MatInfo{m.size(),m.type()}); }
            this->m_vvsInputPaths.push_back(ip); this->m_vvsGTPaths.push_back(gp); this->m_vvInputInfos.push_back(ii); this->m_vvGTInfos.push_back(gi); this->m_mGTIndexLUT[i]=i; }
        lvAssert(!this->m_vvsInputPaths.empty()); }
};
}
namespace {
typedef lv::Dataset_<lv::DatasetTask_EdgDet,lv::Dataset_Custom,lv::NonParallel> DsImg;
typedef lv::Dataset_<lv::DatasetTask_EdgDet,lv::Dataset_SimNone,lv::NonParallel> DsNone;
typedef lv::Dataset_<lv::DatasetTask_Segm,lv::Dataset_Custom,lv::NonParallel> DsVid;
typedef lv::Dataset_<lv::DatasetTask_Segm,lv::Dataset_CDnet,lv::NonParallel> DsCd;
typedef lv::Dataset_<lv::DatasetTask_Cosegm,lv::Dataset_SimArr,lv::NonParallel> DsCos;
typedef lv::Dataset_<lv::DatasetTask_StereoReg,lv::Dataset_SimArr,lv::NonParallel> DsSte;
typedef std::vector<std::string> VS; typedef std::vector<cv::Mat> VM;
void put_img(const std::string& p,int rows,int cols,int type,uint32_t salt,const std::vector<int>& vals={}){ sim::Quiet q; cv::Mat m(rows,cols,type); for(int y=0;y<rows;y++) for(int x=0;x<cols*m.channels();x++){ uint32_t v=hmix(salt*7919u+(uint32_t)(y*1031+x)); m.ptr(y)[x]=(uchar)(vals.empty()?v:vals[v%vals.size()]); } std::vector<uchar> b; cv::imencode(".bmp",m,b); sim::vfs::put(p,std::string((char*)b.data(),b.size())); }
uint64_t hash_mat(const cv::Mat& m){ if(m.empty()) return 1; uint64_t h=1469598103934665603ull; auto add=[&](const uchar* p,size_t n){ for(size_t i=0;i<n;i++) h=(h^p[i])*1099511628211ull; }; int t=m.type(); if(m.dims>2){ size_t n=m.total()*m.elemSize(); sim::touch(m.data,n,false); sim::Quiet q; add((uchar*)&t,4); for(int i=0;i<m.dims;i++){ int z=m.size[i]; add((uchar*)&z,4); } add(m.data,n); return h; } for(int y=0;y<m.rows;y++) sim::touch(m.ptr(y),m.cols*m.elemSize(),false); sim::Quiet q; add((uchar*)&t,4); add((uchar*)&m.rows,4); add((uchar*)&m.cols,4); for(int y=0;y<m.rows;y++) add(m.ptr(y),m.cols*m.elemSize()); return h; }
uint64_t hash_all(const VM& v){ uint64_t h=v.size()+17; for(auto& m:v) h=h*1000003u+hash_mat(m); return h; }
std::string num(const char* f,int a){ char b[64]; snprintf(b,sizeof b,f,a); return b; }
}
// ===================================================================================================== P16
namespace {
// State of one batch as seen by its control thread. Every operation appends the value a counter has once it took effect; an observer's
// result must be one of the values between the last operation completed before its call and the last one begun before its return.
struct Sess { uint64_t sb=0,se=0,eb=0,ee=0; size_t cnt=0; bool ended=false; };
struct Model { std::vector<size_t> cnt{0}; std::vector<int> act{0}; size_t done=0; std::vector<Sess> ss; size_t ended=0,started=0; std::set<size_t> cur; bool on=false; };
struct Snap { size_t op,ended,started; bool insess; uint64_t t; };
Snap snap(Model& m){ sim::Quiet q; Snap s; s.op=m.done; s.ended=m.ended; s.started=m.started; s.insess=m.on&&!m.ss.empty()&&!m.ss.back().eb; s.t=sim::now_ns(); return s; }
struct BatchIf { lv::IDataHandler* h; std::function<void()> start,stop; std::function<void(size_t)> push; };
void control(BatchIf& b,Model& m,int rounds,size_t npk){ auto begin=[&](size_t after,int act){ sim::Quiet q; m.cnt.push_back(after); m.act.push_back(act); }; auto end=[&]{ sim::Quiet q; m.done=m.cnt.size()-1; };
    auto start=[&]{ if(!m.on){ { sim::Quiet q; m.cur.clear(); begin(0,1); Sess s; s.sb=sim::now_ns(); m.ss.push_back(s); } b.start(); { sim::Quiet q; m.ss.back().se=sim::now_ns(); m.started=m.ss.size(); m.on=true; end(); } } else { b.start(); sim::probe("pipe:start-twice"); } };
    auto stop=[&]{ if(m.on){ { sim::Quiet q; begin(m.cur.size(),0); m.ss.back().eb=sim::now_ns(); m.ss.back().cnt=m.cur.size(); } b.stop(); { sim::Quiet q; m.ss.back().ee=sim::now_ns(); m.ss.back().ended=true; m.ended=m.ss.size(); m.on=false; end(); } } else { b.stop(); sim::probe("pipe:stop-twice"); } };
    for(int r=0;r<rounds;r++){ int pre=(int)sim::gen(3); if(pre==1){ begin(0,0); b.h->resetMetrics(); m.cur.clear(); end(); sim::probe("pipe:reset-outside"); } if(pre==2){ begin(m.cnt.back(),0); bool thr=false; try{ b.push(sim::gen((uint32_t)npk)); }catch(const std::exception&){ thr=true; } end(); SIM_CHECK(thr,"push-outside-session","an output pushed outside a processing session was accepted"); }
        if(sim::gen_rare(2,1,5)) stop(); start(); if(sim::gen_rare(2,1,5)) start(); int n=(int)sim::gen(5); for(int k=0;k<n;k++){ int o=(int)sim::gen(8); if(o==0) sim::sleep_ns(1000+sim::gen(1000000)); else if(o==1){ { sim::Quiet q; begin(0,1); m.cur.clear(); } b.h->resetMetrics(); end(); sim::probe("pipe:reset-inside"); } else { size_t i=sim::gen((uint32_t)npk); { sim::Quiet q; m.cur.insert(i); begin(m.cur.size(),1); } b.push(i); end(); } if(sim::gen_rare(2,1,4)){ size_t c=b.h->getCurrentOutputCount(); SIM_CHECK(c==m.cur.size(),"count-wrong","current output count is %zu after %zu distinct packets",c,m.cur.size()); } }
        stop(); size_t c=b.h->getFinalOutputCount(); SIM_CHECK(c==m.ss.back().cnt,"final-count-wrong","final output count of session %zu is %zu, %zu distinct packets were pushed",m.ss.size(),c,m.ss.back().cnt); double t=b.h->getFinalProcessTime(); const Sess& s=m.ss.back(); SIM_CHECK(t>=0&&t*1e9>=(double)(s.eb-s.se)-2&&t*1e9<=(double)(s.ee-s.sb)+2,"final-time-wrong","final time of session %zu is %.9f s, it lasted between %.9f and %.9f s",m.ss.size(),t,(s.eb-s.se)*1e-9,(s.ee-s.sb)*1e-9); sim::logf("t%d session %zu count %zu",sim::tid(),m.ss.size(),c); } }
bool final_ok(Model& m,const Snap& a,size_t v,double tv,bool time){ // allowed: a session that had begun to end when the call returned, and no older than the one current (or last) when it was made
    sim::Quiet q; size_t first=a.insess?a.started-1:(a.ended?a.ended-1:0); if(time&&a.started==0&&tv==0) return true; for(size_t i=first;i<m.ss.size();i++){ const Sess& s=m.ss[i]; if(!s.eb) continue; if(!time){ if(s.cnt==v) return true; } else { double lo=(double)(s.eb-s.se)-2,hi=(double)((s.ended?s.ee:sim::now_ns())-s.sb)+2; if(tv*1e9>=lo&&tv*1e9<=hi) return true; } } return false; }
void fin_range(Model& m,const Snap& a,size_t& lo,size_t& hi){ size_t first=a.insess?a.started-1:(a.ended?a.ended-1:0); lo=SIZE_MAX; hi=0; for(size_t i=first;i<m.ss.size();i++) if(m.ss[i].eb){ lo=std::min(lo,m.ss[i].cnt); hi=std::max(hi,m.ss[i].cnt); } }
void observe(std::vector<BatchIf>& bs,std::vector<Model>& ms,std::vector<std::pair<lv::IDataHandler*,std::vector<int>>>& groups,int n){ 
    for(int k=0;k<n;k++){ if(sim::gen_bool()) sim::sleep_ns(1+sim::gen(500000)); int what=(int)sim::gen(5);
        if(sim::gen_rare(2,1,3)){ auto& g=groups[sim::gen((uint32_t)groups.size())]; std::vector<Snap> a; for(int b:g.second) a.push_back(snap(ms[b])); size_t lo=0,hi=0; bool anyon=false,alloff=true;
            if(what<2){ size_t v=what==0?g.first->getCurrentOutputCount():g.first->getFinalOutputCount(); sim::Quiet q; for(size_t i=0;i<a.size();i++){ Model& m=ms[g.second[i]]; size_t l=SIZE_MAX,h=0; if(what==0) for(size_t j=a[i].op;j<m.cnt.size();j++){ l=std::min(l,m.cnt[j]); h=std::max(h,m.cnt[j]); } else fin_range(m,a[i],l,h); if(l==SIZE_MAX) sim::violation("final-early","final output count of a group returned before a session of each of its batches ended"); lo+=l; hi+=h; } SIM_CHECK(v>=lo&&v<=hi,what==0?"group-count-wrong":"group-final-wrong","%s output count of a group is %zu, its batches had %zu to %zu in total",what==0?"current":"final",v,lo,hi); sim::probe("pipe:group-observed"); }
            else if(what==2){ double t=g.first->getCurrentProcessTime(); SIM_CHECK(t>=0,"time-negative","current process time of a group is %f",t); }
            else if(what==3){ double t=g.first->getFinalProcessTime(); SIM_CHECK(t>=0,"time-negative","final process time of a group is %f",t); }
            else { bool v=g.first->isProcessing(); sim::Quiet q; for(size_t i=0;i<a.size();i++){ Model& m=ms[g.second[i]]; bool one=false,zero=false; for(size_t j=a[i].op;j<m.act.size();j++) (m.act[j]?one:zero)=true; anyon|=one; alloff&=zero; } SIM_CHECK(v?anyon:alloff,"group-processing-wrong","group reports processing=%d although no schedule of its batches allows it",v); }
            continue; }
        int bi=(int)sim::gen((uint32_t)bs.size()); BatchIf& b=bs[bi]; Model& m=ms[bi]; Snap a=snap(m);
        if(what==0){ size_t v=b.h->getCurrentOutputCount(); sim::Quiet q; bool ok=false; for(size_t j=a.op;j<m.cnt.size();j++) ok|=m.cnt[j]==v; SIM_CHECK(ok,"count-wrong","current output count is %zu, which the batch never had during the call (last completed value %zu)",v,m.cnt[a.op]); }
        else if(what==1){ size_t v=b.h->getFinalOutputCount(); SIM_CHECK(final_ok(m,a,v,0,false),m.ended||!m.ss.empty()?"final-count-wrong":"final-early","final output count returned %zu, which is not the count of a session ended since the call (%zu sessions, %zu ended)",v,m.ss.size(),m.ended); sim::probe(a.insess?"pipe:final-waited":"pipe:final-between"); }
        else if(what==2){ double t=b.h->getCurrentProcessTime(); sim::Quiet q; SIM_CHECK(t>=0,"time-negative","current process time is %f",t); uint64_t e=sim::now_ns(),s0=m.ss.empty()?e:m.ss[a.ended?a.ended-1:0].sb; SIM_CHECK(t*1e9<=(double)(e-s0)+2,"time-wrong","current process time is %.9f s, the session began at most %.9f s ago",t,(e-s0)*1e-9); if(m.ss.empty()) SIM_CHECK(t==0,"time-wrong","process time before the first session is %f",t);
            if(a.insess&&m.ss.size()==a.started&&!m.ss.back().eb) SIM_CHECK(t*1e9>=(double)(a.t-m.ss.back().se)-2,"time-wrong","current process time is %.9f s although the session began %.9f s before the call",t,(a.t-m.ss.back().se)*1e-9); }
        else if(what==3){ double t=b.h->getFinalProcessTime(); SIM_CHECK(t>=0,"time-negative","final process time is %f",t); SIM_CHECK(final_ok(m,a,0,t,true),"final-time-wrong","final process time returned %.9f s, which is not the duration of a session ended since the call",t); sim::probe("pipe:final-time"); }
        else { bool v=b.h->isProcessing(); sim::Quiet q; bool ok=false; for(size_t j=a.op;j<m.act.size();j++) ok|=(bool)m.act[j]==v; SIM_CHECK(ok,"processing-wrong","isProcessing returned %d, which was not the case at any time during the call",v); } } }
inline void push_empty(DsNone::WorkBatch& b,size_t i){ b.push(i); }
inline void push_empty(DsImg::WorkBatch& b,size_t i){ b.push(cv::Mat(),i); }
inline void push_empty(DsCos::WorkBatch& b,size_t i){ b.push(VM(),i); }
template<class DS> void sessions(std::shared_ptr<DS> ds){ std::vector<BatchIf> bs; std::vector<std::pair<lv::IDataHandler*,std::vector<int>>> groups; std::map<lv::IDataHandler*,int> idx;
    auto v=ds->getBatches(false); for(auto& p:v){ auto* w=dynamic_cast<typename DS::WorkBatch*>(p.get()); BatchIf b; b.h=p.get(); b.start=[w]{ w->startProcessing(); }; b.stop=[w]{ w->stopProcessing(); }; b.push=[w](size_t i){ push_empty(*w,i); }; idx[p.get()]=(int)bs.size(); bs.push_back(b); }
    std::function<std::vector<int>(lv::IDataHandler*)> leaves=[&](lv::IDataHandler* h){ std::vector<int> r; for(auto& p:h->getBatches(false)) r.push_back(idx[p.get()]); return r; }; groups.push_back({ds.get(),leaves(ds.get())}); for(auto& g:ds->getBatches(true)) groups.push_back({g.get(),leaves(g.get())});
    std::vector<Model> ms(bs.size()); int outer=1+(int)sim::gen_rare(2,1,3); for(int o=0;o<outer;o++){ if(o&&sim::gen_bool()){ ds->resetMetrics(); for(auto& m:ms){ m.cnt.push_back(0); m.act.push_back(0); m.done=m.cnt.size()-1; m.cur.clear(); } }
        std::vector<std::thread> th; int nobs=(int)sim::gen(4); for(int t=0;t<nobs;t++) th.emplace_back([&]{ observe(bs,ms,groups,2+(int)sim::gen(4)); }); for(size_t b=0;b<bs.size();b++) th.emplace_back([&,b]{ control(bs[b],ms[b],1+(int)sim::gen(3),1+sim::gen(4)); }); for(auto& t:th) t.join();
        for(auto& g:groups){ size_t c=0,f=0; double t=0,tf=0; for(int b:g.second){ c+=ms[b].cur.size(); f+=ms[b].ss.back().cnt; t+=bs[b].h->getCurrentProcessTime(); tf+=bs[b].h->getFinalProcessTime(); } SIM_CHECK(g.first->getCurrentOutputCount()==c,"group-count-wrong","group count %zu, batches have %zu",g.first->getCurrentOutputCount(),c); SIM_CHECK(g.first->getFinalOutputCount()==f,"group-final-wrong","final group count %zu, batches have %zu",g.first->getFinalOutputCount(),f); double x=g.first->getFinalProcessTime(),y=g.first->getCurrentProcessTime(); SIM_CHECK(std::abs(x-tf)<1e-6&&std::abs(y-t)<1e-6&&std::abs(tf-t)<1e-6,"group-time-wrong","group time %.9f/%.9f, batches have %.9f/%.9f",y,x,t,tf); SIM_CHECK(!g.first->isProcessing(),"group-processing-wrong","group still processing"); } } }
VS make_dirs(int ng,int nb,bool bare0,std::function<void(const std::string&,int)> fill){ VS g; int k=0; for(int i=0;i<ng;i++){ std::string n=num("g%d",i); g.push_back(n); if(bare0&&i==0) fill("/simfs/data/ds/"+n+"/",k++); else for(int j=0;j<nb;j++) fill("/simfs/data/ds/"+n+"/"+num("b%d",j)+"/",k++); } return g; }
}
SIM_HARNESS("P16",p16_sessions){ sim::enable(sim::K_CLOCKJUMP,0.1); sim::enable(sim::K_SPURIOUS,0.02); bool bare=sim::gen_rare(2,1,3); int ng=1+(int)sim::gen(2),nb=1+(int)sim::gen_rare(2,1,2),kind=(int)sim::gen(3);
    VS g=make_dirs(ng,nb,bare,[&](const std::string& d,int k){ if(kind==2) for(int s=0;s<2;s++){ put_img(d+num("in0_%d.bmp",s),2,3,CV_8UC3,k); put_img(d+num("gt0_%d.bmp",s),2,3,CV_8UC1,k); } else put_img(d+"a.bmp",2,3,CV_8UC3,k); });
    if(kind==0) sessions<DsImg>(DsImg::create("ds","/simfs/data/ds/","/simfs/out/",g,VS(),false,false)); else if(kind==1) sessions<DsNone>(DsNone::create("ds","/simfs/data/ds/","/simfs/out/",g,VS(),false,false)); else sessions<DsCos>(DsCos::create("ds","/simfs/data/ds/","/simfs/out/",g,VS(),false,false)); }
// ===================================================================================================== P17
namespace {
struct Rec { std::vector<uint64_t> in,gt; std::set<size_t> acked; bool failed=false; size_t cnt=0; std::string err; };
struct Cfg { int workers=0; bool pre=false,inonly=true; size_t buf=SIZE_MAX; int failb=-1,failat=0,mode=0; };
template<class B> std::enable_if_t<std::is_base_of<lv::IDataLoader_<lv::Array>,B>::value,VM> get_in(B& b,size_t i){ return b.getInputArray(i); }
template<class B> std::enable_if_t<!std::is_base_of<lv::IDataLoader_<lv::Array>,B>::value,VM> get_in(B& b,size_t i){ return VM{b.getInput(i)}; }
template<class B> std::enable_if_t<std::is_base_of<lv::IDataLoader_<lv::Array>,B>::value,VM> get_gt(B& b,size_t i){ return b.getGTArray(i); }
template<class B> std::enable_if_t<!std::is_base_of<lv::IDataLoader_<lv::Array>,B>::value,VM> get_gt(B& b,size_t i){ return VM{b.getGT(i)}; }
template<class B> std::enable_if_t<std::is_base_of<lv::IDataLoader_<lv::Array>,B>::value> do_push(B& b,const VM& o,size_t i){ b.push(o,i); }
template<class B> std::enable_if_t<!std::is_base_of<lv::IDataLoader_<lv::Array>,B>::value> do_push(B& b,const VM& o,size_t i){ b.push(o[0],i); }
VM algo(const VM& in,size_t i,bool disp){ sim::Quiet q; VM r; for(auto& m:in){ cv::Mat o(m.rows,m.cols,CV_8UC1); for(int y=0;y<m.rows;y++) for(int x=0;x<m.cols;x++){ uint32_t v=0; for(size_t c=0;c<m.elemSize();c++) v+=m.ptr(y)[x*m.elemSize()+c]; v=hmix(v*31+(uint32_t)i); o.ptr(y)[x]=disp?(uchar)(v%40):(v&1?255:0); } r.push_back(o); } return r; }
template<class DS> void analyze(typename DS::WorkBatch& b,int bi,const Cfg& c,Rec& r){ bool flt=c.failb==bi||c.failb==-2; bool disp=std::is_same<DS,DsSte>::value; bool gtfirst=(bi+c.failat)&1;
    try{ if(c.pre){ if(flt&&c.mode==4){ sim::ThreadFaults tf; b.startPrecaching(c.inonly,c.buf); } else b.startPrecaching(c.inonly,c.buf); }
        b.startProcessing(); size_t n=b.getInputCount();
        for(size_t i=0;i<n;i++){ VM in,gt; auto get=[&]{ if(gtfirst){ gt=get_gt(b,i); } in=get_in(b,i); if(!gtfirst) gt=get_gt(b,i); };
            if(flt&&c.mode==3){ sim::IoFaults io; get(); } else if(flt&&c.mode==5){ sim::MallocFaults mf; get(); } else get();
            uint64_t h=hash_all(in),hg=hash_all(gt); { sim::Quiet q; r.in.push_back(h); r.gt.push_back(hg); } VM out=algo(in,i,disp); if(flt&&c.mode==1&&(int)i==c.failat) throw std::runtime_error("algorithm failure");
            uint64_t ho=hash_all(out); if(flt&&c.mode==3){ sim::IoFaults io; do_push(b,out,i); } else if(flt&&c.mode==5){ sim::MallocFaults mf; do_push(b,out,i); } else do_push(b,out,i);
            if(hash_all(out)!=ho) sim::violation("output-changed","the caller's output %zu of batch %s was modified by pushing it",i,b.getName().c_str()); for(auto& o:out){ sim::touch(o.data,o.total()*o.elemSize(),true); sim::Quiet q; o.setTo(cv::Scalar::all((double)((i*37)%200+7))); }
            { sim::Quiet q; r.acked.insert(i); } if(hash_all(in)!=h) sim::violation("input-changed","input packet %zu of batch %s changed while its output was being pushed",i,b.getName().c_str()); }
        b.stopProcessing(); r.cnt=b.getFinalOutputCount(); b.writeEvalReport(); }
    catch(const std::exception& e){ sim::Quiet q; r.failed=true; r.err=e.what(); }
    if(b.isProcessing()) b.stopProcessing(); }
template<size_t N,class DS> void on_pool(std::vector<typename DS::WorkBatch*>& w,const Cfg& c,std::vector<Rec>& r){ lv::WorkerPool<N> pool; std::vector<std::future<void>> f; for(size_t i=0;i<w.size();i++) f.push_back(pool.queueTask([&,i]{ analyze<DS>(*w[i],(int)i,c,r[i]); })); for(auto& x:f) x.get(); }
typedef std::map<std::string,std::string> Tree;
void walk(const std::string& d,const std::string& rel,Tree& t){ for(auto& n:sim::vfs::list(d)){ std::string p=d+"/"+n; if(sim::vfs::is_dir(p)){ t[rel+n+"/"]="dir"; walk(p,rel+n+"/",t); } else { std::string s; sim::vfs::get(p,s); t[rel+n]=s; } } }
std::string norm(const std::string& n,const std::string& s){ if(n.size()<4||n.substr(n.size()-4)!=".txt") return s; bool def=s.find("Default evaluation report")==0; std::string o; size_t p=0; while(p<s.size()){ size_t e=s.find('\n',p); if(e==std::string::npos) e=s.size(); std::string l=s.substr(p,e-p); p=e+1; if(l.compare(0,3,"Hz:")==0) continue; if(def){ size_t b=l.find('|'); if(b!=std::string::npos&&l.find('|',b+1)!=std::string::npos) l=l.substr(0,l.find('|',b+1)); else if(b==std::string::npos&&o.find('|')!=std::string::npos) break; } o+=l+"\n"; if(l.compare(0,6,"Count:")==0) break; } return o; }
template<class DS> void run_all(std::shared_ptr<DS> ds,const Cfg& c,std::vector<Rec>& r,const std::string& root,Tree& t,std::vector<std::string>& rel,std::vector<VS>& outn){ std::vector<typename DS::WorkBatch*> w; for(auto& p:ds->getBatches(false)) w.push_back(dynamic_cast<typename DS::WorkBatch*>(p.get())); r.assign(w.size(),Rec());
    if(c.workers==0) for(size_t i=0;i<w.size();i++) analyze<DS>(*w[i],(int)i,c,r[i]); else if(c.workers==1) on_pool<1,DS>(w,c,r); else if(c.workers==2) on_pool<2,DS>(w,c,r); else if(c.workers==3) on_pool<3,DS>(w,c,r); else on_pool<4,DS>(w,c,r);
    ds->writeEvalReport(); sim::Quiet q; for(auto* b:w){ rel.push_back(b->getRelativePath()); outn.push_back(VS()); for(size_t i=0;i<b->getInputCount();i++) outn.back().push_back(b->getOutputName(i)); } walk(root,"",t); }
template<class DS> void compare_runs(std::function<std::shared_ptr<DS>(const std::string&)> mk,const std::string& root,bool save,const Cfg& c,std::function<void(DS&)> damage){ sim::vfs::mkdirs(root); std::vector<Rec> a,b; Tree ta,tb; VS ra,rb; std::vector<VS> na,nb; Cfg seq; seq.failat=c.failat;
    { auto ds=mk("seq"); run_all<DS>(ds,seq,a,root+"seq",ta,ra,na); } for(size_t i=0;i<a.size();i++) if(a[i].failed) sim::violation("spurious-failure","batch %s failed in a sequential run without faults: %s",ra[i].c_str(),a[i].err.c_str());
    { auto ds=mk("par"); if(c.mode==2) damage(*ds); run_all<DS>(ds,c,b,root+"par",tb,rb,nb); } sim::Quiet q; bool anyfail=false; SIM_CHECK(a.size()==b.size()&&ra==rb,"batches-differ","the same dataset was parsed into other batches (%zu, %zu)",a.size(),b.size());
    uint64_t f=sim::fired(sim::K_USERFAULT)+sim::fired(sim::K_IO_OPEN)+sim::fired(sim::K_IO_READ)+sim::fired(sim::K_IO_WRITE)+sim::fired(sim::K_IO_CLOSE)+sim::fired(sim::K_IO_STAT)+sim::fired(sim::K_THREADFAIL)+sim::fired(sim::K_MALLOCFAIL);
    for(size_t i=0;i<a.size();i++){ bool flt=c.mode&&(c.failb==(int)i||c.failb==-2); const char* nm=ra[i].c_str();
        if(b[i].failed){ anyfail=true; if(!flt||(c.mode>2&&!f)) sim::violation("failure-spread","batch %s failed although nothing went wrong in it: %s",nm,b[i].err.c_str()); sim::probe("pipe:batch-failed"); }
        for(size_t k=0;k<b[i].in.size();k++) SIM_CHECK(k<a[i].in.size()&&a[i].in[k]==b[i].in[k],"input-differs","input packet %zu of batch %s differs from the sequential run",k,nm); for(size_t k=0;k<b[i].gt.size();k++) SIM_CHECK(a[i].gt[k]==b[i].gt[k],"gt-differs","ground truth packet %zu of batch %s differs from the sequential run",k,nm);
        if(save) for(size_t k:b[i].acked){ std::string pre=ra[i]+na[i][k]; for(auto& e:ta) if(e.first.compare(0,pre.size(),pre)==0&&e.first.size()>pre.size()&&(e.first[pre.size()]=='.'||e.first[pre.size()]=='_')&&e.first.find('/',pre.size())==std::string::npos){ auto it=tb.find(e.first); SIM_CHECK(it!=tb.end(),"output-lost","output %s was accepted but not saved",e.first.c_str()); SIM_CHECK(it->second==e.second,"output-differs","saved output %s (%zu bytes) differs from the sequential run's (%zu bytes)",e.first.c_str(),it->second.size(),e.second.size()); } }
        if(!b[i].failed){ SIM_CHECK(a[i].cnt==b[i].cnt,"count-differs","batch %s counted %zu outputs, %zu in the sequential run",nm,b[i].cnt,a[i].cnt);
            std::string rp=ra[i].substr(0,ra[i].size()-1)+".txt"; for(auto& e:ta) if(e.first.compare(0,ra[i].size(),ra[i])==0||e.first==rp){ auto it=tb.find(e.first); SIM_CHECK(it!=tb.end(),"output-lost","%s is missing",e.first.c_str()); std::string x=norm(e.first,e.second),y=norm(e.first,it->second); SIM_CHECK(x==y,"report-differs","%s differs from the sequential run\n%s\n%s",e.first.c_str(),e.first==rp?x.c_str():"",e.first==rp?y.c_str():""); } for(auto& e:tb) if(e.first.compare(0,ra[i].size(),ra[i])==0) SIM_CHECK(ta.count(e.first),"output-extra","unexpected file %s",e.first.c_str()); } }
    if(!anyfail){ for(auto& e:ta){ auto it=tb.find(e.first); SIM_CHECK(it!=tb.end(),"output-lost","%s is missing",e.first.c_str()); std::string x=norm(e.first,e.second),y=norm(e.first,it->second); SIM_CHECK(x==y,"report-differs","%s differs from the sequential run\n%s\n%s",e.first.c_str(),x.c_str(),y.c_str()); } SIM_CHECK(ta.size()==tb.size(),"output-extra","%zu files, %zu in the sequential run",tb.size(),ta.size()); sim::probe("pipe:all-equal"); } }
Cfg gen_cfg(int nb){ Cfg c; c.workers=1+(int)sim::gen(4); c.pre=sim::gen_rare(2,2,3)!=0; c.inonly=sim::gen_bool(); c.buf=sim::gen_bool()?SIZE_MAX:1+sim::gen(4000); c.mode=(int)sim::gen_rare(6,1,2); c.failat=(int)sim::gen(4); if(c.mode) c.failb=c.mode>=3&&sim::gen_bool()?-2:(int)sim::gen((uint32_t)nb);
    if(c.mode==3){ sim::enable(sim::K_IO_OPEN,0.05); sim::enable(sim::K_IO_WRITE,0.05); sim::enable(sim::K_IO_CLOSE,0.05); sim::enable(sim::K_IO_READ,0.03); } if(c.mode==4) sim::enable(sim::K_THREADFAIL,0.3); if(c.mode==5) sim::enable(sim::K_MALLOCFAIL,0.01); return c; }
}
extern "C" size_t sim_cache_min_value;
SIM_HARNESS_W("P17",p17_cdnet,3){ sim_cache_min_value=sim::gen_bool()?1:200+sim::gen(2000); sim::enable(sim::K_CLOCKJUMP,0.05); sim::enable(sim::K_DIRORDER,0.5); static const char* const cat[6]={"baseline","cameraJitter","dynamicBackground","intermittentObjectMotion","shadow","thermal"}; const std::string R="/simfs/data/CDNet/dataset/"; int nb=0; std::vector<VS> files;
    for(int c=0;c<6;c++){ int ns=1+(c<1?(int)sim::gen(2):0); for(int s=0;s<ns;s++,nb++){ std::string d=R+cat[c]+"/"+num("seq%d/",s); int h=3+(int)sim::gen(3),w=3+(int)sim::gen(4),nf=1+(int)sim::gen(3); files.push_back(VS()); for(int i=0;i<nf;i++){ files.back().push_back(d+num("input/in%06d.jpg",i+1)); put_img(files.back().back(),h,w,CV_8UC3,(uint32_t)(c*100+s*10+i)); put_img(d+num("groundtruth/gt%06d.png",i+1),h,w,CV_8UC1,(uint32_t)(c*77+s*5+i),{0,50,85,170,255,255,0}); } put_img(d+"ROI.bmp",h,w,CV_8UC1,(uint32_t)(c+s+3),{0,255,255}); put_img(d+"ROI.jpg",h,w,CV_8UC3,9,{255}); } }
    Cfg c=gen_cfg(nb); bool save=sim::gen_rare(2,2,3)!=0,eval=sim::gen_rare(2,3,4)!=0,al=sim::gen_rare(2,1,4)!=0; double sc=sim::gen_rare(2,1,4)?2.0:1.0; sim::probe(eval?"pipe:cdnet-eval":"pipe:cdnet-noeval");
    compare_runs<DsCd>([&](const std::string& o){ return DsCd::create(o,save,eval,al,sc,false); },"/simfs/data/CDNet/results/",save,c,[&](DsCd&){ VS& f=files[c.failb]; const std::string& p=f[c.failat%f.size()]; if(sim::gen_bool()) sim::vfs::remove(p); else sim::vfs::put(p,"damaged"); }); }
SIM_HARNESS_W("P17",p17_images,2){ sim_cache_min_value=sim::gen_bool()?1:200+sim::gen(2000); sim::enable(sim::K_CLOCKJUMP,0.05); sim::enable(sim::K_DIRORDER,0.5); int ng=1+(int)sim::gen(3),nbg=1+(int)sim::gen(2); bool bare=sim::gen_bool(); int nb=0; std::vector<VS> files; static const char* const ext[3]={".jpg",".png",".bmp"};
    VS g=make_dirs(ng,nbg,bare,[&](const std::string& d,int k){ nb++; files.push_back(VS()); int n=1+(int)sim::gen(4); for(int i=0;i<n;i++){ std::string p=d+num("im%d",i)+ext[sim::gen(3)]; files.back().push_back(p); put_img(p,2+(int)sim::gen(4),2+(int)sim::gen(4),sim::gen_bool()?CV_8UC3:CV_8UC1,(uint32_t)(k*100+i)); } if(sim::gen_rare(2,1,3)) sim::vfs::put(d+"notes.txt","x"); if(sim::gen_rare(2,1,4)) sim::vfs::put(d+"broken.png","not an image"); });
    Cfg c=gen_cfg(nb); bool al=sim::gen_rare(2,1,4)!=0; double sc=sim::gen_rare(2,1,4)?2.0:1.0; compare_runs<DsImg>([&](const std::string& o){ return DsImg::create("ds","/simfs/data/ds/","/simfs/out/"+o+"/",g,VS(),true,false,al,sc); },"/simfs/out/",true,c,[&](DsImg&){ VS& f=files[c.failb]; sim::vfs::remove(f[c.failat%f.size()]); }); }
SIM_HARNESS("P17",p17_video){ sim_cache_min_value=sim::gen_bool()?1:200+sim::gen(2000); int ng=1+(int)sim::gen(3),nbg=1+(int)sim::gen(2); bool bare=sim::gen_bool(); int nb=0; VS g=make_dirs(ng,nbg,bare,[&](const std::string& d,int k){ nb++; char b[80]; if(sim::gen_bool()){ snprintf(b,sizeof b,"SIMVID %d %d %d %d",1+(int)sim::gen(5),2+(int)sim::gen(4),2+(int)sim::gen(4),k+5); sim::vfs::put(d+"seq.avi",b); } else { int n=2+(int)sim::gen(3),h=2+(int)sim::gen(4),w=2+(int)sim::gen(4); for(int i=0;i<n;i++) put_img(d+num("f%03d.png",i),h,w,CV_8UC3,(uint32_t)(k*100+i)); } });
    Cfg c=gen_cfg(nb); if(c.mode==2) c.mode=1; bool al=sim::gen_rare(2,1,4)!=0; compare_runs<DsVid>([&](const std::string& o){ return DsVid::create("ds","/simfs/data/ds/","/simfs/out/"+o+"/",g,VS(),true,false,al,1.0); },"/simfs/out/",true,c,[&](DsVid&){}); }
namespace { template<class DS> void arrays(){ sim_cache_min_value=sim::gen_bool()?1:200+sim::gen(2000); sim::enable(sim::K_CLOCKJUMP,0.05); int ng=1+(int)sim::gen(3),nbg=1+(int)sim::gen(2); bool bare=sim::gen_bool(),disp=std::is_same<DS,DsSte>::value; int nb=0; std::vector<VS> files;
    VS g=make_dirs(ng,nbg,bare,[&](const std::string& d,int k){ nb++; files.push_back(VS()); int n=1+(int)sim::gen(3); for(int i=0;i<n;i++) for(int s=0;s<2;s++){ int h=2+(int)sim::gen(4),w=2+(int)sim::gen(4); std::string t=std::to_string(i)+"_"+std::to_string(s)+".bmp"; files.back().push_back(d+"in"+t); put_img(d+"in"+t,h,w,sim::gen_bool()?CV_8UC3:CV_8UC1,(uint32_t)(k*100+i*2+s)); put_img(d+"gt"+t,h,w,CV_8UC1,(uint32_t)(k*50+i*2+s),disp?std::vector<int>{1,5,9,20,33,255}:std::vector<int>{0,255,85,50,170,255}); } });
    Cfg c=gen_cfg(nb); bool save=sim::gen_bool(),eval=sim::gen_rare(2,3,4)!=0; compare_runs<DS>([&](const std::string& o){ return DS::create("ds","/simfs/data/ds/","/simfs/out/"+o+"/",g,VS(),save,eval); },"/simfs/out/",save,c,[&](DS&){ VS& f=files[c.failb]; sim::vfs::put(f[c.failat%f.size()],"damaged"); }); } }
SIM_HARNESS("P17",p17_cosegm){ arrays<DsCos>(); }
SIM_HARNESS("P17",p17_stereo){ arrays<DsSte>(); }
// ===================================================================================================== P18
namespace {
// features of packet i, version v: a list of matrices (one for single-matrix stores)
VM feat(int pk,int v,int streams){ sim::Quiet q; VM r; uint32_t s=hmix((uint32_t)(pk*1009+v*77+streams)); for(int k=0;k<streams;k++){ s=hmix(s+k+1); if(streams>1&&s%7==0){ r.push_back(cv::Mat()); continue; } static const int ty[]={CV_8UC1,CV_32FC1,CV_16SC2,CV_64FC1,CV_8UC3}; int t=ty[(s>>4)%5]; if(streams>1&&(s>>9)%2) t=CV_32FC1; cv::Mat m; if((s>>20)%5==0){ int z[3]={1+(int)((s>>12)%3),1+(int)((s>>15)%3),1+(int)((s>>18)%4)}; m.create(3,z,t); } else m.create(1+(s>>12)%4,1+(s>>15)%6,t); for(size_t i=0;i<m.total()*m.elemSize();i++) m.data[i]=(uchar)hmix(s+(uint32_t)i*3+5); r.push_back(m); } bool any=false; for(auto& m:r) any|=!m.empty(); if(!any) r[0]=cv::Mat(2,2,CV_8UC1,cv::Scalar(pk*16+v)); return r; }
std::vector<lv::MatInfo> infos(const VM& v){ std::vector<lv::MatInfo> r; for(auto& m:v){ lv::MatInfo i; i.size=m.size; i.type=m.type(); r.push_back(i); } return r; }
bool eq(const cv::Mat& a,const cv::Mat& b){ if(a.empty()&&b.empty()) return true; if(a.empty()||b.empty()||a.type()!=b.type()||a.dims!=b.dims||a.rows!=b.rows||a.cols!=b.cols) return false; return hash_mat(a)==hash_mat(b); }
VM views(const VM& f){ VM r; for(auto& m:f){ if(m.empty()||m.dims>2||!sim::gen_rare(2,1,3)){ r.push_back(m); continue; } sim::probe("pipe:feat-view"); sim::Quiet q; cv::Mat w(m.rows+2,m.cols+3,m.type()); memset(w.data,0x5a,w.total()*w.elemSize()); cv::Mat v=w(cv::Rect(2,1,m.cols,m.rows)); m.copyTo(v); r.push_back(v); } return r; }
struct Pk { int cand[8]; int n; int mayerr,mayempty; }; // acceptable versions
struct Durable { int magic,npk,streams,kind; Pk p[6]; int saving,savingv; };
void acked(Pk& p,int v){ p.n=1; p.cand[0]=v; p.mayerr=p.mayempty=0; }
void unknown(Pk& p,int v){ if(p.n<8) p.cand[p.n++]=v; p.mayerr=p.mayempty=1; }
std::string allow(const Pk& p){ std::string s; for(int i=0;i<p.n;i++) s+=num(" v%d",p.cand[i]); return s; }
template<class B> std::enable_if_t<std::is_base_of<lv::IDataLoader_<lv::Array>,B>::value> save(B& b,int pk,const VM& f){ if(f.size()==1&&sim::gen_bool()) b.saveFeatures(pk,f[0]); else if(sim::gen_bool()){ std::vector<lv::MatInfo> i; b.saveFeaturesArray(pk,f,&i); SIM_CHECK(i==infos(f),"packinfo-wrong","packing information returned by saveFeaturesArray does not describe the saved matrices"); } else b.saveFeaturesArray(pk,f); }
template<class B> std::enable_if_t<!std::is_base_of<lv::IDataLoader_<lv::Array>,B>::value> save(B& b,int pk,const VM& f){ b.saveFeatures(pk,f[0]); }
bool matches(const cv::Mat& packed,const VM& f){ if(f.size()==1) return eq(packed,f[0]); size_t n=0; for(auto& m:f) n+=m.total()*m.elemSize(); if(n!=packed.total()*packed.elemSize()) return false; sim::touch(packed.data,n,false); sim::Quiet q; const uchar* d=packed.data; for(auto& m:f){ size_t k=m.total()*m.elemSize(); if(memcmp(d,m.data,k)) return false; d+=k; } return true; }
template<class B> std::enable_if_t<std::is_base_of<lv::IDataLoader_<lv::Array>,B>::value,bool> load_arr(B& b,int pk,int streams,Pk& p,uint64_t f0,bool flt); 
uint64_t rd_fired(){ return sim::fired(sim::K_IO_OPEN)+sim::fired(sim::K_IO_READ)+sim::fired(sim::K_IO_CLOSE)+sim::fired(sim::K_IO_STAT); }
template<class B> void load_one(B& b,int pk,int streams,Pk& p,bool faults,bool othererr=false){ uint64_t f0=rd_fired(); cv::Mat m; bool thr=false; try{ if(faults){ sim::IoFaults io; m=b.loadFeatures(pk); } else m=b.loadFeatures(pk); }catch(const std::exception& e){ thr=true; sim::logf("%.300s",e.what()); }
    sim::logf("t%d load %d -> %s",sim::tid(),pk,thr?"error":m.empty()?"empty":"data"); if(thr){ SIM_CHECK(p.mayerr||othererr||rd_fired()>f0,"features-unreadable","features of packet %d (%s) cannot be loaded although they were saved",pk,allow(p).c_str()); sim::probe("pipe:feat-error"); return; }
    if(m.empty()){ SIM_CHECK(p.mayempty||rd_fired()>f0,"features-lost","features of packet %d (%s) are gone",pk,allow(p).c_str()); sim::probe("pipe:feat-empty"); return; } for(int i=0;i<p.n;i++) if(matches(m,feat(pk,p.cand[i],streams))){ sim::probe("pipe:feat-ok"); return; } sim::violation("features-wrong","loading the features of packet %d returned data (%dx%d) that was not what was saved for it (%s )",pk,m.rows,m.cols,allow(p).c_str()); }
template<class B> std::enable_if_t<std::is_base_of<lv::IDataLoader_<lv::Array>,B>::value> load_array(B& b,int pk,int streams,Pk& p,bool faults,bool othererr=false){ if(!p.n){ load_one(b,pk,streams,p,faults,othererr); return; } int v=p.cand[sim::gen((uint32_t)p.n)]; VM f=feat(pk,v,streams); auto inf=infos(f); bool wrong=sim::gen_rare(2,1,4); if(wrong) inf.push_back(lv::MatInfo{cv::Size(3,1),CV_8UC1}); uint64_t f0=rd_fired(); bool thr=false; VM r;
    try{ if(faults){ sim::IoFaults io; r=b.loadFeaturesArray(pk,inf); } else r=b.loadFeaturesArray(pk,inf); }catch(const std::exception&){ thr=true; } sim::logf("t%d loadarray %d -> %s",sim::tid(),pk,thr?"error":"data"); if(wrong){ SIM_CHECK(thr,"wrong-packing-accepted","unpacking the features of packet %d with packing information of another size raised no error",pk); sim::probe("pipe:feat-wrongpack"); return; }
    bool one=p.n==1&&!p.mayerr&&!p.mayempty; if(thr){ SIM_CHECK(!one||othererr||rd_fired()>f0,"features-unreadable","features of packet %d (%s ) cannot be loaded as an array",pk,allow(p).c_str()); return; } SIM_CHECK(r.size()==f.size(),"features-wrong","%zu matrices returned for packet %d, %zu were saved",r.size(),pk,f.size()); for(int c=0;c<p.n;c++){ VM x=feat(pk,p.cand[c],streams); if(infos(x)!=inf){ /* another version, unpacked with this packing: only its bytes can be compared */ cv::Mat all; std::string y,z; sim::Quiet q; for(auto& m:r) y.append((char*)m.data,m.total()*m.elemSize()); for(auto& m:x) z.append((char*)m.data,m.total()*m.elemSize()); if(y==z) return; continue; } bool ok=true; for(size_t k=0;k<x.size();k++) ok&=eq(r[k],x[k]); if(ok){ sim::probe("pipe:feat-array-ok"); return; } } sim::violation("features-wrong","loading the features of packet %d as an array returned matrices that were not what was saved for it (%s )",pk,allow(p).c_str()); }
template<class B> std::enable_if_t<!std::is_base_of<lv::IDataLoader_<lv::Array>,B>::value> load_array(B& b,int pk,int streams,Pk& p,bool faults,bool othererr=false){ load_one(b,pk,streams,p,faults,othererr); }
template<class B> std::enable_if_t<std::is_base_of<lv::IDataLoader_<lv::Array>,B>::value> get_both(B& b,int pk,const std::vector<uint64_t>& in,const std::vector<uint64_t>& gt){ for(int k=0;k<2;k++) switch(sim::gen(4)){ case 0: SIM_CHECK(hash_all(b.getInputArray(pk))==in[pk],"input-wrong","input array %d differs from the stored images",pk); break; case 1: SIM_CHECK(hash_all(b.getGTArray(pk))==gt[pk],"gt-wrong","ground truth array %d differs from the stored images",pk); break;
        case 2: { lv::IIDataLoader& l=b; const cv::Mat& m=l.getInput((int)sim::gen((uint32_t)in.size())); hash_mat(m); sim::probe("pipe:packed-input"); break; } default: { lv::IIDataLoader& l=b; const cv::Mat& m=l.getGT((int)sim::gen((uint32_t)in.size())); hash_mat(m); } } }
template<class B> std::enable_if_t<!std::is_base_of<lv::IDataLoader_<lv::Array>,B>::value> get_both(B& b,int pk,const std::vector<uint64_t>& in,const std::vector<uint64_t>& gt){ SIM_CHECK(hash_all(VM{b.getInput(pk)})==in[pk],"input-wrong","input %d differs from the stored image",pk); }
template<class DS> void history(std::function<std::shared_ptr<DS>()> mk,Durable& d,int ops,bool wfaults,bool rfaults,const std::vector<uint64_t>& in,const std::vector<uint64_t>& gt,bool midphase){ typedef typename DS::WorkBatch B; int ver=10+(midphase?100:0); std::shared_ptr<DS> ds; B* b=nullptr; std::set<int> loaded; bool pre=false; 
    auto fresh=[&]{ b=nullptr; ds.reset(); ds=mk(); b=dynamic_cast<B*>(ds->getBatches(false)[0].get()); loaded.clear(); pre=false; }; fresh(); auto oe=[&]{ /* prefetching may meet an unreadable packet while another one is asked for */ if(!pre) return false; for(int i=0;i<d.npk;i++) if(d.p[i].mayerr) return true; return false; };
    for(int k=0;k<ops;k++){ int pk=(int)sim::gen((uint32_t)d.npk); switch(sim::gen(9)){
        case 0: if(!sim::gen_rare(2,1,2)) break; fresh(); sim::probe("pipe:fresh-object"); break;
        case 1: case 2: case 3: { if(pre||loaded.count(pk)) fresh(); int v=++ver; VM f=feat(pk,v,d.streams),sf=views(f); d.saving=pk; d.savingv=v; bool thr=false; uint64_t f0=rd_fired()+sim::fired(sim::K_IO_WRITE); try{ if(wfaults){ sim::IoFaults io; save(*b,pk,sf); } else save(*b,pk,sf); }catch(const std::exception&){ thr=true; } d.saving=-1; sim::logf("t%d save %d v%d -> %s",sim::tid(),pk,v,thr?"error":"ok"); if(thr){ SIM_CHECK(rd_fired()+sim::fired(sim::K_IO_WRITE)>f0,"spurious-save-error","saving features of packet %d failed although no fault was injected",pk); unknown(d.p[pk],v); sim::probe("pipe:save-failed"); } else acked(d.p[pk],v); break; }
        case 4: if(!pre){ if(sim::gen_bool()) break; bool io=sim::gen_bool(); b->startPrecaching(io,sim::gen_bool()?SIZE_MAX:1+sim::gen(400)); pre=!io; } else { try{ b->stopPrecaching(); }catch(const std::exception&){ SIM_CHECK(oe(),"spurious-failure","stopping precaching failed although every packet can be read"); } } break;
        case 5: case 6: load_one(*b,pk,d.streams,d.p[pk],rfaults&&!pre,oe()); loaded.insert(pk); break;
        case 7: load_array(*b,pk,d.streams,d.p[pk],rfaults&&!pre,oe()); loaded.insert(pk); break;
        default: get_both(*b,pk,in,gt); } } 
    if(sim::gen_bool()) fresh(); for(int i=0;i<d.npk;i++) load_one(*b,i,d.streams,d.p[i],false,oe()); for(int i=0;i<d.npk;i++) load_array(*b,i,d.streams,d.p[i],false,oe()); }
struct Store { std::string root,out; std::vector<uint64_t> in,gt; };
Store mk_store(int t,int kind,int npk,bool put){ Store s; s.root=num("/simfs/data/t%d/",t); s.out=num("/simfs/out/t%d/",t); if(put) sim::vfs::mkdirs("/simfs/out"); auto img=[&](const std::string& p,int type,uint32_t salt){ std::string f=s.root+"b/"+p; if(put) put_img(f,2+(int)(salt%3),3,type,salt); };
    for(int i=0;i<npk;i++){ if(kind==0) img(num("im%d.png",i),CV_8UC3,(uint32_t)(t*31+i)); else for(int k=0;k<2;k++){ std::string x=std::to_string(i)+"_"+std::to_string(k)+".bmp"; img("in"+x,CV_8UC3,(uint32_t)(t*31+i*2+k)); img("gt"+x,CV_8UC1,(uint32_t)(t*37+i*2+k+500)); } }
    for(int i=0;i<npk;i++){ auto rd=[&](const std::string& p){ return cv::imread(s.root+"b/"+p,cv::IMREAD_UNCHANGED); }; if(kind==0) s.in.push_back(hash_all(VM{rd(num("im%d.png",i))})); else { std::string a=std::to_string(i)+"_0.bmp",b=std::to_string(i)+"_1.bmp"; s.in.push_back(hash_all(VM{rd("in"+a),rd("in"+b)})); s.gt.push_back(hash_all(VM{rd("gt"+a),rd("gt"+b)})); } } return s; }
void run_history(const Store& s,Durable& d,int ops,bool wf,bool rf,bool mid){ if(d.kind==0) history<DsImg>([&]{ return DsImg::create("ds",s.root,s.out,VS{"b"},VS(),false,false); },d,ops,wf,rf,s.in,s.gt,mid); else history<DsCos>([&]{ return DsCos::create("ds",s.root,s.out,VS{"b"},VS(),false,false); },d,ops,wf,rf,s.in,s.gt,mid); }
void init(Durable& d){ memset(&d,0,sizeof d); d.npk=1+(int)sim::gen(4); d.kind=(int)sim::gen_rare(2,2,3); d.streams=d.kind?1+(int)sim::gen(3):1; d.saving=-1; for(auto& p:d.p) p.mayempty=1; }
}
SIM_HARNESS_W("P18",p18_features,3){ sim_cache_min_value=sim::gen_bool()?1:50+sim::gen(300); sim::enable(sim::K_IO_OPEN,0.08); sim::enable(sim::K_IO_WRITE,0.1); sim::enable(sim::K_IO_CLOSE,0.08); sim::enable(sim::K_IO_READ,0.08); int nt=1+(int)sim::gen_rare(3,1,3); bool wf=sim::gen_bool(),rf=sim::gen_bool(); std::vector<Durable> d(nt); std::vector<Store> st; for(int t=0;t<nt;t++){ init(d[t]); st.push_back(mk_store(t,d[t].kind,d[t].npk,true)); } int ops=4+(int)sim::gen(14); std::vector<std::thread> th; for(int t=1;t<nt;t++) th.emplace_back([&,t]{ run_history(st[t],d[t],ops,wf&&nt==1,rf&&nt==1,false); }); run_history(st[0],d[0],ops,wf&&nt==1,rf&&nt==1,false); for(auto& t:th) t.join(); }
SIM_HARNESS_W("P18",p18_crash,2){ sim_cache_min_value=sim::gen_bool()?1:50+sim::gen(300); Durable& d=*(Durable*)sim::durable(); bool first=sim::phase()==1; if(first){ sim::enable(sim::K_CRASH,0.3); init(d); d.magic=1; } Store s=mk_store(0,d.kind,d.npk,first); if(!first){ sim::probe("pipe:restarted"); if(d.saving>=0){ unknown(d.p[d.saving],d.savingv); d.saving=-1; sim::probe("pipe:crash-in-save"); } }
    run_history(s,d,3+(int)sim::gen(10),first,false,!first); }
SIM_HARNESS_W("P18",p18_video,2){ // frames decoded in any order, with prefetching and decoding failures
    sim_cache_min_value=sim::gen_bool()?1:50+sim::gen(300); bool flt=sim::gen_bool(); if(flt){ sim::enable(sim::K_USERFAULT,0.15); } int n=1+(int)sim::gen(8),w=2+(int)sim::gen(3),h=2+(int)sim::gen(3); char b[80]; snprintf(b,sizeof b,"SIMVID %d %d %d %d",n,w,h,3); sim::vfs::put("/simfs/data/v/b/x.avi",b); g_decoder_faults=false; auto ds=DsVid::create("v","/simfs/data/v/","/simfs/out/",VS{"b"},VS(),false,false); auto& bt=dynamic_cast<DsVid::WorkBatch&>(*ds->getBatches(false)[0]); SIM_CHECK((int)bt.getInputCount()==n,"frame-count","%zu frames, expected %d",bt.getInputCount(),n); g_decoder_faults=flt; uint64_t thrown=0; int last=-1; bool stopping=false;
    int ops=4+(int)sim::gen(14); for(int k=0;k<ops;k++){ int o=(int)sim::gen(12); if(o>=10) o=0; if(o==0){ try{ if(!bt.isPrecaching()) bt.startPrecaching(!sim::gen_rare(2,1,2),sim::gen_bool()?SIZE_MAX:1+sim::gen(200)); else { stopping=true; bt.stopPrecaching(); } }catch(const std::exception&){ thrown++; } if(stopping){ stopping=false; SIM_CHECK(!bt.isPrecaching()&&sim::alive_threads()==1,"precaching-not-stopped","%d prefetching threads still run after the precaching of a batch was stopped",sim::alive_threads()-1); } continue; } if(o==1){ sim::sleep_ns(100000); continue; } int i=o<6?(last+1)%n:(int)sim::gen((uint32_t)n); last=i; bool ok=false; cv::Mat m; try{ m=bt.getInput(i); ok=true; }catch(const std::exception&){ thrown++; SIM_CHECK(thrown<=sim::fired(sim::K_USERFAULT),"spurious-failure","frame %d could not be loaded although decoding did not fail",i); }
        if(ok) SIM_CHECK(hash_mat(m)==hash_mat(simvid_frame(w,h,3,i)),"frame-wrong","frame %d returned for a video is not the stored one",i); }
    if(sim::gen_rare(3,1,3)){ ds.reset(); SIM_CHECK(sim::alive_threads()==1,"precaching-outlives-batch","%d prefetching threads still run after their data batch was destroyed",sim::alive_threads()-1); return; }
    g_decoder_faults=false; try{ bt.stopPrecaching(); }catch(const std::exception&){} for(int i=0;i<n;i++){ int j=sim::gen_bool()?i:(int)sim::gen((uint32_t)n); cv::Mat m; try{ m=bt.getInput(j); }catch(const std::exception&){ thrown++; SIM_CHECK(thrown<=sim::fired(sim::K_USERFAULT),"spurious-failure","frame %d could not be loaded although decoding did not fail",j); continue; } SIM_CHECK(hash_mat(m)==hash_mat(simvid_frame(w,h,3,j)),"frame-wrong","frame %d returned for a video is not the stored one",j); } }
