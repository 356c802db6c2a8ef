// P20: background subtractors: any heap content, any interleaving with other instances, re-initialisation, any output matrix.
#include "sim.hpp"
#include "litiv/video.hpp"
#include "litiv/video/BackgroundSubtractorViBe.hpp"
#include "litiv/video/BackgroundSubtractorPBAS.hpp"
#include <thread>
#include <memory>
#include <cstring>
#include <cmath>
namespace sim { void heap_set_fill(int mode); }
extern "C" int sim_frame_wv,sim_frame_hv; // frame size from which on frames count as large
static const bool fair_cap_set=(sim::set_fair_cap(600000000ull),true); // pure computing: long but finite
namespace {
uint32_t mix(uint32_t a){ a^=a>>16; a*=0x7feb352dU; a^=a>>15; a*=0x846ca68bU; a^=a>>16; return a; }
enum Algo { LOBSTER, SUBSENSE, PAWCS, VIBE, PBAS, NALGO };
const char* const AN[]={"LOBSTER","SuBSENSE","PAWCS","ViBe","PBAS"};
enum OpK { INIT, INIT_ROI, APPLY, BGIMG, BGDESC, REFRESH, SETROI, AUTORESET };
struct Op { int k=APPLY; int rows=0,cols=0,ch=1; uint32_t salt=0; int kind=0,t=0,outmode=0; double rate=0; float frac=0; bool force=false; cv::Mat img,roi; };
struct Cfg { int algo=0; size_t a=0,b=0,n=0,req=0; int ch=1; };
struct Script { Cfg c; std::vector<Op> ops; uint64_t seed=1; int restart=-1; };   // restart: index of the last INIT_ROI: a fresh instance run from there must give the same results
struct Out { bool threw=false; std::string what; cv::Mat m; };
void paint(cv::Mat& m,const Op& o){ sim::Quiet q; int es=(int)m.elemSize(),R=m.rows,C=m.cols; for(int y=0;y<R;y++) for(int x=0;x<C;x++) for(int k=0;k<es;k++){ int v; uint32_t bg=mix(o.salt*31+(o.kind&1?(uint32_t)(y*C+x):(uint32_t)((y/3)*40+x/3))*7+(o.kind&2?k:0)); v=(int)(bg%200)+20; if(o.kind&4) v=(o.kind&2)?60+30*k:90; uint32_t nz=mix(o.salt+977*o.t+(uint32_t)((y*C+x)*es+k)); v+=(int)(nz%7)-3; int fx=(o.t*2)%C,fy=(o.t)%R; if((o.kind&8)&&x>=fx&&x<fx+4&&y>=fy&&y<fy+4) v=255-v/2; if((o.kind&16)&&(o.t&4)) v+=70; m.data[y*m.step[0]+x*es+k]=(uchar)std::min(255,std::max(0,v)); } }
Script gen_script(int algo,bool small){ Script s; Cfg& c=s.c; c.algo=algo; c.ch=sim::gen_bool()?3:1; c.n=2+sim::gen(small?4:9); c.req=1+sim::gen(std::min<int>(3,(int)c.n)); c.a=10+sim::gen(40); c.b=1+sim::gen(6); s.seed=1+sim::gen(1000000);
    int rows=0,cols=0; uint32_t salt=0; int kind=0,t=0; int segs=1+(sim::gen_rare(2,1,2)?1:0);
    for(int g=0;g<segs;g++){ bool lb=algo<=PAWCS; if(g==0||!sim::gen_bool()){ rows=8+(int)sim::gen(small?5:10); cols=8+(int)sim::gen(small?5:10); if(sim_frame_wv==16&&sim::gen_bool()){ rows=16+(int)sim::gen(8); cols=16+(int)sim::gen(8); sim::probe("video:large-frame"); } else if(sim_frame_wv==16){ rows=std::min(rows,15); cols=std::min(cols,15); } if(g>0&&sim::gen_bool()) c.ch=c.ch; } salt=sim::gen(100000); kind=(int)sim::gen(32); t=0;
        Op i; i.rows=rows; i.cols=cols; i.ch=c.ch; i.salt=salt; i.kind=kind; i.t=t++; i.k=(lb&&(g>0||sim::gen_bool()))?INIT_ROI:INIT; if(lb&&i.k==INIT_ROI&&algo==LOBSTER&&c.ch==3&&sim::gen_rare(2,1,4)) i.ch=4;
        int ch=i.ch; i.img.create(rows,cols,CV_8UC(ch)); paint(i.img,i); if(i.k==INIT_ROI){ i.roi.create(rows,cols,CV_8UC1); sim::Quiet q; int rk=(int)sim::gen(3); uint32_t rs=sim::gen(1000); for(int y=0;y<rows;y++) for(int x=0;x<cols;x++) i.roi.at<uchar>(y,x)=rk==0?255:rk==1?(mix(rs+y*50+x)%3?255:0):((x-cols/2)*(x-cols/2)+(y-rows/2)*(y-rows/2)<16?255:0); i.roi.at<uchar>(rows/2,cols/2)=255; }
        if(g>0&&(i.k==INIT_ROI||!lb)){ bool set=false; for(auto& o:s.ops) set=set||o.k==AUTORESET; if(!set) s.restart=(int)s.ops.size(); } // (the reset option is a setting and outlives initialisation)
        s.ops.push_back(i); int frames=2+(int)sim::gen(small?5:9);
        for(int f=0;f<frames;f++){ Op o; o.rows=rows; o.cols=cols; o.ch=ch; o.salt=salt; o.kind=kind; o.t=t++; o.outmode=(int)sim::gen(5); switch(algo){ case LOBSTER: o.rate=1+sim::gen(20); break; case VIBE: o.rate=1+sim::gen(20); break; case PBAS: o.rate=sim::gen_bool()?-1.0:1+(double)sim::gen(16); break; default: o.rate=sim::gen_rare(2,1,4)?(sim::gen_bool()?INFINITY:1+(double)sim::gen(9)):0; }
            o.img.create(rows,cols,CV_8UC(ch)); paint(o.img,o); s.ops.push_back(o);
            uint32_t e=sim::gen(8); Op x; x.rows=rows; x.cols=cols; x.ch=ch; if(e==0) x.k=BGIMG; else if(e==1&&lb) x.k=BGDESC; else if(e==2&&lb){ x.k=REFRESH; x.frac=(float)(1+sim::gen(10))/10.f; x.force=sim::gen_bool(); } else if(e==3&&lb&&sim::gen_bool()){ x.k=SETROI; uint32_t rs=sim::gen(1000); x.roi.create(rows,cols,CV_8UC1); sim::Quiet q; for(int y=0;y<rows;y++) for(int xx=0;xx<cols;xx++) x.roi.at<uchar>(y,xx)=mix(rs+y*50+xx)%4?255:0; x.roi.at<uchar>(rows/2,cols/2)=255; } else if(e==4&&lb){ x.k=AUTORESET; x.force=sim::gen_bool(); } else continue; s.ops.push_back(x); }
        Op x; x.k=BGIMG; s.ops.push_back(x); }
    return s; }
struct Inst { Cfg c; cv::Mat fb,rb; std::unique_ptr<BackgroundSubtractorLOBSTER> lo; std::unique_ptr<BackgroundSubtractorSuBSENSE> su; std::unique_ptr<BackgroundSubtractorPAWCS> pa; std::unique_ptr<BackgroundSubtractorViBe> vi; std::unique_ptr<BackgroundSubtractorPBAS> pb; IIBackgroundSubtractor* ii=nullptr;
    explicit Inst(const Cfg& k):c(k){ switch(c.algo){ case LOBSTER: lo.reset(new BackgroundSubtractorLOBSTER(c.b,c.a,c.n,c.req)); ii=lo.get(); break; case SUBSENSE: su.reset(new BackgroundSubtractorSuBSENSE(c.b,c.a,c.n,c.req,4+c.b*4)); ii=su.get(); break; case PAWCS: pa.reset(new BackgroundSubtractorPAWCS(c.b,c.a,c.n+2,4+c.b*4)); ii=pa.get(); break;
        case VIBE: if(c.ch==3) vi.reset(new BackgroundSubtractorViBe_3ch(c.a,c.n,c.req)); else vi.reset(new BackgroundSubtractorViBe_1ch(c.a,c.n,c.req)); break; case PBAS: if(c.ch==3) pb.reset(new BackgroundSubtractorPBAS_3ch(c.a,16.0f,c.n,c.req)); else pb.reset(new BackgroundSubtractorPBAS_1ch(c.a,16.0f,c.n,c.req)); break; } } };
cv::Mat prep(const Op& o,const cv::Mat& last,cv::Mat& parent){ sim::Quiet q; cv::Mat m; switch(o.outmode){ case 1: m.create(o.rows,o.cols,CV_8UC1); m=cv::Scalar(77); break; case 2: m.create(o.rows+1,o.cols,CV_8UC3); m=cv::Scalar::all(9); break; case 3: return last; case 4: parent.create(o.rows+2,o.cols+5,CV_8UC1); parent=cv::Scalar(33); m=parent(cv::Rect(2,1,o.cols,o.rows)); break; } return m; }
// a caller with one frame buffer: every frame is copied into the same matrix, which is overwritten once the call is over; results are overwritten once read
Out step(Inst& I,const Op& o0,cv::Mat& last,bool plain){ Out r; cv::Mat copy; Op o=o0; { sim::Quiet q; copy=o0.img.clone(); if(!plain){ if(!o0.img.empty()){ I.fb.create(o0.img.size(),o0.img.type()); o0.img.copyTo(I.fb); o.img=I.fb; } if(!o0.roi.empty()){ I.rb.create(o0.roi.size(),o0.roi.type()); o0.roi.copyTo(I.rb); o.roi=I.rb; } } } cv::Mat parent; try{ switch(o.k){
    case INIT: if(I.ii) I.ii->initialize(o.img); else if(I.vi) I.vi->initialize(o.img); else I.pb->initialize(o.img); break;
    case INIT_ROI: I.ii->initialize(o.img,o.roi); break;
    case APPLY: { cv::Mat m; if(!plain) m=prep(o,last,parent); cv::Mat before=m; if(I.ii) I.ii->apply(o.img,m,o.rate); else if(I.vi) I.vi->apply(o.img,m,o.rate); else I.pb->apply(o.img,m,o.rate); sim::Quiet q; r.m=m.clone(); last=m; SIM_CHECK(m.type()==CV_8UC1&&m.rows==o.rows&&m.cols==o.cols,"bad-mask","%s returned a %dx%d mask of type %d for a %dx%d frame",AN[I.c.algo],m.cols,m.rows,m.type(),o.cols,o.rows); for(int y=0;y<m.rows;y++) for(int x=0;x<m.cols;x++){ uchar v=m.at<uchar>(y,x); SIM_CHECK(v==0||v==255,"bad-mask","%s: mask value %d at (%d,%d) is neither background (0) nor foreground (255)",AN[I.c.algo],v,x,y); }
        if(!parent.empty()) for(int y=0;y<parent.rows;y++) for(int x=0;x<parent.cols;x++) if(!(x>=2&&x<2+o.cols&&y>=1&&y<1+o.rows)) SIM_CHECK(parent.at<uchar>(y,x)==33,"wrote-outside-mask","%s wrote to (%d,%d) of the matrix of which the passed %dx%d mask is the region at (2,1)",AN[I.c.algo],x,y,o.cols,o.rows); break; }
    case BGIMG: { cv::Mat b; if(I.ii) I.ii->getBackgroundImage(b); else if(I.vi) I.vi->getBackgroundImage(b); else I.pb->getBackgroundImage(b); sim::Quiet q; r.m=b.clone(); if(!plain&&!b.empty()) b=cv::Scalar::all(0x5A); break; }
    case BGDESC: { cv::Mat b; if(I.lo) I.lo->getBackgroundDescriptorsImage(b); else if(I.su) I.su->getBackgroundDescriptorsImage(b); else I.pa->getBackgroundDescriptorsImage(b); sim::Quiet q; r.m=b.clone(); if(!plain&&!b.empty()) b=cv::Scalar::all(0x5A); break; }
    case REFRESH: if(I.lo) I.lo->refreshModel(o.frac,o.force); else if(I.su) I.su->refreshModel(o.frac,o.force); else I.pa->refreshModel(1+(size_t)(o.frac*10),o.frac,o.force); break;
    case SETROI: { cv::Mat roi; { sim::Quiet q; roi=o.roi.clone(); } I.ii->setROI(roi); sim::Quiet q; r.m=roi.clone(); if(!plain) roi=cv::Scalar(0x5A); break; }
    case AUTORESET: I.ii->setAutomaticModelReset(o.force); break; } }catch(const std::exception& e){ r.threw=true; sim::Quiet q; r.what=e.what(); }
    sim::Quiet q; if(!copy.empty()) for(int y=0;y<copy.rows;y++) SIM_CHECK(!memcmp(copy.ptr(y),o.img.ptr(y),(size_t)copy.cols*copy.elemSize()),"input-modified","%s modified its input frame",AN[I.c.algo]); if(!plain){ if(!I.fb.empty()&&(o0.t&1)) I.fb=cv::Scalar::all(0x5A); if(!I.rb.empty()) I.rb=cv::Scalar::all(0); if(o0.k==APPLY&&(o0.t&2)&&parent.empty()&&!last.empty()) last=cv::Scalar::all(0x5A); } return r; }
void run(const Script& s,int from,std::vector<Out>& out,bool plain,int skip_seed_at){ sim::set_rand_seed(s.seed); Inst I(s.c); cv::Mat last; for(int i=from;i<(int)s.ops.size();i++){ if(i==skip_seed_at) sim::set_rand_seed(s.seed+1000003); Out o=step(I,s.ops[i],last,plain); sim::Quiet q; out.push_back(o); } }
void cmp(const Script& s,int from,const std::vector<Out>& got,const std::vector<Out>& exp,int goff,const char* how){ sim::Quiet q; for(size_t i=0;i<exp.size();i++){ const Out& a=got[goff+i]; const Out& b=exp[i]; const Op& o=s.ops[from+i]; static const char* const ON_[]={"initialize","initialize with ROI","apply","background image","descriptor image","refreshModel","setROI","setAutomaticModelReset"};
    SIM_CHECK(a.threw==b.threw,"state-or-schedule-dependent","%s: step %zu (%s, %dx%dx%d) %s %s but not in the reference run: %s",AN[s.c.algo],from+i,ON_[o.k],o.cols,o.rows,o.ch,a.threw?"raised an error":"raised no error",how,(a.threw?a.what:b.what).c_str()); if(a.threw) continue; SIM_CHECK(a.m.empty()==b.m.empty(),"state-or-schedule-dependent","%s: step %zu (%s): one result is empty",AN[s.c.algo],from+i,ON_[o.k]); if(a.m.empty()) continue; SIM_CHECK(a.m.size()==b.m.size()&&a.m.type()==b.m.type(),"state-or-schedule-dependent","%s: step %zu (%s): results of different size %s",AN[s.c.algo],from+i,ON_[o.k],how);
    for(int y=0;y<a.m.rows;y++) for(int x=0;x<a.m.cols;x++) SIM_CHECK(!memcmp(a.m.ptr(y,x),b.m.ptr(y,x),a.m.elemSize()),"state-or-schedule-dependent","%s: step %zu (%s, %dx%dx%d): pixel (%d,%d) %s differs from the reference run",AN[s.c.algo],from+i,ON_[o.k],o.cols,o.rows,o.ch,x,y,how); } }
void go(const std::vector<int>& algos,bool reuse){ int T=(int)algos.size(); { bool lb=false; for(int x:algos) lb=lb||x==SUBSENSE||x==PAWCS; const bool big=lb&&sim::gen_rare(2,1,T==1?2:4); sim_frame_wv=big?16:320; sim_frame_hv=big?16:240; } std::vector<Script> s; for(int a:algos) s.push_back(gen_script(a,T>1)); std::vector<std::vector<Out>> exp(T),got(T),fresh(T); sim::rand_per_thread(true);
    int fill=1+(int)sim::gen(3); 
    for(int t=0;t<T;t++){ int r=s[t].restart; { sim::heap_set_fill(0); std::thread th([&]{ run(s[t],0,exp[t],true,r); }); th.join(); for(size_t i=0;i<exp[t].size();i++) SIM_CHECK(!exp[t][i].threw,"valid-call-failed","%s: step %zu (%d) on a valid %dx%dx%d input raised: %s",AN[s[t].c.algo],i,s[t].ops[i].k,s[t].ops[i].cols,s[t].ops[i].rows,s[t].ops[i].ch,exp[t][i].what.c_str()); }
        if(reuse&&r>=0){ sim::heap_set_fill(fill); std::thread th([&]{ run(s[t],r,fresh[t],true,r); }); th.join(); cmp(s[t],r,exp[t],fresh[t],r,"after re-initialising a used instance"); sim::probe("video:reuse"); } }
    sim::heap_set_fill(fill); std::vector<std::thread> th; for(int t=0;t<T;t++) th.emplace_back([&,t]{ run(s[t],0,got[t],false,s[t].restart); }); for(auto& t:th) t.join();
    for(int t=0;t<T;t++){ char h[120]; snprintf(h,sizeof h,"next to %d other instance(s), with other heap content and output matrices",T-1); cmp(s[t],0,got[t],exp[t],0,h); sim::probe((std::string("video:")+AN[s[t].c.algo]).c_str()); for(auto& o:got[t]) if(!o.m.empty()){ sim::Quiet q; int nz=cv::countNonZero(o.m.reshape(1)); if(nz&&nz<(int)o.m.total()) sim::probe("video:mixed-mask"); } } }
}
SIM_HARNESS_W("P20",p20_one_instance,6){ go({(int)sim::gen(NALGO)},true); }
SIM_HARNESS_W("P20",p20_concurrent_instances,6){ std::vector<int> a; int n=2+(int)sim::gen(2); int f=(int)sim::gen(NALGO); bool eq=sim::gen_bool(); for(int i=0;i<n;i++) a.push_back(eq?f:(int)sim::gen(NALGO)); go(a,false); }
