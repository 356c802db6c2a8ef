// P15: descriptors, mutual information and dense optical flow: any team size, any schedule, instance reuse, concurrent instances.
#include "sim.hpp"
#include "litiv/features2d.hpp"
#include "litiv/3rdparty/ofdis/ofdis.hpp"
#include <thread>
#include <memory>
#include <cstring>
static const bool fair_cap_set=(sim::set_fair_cap(600000000ull),true); // pure computing: long but finite
namespace {
uint32_t mix(uint32_t a){ a^=a>>16; a*=0x7feb352dU; a^=a>>15; a*=0x846ca68bU; a^=a>>16; return a; }
enum Algo { A_LSS, A_SC, A_LBSP, A_MI, A_FLOW, A_DASC, NALGO };
const char* const AN[]={"local self-similarity","shape context","binary similarity patterns","mutual information","optical flow","adaptive self-correlation"};
enum Mode { DENSE, DENSE_MAT, KEYPTS_MAP, CLASSIC, BATCH, NMODES };
const char* const MN[]={"dense map","dense map (generic output)","keypoint map","keypoint list","batch"};
struct Cfg { int algo=0,a=0,b=0,c=0; bool f1=false,f2=false,f3=false; };
struct Job { int mode=0,rows=0,cols=0,ch=1,outmode=0,nkp=0; uint32_t salt=0; cv::Mat img,img2,mask; std::vector<cv::KeyPoint> kp; };
struct Res { cv::Mat m; std::vector<cv::Mat> v; std::vector<cv::KeyPoint> kp; std::vector<double> sc; bool threw=false; };
void paint(cv::Mat& m,uint32_t salt,int kind){ sim::Quiet q; size_t es=m.elemSize(); int R=m.rows,C=m.cols; for(int y=0;y<R;y++) for(int x=0;x<C;x++) for(size_t k=0;k<es;k++){ uint32_t h=mix(salt*2654435761u+(uint32_t)((y*C+x)*es+k)); int v; if(kind==0) v=h&255; else if(kind==1) v=(mix(salt+(y/3)*71+(x/3)*7)&255); else if(kind==2) v=(h%6)?0:255; else if(kind==3) v=(int)(127+100*std::sin(0.5*x+salt%7)*std::cos(0.4*y)); else v=(y>R/4&&y<3*R/4&&x>C/4&&x<3*C/4)?255:0; m.data[y*m.step[0]+x*es+k]=(uchar)v; } }
Cfg gen_cfg(int algo){ Cfg c; c.algo=algo; c.f1=sim::gen_bool(); c.f2=sim::gen_bool(); c.f3=sim::gen_bool();
    if(algo==A_LSS){ c.a=c.f3?(int)sim::gen(2):0; c.b=3+(int)sim::gen(2); c.c=sim::gen_bool()?3:1; }
    else if(algo==A_SC){ c.a=1+(int)sim::gen(2); c.b=c.a+1+(int)sim::gen(5); c.c=(int)sim::gen(4); }
    else if(algo==A_MI){ c.a=1+2*(int)sim::gen(3); c.b=1+2*(int)sim::gen(3); }
    else if(algo==A_FLOW){ c.a=1+(int)sim::gen(2); c.b=(int)sim::gen(3); c.c=(int)sim::gen(2); }
    else if(algo==A_DASC){ c.a=(int)sim::gen(2); c.b=1+(int)sim::gen(2); }
    else { c.a=(int)sim::gen(2); c.b=(int)sim::gen(40); }
    return c; }
struct Inst { Cfg c; std::unique_ptr<LSS> lss; std::unique_ptr<ShapeContext> sc; std::unique_ptr<LBSP> lbsp; std::unique_ptr<MutualInfo> mi; std::unique_ptr<DASC> dasc;
    explicit Inst(const Cfg& k):c(k){ switch(c.algo){
        case A_LSS: lss.reset(new LSS(c.a,c.b,c.c,4,2,300000.f,c.f1,c.f2,c.f3)); break;
        case A_SC: if(c.c==3) sc.reset(new ShapeContext(0.1*c.a,0.3*c.b,4,2,c.f1,c.f2,c.f3)); else sc.reset(new ShapeContext((size_t)c.a,(size_t)c.b,4,2,c.c==2,c.f2,c.f3)); break;
        case A_LBSP: if(c.a) lbsp.reset(new LBSP((size_t)c.b)); else lbsp.reset(new LBSP(0.365f,(size_t)c.b)); break;
        case A_MI: mi.reset(new MutualInfo(cv::Size(c.a,c.b),c.f1,c.f2,true)); break;
        case A_DASC: if(c.a) dasc.reset(new DASC(2.0f,0.2f,(size_t)c.b,c.f1)); else dasc.reset(new DASC((size_t)(1+c.b),0.09f,(size_t)c.b,c.f1)); break;
    } }
    int border() const { return c.algo==A_LSS?(c.b*2+c.c)/2:c.algo==A_LBSP?2:0; } };
Job gen_job(const Cfg& c){ Job j; j.salt=sim::gen(100000); j.outmode=(int)sim::gen(c.algo==A_FLOW?5:4); int lo=1,span=10,big=0; switch(c.algo){ case A_LSS: lo=c.b*2+c.c; span=6; break; case A_SC: lo=2; span=12; break; case A_LBSP: lo=5; span=9; break; case A_MI: lo=std::max(c.a,c.b); span=7; break; case A_FLOW: if(sim::gen_rare(2,1,3)){ lo=20; span=10; big=20; } else { lo=8; span=12; } break; case A_DASC: lo=31; span=3; break; }
    j.rows=lo+(int)sim::gen(span); j.cols=lo+big+(int)sim::gen(span); j.ch=1; j.mode=(int)sim::gen(NMODES);
    if(c.algo==A_LSS||c.algo==A_LBSP||c.algo==A_MI||c.algo==A_DASC) j.ch=sim::gen_bool()?3:1; if(c.algo==A_FLOW&&c.b==2) j.ch=3; if(c.algo==A_MI&&c.f2) j.ch=1; // (dense 24-bit histograms: 16M bins, too slow here)
    if(c.algo==A_DASC&&j.mode==CLASSIC) j.mode=DENSE;
    int kind=c.algo==A_SC?(sim::gen_bool()?2:4):c.algo==A_FLOW?(sim::gen_bool()?3:1):(int)sim::gen(2); if(c.algo==A_SC&&sim::gen_rare(2,1,6)) kind=-1;
    j.img.create(j.rows,j.cols,CV_8UC(j.ch)); if(kind<0) j.img=cv::Scalar::all(0); else paint(j.img,j.salt,kind);
    if(c.algo==A_MI){ if(j.mode!=KEYPTS_MAP){ j.rows=c.b; j.cols=c.a; j.img.create(j.rows,j.cols,CV_8UC(j.ch)); paint(j.img,j.salt,kind); } j.img2.create(j.rows,j.cols,CV_8UC1); paint(j.img2,j.salt+3,(int)sim::gen(2)); }
    if(c.algo==A_FLOW){ j.img2.create(j.rows,j.cols,j.img.type()); int dx=(int)sim::gen(4)-1,dy=(int)sim::gen(3)-1; sim::Quiet q; for(int y=0;y<j.rows;y++) for(int x=0;x<j.cols;x++) memcpy(j.img2.ptr(y,x),j.img.ptr(std::min(j.rows-1,std::max(0,y+dy)),std::min(j.cols-1,std::max(0,x+dx))),j.img.elemSize()); }
    if(j.mode==KEYPTS_MAP||j.mode==CLASSIC||c.algo==A_MI){ j.nkp=(int)sim::gen(9); int bx=c.algo==A_MI?c.a/2:0,by=c.algo==A_MI?c.b/2:0; for(int i=0;i<j.nkp;i++){ float x=bx+(float)sim::gen(std::max(1,j.cols-2*bx)),y=by+(float)sim::gen(std::max(1,j.rows-2*by)); if(c.algo==A_SC&&sim::gen_rare(2,1,4)&&x+1<j.cols) x+=0.25f; j.kp.emplace_back(cv::Point2f(x,y),1.f); } }
    return j; }
cv::Mat prep(const Inst& I,const Job& j,const cv::Mat& last){ if(j.outmode==0||I.c.algo==A_MI) return cv::Mat(); if(j.outmode==3) return last; sim::Quiet q; cv::Mat m; int n=I.lss?8:I.sc?8:I.dasc?128:0; int r=j.rows+(j.outmode==2?1:0),c=j.cols; if(n){ int s[3]={r,c,n}; m.create(3,s,CV_32FC1); m=cv::Scalar(13.5); } else if(I.lbsp){ m.create(r,c,CV_16UC(j.ch)); m=cv::Scalar::all(7); } else { m.create(r,c+(j.outmode==4?5:0),I.c.c?CV_32FC1:CV_32FC2); m=cv::Scalar::all(3); if(j.outmode==4) m=m(cv::Rect(2,0,c,r)); } return m; }
Res run(Inst& I,const Job& j,cv::Mat& last){ Res r; r.kp=j.kp; cv::Mat out=prep(I,j,last); try{ switch(I.c.algo){
    case A_LSS: case A_SC: case A_DASC: { cv::Mat_<float> o; if(out.type()==CV_32FC1&&out.dims==3) o=out; auto dense=[&](cv::Mat_<float>& x){ if(I.lss) I.lss->compute2(j.img,x); else if(I.sc) I.sc->compute2(j.img,x); else I.dasc->compute2(j.img,x); };
        if(j.mode==DENSE){ dense(o); r.m=o; } else if(j.mode==DENSE_MAT){ cv::Mat g=o; if(I.lss) I.lss->compute2(j.img,g); else if(I.sc) I.sc->compute2(j.img,g); else I.dasc->compute2(j.img,g); r.m=g; }
        else if(j.mode==KEYPTS_MAP){ if(I.lss) I.lss->compute2(j.img,r.kp,o); else if(I.sc) I.sc->compute2(j.img,r.kp,o); else I.dasc->compute2(j.img,r.kp,o); r.m=o; }
        else if(j.mode==CLASSIC){ cv::Mat d; cv::DescriptorExtractor* e=I.lss?(cv::DescriptorExtractor*)I.lss.get():I.sc?(cv::DescriptorExtractor*)I.sc.get():(cv::DescriptorExtractor*)I.dasc.get(); e->compute(j.img,r.kp,d); r.m=d; }
        else { std::vector<cv::Mat> in{j.img,j.img}; std::vector<cv::Mat_<float>> v; if(I.lss) I.lss->compute2(in,v); else if(I.sc) I.sc->compute2(in,v); else I.dasc->compute2(in,v); for(auto& x:v) r.v.push_back(x); if(!v.empty()) r.m=v[0]; } break; }
    case A_LBSP: { cv::Mat o=out; if(j.mode==KEYPTS_MAP){ I.lbsp->compute2(j.img,r.kp,o); } else if(j.mode==CLASSIC){ o=cv::Mat(); ((cv::DescriptorExtractor*)I.lbsp.get())->compute(j.img,r.kp,o); } else if(j.mode==BATCH){ std::vector<cv::Mat> in{j.img,j.img},v; I.lbsp->compute2(in,v); r.v=v; o=v[0]; } else I.lbsp->compute2(j.img,o); r.m=o; break; }
    case A_MI: if(j.mode==KEYPTS_MAP) I.mi->compute(j.img,j.img2,r.kp,r.sc); else r.sc.push_back(I.mi->compute(j.img,j.img2)); break;
    case A_FLOW: { cv::Mat o=out; ofdis::FlowParams p(I.c.a); using namespace ofdis; if(I.c.c==0){ if(I.c.b==2) computeFlow<FlowInput_RGB,FlowOutput_OpticalFlow>(j.img,j.img2,o,p); else if(I.c.b==1) computeFlow<FlowInput_Gradient,FlowOutput_OpticalFlow>(j.img,j.img2,o,p); else computeFlow<FlowInput_Grayscale,FlowOutput_OpticalFlow>(j.img,j.img2,o,p); } else { if(I.c.b==2) computeFlow<FlowInput_RGB,FlowOutput_StereoDepth>(j.img,j.img2,o,p); else if(I.c.b==1) computeFlow<FlowInput_Gradient,FlowOutput_StereoDepth>(j.img,j.img2,o,p); else computeFlow<FlowInput_Grayscale,FlowOutput_StereoDepth>(j.img,j.img2,o,p); } r.m=o; break; }
    } }catch(const std::exception& e){ r.threw=true; sim::logf("threw: %s",e.what()); }
    sim::Quiet q; last=r.m; if(!r.m.empty()) r.m=r.m.clone(); for(auto& x:r.v) x=x.clone(); return r; }
bool same_mat(const cv::Mat& a,const cv::Mat& b,const Inst& I,const Job& j,const std::vector<cv::KeyPoint>& kp,std::string& why){ if(a.empty()!=b.empty()){ why="one is empty"; return false; } if(a.empty()) return true; if(a.type()!=b.type()||a.dims!=b.dims){ why="different type"; return false; } for(int i=0;i<a.dims;i++) if(a.size[i]!=b.size[i]){ why="different size"; return false; }
    // which elements are defined: everything for shape context, self-correlation and flow, and for described points otherwise
    int n=a.dims==3?a.size[2]*4:(int)a.elemSize(); bool map=a.dims==3||I.lbsp; int R=a.size[0],C=a.dims>=2?a.size[1]:1; if(!map||j.mode==CLASSIC){ for(int y=0;y<R;y++) if(memcmp(a.ptr(y),b.ptr(y),(size_t)C*a.elemSize())){ char s[80]; snprintf(s,sizeof s,"row %d of %d differs",y,R); why=s; return false; } return true; }
    std::vector<char> use((size_t)R*C,1); int br=I.border(); if((I.lss||I.lbsp)&&j.mode==KEYPTS_MAP){ std::fill(use.begin(),use.end(),0); for(auto& k:kp){ int y=(int)k.pt.y,x=(int)k.pt.x; if(y>=0&&x>=0&&y<R&&x<C) use[y*C+x]=1; } } else if(I.lbsp){ for(int y=0;y<R;y++) for(int x=0;x<C;x++) use[y*C+x]=y>=br&&x>=br&&y<R-br&&x<C-br; }
    for(int y=0;y<R;y++) for(int x=0;x<C;x++) if(use[y*C+x]&&memcmp(a.ptr(y,x),b.ptr(y,x),n)){ char s[80]; snprintf(s,sizeof s,"point (%d,%d) differs",x,y); why=s; return false; } return true; }
bool same(const Res& a,const Res& b,const Inst& I,const Job& j,std::string& why){ sim::Quiet q; if(a.threw!=b.threw){ why=a.threw?"raised an error":"raised no error"; return false; } if(a.threw) return true; if(a.kp.size()!=b.kp.size()){ why="different keypoints"; return false; } for(size_t i=0;i<a.kp.size();i++) if(a.kp[i].pt.x!=b.kp[i].pt.x||a.kp[i].pt.y!=b.kp[i].pt.y){ why="different keypoints"; return false; } if(a.sc.size()!=b.sc.size()){ why="different score count"; return false; } for(size_t i=0;i<a.sc.size();i++) if(memcmp(&a.sc[i],&b.sc[i],8)){ char s[100]; snprintf(s,sizeof s,"score %zu is %.17g, expected %.17g",i,a.sc[i],b.sc[i]); why=s; return false; } if(a.v.size()!=b.v.size()){ why="different batch size"; return false; } for(size_t i=0;i<a.v.size();i++) if(!same_mat(a.v[i],b.v[i],I,j,a.kp,why)) return false; return same_mat(a.m,b.m,I,j,a.kp,why); }
void go(const std::vector<int>& algos,int jobs,int team){ int T=(int)algos.size(); std::vector<Cfg> cf(T); std::vector<std::vector<Job>> js(T); std::vector<std::vector<Res>> exp(T),got(T);
    for(int t=0;t<T;t++){ cf[t]=gen_cfg(algos[t]); for(int k=0;k<jobs;k++) js[t].push_back(gen_job(cf[t])); if(jobs>1&&sim::gen_rare(2,1,3)) js[t].back()=js[t][0]; if(jobs>1&&sim::gen_rare(2,1,3)){ Job& b=js[t].back(); b=js[t][(size_t)jobs-2]; b.img=b.img.clone(); b.salt=sim::gen(100000); paint(b.img,b.salt,(int)sim::gen(5)); if(!b.img2.empty()&&cf[t].algo==A_MI){ b.img2=b.img2.clone(); if(sim::gen_bool()) paint(b.img2,b.salt+3,(int)sim::gen(2)); } b.outmode=(int)sim::gen(4); } }
    sim::set_team(1); for(int t=0;t<T;t++) for(auto& j:js[t]){ std::thread fresh([&]{ Inst I(cf[t]); cv::Mat none; Job k=j; k.outmode=0; Res r=run(I,k,none); sim::Quiet q; exp[t].push_back(r); }); fresh.join(); SIM_CHECK(!exp[t].back().threw,"valid-call-failed","%s (%s, %dx%dx%d) raised an error for valid input",AN[cf[t].algo],MN[j.mode],j.cols,j.rows,j.ch); }
    sim::set_team(team); sim::logf("instances %d jobs %d team %d algo %d",T,jobs,team,algos[0]);
    // one buffer per input, overwritten with the next image, as a caller with a video loop does
    auto body=[&](int t){ Inst I(cf[t]); cv::Mat last,fb,fb2; auto put=[](const cv::Mat& m,cv::Mat& b){ if(m.empty()) return; if(!b.empty()&&b.size()==m.size()&&b.type()==m.type()){ m.copyTo(b); sim::probe("feat:same-buffer"); } else b=m.clone(); }; auto eq=[](const cv::Mat& a,const cv::Mat& b){ for(int y=0;y<a.rows;y++) if(memcmp(a.ptr(y),b.ptr(y),(size_t)a.cols*a.elemSize())) return false; return true; };
        for(auto& j:js[t]){ Job k=j; { sim::Quiet q; put(j.img,fb); k.img=fb; if(!j.img2.empty()){ put(j.img2,fb2); k.img2=fb2; } } Res r=run(I,k,last); sim::Quiet q; SIM_CHECK(eq(j.img,k.img)&&(j.img2.empty()||eq(j.img2,k.img2)),"input-modified","%s (%s) modified its input image",AN[cf[t].algo],MN[j.mode]); if((j.salt&1)&&!last.empty()) last=cv::Scalar::all(2.5); got[t].push_back(r); } };
    std::vector<std::thread> th; for(int t=1;t<T;t++) th.emplace_back(body,t); body(0); for(auto& t:th) t.join();
    for(int t=0;t<T;t++){ Inst I(cf[t]); for(int k=0;k<jobs;k++){ std::string why; Job& j=js[t][k]; SIM_CHECK(same(got[t][k],exp[t][k],I,j,why),"schedule-or-history-dependent","%s (%s, %dx%dx%d, call %d of an instance, output mode %d) on %d threads next to %d other instance(s) differs from a fresh sequential run: %s",AN[cf[t].algo],MN[j.mode],j.cols,j.rows,j.ch,k,j.outmode,team,T-1,why.c_str()); sim::probe((std::string("feat:")+AN[cf[t].algo]).c_str()); } } }
int algo(){ return (int)sim::gen(5); }
}
SIM_HARNESS_W("P15",p15_one_instance,6){ go({algo()},1+(int)sim::gen(3),2+(int)sim::gen(4)); }
SIM_HARNESS_W("P15",p15_concurrent_instances,5){ std::vector<int> a; int n=2+(int)sim::gen(2); int first=algo(); bool eq=sim::gen_bool(); for(int i=0;i<n;i++) a.push_back(eq?first:algo()); go(a,1+(int)sim::gen(2),1+(int)sim::gen(3)); }
SIM_HARNESS_W("P15",p15_flow,2){ go({A_FLOW},1+(int)sim::gen(2),2+(int)sim::gen(3)); }
SIM_HARNESS_W("P15",p15_flow_concurrent,1){ go({A_FLOW,A_FLOW},1+(int)sim::gen(2),1+(int)sim::gen(2)); }
SIM_HARNESS_W("P15",p15_dasc,1){ go({A_DASC},1+(int)sim::gen(2),1+(int)sim::gen(2)); }
