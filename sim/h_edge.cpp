// P24: edge detectors (LBSP, Canny) and the image warper: results are a function of the current arguments, whatever the instance, the heap or other threads did before.
#include "sim.hpp"
#include "litiv/imgproc/EdgeDetectorLBSP.hpp"
#include "litiv/imgproc/EdgeDetectorCanny.hpp"
#include "litiv/imgproc/imwarp.hpp"
#include <opencv2/imgproc.hpp>
#include <thread>
#include <memory>
#include <cmath>
namespace sim { void heap_set_fill(int mode); }
static const bool fair_cap_set=(sim::set_fair_cap(600000000ull),true);
namespace {
uint32_t mix(uint32_t a){ a^=a>>16; a*=0x7feb352dU; a^=a>>15; a*=0x846ca68bU; a^=a>>16; return a; }
enum Kind { K_LBSP, K_CANNY, K_WARP };
const char* const KN[]={"EdgeDetectorLBSP","EdgeDetectorCanny","ImageWarper"};
struct Cfg { int kind=0; int levels=3; double fac=0.5,sigma=0; bool norm=false,defctor=false; };
struct Job { int rows=0,cols=0,ch=1,outmode=0,fill=0; bool sweep=false,reinit=true,faulty=false,ctor=false; double thr=0.5; cv::Mat img; // edges
    int drows=0,dcols=0,grid=5,wmode=0,rel=0; double ratio=1,ang=0,scale=1,tx=0,ty=0; std::vector<cv::Point2d> src,dst; }; // warps
void paint(cv::Mat& m,uint32_t salt,int mode){ sim::Quiet q; int cn=m.channels(); for(int y=0;y<m.rows;y++) for(int x=0;x<m.cols;x++) for(int c=0;c<cn;c++){ uint32_t h=mix(salt*2654435761u+(uint32_t)((y*m.cols+x)*cn+c)); int v=0; switch(mode){ case 0: v=h&255; break; case 1: v=salt&255; break; case 2: v=((y>=m.rows/2)^(c==1&&(salt&4)))?200:20; break; case 3: v=((x>=(int)(salt%(m.cols+1)))?180:30)+(int)(h%9); break; case 4: v=(y*7+x*3+c*11)&255; break; case 5: { int r=std::min(m.rows,m.cols)/4+1; bool in=std::abs(y-m.rows/2)<r&&std::abs(x-m.cols/2)<r; v=(in?210:40)+(int)(h%5); break; } case 6: { double d=std::hypot(y-m.rows/2.0,x-m.cols/2.0); v=d<m.cols/3.0?170:25; break; } default: v=(mix(salt+(uint32_t)((y/3)*977+(x/4)*31))&1)?220:60; } m.ptr<uchar>(y)[x*cn+c]=(uchar)v; } }
cv::Point2d rel(const Job& j,cv::Point2d p){ double c=std::cos(j.ang)*j.scale,s=std::sin(j.ang)*j.scale; return cv::Point2d(c*p.x-s*p.y+j.tx,s*p.x+c*p.y+j.ty); }
Cfg gen_cfg(int kind){ Cfg c; c.kind=kind; if(kind==K_LBSP){ c.levels=1+(int)sim::gen(4); static const double F[]={0.5,0.25,0.9,0.05}; c.fac=F[sim::gen(4)]; c.norm=sim::gen_rare(2,1,4); c.defctor=sim::gen_rare(2,1,4); if(c.defctor){ c.levels=3; c.fac=0.5; c.norm=false; } } else if(kind==K_CANNY){ static const double F[]={0.4,0.1,0.8}; c.fac=F[sim::gen(3)]; static const double S[]={1.4142135623730951,0,0.7,2.3}; c.sigma=S[sim::gen(4)]; c.defctor=sim::gen_rare(2,1,4); if(c.defctor){ c.fac=0.4; c.sigma=std::sqrt(2.0); } } return c; }
Job gen_job(const Cfg& c){ Job j; uint32_t salt=sim::gen(100000); int big=sim::gen_rare(2,1,6); auto dim=[&]{ int k=(int)sim::gen(5); return k==0?1+(int)sim::gen(5):big?20+(int)sim::gen(60):5+(int)sim::gen(18); }; j.rows=dim(); j.cols=dim(); j.outmode=(int)sim::gen(4); j.fill=(int)sim::gen(4);
    if(c.kind==K_WARP){ j.ch=1+(int)sim::gen(4); j.drows=sim::gen_bool()?j.rows:dim(); j.dcols=sim::gen_bool()?j.cols:dim(); static const int G[]={5,1,2,3,7,100}; j.grid=G[sim::gen(6)]; j.wmode=(int)sim::gen(2); j.rel=(int)sim::gen(6); static const double R[]={1,0,0.5,1.5,-1}; j.ratio=R[sim::gen(5)]; j.reinit=sim::gen_rare(4,1,2)!=0; j.ctor=sim::gen_rare(2,1,4)!=0;
        if(j.rel<=2){ j.ang=j.rel==0?0:((int)sim::gen(41)-20)*0.05; j.scale=(j.rel==2&&j.wmode==1)?0.5+0.1*sim::gen(16):1; j.tx=((int)sim::gen(17)-8)*0.5; j.ty=((int)sim::gen(17)-8)*0.5; }
        int n=j.rel==5?1+(int)sim::gen(2):2+(int)sim::gen(5); for(int i=0;i<n;i++){ cv::Point2d d((double)sim::gen((unsigned)j.dcols+4)-2,(double)sim::gen((unsigned)j.drows+4)-2); if(sim::gen_rare(2,1,3)) d+=cv::Point2d(0.25,0.5); if(j.rel<=2&&i==1) d=j.dst[0]+cv::Point2d(3+sim::gen(5),2+sim::gen(5)); if(j.rel==4&&i) d=j.dst[0]; cv::Point2d s=j.rel<=2?rel(j,d):j.rel==5?d:cv::Point2d((double)sim::gen((unsigned)j.cols+4)-2,(double)sim::gen((unsigned)j.rows+4)-2+0.5*sim::gen(2)); if(j.rel==4&&i&&sim::gen_bool()) s=j.src[0]; if(j.rel==3&&i&&sim::gen_rare(2,1,3)) s=j.src[0]; j.dst.push_back(d); j.src.push_back(s); } }
    else { j.ch=c.kind==K_LBSP?1+(int)sim::gen(4):(int[]){1,3,4}[sim::gen(3)]; j.sweep=sim::gen_rare(2,1,4)!=0; if(c.kind==K_LBSP){ static const double T[]={0.5,0.3,0.1,0,1,0.75,0.0625,-1,2,0.45}; j.thr=T[sim::gen(10)]; } else { static const double T[]={100,30,0,10,255,-1,60,700}; j.thr=T[sim::gen(8)]; } }
    int pm=(int)sim::gen(8); if(c.kind==K_LBSP&&c.levels==1&&sim::gen_rare(2,1,5)){ j.rows=100+(int)sim::gen(30); j.cols=100+(int)sim::gen(30); j.ch=1; pm=0; j.thr=0.2; sim::probe("edge:dense"); }
    j.img.create(j.rows,j.cols,CV_8UC(j.ch)); paint(j.img,salt,pm); return j; }
struct Inst { Cfg c; std::unique_ptr<IEdgeDetector> d; std::unique_ptr<ImageWarper> w; bool winit=false; Job last; cv::Mat fb;
    explicit Inst(const Cfg& cc):c(cc){ if(c.kind==K_LBSP) d.reset(c.defctor?new EdgeDetectorLBSP():new EdgeDetectorLBSP((size_t)c.levels,c.fac,c.norm)); else if(c.kind==K_CANNY) d.reset(c.defctor?new EdgeDetectorCanny():new EdgeDetectorCanny(c.fac,c.sigma)); else w.reset(new ImageWarper()); } };
struct Res { cv::Mat m; bool threw=false; };
void winit(Inst& I,const Job& j){ auto m=j.wmode?ImageWarper::SIMILARITY:ImageWarper::RIGID; if(j.ctor){ std::unique_ptr<ImageWarper> w(new ImageWarper(j.src,cv::Size(j.cols,j.rows),j.dst,cv::Size(j.dcols,j.drows),j.grid,m)); I.w.swap(w); sim::probe("warp:constructed"); } else I.w->initialize(j.src,cv::Size(j.cols,j.rows),j.dst,cv::Size(j.dcols,j.drows),j.grid,m); }
Res run(Inst& I,Job& j0,cv::Mat& recycled,bool fresh){ Res r; cv::Mat out; Job j=j0; if(!fresh){ sim::Quiet q; if(j0.img.rows!=I.fb.rows||j0.img.cols!=I.fb.cols||j0.img.type()!=I.fb.type()) I.fb=j0.img.clone(); else { j0.img.copyTo(I.fb); sim::probe("edge:same-buffer"); } j.img=I.fb; } { sim::Quiet q; int R=I.c.kind==K_WARP?j.drows:j.rows,C=I.c.kind==K_WARP?j.dcols:j.cols,T=I.c.kind==K_WARP?CV_8UC(j.ch):CV_8UC1; if(!fresh){ if(j.outmode==1){ out.create(R,C,T); out=cv::Scalar::all(77); } else if(j.outmode==2){ out.create(R+1,C+2,CV_32FC1); out=cv::Scalar(3); } else if(j.outmode==3) out=recycled; } }
    try{ if(j.faulty){ sim::MallocFaults mf; if(I.c.kind==K_WARP){ if(j.reinit||!I.winit){ I.winit=false; winit(I,j); I.winit=true; } I.w->warp(j.img,out,j.ratio); } else if(j.sweep) I.d->apply(j.img,out); else I.d->apply_threshold(j.img,out,j.thr); }
        else if(I.c.kind==K_WARP){ if(j.reinit||!I.winit){ I.winit=false; winit(I,j); I.winit=true; } I.w->warp(j.img,out,j.ratio); } else if(j.sweep) I.d->apply(j.img,out); else I.d->apply_threshold(j.img,out,j.thr); }
    catch(const std::exception&){ r.threw=true; }
    if(r.threw&&I.c.kind==K_WARP&&!I.winit&&!j.ctor){ sim::Quiet q; bool refused=false; cv::Mat o2; try{ I.w->warp(j.img,o2,j.ratio); }catch(const std::exception&){ refused=true; } sim::probe("warp:failed-initialisation"); SIM_CHECK(refused,"warp-uninitialised","ImageWarper: after its initialisation failed an image was still warped"); }
    sim::Quiet q; if(!fresh) for(int y=0;y<j.img.rows;y++) SIM_CHECK(!memcmp(j.img.ptr(y),j0.img.ptr(y),(size_t)j.img.cols*j.img.elemSize()),"input-modified","%s changed its input image",KN[I.c.kind]); if(!r.threw){ r.m=out.clone(); recycled=out; if(!fresh&&(j.fill&1)) out=cv::Scalar::all(0x5A); } return r; }
// independent definition of the multi-scale LBSP edge detector
const int OX[16]={-2,2,0,0,-2,2,2,-2,0,-1,0,1,-1,1,1,-1},OY[16]={0,0,-2,2,2,-2,2,-2,1,0,-1,0,-1,1,-1,1};
struct Grad { int x=127,y=127,m=255; };
cv::Mat lbsp_ref(const Cfg& c,const cv::Mat& img,int thr){ sim::Quiet q; int cn=img.channels(); std::vector<cv::Mat> pyr{img}; for(int l=1;l<c.levels;l++){ const cv::Mat& p=pyr.back(); cv::Mat n((p.rows+1)/2,(p.cols+1)/2,p.type()); for(int y=0;y<n.rows;y++) for(int x=0;x<n.cols;x++) for(int k=0;k<cn;k++){ int Y=2*y,X=2*x; bool in=Y>=2&&X>=2&&Y<p.rows-2&&X<p.cols-2; int s=0; if(in){ for(int b=0;b<16;b++) s+=p.ptr<uchar>(Y+OY[b])[(X+OX[b])*cn+k]; s/=16; } else s=p.ptr<uchar>(Y)[X*cn+k]; n.ptr<uchar>(y)[x*cn+k]=(uchar)s; } pyr.push_back(n); }
    std::vector<Grad> g; cv::Size gs; for(int l=c.levels-1;l>=0;l--){ const cv::Mat& p=pyr[l]; std::vector<Grad> n((size_t)p.rows*p.cols); for(int y=0;y<p.rows;y++) for(int x=0;x<p.cols;x++){ Grad a; a.x=a.y=a.m=0; bool in=y>=2&&x>=2&&y<p.rows-2&&x<p.cols-2; if(in){ int best=-1; for(int kk=0;kk<cn;kk++){ int k=(kk+cn-1)%cn; int ref=p.ptr<uchar>(y)[x*cn+k],t=((ref>>2)+20)/2,cnt=0,gx=0,gy=0; for(int b=0;b<16;b++) if(std::abs((int)p.ptr<uchar>(y+OY[b])[(x+OX[b])*cn+k]-ref)>t){ cnt++; gx+=OX[b]<0?1:OX[b]>0?-1:0; gy+=OY[b]>0?1:OY[b]<0?-1:0; } if(cnt>best){ best=cnt; a.x=gx; a.y=gy; a.m=cnt; } } }
            if(!g.empty()){ const Grad& u=g[(size_t)(y/2)*gs.width+x/2]; if(std::abs(u.x)<std::abs(a.x)) a.x=u.x; if(std::abs(u.y)<std::abs(a.y)) a.y=u.y; a.m=std::min(a.m,u.m); } n[(size_t)y*p.cols+x]=a; } g.swap(n); gs=p.size(); }
    int R=img.rows,C=img.cols; auto mag=[&](int y,int x){ return y<0||x<0||y>=R||x>=C?0:g[(size_t)y*C+x].m; }; int low=(int)(thr*c.fac); cv::Mat cand(R,C,CV_8UC1,cv::Scalar(0)); auto ismax=[&](int y,int x,int dy,int dx){ int v=mag(y,x); for(int k=1;k<=2;k++) if(v<=mag(y-k*dy,x-k*dx)||v<mag(y+k*dy,x+k*dx)) return false; return true; };
    for(int y=0;y<R;y++) for(int x=0;x<C;x++){ const Grad& a=g[(size_t)y*C+x]; if(a.m<low) continue; double ax=std::abs(a.x),ay=std::abs(a.y); bool ok; if(ay<ax*0.41421356) ok=ismax(y,x,0,1); else if(ay>ax*2.41421356) ok=ismax(y,x,1,0); else if(a.x||a.y) ok=((a.x<0)==(a.y<0))?ismax(y,x,1,-1):ismax(y,x,1,1); else ok=ismax(y,x,1,-1)||ismax(y,x,1,1); if(ok) cand.at<uchar>(y,x)=1; }
    cv::Mat out(R,C,CV_8UC1,cv::Scalar(0)); std::vector<std::pair<int,int>> st; for(int y=0;y<R;y++) for(int x=0;x<C;x++) if(cand.at<uchar>(y,x)&&mag(y,x)>=thr&&!out.at<uchar>(y,x)){ out.at<uchar>(y,x)=255; st.push_back({y,x}); while(!st.empty()){ auto p=st.back(); st.pop_back(); for(int b=-1;b<=1;b++) for(int a=-1;a<=1;a++){ int Y=p.first+b,X=p.second+a; if(Y<0||X<0||Y>=R||X>=C||!cand.at<uchar>(Y,X)||out.at<uchar>(Y,X)) continue; out.at<uchar>(Y,X)=255; st.push_back({Y,X}); } } } return out; }
cv::Mat canny_ref(const Cfg& c,const cv::Mat& img,double thr){ cv::Mat b=img.clone(); if(c.sigma>0){ int k=((int)(8*std::ceil(c.sigma))-1)/2; cv::GaussianBlur(img,b,cv::Size(k,k),c.sigma,c.sigma); } cv::Mat o; cv::Canny(b,o,thr*c.fac,thr,3,true); return o; }
cv::Mat sweep_ref(const Cfg& c,const cv::Mat& img){ int N=c.kind==K_LBSP?16:255; cv::Mat cnt(img.rows,img.cols,CV_32SC1,cv::Scalar(0)); for(int t=0;t<N;t++){ cv::Mat m=c.kind==K_LBSP?lbsp_ref(c,img,t):canny_ref(c,img,t); for(int y=0;y<img.rows;y++) for(int x=0;x<img.cols;x++) cnt.at<int>(y,x)+=m.at<uchar>(y,x)!=0; }
    cv::Mat o(img.rows,img.cols,CV_8UC1); for(int y=0;y<img.rows;y++) for(int x=0;x<img.cols;x++) o.at<uchar>(y,x)=(uchar)std::min(255,cnt.at<int>(y,x)*(c.kind==K_LBSP?16:1)); if(c.kind==K_CANNY||c.norm) cv::normalize(o,o,0,255,cv::NORM_MINMAX); return o; }
void check_edges(const Cfg& c,const Job& j,const Res& r,const char* how){ sim::Quiet q; SIM_CHECK(r.m.type()==CV_8UC1&&r.m.size()==j.img.size(),"mask-size","%s (%s): the mask is %dx%d type %d for an image of %dx%d",KN[c.kind],how,r.m.cols,r.m.rows,r.m.type(),j.cols,j.rows); bool thr=!j.sweep; if(thr) for(int y=0;y<r.m.rows;y++) for(int x=0;x<r.m.cols;x++) SIM_CHECK(r.m.at<uchar>(y,x)==0||r.m.at<uchar>(y,x)==255,"mask-values","%s (%s): a thresholded mask has the value %d",KN[c.kind],how,r.m.at<uchar>(y,x));
    cv::Mat e; if(j.sweep) e=sweep_ref(c,j.img); else if(c.kind==K_LBSP){ double t=j.thr<0||j.thr>1?0.5:j.thr; e=lbsp_ref(c,j.img,(int)(t*16)); } else e=canny_ref(c,j.img,j.thr<0?100:j.thr);
    int on=0; for(int y=0;y<e.rows;y++) for(int x=0;x<e.cols;x++){ on+=e.at<uchar>(y,x)!=0; SIM_CHECK(e.at<uchar>(y,x)==r.m.at<uchar>(y,x),"edges-wrong","%s (%s, %d levels, factor %g, %dx%d, %d channels, %s, threshold %g): pixel (%d,%d) is %d, its definition gives %d",KN[c.kind],how,c.levels,c.fac,j.cols,j.rows,j.ch,j.sweep?"sweep":"threshold",j.thr,x,y,r.m.at<uchar>(y,x),e.at<uchar>(y,x)); } if(on) sim::probe(j.sweep?"edge:found-sweep":"edge:found"); }
void check_warp(const Job& g,const Job& j,const Res& r,const char* how){ sim::Quiet q; SIM_CHECK(r.m.type()==CV_8UC(j.ch)&&r.m.rows==g.drows&&r.m.cols==g.dcols,"warp-size","ImageWarper (%s): the output is %dx%d type %d instead of %dx%d",how,r.m.cols,r.m.rows,r.m.type(),g.dcols,g.drows); bool known=g.rel<=2&&g.dst.size()>=2; double slope=std::fabs(std::cos(g.ang)*g.scale-1)+std::fabs(std::sin(g.ang)*g.scale); double rt=j.ratio;
    for(int y=0;y<g.drows;y++) for(int x=0;x<g.dcols;x++){ double e=-1,fx=x,fy=y; if(rt==0) e=0; else if(known){ cv::Point2d t=rel(g,cv::Point2d(x,y)); fx=x+rt*(t.x-x); fy=y+rt*(t.y-y); e=0.01+std::fabs(rt)*slope; } if(g.grid==1||(y%g.grid==0&&x%g.grid==0)){ if(e>0) e=0.01; for(size_t k=0;k<g.dst.size()&&g.dst.size()>1;k++) if(g.dst[k].x==x&&g.dst[k].y==y){ fx=x+rt*(g.src[k].x-x); fy=y+rt*(g.src[k].y-y); e=1e-6; sim::probe("warp:control-point"); break; } }
        int y0=0,y1=j.rows-1,x0=0,x1=j.cols-1; if(e>=0){ auto cl=[](double v,int n){ return std::max(0.0,std::min(v,n-1.0)); }; y0=(int)std::floor(cl(fy-e,j.rows)); y1=(int)std::ceil(cl(fy+e,j.rows)); x0=(int)std::floor(cl(fx-e,j.cols)); x1=(int)std::ceil(cl(fx+e,j.cols)); }
        for(int c=0;c<j.ch;c++){ int lo=255,hi=0; if(e>=0||(y==0&&x<3)){ for(int b=y0;b<=y1;b++) for(int a=x0;a<=x1;a++){ int v=j.img.ptr<uchar>(b)[a*j.ch+c]; lo=std::min(lo,v); hi=std::max(hi,v); } int v=r.m.ptr<uchar>(y)[x*j.ch+c]; SIM_CHECK(v>=lo-(rt==0?0:1)&&v<=hi,"warp-wrong","ImageWarper (%s): %s warp of %zu points (grid %d, ratio %g, %dx%d to %dx%d): pixel (%d,%d) is %d, its definition gives a value of %d..%d around (%.3f,%.3f)",how,g.wmode?"similarity":"rigid",g.dst.size(),g.grid,rt,j.cols,j.rows,g.dcols,g.drows,x,y,v,lo,hi,fx,fy); if(known&&rt!=0) sim::probe("warp:transformed"); } } } }
uint64_t digest(const Job& j){ sim::Quiet q; uint64_t h=1469598103934665603ull; for(size_t i=0;i<j.img.total()*j.img.elemSize();i++) h=(h^j.img.data[i])*1099511628211ull; return h; }
bool same(const Res& a,const Res& b,std::string& why){ sim::Quiet q; if(a.threw!=b.threw){ why=a.threw?"it raised an error":"it raised no error"; return false; } if(a.threw) return true; if(a.m.type()!=b.m.type()||a.m.size()!=b.m.size()){ why="type or size differ"; return false; } for(int y=0;y<a.m.rows;y++) for(size_t x=0;x<a.m.cols*a.m.elemSize();x++) if(a.m.ptr<uchar>(y)[x]!=b.m.ptr<uchar>(y)[x]){ char s[80]; snprintf(s,sizeof s,"pixel (%d,%d) differs",(int)(x/a.m.elemSize()),y); why=s; return false; } return true; }
void go(int n,int jobs,bool faults){ std::vector<Cfg> cf; std::vector<std::vector<Job>> js(n); std::vector<std::vector<Res>> ex(n),got(n); std::vector<std::vector<uint64_t>> dg(n); int k0=(int)sim::gen(3); bool eq=sim::gen_bool();
    for(int c=0;c<n;c++){ cf.push_back(gen_cfg(c&&!eq?(int)sim::gen(3):k0)); if(c&&eq&&sim::gen_bool()) cf[c]=cf[0]; for(int k=0;k<jobs;k++){ js[c].push_back(gen_job(cf[c])); Job& j=js[c].back(); if(cf[c].kind==K_WARP&&k&&!j.reinit){ Job p=js[c][k-1]; p.reinit=false; p.ratio=j.ratio; p.outmode=j.outmode; p.fill=j.fill; p.img=p.img.clone(); paint(p.img,sim::gen(100000),(int)sim::gen(8)); j=p; } if(cf[c].kind==K_WARP&&!k) j.reinit=true; if(cf[c].kind!=K_WARP&&k&&sim::gen_bool()){ const Job& p=js[c][k-1]; bool tr=sim::gen_rare(2,1,4)!=0; j.rows=tr?p.cols:p.rows; j.cols=tr?p.rows:p.cols; j.ch=p.ch; j.img.create(j.rows,j.cols,CV_8UC(j.ch)); paint(j.img,sim::gen(100000),(int)sim::gen(8)); sim::probe("edge:same-size"); } } }
    // alone, fresh instance for every call, zeroed memory
    for(int c=0;c<n;c++) for(auto& j:js[c]){ sim::heap_set_fill(0); dg[c].push_back(digest(j)); cv::Mat dummy; Inst I(cf[c]); ex[c].push_back(run(I,j,dummy,true)); SIM_CHECK(!ex[c].back().threw,"valid-call-failed","%s (%dx%d, %d channels) raised an error for valid input",KN[cf[c].kind],j.cols,j.rows,j.ch); if(cf[c].kind==K_WARP) check_warp(j,j,ex[c].back(),"fresh instance"); else check_edges(cf[c],j,ex[c].back(),"fresh instance"); SIM_CHECK(digest(j)==dg[c].back(),"input-modified","%s changed its input image",KN[cf[c].kind]); }
    if(faults){ sim::enable(sim::K_MALLOCFAIL,1+(int)sim::gen(60)); for(int c=0;c<n;c++) for(auto& j:js[c]) j.faulty=sim::gen_bool(); }
    auto body=[&](int c){ cv::Mat rec; Inst I(cf[c]); for(auto& j:js[c]){ sim::heap_set_fill(j.fill); Res r=run(I,j,rec,false); sim::Quiet q; got[c].push_back(r); } };
    std::vector<std::thread> th; for(int c=1;c<n;c++) th.emplace_back(body,c); body(0); for(auto& t:th) t.join(); sim::heap_set_fill(0);
    for(int c=0;c<n;c++) for(int k=0;k<jobs;k++){ Job& j=js[c][k]; std::string why; if(got[c][k].threw&&j.faulty){ sim::probe("edge:out-of-memory"); } else SIM_CHECK(same(got[c][k],ex[c][k],why),"history-dependent","%s (call %d of an instance next to %d others, %dx%d, %d channels): the result differs from that of a fresh instance: %s",KN[cf[c].kind],k+1,n-1,j.cols,j.rows,j.ch,why.c_str()); SIM_CHECK(digest(j)==dg[c][k],"input-modified","%s changed its input image",KN[cf[c].kind]); sim::probe((std::string("edge:")+KN[cf[c].kind]+(k?":reused":"")).c_str()); } }
}
SIM_HARNESS_W("P24",one_instance,5){ go(1,1+(int)sim::gen(4),false); }
SIM_HARNESS_W("P24",concurrent_instances,3){ go(2+(int)sim::gen(2),1+(int)sim::gen(3),false); }
SIM_HARNESS_W("P24",failing_allocations,2){ go(1+(int)sim::gen_rare(2,1,3),2+(int)sim::gen(3),true); }
