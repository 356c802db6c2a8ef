// P22: virtual PTZ camera (playing time, direction, view); P23: tracker evaluation. Everything in simulated time, with failing decoders, windows and files.
#include "sim.hpp"
#include "h_vptz.hpp"
#include "litiv/vptz.hpp"
#include <opencv2/imgcodecs.hpp>
#include <memory>
#include <cmath>
#include <climits>
#include <cstring>
namespace sim { void heap_set_fill(int mode); }
using namespace vptz;
namespace {
const double PI=3.14159265358979323846;
double rad(double d){ return d*PI/180; } double deg(double r){ return r*180/PI; }
struct V3 { double x,y,z; };
V3 dirv(double h,double v){ return V3{sin(rad(v))*cos(rad(h)),sin(rad(v))*sin(rad(h)),cos(rad(v))}; }
V3 cross(V3 a,V3 b){ return V3{a.y*b.z-a.z*b.y,a.z*b.x-a.x*b.z,a.x*b.y-a.y*b.x}; } double dot(V3 a,V3 b){ return a.x*b.x+a.y*b.y+a.z*b.z; }
struct View { int W=640,H=480; double fov=90,h=0,v=90; V3 f()const{ return dirv(h,v); } V3 r()const{ return V3{sin(rad(h)),-cos(rad(h)),0}; } V3 u()const{ V3 a=cross(r(),f()); return a; } double focal()const{ return H/2.0/tan(rad(fov)/2); } };
void pix2dir(const View& w,double x,double y,double& h,double& v){ V3 f=w.f(),r=w.r(),u=w.u(); double a=x-w.W/2.0,b=-(y-w.H/2.0),c=w.focal(); V3 d{a*r.x+b*u.x+c*f.x,a*r.y+b*u.y+c*f.y,a*r.z+b*u.z+c*f.z}; h=deg(atan2(d.y,d.x)); v=deg(atan2(std::hypot(d.x,d.y),d.z)); }
bool dir2pix(const View& w,double h,double v,double& x,double& y,double& cosang){ V3 d=dirv(h,v); cosang=dot(d,w.f()); if(cosang<=0) return false; x=w.W/2.0+w.focal()*dot(d,w.r())/cosang; y=w.H/2.0-w.focal()*dot(d,w.u())/cosang; return true; }
double adiff(double a,double b){ double d=std::fmod(std::fabs(a-b),360.0); return std::min(d,360-d); }
int rnd(double x){ return (int)(x+0.5); }
bool amb(double x){ double f=x+0.5; double d=std::fabs(f-std::round(f)); return d<1e-5||(x>-1.6&&x<-0.4)||std::fabs(x)>1e8; }
template<class F> bool threw(F f){ try{ f(); }catch(const std::exception&){ return true; } return false; }
// expected model-view: world (sphere) -> camera
void check_render(const cv::Mat& out,const View& w,const cv::Mat& bgr,const char* what){ sim::Quiet q; auto& R=glworld().renders; SIM_CHECK(!R.empty(),"frame-not-rendered","%s was not rendered",what); int id=(int)R.size()-1; const GlRender& g=R[(size_t)id];
    SIM_CHECK(out.type()==CV_8UC4&&out.cols==w.W&&out.rows==w.H,"frame-size","%s is %dx%d type %d instead of %dx%d",what,out.cols,out.rows,out.type(),w.W,w.H);
    int st=out.total()>20000?37:1; for(int y=0;y<out.rows;y++) for(int x=(y%st);x<out.cols;x+=st) SIM_CHECK((((const unsigned*)out.ptr(y))[x]&0xffffffu)==(gl_pixel(id,out.rows-1-y,x)&0xffffffu),"frame-content","%s: pixel %d,%d is not the one rendered there",what,x,y);
    SIM_CHECK(g.textured,"frame-untextured","%s was rendered without the panoramic texture",what);
    SIM_CHECK(g.tw==bgr.cols&&g.th==bgr.rows,"frame-texture","%s shows a %dx%d panorama instead of %dx%d",what,g.tw,g.th,bgr.cols,bgr.rows);
    for(int y=0;y<bgr.rows;y++) for(int x=0;x<bgr.cols;x++) for(int k=0;k<4;k++){ int e=k<3?bgr.ptr(y)[x*3+k]:255; SIM_CHECK(g.tex[(size_t)(y*bgr.cols+x)*4+k]==e,"frame-texture","%s shows another panoramic frame than the one at the current position",what); }
    double t=tan(rad(w.fov)/2); SIM_CHECK(std::fabs(g.pr[5]*t-1)<1e-5&&std::fabs(g.pr[0]*t*((double)w.W/w.H)-1)<1e-5&&std::fabs(g.pr[11]+1)<1e-9,"frame-fov","%s was rendered with another field of view than %g (pr[0]=%g, pr[5]=%g)",what,w.fov,g.pr[0],g.pr[5]);
    // the sphere point p of the panorama has the direction S(1,-1,-1)Rz(90)p, seen with axes r,u,-f
    V3 f=w.f(),r=w.r(),u=w.u(); for(int k=0;k<3;k++){ V3 e{k==0?1.0:0,k==1?1.0:0,k==2?1.0:0}; V3 p{-e.y,e.x,e.z}; V3 d{p.x,-p.y,-p.z}; double ex[3]={dot(d,r),dot(d,u),-dot(d,f)}; for(int l=0;l<3;l++) SIM_CHECK(std::fabs(g.mv[k*4+l]-ex[l])<2e-5,"frame-direction","%s was rendered for another direction than %g,%g",what,w.h,w.v); }
    for(int l=0;l<3;l++) SIM_CHECK(std::fabs(g.mv[12+l])<1e-9,"frame-direction","%s was not rendered from the centre of the sphere",what); }
struct Vid { std::string path; unsigned n=0,w=0,h=0,salt=0; bool hid=false; double fps=0,decl=0; bool image=false; cv::Mat img; };
Vid make_video(const std::string& dir,int i,unsigned minn,unsigned maxn){ Vid v; v.n=minn+sim::gen(maxn-minn+1); v.w=1+sim::gen(9); v.h=1+sim::gen(6); v.salt=1+sim::gen(100000); if(v.w*v.h<2) v.w=2; v.hid=sim::gen_rare(2,1,4); static const double FPS[]={16,25,7.5,30,1,120,0}; v.decl=FPS[sim::gen(7)]; v.fps=v.decl>0?v.decl:16; char b[128]; snprintf(b,sizeof b,"%s/v%d",dir.c_str(),i); std::string d=b; v.path=d+"/pano.avi"; snprintf(b,sizeof b,"SIMVID %u %u %u %u %d %g\n",v.n,v.w,v.h,v.salt,(int)v.hid,v.decl); sim::vfs::put(v.path,b); if(v.hid){ snprintf(b,sizeof b,"%%YAML:1.0\n---\nnFrameCount: %u\n",v.n); sim::vfs::put(d+"/metadata.yml",b); } return v; }
Vid make_image(const std::string& dir,int i){ sim::Quiet q; Vid v; v.image=true; v.n=1; v.w=2+sim::gen(9); v.h=1+sim::gen(6); v.salt=1+sim::gen(100000); char b[128]; snprintf(b,sizeof b,"%s/i%d.bmp",dir.c_str(),i); v.path=b; v.img=pano_frame(v.w,v.h,v.salt,0); std::vector<uchar> buf; cv::imencode(".bmp",v.img,buf); sim::vfs::put(v.path,std::string(buf.begin(),buf.end())); return v; }
double pick_angle(bool any){ static const double A[]={0,180,-179.5,90,-90,179.999,-0.001,45}; if(any){ static const double B[]={-180,540,-540,360,720,-900,181,-181,359,900,1234.5,-1234.5}; if(sim::gen_bool()) return B[sim::gen(12)]; } if(sim::gen_bool()) return A[sim::gen(8)]; return -179.9+sim::gen(3599)*0.1; }
double norm180(double a){ a=std::fmod(a,360); if(a<=-180) a+=360; if(a>180) a-=360; return a; }
double pick_v(){ static const double A[]={90,0,180,1,179,45}; return sim::gen_rare(2,1,3)?A[sim::gen(6)]:5+sim::gen(1700)*0.1; }
struct Cam { Vid vid; std::unique_ptr<Camera> c; View w; double hs=300,vs=300,ratio=1,comm=0.2,fps=1,t=0; long idx=0; bool playing=false,moved=false; double dh=0,dv=0; uint64_t b_lo=0,b_hi=0; double ov_lo=0,ov_hi=0; };
void check_dir(Cam& k,const char* after){ double h=k.c->Get(PTZ_CAM_HORI_ANGLE),v=k.c->Get(PTZ_CAM_VERTI_ANGLE); SIM_CHECK(h>-180.0&&h<=180.0&&v>=0&&v<=180,"direction-range","after %s the camera direction is %.17g,%.17g",after,h,v); SIM_CHECK(std::fabs(v-k.w.v)<1e-4&&(k.w.v<0.05||k.w.v>179.95||adiff(h,k.w.h)<1e-3/std::max(1e-3,sin(rad(k.w.v)))),"direction","after %s the camera direction is %.12g,%.12g instead of %.12g,%.12g",after,h,v,k.w.h,k.w.v); k.w.h=h; k.w.v=v; }
std::unique_ptr<Cam> open_cam(const std::string& dir,int i,bool faults){ auto p=std::unique_ptr<Cam>(new Cam); Cam& k=*p; k.vid=sim::gen_rare(2,1,5)?make_image(dir,i):make_video(dir,i,2,sim::gen_bool()?40:3000); k.fps=k.vid.fps; bool def=sim::gen_rare(2,1,3); if(def){ k.w.fov=30+sim::gen(120); k.w.W=1+sim::gen(24); k.w.H=1+sim::gen(20); k.w.h=pick_angle(true); k.w.v=pick_v(); k.hs=1+sim::gen(500); k.vs=1+sim::gen(500); k.comm=sim::gen(20)*0.05; } else { k.w.W=8; k.w.H=6; }
    int live=glworld().live; if(faults){ glworld().faults=glworld().decoder_faults=true; }
    try { if(def) k.c.reset(new Camera(k.vid.path,k.w.fov,k.w.W,k.w.H,k.w.h,k.w.v,k.hs,k.vs,k.comm)); else k.c.reset(new Camera(k.vid.path,90,8,6)); } catch(const std::exception& e){ glworld().faults=glworld().decoder_faults=false; SIM_CHECK(sim::fired(sim::K_USERFAULT)>0,"open-failed","the camera could not be opened on %s: %s",k.vid.image?"an image":"a video",e.what()); SIM_CHECK(glworld().live==live,"window-leak","a failed camera left its window open"); sim::probe("vptz:open-failed"); return nullptr; }
    glworld().faults=glworld().decoder_faults=false; k.w.h=norm180(k.w.h); SIM_CHECK((long)k.c->Get(PTZ_CAM_FRAME_NUM)==(long)k.vid.n,"frame-count","the camera reports %g frames instead of %u",k.c->Get(PTZ_CAM_FRAME_NUM),k.vid.n); SIM_CHECK(k.vid.image||k.c->Get(PTZ_CAM_FRAME_RATE)==k.fps,"frame-rate","the camera plays at %g frames per second instead of %g",k.c->Get(PTZ_CAM_FRAME_RATE),k.fps); check_dir(k,"opening"); return p; }
double sec(uint64_t a,uint64_t b){ return ((double)a-(double)b)*1e-9; }
cv::Mat pano_of(const Cam& k){ return k.vid.image?k.vid.img:pano_frame(k.vid.w,k.vid.h,k.vid.salt,(unsigned)k.idx); }
void do_frame(Cam& k,bool faults){ if(k.idx>=(long)k.vid.n) return; glworld().decoder_faults=faults; uint64_t f0=sim::fired(sim::K_USERFAULT),t0=sim::now_ns(); size_t r0=glworld().renders.size(); const cv::Mat& m=k.c->GetFrame(); uint64_t t1=sim::now_ns(); glworld().decoder_faults=false; bool bad=sim::fired(sim::K_USERFAULT)!=f0;
    if(bad){ SIM_CHECK(m.empty(),"frame-of-failed-decode","a frame was returned although the panoramic frame could not be decoded"); k.ov_hi+=sec(t1,t0); sim::probe("vptz:failed-frame"); return; }
    SIM_CHECK(!m.empty(),"frame-missing","no frame was returned at position %ld of %u",k.idx,k.vid.n); SIM_CHECK(glworld().renders.size()==r0+1,"frame-not-rendered","the frame was not rendered"); check_render(m,k.w,pano_of(k),"the frame"); double o=k.c->Get(PTZ_CAM_GET_FRAME_OVERHEAD); SIM_CHECK(o>=0&&o<=sec(t1,t0)+1e-6,"overhead","rendering took %g s, reported as %g",sec(t1,t0),o); k.ov_hi+=o+1e-9; k.ov_lo+=o-1e-9; }
void do_move(Cam& k){ double h0=k.w.h,v0=k.w.v; if(sim::gen_bool()){ int x=(int)sim::gen((unsigned)k.w.W),y=(int)sim::gen((unsigned)k.w.H); if(sim::gen_rare(2,1,3)){ x=k.w.W/2; y=k.w.H/2; } double h,v; pix2dir(k.w,x,y,h,v); if(sim::gen_bool()) k.c->GoToPosition(x,y); else k.c->GoToPosition(cv::Point(x,y)); k.w.h=norm180(h); k.w.v=v; check_dir(k,"moving to a point"); }
    else { double h=pick_angle(true),v=pick_v(); bool hf=sim::gen_bool(); if(hf) k.c->Set(PTZ_CAM_HORI_ANGLE,h); k.c->Set(PTZ_CAM_VERTI_ANGLE,v); if(!hf) k.c->Set(PTZ_CAM_HORI_ANGLE,h); k.w.h=norm180(h); k.w.v=v; check_dir(k,"setting its angles"); }
    k.dh=adiff(k.w.h,h0); k.dv=std::fabs(k.w.v-v0); k.moved=true; }
void do_wait(Cam& k){ bool slp=sim::gen_rare(2,1,3); auto& G=glworld(); int w0=G.waits; uint64_t t0=sim::now_ns(); bool r=k.c->WaitDelay(slp); uint64_t t1=sim::now_ns(); if(k.idx>=(long)k.vid.n){ SIM_CHECK(!r,"wait-after-end","the camera goes on playing after the end of the video"); SIM_CHECK((long)k.c->Get(PTZ_CAM_FRAME_POS)==k.idx,"position","the position moved after the end of the video"); return; }
    uint64_t e_hi=t1,b_lo=t0; double mot=k.dh/k.hs+k.dv/k.vs; if(slp&&G.waits>w0){ e_hi=G.wait_at; b_lo=G.wait_at+(uint64_t)G.wait_ms*1000000ull; double lo=std::max(mot+k.comm-k.ov_hi,0.001),hi=std::max(mot+k.comm-k.ov_lo,0.001); SIM_CHECK(G.wait_ms>=lo*1000-1.5&&G.wait_ms<=hi*1000+1.5,"sleep","a sleeping wait lasted %d ms instead of %g..%g",G.wait_ms,lo*1000,hi*1000); }
    double ex=k.c->Get(PTZ_CAM_EXECUTION_DELAY),lo=sec(t0,k.b_hi)-k.ov_hi,hi=sec(e_hi,k.b_lo)-k.ov_lo; SIM_CHECK(ex>=lo-1e-6&&ex<=hi+1e-6,"execution-delay","%g s (at most %g) passed outside of the camera since the last wait, but %g were counted",lo,hi,ex);
    double m=k.c->Get(PTZ_CAM_MOTION_DELAY); SIM_CHECK(std::fabs(m-mot)<1e-6*(1+mot),"motion-delay","moving by %g,%g degrees at %g,%g degrees per second was counted as %g s instead of %g",k.dh,k.dv,k.hs,k.vs,m,mot);
    k.t+=k.ratio*ex+mot+k.comm; long a=std::max((long)(k.t*k.fps+0.5-1e-5),k.idx+1),b=std::max((long)(k.t*k.fps+0.5+1e-5),k.idx+1),p=(long)k.c->Get(PTZ_CAM_FRAME_POS); if(k.t*k.fps>1e8) { sim::end_ok(); }
    SIM_CHECK(p>=a&&p<=b,"position","after %g s of playing at %g frames per second the position is %ld instead of %ld",k.t,k.fps,p,a); k.idx=p; SIM_CHECK(r==(p<(long)k.vid.n),"wait-result","a wait that ended at frame %ld of %u returned %d",p,k.vid.n,(int)r); k.b_lo=b_lo; k.b_hi=t1; k.ov_lo=k.ov_hi=0; k.moved=false; if(!r) sim::probe("vptz:end"); }
void same_state(Cam& k,const char* op){ SIM_CHECK(k.c->Get(PTZ_CAM_HORI_ANGLE)==k.w.h&&k.c->Get(PTZ_CAM_VERTI_ANGLE)==k.w.v&&k.c->Get(PTZ_CAM_VERTI_FOV)==k.w.fov&&k.c->Get(PTZ_CAM_HORI_SPEED)==k.hs&&k.c->Get(PTZ_CAM_VERTI_SPEED)==k.vs&&k.c->Get(PTZ_CAM_EXECUTION_DELAY_RATIO)==k.ratio&&k.c->Get(PTZ_CAM_COMMUNICATION_DELAY)==k.comm&&(long)k.c->Get(PTZ_CAM_FRAME_POS)==k.idx&&(int)k.c->Get(PTZ_CAM_OUTPUT_WIDTH)==k.w.W&&(int)k.c->Get(PTZ_CAM_OUTPUT_HEIGHT)==k.w.H,"state","after %s, a setting of the camera is not what was set",op); }
void do_bad(Cam& k){ switch(sim::gen(8)){ case 0: SIM_CHECK(threw([&]{ k.c->GoToPosition(k.w.W,0); }),"accepted","a point out of the image was accepted"); break; case 1: SIM_CHECK(threw([&]{ k.c->GoToPosition(0,-1); }),"accepted","a point out of the image was accepted"); break; case 2: SIM_CHECK(threw([&]{ k.c->Set(PTZ_CAM_VERTI_FOV,sim::gen_bool()?180:0); }),"accepted","an invalid field of view was accepted"); break; case 3: SIM_CHECK(threw([&]{ k.c->Set(PTZ_CAM_VERTI_ANGLE,sim::gen_bool()?180.5:-0.5); }),"accepted","an invalid vertical angle was accepted"); break; case 4: SIM_CHECK(threw([&]{ k.c->Set(PTZ_CAM_HORI_SPEED,0); })&&threw([&]{ k.c->Set(PTZ_CAM_VERTI_SPEED,-1); }),"accepted","an invalid speed was accepted"); break; case 5: SIM_CHECK(threw([&]{ k.c->BeginPlaying(sim::gen_bool()?(int)k.vid.n:-1); }),"accepted","an invalid first frame was accepted"); break; case 6: SIM_CHECK(threw([&]{ k.c->Set(PTZ_CAM_EXECUTION_DELAY_RATIO,-0.1); })&&threw([&]{ k.c->Set(PTZ_CAM_COMMUNICATION_DELAY,-0.1); }),"accepted","a negative delay was accepted"); break; case 7: SIM_CHECK(threw([&]{ k.c->Set(PTZ_CAM_FRAME_POS,sim::gen_bool()?(double)k.vid.n:-1); }),"accepted","an invalid position was accepted"); break; } same_state(k,"a refused call"); }
void do_set(Cam& k){ switch(sim::gen(6)){ case 0: k.w.fov=10+sim::gen(160); k.c->Set(PTZ_CAM_VERTI_FOV,k.w.fov); break; case 1: k.hs=1+sim::gen(400); k.c->Set(PTZ_CAM_HORI_SPEED,k.hs); break; case 2: k.vs=1+sim::gen(400); k.c->Set(PTZ_CAM_VERTI_SPEED,k.vs); break; case 3: k.ratio=sim::gen(5)*0.5; k.c->Set(PTZ_CAM_EXECUTION_DELAY_RATIO,k.ratio); break; case 4: k.comm=sim::gen(10)*0.1; k.c->Set(PTZ_CAM_COMMUNICATION_DELAY,k.comm); break; case 5: if(!k.vid.image){ k.idx=(long)sim::gen(k.vid.n); k.c->Set(PTZ_CAM_FRAME_POS,(double)k.idx); } break; } same_state(k,"setting it"); }
}
SIM_HARNESS_W("P22",camera_histories,3){ gl_reset(); sim::enable(sim::K_CLOCKJUMP,0.2); sim::enable(sim::K_USERDELAY,0.5); sim::enable(sim::K_USERFAULT,0.15); sim::heap_set_fill((int)sim::gen(4)); std::string dir="/simfs/v"; std::vector<std::unique_ptr<Cam>> cams; int nc=1+(int)sim::gen(3),made=0; int steps=4+(int)sim::gen(40); auto add=[&](bool f){ auto p=open_cam(dir,made++,f); if(!p&&f) p=open_cam(dir,made++,false); if(p) cams.push_back(std::move(p)); }; for(int i=0;i<nc;i++) add(sim::gen_rare(2,1,6));
    for(int s=0;s<steps&&!cams.empty();s++){ Cam& k=*cams[sim::gen((unsigned)cams.size())]; if(sim::gen_rare(2,1,5)){ if(sim::gen_bool()) gl_foreign_context(); else gl_no_context(); } switch(sim::gen(10)){
        case 0: case 1: case 2: if(k.playing&&!k.vid.image){ if(!k.moved) do_move(k); do_wait(k); do_frame(k,sim::gen_rare(2,1,4)); break; } // fallthrough: start it
        case 3: if(!k.vid.image){ int i=(int)sim::gen(k.vid.n); uint64_t t0=sim::now_ns(); k.c->BeginPlaying(i); k.b_lo=t0; k.b_hi=sim::now_ns(); k.idx=i; k.t=i/k.fps; k.playing=true; k.ov_lo=k.ov_hi=0; same_state(k,"starting to play"); break; }
        case 4: do_frame(k,sim::gen_rare(2,1,4)); break;
        case 5: if(!k.moved) do_move(k); break;
        case 6: sim::sleep_ns(sim::gen(2000)*100000ull); break;
        case 7: do_set(k); break;
        case 8: do_bad(k); break;
        case 9: if(k.vid.image&&sim::gen_bool()){ sim::Quiet q; cv::Mat m=pano_frame(2+sim::gen(9),1+sim::gen(6),1+sim::gen(100000),0); k.c->UpdatePanoImage(m); k.vid.img=m.clone(); m.setTo(cv::Scalar::all(7)); } else if(cams.size()>1||sim::gen_bool()){ size_t j=sim::gen((unsigned)cams.size()); int l=glworld().live; cams.erase(cams.begin()+(long)j); SIM_CHECK(glworld().live==l-1,"window-leak","destroying a camera left its window open"); if(sim::gen_bool()) add(false); } break; } }
    for(auto& c:cams) do_frame(*c,false); cams.clear(); SIM_CHECK(glworld().live==0,"window-leak","%d windows are still open after all cameras were destroyed",glworld().live); }
SIM_HARNESS("P22",unusable_inputs){ gl_reset(); sim::enable(sim::K_CLOCKJUMP,0.2); sim::enable(sim::K_USERDELAY,0.2); static const char* const W[]={"missing","not a video","a single frame","without its frame count","shorter than its metadata says","all frames identical","not seekable (seeking has no effect)","not seekable (seeking refused)","grayscale"}; int n=1+(int)sim::gen(4); for(int i=0;i<n;i++){ int bad=(int)sim::gen(9); Vid v=make_video("/simfs/bad",i,2,40); std::string d=v.path.substr(0,v.path.rfind('/')); unsigned fr=v.n,hid=v.hid?1:0; if(bad==2) fr=1; if(bad==3||bad==4) hid=1; if(bad==5) hid|=2; if(bad==6) hid|=4; if(bad==7) hid|=8; if(bad==8) hid|=16; char b[128]; snprintf(b,sizeof b,"SIMVID %u %u %u %u %u %g\n",fr,v.w,v.h,v.salt,hid,v.decl); sim::vfs::put(v.path,bad==1?"not a video":b); if(hid&1){ snprintf(b,sizeof b,"%%YAML:1.0\n---\nnFrameCount: %u\n",bad==4?fr+1+sim::gen(5):fr); sim::vfs::put(d+"/metadata.yml",b); } if(bad==3) sim::vfs::remove(d+"/metadata.yml"); if(bad==0) sim::vfs::remove(v.path); int live=glworld().live; bool refused=false; try{ Camera c(v.path,90,8,6); }catch(const std::exception&){ refused=true; } SIM_CHECK(refused,"unusable-accepted","a camera was opened on a panoramic video that is %s",W[bad]); SIM_CHECK(glworld().live==live,"window-leak","a refused camera left its window open"); sim::probe("vptz:refused");
        if(sim::gen_bool()){ auto k=open_cam("/simfs/good",i,false); SIM_CHECK(k!=nullptr,"open-failed","a camera could not be opened after a refused one"); do_frame(*k,false); } } }
SIM_HARNESS("P22",projection_and_translation){ sim::heap_set_fill((int)sim::gen(4)); int n=1+(int)sim::gen(12); View c; std::unique_ptr<GTTranslator> T; View b; auto rv=[&](View& w){ w.W=1+(int)sim::gen(700); w.H=1+(int)sim::gen(500); if(sim::gen_bool()){ w.W=640; w.H=480; } w.fov=5+sim::gen(1600)*0.1; w.h=pick_angle(false); w.v=pick_v(); };
    for(int i=0;i<n;i++){ if(!T||sim::gen_rare(2,1,4)){ rv(c); rv(b); T.reset(); T.reset(new GTTranslator(c.W,c.H,c.fov,c.h,c.v,b.W,b.H,b.fov)); SIM_CHECK(threw([&]{ GTTranslator t(c.W,c.H,c.fov,-180,c.v); })&&threw([&]{ GTTranslator t(c.W,c.H,c.fov,c.h,180.5); })&&threw([&]{ GTTranslator t(0,c.H,c.fov,c.h,c.v); }),"accepted","a translator was created for an invalid view"); }
        if(sim::gen_bool()){ c.h=pick_angle(false); c.v=pick_v(); T->UpdateViewAngle(c.h,c.v); } if(sim::gen_rare(2,1,4)) SIM_CHECK(threw([&]{ T->UpdateViewAngle(181,90); })&&threw([&]{ T->UpdateViewAngle(0,-1); }),"accepted","an invalid view angle was accepted");
        double h,v; if(sim::gen_bool()){ h=pick_angle(false); v=pick_v(); } else { pix2dir(c,(double)sim::gen((unsigned)c.W),(double)sim::gen((unsigned)c.H),h,v); h=norm180(h); v=std::min(180.0,std::max(0.0,v)); } double x=0,y=0,ca; bool vis=dir2pix(c,h,v,x,y,ca);
        cv::Point p; bool r=T->GetGTTargetPoint(h,v,p); int qx=0,qy=0; bool r2=PTZPointHVtoXY(h,v,qx,qy,c.W,c.H,c.fov,c.h,c.v); cv::Point q; bool r3=PTZPointHVtoXY(cv::Point2d(h,v),q,c.W,c.H,c.fov,c.h,c.v);
        if(std::fabs(ca)>0.01){ SIM_CHECK(r==vis&&r2==vis&&r3==vis,"visibility","a direction %g degrees away from the camera direction was reported %svisible",deg(acos(ca)),vis?"in":""); if(vis&&!amb(x)&&!amb(y)) SIM_CHECK(p.x==rnd(x)&&p.y==rnd(y)&&qx==rnd(x)&&qy==rnd(y)&&q.x==rnd(x)&&q.y==rnd(y),"projection","direction %g,%g seen from %g,%g (%dx%d, %g degrees) was projected to %d,%d instead of %g,%g",h,v,c.h,c.v,c.W,c.H,c.fov,p.x,p.y,x,y); if(!vis) SIM_CHECK(p.x>=c.W||p.x<0||p.y>=c.H||p.y<0,"projection","a point behind the camera was projected into the image"); }
        int px=(int)sim::gen((unsigned)c.W),py=(int)sim::gen((unsigned)c.H); double eh,ev,gh,gv; pix2dir(c,px,py,eh,ev); PTZPointXYtoHV(px,py,gh,gv,c.W,c.H,c.fov,c.h,c.v); SIM_CHECK(gh>-180&&gh<=180&&gv>=0&&gv<=180,"direction-range","a pixel was mapped to the direction %.17g,%.17g",gh,gv); SIM_CHECK(std::fabs(gv-ev)<1e-4&&(ev<0.05||ev>179.95||adiff(gh,eh)<1e-3/std::max(1e-3,sin(rad(ev)))),"direction","pixel %d,%d was mapped to %g,%g instead of %g,%g",px,py,gh,gv,eh,ev);
        cv::Point2i bk; if(PTZPointHVtoXY(cv::Point2d(gh,gv),bk,c.W,c.H,c.fov,c.h,c.v)&&gv>0.05&&gv<179.95) SIM_CHECK(bk.x==px&&bk.y==py,"round-trip","pixel %d,%d comes back as %d,%d",px,py,bk.x,bk.y);
        if(b.W>4&&b.H>4){ int bw=1+(int)sim::gen((unsigned)b.W/2),bh=1+(int)sim::gen((unsigned)b.H/2); View g=b; g.h=h; g.v=v; int X[2]={(b.W-bw)/2,(b.W+bw)/2},Y[2]={(b.H-bh)/2,(b.H+bh)/2}; bool ok=true,sure=true; double cx[2][2],cy[2][2]; for(int a=0;a<2;a++) for(int d=0;d<2;d++){ double hh,vv,cc; pix2dir(g,X[a],Y[d],hh,vv); bool k=dir2pix(c,hh,vv,cx[a][d],cy[a][d],cc); if(std::fabs(cc)<0.01||(k&&(amb(cx[a][d])||amb(cy[a][d])))) sure=false; ok=ok&&k; } cv::Rect R; bool got=T->GetGTBoundingBox(h,v,bw,bh,R); if(sure){ SIM_CHECK(got==ok,"box-visibility","a box was reported %svisible",ok?"in":""); if(ok){ cv::Rect E(cv::Point((rnd(cx[0][0])+rnd(cx[0][1]))/2,(rnd(cy[0][0])+rnd(cy[1][0]))/2),cv::Point((rnd(cx[1][1])+rnd(cx[1][0]))/2,(rnd(cy[1][1])+rnd(cy[0][1]))/2)); SIM_CHECK(R==E,"box","a box was translated to %d,%d %dx%d instead of %d,%d %dx%d",R.x,R.y,R.width,R.height,E.x,E.y,E.width,E.height); } } }
    } }
namespace {
struct Gt { int w,h; double H,V; };
struct Seq { Vid vid; std::string gt,mask; View b; int gfirst=0; std::vector<Gt> g; int first=-1,last=INT_MAX; int bad=0; int efirst=0,elast=0; cv::Mat maskimg; };
struct Ent { int pos=0; bool sure=false,bsure=false; double err=0,off=0,ov=0; };
bool ends(const std::string& a,const std::string& b){ return a.size()>=b.size()&&a.compare(a.size()-b.size(),b.size(),b)==0; }
struct Run { const Seq* s=nullptr; double comm=0,ratio=0; int id=0; bool ran=false,ended=false; std::vector<Ent> e; int count=0; };
bool box_of(const View& c,const View& b,const Gt& g,cv::Rect& R,bool& sure){ View s=b; s.h=g.H; s.v=g.V; int X[2]={(b.W-g.w)/2,(b.W+g.w)/2},Y[2]={(b.H-g.h)/2,(b.H+g.h)/2}; bool ok=true; double cx[2][2],cy[2][2]; for(int a=0;a<2;a++) for(int d=0;d<2;d++){ double hh,vv,cc; pix2dir(s,X[a],Y[d],hh,vv); bool k=dir2pix(c,hh,vv,cx[a][d],cy[a][d],cc); if(std::fabs(cc)<0.01||(k&&(amb(cx[a][d])||amb(cy[a][d])))) sure=false; ok=ok&&k; } if(ok) R=cv::Rect(cv::Point((rnd(cx[0][0])+rnd(cx[0][1]))/2,(rnd(cy[0][0])+rnd(cy[1][0]))/2),cv::Point((rnd(cx[1][1])+rnd(cx[1][0]))/2,(rnd(cy[1][1])+rnd(cy[0][1]))/2)); return ok; }
Seq make_seq(int i,bool mayfail){ sim::Quiet q; Seq s; s.vid=make_video("/simfs/ds",i,12,sim::gen_bool()?30:200); s.gfirst=(int)sim::gen(3); int glast=(int)s.vid.n-1-(int)sim::gen(2); static const int BW[]={640,320,800},BH[]={480,240,600}; static const double BF[]={90,60,75}; int k=(int)sim::gen(3); s.b.W=BW[k]; s.b.H=BH[k]; s.b.fov=BF[sim::gen(3)]; double h=norm180(pick_angle(false)),v=60+sim::gen(60); double dh=(double)sim::gen(200)*0.1-10,dv=(double)sim::gen(20)*0.1-1; for(int f=s.gfirst;f<=glast;f++){ s.g.push_back(Gt{6+(int)sim::gen(60),6+(int)sim::gen(60),h,v}); h=norm180(std::round((h+dh)*1000)/1000); v=std::min(150.0,std::max(30.0,v+dv)); }
    if(sim::gen_bool()){ s.first=s.gfirst+(int)sim::gen((unsigned)s.g.size()-4); } if(sim::gen_bool()) s.last=glast-(int)sim::gen(2); s.efirst=s.first<0?s.gfirst:s.first; s.elast=std::min(s.last,glast); s.bad=mayfail?(int)sim::gen_rare(10,1,3):0; char b[256]; snprintf(b,sizeof b,"/simfs/ds/gt/g%d.yml",i); s.gt=b; snprintf(b,sizeof b,"%%YAML:1.0\n---\ntotalFrameNum: %u\nframeImageWidth: %d\nframeImageHeight: %d\nverticalFOV: %.1f\nbasicGroundTruth:\n",s.vid.n+(s.bad==3?1:0),s.bad==7?0:s.b.W,s.bad==8?0:s.b.H,s.bad==9?0.0:s.b.fov); std::string t=b; for(size_t f=0;f<s.g.size();f++){ if(s.bad==4&&f==s.g.size()/2) continue; snprintf(b,sizeof b,"   - { framePos:%d, width:%d, height:%d, horizontalAngle:%.6f, verticalAngle:%.6f }\n",s.gfirst+(int)f,s.g[f].w,s.g[f].h,s.g[f].H,s.g[f].V); t+=b; } if(s.bad==2) t.resize(t.size()-20-sim::gen(10)); if(s.bad!=1) sim::vfs::put(s.gt,t); if(s.bad==5) sim::vfs::remove(s.vid.path); if(s.bad==6) s.first=s.last=s.elast+5;
    if(sim::gen_rare(2,1,3)){ View c; c.h=s.g[(size_t)(s.efirst-s.gfirst)].H; c.v=s.g[(size_t)(s.efirst-s.gfirst)].V; cv::Rect R; bool sure=true; if(box_of(c,s.b,s.g[(size_t)(s.efirst-s.gfirst)],R,sure)&&sure&&R.area()>0){ s.maskimg=cv::Mat(R.size(),CV_8UC3); uint32_t z=1+sim::gen(1000); for(int y=0;y<R.height;y++) for(int x=0;x<R.width*3;x++){ z=hmix(z+17); s.maskimg.ptr(y)[x]=(z%5)?0:(uchar)(z>>8); } std::vector<uchar> o; cv::imencode(".bmp",s.maskimg,o); snprintf(b,sizeof b,"/simfs/ds/mask/m%d.bmp",i); s.mask=b; sim::vfs::put(s.mask,std::string(o.begin(),o.end())); } } return s; }
bool near(double a,double b){ return (std::isnan(a)&&std::isnan(b))||std::fabs(a-b)<=1e-6*(1+std::fabs(b)); }
struct Averages { double tpe=0,tpo=0,ov=0,tf=0,oor=0,pr=0; bool has=false; };
Averages check_entry(cv::FileNode n,const Run& r,const char* out){ Averages A; cv::FileNode res=n["results"]; SIM_CHECK(r.ran==!res.empty()||r.e.empty(),"results-missing","%s: a tested sequence has no results, or an untested one has",out); if(r.s){ const Seq& q=*r.s; SIM_CHECK(ends((std::string)n["input_filePath"],q.vid.path.substr(10))&&(int)n["input_totalFrameNum"]==(int)q.vid.n&&(int)n["input_frameImageWidth"]==q.b.W&&(int)n["input_frameImageHeight"]==q.b.H&&near((double)n["input_verticalFOV"],q.b.fov)&&near((double)n["input_execDelayRatio"],r.ratio)&&near((double)n["input_commDelay"],r.comm)&&(int)n["input_first_test_frame_idx"]==q.efirst&&(int)n["input_last_test_frame_idx"]==q.elast,"report-settings","%s does not state the settings of its test",out); } if(!r.ran) return A; SIM_CHECK(res.size()==r.e.size(),"results-count","%s has %d results instead of one for each of the %d updates",out,(int)res.size(),(int)r.e.size()); double se=0,so=0,sv=0; int oov=0; int i=0; for(auto it=res.begin();it!=res.end();++it,++i){ const Ent& e=r.e[(size_t)i]; int p=(*it)["framePos"]; double err=(*it)["targetPointError"],off=(*it)["targetPointOffset"],ov=(*it)["boundingBoxOverlapRatio"]; SIM_CHECK(p==e.pos,"result-position","%s: result %d is recorded for frame %d instead of %d",out,i,p,e.pos); if(e.sure) SIM_CHECK(near(err,e.err)&&near(off,e.off),"result-error","%s: frame %d has the error %g and offset %g instead of %g and %g",out,p,err,off,e.err,e.off); if(e.bsure) SIM_CHECK(near(ov,e.ov),"result-overlap","%s: frame %d has the overlap %g instead of %g",out,p,ov,e.ov); SIM_CHECK(ov>=0&&ov<=1,"result-overlap","%s: frame %d has the overlap %g",out,p,ov); if(err<0) oov++; else { se+=err; so+=off; } sv+=ov; }
    if(!r.ended) return A; int n1=(int)r.e.size(),val=std::max(n1-oov,1); A.tpe=se/val; A.tpo=so/val; A.ov=sv/val; A.tf=(double)oov/n1; A.oor=(double)oov/(r.count-1); A.pr=(double)n1/(r.count-1); A.has=true; SIM_CHECK(near((double)n["targetPointError_avg"],A.tpe)&&near((double)n["targetPointOffset_avg"],A.tpo)&&near((double)n["bBoxOverlapRatio_avg"],A.ov),"averages","%s: the averages do not match the results (%g,%g,%g instead of %g,%g,%g)",out,(double)n["targetPointError_avg"],(double)n["targetPointOffset_avg"],(double)n["bBoxOverlapRatio_avg"],A.tpe,A.tpo,A.ov); SIM_CHECK(near((double)n["trackFragmentation"],A.tf)&&near((double)n["outOfViewRatio"],A.oor)&&near((double)n["processedRatio"],A.pr)&&(int)n["potential_frame_count"]==r.count,"averages","%s: the ratios do not match the results",out); return A; }
}
SIM_HARNESS("P23",evaluations){ gl_reset(); sim::enable(sim::K_CLOCKJUMP,0.2); sim::enable(sim::K_USERDELAY,0.4); sim::enable(sim::K_USERFAULT,0.1); sim::heap_set_fill((int)sim::gen(4)); bool multi=sim::gen_bool(); int ns=multi?1+(int)sim::gen(3):1; std::vector<Seq> S; for(int i=0;i<ns;i++) S.push_back(make_seq(i,multi)); double comm=sim::gen(6)*0.1,ratio=sim::gen(3)*0.5; std::string out="/simfs/ds/out/r.yml",set="/simfs/ds/sets/s.yml"; sim::vfs::mkdirs("/simfs/ds/out");
    if(multi){ std::string t="%YAML:1.0\n---\ntest_set:\n"; char b[512]; for(int i=0;i<ns;i++){ auto rel=[](const std::string& p){ return p.empty()?std::string("none.bmp"):p.substr(10); }; snprintf(b,sizeof b,"   -\n      test_name: \"seq%d\"\n      input_scenario_path: \"%s\"\n      input_gtseq_path: \"%s\"\n      input_target_mask_path: \"%s\"\n      init_frame_idx: %d\n      last_frame_idx: %d\n",i,rel(S[i].vid.path).c_str(),rel(S[i].gt).c_str(),rel(S[i].mask).c_str(),S[i].first,S[i].last); t+=b; } sim::vfs::put(set,t); }
    std::unique_ptr<Evaluator> E(multi?new Evaluator(set,out,comm,ratio):new Evaluator(S[0].vid.path,S[0].gt,S[0].mask,out,comm,ratio,S[0].first,S[0].last)); SIM_CHECK(E->GetTestSetSize()==ns,"set-size","the test set has %d sequences instead of %d",E->GetTestSetSize(),ns);
    std::vector<Run> runs; int tests=multi?1+(int)sim::gen(4):1; bool open=false;
    for(int t=0;t<tests&&!open;t++){ int id=(int)sim::gen((unsigned)ns); Seq& s=S[(size_t)id]; Run r; r.id=id+1; bool fl=multi&&sim::gen_rare(2,1,4); uint64_t f0=sim::fired(sim::K_USERFAULT); glworld().faults=glworld().decoder_faults=fl; bool failed=false; std::string why; try { E->SetupTesting(id); } catch(const std::exception& e){ failed=true; why=e.what(); } glworld().faults=glworld().decoder_faults=false; bool inj=sim::fired(sim::K_USERFAULT)!=f0;
        SIM_CHECK(!failed||s.bad||inj,"setup-failed","a valid sequence could not be set up: %s",why.c_str()); SIM_CHECK(failed||!s.bad,"setup-accepted","an unusable sequence (kind %d) was accepted",s.bad); if(failed){ SIM_CHECK(threw([&]{ E->GetPotentialTestFrameCount(); })&&threw([&]{ E->GetInitTarget(); })&&threw([&]{ E->GetCurrCameraProperty(PTZ_CAM_HORI_ANGLE); }),"ready-after-failure","a sequence whose setup failed can still be queried"); SIM_CHECK(threw([&]{ E->BeginTesting(); }),"begin-accepted","testing began although the setup failed"); sim::probe(s.bad?"vptz:bad-sequence":"vptz:setup-fault"); runs.push_back(r); continue; }
        auto gtof=[&](int f)->const Gt&{ return s.g[(size_t)(f-s.gfirst)]; }; View c; c.h=E->GetCurrCameraProperty(PTZ_CAM_HORI_ANGLE); c.v=E->GetCurrCameraProperty(PTZ_CAM_VERTI_ANGLE); SIM_CHECK(adiff(c.h,gtof(s.efirst).H)<1e-6&&std::fabs(c.v-gtof(s.efirst).V)<1e-6,"initial-direction","the camera does not face the target at the first frame"); SIM_CHECK(E->GetPotentialTestFrameCount()==s.elast-s.efirst,"frame-count","%d frames can be tested instead of %d",E->GetPotentialTestFrameCount(),s.elast-s.efirst); r.count=s.elast-s.efirst; r.comm=comm; r.ratio=ratio; r.s=&s; SIM_CHECK(E->GetCurrCameraProperty(PTZ_CAM_COMMUNICATION_DELAY)==comm&&E->GetCurrCameraProperty(PTZ_CAM_EXECUTION_DELAY_RATIO)==ratio,"delays","the camera of the test counts a communication delay of %g and an execution delay ratio of %g instead of %g and %g",E->GetCurrCameraProperty(PTZ_CAM_COMMUNICATION_DELAY),E->GetCurrCameraProperty(PTZ_CAM_EXECUTION_DELAY_RATIO),comm,ratio); SIM_CHECK(E->GetCurrTestIdx()==id,"test-index","the current test is %d instead of %d",E->GetCurrTestIdx(),id);
        { cv::Mat f=E->GetInitTargetFrame(),g=E->GetInitTarget(),m=E->GetInitTargetMask(); check_render(f,c,pano_frame(s.vid.w,s.vid.h,s.vid.salt,(unsigned)s.efirst),"the initial frame"); sim::Quiet q; cv::Rect R; bool sure=true; if(box_of(c,s.b,gtof(s.efirst),R,sure)&&sure){ SIM_CHECK(g.size()==R.size(),"initial-target","the initial target is %dx%d instead of %dx%d",g.cols,g.rows,R.width,R.height); cv::Rect B=E->GetInitTargetBBox(); SIM_CHECK(B.size()==R.size()&&std::abs(B.x-R.x)<=2&&std::abs(B.y-R.y)<=2,"initial-box","the initial box is %dx%d at %d,%d, the target is %dx%d at %d,%d",B.width,B.height,B.x,B.y,R.width,R.height,R.x,R.y); for(int y=0;y<g.rows;y++) SIM_CHECK(!memcmp(g.ptr(y),f.ptr(R.y+y)+4*R.x,(size_t)g.cols*4),"initial-target","the initial target is not the part of the initial frame shown by the ground truth"); if(s.mask.empty()) SIM_CHECK(m.empty(),"initial-mask","a mask was returned though none was given"); else { SIM_CHECK(m.size()==R.size()&&m.type()==CV_8UC1,"initial-mask","the initial mask has another size or type"); for(int y=0;y<m.rows;y++) for(int x=0;x<m.cols;x++){ const uchar* p=s.maskimg.ptr(y)+3*x; SIM_CHECK(m.ptr(y)[x]==((p[0]|p[1]|p[2])?255:0),"initial-mask","the initial mask differs from the given one"); } } } }
        if(multi&&sim::gen_rare(2,1,6)){ runs.push_back(r); sim::probe("vptz:abandoned-setup"); continue; }
        E->BeginTesting(); r.ran=true; int prev=s.efirst; cv::Rect dummy(1,1,9,9); SIM_CHECK(threw([&]{ E->UpdateCurrentResult(dummy); }),"update-accepted","a result was accepted before any frame was requested");
        int maxs=2+(int)sim::gen(14); bool over=false; for(int k=0;k<maxs&&!over;k++){ sim::sleep_ns(sim::gen(400)*1000000ull*(ratio>0)); bool df=sim::gen_rare(2,1,8); uint64_t g0=sim::fired(sim::K_USERFAULT); glworld().decoder_faults=df; cv::Mat f; View n=c; if(sim::gen_rare(2,1,8)) SIM_CHECK(threw([&]{ E->GetNextFrame(cv::Point(640,3)); }),"accepted","a point out of the image was accepted");
            bool slp=sim::gen_rare(2,1,4); if(sim::gen_bool()){ double x,y,ca; const Gt& g=gtof(std::min(prev+1,s.elast)); cv::Point p((int)sim::gen(640),(int)sim::gen(480)); if(dir2pix(c,g.H,g.V,x,y,ca)&&x>=0&&y>=0&&x<639&&y<479) p=cv::Point((int)x,(int)y); double hh,vv; pix2dir(c,p.x,p.y,hh,vv); n.h=norm180(hh); n.v=vv; f=E->GetNextFrame(p,slp); } else { const Gt& g=gtof(std::min(prev+1,s.elast)); n.h=norm180(g.H+(double)sim::gen(100)-50+(sim::gen_rare(2,1,6)?150:0)); n.v=std::min(179.0,std::max(1.0,g.V+(double)sim::gen(60)-30)); f=E->GetNextFrame(n.h,n.v,slp); }
            glworld().decoder_faults=false; bool dec=sim::fired(sim::K_USERFAULT)!=g0; int pos=(int)E->GetCurrCameraProperty(PTZ_CAM_FRAME_POS); c.h=E->GetCurrCameraProperty(PTZ_CAM_HORI_ANGLE); c.v=E->GetCurrCameraProperty(PTZ_CAM_VERTI_ANGLE); SIM_CHECK(std::fabs(c.v-n.v)<1e-4&&(c.v<0.05||c.v>179.95||adiff(c.h,n.h)<1e-3/std::max(1e-3,sin(rad(c.v)))),"direction","the camera did not move to the requested direction"); SIM_CHECK(pos>prev||pos>=(int)s.vid.n,"position","the position went from %d to %d",prev,pos);
            if(f.empty()){ SIM_CHECK(pos>s.elast||dec,"frame-missing","no frame was returned at position %d (the test ends at %d)",pos,s.elast); SIM_CHECK(threw([&]{ E->UpdateCurrentResult(dummy); }),"update-accepted","a result was accepted without a frame"); if(pos>s.elast) over=true; prev=pos; continue; }
            SIM_CHECK(pos<=s.elast&&!dec,"frame-after-end","a frame was returned at position %d after the end of the test %d, or though it could not be decoded",pos,s.elast); prev=pos; check_render(f,c,pano_frame(s.vid.w,s.vid.h,s.vid.salt,(unsigned)pos),"the test frame"); if(sim::gen_rare(2,1,8)) continue;
            Ent e; e.pos=pos; const Gt& g=gtof(pos); double x=0,y=0,ca; bool vis=dir2pix(c,g.H,g.V,x,y,ca); cv::Rect T; e.bsure=true; bool tb=box_of(c,s.b,g,T,e.bsure); cv::Rect R((int)sim::gen(600),(int)sim::gen(450),3+(int)sim::gen(60),3+(int)sim::gen(60)); if(tb&&sim::gen_bool()&&T.area()>0&&std::abs(T.x)<5000&&std::abs(T.y)<5000) R=T+cv::Point((int)sim::gen(20)-10,(int)sim::gen(20)-10); if(sim::gen_rare(2,1,8)) R.width=(int)sim::gen(3); if(sim::gen_rare(2,1,16)) R=cv::Rect();
            e.sure=std::fabs(ca)>0.01&&(!vis||(!amb(x)&&!amb(y))); int ix=vis?rnd(x):-1,iy=vis?rnd(y):-1; bool in=vis&&ix>=0&&iy>=0&&ix<640&&iy<480&&R.width>=3&&R.height>=3; cv::Point mid((R.tl()+R.br())*0.5); e.err=in?std::hypot(ix-mid.x,iy-mid.y):-1; e.off=in?std::hypot(ix-320,iy-240):-1; double a=tb?(double)(T&R).area():0,o=(tb?(double)T.area():0)+(double)R.area()-a; e.ov=o>0?a/o:0; if(tb&&(std::abs((double)T.x)>1e6||std::abs((double)T.y)>1e6||std::abs((double)T.width)>3e4||std::abs((double)T.height)>3e4)) e.bsure=false; E->UpdateCurrentResult(R,sim::gen_rare(2,1,6)); r.e.push_back(e); if(e.bsure&&tb){ cv::Rect L=E->GetLastGTBoundingBox(); SIM_CHECK(L==T,"last-box","the last ground truth box is %dx%d at %d,%d instead of %dx%d at %d,%d",L.width,L.height,L.x,L.y,T.width,T.height,T.x,T.y); } if(in) sim::probe("vptz:in-view"); else sim::probe("vptz:out-of-view"); SIM_CHECK(threw([&]{ E->UpdateCurrentResult(R); }),"update-accepted","two results were accepted for one frame"); }
        if(r.e.empty()||(sim::gen_rare(2,1,8))){ open=true; sim::probe("vptz:destroyed-while-testing"); } else { E->EndTesting(); r.ended=true; } runs.push_back(r); }
    try { E.reset(); } catch(const std::exception& e){ sim::violation("destruction","destroying the evaluator failed: %s",e.what()); } SIM_CHECK(glworld().live==0,"window-leak","a window is still open after the evaluator was destroyed");
    sim::Quiet q; cv::FileStorage F; bool okf=false; std::string why; try { okf=F.open(out,cv::FileStorage::READ); } catch(const std::exception& e){ why=e.what(); } SIM_CHECK(okf,"report-unreadable","the results file cannot be read: %s",why.c_str());
    if(!multi){ check_entry(F.root(),runs[0],"the report"); return; }
    cv::FileNode L=F["sequences"]; SIM_CHECK(L.isSeq()&&L.size()==runs.size(),"entries","the report has %d sequences instead of %d",(int)L.size(),(int)runs.size()); Averages T; int nt=0,fr=0; for(size_t i=0;i<runs.size();i++){ cv::FileNode n=L[(int)i]; SIM_CHECK(n.isMap()&&(int)n["id"]==runs[i].id,"entry-id","entry %d of the report is not for sequence %d",(int)i,runs[i].id); Averages A=check_entry(n,runs[i],"an entry of the report"); if(A.has){ nt++; T.tpe+=A.tpe; T.tpo+=A.tpo; T.ov+=A.ov; T.tf+=A.tf; T.oor+=A.oor; T.pr+=A.pr; fr+=runs[i].count; } }
    SIM_CHECK((int)F["tot_potential_frame_count"]==fr,"totals","the total frame count is %d instead of %d",(int)F["tot_potential_frame_count"],fr); if(nt) SIM_CHECK(near((double)F["targetPointError_fullavg"],T.tpe/nt)&&near((double)F["targetPointOffset_fullavg"],T.tpo/nt)&&near((double)F["bBoxOverlapRatio_fullavg"],T.ov/nt)&&near((double)F["trackFragmentation_fullavg"],T.tf/nt)&&near((double)F["outOfViewRatio_fullavg"],T.oor/nt)&&near((double)F["processedRatio_fullavg"],T.pr/nt),"totals","the overall averages are not those of the %d tested sequences",nt); }
