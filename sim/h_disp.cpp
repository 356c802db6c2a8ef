// P28: display helpers show what they are given, and route keys and mouse events, with a simulated window system.
#include "sim.hpp"
#include "gui.hpp"
#include "litiv/utils/opencv.hpp"
#include <thread>
#include <atomic>
#include <cmath>
#include <memory>
namespace sim { void heap_set_fill(int mode); }
namespace {
typedef std::vector<std::vector<std::pair<cv::Mat,std::string>>> Grid;
template<class F> bool threw(F f){ try{ f(); }catch(const std::exception& e){ sim::logf("refused: %s",e.what()); return true; } return false; }
cv::Mat gen_img(cv::Size z,bool may_empty){ sim::Quiet q; if(may_empty&&sim::gen_rare(2,1,6)) return cv::Mat(); static const int D[]={CV_8U,CV_8U,CV_16U,CV_32S,CV_32F}; static const int C[]={1,3,3,4}; int d=D[sim::gen(5)],c=C[sim::gen(4)]; bool roi=sim::gen_rare(2,1,3); cv::Mat b(z.height+(roi?3:0),z.width+(roi?5:0),CV_MAKETYPE(d,c)); cv::Mat m=roi?b(cv::Rect(2,1,z.width,z.height)):b; unsigned s=sim::gen(1000000)*2u+1u; int flat=sim::gen(3);
    for(int y=0;y<b.rows;y++) for(int x=0;x<b.cols*c;x++){ s=s*1664525u+1013904223u; unsigned v=flat==0?(unsigned)(x/c*7919u+y*104729u)*2654435u:s; switch(d){ case CV_8U: b.ptr<uchar>(y)[x]=(uchar)(v>>24); break; case CV_16U: b.ptr<ushort>(y)[x]=(ushort)(v>>16); break; case CV_32S: b.ptr<int>(y)[x]=(int)v; break; default: b.ptr<float>(y)[x]=(float)((v>>8)/(double)(1<<24)*1.2-0.1); } } return m; }
uchar sat(double v){ long r=lrint(v); return (uchar)(r<0?0:r>255?255:r); }
cv::Mat to_bgr(const cv::Mat& m,cv::Size z){ cv::Mat o; if(m.empty()) return cv::Mat(z,CV_8UC3,cv::Scalar::all(0)); o.create(m.size(),CV_8UC3); int c=m.channels(); for(int y=0;y<m.rows;y++) for(int x=0;x<m.cols;x++) for(int k=0;k<3;k++){ int i=x*c+(c==1?0:k); double v; switch(m.depth()){ case CV_8U: v=m.ptr<uchar>(y)[i]; break; case CV_16U: v=m.ptr<ushort>(y)[i]*(255.0/65535); break; case CV_32S: v=m.ptr<int>(y)[i]*(255.0/2147483647.0)+127; break; default: v=m.ptr<float>(y)[i]*255.0; } o.ptr(y)[x*3+k]=sat(v); } if(o.size()!=z) cv::resize(o,o,z); return o; }
struct Pair { cv::Size tile,disp; };
struct Cand { bool any; int x,y; Pair p; cv::Point in()const{ return (x>=0&&y>=0&&x<p.disp.width&&y<p.disp.height&&p.tile.area()>0)?cv::Point(x%p.tile.width,y%p.tile.height):cv::Point(x,y); } };
struct D { lv::DisplayHelperPtr h; std::string name; cv::Size mx; bool cont=false,cursor=true,first=true,hint_amb=false; std::vector<Pair> st{Pair{}}; size_t st_lo=0; std::vector<std::shared_ptr<std::atomic<int>>> keep; std::vector<bool> gens{false}; size_t checked_ev=0; bool fs=false; cv::Size usual; };
gui::World& W(){ return gui::world(); }
// the cursor a display begun when e0 events had been delivered and ended now may show
std::vector<Cand> cands(D& d,size_t e0,size_t e1){ std::vector<Cand> v; auto& E=W().events; size_t lo=e0>0?e0-1:0; while(lo>0&&!E[lo].done) lo--; if(lo>0) lo--; if(e0==0||(W().threaded&&e0==1)) v.push_back(Cand{false,0,0,Pair{}}); for(size_t i=(W().threaded?lo:(e0?e0-1:0));i<e1;i++){ size_t a=E[i].st0,b=E[i].done?E[i].st1:d.st.size()-1; for(size_t s=a;s<=b&&s<d.st.size();s++) v.push_back(Cand{true,E[i].x,E[i].y,d.st[s]}); } return v; }
bool same(const cv::Mat& a,const cv::Mat& b,int tol,int* px=nullptr,int* py=nullptr){ if(a.size()!=b.size()||a.type()!=b.type()) return false; for(int y=0;y<a.rows;y++) for(int x=0;x<a.cols*3;x++) if(std::abs((int)a.ptr(y)[x]-(int)b.ptr(y)[x])>tol){ if(px) *px=x/3; if(py) *py=y; return false; } return true; }
void cross(cv::Mat t,cv::Point p,cv::Scalar c){ for(int x=0;x<t.cols;x++) for(int k=0;k<3;k++) t.ptr(p.y)[x*3+k]=128; for(int y=0;y<t.rows;y++) for(int k=0;k<3;k++) t.ptr(y)[p.x*3+k]=128; cv::circle(t,p,5,c); }
void text(cv::Mat m,const std::string& s,cv::Point at,int th,double sc){ cv::putText(m,s,at,cv::FONT_HERSHEY_PLAIN,sc,cv::Scalar(0,0,255),th,cv::LINE_AA); }
void check_size(D& d,cv::Size sug,int R,int C,const cv::Mat& img,const char* what){ int w=sug.width*C,h=sug.height*R; SIM_CHECK(img.type()==CV_8UC3&&!img.empty(),"display-format","%s of %s is not an image of bytes",what,d.name.c_str()); SIM_CHECK(img.cols%C==0&&img.rows%R==0,"display-size","%s of %dx%d tiles is %dx%d",what,C,R,img.cols,img.rows);
    if(d.mx.area()<=0||(w<=d.mx.width&&h<=d.mx.height)){ SIM_CHECK(img.cols==w&&img.rows==h,"display-size","%s is %dx%d instead of %dx%d",what,img.cols,img.rows,w,h); return; }
    SIM_CHECK(img.cols<=d.mx.width&&img.rows<=d.mx.height,"display-too-large","%s of %dx%d tiles of %dx%d is shown with %dx%d pixels, more than the largest size %dx%d",what,C,R,sug.width,sug.height,img.cols,img.rows,d.mx.width,d.mx.height);
    double s=std::min(d.mx.width/(double)w,d.mx.height/(double)h); SIM_CHECK(std::abs(img.cols-w*s)<=C+1&&std::abs(img.rows-h*s)<=R+1,"display-size","%s of %dx%d is shown with %dx%d pixels, largest size %dx%d",what,w,h,img.cols,img.rows,d.mx.width,d.mx.height); }
void check_grid(D& d,const Grid& g,cv::Size sug,const cv::Mat& img,size_t e0,size_t e1,bool hint,bool hint_amb,bool cursor){ sim::Quiet q; int R=g.size(),C=g[0].size(); check_size(d,sug,R,C,img,"the display"); cv::Size t(img.cols/C,img.rows/R); int tol=0; cv::Mat base(img.size(),CV_8UC3); for(int r=0;r<R;r++) for(int c=0;c<C;c++){ const cv::Mat& m=g[r][c].first; if(!m.empty()&&m.depth()!=CV_8U) tol=2; cv::Mat o=to_bgr(m,t); if(!g[r][c].second.empty()) text(o,g[r][c].second,cv::Point(4,15),2,1.2); o.copyTo(base(cv::Rect(c*t.width,r*t.height,t.width,t.height))); }
    std::vector<Cand> cs=cursor?cands(d,e0,e1):std::vector<Cand>{Cand{false,0,0,Pair{}}}; int bx=-1,by=-1; bool ok=false; for(size_t i=0;i<cs.size()&&!ok;i++) for(int hh=0;hh<2&&!ok;hh++){ if(!hint_amb&&(hh!=0)!=hint) continue; const Cand& k=cs[i]; cv::Mat e=base.clone(); cv::Point p=k.in(); if(k.any&&p.x>=0&&p.y>=0&&p.x<t.width&&p.y<t.height&&k.p.tile==t){ for(int r=0;r<R;r++) for(int c=0;c<C;c++) { cv::Mat one=e(cv::Rect(c*t.width,r*t.height,t.width,t.height)).clone(); cross(one,p,(k.x/t.width==c&&k.y/t.height==r)?cv::Scalar(83,83,255):cv::Scalar::all(172)); one.copyTo(e(cv::Rect(c*t.width,r*t.height,t.width,t.height))); } sim::probe("disp:cursor"); }
        if(hh) text(e,"[Press space to continue]",cv::Point(e.cols/2-100,e.rows-15),1,1.0); ok=same(img,e,tol,&bx,&by); }
    SIM_CHECK(ok,"display-content","the display of %dx%d tiles of %dx%d differs from the images, labels and cursor it must show at pixel %d,%d (tile %d,%d; %zu possible cursors, events %zu..%zu of %zu)",C,R,t.width,t.height,bx,by,bx/std::max(1,t.width),by/std::max(1,t.height),cs.size(),e0,e1,W().events.size()); }
// events delivered since the last call: exactly one user callback each, with the right data
void check_events(D& d,bool all){ sim::Quiet q; auto& E=W().events; while(d.checked_ev<E.size()){ auto& e=E[d.checked_ev]; if(!e.done){ SIM_CHECK(!all,"event-stuck","a mouse event was never handled"); break; } d.checked_ev++; bool may_null=false,may_set=false; for(int g=e.gen0;g<=e.gen1;g++) (d.gens[g]?may_set:may_null)=true; SIM_CHECK(e.calls.size()<=1,"event-duplicated","a mouse event was given to the callback %zu times",e.calls.size()); SIM_CHECK(may_null||e.calls.size()==1,"event-lost","mouse event %d at %d,%d was not given to the callback",e.ev,e.x,e.y); SIM_CHECK(may_set||e.calls.empty(),"event-stray","a mouse event was given to a callback removed before"); if(e.calls.empty()) continue; auto& c=e.calls[0]; SIM_CHECK(c.gen>=e.gen0&&c.gen<=e.gen1,"event-stray","a mouse event was given to callback %d, not to one of %d..%d",c.gen,e.gen0,e.gen1); SIM_CHECK(c.pos==cv::Point(e.x,e.y)&&c.ev==e.ev&&c.flags==e.flags,"event-data","the callback was given event %d/%d at %d,%d instead of %d/%d at %d,%d",c.ev,c.flags,c.pos.x,c.pos.y,e.ev,e.flags,e.x,e.y); bool ok=false; for(size_t s=e.st0;s<=e.st1&&s<d.st.size();s++) if(d.st[s].tile==c.tile&&d.st[s].disp==c.disp) ok=true; SIM_CHECK(ok,"event-size","the callback was given tiles of %dx%d in a display of %dx%d, which was not shown then (states %zu..%zu)",c.tile.width,c.tile.height,c.disp.width,c.disp.height,e.st0,e.st1); Cand k{true,e.x,e.y,Pair{c.tile,c.disp}}; SIM_CHECK(c.in==k.in(),"event-tile-position","position %d,%d in a display of %dx%d with tiles of %dx%d was given as %d,%d within the tile",e.x,e.y,c.disp.width,c.disp.height,c.tile.width,c.tile.height,c.in.x,c.in.y); sim::probe("disp:event"); } }
void set_cb(D& d){ bool on=sim::gen(4)!=0; int g=(int)d.gens.size(); { sim::Quiet q; d.gens.push_back(on); W().gen_begun=g; } if(on) d.h->setMouseCallback([g](const lv::DisplayHelper::CallbackData& c){ sim::Quiet q; auto& E=W().events; SIM_CHECK(!E.empty(),"event-stray","a callback without an event"); E.back().calls.push_back(gui::Call{c.oPosition,c.oInternalPosition,c.oTileSize,c.oDisplaySize,c.nEvent,c.nFlags,g}); }); else d.h->setMouseCallback(std::function<void(const lv::DisplayHelper::CallbackData&)>()); W().gen_done=g; }
std::vector<cv::Mat> copies(const Grid& g){ std::vector<cv::Mat> v; for(auto& r:g) for(auto& c:r) v.push_back(c.first.clone()); return v; }
void unchanged(const Grid& g,const std::vector<cv::Mat>& v){ sim::Quiet q; size_t i=0; for(auto& r:g) for(auto& c:r){ const cv::Mat& a=c.first; const cv::Mat& b=v[i++]; for(int y=0;y<a.rows;y++) SIM_CHECK(!memcmp(a.ptr(y),b.ptr(y),a.cols*a.elemSize()),"input-modified","a displayed image was modified"); } }
void begin_state(Pair p,D& d){ sim::Quiet q; d.st.push_back(p); W().st_begun=d.st.size()-1; } void end_state(D& d){ W().st_done=W().st_begun; }
void show(D& d){ Grid g; cv::Size sug(1+sim::gen(70),1+sim::gen(50)); if(sim::gen(3)) sug=d.usual; int form=sim::gen(3); size_t idx=sim::gen(1000); int R=1,C=1; cv::Mat a,b,c; if(form==0){ a=gen_img(sug,false); g={{{a,cv::format("Image #%d",(int)idx)}}}; } else if(form==1){ C=3; a=gen_img(sug,false); b=gen_img(sim::gen_bool()?sug:cv::Size(1+sim::gen(60),1+sim::gen(60)),true); c=gen_img(sug,true); g={{{a,cv::format("Input #%d",(int)idx)},{b,"Debug"},{c,"Output"}}}; } else { R=1+sim::gen(3); C=1+sim::gen(3); for(int r=0;r<R;r++){ g.push_back({}); for(int k=0;k<C;k++) g.back().push_back({gen_img(sim::gen_bool()?sug:cv::Size(1+sim::gen(60),1+sim::gen(60)),true),sim::gen(3)?cv::format("n%d",r*3+k):std::string()}); } }
    int bad=form==2?(int)sim::gen_rare(6,1,8):0; if(d.mx.area()>0){ double s=std::min(1.0,std::min(d.mx.width/(double)(sug.width*C),d.mx.height/(double)(sug.height*R))); if(sug.width*s<1.01||sug.height*s<1.01) return; }
    if(bad){ { sim::Quiet q; if(bad==1) g.clear(); else if(bad==2) g[0].clear(); else if(bad==3){ if(R<2) return; g[1].pop_back(); if(g[1].empty()) g[1].push_back({cv::Mat(),""}),g[1].push_back({cv::Mat(),""}); } else if(bad==4) g[0][0].first=cv::Mat(sug,CV_8UC2,cv::Scalar::all(0)); else g[R-1][C-1].first=cv::Mat(sug,CV_64FC1,cv::Scalar::all(0)); } size_t n=W().shown.size(); bool t=threw([&]{ d.h->display(g,sug); }); SIM_CHECK(t&&W().shown.size()==n,"display-not-refused","images which cannot be displayed (%d) were not refused",bad); sim::probe("disp:refused"); return; }
    std::vector<cv::Mat> cp; { sim::Quiet q; cp=copies(g); } size_t n=W().shown.size(),e0=W().events.size(); int f0=W().failed; begin_state(Pair{cv::Size(-1,-1),cv::Size(-1,-1)},d); bool hint=d.first&&!d.cont;
    bool t=threw([&]{ if(form==0) d.h->display(a,idx); else if(form==1) d.h->display(a,b,c,idx); else d.h->display(g,sug); }); size_t e1=W().events.size();
    { sim::Quiet q; if(t){ SIM_CHECK(W().failed>f0,"display-failed","displaying %dx%d images failed",C,R); if(hint) d.hint_amb=true; sim::probe("disp:failed"); } else { SIM_CHECK(W().shown.size()==n+1,"display-not-shown","%zu images were shown by one display",W().shown.size()-n); const cv::Mat& img=W().shown.back().img; d.st.back()=Pair{cv::Size(img.cols/C,img.rows/R),img.size()}; W().W=img.cols; W().H=img.rows; SIM_CHECK(W().shown.back().win==d.name,"display-window","shown in window '%s'",W().shown.back().win.c_str()); } }
    if(t){ d.st.back()=d.st[W().st_done]; } end_state(d); unchanged(g,cp); if(t) return; check_grid(d,g,sug,W().shown.back().img,e0,e1,hint,d.hint_amb&&hint,d.cursor); if(hint){ d.first=false; d.hint_amb=false; } sim::probe("disp:shown"); }
void wait(D& d){ static const int K[]={-1,' ',' ','q',27,1048576+'a',1048608,300,255,256,0}; { sim::Quiet q; W().keys={K[sim::gen(11)],'x'}; W().key=0; W().delays.clear(); } int del=1+sim::gen(50); int r=d.h->waitKey(del); sim::Quiet q; SIM_CHECK(W().delays.size()==1&&W().delays[0]==(d.cont?del:0),"wait-delay","waiting for a key for %d ms while %s waited %d",del,d.cont?"updating continuously":"paused",W().delays.empty()?-1:W().delays[0]); int k=W().keys[W().key-1]; SIM_CHECK(r==(k==-1?-1:k%256),"wait-key","key %d was returned as %d",k,r); if(k!=-1&&k%256==' ') d.cont=!d.cont; sim::probe("disp:key"); }
void album(D& d){ int n=1+sim::gen(4); std::vector<std::pair<cv::Mat,std::string>> v; cv::Size z(15+sim::gen(60),15+sim::gen(50)); if(sim::gen(3)) z=d.usual; { sim::Quiet q; for(int i=0;i<n;i++) v.push_back({gen_img(i==0||sim::gen_bool()?z:cv::Size(1+sim::gen(50),1+sim::gen(50)),false),sim::gen(3)?cv::format("i%d",i):std::string()}); } if(d.mx.area()>0&&(std::min(1.0,std::min(d.mx.width/(double)z.width,d.mx.height/(double)z.height))*std::min(z.width,z.height)<1.01)) return;
    int bad=sim::gen_rare(4,1,10); if(bad){ { sim::Quiet q; if(bad==1) v.clear(); else if(bad==2) v.back().first=cv::Mat(); else v[0].first=cv::Mat(5,5,bad==3?CV_8UC2:CV_64FC3,cv::Scalar::all(0)); } size_t s=W().shown.size(); SIM_CHECK(threw([&]{ d.h->displayAlbumAndWaitKey(v,5); })&&W().shown.size()==s,"album-not-refused","an album which cannot be displayed (%d) was not refused",bad); return; }
    std::vector<int> ks; std::vector<int> seq{0}; { sim::Quiet q; int c=0,m=sim::gen(8); for(int i=0;i<m;i++){ static const int K[]={'d','a',1113939,1113937,2424832,'x',-1,1048576+'d',1048576+'a',' '}; int j=sim::gen(10); ks.push_back(K[j]); int o=c; if(j==0||j==2||j==7) c=(c+1)%n; else if(j==1||j==3||j==4||j==8) c=(c+n-1)%n; if(c!=o) seq.push_back(c); } ks.push_back(sim::gen_bool()?27:1048576+27); W().keys=ks; W().key=0; W().delays.clear(); }
    Grid g(1,v); std::vector<cv::Mat> cp; { sim::Quiet q; cp=copies(g); } size_t s0=W().shown.size(),e0=W().events.size(); W().W=z.width; W().H=z.height; begin_state(Pair{z,z},d); int f0=W().failed; if(d.mx.area()>0&&(z.width>d.mx.width||z.height>d.mx.height))d.st.back()=Pair{cv::Size(-1,-1),cv::Size(-1,-1)};
    int del=1+sim::gen(20); bool t=threw([&]{ d.h->displayAlbumAndWaitKey(v,del); }); sim::Quiet q; if(t){ SIM_CHECK(W().failed>f0,"album-failed","displaying an album failed"); if(W().shown.size()>s0){ cv::Size f=W().shown[s0].img.size(); d.st.back()=Pair{f,f}; } else d.st.back()=d.st[W().st_done]; end_state(d); unchanged(g,cp); d.first=false; d.hint_amb=false; sim::probe("disp:album-failed"); return; } SIM_CHECK(W().shown.size()==s0+seq.size(),"album-sequence","%zu images were shown instead of %zu",W().shown.size()-s0,seq.size()); SIM_CHECK(W().key==ks.size(),"album-keys","%zu of %zu keys were read",W().key,ks.size()); for(int x:W().delays) SIM_CHECK(x==del,"wait-delay","the album waited %d ms for a key instead of %d",x,del); cv::Size f=W().shown[s0].img.size(); d.st.back()=Pair{f,f}; end_state(d); unchanged(g,cp); SIM_CHECK(!W().wins.count(d.name),"album-window","the album window stayed open");
    for(size_t i=0;i<seq.size();i++){ auto& S=W().shown[s0+i]; check_size(d,z,1,1,S.img,"the album"); SIM_CHECK(S.img.size()==f,"display-size","album images of different sizes"); cv::Mat base=to_bgr(v[seq[i]].first,f); int tol=v[seq[i]].first.depth()==CV_8U?0:2; text(base,v[seq[i]].second+cv::format(" [%d/%d]",seq[i]+1,n),cv::Point(4,15),2,1.2); bool ok=false; int bx=-1,by=-1; size_t lo=i==0?e0:(W().threaded?W().shown[s0+i-1].ev_begin:S.ev_begin); auto cs=d.cursor?cands(d,lo,S.ev_begin):std::vector<Cand>{Cand{false,0,0,Pair{}}}; for(auto& k:cs){ cv::Mat e=base.clone(); cv::Point p=k.in(); if(k.any&&p.x>=0&&p.y>=0&&p.x<f.width&&p.y<f.height&&k.p.tile==f) cross(e,p,cv::Scalar::all(255)); if(i==0) text(e,"[Press escape to exit album]",cv::Point(e.cols/2-115,e.rows-15),1,1.0); if(same(S.img,e,tol,&bx,&by)){ ok=true; break; } } SIM_CHECK(ok,"album-content","image %zu of the album sequence is not picture %d with its label and cursor (pixel %d,%d, %zu possible cursors)",i,seq[i],bx,by,cs.size()); }
    d.first=false; d.hint_amb=false; sim::probe("disp:album"); }
void history(bool threaded){ sim::heap_set_fill(sim::gen(4)); gui::reset(threaded); D d; d.usual=cv::Size(20+sim::gen(50),20+sim::gen(40)); d.name=cv::format("win%d",(int)sim::gen(100)); static const int M[][2]={{2560,1440},{0,0},{80,60},{60,80},{100,30},{30,100},{64,64}}; int mi=sim::gen(7); d.mx=cv::Size(M[mi][0],M[mi][1]); W().per_wait=sim::gen(6); W().fail_show=sim::gen_rare(2,1,3); if(W().fail_show) sim::enable(sim::K_USERFAULT,0.4); std::string dir=sim::gen(5)?"/simfs/dbg":"/simfs/none"; sim::vfs::mkdirs("/simfs/dbg");
    d.h=lv::DisplayHelper::create(d.name,dir,d.mx,cv::WINDOW_AUTOSIZE); d.fs=d.h->m_oFS.isOpened(); SIM_CHECK(d.fs==(dir=="/simfs/dbg"),"debug-file","the debug file is %sopen",d.fs?"":"not "); int wrote=-1; if(d.fs&&sim::gen_bool()){ wrote=sim::gen(100000); d.h->m_oFS<<"val"<<wrote; }
    std::atomic<bool> stop(false); std::thread th; if(threaded) th=std::thread([&]{ for(int left=60;!stop&&left>0;left--){ sim::sleep_ns((uint64_t)(1+sim::gen(12))*100000ull); int n=sim::gen(3); for(int i=0;i<n;i++){ int x,y,e,f; gui::rnd_event(x,y,e,f); gui::deliver(d.name,x,y,e,f); } } });
    struct J { std::atomic<bool>& s; std::thread& t; ~J(){ s=true; if(t.joinable()) t.join(); } } j{stop,th};
    int ops=2+sim::gen(13); for(int o=0;o<ops;o++){ int k=sim::gen(10); if(k<4) show(d); else if(k<6) wait(d); else if(k==6) album(d); else if(k==7) set_cb(d); else if(k==8){ if(sim::gen_bool()){ d.cont=sim::gen_bool(); d.h->setContinuousUpdates(d.cont); } else { d.cursor=sim::gen_bool(); d.h->setDisplayCursor(d.cursor); } } else if(sim::gen_rare(2,1,2)){ gui::user_close(d.name); sim::probe("disp:closed-by-user"); } if(threaded&&sim::gen_bool()) sim::sleep_ns((uint64_t)sim::gen(20)*100000ull); if(!threaded) check_events(d,true); }
    d.h.reset(); stop=true; if(th.joinable()) th.join(); check_events(d,true); sim::Quiet q; SIM_CHECK(W().wins.empty(),"window-left-open","the window stayed open after its helper was destroyed"); if(d.fs){ cv::FileStorage f("/simfs/dbg/"+d.name+".yml",cv::FileStorage::READ); SIM_CHECK(f.isOpened()&&!f["htag"].empty()&&!f["date"].empty(),"debug-file","the debug file was not written"); if(wrote>=0) SIM_CHECK((int)f["val"]==wrote,"debug-file","a value written to the debug file is lost"); } sim::probe(threaded?"disp:threaded":"disp:single"); }
SIM_HARNESS("P28",display){ history(false); }
SIM_HARNESS("P28",display_threaded){ history(true); }
}
