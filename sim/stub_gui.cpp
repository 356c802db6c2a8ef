// The simulated window system behind gui.hpp: behaves like OpenCV's GTK back end (a window lock held while callbacks run, errors for windows which do not exist).
#include "gui.hpp"
#include "sim.hpp"
#include <mutex>
extern "C" { size_t sim_cache_min_value=10*1024*1024; size_t sim_cache_min_size(){ return sim_cache_min_value; } int sim_frame_w(){ return 320; } int sim_frame_h(){ return 240; } }
extern "C" void sim_warmup(){ cv::setNumThreads(0); cv::theRNG(); cv::Mat m(4,4,CV_8UC1,cv::Scalar(1)); cv::Mat n; m.convertTo(n,CV_32F); cv::cvtColor(m,n,cv::COLOR_GRAY2BGR); cv::resize(n,m,cv::Size(3,3)); cv::putText(m,"a",cv::Point(0,2),cv::FONT_HERSHEY_PLAIN,1,cv::Scalar::all(1),1,cv::LINE_AA); }
namespace gui {
static World* g=nullptr; static std::mutex* gm=nullptr;
World& world(){ return *g; }
void reset(bool t){ g=new World; gm=new std::mutex; g->threaded=t; g->events.reserve(4096); }
struct L { bool on; L():on(g->threaded){ if(on) gm->lock(); } ~L(){ if(on) gm->unlock(); } };
void rnd_event(int& x,int& y,int& ev,int& flags){ int k=sim::gen(8); x=k==0?-1-(int)sim::gen(30):k==1?g->W+(int)sim::gen(20):sim::gen(g->W); k=sim::gen(8); y=k==0?-1-(int)sim::gen(30):k==1?g->H+(int)sim::gen(20):sim::gen(g->H); ev=sim::gen(12); flags=sim::gen(64); }
void deliver(const std::string& win,int x,int y,int ev,int flags){ L l; auto it=g->wins.find(win); if(it==g->wins.end()||!it->second.first||g->events.size()>=4096) return; size_t i=g->events.size(); g->events.push_back(Event{x,y,ev,flags,g->st_done,0,g->gen_done,0,{},false}); it->second.first(ev,x,y,flags,it->second.second); Event& e=g->events[i]; e.st1=g->st_begun; e.gen1=g->gen_begun; e.done=true; }
void user_close(const std::string& win){ L l; if(g->wins.erase(win)) g->closed++; }
}
using namespace gui;
namespace cv {
void namedWindow(const String& w,int f){ L l; g->flags=f; if(!g->wins.count(w)){ g->wins[w]={nullptr,nullptr}; g->opened++; } }
void setMouseCallback(const String& w,MouseCallback c,void* p){ L l; auto it=g->wins.find(w); if(it==g->wins.end()) CV_Error(Error::StsNullPtr,"NULL window"); it->second={c,p}; }
void imshow(const String& w,InputArray a){ L l; if(g->fail_show&&sim::fault(sim::K_USERFAULT)){ g->failed++; CV_Error(Error::StsError,"simulated display failure"); } if(!g->wins.count(w)){ g->wins[w]={nullptr,nullptr}; g->opened++; } g->shown.push_back(Shown{w,a.getMat().clone(),g->events.size()}); }
void destroyWindow(const String& w){ L l; if(!g->wins.erase(w)) CV_Error(Error::StsNullPtr,"NULL window"); g->closed++; }
int waitKey(int d){ { L l; g->delays.push_back(d); } if(!g->threaded){ int n=sim::gen(g->per_wait+1); for(int i=0;i<n;i++){ int x,y,e,f; rnd_event(x,y,e,f); auto wins=g->wins; for(auto& p:wins) deliver(p.first,x,y,e,f); } } else sim::sleep_ns((uint64_t)(1+sim::gen(4))*300000ull); L l; int k=g->key<g->keys.size()?g->keys[g->key]:g->spare; if(k==-1&&d<=0){ while(g->key<g->keys.size()&&g->keys[g->key]==-1) g->key++; k=g->key<g->keys.size()?g->keys[g->key]:g->spare; } g->key++; return k; }
void destroyAllWindows(){} void resizeWindow(const String&,int,int){} void moveWindow(const String&,int,int){} void setWindowProperty(const String&,int,double){} int startWindowThread(){ return 0; }
}
