// P29: whole applications (apps/changedet, apps/edges) run against a simulated disk, window system and scheduler; compared with a plain sequential evaluation.
#include "sim.hpp"
#include "gui.hpp"
#include "litiv/datasets.hpp"
#include "litiv/video.hpp"
#include "litiv/imgproc.hpp"
#include <thread>
#include <mutex>
#include <iostream>
#include <functional>
namespace sim { void heap_set_fill(int mode); }
extern "C" size_t sim_cache_min_value;
static const bool fair_cap_set=(sim::set_fair_cap(600000000ull),true); // pure computing: long but finite
int run_cd_show(); int run_cd_eval(); int run_cd_many(); int run_ed_show(); int run_ed_eval(); int run_ed_many();
namespace {
typedef lv::Dataset_<lv::DatasetTask_Segm,lv::Dataset_CDnet,lv::NonParallel> DsCd; typedef lv::Dataset_<lv::DatasetTask_EdgDet,lv::Dataset_BSDS500,lv::NonParallel> DsBs;
typedef std::map<std::string,std::string> Tree; typedef std::vector<std::string> VS;
gui::World& W(){ return gui::world(); }
void walk(const std::string& d,const std::string& rel,Tree& t){ for(auto& n:sim::vfs::list(d)){ if(n=="."||n=="..") continue; std::string p=d+n; if(sim::vfs::is_dir(p)) walk(p+"/",rel+n+"/",t); else { std::string s; sim::vfs::get(p,s); t[rel+n]=s; } } }
// reports without the measured times
std::string norm(const std::string& n,const std::string& s){ if(n.size()>4&&n.substr(n.size()-4)==".yml") return std::string(); if(n.size()<4||n.substr(n.size()-4)!=".txt") return s; bool def=s.find("Default evaluation report")==0; std::string o; size_t p=0; while(p<s.size()){ size_t e=s.find('\n',p); if(e==std::string::npos) e=s.size(); std::string l=s.substr(p,e-p); p=e+1; if(l.compare(0,3,"Hz:")==0) continue; if(l.compare(0,15,"LITIV Framework")==0) break; if(def){ size_t b=l.find('|'); if(b!=std::string::npos&&l.find('|',b+1)!=std::string::npos) l=l.substr(0,l.find('|',b+1)); else if(b==std::string::npos&&o.find('|')!=std::string::npos) break; } o+=l+"\n"; if(l.compare(0,6,"Count:")==0) break; } return o; }
void put(const std::string& p,const cv::Mat& m){ sim::Quiet q; std::vector<uchar> b; cv::imencode(p.substr(p.find_last_of('.'))==".bmp"?".bmp":".png",m,b); sim::vfs::put(p,std::string((char*)b.data(),b.size())); }
cv::Mat pic(int h,int w,int c,unsigned s,int step,const std::vector<int>& vals){ sim::Quiet q; cv::Mat m(h,w,CV_MAKETYPE(CV_8U,c)); for(int y=0;y<h;y++) for(int x=0;x<w*c;x++){ unsigned v=(unsigned)(y/step*131+x/c/step*17+x%c)*2654435761u+s*40503u; v^=v>>13; v*=2246822519u; v>>=9; m.ptr(y)[x]=vals.empty()?(uchar)v:(uchar)vals[v%vals.size()]; } return m; }
size_t g_caught,g_failed; // failures announced by the application, failed batches of the reference
struct Opt { bool save,eval,show; }; struct Run { std::vector<gui::Shown> shown; size_t keys=0; std::vector<int> delays; };
// what the change detection application must do for one batch
void ref_cd(DsCd::WorkBatch& b,const Opt& o){ srand(0); try { lvAssert(b.getFrameCount()>1); const cv::Mat& roi=b.getFrameROI(); cv::Mat in=b.getInput(0).clone(); lvAssert(!in.empty()&&in.size()==roi.size()); BackgroundSubtractorLOBSTER_<lv::NonParallel> a; double lr=a.getDefaultLearningRate(); a.initialize(in,roi); lv::DisplayHelperPtr dh; if(o.show){ dh=lv::DisplayHelper::create(b.getName(),b.getOutputPath()+"../"); a.m_pDisplayHelper=dh; } cv::Mat fg(b.getFrameSize(),CV_8UC1,cv::Scalar(0)); b.startProcessing(); for(size_t i=0;i<b.getFrameCount();i++){ in=b.getInput(i); a.apply(in,fg,i<=100?1:lr); if(o.show){ cv::Mat bg; a.getBackgroundImage(bg); cv::bitwise_or(bg,UCHAR_MAX/2,bg,roi==0); cv::bitwise_or(fg,UCHAR_MAX/2,fg,roi==0); dh->display(in,bg,b.getColoredMask(fg,i),i); if(dh->waitKey()=='q') break; } b.push(fg,i); } b.stopProcessing(); b.writeEvalReport(); } catch(const std::exception& e){ g_failed++; sim::logf("reference: %s",e.what()); } if(b.isProcessing()) b.stopProcessing(); }
void ref_ed(DsBs::WorkBatch& b,const Opt& o,bool full){ srand(0); try { EdgeDetectorLBSP a; cv::Mat in,m; lv::DisplayHelperPtr dh; if(o.show){ dh=lv::DisplayHelper::create(b.getName(),b.getOutputPath()+"../"); a.m_pDisplayHelper=dh; } b.startProcessing(); for(size_t i=0;i<b.getImageCount();i++){ in=b.getInput(i); if(full) a.apply(in,m); else a.apply_threshold(in,m,a.getDefaultThreshold()); if(o.show){ dh->display(in,m,b.getColoredMask(m,i),i); if(dh->waitKey()=='q') break; } b.push(m,i); } b.stopProcessing(); b.writeEvalReport(); } catch(const std::exception& e){ g_failed++; sim::logf("reference: %s",e.what()); } if(b.isProcessing()) b.stopProcessing(); }
Run collect(){ Run r; r.shown=W().shown; r.keys=W().key; r.delays=W().delays; return r; }
void fresh(const std::vector<int>& keys,bool many=false){ gui::reset(many); W().keys=keys; W().spare='x'; }
std::map<std::string,std::vector<cv::Mat>> by_win(const Run& r){ std::map<std::string,std::vector<cv::Mat>> m; for(auto& s:r.shown) m[s.win].push_back(s.img); return m; }
bool eq(const cv::Mat& a,const cv::Mat& b){ if(a.size()!=b.size()||a.type()!=b.type()) return false; for(int y=0;y<a.rows;y++) if(memcmp(a.ptr(y),b.ptr(y),a.cols*a.elemSize())) return false; return true; }
// hurt: output directory (relative) of the batch whose inputs vanished while the application ran, or nothing
void compare(const std::string& root,int rc,const Run& ra,const Run& rb,const std::string& hurt,const std::string& hurtwin,bool order){ sim::Quiet q; Tree ta,tb; walk(root+"ref/",std::string(),ta); walk(root+"results_test/",std::string(),tb); SIM_CHECK(rc==0,"app-failed","the application returned %d",rc); SIM_CHECK(!hurt.empty()||g_caught<=g_failed,"app-failed","the application reports %zu failed batches, a plain evaluation has %zu",g_caught,g_failed); size_t img=0; for(auto& e:ta){ bool inb=!hurt.empty()&&e.first.compare(0,hurt.size(),hurt)==0,rep=e.first.size()>4&&e.first.substr(e.first.size()-4)==".txt"; auto it=tb.find(e.first); if(!hurt.empty()&&(inb||(rep&&(hurt.compare(0,e.first.size()-4,e.first,0,e.first.size()-4)==0||e.first.find('/')==std::string::npos)))){ if(it!=tb.end()&&!rep) SIM_CHECK(norm(e.first,e.second)==norm(e.first,it->second),"app-output","output %s differs from a plain evaluation",e.first.c_str()); continue; }
        SIM_CHECK(it!=tb.end(),"app-output-lost","%s was not written by the application",e.first.c_str()); std::string x=norm(e.first,e.second),y=norm(e.first,it->second); SIM_CHECK(x==y,rep?"app-report":"app-output","%s written by the application differs from a plain evaluation%s%s%s%s",e.first.c_str(),rep?"\n":"",rep?x.c_str():"",rep?"--\n":"",rep?y.c_str():""); if(!rep) img++; }
    for(auto& e:tb) SIM_CHECK(ta.count(e.first)||!hurt.empty(),"app-output-extra","unexpected file %s written by the application",e.first.c_str()); if(img) sim::probe("apps:outputs-equal");
    auto a=by_win(ra),b=by_win(rb); for(auto& p:a){ if(p.first==hurtwin&&!hurt.empty()) continue; SIM_CHECK(b[p.first].size()==p.second.size(),"app-display","%zu images were shown in window '%s', expected %zu",b[p.first].size(),p.first.c_str(),p.second.size()); for(size_t i=0;i<p.second.size();i++) SIM_CHECK(eq(p.second[i],b[p.first][i]),"app-display","image %zu shown in window '%s' differs from a plain evaluation",i,p.first.c_str()); sim::probe("apps:display-equal"); } for(auto& p:b) SIM_CHECK(a.count(p.first)||p.second.empty(),"app-display","unexpected window '%s'",p.first.c_str()); if(order&&hurt.empty()) SIM_CHECK(ra.keys==rb.keys&&ra.delays==rb.delays,"app-keys","%zu keys were read, expected %zu",rb.keys,ra.keys); SIM_CHECK(W().wins.empty(),"window-left-open","a window stayed open"); sim::probe("apps:compared"); }
std::vector<int> gen_keys(bool quit){ std::vector<int> k; int n=sim::gen(30); static const int K[]={-1,-1,' ',' ','x',255,'d'}; for(int i=0;i<n;i++) k.push_back(quit&&sim::gen_rare(2,1,10)?(int)'q':K[sim::gen(7)]); return k; }
struct Tap : std::streambuf { std::mutex m; std::string s; int_type overflow(int_type c) override { std::lock_guard<std::mutex> l(m); if(c!=traits_type::eof()) s+=(char)c; return traits_type::not_eof(c); } std::streamsize xsputn(const char* p,std::streamsize n) override { std::lock_guard<std::mutex> l(m); s.append(p,n); return n; } };
struct Null { Tap t; std::streambuf* o; Null():o(std::cout.rdbuf(&t)){} ~Null(){ std::cout.rdbuf(o); std::cout.clear(); } };
// runs the application, with inputs of one batch vanishing at some point if asked to
int drive(int (*app)(),const std::string& victim){ std::thread t; if(!victim.empty()){ uint64_t d=(uint64_t)sim::gen(2000)*20000ull; t=std::thread([=]{ sim::sleep_ns(d); sim::vfs::remove(victim); }); } int rc; { Null n; rc=app(); sim::Quiet q; for(size_t p=n.t.s.find("caught");p!=std::string::npos;p=n.t.s.find("caught",p+1)) g_caught++; } if(t.joinable()) t.join(); return rc; }
void start(){ g_caught=g_failed=0; sim::heap_set_fill(sim::gen(4)); sim::enable(sim::K_DIRORDER,0.5); sim::rand_per_thread(true); sim_cache_min_value=1; }
void changedet(int (*app)(),Opt o,bool many){ start(); static const char* const cat[11]={"badWeather","baseline","cameraJitter","dynamicBackground","intermittentObjectMotion","lowFramerate","nightVideos","PTZ","shadow","thermal","turbulence"}; const std::string R="/simfs/data/CDNet2014/"; sim::vfs::mkdirs(R+"results"); int big=sim::gen(11); VS dirs; std::vector<VS> files; for(int c=0;c<11;c++){ int n=c==big?1+(int)sim::gen(2):1; for(int s=0;s<n;s++){ std::string rel=std::string(cat[c])+"/"+cv::format("s%d_%d/",c,s),d=R+"dataset/"+rel; dirs.push_back(rel); files.push_back(VS()); int h=5+sim::gen(c==big?6:3),w=5+sim::gen(c==big?8:3),nf=(c==big?1+(int)sim::gen(5):2); if(sim::gen_rare(2,1,12)) nf=1; if(c==big&&sim::gen_rare(2,1,8)){ nf=101+(int)sim::gen(4); sim::probe("apps:long"); } unsigned salt=sim::gen(10000); cv::Mat roi=sim::gen_bool()?pic(h,w,1,0,1,{255}):pic(h,w,1,salt,2,{0,255,255}); roi.at<uchar>(sim::gen(h),sim::gen(w))=255; put(d+"ROI.bmp",roi); put(d+"ROI.jpg",pic(h,w,3,1,1,{255})); for(int i=0;i<nf;i++){ unsigned fs=sim::gen(3)?salt:salt+i+1; files.back().push_back(d+cv::format("input/in%06d.jpg",i+1)); put(files.back().back(),pic(h,w,3,fs,2,{})); put(d+cv::format("groundtruth/gt%06d.png",i+1),pic(h,w,1,salt+i*7,1,{0,0,50,85,170,255,255})); } } }
    std::vector<int> keys=gen_keys(!many); Run ra; { sim::Quiet q; fresh(keys); auto ds=DsCd::create("ref",o.save,o.eval,false,1.0); for(auto& p:ds->getBatches(false)) ref_cd(dynamic_cast<DsCd::WorkBatch&>(*p),o); ds->writeEvalReport(); ds.reset(); ra=collect(); fresh(keys,many); }
    if(many) sim::race_check(false); /* the workers share the format flags of std::cout */ int v=-1; if(!o.show&&sim::gen_rare(2,1,3)) v=sim::gen(dirs.size()); std::string victim; if(v>=0){ victim=files[v][sim::gen(files[v].size())]; sim::probe("apps:inputs-vanish"); } int rc=drive(app,victim); if(v>=0&&rc!=0){ sim::probe("apps:refused"); return; } compare(R+"results/",rc,ra,collect(),v>=0?dirs[v]:std::string(),std::string(),!many); }
void edges(int (*app)(),Opt o,bool full){ start(); const std::string R="/simfs/data/BSDS500/"; sim::vfs::mkdirs(R+"BSR"); int n=1+sim::gen(2); bool tall=sim::gen_bool(); int h=tall?481:321,w=tall?321:481; for(int i=0;i<n;i++){ std::string id=cv::format("%d",1000+i*37); unsigned s=sim::gen(1000); put(R+"data/images/train/"+id+".jpg",pic(h,w,3,s,60,{})); int g=1+sim::gen(2); for(int k=0;k<g;k++) put(R+"data/groundTruth_bdry_images/train/"+id+cv::format("/g%d.png",k),pic(h,w,1,s+k,60,{0,255,255})); }
    std::vector<int> keys=gen_keys(true); Run ra; { sim::Quiet q; fresh(keys); auto ds=DsBs::create("ref",o.save,o.eval,0.05); for(auto& p:ds->getBatches(false)) ref_ed(dynamic_cast<DsBs::WorkBatch&>(*p),o,full); ds->writeEvalReport(); ds.reset(); ra=collect(); fresh(keys); } int rc=drive(app,std::string()); compare(R+"BSR/",rc,ra,collect(),std::string(),std::string(),true); }
}
SIM_HARNESS_W("P29",changedet_shown,2){ changedet(run_cd_show,Opt{false,false,true},false); }
SIM_HARNESS_W("P29",changedet_evaluated,3){ changedet(run_cd_eval,Opt{true,true,false},false); }
SIM_HARNESS_W("P29",changedet_parallel,2){ changedet(run_cd_many,Opt{true,true,true},true); }
SIM_HARNESS("P29",edges_shown){ edges(run_ed_show,Opt{false,false,true},true); }
SIM_HARNESS("P29",edges_evaluated){ edges(run_ed_eval,Opt{true,true,false},true); }
SIM_HARNESS("P29",edges_saved){ edges(run_ed_many,Opt{true,false,true},false); }
