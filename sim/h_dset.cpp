// P25: the dataset parsers on a simulated disk: every input packet comes with its own ground truth, masks and region of interest.
#include "sim.hpp"
#include "h_pipe.hpp"
#define DATASETS_LITIV2018_DATA_VERSION 2
#include "litiv/datasets.hpp"
#include <opencv2/calib3d.hpp>
#include <map>
#include <set>
namespace {
static const bool fair_cap_set=(sim::set_fair_cap(600000000ull),true); // pure computing: long but finite
typedef std::vector<std::string> VS; typedef std::vector<cv::Mat> VM;
typedef lv::Dataset_<lv::DatasetTask_Segm,lv::Dataset_CDnet,lv::NonParallel> DsCd;
typedef lv::Dataset_<lv::DatasetTask_Segm,lv::Dataset_Wallflower,lv::NonParallel> DsWf;
typedef lv::Dataset_<lv::DatasetTask_Segm,lv::Dataset_PETS2001D3TC1,lv::NonParallel> DsPt;
typedef lv::Dataset_<lv::DatasetTask_EdgDet,lv::Dataset_BSDS500,lv::NonParallel> DsBs;
typedef lv::Dataset_<lv::DatasetTask_StereoReg,lv::Dataset_LITIV_bilodeau2014,lv::NonParallel> DsBi;
typedef lv::Dataset_<lv::DatasetTask_Cosegm,lv::Dataset_VAP_trimod2016,lv::NonParallel> DsVp;
const std::string ROOT="/simfs/data/";
std::string num(const char* f,int a){ char b[96]; snprintf(b,sizeof b,f,a); return b; }
uint32_t g_salt;
cv::Mat pic(int h,int w,int type,int block=1){ sim::Quiet q; cv::Mat s((h+block-1)/block,(w+block-1)/block,type); cv::RNG r(((uint64_t)++g_salt)*2654435761ull+12345); r.fill(s,cv::RNG::UNIFORM,0,CV_MAT_DEPTH(type)==CV_16U?65536:256); if(block==1) return s; cv::Mat o; cv::resize(s,o,cv::Size(w,h),0,0,cv::INTER_NEAREST); return o; }
cv::Mat white(const cv::Mat& m,int thr){ sim::Quiet q; cv::Mat o=m.clone(); cv::Mat g; if(m.channels()==3) cv::cvtColor(m,g,cv::COLOR_BGR2GRAY); else g=m; o.setTo(cv::Scalar::all(255),g>thr); return o; }
void put(const std::string& p,const cv::Mat& m){ sim::Quiet q; std::vector<uchar> b; std::vector<int> par; bool big=m.total()>20000; if(big||m.depth()==CV_16U) par={cv::IMWRITE_PNG_COMPRESSION,1}; cv::imencode(big||m.depth()==CV_16U?".png":".bmp",m,b,par); sim::vfs::put(p,std::string((char*)b.data(),b.size())); }
bool same(const cv::Mat& a,const cv::Mat& b){ if(!a.empty()&&a.isContinuous()) sim::touch(a.data,a.total()*a.elemSize(),false); sim::Quiet q; if(a.empty()||b.empty()) return a.empty()==b.empty(); return a.type()==b.type()&&a.size()==b.size()&&cv::norm(a,b,cv::NORM_INF)==0; }
std::string desc(const cv::Mat& m){ char b[64]; snprintf(b,sizeof b,"%dx%d type %d",m.cols,m.rows,m.empty()?-1:m.type()); return b; }
cv::Mat fit(const cv::Mat& m,cv::Size z,int ch){ sim::Quiet q; cv::Mat c=m,o; if(ch==4&&m.channels()==3) cv::cvtColor(m,c,cv::COLOR_BGR2BGRA); else if(ch==1&&m.channels()==3) cv::cvtColor(m,c,cv::COLOR_BGR2GRAY); if(c.size()!=z) cv::resize(c,o,z,0,0,cv::INTER_NEAREST); else o=c; return o; }
cv::Mat nearest(const cv::Mat& m,double s){ sim::Quiet q; if(s==1) return m; cv::Mat o; cv::resize(m,o,cv::Size(),s,s,cv::INTER_NEAREST); return o; }
// expected content of one batch: per packet a list of streams (one for single-stream datasets), ground truth (empty list: none)
struct Exp { std::string name; std::vector<VM> in,gt; VM inroi,gtroi; size_t gts=0; bool used=false; };
uint64_t io_fired(){ return sim::fired(sim::K_IO_OPEN)+sim::fired(sim::K_IO_READ)+sim::fired(sim::K_MALLOCFAIL); }
template<class B> std::enable_if_t<std::is_base_of<lv::IDataLoader_<lv::Array>,B>::value,VM> get_in(B& b,size_t i){ return b.getInputArray(i); }
template<class B> std::enable_if_t<!std::is_base_of<lv::IDataLoader_<lv::Array>,B>::value,VM> get_in(B& b,size_t i){ return VM{b.getInput(i)}; }
template<class B> std::enable_if_t<std::is_base_of<lv::IDataLoader_<lv::Array>,B>::value,VM> get_gt(B& b,size_t i){ return b.getGTArray(i); }
template<class B> std::enable_if_t<!std::is_base_of<lv::IDataLoader_<lv::Array>,B>::value,VM> get_gt(B& b,size_t i){ return VM{b.getGT(i)}; }
template<class B> std::enable_if_t<std::is_base_of<lv::IDataLoader_<lv::Array>,B>::value,VM> get_roi(B& b,size_t i,bool gt){ return gt?((lv::IDataLoader_<lv::Array>&)b).getGTROIArray(i):((lv::IDataLoader_<lv::Array>&)b).getInputROIArray(i); }
template<class B> std::enable_if_t<!std::is_base_of<lv::IDataLoader_<lv::Array>,B>::value,VM> get_roi(B& b,size_t i,bool gt){ lv::IIDataLoader& l=b; return VM{gt?l.getGTROI(i):l.getInputROI(i)}; }
template<class B> std::enable_if_t<std::is_base_of<lv::IDataLoader_<lv::Array>,B>::value,std::vector<lv::MatInfo>> get_info(B& b,size_t i,bool gt){ return gt?((lv::IDataLoader_<lv::Array>&)b).getGTInfoArray(i):((lv::IDataLoader_<lv::Array>&)b).getInputInfoArray(i); }
template<class B> std::enable_if_t<!std::is_base_of<lv::IDataLoader_<lv::Array>,B>::value,std::vector<lv::MatInfo>> get_info(B& b,size_t i,bool gt){ lv::IIDataLoader& l=b; return {gt?l.getGTInfo(i):l.getInputInfo(i)}; }
void cmp(const VM& a,const VM& e,const char* what,const std::string& bn,size_t i){ SIM_CHECK(a.size()==e.size(),"stream-count","%s packet %zu of batch '%s' has %zu streams, expected %zu",what,i,bn.c_str(),a.size(),e.size()); for(size_t s=0;s<a.size();s++) SIM_CHECK(same(a[s],e[s]),"packet-wrong","%s packet %zu (stream %zu) of batch '%s' is not the one on disk (%s, expected %s)",what,i,s,bn.c_str(),desc(a[s]).c_str(),desc(e[s]).c_str()); }
template<class B> void check_batch(B& b,Exp& e,bool faults){ e.used=true; size_t n=e.in.size(); SIM_CHECK(b.getInputCount()==n,"input-count","batch '%s' has %zu inputs, %zu are on disk",e.name.c_str(),b.getInputCount(),n); size_t ng=0; for(auto& g:e.gt) ng+=!g.empty(); SIM_CHECK(b.getGTCount()==ng,"gt-count","batch '%s' has %zu ground truth packets, %zu are on disk",e.name.c_str(),b.getGTCount(),ng);
    size_t S=e.in.empty()?0:e.in[0].size(),G=0; for(auto& g:e.gt) if(!g.empty()) G=g.size(); if(e.gts) G=e.gts; if(!G) G=S;
    bool pre=sim::gen_rare(2,1,3)!=0; if(pre){ b.startPrecaching(sim::gen_bool(),sim::gen_bool()?SIZE_MAX:1+sim::gen(4000000)); sim::probe("dset:precached"); }
    int ops=(int)(2*n+2); for(int k=0;k<ops;k++){ size_t i=k<(int)n?(size_t)k:sim::gen((uint32_t)n+1); bool gt=sim::gen_bool(); const VM none(gt?G:S); const VM& x=i<n?(gt?(e.gt[i].empty()?none:e.gt[i]):e.in[i]):none; auto one=[&](bool g){ return g?get_gt(b,i):get_in(b,i); }; VM r; uint64_t f0=io_fired(); bool ok=true;
        if(faults&&!pre){ try{ sim::IoFaults io; r=one(gt); }catch(const std::exception& ex){ ok=false; SIM_CHECK(io_fired()>f0,"spurious-failure","packet %zu of batch '%s' could not be read although the disk worked: %s",i,e.name.c_str(),ex.what()); sim::probe("dset:read-failed"); } } else r=one(gt);
        if(ok) cmp(r,x,gt?"ground truth":"input",e.name,i); if(i<n){ cmp(get_roi(b,i,false),e.inroi,"input ROI of",e.name,i); if(!e.gt[i].empty()) cmp(get_roi(b,i,true),e.gtroi,"GT ROI of",e.name,i); auto inf=get_info(b,i,gt); SIM_CHECK(inf.size()==x.size(),"info-count","packet infos %zu, streams %zu",inf.size(),x.size()); for(size_t s=0;s<x.size();s++) SIM_CHECK(x[s].empty()?inf[s].size.empty():(inf[s].size()==x[s].size()&&(int)inf[s].type()==x[s].type()),"info-wrong","the declared size or type of %s packet %zu (stream %zu) of batch '%s' is not that of the packet",gt?"ground truth":"input",i,s,e.name.c_str()); }
        if(gt?i<n&&!e.gt[i].empty():i<n) sim::probe(gt?"dset:gt-checked":"dset:input-checked"); else sim::probe("dset:nothing-expected"); }
    if(pre) b.stopPrecaching(); }
template<class DS> void check_all(std::shared_ptr<DS> ds,std::vector<Exp>& ex,bool faults){ auto v=ds->getBatches(false); std::vector<typename DS::WorkBatch*> w; for(auto& p:v) w.push_back(dynamic_cast<typename DS::WorkBatch*>(p.get())); SIM_CHECK(w.size()==ex.size(),"batch-count","%zu work batches, %zu sequences are on disk",w.size(),ex.size()); for(auto* b:w){ SIM_CHECK(b,"batch-type","unexpected work batch"); Exp* e=nullptr; for(auto& x:ex) if(x.name==b->getRelativePath()) e=&x; SIM_CHECK(e&&!e->used,"batch-unknown","work batch '%s' is not on disk, or appears twice",b->getRelativePath().c_str()); check_batch(*b,*e,faults); } }
// builds the dataset; a damaged one has to be refused (by its parser, or when the damaged packet is read)
template<class DS,class F> std::shared_ptr<DS> build(F mk,bool damaged,const char* how){ try{ auto d=mk(); SIM_CHECK(!damaged,"damage-accepted","a dataset with %s was accepted",how); return d; }catch(const std::exception& e){ if(!damaged) sim::violation("spurious-refusal","an intact dataset was refused: %s",e.what()); sim::probe("dset:damaged-refused"); return nullptr; } }
double gen_scale(){ return sim::gen_rare(2,1,3)?(sim::gen_bool()?0.5:2.0):1.0; }
void start(){ g_salt=1000*sim::gen(1000); sim::enable(sim::K_DIRORDER,0.5); sim::enable(sim::K_CLOCKJUMP,0.02); sim::enable(sim::K_IO_OPEN,0.1); sim::enable(sim::K_IO_READ,0.1); }
}
extern "C" size_t sim_cache_min_value;
SIM_HARNESS_W("P25",cdnet,2){ start(); sim_cache_min_value=1; bool y14=sim::gen_bool(); static const char* const c14[11]={"badWeather","baseline","cameraJitter","dynamicBackground","intermittentObjectMotion","lowFramerate","nightVideos","PTZ","shadow","thermal","turbulence"}; static const char* const c12[6]={"baseline","cameraJitter","dynamicBackground","intermittentObjectMotion","shadow","thermal"}; const std::string R=ROOT+(y14?"CDNet2014/":"CDNet/"); double sc=gen_scale(); bool al=sim::gen_rare(2,1,4)!=0; sim::vfs::mkdirs(R+"results"); std::vector<Exp> ex; int dmg=(int)sim::gen_rare(6,1,4); int nc=y14?11:6; int dc=(int)sim::gen(nc); bool odd=sim::gen_rare(2,1,4)!=0;
    for(int c=0;c<nc;c++){ std::string cat=y14?c14[c]:c12[c]; bool gray=cat=="thermal"||cat=="turbulence"; int ns=1+(int)sim::gen_rare(2,1,3); for(int s=0;s<ns;s++){ Exp e; e.name=cat+"/"+num(sim::gen_bool()?"seq%d/":"b%d_input/",s); std::string d=R+"dataset/"+e.name; int h=3+(int)sim::gen(5),w=3+(int)sim::gen(6),nf=1+(int)sim::gen(4); cv::Mat roi=pic(h,w,CV_8UC1); { sim::Quiet q; roi=roi>100; roi.at<uchar>(0,0)=255; } cv::Size rz(w,h); if(odd&&sim::gen_bool()){ int h2=2+(int)sim::gen(6),w2=2+(int)sim::gen(6); put(d+"ROI.jpg",pic(h2,w2,CV_8UC3)); rz=cv::Size(std::min(w,w2),std::min(h,h2)); sim::probe("dset:roi-mismatch"); } else put(d+"ROI.jpg",pic(h,w,CV_8UC3)); put(d+"ROI.bmp",roi); roi=nearest(cv::Mat(roi,cv::Rect(0,0,rz.width,rz.height)).clone(),sc); int base=(int)sim::gen_rare(3,1,3)*470;
            for(int i=0;i<nf;i++){ cv::Mat in=pic(h,w,CV_8UC3),gt=pic(h,w,CV_8UC1); put(d+num("input/in%06d.jpg",base+i+1),in); put(d+num("groundtruth/gt%06d.png",base+i+1),gt); e.in.push_back({fit(in,roi.size(),gray?1:al?4:3)}); e.gt.push_back({fit(gt,roi.size(),1)}); } e.inroi=e.gtroi={roi}; if(dmg&&c==dc&&s==0){ if(dmg==1) sim::vfs::remove(d+"ROI.bmp"); if(dmg==2) sim::vfs::put(d+"ROI.jpg","damaged"); if(dmg==3) sim::vfs::remove(d+num("groundtruth/gt%06d.png",base+1+(int)sim::gen(nf))); if(dmg==4) put(d+num("groundtruth/gt%06d.png",base+nf+1),roi); if(dmg==5) sim::vfs::remove(d+num("input/in%06d.jpg",base+1+(int)sim::gen(nf))); } ex.push_back(e); } }
    auto ds=build<DsCd>([&]{ return DsCd::create("out",false,sim::gen_bool(),al,sc,y14); },dmg!=0,"missing, extra or damaged files"); if(ds){ check_all<DsCd>(ds,ex,sim::gen_bool()); sim::probe(y14?"dset:cdnet2014":"dset:cdnet2012"); } }
SIM_HARNESS("P25",wallflower){ start(); sim_cache_min_value=1; const std::string R=ROOT+"Wallflower/"; double sc=gen_scale(); bool al=sim::gen_rare(2,1,4)!=0; std::vector<Exp> ex; int dmg=(int)sim::gen_rare(6,1,4); static const char* const nm[4]={"Bootstrap","Camouflage","LightSwitch","TimeOfDay"}; int ns=1+(int)sim::gen(4),dc=(int)sim::gen(ns);
    for(int s=0;s<ns;s++){ Exp e; e.name=std::string(nm[s])+"/"; std::string d=R+"dataset/"+e.name; int h=3+(int)sim::gen(5),w=3+(int)sim::gen(6),nf=1+(int)sim::gen(6),g=(int)sim::gen(nf); cv::Mat roi; { sim::Quiet q; roi=cv::Mat(h,w,CV_8UC1,cv::Scalar(255)); } roi=nearest(roi,sc); for(int i=0;i<nf;i++){ cv::Mat in=pic(h,w,CV_8UC3); put(d+num("b%05d.bmp",i),in); e.in.push_back({fit(in,roi.size(),al?4:3)}); e.gt.push_back(VM()); } cv::Mat gt=pic(h,w,sim::gen_bool()?CV_8UC1:CV_8UC3); put(d+num("hand_segmented_%05d.BMP",g),gt); e.gt[g]={fit(gt,roi.size(),1)}; sim::vfs::put(d+"script.txt","0 1 2\n"); e.inroi=e.gtroi={roi};
        if(dmg&&s==dc){ if(dmg==1) sim::vfs::remove(d+"script.txt"); if(dmg==2) sim::vfs::remove(d+num("hand_segmented_%05d.BMP",g)); if(dmg==3) sim::vfs::put(d+num("hand_segmented_%05d.BMP",g),"damaged"); if(dmg==4) put(d+num("hand_segmented_%05d.BMP",g+1),gt); if(dmg==5) for(int i=0;i<nf;i++) sim::vfs::remove(d+num("b%05d.bmp",i)); } ex.push_back(e); }
    auto ds=build<DsWf>([&]{ return DsWf::create("out",false,sim::gen_bool(),al,sc); },dmg!=0,"missing, extra or damaged files"); if(ds){ check_all<DsWf>(ds,ex,sim::gen_bool()); sim::probe("dset:wallflower"); } }
cv::Mat simvid_frame(unsigned w,unsigned h,unsigned salt,unsigned i);
SIM_HARNESS("P25",pets){ start(); sim_cache_min_value=1; const std::string R=ROOT+"PETS2001/DATASET3/"; double sc=gen_scale(); bool al=sim::gen_rare(2,1,4)!=0; std::vector<Exp> ex; int dmg=(int)sim::gen_rare(6,1,4); int ns=1+(int)sim::gen(2),dc=(int)sim::gen(ns);
    for(int s=0;s<ns;s++){ Exp e; e.name=num("TESTING/CAMERA%d/",s+1); std::string d=R+e.name; int h=3+(int)sim::gen(5),w=3+(int)sim::gen(6),nf=1+(int)sim::gen(6); unsigned salt=(unsigned)sim::gen(1000); char b[80]; snprintf(b,sizeof b,"SIMVID %d %d %d %u",nf,w,h,salt); sim::vfs::put(d+"seq.avi",b); cv::Mat roi; { sim::Quiet q; roi=cv::Mat(h,w,CV_8UC1,cv::Scalar(255)); } roi=nearest(roi,sc); bool any=false; std::string last; for(int i=0;i<nf;i++){ cv::Mat in=simvid_frame(w,h,salt,i); e.in.push_back({fit(in,roi.size(),al?4:3)}); e.gt.push_back(VM()); if(sim::gen_bool()||(i==nf-1&&!any)){ any=true; cv::Mat gt=pic(h,w,CV_8UC1); last=d+num("GT/image_%04d.bmp",i); put(last,gt); e.gt[i]={fit(gt,roi.size(),1)}; } } e.inroi=e.gtroi={roi};
        if(dmg&&s==dc){ if(dmg==1) sim::vfs::remove(d+"seq.avi"); if(dmg==2) sim::vfs::put(d+"seq.avi","damaged"); if(dmg==3) sim::vfs::put(d+"second.avi",b); if(dmg==4) sim::vfs::mkdirs(d+"GT2"); if(dmg==5) for(auto& n:sim::vfs::list(d+"GT")) sim::vfs::put(d+"GT/"+n,"damaged"); } ex.push_back(e); }
    auto ds=build<DsPt>([&]{ return DsPt::create("out",false,sim::gen_bool(),al,sc); },dmg!=0,"missing, extra or damaged files"); if(ds){ check_all<DsPt>(ds,ex,sim::gen_bool()); sim::probe("dset:pets"); } }
SIM_HARNESS("P25",bsds){ start(); sim_cache_min_value=1; const std::string R=ROOT+"BSDS500/"; double sc=gen_scale(); if(sc>1) sc=0.25; std::vector<Exp> ex; int dmg=(int)sim::gen_rare(6,1,4); static const char* const nm[3]={"train","val","test"}; int ns=1+(int)sim::gen_rare(3,1,2),dc=(int)sim::gen(ns); sim::vfs::mkdirs(R+"BSR");
    for(int s=0;s<ns;s++){ Exp e; e.name=std::string(nm[s])+"/"; std::string d=R+"data/images/"+e.name,g=R+"data/groundTruth_bdry_images/"+e.name; int nf=1+(int)sim::gen(3); std::set<int> ids; while((int)ids.size()<nf) ids.insert(10000+(int)sim::gen(90000)); int k=0,dk=(int)sim::gen(nf); for(int id:ids){ bool tall=sim::gen_bool(); int h=tall?481:321,w=tall?321:481; cv::Mat in=pic(h,w,CV_8UC3,16); put(d+num("%d.jpg",id),in); cv::Size z(int(w*sc),int(h*sc)); e.in.push_back({fit(in,z,3)}); int na=1+(int)sim::gen(3); cv::Mat all; { sim::Quiet q; all=cv::Mat(z.height*na,z.width,CV_8UC1); } for(int a=0;a<na;a++){ cv::Mat gt=pic(h,w,CV_8UC1,16); put(g+num("%d/",id)+num("gt_%d.png",a),gt); sim::Quiet q; fit(gt,z,1).copyTo(all(cv::Rect(0,z.height*a,z.width,z.height))); } e.gt.push_back({all});
            if(dmg&&s==dc&&k==dk){ if(dmg==1) for(auto& n:sim::vfs::list(g+num("%d",id))) sim::vfs::remove(g+num("%d/",id)+n); if(dmg==2) sim::vfs::put(d+num("%d.jpg",id),"damaged"); if(dmg==3) put(d+num("%d.jpg",id),pic(320,480,CV_8UC3,16)); if(dmg==4) put(g+num("%d/gt_0.png",id+100000),pic(h,w,CV_8UC1,16)); if(dmg==5){ sim::vfs::remove(d+num("%d.jpg",id)); put(d+num("%d.jpg",id+200000),in); } } k++; } e.inroi=e.gtroi={cv::Mat()};
        if(sim::gen_rare(2,1,4)) sim::vfs::put(d+"Thumbs.txt","x"); ex.push_back(e); }
    auto ds=build<DsBs>([&]{ return DsBs::create("out",false,false,sc,ns==1?lv::BSDS500Dataset_Training:ns==2?lv::BSDS500Dataset_Training_Validation:lv::BSDS500Dataset_Training_Validation_Test); },dmg!=0,"missing, extra or damaged files"); if(ds){ check_all<DsBs>(ds,ex,sim::gen_bool()); sim::probe("dset:bsds500"); } }
SIM_HARNESS("P25",bilodeau){ start(); sim_cache_min_value=1; const std::string R=ROOT+"litiv/bilodeau2014/"; double sc=gen_scale(); if(sc>1) sc=0.25; bool flip=sim::gen_bool(),masks=sim::gen_bool(); int flag=sim::gen_bool()?-1:1+(int)sim::gen(31); std::vector<Exp> ex; std::vector<std::pair<size_t,size_t>> dr; int dmg=(int)sim::gen_rare(9,1,4); sim::vfs::mkdirs(R+"results"); const cv::Size Z(480,360),z=nearest(cv::Mat(Z,CV_8UC1,cv::Scalar(255)),sc).size(); auto has=[&](int p){ return (flag&(1<<(p-1)))!=0; };
    VS groups; if(has(1)||has(2)||has(3)||has(4)) groups.push_back("vid1"); if(has(1)||has(2)) groups.push_back("vid2/cut1"); if(has(2)||has(3)||has(4)) groups.push_back("vid2/cut2"); groups.push_back("vid3"); bool damaged=false; int made=0; for(auto& g:{std::string("vid1"),std::string("vid2/cut1"),std::string("vid2/cut2"),std::string("vid3")}) sim::vfs::mkdirs(R+g);
    for(size_t gi=0;gi<groups.size();gi++) for(int p=1;p<=5;p++){ bool want=has(p)&&made<2&&(sim::gen_rare(2,1,3)||(gi+1==groups.size()&&p>=4&&!made)); if(!want) continue; made++; Exp e; e.name=groups[gi]+num("/%dPerson/",p); std::string d=R+e.name,fd=d+(sim::gen_bool()?"videoFrames/":"VideoFrame/"),md=d+"Foreground/"; std::string gs=groups[gi]; gs.erase(std::remove(gs.begin(),gs.end(),'/'),gs.end()); std::string txt=d+gs+num("_%dPerson.txt",p);
        int nf=1+(int)sim::gen(3); std::set<int> ids; while((int)ids.size()<nf) ids.insert(1000+(int)sim::gen(9000)); std::map<int,VM> im; std::set<int> common; bool none=dmg==6; int first[4]={-1,-1,-1,-1}; static const char* const pre[4]={"Vis","VisForeground","IR","IRForeground"}; int kk=0; for(int id:ids){ VM v={white(pic(360,480,CV_8UC3,60),200),white(pic(360,480,CV_8UC1,23),150),white(pic(360,480,CV_8UC1,60),200),white(pic(360,480,CV_8UC1,25),150)}; { sim::Quiet q; v[0](cv::Rect(60,60,180,180)).setTo(cv::Scalar(9,8,7)); v[2](cv::Rect(60,60,180,180)).setTo(cv::Scalar(11)); } int skip=none?kk%4:kk==0?-1:(int)sim::gen_rare(5,1,3)-1; if(none&&nf==1) skip=0; for(int j=0;j<4;j++){ if(j==skip) continue; put((j&1?md:fd)+pre[j]+num("%d.jpg",id),v[j]); if(first[j]<0) first[j]=id; } im[id]=v; if(skip<0) common.insert(id); kk++; }
        cv::Mat rr,tr; { sim::Quiet q; if(sim::gen_bool()){ tr=pic(360,480,CV_8UC1,20)>40; put(d+"IRROI.png",tr); } else if(first[2]>=0){ tr=im[first[2]][2]!=255; cv::erode(tr,tr,cv::Mat(),cv::Point(-1,-1),3,cv::BORDER_CONSTANT,cv::Scalar(0)); } if(sim::gen_bool()){ rr=pic(360,480,CV_8UC1,20)>40; put(d+"VisROI.png",rr); } else if(first[0]>=0){ VM c; cv::split(im[first[0]][0],c); cv::min(c[0],c[1],c[0]); cv::min(c[0],c[2],c[0]); rr=c[0]!=255; cv::erode(rr,rr,cv::Mat(),cv::Point(-1,-1),7,cv::BORDER_CONSTANT,cv::Scalar(0)); cv::morphologyEx(rr,rr,cv::MORPH_OPEN,cv::Mat(),cv::Point(-1,-1),5,cv::BORDER_CONSTANT,cv::Scalar(0)); } if(!rr.empty()&&sc!=1) cv::resize(rr,rr,z,0,0,cv::INTER_NEAREST); if(!tr.empty()&&sc!=1) cv::resize(tr,tr,z,0,0,cv::INTER_NEAREST); if(flip){ if(!rr.empty()) cv::flip(rr,rr,1); if(!tr.empty()) cv::flip(tr,tr,1); } }
        std::map<int,cv::Mat> disp; VS lines; int nr=1+(int)sim::gen(6); int mx=0; for(int r=0;r<nr;r++){ int id; if(sim::gen_rare(2,1,6)) id=9999; else { auto it=ids.begin(); std::advance(it,sim::gen(nf)); id=*it; } int x=(int)sim::gen(480),y=(int)sim::gen(360),dv=1+(int)sim::gen(60); if(sim::gen_bool()){ x=x/4*4; y=y/4*4; } mx=std::max(mx,dv); sim::Quiet q; if(disp[id].empty()) disp[id]=cv::Mat(Z,CV_8UC1,cv::Scalar(255)); disp[id].at<uchar>(y,x)=(uchar)dv; lines.push_back(num("IRForeground%d.jpg",id)); lines.push_back(num("VisForeground%d.jpg",id)); lines.push_back(std::to_string(x)); lines.push_back(std::to_string(y)); lines.push_back(std::to_string(dv)); }
        if(sim::gen_bool()) mx=std::max(mx,1); bool fin=sim::gen_bool(); bool here=dmg&&dmg!=6&&!damaged&&sim::gen_bool(); if(made==2&&dmg&&dmg!=6&&!damaged) here=true; if(here||none) damaged=true; if(here&&dmg==4){ if(sim::gen_bool()){ lines[lines.size()-3]=std::to_string(sim::gen(99)); lines[lines.size()-2]=std::to_string(sim::gen(99)); } int cut=1+(int)sim::gen(4); lines.resize(lines.size()-cut); fin=false; } if(here&&dmg==5) lines[lines.size()-3]=sim::gen_bool()?"-1":"480"; if(here&&dmg==7) lines[lines.size()-1]="100"; if(here&&dmg==8) lines[lines.size()-2]="360"; std::string t; for(size_t k=0;k<lines.size();k++) t+=lines[k]+(k+1<lines.size()||fin?"\n":""); sim::vfs::put(txt,t); if(here&&dmg==1) for(auto& n:sim::vfs::list(md.substr(0,md.size()-1))) sim::vfs::remove(md+n); if(here&&dmg==2) sim::vfs::remove(txt); if(here&&dmg==3) put(fd+pre[2*sim::gen(2)]+num("%d.jpg",*ids.begin()),pic(240,480,CV_8UC3,16));
        size_t lo=0,hi=(size_t)mx; if(sim::gen_rare(2,1,3)){ lo=sim::gen(5)*4; hi=lo+8+sim::gen(60); char b[40]; snprintf(b,sizeof b,"%zu %zu\n",lo,hi); sim::vfs::put(d+"drange.txt",b); } else if((size_t)(mx*sc)==0&&!here&&!none){ sim::vfs::put(d+"drange.txt","0 40"); lo=0; hi=40; } dr.push_back({(size_t)(lo*sc),(size_t)(hi*sc)});
        for(int id:common){ sim::Quiet q; VM v=im[id]; for(int j:{1,3}){ v[j]=v[j]!=255; cv::morphologyEx(v[j],v[j],cv::MORPH_OPEN,cv::Mat(),cv::Point(-1,-1),2); } if(sc!=1){ cv::resize(v[0],v[0],z,0,0,cv::INTER_CUBIC); cv::resize(v[2],v[2],z); for(int j:{1,3}) cv::resize(v[j],v[j],z,0,0,cv::INTER_NEAREST); } if(flip) for(auto& m:v) cv::flip(m,m,1); e.in.push_back(masks?v:VM{v[0],v[2]}); if(disp.count(id)){ cv::Mat t=disp[id].clone(); if(sc!=1){ cv::resize(t,t,z,0,0,cv::INTER_NEAREST); cv::Mat dc=t==255; t*=sc; t.setTo(255,dc); } if(flip) cv::flip(t,t,1); e.gt.push_back({cv::Mat(z,CV_8UC1,cv::Scalar(255)),t}); } else e.gt.push_back(VM()); }
        e.inroi=masks?VM{rr,rr,tr,tr}:VM{rr,tr}; e.gtroi={rr,tr}; e.gts=2; ex.push_back(e); }
    if(!made) return; auto ds=build<DsBi>([&]{ return DsBi::create("out",false,sim::gen_bool(),true,flip,true,flag,masks?1:0,sc); },damaged,"missing, truncated, inconsistent or damaged files"); if(ds){ check_all<DsBi>(ds,ex,sim::gen_bool()); for(auto& p:ds->getBatches(false)){ auto* b=dynamic_cast<DsBi::WorkBatch*>(p.get()); for(size_t k=0;k<ex.size();k++) if(ex[k].name==b->getRelativePath()) SIM_CHECK(b->getMinDisparity()==dr[k].first&&b->getMaxDisparity()==dr[k].second,"disparity-range","the disparity range of '%s' is [%zu,%zu], expected [%zu,%zu]",ex[k].name.c_str(),b->getMinDisparity(),b->getMaxDisparity(),dr[k].first,dr[k].second); } sim::probe("dset:bilodeau"); } }
cv::Mat moved(const cv::Mat& m,int dx,int dy){ cv::Mat o(m.size(),m.type(),cv::Scalar::all(0)); int w=m.cols-std::abs(dx),h=m.rows-std::abs(dy); if(w>0&&h>0) m(cv::Rect(dx<0?-dx:0,dy<0?-dy:0,w,h)).copyTo(o(cv::Rect(dx>0?dx:0,dy>0?dy:0,w,h))); return o; }
SIM_HARNESS("P25",vap){ start(); sim_cache_min_value=1; const std::string R=ROOT+"vap/rgbdt-stereo/"; double sc=gen_scale(); if(sc>1) sc=0.25; bool rect=sim::gen_rare(2,1,4)!=0,und=rect||sim::gen_bool(),depth=!rect&&sim::gen_bool(),sub=sim::gen_rare(2,1,3)!=0,evsub=sim::gen_rare(2,1,3)!=0; int win=(int)sim::gen_rare(3,1,2); int masks=0; if(sim::gen_bool()){ static const int mk[6]={1,-1,2,4,8,1}; masks=mk[sim::gen(6)]; } bool gtm=masks&&(masks&14); if(gtm){ win=0; evsub=sub; } const cv::Size Z(640,480),z=nearest(cv::Mat(Z,CV_8UC1,cv::Scalar(255)),sc).size(); int dmg=(int)sim::gen_rare(10,1,4); bool damaged=false; std::vector<Exp> ex; std::vector<std::pair<size_t,size_t>> dr; std::vector<std::vector<bool>> br; sim::vfs::mkdirs(R+"results");
    VS scenes={"Scene 1","Scene 2","Scene 3"}; if(und||sub) scenes={"Scene 1","Scene 3"}; size_t dsc=sim::gen((uint32_t)scenes.size());
    for(size_t si=0;si<scenes.size();si++){ bool here=dmg&&si==dsc; Exp e; e.name=scenes[si]+"/"; std::string d=R+e.name; int nf=1+(int)sim::gen(3); int base=(int)sim::gen_rare(3,1,3)*40; static const char* const dn[9]={"SyncRGB","SyncT","SyncD","rgbMasks","thermalMasks","depthMasks","rgbApproxMasks","thermalApproxMasks","depthApproxMasks"}; std::vector<VM> im(9); std::vector<bool> hasgt(nf,true); bool all=gtm||sub||evsub||sim::gen_bool(); if(!all) for(int i=0;i<nf;i++) hasgt[i]=sim::gen_bool(); bool any=false; for(bool b:hasgt) any|=b; if(!any) hasgt[0]=true;
        for(int k=0;k<9;k++){ bool need=k<6||(masks&&!(masks&(2<<(k-6))))||sim::gen_rare(2,1,4); for(int i=0;i<nf;i++){ cv::Mat m; if(need){ m=pic(480,640,k==0?CV_8UC3:k==2?CV_16UC1:CV_8UC1,k<3?37:21); if(k>2&&k!=3) { sim::Quiet q; m=m>128; } if(k<3||k>5||hasgt[i]) put(d+dn[k]+num("/%05d.png",base+i),m); } im[k].push_back(m); } }
        std::set<int> real,full; if(sub||evsub){ std::string t=sim::gen_bool()?"# frames\n":""; int nr=1+(int)sim::gen_rare(2,1,2); for(int r=0;r<nr;r++){ int i=(int)sim::gen(nf); real.insert(i); for(int o=i-win;o<=i+win;o++) if(o>=0&&o<2500) full.insert(o); t+=std::to_string(i)+(r+1<nr||sim::gen_bool()?"\n":""); } while(sub&&*full.rbegin()>=nf){ int i=nf++; for(int k=0;k<9;k++){ cv::Mat m; if(!im[k][0].empty()){ m=pic(480,640,k==0?CV_8UC3:k==2?CV_16UC1:CV_8UC1,k<3?37:21); if(k>2&&k!=3){ sim::Quiet q; m=m>128; } put(d+dn[k]+num("/%05d.png",base+i),m); } im[k].push_back(m); } hasgt.push_back(true); } if(here&&dmg==5){ damaged=true; if(sim::gen_bool()) t+="\n"+std::to_string(nf); else t=""; } if(here&&dmg==6) damaged=true; else sim::vfs::put(d+"subset.txt",t); }
        size_t lo=0,hi=100; int off=0; if(sim::gen_bool()){ lo=sim::gen(3)*7; hi=lo+20+sim::gen(60); sim::vfs::put(d+"drange.txt",std::to_string(lo)+" "+std::to_string(hi)+(sim::gen_bool()?"\n":"")); } if(lo){ off=(int)lo; hi-=lo; lo=0; } off=(int)(sc*off); dr.push_back({(size_t)(sc*lo),(size_t)(sc*hi)});
        cv::Mat m1[2],m2[2]; if(und){ sim::Quiet q; cv::Mat K[2],D[2],Ro,T; for(int c=0;c<2;c++){ K[c]=(cv::Mat_<double>(3,3)<<500+sim::gen(100),0,310+sim::gen(20),0,500+sim::gen(100),230+sim::gen(20),0,0,1); D[c]=(cv::Mat_<double>(1,5)<<0.01*sim::gen(20)-0.1,0.01*sim::gen(10),0.001*sim::gen(4),0.001*sim::gen(4),0); } cv::Mat rv=(cv::Mat_<double>(3,1)<<0.01*sim::gen(5),0.01*sim::gen(5),0.01*sim::gen(5)); cv::Rodrigues(rv,Ro); T=(cv::Mat_<double>(3,1)<<1.0*sim::gen(5),-100.0,1.0*sim::gen(5)); cv::FileStorage fs("c.yml",cv::FileStorage::WRITE|cv::FileStorage::MEMORY); fs<<"aCamMats0"<<K[0]<<"aCamMats1"<<K[1]<<"aDistCoeffs0"<<D[0]<<"aDistCoeffs1"<<D[1]<<"oRotMat"<<Ro<<"oTranslMat"<<T; std::string y=fs.releaseAndGetString(); if(here&&dmg==4) damaged=true; else sim::vfs::put(d+"calib/calibdata.yml",y);
            cv::FileStorage in(y,cv::FileStorage::READ|cv::FileStorage::MEMORY); for(int c=0;c<2;c++){ in[num("aCamMats%d",c)]>>K[c]; in[num("aDistCoeffs%d",c)]>>D[c]; } in["oRotMat"]>>Ro; in["oTranslMat"]>>T; if(rect){ cv::Mat r[2],p[2],Q; cv::stereoRectify(K[0],D[0],K[1],D[1],Z,Ro,T,r[0],r[1],p[0],p[1],Q,0,-1,cv::Size()); for(int c=0;c<2;c++) cv::initUndistortRectifyMap(K[c],D[c],r[c],p[c],Z,CV_16SC2,m1[c],m2[c]); } else for(int c=0;c<2;c++) cv::initUndistortRectifyMap(K[c],D[c],cv::Mat(),K[c],Z,CV_16SC2,m1[c],m2[c]); }
        auto turn=[&](cv::Mat m){ if(rect){ cv::Mat t; cv::transpose(m,t); cv::flip(t,t,1); return t; } return m; };
        auto prep=[&](const cv::Mat& src,int c,bool mask,bool remap){ sim::Quiet q; cv::Mat m=src.clone(); int fl=mask?cv::INTER_LINEAR:cv::INTER_CUBIC; if(und&&c<2&&remap){ cv::Mat t; cv::remap(m,t,m1[c],m2[c],fl); m=t; } if(m.size()!=z) cv::resize(m,m,z,0,0,fl); if(und&&c==1&&off) m=moved(m,0,-off); if(mask) m=m>128; return turn(m); };
        VM roi(3); static const char* const rn[3]={"rgb","thermal","depth"}; for(int c=0;c<3;c++){ sim::Quiet q; cv::Mat r(Z,CV_8UC1,cv::Scalar(255)); if(sim::gen_bool()){ cv::Mat f=pic(480,640,CV_8UC1,19); if(here&&dmg==7&&!damaged&&c<2){ f=pic(240,320,CV_8UC1,19); damaged=true; } put(d+rn[c]+"_roi.png",f); if(f.size()==Z) r=f>128; } if(und&&c<2){ cv::Mat t; cv::remap(r,t,m1[c],m2[c],cv::INTER_LINEAR); r=t; } if(r.size()!=z){ cv::resize(r,r,z,0,0,cv::INTER_LINEAR); r=r>128; } if(und&&c<2){ if(c==1&&off) r=moved(r,0,-off); r=r>128; cv::erode(r,r,cv::Mat(),cv::Point(-1,-1),1,cv::BORDER_CONSTANT,cv::Scalar(0)); if(sim::gen_bool()){ cv::Mat f=pic(480,640,CV_8UC1,27),u=f>128; put(d+rn[c]+"_undist_roi.png",f); if(u.size()!=z){ cv::resize(u,u,z,0,0,cv::INTER_LINEAR); u=u>128; } r&=u; } } roi[c]=turn(r); }
        int C=depth?3:2; std::vector<bool> brk; int prev=-2; for(int i=0;i<nf;i++){ if(sub&&!full.count(i)) continue; VM in,gt; for(int c=0;c<C;c++){ in.push_back(prep(im[c][i],c,false,true)); if(masks) in.push_back(prep((masks&(2<<c))?im[3+c][i]:im[6+c][i],c,true,true)); } if(hasgt[i]&&(!(sub||evsub)||real.count(i))) for(int c=0;c<C;c++){ cv::Mat g=im[3+c][i]; if(c==1&&scenes[si]=="Scene 3"){ sim::Quiet q; g=moved(g,13,4); } gt.push_back(prep(g,c,true,c!=1||scenes[si]!="Scene 2")); } e.in.push_back(in); e.gt.push_back(gt); brk.push_back(i!=prev+1||(sub&&!win)||e.in.size()==1); prev=i; }
        if(here){ if(dmg==1){ damaged=true; static const int used[6]={0,1,3,4,2,5}; int k=used[sim::gen(depth?6:4)]; for(auto& n:sim::vfs::list(d+dn[k])) sim::vfs::remove(d+dn[k]+"/"+n); } if(dmg==2&&!sub){ damaged=true; put(d+(depth&&sim::gen_bool()?dn[2]:dn[1])+num("/%05d.png",base+nf),im[0][0]); } if(dmg==3){ damaged=true; put(d+dn[sim::gen(2)]+num("/%05d.png",base),pic(240,320,CV_8UC3,9)); } if(dmg==8&&!sub&&!evsub){ damaged=true; put(d+dn[3+sim::gen(2)]+num("/%05d.png",base+nf),im[3][0].empty()?im[4][0]:im[3][0]); } if(dmg==9){ damaged=true; put(d+dn[3+sim::gen(2)]+num("/%05d.png",hasgt[0]?base:0),pic(240,320,CV_8UC3,9)); } }
        VM ir; for(int c=0;c<C;c++){ ir.push_back(roi[c]); if(masks) ir.push_back(roi[c]); } e.inroi=ir; e.gtroi=VM(roi.begin(),roi.begin()+C); e.gts=(size_t)C; ex.push_back(e); br.push_back(brk); }
    sim::logf("dmg %d sub %d evsub %d win %d masks %d scenes %zu dsc %zu",dmg,(int)sub,(int)evsub,win,masks,scenes.size(),dsc); auto ds=build<DsVp>([&]{ return DsVp::create("out",false,sim::gen_bool(),depth,und,rect,false,sub,evsub,win,masks,sc); },damaged,"missing, inconsistent or damaged files"); if(ds){ check_all<DsVp>(ds,ex,sim::gen_bool()); for(auto& p:ds->getBatches(false)){ auto* b=dynamic_cast<DsVp::WorkBatch*>(p.get()); for(size_t k=0;k<ex.size();k++) if(ex[k].name==b->getRelativePath()){ SIM_CHECK(b->getMinDisparity()==dr[k].first&&b->getMaxDisparity()==dr[k].second,"disparity-range","the disparity range of '%s' is [%zu,%zu], expected [%zu,%zu]",ex[k].name.c_str(),b->getMinDisparity(),b->getMaxDisparity(),dr[k].first,dr[k].second); if(sub||!evsub) for(size_t i=0;i<br[k].size();i++) SIM_CHECK(b->isTemporalWindowBreak(i)==br[k][i],"window-break","packet %zu of '%s' is %sa break between two temporal windows",i,ex[k].name.c_str(),br[k][i]?"not reported as ":"wrongly reported as "); } } sim::probe("dset:vap"); if(und) sim::probe("dset:vap-undistorted"); if(und&&sc!=1) sim::probe("dset:vap-undistorted-scaled"); if(rect) sim::probe("dset:vap-rectified"); if(sub) sim::probe("dset:vap-subset"); if(depth) sim::probe("dset:vap-depth"); } }
