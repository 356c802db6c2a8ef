// P27: segmentation and disparity evaluation: counters, scores, coloured masks and reports for every history of outputs, batch order and fault.
#include "sim.hpp"
#include "h_pipe.hpp"
#define DATASETS_LITIV2018_DATA_VERSION 2
#include "litiv/datasets.hpp"
#include <thread>
#include <map>
#include <set>
#include <cmath>
namespace lv {
static const DatasetList Dataset_SimEv=DatasetList(Dataset_Custom+1);
template<> constexpr DatasetSourceList getDatasetSource<DatasetTask_Cosegm,Dataset_SimEv>(){ return DatasetSource_ImageArray; }
template<DatasetTaskList eDatasetTask> struct DataProducer_<eDatasetTask,DatasetSource_ImageArray,Dataset_SimEv> : public IDataProducerWrapper_<eDatasetTask,DatasetSource_ImageArray,Dataset_SimEv> {
    virtual size_t getInputStreamCount() const override final { return 2; }
    virtual size_t getGTStreamCount() const override final { return 2; }
    virtual const std::vector<cv::Mat>& getGTROIArray(size_t i) const override final { m_vROI.resize(2); for(int s=0;s<2;s++){ std::string p=this->getDataPath()+"roi"+std::to_string(i)+"_"+std::to_string(s)+".bmp"; m_vROI[s]=lv::checkIfExists(p)?cv::imread(p,cv::IMREAD_GRAYSCALE):cv::Mat(); } return m_vROI; }
protected:
    mutable std::vector<cv::Mat> m_vROI;
    virtual void parseData() override final {
        this->m_vvsInputPaths.clear(); this->m_vvsGTPaths.clear(); this->m_vvInputInfos.clear(); this->m_vvGTInfos.clear(); this->m_mGTIndexLUT.clear(); this->m_bIsInputInfoConst=this->m_bIsGTInfoConst=false;
        for(size_t i=0;;i++){ auto nm=[&](const char* k,int s){ return this->getDataPath()+k+std::to_string(i)+"_"+std::to_string(s)+".bmp"; }; if(!lv::checkIfExists(nm("gt",0))) break;
            std::vector<std::string> gp{nm("gt",0),nm("gt",1)}; std::vector<lv::MatInfo> gi; for(auto& p:gp){ cv::Mat m=cv::imread(p,cv::IMREAD_UNCHANGED); lvAssert(!m.empty()); gi.push_back(lv::MatInfo{m.size(),m.type()}); }
            this->m_vvsInputPaths.push_back(gp); this->m_vvsGTPaths.push_back(gp); this->m_vvInputInfos.push_back(gi); this->m_vvGTInfos.push_back(gi); this->m_mGTIndexLUT[i]=i; }
        lvAssert(!this->m_vvsInputPaths.empty()); }
};
}
extern "C" size_t sim_cache_min_value;
namespace {
typedef lv::Dataset_<lv::DatasetTask_Segm,lv::Dataset_CDnet,lv::NonParallel> DsCd;
typedef lv::Dataset_<lv::DatasetTask_Cosegm,lv::Dataset_SimEv,lv::NonParallel> DsCos;
typedef lv::Dataset_<lv::DatasetTask_StereoReg,lv::Dataset_SimEv,lv::NonParallel> DsSte;
typedef std::vector<cv::Mat> VM; typedef std::vector<std::string> VS;
std::string num(const char* f,int a){ char b[64]; snprintf(b,sizeof b,f,a); return b; }
void start(){ sim::enable(sim::K_CLOCKJUMP,0.03); }
bool near(double a,double b,double e=1e-9){ return std::fabs(a-b)<=e*(1+std::fabs(b)); }
// ---- reference: counters of one stream, of either kind
struct Ref { uint64_t tp=0,tn=0,fp=0,fn=0,se=0,dc=0; std::vector<double> err; void add(const Ref& r){ tp+=r.tp; tn+=r.tn; fp+=r.fp; fn+=r.fn; se+=r.se; dc+=r.dc; err.insert(err.end(),r.err.begin(),r.err.end()); } };
double px(const cv::Mat& m,int y,int x){ switch(m.depth()){ case CV_8U: return m.at<uchar>(y,x); case CV_8S: return m.at<schar>(y,x); case CV_16U: return m.at<ushort>(y,x); case CV_16S: return m.at<short>(y,x); case CV_32S: return m.at<int>(y,x); default: return m.at<float>(y,x); } }
double maxval(int depth){ switch(depth){ case CV_8U: return 255; case CV_8S: return 127; case CV_16U: return 65535; case CV_16S: return 32767; case CV_32S: return 2147483647.0; default: return (double)std::numeric_limits<float>::max(); } }
Ref classif(const cv::Mat& o,const cv::Mat& g,const cv::Mat& roi){ sim::Quiet q; Ref r; for(int y=0;y<o.rows;y++) for(int x=0;x<o.cols;x++){ if(g.empty()){ r.dc++; continue; } int v=g.at<uchar>(y,x),p=o.at<uchar>(y,x)==255; if(v==85||v==170||(!roi.empty()&&!roi.at<uchar>(y,x))){ r.dc++; continue; } if(v==255) (p?r.tp:r.fn)++; else (p?r.fp:r.tn)++; if(v==50&&p) r.se++; } return r; }
Ref disp(const cv::Mat& o,const cv::Mat& g,const cv::Mat& roi){ sim::Quiet q; Ref r; for(int y=0;y<o.rows;y++) for(int x=0;x<o.cols;x++){ if(g.empty()||px(g,y,x)==maxval(g.depth())||px(g,y,x)<0||(!roi.empty()&&!roi.at<uchar>(y,x))){ r.dc++; continue; } r.err.push_back(std::fabs((double)(float)((float)px(o,y,x)-(float)px(g,y,x)))); } return r; }
// scores as a vector, in report order
std::vector<double> scores(const Ref& r,bool st){ std::vector<double> v; auto div=[](double a,double b){ return b>0?a/b:0.0; }; if(st){ for(double m:{0.5,1.0,2.0,4.0}){ size_t n=0; for(double e:r.err) n+=e>m; v.push_back(div(100.0*n,r.err.size())); } double s=0,s2=0; for(double e:r.err){ s+=e; s2+=e*e; } v.push_back(div(s,r.err.size())); v.push_back(std::sqrt(div(s2,r.err.size()))); return v; }
    double tp=r.tp,tn=r.tn,fp=r.fp,fn=r.fn,rc=div(tp,tp+fn),pr=div(tp,tp+fp); v={rc,div(tn,tn+fp),div(fp,fp+tn),div(fn,tp+fn),div(100*(fn+fp),tp+tn+fp+fn),pr,div(2*rc*pr,rc+pr),(tp+fp>0&&tp+fn>0&&tn+fp>0&&tn+fn>0)?(tp*tn-fp*fn)/(std::sqrt(tp+fp)*std::sqrt(tp+fn)*std::sqrt(tn+fp)*std::sqrt(tn+fn)):0}; return v; }
std::vector<double> list(const lv::BinClassifMetrics& m){ return {m.dRecall,m.dSpecificity,m.dFPR,m.dFNR,m.dPBC,m.dPrecision,m.dFMeasure,m.dMCC}; }
std::vector<double> list(const lv::StereoDispErrorMetrics& m){ return {m.dBadPercent_05,m.dBadPercent_1,m.dBadPercent_2,m.dBadPercent_4,m.dAverageError,m.dRMS}; }
const char* const SN[2][8]={{"recall","specificity","FPR","FNR","PBC","precision","F-measure","MCC"},{"% bad at 0.5","% bad at 1","% bad at 2","% bad at 4","average error","RMS error","",""}};
void same_scores(const std::vector<double>& a,const std::vector<double>& b,bool st,double e,const char* what){ SIM_CHECK(a.size()==b.size(),"score-count","%s: %zu scores",what,a.size()); for(size_t i=0;i<a.size();i++) SIM_CHECK(near(a[i],b[i],e),"score-wrong","%s: %s is %.9g, expected %.9g",what,SN[st][i],a[i],b[i]); }
bool equal(const lv::BinClassif& c,const Ref& r){ return c.nTP==r.tp&&c.nTN==r.tn&&c.nFP==r.fp&&c.nFN==r.fn&&c.nSE==r.se&&c.nDC==r.dc; }
void same_counts(const lv::BinClassif& c,const Ref& r,const char* what){ SIM_CHECK(equal(c,r),"count-wrong","%s: TP/TN/FP/FN/SE/DC are %llu/%llu/%llu/%llu/%llu/%llu, expected %llu/%llu/%llu/%llu/%llu/%llu",what,(unsigned long long)c.nTP,(unsigned long long)c.nTN,(unsigned long long)c.nFP,(unsigned long long)c.nFN,(unsigned long long)c.nSE,(unsigned long long)c.nDC,(unsigned long long)r.tp,(unsigned long long)r.tn,(unsigned long long)r.fp,(unsigned long long)r.fn,(unsigned long long)r.se,(unsigned long long)r.dc); SIM_CHECK(c.total()==r.tp+r.tn+r.fp+r.fn&&c.total(true)==c.total()+r.dc,"total-wrong","%s: wrong total",what); }
void same_counts(const lv::StereoDispErrors& c,const Ref& r,const char* what){ std::vector<double> a(c.vErrors.begin(),c.vErrors.end()),b=r.err; std::sort(a.begin(),a.end()); std::sort(b.begin(),b.end()); SIM_CHECK(c.nDC==r.dc&&a.size()==b.size(),"count-wrong","%s: %zu errors and %llu ignored pixels, expected %zu and %llu",what,a.size(),(unsigned long long)c.nDC,b.size(),(unsigned long long)r.dc); for(size_t i=0;i<a.size();i++) SIM_CHECK(near(a[i],b[i],1e-6),"error-wrong","%s: a disparity error is %.9g, expected %.9g",what,a[i],b[i]); SIM_CHECK(c.total()==r.err.size()&&c.total(true)==r.err.size()+r.dc,"total-wrong","%s: wrong total",what); }
// ---- inputs
cv::Mat mat8(int h,int w,const std::vector<int>& v){ sim::Quiet q; cv::Mat m(h,w,CV_8UC1); for(int y=0;y<h;y++) for(int x=0;x<w;x++) m.at<uchar>(y,x)=(uchar)v[sim::gen((uint32_t)v.size())]; return m; }
cv::Mat gt8(int h,int w){ return sim::gen_rare(2,1,3)?mat8(h,w,{0,255}):mat8(h,w,{0,50,85,170,255,255,0,3}); }
cv::Mat out8(int h,int w){ return sim::gen_rare(2,1,4)?mat8(h,w,{0,255,1,254,128}):mat8(h,w,{0,255}); }
cv::Mat roi8(int h,int w){ return sim::gen_bool()?cv::Mat():sim::gen_bool()?mat8(h,w,{0,255,255,1}):mat8(h,w,{255}); }
cv::Mat dmap(int h,int w,bool gt){ sim::Quiet q; static const int T[6]={CV_8U,CV_8S,CV_16U,CV_16S,CV_32S,CV_32F}; int t=T[sim::gen(6)]; cv::Mat m(h,w,t); for(int y=0;y<h;y++) for(int x=0;x<w;x++){ double v=sim::gen(30); if(t==CV_32F&&sim::gen_bool()) v+=0.5; if(gt&&sim::gen_rare(2,1,4)) v=maxval(t); else if(t!=CV_8U&&t!=CV_16U&&sim::gen_rare(2,1,6)) v=-v-1; switch(t){ case CV_8U: m.at<uchar>(y,x)=(uchar)v; break; case CV_8S: m.at<schar>(y,x)=(schar)v; break; case CV_16U: m.at<ushort>(y,x)=(ushort)v; break; case CV_16S: m.at<short>(y,x)=(short)v; break; case CV_32S: m.at<int>(y,x)=(int)v; break; default: m.at<float>(y,x)=(float)v; } } return m; }
// a view into a larger matrix: same content, not continuous
cv::Mat view(const cv::Mat& m){ sim::Quiet q; if(m.empty()) return m; cv::Mat b(m.rows+2,m.cols+3,m.type(),cv::Scalar::all(85)); cv::Mat r=b(cv::Rect(1,1,m.cols,m.rows)); m.copyTo(r); return r; }
uint64_t hash(const cv::Mat& m){ sim::Quiet q; uint64_t h=1469598103934665603ull; for(int y=0;y<m.rows;y++) for(size_t i=0;i<m.cols*m.elemSize();i++) h=(h^m.ptr(y)[i])*1099511628211ull; return h; }
void wrong(cv::Mat& o,cv::Mat& g,cv::Mat& roi){ cv::Mat* z[3]={&o,&g,&roi}; cv::Mat& m=*z[sim::gen(3)]; m=cv::Mat(o.rows,o.cols,sim::gen_bool()?CV_8UC3:CV_64FC1,cv::Scalar::all(255)); }
// ---- one thread's worth of direct accumulation
void tally(bool st){ int n=1+(int)sim::gen(3); lv::BinClassif c; lv::StereoDispErrors s; Ref r; for(int k=0;k<n;k++){ int h=1+(int)sim::gen(6),w=1+(int)sim::gen(6); cv::Mat o=st?dmap(h,w,false):out8(h,w),g=sim::gen_rare(2,1,8)?cv::Mat():st?dmap(h,w,true):gt8(h,w),roi=roi8(h,w); Ref d=st?disp(o,g,roi):classif(o,g,roi); int bad=(int)sim::gen_rare(6,1,4); bool must=false;
        { sim::Quiet q; if(bad==1){ o=view(o); } if(bad==2) g=view(g); if(bad==3) roi=view(roi); if(bad==4){ cv::Mat& z=sim::gen_bool()&&!g.empty()?g:o; must=!g.empty()||!roi.empty(); z=cv::Mat(h+1,w,z.type(),cv::Scalar(0)); } if(bad==5){ must=true; wrong(o,g,roi); } }
        uint64_t ho=hash(o),hg=hash(g),hr=hash(roi); bool ok=true; std::string err; try{ if(st) s.accumulate(o,g,roi); else c.accumulate(o,g,roi); }catch(const std::exception& e){ ok=false; err=e.what(); } SIM_CHECK(ok||bad,"refused","a valid output was refused: %s",err.c_str()); SIM_CHECK(!(ok&&bad>=4&&must),"mismatch-accepted","an output of another size than its ground truth or region of interest, or a matrix of unsupported type, was accepted"); if(bad==4&&ok) { d=Ref(); d.dc=o.total(); } if(ok) r.add(d); if(bad) sim::probe(ok?"eval:odd-accepted":"eval:odd-refused");
        SIM_CHECK(hash(o)==ho&&hash(g)==hg&&hash(roi)==hr,"input-modified","the evaluated output, its ground truth or its region of interest was modified");
        if(st) same_counts(s,r,"disparity errors"); else same_counts(c,r,"classification"); }
    same_scores(st?list(lv::StereoDispErrorMetrics(s)):list(lv::BinClassifMetrics(c)),scores(r,st),st,1e-5,st?"disparity scores":"classification scores"); }
}
SIM_HARNESS_W("P27",tallies,3){ start(); int nt=1+(int)sim::gen_rare(3,1,2); bool st=sim::gen_bool(); if(nt==1){ tally(st); return; } std::vector<std::thread> th; for(int t=0;t<nt;t++) th.emplace_back([st]{ tally(st); }); for(auto& t:th) t.join(); sim::probe("eval:concurrent"); }
SIM_HARNESS("P27",masks){ start(); int h=1+(int)sim::gen(8),w=1+(int)sim::gen(8); bool st=sim::gen_bool(); cv::Mat o=st?dmap(h,w,false):out8(h,w),g=sim::gen_rare(2,1,8)?cv::Mat():st?dmap(h,w,true):gt8(h,w),roi=roi8(h,w); float mx=1+(float)sim::gen(25); int bad=(int)sim::gen_rare(7,1,4); if(bad){ { sim::Quiet q; if(bad==1) wrong(o,g,roi); if(bad==2) o=cv::Mat(); if(bad==3){ o=cv::Mat(h+1,w,o.type(),cv::Scalar(0)); if(g.empty()&&roi.empty()) return; } if(bad==4) mx=st?-(float)sim::gen(2):mx; if(bad==5){ o=view(o); g=view(g); roi=view(roi); } if(bad==6){ cv::Mat& z=sim::gen_bool()?g:roi; z=cv::Mat(h,w+1,CV_8UC1,cv::Scalar(1)); } } if(bad<5&&!(bad==4&&!st)||bad==6){ bool ok=true; try{ if(st) lv::StereoDispErrors::getColoredMask(o,g,mx,roi); else lv::BinClassif::getColoredMask(o,g,roi); }catch(const std::exception&){ ok=false; } SIM_CHECK(!ok,"mismatch-accepted","an unsupported or mismatching matrix was coloured"); sim::probe("eval:mask-refused"); return; } if(bad==5){ try{ if(st) lv::StereoDispErrors::getColoredMask(o,g,mx,roi); else lv::BinClassif::getColoredMask(o,g,roi); }catch(const std::exception&){ sim::probe("eval:mask-view-refused"); return; } } } uint64_t ho=hash(o),hg=hash(g),hr=hash(roi); cv::Mat m=st?lv::StereoDispErrors::getColoredMask(o,g,mx,roi):lv::BinClassif::getColoredMask(o,g,roi); sim::Quiet q; SIM_CHECK(hash(o)==ho&&hash(g)==hg&&hash(roi)==hr,"input-modified","colouring an output modified it"); SIM_CHECK(m.size()==o.size()&&m.type()==CV_8UC3,"mask-shape","wrong mask");
    cv::Mat e(h,w,CV_32FC1,cv::Scalar(0)),lut(1,256,CV_8UC1),hot; if(st&&!g.empty()){ for(int i=0;i<256;i++) lut.at<uchar>(0,i)=(uchar)i; cv::applyColorMap(lut,hot,cv::COLORMAP_HOT); for(int y=0;y<h;y++) for(int x=0;x<w;x++){ cv::Mat R=roi.empty()?roi:roi(cv::Rect(x,y,1,1)); Ref r=disp(o(cv::Rect(x,y,1,1)),g(cv::Rect(x,y,1,1)),R); if(!r.err.empty()) e.at<float>(y,x)=(float)(255*std::min(1.0,r.err[0]/mx)); } }
    for(int y=0;y<h;y++) for(int x=0;x<w;x++){ cv::Vec3b p=m.at<cv::Vec3b>(y,x),x1; bool out=!roi.empty()&&!roi.at<uchar>(y,x); if(st){ if(g.empty()||out){ SIM_CHECK(p==cv::Vec3b(92,92,92),"mask-colour","disparity mask: ignored pixel %d,%d is coloured %d/%d/%d",x,y,p[0],p[1],p[2]); continue; } float v=0; for(int b=std::max(0,y-2);b<=std::min(h-1,y+2);b++) for(int a=std::max(0,x-2);a<=std::min(w-1,x+2);a++) v=std::max(v,e.at<float>(b,a)); bool ok=false; for(int i=std::max(0,(int)v-1);i<=std::min(255,(int)v+2);i++) ok|=hot.at<cv::Vec3b>(0,i)==p; SIM_CHECK(ok,"mask-colour","disparity mask: pixel %d,%d is coloured %d/%d/%d, the largest error around it is %.2f of 255",x,y,p[0],p[1],p[2],v); continue; }
        uchar c=o.at<uchar>(y,x); if(g.empty()) x1=cv::Vec3b(c,c,c); else if(out) x1=cv::Vec3b(127,127,127); else { int v=g.at<uchar>(y,x); if(v==85||v==170) x1=cv::Vec3b(c,c,c); else if(c==255) x1=v==255?cv::Vec3b(0,255,0):v==0?cv::Vec3b(0,0,255):v==50?cv::Vec3b(0,127,255):cv::Vec3b(85,85,85); else x1=v==255?cv::Vec3b(127,0,255):cv::Vec3b(0,0,0); } SIM_CHECK(p==x1,"mask-colour","classification mask: pixel %d,%d is coloured %d/%d/%d, expected %d/%d/%d",x,y,p[0],p[1],p[2],x1[0],x1[1],x1[2]); } }
// scores of counters of any size, alone, merged, averaged and reduced
namespace {
typedef lv::IIMetricsAccumulator IA; typedef lv::IIMetricsCalculator IC;
uint64_t cnt(){ switch(sim::gen(5)){ case 0: return 0; case 1: return sim::gen(10); case 2: return sim::gen(100000); case 3: return 1000000ull*sim::gen(1000); default: return 1000003ull*sim::gen(60000); } }
Ref fake(bool st){ Ref r; r.dc=cnt(); if(st){ int n=(int)sim::gen(12); for(int i=0;i<n;i++) r.err.push_back(0.25*sim::gen(24)); } else { r.tp=cnt(); r.tn=cnt(); r.fp=cnt(); r.fn=cnt(); r.se=r.fp?sim::gen(2):0; } return r; }
lv::BinClassif bin(const Ref& r){ lv::BinClassif c; c.nTP=r.tp; c.nTN=r.tn; c.nFP=r.fp; c.nFN=r.fn; c.nSE=r.se; c.nDC=r.dc; return c; }
lv::StereoDispErrors ste(const Ref& r){ lv::StereoDispErrors c; c.nDC=r.dc; c.vErrors.assign(r.err.begin(),r.err.end()); return c; }
// one stream (kind 0), arrays of binary classifiers (kind 1), of disparity errors (kind 2)
struct Any { int kind; lv::IIMetricsAccumulatorPtr p; std::vector<Ref> r; };
typedef lv::MetricsAccumulator_<lv::DatasetEval_BinaryClassifier,lv::Dataset_CDnet> A0; typedef lv::MetricsAccumulator_<lv::DatasetEval_BinaryClassifierArray,lv::Dataset_SimEv> A1; typedef lv::MetricsAccumulator_<lv::DatasetEval_StereoDisparityEstim,lv::Dataset_SimEv> A2;
typedef lv::MetricsCalculator_<lv::DatasetEval_BinaryClassifier,lv::Dataset_CDnet> C0; typedef lv::MetricsCalculator_<lv::DatasetEval_BinaryClassifierArray,lv::Dataset_SimEv> C1; typedef lv::MetricsCalculator_<lv::DatasetEval_StereoDisparityEstim,lv::Dataset_SimEv> C2;
Any make(int kind,size_t n,bool names){ Any a; a.kind=kind; if(kind==0){ auto p=IA::create<A0>(); a.r.resize(1); if(n){ a.r[0]=fake(false); p->m_oCounters=bin(a.r[0]); } a.p=p; } else if(kind==1){ auto p=IA::create<A1>(n); for(size_t s=0;s<n;s++){ a.r.push_back(fake(false)); p->m_vCounters[s]=bin(a.r[s]); if(names) p->m_vsStreamNames[s]="n"+std::to_string(s); } a.p=p; } else { auto p=IA::create<A2>(n); for(size_t s=0;s<n;s++){ a.r.push_back(fake(true)); p->m_vErrorLists[s]=ste(a.r[s]); if(names) p->m_vsStreamNames[s]="n"+std::to_string(s); } a.p=p; } return a; }
void check(const lv::IIMetricsAccumulator& m,int kind,const std::vector<Ref>& r,const char* what){ if(kind==0){ same_counts(dynamic_cast<const lv::BinClassifMetricsAccumulator&>(m).m_oCounters,r[0],what); return; } if(kind==1){ auto& a=dynamic_cast<const lv::BinClassifMetricsArrayAccumulator&>(m); SIM_CHECK(a.m_vCounters.size()==r.size()&&a.m_vsStreamNames.size()==r.size(),"stream-count","%s: %zu streams, expected %zu",what,a.m_vCounters.size(),r.size()); Ref t; for(size_t s=0;s<r.size();s++){ same_counts(a.m_vCounters[s],r[s],what); t.add(r[s]); } same_counts(a.reduce()->m_oCounters,t,"reduced counters"); return; }
    auto& a=dynamic_cast<const lv::StereoDispMetricsAccumulator&>(m); SIM_CHECK(a.m_vErrorLists.size()==r.size()&&a.m_vsStreamNames.size()==r.size(),"stream-count","%s: %zu streams, expected %zu",what,a.m_vErrorLists.size(),r.size()); Ref t; for(size_t s=0;s<r.size();s++){ same_counts(a.m_vErrorLists[s],r[s],what); t.add(r[s]); } same_counts(a.reduce(),t,"reduced errors"); }
typedef std::vector<std::vector<double>> SC;
SC sc(const std::vector<Ref>& r,int kind){ SC v; for(auto& x:r) v.push_back(scores(x,kind==2)); return v; }
SC mean(const std::vector<SC>& v){ SC m=v[0]; for(size_t s=0;s<m.size();s++) for(size_t i=0;i<m[s].size();i++){ double t=0; for(auto& x:v) t+=x[s][i]; m[s][i]=t/v.size(); } return m; }
std::vector<double> reduced(const SC& v){ std::vector<double> m=v[0]; for(size_t i=0;i<m.size();i++){ double t=0; for(auto& x:v) t+=x[i]; m[i]=t/v.size(); } return m; }
void check(const lv::IIMetricsCalculator& m,int kind,const SC& e,const char* what){ bool st=kind==2; if(kind==0){ same_scores(list(dynamic_cast<const lv::BinClassifMetricsCalculator&>(m).m_oMetrics),e[0],st,1e-6,what); return; } SC g; std::vector<double> red; size_t nn; if(kind==1){ auto& c=dynamic_cast<const lv::BinClassifMetricsArrayCalculator&>(m); for(auto& x:c.m_vMetrics) g.push_back(list(x)); red=list(c.reduce()->m_oMetrics); nn=c.m_vsStreamNames.size(); } else { auto& c=dynamic_cast<const lv::StereoDispMetricsCalculator&>(m); for(auto& x:c.m_vMetrics) g.push_back(list(x)); red=list(c.reduce()); nn=c.m_vsStreamNames.size(); }
    SIM_CHECK(g.size()==e.size()&&nn==e.size(),"stream-count","%s: %zu streams, expected %zu",what,g.size(),e.size()); for(size_t s=0;s<e.size();s++) same_scores(g[s],e[s],st,1e-5,what); same_scores(red,reduced(e),st,1e-5,"scores reduced over the streams"); }
lv::IIMetricsCalculatorPtr calc(const Any& a){ lv::IIMetricsAccumulatorConstPtr p=a.p; if(a.kind==0) return IC::create<C0>(p); if(a.kind==1) return IC::create<C1>(p); return IC::create<C2>(p); }
}
SIM_HARNESS_W("P27",scores,2){ start(); int kind=(int)sim::gen(3); size_t ns=1+sim::gen(3); int n=1+(int)sim::gen(4); bool names=sim::gen_bool(); std::vector<Any> v; for(int i=0;i<n;i++) v.push_back(make(kind,ns,names)); std::vector<SC> each; for(auto& a:v){ check(*a.p,kind,a.r,"counters"); each.push_back(sc(a.r,kind)); check(*calc(a),kind,each.back(),"scores"); }
    // averages: any grouping of the calculators gives the average over all of them
    { std::vector<lv::IIMetricsCalculatorPtr> c; for(auto& a:v) c.push_back(calc(a)); while(c.size()>1){ size_t i=sim::gen((uint32_t)c.size()-1); size_t j=i+1+sim::gen((uint32_t)(c.size()-i-1)); if(sim::gen_bool()) *c[i]+=*c[j]; else c[i]->accumulate(c[j]); c.erase(c.begin()+j); } check(*c[0],kind,mean(each),"averaged scores"); }
    // equality, then sums into an empty or an existing accumulator
    { Any a=v[0]; bool first=sim::gen_bool(); Any t=first?make(kind,kind==0?0:kind==1||kind==2?0:ns,false):Any(); std::vector<Ref> e=first&&kind?std::vector<Ref>(ns):first?std::vector<Ref>(1):v[0].r; lv::IIMetricsAccumulatorPtr p=first?t.p:v[0].p; for(int i=first?0:1;i<n;i++){ if(sim::gen_bool()) *p+=*v[i].p; else p->accumulate(v[i].p); for(size_t s=0;s<e.size();s++) e[s].add(v[i].r[s]); } check(*p,kind,e,"summed counters"); if(kind&&names){ auto& nm=kind==1?std::dynamic_pointer_cast<A1>(p)->m_vsStreamNames:std::dynamic_pointer_cast<A2>(p)->m_vsStreamNames; for(size_t s=0;s<ns;s++) SIM_CHECK(nm[s]=="n"+std::to_string(s),"stream-name","stream %zu is called '%s'",s,nm[s].c_str()); }
      Any b=make(kind,ns,names); bool same=b.r.size()==e.size(); for(size_t s=0;same&&s<e.size();s++){ const Ref &x=b.r[s],&y=e[s]; same=x.tp==y.tp&&x.tn==y.tn&&x.fp==y.fp&&x.fn==y.fn&&x.se==y.se&&x.dc==y.dc&&x.err==y.err; } SIM_CHECK((*p==*b.p)==same&&(*p!=*b.p)==!same,"equality","accumulators with %s counters compare %s",same?"equal":"different",same?"different":"equal"); SIM_CHECK(*p==*p,"equality","an accumulator differs from itself");
      Any c=make(kind,0,false); if(kind){ c=make(kind,e.size(),true); } for(size_t s=0;s<e.size();s++){ if(kind==0) std::dynamic_pointer_cast<A0>(c.p)->m_oCounters=bin(e[0]); else if(kind==1) std::dynamic_pointer_cast<A1>(c.p)->m_vCounters[s]=bin(e[s]); else std::dynamic_pointer_cast<A2>(c.p)->m_vErrorLists[s]=std::dynamic_pointer_cast<A2>(p)->m_vErrorLists[s]; } SIM_CHECK(*c.p==*p,"equality","equal accumulators compare different"); size_t s=sim::gen((uint32_t)e.size()); if(kind<2){ lv::BinClassif& k=kind?std::dynamic_pointer_cast<A1>(c.p)->m_vCounters[s]:std::dynamic_pointer_cast<A0>(c.p)->m_oCounters; uint64_t* f[6]={&k.nTP,&k.nTN,&k.nFP,&k.nFN,&k.nSE,&k.nDC}; ++*f[sim::gen(6)]; } else { auto& k=std::dynamic_pointer_cast<A2>(c.p)->m_vErrorLists[s]; int w=(int)sim::gen(3); if(w==0||k.vErrors.empty()) ++k.nDC; else if(w==1) k.vErrors.back()+=1; else k.vErrors.pop_back(); } SIM_CHECK(*c.p!=*p&&*p!=*c.p,"equality","accumulators that differ in one counter compare equal"); } }
// ---- whole datasets: histories of sessions, outputs, refusals, faults and resets; counters, scores and reports are those of what was accepted
namespace {
struct Batch { std::vector<VM> gt,roi; std::vector<Ref> r; std::set<size_t> cur; };
void put(const std::string& p,const cv::Mat& m){ sim::Quiet q; std::vector<uchar> b; cv::imencode(".bmp",m,b); sim::vfs::put(p,std::string((char*)b.data(),b.size())); }
template<class B> std::enable_if_t<std::is_base_of<lv::IDataLoader_<lv::Array>,B>::value> do_push(B& b,const VM& o,size_t i){ b.push(o,i); }
template<class B> std::enable_if_t<!std::is_base_of<lv::IDataLoader_<lv::Array>,B>::value> do_push(B& b,const VM& o,size_t i){ b.push(o[0],i); }
struct Opt { bool eval,save,pre; int flt; };
bool has(const lv::IIMetricsAccumulator& a,int kind,size_t t,const Ref& e){ if(kind==0) return equal(dynamic_cast<const A0&>(a).m_oCounters,e); if(kind==1) return equal(dynamic_cast<const A1&>(a).m_vCounters[t],e); auto& c=dynamic_cast<const A2&>(a).m_vErrorLists[t]; double x=0,y=0; for(float f:c.vErrors) x+=f; for(double f:e.err) y+=f; return c.nDC==e.dc&&c.vErrors.size()==e.err.size()&&near(x,y,1e-5); }
template<class W> void history(W& b,Batch& m,int kind,const Opt& op){ size_t ns=kind?2:1; int rounds=1+(int)sim::gen_rare(3,1,2); for(int r=0;r<rounds;r++){ if(sim::gen_rare(2,1,3)){ b.resetMetrics(); m.r.assign(ns,Ref()); m.cur.clear(); sim::probe("eval:reset"); } if(op.pre) { bool all=sim::gen_bool(); if(b.getExpectedLoadSize()==0) all=false; /* nothing in any region of interest: no size to precache */ b.startPrecaching(sim::gen_bool(),all?SIZE_MAX:1+sim::gen(400)); } b.startProcessing(); m.cur.clear(); int n=(int)sim::gen(5);
        for(int k=0;k<n;k++){ size_t i=sim::gen((uint32_t)m.gt.size()); VM o; for(size_t s=0;s<ns;s++){ cv::Mat& g=m.gt[i][s]; o.push_back(kind==2?mat8(g.rows,g.cols,{0,1,2,3,5,9,20,40}):out8(g.rows,g.cols)); } int bad=op.save?0:(int)sim::gen_rare(4,1,4); size_t s=sim::gen((uint32_t)ns); { sim::Quiet q; if(bad==1) o[s]=cv::Mat(o[s].rows+1,o[s].cols,CV_8UC1,cv::Scalar(255)); if(bad==2) o[s]=cv::Mat(); if(bad==3) o[s]=cv::Mat(o[s].rows,o[s].cols,CV_8UC3,cv::Scalar::all(255)); } uint64_t h[2]={hash(o[0]),hash(o.back())};
            if(bad&&!op.eval) continue; bool ok=true,flt=op.flt&&sim::gen_bool(); uint64_t f0=sim::fired_by_me(sim::K_IO_OPEN)+sim::fired_by_me(sim::K_IO_READ)+sim::fired_by_me(sim::K_MALLOCFAIL); std::string err; try{ if(flt&&op.flt==1){ sim::IoFaults f; do_push(b,o,i); } else if(flt&&op.flt==2){ sim::MallocFaults f; do_push(b,o,i); } else do_push(b,o,i); }catch(const std::exception& e){ ok=false; sim::Quiet q; err=e.what(); }
            bool hit=sim::fired_by_me(sim::K_IO_OPEN)+sim::fired_by_me(sim::K_IO_READ)+sim::fired_by_me(sim::K_MALLOCFAIL)>f0; SIM_CHECK(ok||bad||hit,"refused","output %zu of batch %s was refused: %s",i,b.getName().c_str(),err.c_str()); SIM_CHECK(!(ok&&bad),"bad-accepted","an output of wrong size, type or without data was accepted for packet %zu of batch %s",i,b.getName().c_str()); SIM_CHECK(hash(o[0])==h[0]&&hash(o.back())==h[1],"output-modified","a pushed output was modified"); if(!ok){ sim::probe(hit?"eval:faulted":"eval:refused"); if(hit&&op.flt==2&&op.eval&&!bad){ sim::Quiet q; auto p=dynamic_cast<const lv::IIMetricRetriever&>((const lv::IDataHandler&)b).getMetricsBase(); std::vector<Ref> d; bool none=true,all=true; if(kind==1&&dynamic_cast<const A1&>(*p).m_vCounters.empty()) continue; if(kind==2&&dynamic_cast<const A2&>(*p).m_vErrorLists.empty()) continue; for(size_t t=0;t<ns;t++){ none&=has(*p,kind,t,m.r[t]); d.push_back(m.r[t]); bool any=false; for(int c=0;c<3&&!any;c++){ const cv::Mat g=c==1?cv::Mat():m.gt[i][t],roi=c?cv::Mat():m.roi[i][t]; Ref e=m.r[t]; e.add(kind==2?disp(o[t],g,roi):classif(o[t],g,roi)); if(has(*p,kind,t,e)){ d[t]=e; any=true; } } all&=any; } SIM_CHECK(none||all,"half-counted","an output whose evaluation failed for lack of memory was counted in part"); if(!none) m.r=d; } continue; } m.cur.insert(i); if(op.eval) for(size_t t=0;t<ns;t++){ auto one=[&](const cv::Mat& g,const cv::Mat& roi){ return kind==2?disp(o[t],g,roi):classif(o[t],g,roi); }; Ref d=one(m.gt[i][t],m.roi[i][t]); if(hit){ sim::Quiet q; auto p=dynamic_cast<const lv::IIMetricRetriever&>((const lv::IDataHandler&)b).getMetricsBase(); bool done=false; for(const Ref& c:{d,one(cv::Mat(),cv::Mat()),one(m.gt[i][t],cv::Mat())}){ Ref e=m.r[t]; e.add(c); if(has(*p,kind,t,e)){ if(!done) d=c; done=true; } } SIM_CHECK(done,"fault-counted","an output accepted although reading its ground truth failed was neither counted as if it could be read nor as if it were absent"); sim::probe("eval:accepted-despite-fault"); } m.r[t].add(d); }
            if(sim::gen_rare(2,1,5)){ b.resetMetrics(); m.r.assign(ns,Ref()); m.cur.clear(); sim::probe("eval:reset-inside"); } if(sim::gen_rare(2,1,4)) sim::sleep_ns(1000+sim::gen(50000000)); }
        sim::sleep_ns(1000+sim::gen(1000000)); b.stopProcessing(); SIM_CHECK(b.getCurrentOutputCount()==m.cur.size(),"output-count","batch %s counted %zu outputs, %zu were accepted",b.getName().c_str(),b.getCurrentOutputCount(),m.cur.size()); } }
std::string strip(const std::string& s){ size_t a=s.find_first_not_of(' '),z=s.find_last_not_of(' '); return a==std::string::npos?std::string():s.substr(a,z-a+1); }
struct Row { std::string name,stream; std::vector<double> v; };
Row row(const std::string& l){ Row r; VS c; std::string t; for(char ch:l+"|") if(ch=='|'){ c.push_back(strip(t)); t.clear(); } else t+=ch; r.name=c[0]; size_t k=1; if(l.find("||")!=std::string::npos){ r.stream=c[1]; k=3; } for(;k<c.size();k++) r.v.push_back(atof(c[k].c_str())); return r; }
struct Exp { std::string name,stream; std::vector<double> v; };
// metrics of a node: average over its processed batches
typedef std::map<const lv::IDataHandler*,Batch*> MB;
void leaves(const lv::IDataHandler& h,MB& mb,std::vector<Batch*>& v){ for(auto& p:h.getBatches(false)){ Batch* b=mb[p.get()]; if(!b->cur.empty()) v.push_back(b); } if(!h.isGroup()) v.assign(1,mb[&h]); }
void rows(const lv::IDataHandler& h,int ind,MB& mb,int kind,bool eval,bool red,std::vector<Exp>& out){ if(h.getCurrentOutputCount()==0) return; if(h.isGroup()&&!h.isBare()) for(auto& p:h.getBatches(true)) rows(*p,ind+1,mb,kind,eval,red,out); std::string nm=strip((std::string((size_t)ind,'>')+" "+h.getName()).substr(0,12)); if(!eval){ double t=h.getCurrentProcessTime(); out.push_back({nm,"",{(double)h.getCurrentOutputCount(),t,h.getCurrentOutputCount()/t}}); return; } std::vector<Batch*> v; leaves(h,mb,v); std::vector<SC> e; for(auto* b:v) e.push_back(sc(b->r,kind)); SC m=mean(e); if(red) out.push_back({nm,"all:reduced",reduced(m)}); else for(size_t s=0;s<m.size();s++) out.push_back({nm,kind?"s"+std::to_string(s):"",m[s]}); }
void report(const lv::IDataHandler& h,MB& mb,int kind,bool eval){ if(h.isBare()) return; std::string p=h.getOutputPath()+(h.isRoot()?"":"../")+h.getName()+".txt",s; bool have=sim::vfs::get(p,s); size_t n=h.getCurrentOutputCount(); if(n==0) return; const char* nm=h.getName().c_str(); SIM_CHECK(have,"report-missing","the report of %s was not written",nm); SIM_CHECK(s.find("'"+h.getName()+"'")!=std::string::npos,"report-name","the report of %s does not name it",nm); std::vector<Exp> e; rows(h,0,mb,kind,eval,false,e); if(eval&&kind) rows(h,0,mb,kind,eval,true,e); std::vector<Row> g; std::istringstream in(s); std::string l; bool table=false; double hz=-1,c=-1; while(std::getline(in,l)){ if(l.compare(0,6,"------")==0){ table=true; continue; } if(table&&l.find('|')!=std::string::npos) g.push_back(row(l)); if(l.compare(0,4,"Hz: ")==0) hz=atof(l.c_str()+4); if(l.compare(0,7,"Count: ")==0) c=atof(l.c_str()+7); }
    SIM_CHECK(g.size()==e.size(),"report-rows","the report of %s has %zu rows, expected %zu:\n%s",nm,g.size(),e.size(),s.c_str()); for(size_t i=0;i<e.size();i++){ SIM_CHECK(g[i].name==e[i].name&&g[i].stream==e[i].stream,"report-rows","row %zu of the report of %s is '%s' '%s', expected '%s' '%s'",i,nm,g[i].name.c_str(),g[i].stream.c_str(),e[i].name.c_str(),e[i].stream.c_str()); SIM_CHECK(g[i].v.size()==e[i].v.size(),"report-shape","row %zu of the report of %s has %zu values",i,nm,g[i].v.size()); for(size_t k=0;k<e[i].v.size();k++) SIM_CHECK(near(g[i].v[k],e[i].v[k],3e-5)||!std::isfinite(e[i].v[k]),"report-wrong","report of %s: value %zu of row '%s' '%s' is %.6f, expected %.6f",nm,k,g[i].name.c_str(),g[i].stream.c_str(),g[i].v[k],e[i].v[k]); }
    if(eval){ SIM_CHECK(c==(double)n,"report-count","the report of %s states %g outputs, there were %zu",nm,c,n); double t=h.getCurrentProcessTime(); if(t>0) SIM_CHECK(near(hz,n/t,1e-4),"report-speed","the report of %s states %g Hz for %zu outputs in %g s",nm,hz,n,t); } sim::probe(eval?"eval:report":"eval:default-report"); }
template<class DS> void run(std::shared_ptr<DS> ds,std::map<std::string,Batch>& by,int kind,const Opt& op){ MB mb; std::vector<typename DS::WorkBatch*> w; for(auto& p:ds->getBatches(false)){ auto* b=dynamic_cast<typename DS::WorkBatch*>(p.get()); SIM_CHECK(by.count(b->getDataPath()),"batch-unknown","unexpected batch %s",b->getDataPath().c_str()); Batch& m=by[b->getDataPath()]; m.r.assign(kind?2:1,Ref()); mb[p.get()]=&m; w.push_back(b); }
    if(op.flt==1){ sim::enable(sim::K_IO_OPEN,0.1); sim::enable(sim::K_IO_READ,0.1); } if(op.flt==2) sim::enable(sim::K_MALLOCFAIL,0.05); std::vector<char> skip; for(size_t i=0;i<w.size();i++) skip.push_back(sim::gen_rare(2,1,4)!=0);
    if(sim::gen_bool()){ std::vector<std::thread> th; for(size_t i=0;i<w.size();i++) if(!skip[i]) th.emplace_back([&,i]{ history(*w[i],*mb[w[i]],kind,op); if(sim::gen_bool()) w[i]->writeEvalReport(); }); for(auto& t:th) t.join(); sim::probe("eval:parallel-batches"); } else for(size_t i=0;i<w.size();i++) if(!skip[i]) history(*w[i],*mb[w[i]],kind,op);
    ds->writeEvalReport(); sim::Quiet q; std::vector<lv::IDataHandlerConstPtr> nodes; std::function<void(const lv::IDataHandler&)> visit=[&](const lv::IDataHandler& h){ report(h,mb,kind,op.eval); if(h.isGroup()) for(auto& p:h.getBatches(true)) visit(*p); std::vector<Batch*> lv_; leaves(h,mb,lv_); if(!op.eval||h.getCurrentOutputCount()==0) return; auto& mr=dynamic_cast<const lv::IIMetricRetriever&>(h); std::vector<SC> e; for(auto* b:lv_) e.push_back(sc(b->r,kind)); check(*mr.getMetrics(true),kind,mean(e),"averaged scores of a batch or group");
        std::vector<Ref> t(kind?2:1); if(h.isGroup()){ for(auto& p:h.getBatches(false)) for(size_t s=0;s<t.size();s++) t[s].add(mb[p.get()]->r[s]); } else t=mb[&h]->r; check(*mr.getMetricsBase(),kind,t,"counters of a batch or group"); check(*mr.getMetrics(false),kind,sc(t,kind),"scores of the counters of a batch or group"); }; visit(*ds); }
Opt gen_opt(){ Opt o; o.eval=sim::gen_rare(2,1,5)==0; o.flt=(int)sim::gen_rare(3,1,3); o.save=!o.flt&&sim::gen_rare(2,1,4)!=0; o.pre=!o.flt&&sim::gen_bool(); return o; }
template<class DS> void arrays(int kind){ start(); sim_cache_min_value=1; int ng=1+(int)sim::gen(2); VS g; std::map<std::string,Batch> by; for(int i=0;i<ng;i++){ g.push_back(num("g%d",i)); std::string d="/simfs/data/ds/"+g.back()+"/"; int nb=(int)sim::gen(3); for(int j=0;j<std::max(1,nb);j++){ std::string p=nb?d+num("b%d/",j):d; Batch& b=by[p]; int n=1+(int)sim::gen(3); for(int k=0;k<n;k++){ b.gt.push_back(VM()); b.roi.push_back(VM()); for(int s=0;s<2;s++){ int h=1+(int)sim::gen(5),w=1+(int)sim::gen(5); std::string t=std::to_string(k)+"_"+std::to_string(s)+".bmp"; b.gt.back().push_back(kind==2?mat8(h,w,{1,2,5,9,20,33,255}):gt8(h,w)); put(p+"gt"+t,b.gt.back().back()); b.roi.back().push_back(roi8(h,w)); if(!b.roi.back().back().empty()) put(p+"roi"+t,b.roi.back().back()); } } } }
    Opt op=gen_opt(); sim::vfs::mkdirs("/simfs/out/"); run<DS>(DS::create("ds","/simfs/data/ds/","/simfs/out/o/",g,VS(),op.save,op.eval),by,kind,op); }
}
SIM_HARNESS_W("P27",reports_segm,2){ start(); sim_cache_min_value=1; sim::enable(sim::K_DIRORDER,0.5); static const char* const cat[6]={"baseline","cameraJitter","dynamicBackground","intermittentObjectMotion","shadow","thermal"}; const std::string R="/simfs/data/CDNet/dataset/"; std::map<std::string,Batch> by; int few=(int)sim::gen(6);
    for(int c=0;c<6;c++){ int n=c==few?1+(int)sim::gen(2):1; for(int s=0;s<n;s++){ std::string d=R+cat[c]+"/"+num("seq%d/",s); int h=2+(int)sim::gen(4),w=2+(int)sim::gen(4),nf=1+(int)sim::gen(3); Batch& b=by[d]; cv::Mat roi=sim::gen_bool()?mat8(h,w,{255}):mat8(h,w,{0,255,255}); put(d+"ROI.bmp",roi); put(d+"ROI.jpg",cv::Mat(h,w,CV_8UC3,cv::Scalar::all(255))); for(int i=0;i<nf;i++){ put(d+num("input/in%06d.jpg",i+1),cv::Mat(h,w,CV_8UC3,cv::Scalar(9,9*i,3))); b.gt.push_back(VM{gt8(h,w)}); b.roi.push_back(VM{roi}); put(d+num("groundtruth/gt%06d.png",i+1),b.gt.back()[0]); } } }
    Opt op=gen_opt(); sim::vfs::mkdirs("/simfs/data/CDNet/results"); run<DsCd>(DsCd::create("out",op.save,op.eval,false,1.0,false),by,0,op); }
SIM_HARNESS_W("P27",reports_cosegm,2){ arrays<DsCos>(1); }
SIM_HARNESS_W("P27",reports_stereo,2){ arrays<DsSte>(2); }
