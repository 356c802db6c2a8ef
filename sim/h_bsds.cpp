// P26: edge detection evaluation (BSDS500): counters, scores and reports, for every output, ground truth, batch order and interleaving.
#include "sim.hpp"
#include "h_pipe.hpp"
#define DATASETS_LITIV2018_DATA_VERSION 2
#include "litiv/datasets.hpp"
#include "litiv/imgproc.hpp"
#include <thread>
#include <map>
#include <set>
#include <cmath>
namespace {
static const bool fair_cap_set=(sim::set_fair_cap(600000000ull),true); // pure computing: long but finite
typedef lv::MetricsAccumulator_<lv::DatasetEval_BinaryClassifier,lv::Dataset_BSDS500> Acc;
typedef lv::MetricsCalculator_<lv::DatasetEval_BinaryClassifier,lv::Dataset_BSDS500> Calc;
typedef lv::Dataset_<lv::DatasetTask_EdgDet,lv::Dataset_BSDS500,lv::NonParallel> DsBs;
typedef std::shared_ptr<Acc> AccP;
struct Img { cv::Mat out,gt; int n; };
struct Rng { uint64_t lo,hi; };
// what the counters of one threshold may be: the number of one-to-one matches is exact for few candidates, bounded otherwise
struct Ref { uint64_t tpfn,tpfp; Rng ind,tot; };
bool within(uint64_t v,const Rng& r){ return v>=r.lo&&v<=r.hi; }
std::vector<uchar> thresholds(size_t bins){ std::vector<uchar> v; if(bins==1){ v.push_back(255); return v; } for(size_t i=1;i<=bins;i++) v.push_back((uchar)(255.0/bins*i)); return v; }
bool augment(int s,const std::vector<std::vector<int>>& adj,std::vector<int>& m,std::vector<char>& seen){ for(int g:adj[s]) if(!seen[g]){ seen[g]=1; if(m[g]<0||augment(m[g],adj,m,seen)){ m[g]=s; return true; } } return false; }
Ref reference(const Img& im,uchar thr){ sim::Quiet q; Ref r; cv::Mat mask(im.out.size(),CV_8UC1),thin; for(int y=0;y<mask.rows;y++) for(int x=0;x<mask.cols;x++) mask.at<uchar>(y,x)=im.out.at<uchar>(y,x)>=thr?255:0; lv::thinning(mask,thin); const double D2=std::pow(0.0075*std::sqrt((double)(mask.cols*mask.cols+mask.rows*mask.rows)),2); std::vector<cv::Point> S; for(int y=0;y<mask.rows;y++) for(int x=0;x<mask.cols;x++) if(thin.at<uchar>(y,x)) S.push_back(cv::Point(x,y)); r.tpfp=S.size(); r.tpfn=0; std::set<int> uni; uint64_t lo=0,hi=0,mx=0; bool exact=true;
    for(int k=0;k<im.n;k++){ std::vector<cv::Point> G; for(int y=0;y<mask.rows;y++) for(int x=0;x<mask.cols;x++) if(im.gt.at<uchar>(k*mask.rows+y,x)) G.push_back(cv::Point(x,y)); r.tpfn+=G.size(); std::vector<std::vector<int>> adj(S.size()); std::set<int> us,ug; for(size_t s=0;s<S.size();s++) for(size_t g=0;g<G.size();g++){ cv::Point d=S[s]-G[g]; if(d.x*d.x+d.y*d.y<=D2){ adj[s].push_back((int)g); us.insert((int)s); ug.insert((int)g); } } for(int s:us) uni.insert(s); std::vector<int> m(G.size(),-1); uint64_t M=0; for(size_t s=0;s<S.size();s++){ std::vector<char> seen(G.size(),0); M+=augment((int)s,adj,m,seen); } bool ex=us.size()<=7&&ug.size()<=7&&std::min(us.size(),ug.size())<=6; exact&=ex; uint64_t l=ex?M:M-std::min<uint64_t>(M,3+M/3); lo+=l; hi+=M; mx=std::max(mx,l); }
    r.ind={lo,hi}; r.tot={mx,std::min<uint64_t>(hi,uni.size())}; if(exact&&!uni.empty()) sim::probe("bsds:exact"); if(!exact) sim::probe("bsds:bounded"); return r; }
// outputs: sparse curves in few values, often exactly at or next to a threshold
Img image(int h,int w,size_t bins){ Img im; sim::Quiet q; im.n=1+(int)sim::gen_rare(3,1,2); auto th=thresholds(bins); std::vector<int> pal; int np=1+(int)sim::gen(4); for(int i=0;i<np;i++) pal.push_back(std::min(255,std::max(0,sim::gen_bool()?(int)th[sim::gen((uint32_t)th.size())]-1+(int)sim::gen(3):(int)sim::gen(256)))); im.out=cv::Mat(h,w,CV_8UC1,cv::Scalar(sim::gen_rare(2,1,4)?pal[0]:0)); im.gt=cv::Mat(h*im.n,w,CV_8UC1,cv::Scalar(0)); int ns=(int)sim::gen(7); bool dense=sim::gen_rare(2,1,5)!=0; if(dense) ns+=10+(int)sim::gen(20); std::vector<cv::Point> pts; for(int i=0;i<ns;i++){ cv::Point p((int)sim::gen(w),(int)sim::gen(h)); int len=1+(int)sim::gen_rare(6,1,3); uchar v=(uchar)pal[sim::gen(np)]; for(int l=0;l<len;l++){ im.out.at<uchar>(p)=v; pts.push_back(p); p.x=std::min(w-1,p.x+1); p.y=std::min(h-1,std::max(0,p.y-1+(int)sim::gen(3))); } }
    for(int k=0;k<im.n;k++) for(auto p:pts) if(sim::gen_rare(4,1,2)!=1||dense){ int R=(int)sim::gen(4); p.x=std::min(w-1,std::max(0,p.x+(int)sim::gen(2*R+1)-R)); p.y=std::min(h-1,std::max(0,p.y+(int)sim::gen(2*R+1)-R)); im.gt.at<uchar>(k*h+p.y,p.x)=sim::gen_bool()?255:1; } if(pts.empty()&&sim::gen_bool()) im.gt.at<uchar>(0,0)=255; return im; }
Img image(size_t bins){ int a=4+(int)sim::gen(6),b=sim::gen_bool()?4+(int)sim::gen(40):140+(int)sim::gen(300); return sim::gen_bool()?image(a,b,bins):image(b,a,bins); }
void check_counters(const lv::BSDS500Counters& c,const Img& im,size_t bins,const char* who){ sim::Quiet q; auto th=thresholds(bins); SIM_CHECK(c.vnThresholds==th&&c.vnIndivTP.size()==bins&&c.vnIndivTPFN.size()==bins&&c.vnTotalTP.size()==bins&&c.vnTotalTPFP.size()==bins,"counter-shape","%s: wrong thresholds or number of counters",who); std::map<int,Ref> memo; std::set<uchar> u(im.out.begin<uchar>(),im.out.end<uchar>()); for(size_t t=0;t<bins;t++){ auto it=u.lower_bound(th[t]); int key=it==u.end()?256:*it; if(!memo.count(key)) memo[key]=reference(im,th[t]); const Ref& r=memo[key]; SIM_CHECK(c.vnIndivTPFN[t]==r.tpfn,"gt-count","%s: %llu ground truth pixels at threshold %d, expected %llu",who,(unsigned long long)c.vnIndivTPFN[t],th[t],(unsigned long long)r.tpfn); SIM_CHECK(c.vnTotalTPFP[t]==r.tpfp,"detection-count","%s: %llu detected pixels at threshold %d, expected %llu",who,(unsigned long long)c.vnTotalTPFP[t],th[t],(unsigned long long)r.tpfp);
        SIM_CHECK(within(c.vnIndivTP[t],r.ind),"match-count","%s: %llu ground truth pixels matched at threshold %d, expected %llu to %llu",who,(unsigned long long)c.vnIndivTP[t],th[t],(unsigned long long)r.ind.lo,(unsigned long long)r.ind.hi); SIM_CHECK(within(c.vnTotalTP[t],r.tot)&&(im.n>1?c.vnTotalTP[t]<=c.vnIndivTP[t]:c.vnTotalTP[t]==c.vnIndivTP[t]),"total-match-count","%s: %llu detected pixels matched at threshold %d, expected %llu to %llu (%llu ground truth pixels matched)",who,(unsigned long long)c.vnTotalTP[t],th[t],(unsigned long long)r.tot.lo,(unsigned long long)r.tot.hi,(unsigned long long)c.vnIndivTP[t]); } }
void feed(Acc& a,const Img& im){ cv::Mat o,g; { sim::Quiet q; o=im.out.clone(); g=im.gt.clone(); } a.accumulate(o,g,cv::Mat()); sim::Quiet q; SIM_CHECK(cv::norm(o,im.out,cv::NORM_INF)==0&&cv::norm(g,im.gt,cv::NORM_INF)==0,"input-modified","the evaluated output or its ground truth was modified"); }
size_t gen_bins(){ if(sim::gen_rare(2,1,6)) return 99; if(sim::gen_rare(2,1,6)) return 255; return 1+sim::gen(14); }
double fm(double r,double p){ return r+p>0?2*r*p/(r+p):0; }
bool near(double a,double b,double e=1e-9){ return std::fabs(a-b)<=e*(1+std::fabs(b)); }
typedef lv::BSDS500Score Score;
Score score(const std::vector<lv::BSDS500Counters>& v,size_t t){ uint64_t a=0,b=0,c=0,d=0; for(auto& x:v){ a+=x.vnIndivTP[t]; b+=x.vnIndivTPFN[t]; c+=x.vnTotalTP[t]; d+=x.vnTotalTPFP[t]; } Score s; s.dThreshold=v[0].vnThresholds[t]/255.0; s.dRecall=b?(double)a/b:0; s.dPrecision=d?(double)c/d:0; s.dFMeasure=fm(s.dRecall,s.dPrecision); return s; }
// the best score lies on the piecewise linear recall/precision curve and no sampled point of that curve is better
double best_f(const std::vector<Score>& v){ double b=v[0].dFMeasure; for(size_t i=1;i<v.size();i++) for(int k=0;k<=100;k++){ double x=k/100.0; b=std::max(b,fm((1-x)*v[i-1].dRecall+x*v[i].dRecall,(1-x)*v[i-1].dPrecision+x*v[i].dPrecision)); } return b; }
bool on_curve(const Score& s,const std::vector<Score>& v,double e){ if(v.size()==1) return near(s.dThreshold,v[0].dThreshold,e)&&near(s.dRecall,v[0].dRecall,e)&&near(s.dPrecision,v[0].dPrecision,e); for(size_t i=1;i<v.size();i++) for(int k=0;k<=100;k++){ double x=k/100.0; if(near((1-x)*v[i-1].dThreshold+x*v[i].dThreshold,s.dThreshold,e)&&near((1-x)*v[i-1].dRecall+x*v[i].dRecall,s.dRecall,e)&&near((1-x)*v[i-1].dPrecision+x*v[i].dPrecision,s.dPrecision,e)) return true; } return false; }
void check_best(const Score& s,const std::vector<Score>& v,const char* what,double e=1e-9){ SIM_CHECK(near(s.dFMeasure,best_f(v),e),"best-score","%s: best F-measure %.9g, expected %.9g",what,s.dFMeasure,best_f(v)); SIM_CHECK(near(s.dFMeasure,fm(s.dRecall,s.dPrecision),e)&&on_curve(s,v,e),"best-score-inconsistent","%s: the best score (threshold %.9g, recall %.9g, precision %.9g) is not on the recall/precision curve",what,s.dThreshold,s.dRecall,s.dPrecision); }
// area under the curve: precision interpolated at 0,0.01,..,1 over the recalls that were reached; equal recalls may use either precision
void area(const std::vector<Score>& v,double& lo,double& hi){ lo=hi=0; std::map<double,std::pair<double,double>> m; for(auto& s:v){ auto it=m.find(s.dRecall); if(it==m.end()) m[s.dRecall]={s.dPrecision,s.dPrecision}; else { it->second.first=std::min(it->second.first,s.dPrecision); it->second.second=std::max(it->second.second,s.dPrecision); } } if(m.size()<2) return; for(int k=0;k<=100;k++){ double x=k/100.0; auto b=m.lower_bound(x); if(b==m.end()||(b==m.begin()&&b->first>x)) continue; if(b->first==x){ lo+=0.01*b->second.first; hi+=0.01*b->second.second; continue; } auto a=std::prev(b); double f=(x-a->first)/(b->first-a->first); lo+=0.01*((1-f)*a->second.first+f*b->second.first); hi+=0.01*((1-f)*a->second.second+f*b->second.second); } }
void check_scores(const Calc& c,const std::vector<lv::BSDS500Counters>& v,bool ordered,const char* what){ if(v.empty()) return; size_t bins=v[0].vnThresholds.size(); SIM_CHECK(c.voThresholdScores.size()==bins&&c.voBestImageScores.size()==v.size(),"score-count","%s: %zu threshold and %zu image scores for %zu thresholds and %zu images",what,c.voThresholdScores.size(),c.voBestImageScores.size(),bins,v.size()); std::vector<Score> th; for(size_t t=0;t<bins;t++){ Score s=score(v,t); const Score& g=c.voThresholdScores[t]; SIM_CHECK(near(g.dThreshold,s.dThreshold)&&near(g.dRecall,s.dRecall)&&near(g.dPrecision,s.dPrecision)&&near(g.dFMeasure,s.dFMeasure),"threshold-score","%s: score at threshold %zu is (%g %g %g), expected (%g %g %g)",what,t,g.dRecall,g.dPrecision,g.dFMeasure,s.dRecall,s.dPrecision,s.dFMeasure); th.push_back(s); } check_best(c.oBestScore,th,what);
    std::vector<lv::BSDS500Counters> mx; std::vector<char> used(v.size(),0); for(size_t i=0;i<v.size();i++){ std::vector<Score> is; size_t b=0; for(size_t t=0;t<bins;t++){ is.push_back(score({v[i]},t)); if(is[t].dFMeasure>is[b].dFMeasure) b=t; } lv::BSDS500Counters k(1); k.vnIndivTP[0]=v[i].vnIndivTP[b]; k.vnIndivTPFN[0]=v[i].vnIndivTPFN[b]; k.vnTotalTP[0]=v[i].vnTotalTP[b]; k.vnTotalTPFP[0]=v[i].vnTotalTPFP[b]; mx.push_back(k); if(ordered) check_best(c.voBestImageScores[i],is,what); else { bool ok=false; for(size_t j=0;j<v.size()&&!ok;j++) if(!used[j]&&near(c.voBestImageScores[j].dFMeasure,best_f(is))&&on_curve(c.voBestImageScores[j],is,1e-9)) used[j]=ok=true; SIM_CHECK(ok,"best-score","%s: no image has the best score of image %zu",what,i); } }
    Score m=score(mx,0); SIM_CHECK(near(c.dMaxRecall,m.dRecall)&&near(c.dMaxPrecision,m.dPrecision)&&near(c.dMaxFMeasure,m.dFMeasure),"max-score","%s: scores at the best thresholds of the images are (%g %g %g), expected (%g %g %g)",what,c.dMaxRecall,c.dMaxPrecision,c.dMaxFMeasure,m.dRecall,m.dPrecision,m.dFMeasure); double lo,hi; area(th,lo,hi); SIM_CHECK(c.dAreaPR>=lo-1e-9&&c.dAreaPR<=hi+1e-9,"area","%s: area under the precision/recall curve %.9g, expected %.9g to %.9g",what,c.dAreaPR,lo,hi); if(hi>0) sim::probe("bsds:area"); }
void start(){ sim::enable(sim::K_CLOCKJUMP,0.02); }
AccP make(size_t bins){ return lv::IIMetricsAccumulator::create<Acc>(bins); }
}
SIM_HARNESS_W("P26",counters,2){ start(); size_t bins=gen_bins(); AccP a=make(bins),b=make(bins),e=make(bins); int n=1+(int)sim::gen_rare(3,1,2); std::vector<Img> ims; for(int i=0;i<n;i++) ims.push_back(image(bins)); std::vector<int> ia,ib; for(int i=0;i<n;i++) if(sim::gen_rare(2,1,3)){ feed(*b,ims[i]); ib.push_back(i); } else { feed(*a,ims[i]); ia.push_back(i); } if(sim::gen_bool()) a->accumulate(cv::Mat(ims[0].out),cv::Mat(),cv::Mat());
    auto chk=[&](Acc& x,const std::vector<int>& v,const char* who){ SIM_CHECK(x.m_voMetricsBase.size()==v.size(),"image-count","%s: %zu evaluated images, expected %zu",who,x.m_voMetricsBase.size(),v.size()); for(size_t i=0;i<v.size();i++) check_counters(x.m_voMetricsBase[i],ims[v[i]],bins,who); }; chk(*a,ia,"accumulator"); chk(*b,ib,"second accumulator"); SIM_CHECK(a->isEqual(a)&&e->isEqual(make(bins))&&a->isEqual(e)==ia.empty(),"equality","comparison of accumulators is wrong"); SIM_CHECK(!a->isEqual(make(bins==255?1:bins+1)),"equality","accumulators with different thresholds compare equal"); auto before=a->m_voMetricsBase; a->accumulate(lv::IIMetricsAccumulatorConstPtr(b)); ia.insert(ia.end(),ib.begin(),ib.end()); chk(*a,ia,"merged accumulator"); chk(*b,ib,"merged-in accumulator"); SIM_CHECK(a->isEqual(b)==(ib.size()==ia.size()),"equality","comparison of accumulators is wrong");
    if(!ia.empty()){ auto c=make(bins); c->m_voMetricsBase=a->m_voMetricsBase; SIM_CHECK(c->isEqual(a),"equality","equal accumulators compare different"); auto& k=c->m_voMetricsBase[sim::gen((uint32_t)ia.size())]; auto& w=(sim::gen_bool()?(sim::gen_bool()?k.vnIndivTP:k.vnIndivTPFN):(sim::gen_bool()?k.vnTotalTP:k.vnTotalTPFP)); w[sim::gen((uint32_t)bins)]++; SIM_CHECK(!c->isEqual(a)&&!a->isEqual(c),"equality","different accumulators compare equal"); } if(sim::gen_bool()){ bool ok=false; try{ a->accumulate(lv::IIMetricsAccumulatorConstPtr(make(bins==255?1:bins+1))); ok=true; }catch(const std::exception&){} SIM_CHECK(!ok,"mismatch-accepted","accumulators with different thresholds were merged"); chk(*a,ia,"accumulator after a refused merge"); }
    Img bad=image(bins); bool strided=false; int how=(int)sim::gen(6); { sim::Quiet q; auto wide=[](const cv::Mat& m){ cv::Mat b(m.rows,m.cols+3,m.type(),cv::Scalar(255)); cv::Mat v=b(cv::Rect(0,0,m.cols,m.rows)); m.copyTo(v); return v; }; static const int ty[4]={CV_8UC3,CV_16UC1,CV_32FC1,CV_8SC1}; switch(how){ case 0: bad.gt=cv::Mat(bad.out.rows*bad.n+1,bad.gt.cols,CV_8UC1,cv::Scalar(0)); break; case 1: bad.out=cv::Mat(bad.out.size(),ty[sim::gen(4)],cv::Scalar::all(0)); break; case 2: bad.gt=cv::Mat(bad.gt.size(),ty[sim::gen(4)],cv::Scalar::all(0)); break; case 3: bad.gt=cv::Mat(bad.gt.rows,bad.gt.cols+(sim::gen_bool()?1:-1),CV_8UC1,cv::Scalar(0)); break; case 4: bad.gt=cv::Mat(bad.out.rows-1,bad.gt.cols,CV_8UC1,cv::Scalar(0)); break; default: strided=true; { int m=1+(int)sim::gen(3); if(m&1) bad.out=wide(bad.out); if(m&2) bad.gt=wide(bad.gt); } } }
    bool acc=true; try{ a->accumulate(bad.out,bad.gt,cv::Mat()); }catch(const std::exception&){ acc=false; } SIM_CHECK(!acc||strided,"mismatch-accepted","an output that does not fit its ground truth was evaluated"); if(!acc){ chk(*a,ia,"accumulator after a refused output"); sim::probe("bsds:refused"); } else { SIM_CHECK(a->m_voMetricsBase.size()==ia.size()+1,"image-count","%zu images",a->m_voMetricsBase.size()); check_counters(a->m_voMetricsBase.back(),bad,bins,"strided output"); } if(!strided){ bool col=true; try{ Acc::getColoredMask(bad.out,bad.gt,cv::Mat()); }catch(const std::exception&){ col=false; } SIM_CHECK(!col,"mismatch-accepted","an output that does not fit its ground truth was coloured"); } }
SIM_HARNESS("P26",concurrent){ start(); int nt=2+(int)sim::gen_rare(2,1,2); size_t bins=1+sim::gen(5); std::vector<Img> ims; for(int t=0;t<nt;t++) ims.push_back(image(bins)); std::vector<AccP> acc; for(int t=0;t<nt;t++) acc.push_back(make(bins)); std::vector<std::thread> th; for(int t=0;t<nt;t++) th.emplace_back([&,t]{ feed(*acc[t],ims[t]); }); for(auto& t:th) t.join(); for(int t=0;t<nt;t++){ SIM_CHECK(acc[t]->m_voMetricsBase.size()==1,"image-count","%zu images",acc[t]->m_voMetricsBase.size()); check_counters(acc[t]->m_voMetricsBase[0],ims[t],bins,"concurrent accumulator"); } sim::probe("bsds:concurrent"); }
SIM_HARNESS_W("P26",scores,2){ start(); size_t bins=gen_bins(); auto fake=[&](AccP a,int n){ std::vector<lv::BSDS500Counters> v; for(int i=0;i<n;i++){ lv::BSDS500Counters c(bins); uint64_t g=sim::gen(200),d=sim::gen(200),tp=std::min(g,d); bool flat=sim::gen_rare(2,1,6)!=0; uint64_t m=sim::gen_bool()?tp:tp?sim::gen((uint32_t)tp+1):0; for(size_t t=0;t<bins;t++){ if(!flat&&t){ d=sim::gen((uint32_t)d+1); m=std::min<uint64_t>(std::min(g,d),m?sim::gen((uint32_t)m+1):0); } c.vnIndivTPFN[t]=g; c.vnTotalTPFP[t]=d; c.vnIndivTP[t]=m; c.vnTotalTP[t]=m?m-sim::gen_rare((uint32_t)m,1,3):0; } v.push_back(c); } a->m_voMetricsBase=v; return v; };
    AccP a=make(bins),b=make(bins); auto va=fake(a,1+(int)sim::gen(3)); auto vb=fake(b,1+(int)sim::gen(3)); auto ca=lv::IIMetricsCalculator::create<Calc>(lv::IIMetricsAccumulatorConstPtr(a)); auto cb=lv::IIMetricsCalculator::create<Calc>(lv::IIMetricsAccumulatorConstPtr(b)); check_scores(*ca,va,true,"scores"); check_scores(*cb,vb,true,"scores of second set"); ca->accumulate(lv::IIMetricsCalculatorConstPtr(cb)); auto all=va; all.insert(all.end(),vb.begin(),vb.end()); check_scores(*ca,all,false,"accumulated scores"); check_scores(*cb,vb,true,"scores of the accumulated set"); a->accumulate(lv::IIMetricsAccumulatorConstPtr(b)); auto cm=lv::IIMetricsCalculator::create<Calc>(lv::IIMetricsAccumulatorConstPtr(a)); check_scores(*cm,all,true,"scores of merged counters"); }
SIM_HARNESS("P26",colours){ start(); int h=4+(int)sim::gen(8),w=sim::gen_bool()?4+(int)sim::gen(20):140+(int)sim::gen(200); Img im=image(h,w,1); cv::Mat o,g,r; { sim::Quiet q; im.out=im.out>0; im.gt=im.gt>0; o=im.out.clone(); g=im.gt.clone(); } r=Acc::getColoredMask(o,g,cv::Mat()); sim::Quiet q; SIM_CHECK(cv::norm(o,im.out,cv::NORM_INF)==0&&cv::norm(g,im.gt,cv::NORM_INF)==0,"input-modified","the coloured output was modified"); SIM_CHECK(r.size()==o.size()&&r.type()==CV_8UC3,"colour-mask","coloured mask of another size or type"); int D=(int)std::ceil(0.0075*std::sqrt((double)(h*h+w*w))); for(int y=0;y<h;y++) for(int x=0;x<w;x++){ int tp=0,fp=0,fn=0; for(int k=0;k<im.n;k++){ bool ng=false,no=false; for(int v=std::max(0,y-D);v<=std::min(h-1,y+D);v++) for(int u=std::max(0,x-D);u<=std::min(w-1,x+D);u++){ ng|=im.gt.at<uchar>(k*h+v,u)!=0; no|=im.out.at<uchar>(v,u)!=0; } if(im.out.at<uchar>(y,x)) (ng?tp:fp)++; else if(im.gt.at<uchar>(k*h+y,x)&&!no) fn++; }
        cv::Vec3b p=r.at<cv::Vec3b>(y,x); auto ok=[&](int v,int c){ return std::abs(v-255.0*c/im.n)<=1; }; SIM_CHECK(ok(p[1],tp)&&ok(p[0],fn)&&ok(p[2],std::max(fp,fn)),"colour-mask","pixel %d,%d is coloured %d/%d/%d with %d matched, %d wrong, %d missed of %d ground truths",x,y,p[0],p[1],p[2],tp,fp,fn,im.n); } if(sim::gen_bool()){ cv::Mat n=Acc::getColoredMask(o,cv::Mat(),cv::Mat()); SIM_CHECK(n.type()==CV_8UC3&&n.size()==o.size(),"colour-mask","coloured mask without ground truth"); } }
extern "C" size_t sim_cache_min_value;
namespace {
std::string slurp(const std::string& p){ std::string s; SIM_CHECK(sim::vfs::get(p,s),"report-missing","the report %s was not written",p.c_str()); return s; }
std::vector<std::vector<double>> table(const std::string& s){ std::vector<std::vector<double>> v; std::istringstream in(s); std::string l; while(std::getline(in,l)){ std::istringstream k(l); std::vector<double> r; double d; while(k>>d) r.push_back(d); v.push_back(r); } return v; }
std::vector<double> cells(const std::string& l){ std::vector<double> r; std::string t=l.substr(l.find("||")==std::string::npos?l.size():l.find("||")); for(auto& c:t) if(c=='|') c=' '; std::istringstream k(t); double d; while(k>>d) r.push_back(d); return r; }
}
// whole evaluations of a dataset: outputs of all batches pushed by one or several threads, the reports are those of the pushed outputs
SIM_HARNESS("P26",reports){ start(); sim_cache_min_value=1; sim::enable(sim::K_DIRORDER,0.5); const std::string R="/simfs/data/BSDS500/"; double sc=0.04+0.01*sim::gen(4); static const char* const nm[3]={"train","val","test"}; int ns=1+(int)sim::gen_rare(3,1,2); sim::vfs::mkdirs(R+"BSR"); struct Set { std::vector<Img> im; }; std::vector<Set> sets(ns); bool skip=sim::gen_rare(2,1,4)!=0;
    for(int s=0;s<ns;s++){ std::string d=R+"data/images/"+nm[s]+"/",g=R+"data/groundTruth_bdry_images/"+nm[s]+"/"; int nf=1+(int)sim::gen_rare(3,1,2); for(int i=0;i<nf;i++){ bool tall=sim::gen_bool(); int h=tall?481:321,w=tall?321:481; sim::Quiet q; cv::Size z(int(w*sc),int(h*sc)); Img im=image(z.height,z.width,99); cv::Mat in(h,w,CV_8UC3,cv::Scalar(9,40*i,90)); auto put=[&](const std::string& p,const cv::Mat& m){ std::vector<uchar> b; cv::imencode(".png",m,b,{cv::IMWRITE_PNG_COMPRESSION,1}); sim::vfs::put(p,std::string((char*)b.data(),b.size())); }; char id[16]; snprintf(id,sizeof id,"%d",1000+i*37); put(d+id+".jpg",in); cv::Mat all; for(int k=0;k<im.n;k++){ cv::Mat big(h,w,CV_8UC1,cv::Scalar(0)),sm; cv::resize(cv::Mat(im.gt,cv::Rect(0,k*z.height,z.width,z.height)),big,cv::Size(w,h),0,0,cv::INTER_NEAREST); put(g+id+"/g"+std::to_string(k)+".png",big); cv::resize(big,sm,z,0,0,cv::INTER_NEAREST); all.push_back(sm); } im.gt=all; sets[s].im.push_back(im); } }
    auto ds=DsBs::create("out",sim::gen_bool(),true,sc,ns==1?lv::BSDS500Dataset_Training:ns==2?lv::BSDS500Dataset_Training_Validation:lv::BSDS500Dataset_Training_Validation_Test); std::vector<DsBs::WorkBatch*> w; for(auto& p:ds->getBatches(false)) w.push_back(dynamic_cast<DsBs::WorkBatch*>(p.get())); SIM_CHECK((int)w.size()==ns,"batch-count","%zu batches",w.size()); std::vector<Set*> st; for(auto* b:w){ Set* x=nullptr; for(int s=0;s<ns;s++) if(b->getRelativePath()==std::string(nm[s])+"/") x=&sets[s]; SIM_CHECK(x,"batch-unknown","%s",b->getRelativePath().c_str()); st.push_back(x); } std::vector<char> done(ns,1); if(skip&&ns>1) done[sim::gen(ns)]=0;
    auto work=[&](int i){ if(!done[i]) return; auto& b=*w[i]; b.startProcessing(); for(size_t k=0;k<st[i]->im.size();k++){ cv::Mat o; { sim::Quiet q; o=st[i]->im[k].out.clone(); } b.push(o,k); } b.stopProcessing(); b.writeEvalReport(); }; bool par=sim::gen_bool(); if(par){ std::vector<std::thread> t; for(int i=0;i<ns;i++) t.emplace_back(work,i); for(auto& x:t) x.join(); sim::probe("bsds:parallel-batches"); } else for(int i=0;i<ns;i++) work(i); ds->writeEvalReport(); if(sim::gen_rare(2,1,4)) ds->writeEvalReport();
    auto th=thresholds(99); auto expect=[&](const std::vector<const Img*>& v,std::vector<lv::BSDS500Counters>& lo,std::vector<lv::BSDS500Counters>& hi){ for(auto* p:v){ lv::BSDS500Counters a(99),b(99); std::map<int,Ref> memo; std::set<uchar> u(p->out.begin<uchar>(),p->out.end<uchar>()); for(int t=0;t<99;t++){ auto it=u.lower_bound(th[t]); int key=it==u.end()?256:*it; if(!memo.count(key)) memo[key]=reference(*p,th[t]); Ref r=memo[key]; a.vnIndivTPFN[t]=b.vnIndivTPFN[t]=r.tpfn; a.vnTotalTPFP[t]=b.vnTotalTPFP[t]=r.tpfp; a.vnIndivTP[t]=r.ind.lo; b.vnIndivTP[t]=r.ind.hi; a.vnTotalTP[t]=r.tot.lo; b.vnTotalTP[t]=r.tot.hi; } lo.push_back(a); hi.push_back(b); } }; auto same=[&](const std::vector<lv::BSDS500Counters>& a,const std::vector<lv::BSDS500Counters>& b){ for(size_t i=0;i<a.size();i++) if(!lv::BSDS500Counters::isEqual(a[i],b[i])) return false; return true; }; const double E=2e-5; auto in=[&](double v,double a,double b){ return v>=a-E&&v<=b+E; };
    std::vector<const Img*> every; for(int i=0;i<ns;i++){ std::string p=R+"BSR/out/"+w[i]->getName()+"_reimpl_eval/"; if(!done[i]){ SIM_CHECK(!sim::vfs::exists(p+"eval_bdry.txt"),"report-extra","batch %s has a report although nothing was evaluated",w[i]->getName().c_str()); continue; } std::vector<const Img*> v; for(auto& x:st[i]->im){ v.push_back(&x); every.push_back(&x); } std::vector<lv::BSDS500Counters> lo,hi; sim::Quiet q; expect(v,lo,hi); auto T=table(slurp(p+"eval_bdry_thr.txt")),I=table(slurp(p+"eval_bdry_img.txt")),O=table(slurp(p+"eval_bdry.txt")); SIM_CHECK(T.size()==99&&I.size()==v.size()&&O.size()==1&&O[0].size()==8,"report-shape","report of %s: %zu thresholds, %zu images, %zu overall lines",w[i]->getName().c_str(),T.size(),I.size(),O.size()); std::vector<Score> sc; for(int t=0;t<99;t++){ Score a=score(lo,t),b=score(hi,t); SIM_CHECK(T[t].size()==4&&in(T[t][0],a.dThreshold,a.dThreshold)&&in(T[t][1],a.dRecall,b.dRecall)&&in(T[t][2],a.dPrecision,b.dPrecision)&&in(T[t][3],fm(T[t][1],T[t][2])-E,fm(T[t][1],T[t][2])+E),"report-wrong","report of %s, threshold %d: recall %g precision %g, expected %g-%g and %g-%g",w[i]->getName().c_str(),t,T[t][1],T[t][2],a.dRecall,b.dRecall,a.dPrecision,b.dPrecision); Score k={T[t][0],T[t][1],T[t][2],T[t][3]}; sc.push_back(k); }
        Score best={O[0][0],O[0][1],O[0][2],O[0][3]}; check_best(best,sc,"report",1e-4); SIM_CHECK(std::fabs(O[0][6]-fm(O[0][4],O[0][5]))<1e-4,"report-wrong","report of %s: inconsistent overall scores",w[i]->getName().c_str()); if(same(lo,hi)){ for(size_t k=0;k<v.size();k++){ std::vector<Score> is; for(int t=0;t<99;t++) is.push_back(score({lo[k]},t)); SIM_CHECK(I[k].size()==5&&I[k][0]==(double)k+1,"report-wrong","image line %zu",k); Score s={I[k][1],I[k][2],I[k][3],I[k][4]}; check_best(s,is,"image line of a report",1e-4); } double a,b; std::vector<Score> ex; for(int t=0;t<99;t++) ex.push_back(score(lo,t)); area(ex,a,b); SIM_CHECK(in(O[0][7],a,b),"report-wrong","report of %s: area %g, expected %g to %g",w[i]->getName().c_str(),O[0][7],a,b); sim::probe("bsds:report-exact"); } }
    if(every.empty()) return; sim::Quiet q; std::string o=slurp(R+"BSR/out/overall_reimpl_eval.txt"); size_t k=o.find("     overall||"); SIM_CHECK(k!=std::string::npos,"report-shape","no overall line"); auto c=cells(o.substr(k,o.find('\n',k)-k)); SIM_CHECK(c.size()==7,"report-shape","overall line with %zu numbers",c.size()); std::vector<lv::BSDS500Counters> lo,hi; expect(every,lo,hi); SIM_CHECK(std::fabs(c[2]-fm(c[0],c[1]))<1e-4&&std::fabs(c[5]-fm(c[3],c[4]))<1e-4,"report-wrong","inconsistent overall line"); if(same(lo,hi)){ std::vector<Score> ex; for(int t=0;t<99;t++) ex.push_back(score(lo,t)); Score b={c[6],c[3],c[4],c[5]}; check_best(b,ex,"overall line",1e-4); std::vector<lv::BSDS500Counters> mx; for(auto& x:lo){ size_t m=0; for(int t=1;t<99;t++) if(score({x},t).dFMeasure>score({x},m).dFMeasure) m=t; lv::BSDS500Counters z(1); z.vnIndivTP[0]=x.vnIndivTP[m]; z.vnIndivTPFN[0]=x.vnIndivTPFN[m]; z.vnTotalTP[0]=x.vnTotalTP[m]; z.vnTotalTPFP[0]=x.vnTotalTPFP[m]; mx.push_back(z); } Score m=score(mx,0); SIM_CHECK(in(c[0],m.dRecall,m.dRecall)&&in(c[1],m.dPrecision,m.dPrecision),"report-wrong","overall line: scores at best thresholds (%g %g), expected (%g %g)",c[0],c[1],m.dRecall,m.dPrecision); sim::probe("bsds:overall-exact"); } }
