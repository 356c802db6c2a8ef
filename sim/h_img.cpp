// P14: parallel image operations, any team size, any schedule, concurrent callers.
#include "sim.hpp"
#include "litiv/imgproc.hpp"
#include <thread>
#include <memory>
#include <numeric>
static const bool fair_cap_set=(sim::set_fair_cap(600000000ull),true); // pure computing: long but finite
namespace {
uint32_t mix(uint32_t a){ a^=a>>16; a*=0x7feb352dU; a^=a>>15; a*=0x846ca68bU; a^=a>>16; return a; }
enum Op { MEDIAN, BMEDIAN, BMEDIAN_MASK, CONSENSUS, IMG_SSD, IMG_MI, DESC_L2, DESC_EMD, INTEGRAL, BINTEGRAL, GMMS, THIN, NMS, HIST, MEDVAL, TDIFF, REMAPO, PINTEGRAL, NOPS };
const char* const OPN[]={"medianBlur","binaryMedianBlur","binaryMedianBlur(mask)","binaryConsensus","computeImageAffinity(SSD)","computeImageAffinity(MI)","computeDescriptorAffinity(L2)","computeDescriptorAffinity(EMD)","integral(mask)","binaryIntegral","GMM init/assign/learn","thinning","nonMaxSuppression","calcHistCounts","calcMedianValue","computeTemporalAbsDiff","remap_offset","integral"};
struct Job { int op=0,rows=0,cols=0,k=3,dval=0,outmode=0,alt=0; uint32_t salt=0; bool conv=false,bad=false; cv::Mat in1,in2,flow,out; cv::Mat_<uchar> m1,m2; cv::Mat_<int> cnt; cv::Mat_<float> d1,d2,cost,aff; std::vector<int> disp; };
struct Res { cv::Mat m; bool threw=false; };
void fillu(cv::Mat& m,uint32_t salt,int mode){ sim::Quiet q; for(size_t i=0;i<m.total()*m.elemSize();i++){ uint32_t h=mix(salt*2654435761u+(uint32_t)i); m.data[i]=(uchar)(mode==0?h:mode==1?(h%3?0:1):mode==2?(h%5?255:0):mode==3?h%4*40:(h&1?0:h)); } }
void descs(cv::Mat_<float>& d,int r,int c,int n,uint32_t salt){ int s[3]={r,c,n}; d.create(3,s); sim::Quiet q; for(int i=0;i<r*c;i++){ float* p=((float*)d.data)+(size_t)i*n; float t=0; for(int k=0;k<n;k++){ p[k]=(float)(1+mix(salt*77777u+i*31+k)%97); t+=p[k]; } for(int k=0;k<n;k++) p[k]/=t; } }
Job gen_job(int op){ Job j; j.op=op; j.salt=sim::gen(100000); bool big=op<=CONSENSUS||op>=INTEGRAL; int lo=op==THIN?4:(op==IMG_SSD||op==IMG_MI)?3:1; j.rows=lo+(int)sim::gen(big?14:6); j.cols=lo+(int)sim::gen(big?14:9); j.k=3+2*(int)sim::gen_rare(3,1,2); j.outmode=(int)sim::gen(3); j.conv=sim::gen_bool(); j.dval=sim::gen_bool()?0:123; j.alt=(int)sim::gen(3);
    cv::Size z(j.cols,j.rows); if(op!=DESC_L2&&op!=DESC_EMD){ j.in1.create(z,op==GMMS?CV_8UC3:(op==HIST||op==MEDVAL)&&j.dval?CV_16UC1:(op==TDIFF||op==REMAPO)&&j.conv?CV_8UC3:op==PINTEGRAL&&j.alt==2?CV_8UC3:op==NMS&&j.dval?(j.conv?CV_16SC1:CV_32FC1):CV_8UC1); int mode=(op==BMEDIAN||op==CONSENSUS||op==BINTEGRAL)?(j.conv?2+(int)sim::gen(3):1):op==THIN?2:op==IMG_MI?(sim::gen_bool()?3:0):op==NMS?(sim::gen_bool()?3:0):0; if(j.in1.depth()==CV_16S||j.in1.depth()==CV_32F){ int range=sim::gen_bool()?5:400,off=(int)sim::gen(3); sim::Quiet q; for(int y=0;y<j.rows;y++) for(int x=0;x<j.cols;x++){ int v=(int)(mix(j.salt+y*977+x*13)%range)-(off==0?0:off==1?range/2:range+3); if(j.in1.depth()==CV_16S) j.in1.at<short>(y,x)=(short)v; else j.in1.at<float>(y,x)=(float)v*0.25f; } } else fillu(j.in1,j.salt,mode);
        if(op==NMS&&sim::gen_rare(2,1,3)){ sim::Quiet q; cv::Mat big(j.rows+2,j.cols+3,j.in1.type(),cv::Scalar::all(250)); j.in1.copyTo(big(cv::Rect(1,1,j.cols,j.rows))); j.in1=big(cv::Rect(1,1,j.cols,j.rows)); } }
    if(op==TDIFF||op==REMAPO){ if(op==TDIFF){ j.in2.create(z,j.in1.type()); fillu(j.in2,j.salt+4,0); j.k=(int[]){0,1,3,5}[sim::gen(4)]; } j.flow.create(z,CV_32FC2); int kind=(int)sim::gen(3); sim::Quiet q; for(int y=0;y<j.rows;y++) for(int x=0;x<j.cols;x++) for(int c=0;c<2;c++){ uint32_t h=mix(j.salt+y*131+x*17+c); float v=(float)((int)(h%(kind==2?60:7))-(kind==2?30:3)); if(op==TDIFF&&kind!=1&&(h&256)) v+=(float)((h>>10)%4)*0.25f; j.flow.at<cv::Vec2f>(y,x)[c]=v; } }
    bool mask=op==MEDIAN?j.alt!=2:op==BMEDIAN_MASK||op==GMMS?true:op==INTEGRAL||op==BINTEGRAL||op==NMS||op==HIST||op==MEDVAL?j.alt!=0:(op==IMG_SSD||op==IMG_MI||op==DESC_L2||op==DESC_EMD)?j.alt>0:false;
    if(mask){ j.m1.create(j.rows,j.cols); cv::Mat m=j.m1; fillu(m,j.salt+1,sim::gen_bool()?2:1); if(op==MEDVAL){ if(sim::gen_rare(2,1,5)){ sim::Quiet q; m=cv::Scalar(0); j.bad=true; } sim::Quiet q; if(!j.bad&&cv::countNonZero(m)==0) m.at<uchar>(j.rows/2,0)=1; } if(op==NMS&&sim::gen_rare(2,1,3)){ sim::Quiet q; m(cv::Rect(0,0,std::min(4,j.cols),std::min(4,j.rows)))=cv::Scalar(0); } }
    if(op==CONSENSUS){ j.cnt.create(j.rows,j.cols); sim::Quiet q; for(int i=0;i<j.rows*j.cols;i++) ((int*)j.cnt.data)[i]=(int)(mix(j.salt+i*7)%(j.k*j.k+2)); }
    if(op==IMG_SSD||op==IMG_MI){ j.in2.create(z,CV_8UC1); fillu(j.in2,j.salt+5,op==IMG_MI?3:0); j.k=1+2*(int)sim::gen(2); }
    if(op==DESC_L2||op==DESC_EMD){ int n=2+(int)sim::gen(5); descs(j.d1,j.rows,j.cols,n,j.salt); descs(j.d2,j.rows,j.cols,n,j.salt+9); j.k=1+2*(int)sim::gen(3); if(op==DESC_EMD){ j.cost.create(n,n); for(int a=0;a<n;a++) for(int b=0;b<n;b++) j.cost(a,b)=(float)std::abs(a-b); } }
    if(op>=IMG_SSD&&op<=DESC_EMD){ if(j.alt==2){ j.m2.create(j.rows,j.cols); cv::Mat m=j.m2; fillu(m,j.salt+2,2); } int nd=1+(int)sim::gen(5); for(int i=0;i<nd;i++) j.disp.push_back((int)sim::gen(9)-4); }
    return j; }
void prep(Job& j,const cv::Mat& last){ sim::Quiet q; j.out=cv::Mat(); j.aff=cv::Mat_<float>(); if(j.outmode==0) return; if(j.op>=GMMS&&!last.empty()){ j.out=last; return; }

    if(j.op>=IMG_SSD&&j.op<=DESC_EMD){ int s[3]={j.rows,j.cols,(int)j.disp.size()}; if(j.op<=IMG_MI){ s[0]-=j.k/2*2; s[1]-=j.k/2*2; } if(j.outmode==2) s[2]++; if(s[0]>0&&s[1]>0){ j.aff.create(3,s); j.aff=77.f; } }
    else if(j.op<=CONSENSUS){ j.out.create(j.rows,j.cols,CV_8UC1); j.out=cv::Scalar(j.outmode*31); }
    else if(j.op==INTEGRAL||j.op==BINTEGRAL){ j.out.create(j.rows+1,j.cols+(j.outmode==2),CV_32SC1); j.out=cv::Scalar(9); }
    if(!last.empty()&&!j.out.empty()&&last.dims==2&&last.size()==j.out.size()&&last.type()==j.out.type()) j.out=last; if(!last.empty()&&!j.aff.empty()&&last.dims==3&&last.type()==CV_32FC1&&last.isContinuous()) j.aff=last; }
Res run(Job& j,cv::Mat& last){ Res r; prep(j,last); try{ switch(j.op){
    case MEDIAN: lv::medianBlur(j.in1,j.out,j.m1,j.k,(uchar)j.dval); r.m=j.out; break;
    case BMEDIAN: lv::binaryMedianBlur(j.in1,j.out,cv::Mat(),j.k,j.conv,(uchar)j.dval); r.m=j.out; break;
    case BMEDIAN_MASK: lv::binaryMedianBlur(j.in1,j.out,j.m1,j.k,j.conv,(uchar)j.dval); r.m=j.out; break;
    case CONSENSUS: lv::binaryConsensus(j.in1,j.out,j.cnt,j.k,j.conv); r.m=j.out; break;
    case IMG_SSD: case IMG_MI: lv::computeImageAffinity(j.in1,j.in2,j.k,j.aff,j.disp,j.op==IMG_SSD?lv::AffinityDist_SSD:lv::AffinityDist_MI,j.m1,j.m2); r.m=j.aff; break;
    case DESC_L2: case DESC_EMD: lv::computeDescriptorAffinity(j.d1,j.d2,j.k,j.aff,j.disp,j.op==DESC_L2?lv::AffinityDist_L2:lv::AffinityDist_EMD,j.m1,j.m2,j.cost,false); r.m=j.aff; break;
    case INTEGRAL: lv::integral(j.in1,j.out,j.m1,CV_32S); r.m=j.out; break;
    case BINTEGRAL: lv::binaryIntegral(j.in1,j.out,j.m1,CV_32S,j.conv); r.m=j.out; break;
    case GMMS: { cv::theRNG().state=j.salt+1; lv::GMM<2,3> bg,fg; lv::initGaussianMixtureParams(j.in1,j.m1,bg,fg); cv::Mat a(j.in1.size(),CV_32SC1,cv::Scalar(0)); lv::assignGaussianMixtureComponents(j.in1,j.m1,a,bg,fg); lv::learnGaussianMixtureParams(j.in1,j.m1,a,bg,fg); size_t n=bg.getModelSize(); cv::Mat o(1,(int)(2*n*8+a.total()*4),CV_8UC1); sim::Quiet q; memcpy(o.data,bg.getModelData(),n*8); memcpy(o.data+n*8,fg.getModelData(),n*8); memcpy(o.data+n*16,a.data,a.total()*4); r.m=o; break; }
    case THIN: lv::thinning(j.in1,j.out,j.alt==1?lv::ThinningMode_ZhangSuen:lv::ThinningMode_LamLeeSuen); r.m=j.out; break;
    case NMS: if(j.k==3) lv::nonMaxSuppression<1>(j.in1,j.out,j.m1); else if(j.k==5) lv::nonMaxSuppression<2>(j.in1,j.out,j.m1); else lv::nonMaxSuppression<3>(j.in1,j.out,j.m1); r.m=j.out; break;
    case HIST: { int n=-1; auto v=lv::calcHistCounts(j.in1,j.m1,&n); sim::Quiet q; v.push_back(n); r.m=cv::Mat(v).clone(); break; }
    case MEDVAL: { std::vector<int> h; int n=lv::calcMedianValue(j.in1,j.m1,j.conv?&h:nullptr); sim::Quiet q; h.push_back(n); r.m=cv::Mat(h).clone(); break; }
    case TDIFF: lv::computeTemporalAbsDiff(j.in1,j.in2,j.flow,j.out,j.k); r.m=j.out; break;
    case REMAPO: lv::remap_offset(j.in1,j.out,j.flow,j.alt==0?cv::INTER_LINEAR:cv::INTER_NEAREST,j.alt==2?cv::BORDER_REPLICATE:cv::BORDER_CONSTANT,cv::Scalar::all(j.dval)); r.m=j.out; break;
    case PINTEGRAL: lv::integral(j.in1,j.out,j.dval?CV_32F:CV_32S); r.m=j.out; break;
    } }catch(const std::exception&){ r.threw=true; } 
    sim::Quiet q; if(j.op!=GMMS&&j.op!=HIST&&j.op!=MEDVAL) last=r.m; if(!r.m.empty()) r.m=r.m.clone(); return r; }
// independent definitions (double precision, straightforward loops)
bool reference(const Job& j,cv::Mat& e,double& tol){ sim::Quiet q; int R=j.rows,C=j.cols,o=j.k/2; tol=0; auto on=[&](int y,int x){ return j.in1.at<uchar>(y,x)!=0; };
    auto msk=[&](const cv::Mat_<uchar>& m,int y,int x){ return m.empty()||m(y,x)!=0; };
    if(j.op<=CONSENSUS){ if(j.op==MEDIAN&&j.m1.empty()) return false; e.create(R,C,CV_8UC1); for(int y=0;y<R;y++) for(int x=0;x<C;x++){ std::vector<int> v; int pos=0; for(int b=std::max(0,y-o);b<=std::min(R-1,y+o);b++) for(int a=std::max(0,x-o);a<=std::min(C-1,x+o);a++) if(msk(j.m1,b,a)){ v.push_back(j.in1.at<uchar>(b,a)); pos+=on(b,a); }
            int r; if(j.op==CONSENSUS) r=pos>=j.cnt(y,x)?255:0; else if(v.empty()) r=j.dval; else if(j.op==MEDIAN){ std::sort(v.begin(),v.end()); r=v[(v.size()-1)/2]; } else r=pos>(int)v.size()/2?255:0; e.at<uchar>(y,x)=(uchar)r; } return true; }
    if(j.op==INTEGRAL||j.op==BINTEGRAL){ e.create(R+1,C+1,CV_32SC1); e=cv::Scalar(0); for(int y=0;y<R;y++) for(int x=0;x<C;x++){ int v=msk(j.m1,y,x)?j.in1.at<uchar>(y,x):0; if(j.op==BINTEGRAL&&j.conv) v=v!=0; e.at<int>(y+1,x+1)=v+e.at<int>(y,x+1)+e.at<int>(y+1,x)-e.at<int>(y,x); } return true; }
    if(j.op==IMG_SSD||j.op==IMG_MI){ int s[3]={R-2*o,C-2*o,(int)j.disp.size()}; if(s[0]<1||s[1]<1) return false; e.create(3,s,CV_32FC1); tol=1e-4; for(int y=o;y<R-o;y++) for(int x=o;x<C-o;x++) for(size_t d=0;d<j.disp.size();d++){ int x2=x+j.disp[d]; float& r=e.at<float>(y-o,x-o,(int)d); r=-1; if(x2<o||x2>=C-o||!msk(j.m1,y,x)||!msk(j.m2,y,x2)) continue;
            double acc=0,n=0; std::map<int,double> ha,hb; std::map<std::pair<int,int>,double> hj; for(int b=-o;b<=o;b++) for(int a=-o;a<=o;a++){ int u=j.in1.at<uchar>(y+b,x+a),v=j.in2.at<uchar>(y+b,x2+a); acc+=(double)(u-v)*(u-v); n++; ha[u]++; hb[v]++; hj[{u,v}]++; }
            if(j.op==IMG_SSD) r=(float)std::sqrt(acc); else { double mi=0,ea=0,eb=0; for(auto& p:hj) mi+=p.second/n*std::log2(p.second/n/(ha[p.first.first]/n)/(hb[p.first.second]/n)); for(auto& p:ha) ea-=p.second/n*std::log2(p.second/n); for(auto& p:hb) eb-=p.second/n*std::log2(p.second/n); if(ea>0&&eb>0) mi/=std::sqrt(ea*eb); r=std::max(0.f,(float)(1-mi)); } } return true; }
    if(j.op==DESC_L2||j.op==DESC_EMD){ int s[3]={R,C,(int)j.disp.size()}; cv::Mat raw(3,s,CV_32FC1); e.create(3,s,CV_32FC1); tol=2e-5; int n=j.d1.size[2]; for(int y=0;y<R;y++) for(int x=0;x<C;x++) for(int d=0;d<s[2];d++){ int x2=x+j.disp[d]; float& r=raw.at<float>(y,x,d); r=-1; if(x2<0||x2>=C||!msk(j.m1,y,x)||!msk(j.m2,y,x2)) continue; const float* a=(const float*)j.d1.data+((size_t)y*C+x)*n; const float* b=(const float*)j.d2.data+((size_t)y*C+x2)*n;
            double acc=0; if(j.op==DESC_L2){ for(int k=0;k<n;k++) acc+=(double)(a[k]-b[k])*(a[k]-b[k]); r=(float)std::sqrt(acc); } else { double cum=0,ta=0,tb=0; for(int k=0;k<n;k++){ cum+=a[k]-b[k]; acc+=std::fabs(cum); ta+=a[k]; tb+=b[k]; } r=(float)(acc); } }
        if(j.op==DESC_EMD) tol=1e-3;
        for(int y=0;y<R;y++) for(int x=0;x<C;x++) for(int d=0;d<s[2];d++){ double t=0; int c=0; for(int b=std::max(0,y-o);b<=std::min(R-1,y+o);b++) for(int a=std::max(0,x-o);a<=std::min(C-1,x+o);a++){ float v=raw.at<float>(b,a,d); if(v>=0){ t+=v; c++; } } e.at<float>(y,x,d)=c?(float)(t/c):-1.f; } return true; }
    if(j.op==HIST||j.op==MEDVAL){ bool s=j.in1.type()==CV_16UC1; std::vector<int> h(s?65536:256,0); int n=0; std::vector<int> v; for(int y=0;y<R;y++) for(int x=0;x<C;x++) if(msk(j.m1,y,x)){ int p=s?j.in1.at<ushort>(y,x):j.in1.at<uchar>(y,x); h[p]++; n++; v.push_back(p); } std::sort(v.begin(),v.end()); if(j.op==HIST) h.push_back(n); else { if(!j.conv) h.clear(); h.push_back(v[v.size()/2]); } e=cv::Mat(h).clone(); return true; }
    if(j.op==TDIFF){ int n=j.in1.channels(); e.create(R,C,CV_32FC(n)); tol=1e-4; auto px=[&](int y,int x,int c){ y=std::min(R-1,std::max(0,y)); x=std::min(C-1,std::max(0,x)); return (double)j.in2.ptr(y)[x*n+c]; }; for(int y=0;y<R;y++) for(int x=0;x<C;x++) for(int c=0;c<n;c++){ cv::Vec2f f=j.flow.at<cv::Vec2f>(y,x); double u=x+f[0],v=y+f[1],fx=std::floor(u),fy=std::floor(v),a=u-fx,b=v-fy; int X=(int)fx,Y=(int)fy; double w=(px(Y,X,c)*(1-a)+px(Y,X+1,c)*a)*(1-b)+(px(Y+1,X,c)*(1-a)+px(Y+1,X+1,c)*a)*b; e.ptr<float>(y)[x*n+c]=(float)std::fabs(j.in1.ptr(y)[x*n+c]-w); } if(j.k>1) cv::GaussianBlur(e,e,cv::Size(j.k,j.k),0); return true; }
    if(j.op==REMAPO){ int n=j.in1.channels(); e.create(R,C,j.in1.type()); for(int y=0;y<R;y++) for(int x=0;x<C;x++) for(int c=0;c<n;c++){ cv::Vec2f f=j.flow.at<cv::Vec2f>(y,x); int X=x-(int)f[0],Y=y-(int)f[1]; bool out=X<0||Y<0||X>=C||Y>=R; if(out&&j.alt==2){ X=std::min(C-1,std::max(0,X)); Y=std::min(R-1,std::max(0,Y)); out=false; } e.ptr(y)[x*n+c]=out?(uchar)j.dval:j.in1.ptr(Y)[X*n+c]; } return true; }
    if(j.op==PINTEGRAL){ int n=j.in1.channels(); e.create(R+1,C+1,CV_MAKETYPE(j.dval?CV_32F:CV_32S,n)); e=cv::Scalar::all(0); for(int y=0;y<R;y++) for(int c=0;c<n;c++){ int row=0; for(int x=0;x<C;x++){ row+=j.in1.ptr(y)[x*n+c]; if(j.dval) e.ptr<float>(y+1)[(x+1)*n+c]=row+e.ptr<float>(y)[(x+1)*n+c]; else e.ptr<int>(y+1)[(x+1)*n+c]=row+e.ptr<int>(y)[(x+1)*n+c]; } } return true; }
    if(j.op==THIN){ e=j.in1.clone(); cv::Mat p; static const int dy[8]={1,1,0,-1,-1,-1,0,1},dx[8]={0,-1,-1,-1,0,1,1,1}; do{ p=e.clone(); for(int it=0;it<2;it++){ cv::Mat src=j.alt==1?e.clone():e; for(int y=1;y<R-1;y++) for(int x=1;x<C-1;x++){ if(!src.at<uchar>(y,x)) continue; bool v[9]; for(int k=0;k<8;k++) v[k]=src.at<uchar>(y+dy[k],x+dx[k])!=0; v[8]=v[0];
                if(j.alt==1){ int A=0,B=0; for(int k=0;k<8;k++){ B+=v[k]; A+=v[k]!=v[k+1]; } bool s=v[0],w=v[2],nn=v[4],ea=v[6]; bool m1=it?nn&&ea&&w:nn&&ea&&s,m2=it?nn&&s&&w:ea&&s&&w; if(A==2&&B>=2&&B<=6&&!m1&&!m2) e.at<uchar>(y,x)=0; }
                else { int h=0,n1=0,n2=0; for(int k=0;k<8;k+=2){ h+=!v[k]&&(v[k+1]||v[k+2]); n1+=v[k]||v[k+1]; n2+=v[k+1]||v[k+2]; } int m=std::min(n1,n2); bool g=it?(v[5]||v[6]||!v[3])&&v[4]:(v[1]||v[2]||!v[7])&&v[0]; if(h==1&&m>=2&&m<=3&&!g) e.at<uchar>(y,x)=0; } } } }while(cv::norm(p,e,cv::NORM_INF)!=0); return true; }
    return false; }
// every block has at most one maximum, and has it exactly if (one of) its largest value(s) is above everything else around it
void check_nms(const Job& j,const cv::Mat& m,const char* how){ sim::Quiet q; int R=j.rows,C=j.cols,w=j.k/2; SIM_CHECK(m.type()==CV_8UC1&&m.rows==R&&m.cols==C,"result-wrong","nonMaxSuppression (%s) has the wrong type or size",how); auto in=[&](int y,int x){ return j.in1.depth()==CV_8U?(double)j.in1.at<uchar>(y,x):j.in1.depth()==CV_16S?(double)j.in1.at<short>(y,x):(double)j.in1.at<float>(y,x); }; auto ms=[&](int y,int x){ return j.m1.empty()||j.m1(y,x); };
    for(int y=0;y<R;y+=w+1) for(int x=0;x<C;x+=w+1){ int y1=std::min(R,y+w+1),x1=std::min(C,x+w+1); double best=-1e9; bool any=false; for(int b=y;b<y1;b++) for(int a=x;a<x1;a++) if(ms(b,a)){ any=true; best=std::max(best,in(b,a)); } int marks=0,good=0,ties=0; for(int b=y;b<y1;b++) for(int a=x;a<x1;a++){ uchar v=m.at<uchar>(b,a); bool ok=false; if(ms(b,a)&&in(b,a)==best){ ties++; double o=0; bool oa=false; for(int d=std::max(0,b-w);d<=std::min(R-1,b+w);d++) for(int c=std::max(0,a-w);c<=std::min(C-1,a+w);c++) if((d<y||d>=y1||c<x||c>=x1)&&ms(d,c)){ o=oa?std::max(o,in(d,c)):in(d,c); oa=true; } ok=best>o||(!oa&&v); good+=ok; } SIM_CHECK(v==0||(v==255&&ok),"result-wrong","nonMaxSuppression (%s) marked (%d,%d) of %dx%d, window %d, which is no maximum",how,a,b,C,R,w); marks+=v!=0; }
        SIM_CHECK(marks<=1&&!(marks==0&&any&&ties==good&&good>0),"result-wrong","nonMaxSuppression (%s): %d maxima in the block at (%d,%d) of %dx%d, window %d",how,marks,x,y,C,R,w); } }
bool bits_equal(const Res& a,const Res& b,std::string& why){ sim::Quiet q; if(a.threw!=b.threw){ why=a.threw?"raised an error":"raised no error"; return false; } if(a.threw) return true; if(a.m.type()!=b.m.type()||a.m.dims!=b.m.dims||a.m.total()!=b.m.total()){ why="different type or size"; return false; } for(int i=0;i<a.m.dims;i++) if(a.m.size[i]!=b.m.size[i]){ why="different size"; return false; } size_t n=a.m.total()*a.m.elemSize(); for(size_t i=0;i<n;i++) if(a.m.data[i]!=b.m.data[i]){ size_t p=i/a.m.elemSize(); char s[100]; snprintf(s,sizeof s,"element %zu of %zu differs",p,a.m.total()); why=s; return false; } return true; }
void check_ref(const Job& j,const Res& r,const char* how){ if(r.threw) return; if(j.op==NMS){ check_nms(j,r.m,how); return; } cv::Mat e; double tol; if(!reference(j,e,tol)) return; sim::Quiet q; bool ok=e.type()==r.m.type()&&e.dims==r.m.dims&&e.total()==r.m.total(); for(int i=0;ok&&i<e.dims;i++) ok=e.size[i]==r.m.size[i]; SIM_CHECK(ok,"result-wrong","%s (%s) has the wrong type or size",OPN[j.op],how);
    for(size_t i=0;i<e.total()*e.channels();i++){ double a,b; if(e.depth()==CV_8U){ a=e.data[i]; b=r.m.data[i]; } else if(e.depth()==CV_32S){ a=((int*)e.data)[i]; b=((int*)r.m.data)[i]; } else { a=((float*)e.data)[i]; b=((float*)r.m.data)[i]; } SIM_CHECK(std::fabs(a-b)<=tol*std::max(1.0,std::fabs(a)),"result-wrong","%s (%s), %dx%d, kernel %d, %zu disparities: element %zu of %zu is %.9g, its definition gives %.9g",OPN[j.op],how,j.rows,j.cols,j.k,j.disp.size(),i,e.total(),b,a); } }
uint64_t digest(const Job& j){ sim::Quiet q; uint64_t h=1469598103934665603ull; auto add=[&](const cv::Mat& m_){ cv::Mat m=m_.isContinuous()?m_:m_.clone(); for(size_t i=0;i<m.total()*m.elemSize();i++) h=(h^m.data[i])*1099511628211ull; }; if(!j.in1.empty()) add(j.in1); if(!j.in2.empty()) add(j.in2); if(!j.m1.empty()) add(j.m1); if(!j.m2.empty()) add(j.m2); if(!j.d1.empty()) add(j.d1); if(!j.d2.empty()) add(j.d2); if(!j.cnt.empty()) add(j.cnt); if(!j.cost.empty()) add(j.cost); if(!j.flow.empty()) add(j.flow); return h; }
void go(int callers,int jobs,int opfix,int team){ 
    std::vector<std::vector<Job>> js(callers); std::vector<std::vector<Res>> exp(callers),got(callers); for(int c=0;c<callers;c++) for(int k=0;k<jobs;k++){ js[c].push_back(gen_job(opfix>=0?opfix:(int)sim::gen(NOPS)));
        if(k>0&&sim::gen_rare(2,1,3)){ Job b=js[c][k-1]; b.salt=sim::gen(100000); b.outmode=(int)sim::gen(3); sim::Quiet q; if(b.in1.depth()==CV_8U&&!b.in1.empty()){ b.in1=b.in1.clone(); fillu(b.in1,b.salt,b.op==MEDIAN||b.op==GMMS||b.op>=HIST?0:b.conv?2:1); } if(!b.m1.empty()&&b.op!=GMMS&&b.op!=MEDVAL){ b.m1=b.m1.clone(); cv::Mat m=b.m1; fillu(m,b.salt+1,2); } js[c][k]=b; } }
    if(callers>1&&sim::gen_rare(2,1,4)) for(int c=1;c<callers;c++) js[c]=js[0]; // same (shared, read-only) inputs for every caller
    std::vector<std::vector<uint64_t>> dg(callers); sim::set_team(1); for(int c=0;c<callers;c++) for(auto& j:js[c]){ dg[c].push_back(digest(j)); { cv::Mat none; exp[c].push_back(run(j,none)); } SIM_CHECK(!j.bad||exp[c].back().threw,"invalid-accepted","%s of nothing (everything masked) gave a result",OPN[j.op]); if(!j.bad) SIM_CHECK(!exp[c].back().threw,"valid-call-failed","%s (%dx%d, kernel %d) raised an error for valid input",OPN[j.op],j.rows,j.cols,j.k); check_ref(j,exp[c].back(),"one thread"); }
    sim::set_team(team); sim::logf("callers %d jobs %d team %d",callers,jobs,team);
    auto body=[&](int c){ cv::Mat last,fb; for(auto& j:js[c]) { Job w=j; { sim::Quiet q; if(!j.in1.empty()&&j.in1.isContinuous()){ if(!fb.empty()&&fb.size()==j.in1.size()&&fb.type()==j.in1.type()&&fb.data!=last.data){ j.in1.copyTo(fb); sim::probe("img:same-buffer"); } else fb=j.in1.clone(); w.in1=fb; } } uint64_t d=digest(w); Res r=run(w,last); SIM_CHECK(digest(w)==d,"input-modified","%s changed one of its inputs",OPN[j.op]); sim::Quiet q; if((j.salt&1)&&!last.empty()&&last.dims==2) last=cv::Scalar::all(5); got[c].push_back(r); } };
    std::vector<std::thread> th; for(int c=1;c<callers;c++) th.emplace_back(body,c); body(0); for(auto& t:th) t.join();
    for(int c=0;c<callers;c++) for(int k=0;k<jobs;k++){ std::string why; Job& j=js[c][k]; SIM_CHECK(bits_equal(got[c][k],exp[c][k],why),"schedule-dependent","%s on %d threads with %d caller(s) differs from its sequential result (%dx%d, kernel %d): %s",OPN[j.op],team,callers,j.rows,j.cols,j.k,why.c_str()); check_ref(j,got[c][k],"several threads"); SIM_CHECK(digest(j)==dg[c][k],"input-modified","%s changed one of its inputs",OPN[j.op]); if(exp[c][k].threw) sim::probe((std::string("img:threw:")+OPN[j.op]).c_str()); else sim::probe((std::string("img:")+OPN[j.op]).c_str()); } }
}
SIM_HARNESS_W("P14",p14_single_caller,3){ go(1,1+(int)sim::gen(3),-1,2+(int)sim::gen(4)); }
SIM_HARNESS_W("P14",p14_concurrent_callers,3){ go(2+(int)sim::gen(2),1+(int)sim::gen(2),-1,1+(int)sim::gen(4)); }
SIM_HARNESS_W("P14",p14_same_op,2){ go(2,1+(int)sim::gen(2),(int)sim::gen(NOPS),1+(int)sim::gen(3)); }
