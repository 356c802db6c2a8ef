// Interposed OpenCV functions: OpenCV itself is not instrumented, so its callers' accesses to matrices are declared here (race and addressability checks, scheduling points).
#include <opencv2/core.hpp>
#include <opencv2/imgproc.hpp>
#include <dlfcn.h>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include "sim.hpp"
namespace {
__thread int depth=0;
struct Guard { bool top; Guard(){ top=depth++==0; } ~Guard(){ --depth; } };
void* nextsym(const char* n){ void* p=dlsym(RTLD_NEXT,n); if(!p){ fprintf(stderr,"sim: no %s\n",n); abort(); } return p; }
template<class T> T resolve(void*& slot,const char* n){ if(__builtin_expect(!slot,0)) slot=nextsym(n); return (T)slot; }
#define REAL(sym,...) static void* rp_=nullptr; auto real=resolve<__VA_ARGS__>(rp_,sym)
void data(const cv::Mat& m,bool w){ // rows of a (possibly non-contiguous) matrix
    if(!m.data||m.dims<1) return; size_t es=m.elemSize1()*m.channels(); if(m.dims<=2){ if(m.rows<=0||m.cols<=0) return; size_t row=(size_t)m.cols*es; if(m.rows==1||m.step[0]==row) sim::touch(m.data,row*(size_t)m.rows,w); else if(m.rows<=64) for(int y=0;y<m.rows;y++) sim::touch(m.data+(size_t)y*m.step[0],row,w); else { sim::touch(m.data,row,w); for(int y=1;y<m.rows;y+=7) sim::touch(m.data+(size_t)y*m.step[0],row,w); } return; }
    if(m.isContinuous()){ size_t n=es; for(int i=0;i<m.dims;i++) n*=(size_t)m.size[i]; if(n) sim::touch(m.data,n,w); } }
void hdr(const cv::Mat& m,bool w){ sim::touch(&m,sizeof m,w); }
void rd(const cv::Mat& m){ hdr(m,false); data(m,false); }
int kind(const cv::_InputArray& a){ return a.getFlags()&cv::_InputArray::KIND_MASK; }
void in(const cv::_InputArray& a){ int k=kind(a); if(!a.getObj()) return; if(k==cv::_InputArray::MAT) rd(*(const cv::Mat*)a.getObj()); else if(k==cv::_InputArray::STD_VECTOR_MAT) for(auto& m:*(const std::vector<cv::Mat>*)a.getObj()) rd(m); else if(k==cv::_InputArray::STD_VECTOR){ auto& v=*(const std::vector<uchar>*)a.getObj(); sim::touch(&v,sizeof v,false); if(!v.empty()) sim::touch(v.data(),v.size(),false); } }
struct Out { const cv::_InputArray& a; int k; cv::Mat* m; char h[sizeof(cv::Mat)]; 
    Out(const cv::_InputArray& a_):a(a_),k(kind(a_)),m(nullptr){ if(k==cv::_InputArray::MAT&&a.getObj()){ m=(cv::Mat*)a.getObj(); hdr(*m,false); memcpy(h,(void*)m,sizeof h); } }
    void done(){ if(m){ if(memcmp(h,(void*)m,sizeof h)) hdr(*m,true); data(*m,true); } else if(!a.getObj()) return; else if(k==cv::_InputArray::STD_VECTOR_MAT){ auto& v=*(std::vector<cv::Mat>*)a.getObj(); for(auto& x:v){ hdr(x,true); data(x,true); } } else if(k==cv::_InputArray::STD_VECTOR){ auto& v=*(std::vector<uchar>*)a.getObj(); sim::touch(&v,sizeof v,true); if(!v.empty()) sim::touch(v.data(),v.size(),true); } } };
struct Hdr { cv::Mat* m; char h[sizeof(cv::Mat)]; Hdr(cv::Mat* m_):m(m_){ hdr(*m,false); memcpy(h,(void*)m,sizeof h); } void done(){ if(memcmp(h,(void*)m,sizeof h)) hdr(*m,true); } };
}
typedef cv::Mat M;
#include "cv_names.inc"
#define F1(R,name,sym,PARAMS,...) R name PARAMS asm(sym); R name PARAMS 
// ---- constructors, assignment, destruction: headers ----
F1(void,c_copy,"_ZN2cv3MatC1ERKS0_",(M* s,const M& o)){ REAL("_ZN2cv3MatC1ERKS0_",void(*)(M*,const M&)); Guard g; if(g.top) hdr(o,false); real(s,o); if(g.top) hdr(*s,true); }
F1(void,c_copy2,"_ZN2cv3MatC2ERKS0_",(M* s,const M& o)){ REAL("_ZN2cv3MatC2ERKS0_",void(*)(M*,const M&)); Guard g; if(g.top) hdr(o,false); real(s,o); if(g.top) hdr(*s,true); }
F1(void,c_rect,"_ZN2cv3MatC1ERKS0_RKNS_5Rect_IiEE",(M* s,const M& o,const cv::Rect& r)){ REAL("_ZN2cv3MatC1ERKS0_RKNS_5Rect_IiEE",void(*)(M*,const M&,const cv::Rect&)); Guard g; if(g.top) hdr(o,false); real(s,o,r); }
F1(void,c_rng,"_ZN2cv3MatC1ERKS0_RKNS_5RangeES5_",(M* s,const M& o,const cv::Range& a,const cv::Range& b)){ REAL("_ZN2cv3MatC1ERKS0_RKNS_5RangeES5_",void(*)(M*,const M&,const cv::Range&,const cv::Range&)); Guard g; if(g.top) hdr(o,false); real(s,o,a,b); }
F1(M&,m_as,"_ZN2cv3MataSERKS0_",(M* s,const M& o)){ REAL("_ZN2cv3MataSERKS0_",M&(*)(M*,const M&)); Guard g; if(!g.top) return real(s,o); hdr(o,false); if(s==&o) return real(s,o); hdr(*s,true); M& r=real(s,o); hdr(*s,true); return r; }
F1(M&,m_mv,"_ZN2cv3MataSEOS0_",(M* s,M&& o)){ REAL("_ZN2cv3MataSEOS0_",M&(*)(M*,M&&)); Guard g; if(!g.top||s==&o) return real(s,(M&&)o); hdr(o,true); hdr(*s,true); M& r=real(s,(M&&)o); hdr(*s,true); return r; }
F1(void,m_dt,"_ZN2cv3MatD1Ev",(M* s)){ REAL("_ZN2cv3MatD1Ev",void(*)(M*)); Guard g; if(g.top) hdr(*s,true); real(s); }
F1(void,m_rel,"_ZN2cv3Mat7releaseEv",(M* s)){ REAL("_ZN2cv3Mat7releaseEv",void(*)(M*)); Guard g; if(!g.top) return real(s); Hdr h(s); real(s); h.done(); }
F1(void,m_cr1,"_ZN2cv3Mat6createENS_5Size_IiEEi",(M* s,cv::Size z,int t)){ REAL("_ZN2cv3Mat6createENS_5Size_IiEEi",void(*)(M*,cv::Size,int)); Guard g; if(!g.top) return real(s,z,t); Hdr h(s); real(s,z,t); h.done(); }
F1(void,m_cr2,"_ZN2cv3Mat6createEiii",(M* s,int a,int b,int t)){ REAL("_ZN2cv3Mat6createEiii",void(*)(M*,int,int,int)); Guard g; if(!g.top) return real(s,a,b,t); Hdr h(s); real(s,a,b,t); h.done(); }
F1(void,m_cr3,"_ZN2cv3Mat6createEiPKii",(M* s,int a,const int* b,int t)){ REAL("_ZN2cv3Mat6createEiPKii",void(*)(M*,int,const int*,int)); Guard g; if(!g.top) return real(s,a,b,t); Hdr h(s); real(s,a,b,t); h.done(); }
F1(void,m_swap,"_ZN2cv4swapERNS_3MatES1_",(M& a,M& b)){ REAL("_ZN2cv4swapERNS_3MatES1_",void(*)(M&,M&)); Guard g; if(g.top){ hdr(a,true); hdr(b,true); } real(a,b); if(g.top){ hdr(a,true); hdr(b,true); } }
// ---- contents ----
F1(M&,m_sc,"_ZN2cv3MataSERKNS_7Scalar_IdEE",(M* s,const cv::Scalar& v)){ REAL("_ZN2cv3MataSERKNS_7Scalar_IdEE",M&(*)(M*,const cv::Scalar&)); Guard g; if(!g.top) return real(s,v); hdr(*s,false); data(*s,true); M& r=real(s,v); return r; }
F1(M&,m_set,"_ZN2cv3Mat5setToERKNS_11_InputArrayES3_",(M* s,const cv::_InputArray& v,const cv::_InputArray& k)){ REAL("_ZN2cv3Mat5setToERKNS_11_InputArrayES3_",M&(*)(M*,const cv::_InputArray&,const cv::_InputArray&)); Guard g; if(!g.top) return real(s,v,k); hdr(*s,false); in(v); in(k); data(*s,true); M& r=real(s,v,k); return r; }
F1(M,m_cl,"_ZNK2cv3Mat5cloneEv",(const M* s)){ REAL("_ZNK2cv3Mat5cloneEv",M(*)(const M*)); Guard g; if(g.top) rd(*s); return real(s); }
F1(void,m_cp,"_ZNK2cv3Mat6copyToERKNS_12_OutputArrayE",(const M* s,const cv::_OutputArray& d)){ REAL("_ZNK2cv3Mat6copyToERKNS_12_OutputArrayE",void(*)(const M*,const cv::_OutputArray&)); Guard g; if(!g.top) return real(s,d); rd(*s); Out o(d); real(s,d); o.done(); }
F1(void,m_cpm,"_ZNK2cv3Mat6copyToERKNS_12_OutputArrayERKNS_11_InputArrayE",(const M* s,const cv::_OutputArray& d,const cv::_InputArray& k)){ REAL("_ZNK2cv3Mat6copyToERKNS_12_OutputArrayERKNS_11_InputArrayE",void(*)(const M*,const cv::_OutputArray&,const cv::_InputArray&)); Guard g; if(!g.top) return real(s,d,k); rd(*s); in(k); Out o(d); real(s,d,k); o.done(); }
F1(void,m_cv,"_ZNK2cv3Mat9convertToERKNS_12_OutputArrayEidd",(const M* s,const cv::_OutputArray& d,int t,double a,double b)){ REAL("_ZNK2cv3Mat9convertToERKNS_12_OutputArrayEidd",void(*)(const M*,const cv::_OutputArray&,int,double,double)); Guard g; if(!g.top) return real(s,d,t,a,b); rd(*s); Out o(d); real(s,d,t,a,b); o.done(); }
#define BIN(sym,n,A,B,ra,rb) F1(cv::MatExpr,n,sym,(A a,B b)){ REAL(sym,cv::MatExpr(*)(A,B)); Guard g; if(g.top){ ra; rb; } return real(a,b); }
BIN("_ZN2cveqERKNS_3MatEd",e_eqd,const M&,double,rd(a),) BIN("_ZN2cvneERKNS_3MatEd",e_ned,const M&,double,rd(a),) BIN("_ZN2cvltERKNS_3MatEd",e_ltd,const M&,double,rd(a),) BIN("_ZN2cvgtERKNS_3MatEd",e_gtd,const M&,double,rd(a),) BIN("_ZN2cvgeERKNS_3MatEd",e_ged,const M&,double,rd(a),)
BIN("_ZN2cvneERKNS_3MatES2_",e_ne,const M&,const M&,rd(a),rd(b)) BIN("_ZN2cvanERKNS_3MatES2_",e_an,const M&,const M&,rd(a),rd(b)) BIN("_ZN2cvplERKNS_3MatES2_",e_pl,const M&,const M&,rd(a),rd(b)) BIN("_ZN2cvmiERKNS_3MatES2_",e_mi,const M&,const M&,rd(a),rd(b)) BIN("_ZN2cvdvERKNS_3MatEd",e_dvd,const M&,double,rd(a),)
F1(bool,m_em,"_ZNK2cv3Mat5emptyEv",(const M* s)){ REAL("_ZNK2cv3Mat5emptyEv",bool(*)(const M*)); Guard g; if(g.top) hdr(*s,false); return real(s); }
F1(size_t,m_tot,"_ZNK2cv3Mat5totalEv",(const M* s)){ REAL("_ZNK2cv3Mat5totalEv",size_t(*)(const M*)); Guard g; if(g.top) hdr(*s,false); return real(s); }
F1(M,m_rs,"_ZNK2cv3Mat7reshapeEii",(const M* s,int a,int b)){ REAL("_ZNK2cv3Mat7reshapeEii",M(*)(const M*,int,int)); Guard g; if(g.top) hdr(*s,false); return real(s,a,b); }
F1(M,m_rs2,"_ZNK2cv3Mat7reshapeEiiPKi",(const M* s,int a,int b,const int* c)){ REAL("_ZNK2cv3Mat7reshapeEiiPKi",M(*)(const M*,int,int,const int*)); Guard g; if(g.top) hdr(*s,false); return real(s,a,b,c); }
