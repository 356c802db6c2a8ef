// Simulated video decoder behind cv::VideoCapture: frames of a container file are decoded in order, seeking is explicit, decoding may fail.
#include "sim.hpp"
#include "h_pipe.hpp"
#include <opencv2/videoio.hpp>
#include <map>
std::atomic<bool> g_decoder_faults{false};
namespace { struct St{ bool open=false,busy=false; unsigned n=0,w=0,h=0,salt=0; long pos=0; }; std::map<const cv::VideoCapture*,St>& tab(){ static std::map<const cv::VideoCapture*,St> m; return m; } St& st(const cv::VideoCapture* p){ sim::Quiet q; return tab()[p]; }
struct Use { St& s; explicit Use(const cv::VideoCapture* p):s(st(p)){ sim::touch(p,1,true); if(s.busy) sim::violation("decoder-reentered","the video decoder of a batch was used by two threads at once"); s.busy=true; sim::yield_point(); } ~Use(){ s.busy=false; } }; }
cv::Mat simvid_frame(unsigned w,unsigned h,unsigned salt,unsigned i){ sim::Quiet q; cv::Mat m((int)h,(int)w,CV_8UC3); for(int y=0;y<m.rows;y++) for(int x=0;x<m.cols*3;x++) m.ptr(y)[x]=(uchar)hmix(salt*7919u+i*104729u+(unsigned)(y*1031+x)); return m; }
namespace cv {
VideoCapture::VideoCapture(){ sim::Quiet q; tab()[this]=St(); } VideoCapture::~VideoCapture(){ sim::Quiet q; tab().erase(this); }
bool VideoCapture::open(const String& f,int){ Use u(this); u.s.open=false; FILE* fp=fopen(f.c_str(),"rb"); if(!fp) return false; char b[128]={0}; size_t k=fread(b,1,sizeof b-1,fp); fclose(fp); (void)k; unsigned n,w,h,s; if(sscanf(b,"SIMVID %u %u %u %u",&n,&w,&h,&s)!=4) return false; u.s.open=true; u.s.n=n; u.s.w=w; u.s.h=h; u.s.salt=s; u.s.pos=0; return true; }
bool VideoCapture::isOpened() const { return st(this).open; } void VideoCapture::release(){ Use u(this); u.s.open=false; u.s.pos=0; }
bool VideoCapture::set(int p,double v){ Use u(this); if(!u.s.open||p!=CAP_PROP_POS_FRAMES) return false; u.s.pos=std::min((long)v,(long)u.s.n); return true; }
double VideoCapture::get(int p) const { St& s=st(this); return p==CAP_PROP_FRAME_COUNT?s.n:p==CAP_PROP_POS_FRAMES?s.pos:p==CAP_PROP_FRAME_WIDTH?s.w:p==CAP_PROP_FRAME_HEIGHT?s.h:0; }
VideoCapture& VideoCapture::operator>>(Mat& m){ Use u(this); if(!u.s.open||u.s.pos>=(long)u.s.n){ m.release(); return *this; } if(g_decoder_faults&&sim::fault()){ m.release(); if(sim::gen_bool()) u.s.pos++; sim::probe("pipe:decoder-fault"); return *this; } m=simvid_frame(u.s.w,u.s.h,u.s.salt,(unsigned)u.s.pos); u.s.pos++; return *this; }
bool VideoCapture::read(OutputArray o){ Mat m; *this>>m; if(m.empty()) return false; m.copyTo(o); return true; }
VideoCapture& VideoCapture::operator>>(UMat&){ abort(); } bool VideoCapture::grab(){ abort(); } bool VideoCapture::retrieve(OutputArray,int){ abort(); }
}
