// Simulated OpenGL/GLU/GLFW/GLEW (per-context state machine recording what each read-back shows) and video decoder for the virtual PTZ camera.
#include "sim.hpp"
#include "h_vptz.hpp"
#include <GL/glew.h>
#include <GL/glu.h>
#include <GLFW/glfw3.h>
#include <opencv2/videoio.hpp>
#include <map>
#include <set>
#include <cmath>
#include <cstring>
namespace {
struct M { double a[16]; };
M ident(){ M m; for(int i=0;i<16;i++) m.a[i]=(i%5==0); return m; }
M mul(const M& x,const M& y){ M r; for(int c=0;c<4;c++) for(int l=0;l<4;l++){ double s=0; for(int k=0;k<4;k++) s+=x.a[k*4+l]*y.a[c*4+k]; r.a[c*4+l]=s; } return r; }
struct Tex { int w=0,h=0; std::vector<unsigned char> d; bool linear=true; };
struct Ctx { int id; int w,h; GLenum mode=GL_MODELVIEW; std::vector<M> mv{ident()},pr{ident()},tx{ident()}; std::map<GLuint,Tex> tex; GLuint bound=0,next=1; bool tex2d=false; GLenum env=GL_MODULATE; GLenum err=GL_NO_ERROR; int drawn=-1; GlRender last; };
struct Quad { int ctx; bool tex=false,fill=true,outside=true; };
std::map<int,Ctx>& ctxs(){ static std::map<int,Ctx> m; return m; } std::set<Quad*>& quads(){ static std::set<Quad*> s; return s; }
int cur=0,nextid=1; bool inited=false;
Ctx& C(const char* f){ auto it=ctxs().find(cur); if(!cur||it==ctxs().end()) sim::violation("gl-no-context","%s called while no OpenGL context is current",f); return it->second; }
M& top(Ctx& c){ return c.mode==GL_PROJECTION?c.pr.back():c.mode==GL_MODELVIEW?c.mv.back():c.tx.back(); }
std::vector<M>& stk(Ctx& c){ return c.mode==GL_PROJECTION?c.pr:c.mode==GL_MODELVIEW?c.mv:c.tx; }
}
GlWorld& glworld(){ static GlWorld w; return w; }
void gl_reset(){ sim::Quiet q; ctxs().clear(); quads().clear(); cur=0; nextid=1; glworld()=GlWorld(); }
void gl_foreign_context(){ sim::Quiet q; if(!ctxs().count(100000)){ Ctx c; c.id=100000; c.w=c.h=8; ctxs()[100000]=c; } cur=100000; }
void gl_no_context(){ cur=0; }
unsigned gl_pixel(int r,int row,int col){ return hmix((unsigned)r*2654435761u+(unsigned)row*40503u+(unsigned)col); }
cv::Mat pano_frame(unsigned w,unsigned h,unsigned salt,unsigned i){ sim::Quiet q; cv::Mat m((int)h,(int)w,CV_8UC3); for(int y=0;y<m.rows;y++) for(int x=0;x<m.cols*3;x++) m.ptr(y)[x]=(uchar)hmix(salt*7919u+i*104729u+(unsigned)(y*1031+x)); return m; }
extern "C" {
GLboolean glewExperimental=0;
GLenum glewInit(){ C("glewInit"); if(glworld().faults&&sim::fault()) return 1; return GLEW_OK; }
GLboolean glewIsSupported(const char*){ return 1; } const GLubyte* glewGetErrorString(GLenum){ return (const GLubyte*)"simulated failure"; }
int glfwInit(){ inited=true; return 1; } void glfwTerminate(){} void glfwWindowHint(int,int){} void glfwDefaultWindowHints(){} void glfwSwapBuffers(GLFWwindow*){} void glfwPollEvents(){}
GLFWwindow* glfwCreateWindow(int w,int h,const char*,GLFWmonitor*,GLFWwindow*){ sim::Quiet q; if(!inited) sim::violation("glfw-not-initialised","glfwCreateWindow called before glfwInit"); if(glworld().faults&&sim::fault()) return nullptr; Ctx c; c.id=nextid++; c.w=w; c.h=h; ctxs()[c.id]=c; glworld().live++; return (GLFWwindow*)(intptr_t)c.id; }
void glfwDestroyWindow(GLFWwindow* p){ sim::Quiet q; int id=(int)(intptr_t)p; if(!id) return; if(!ctxs().count(id)) sim::violation("gl-context-freed-twice","window %d destroyed twice",id); if(!ctxs()[id].tex.empty()) sim::probe("vptz:texture-freed-with-context"); ctxs().erase(id); if(cur==id) cur=0; glworld().live--; }
void glfwMakeContextCurrent(GLFWwindow* p){ int id=(int)(intptr_t)p; if(id&&!ctxs().count(id)) sim::violation("gl-context-dangling","a destroyed window was made current"); cur=id; }
GLFWwindow* glfwGetCurrentContext(){ return (GLFWwindow*)(intptr_t)cur; }
GLenum glGetError(){ Ctx& c=C("glGetError"); GLenum e=c.err; c.err=GL_NO_ERROR; return e; }
void glMatrixMode(GLenum m){ C("glMatrixMode").mode=m; } void glLoadIdentity(){ top(C("glLoadIdentity"))=ident(); }
void glPushMatrix(){ sim::Quiet q; auto& s=stk(C("glPushMatrix")); s.push_back(s.back()); } void glPopMatrix(){ Ctx& c=C("glPopMatrix"); auto& s=stk(c); if(s.size()<2) c.err=GL_STACK_UNDERFLOW; else s.pop_back(); }
static void mulm(const double* d){ M m; memcpy(m.a,d,sizeof m.a); M& t=top(C("glMultMatrix")); t=mul(t,m); }
void glMultMatrixd(const GLdouble* d){ mulm(d); } void glMultMatrixf(const GLfloat* f){ double d[16]; for(int i=0;i<16;i++) d[i]=f[i]; mulm(d); }
void glLoadMatrixd(const GLdouble* d){ M& t=top(C("glLoadMatrix")); memcpy(t.a,d,sizeof t.a); } void glLoadMatrixf(const GLfloat* f){ double d[16]; for(int i=0;i<16;i++) d[i]=f[i]; glLoadMatrixd(d); }
void glRotated(GLdouble an,GLdouble x,GLdouble y,GLdouble z){ double n=std::sqrt(x*x+y*y+z*z); x/=n; y/=n; z/=n; double r=an*M_PI/180,c=std::cos(r),s=std::sin(r),t=1-c; double d[16]={x*x*t+c,y*x*t+z*s,x*z*t-y*s,0, x*y*t-z*s,y*y*t+c,y*z*t+x*s,0, x*z*t+y*s,y*z*t-x*s,z*z*t+c,0, 0,0,0,1}; mulm(d); }
void glRotatef(GLfloat an,GLfloat x,GLfloat y,GLfloat z){ glRotated(an,x,y,z); }
void glScaled(GLdouble x,GLdouble y,GLdouble z){ double d[16]={x,0,0,0,0,y,0,0,0,0,z,0,0,0,0,1}; mulm(d); } void glScalef(GLfloat x,GLfloat y,GLfloat z){ glScaled(x,y,z); }
void glTranslated(GLdouble x,GLdouble y,GLdouble z){ double d[16]={1,0,0,0,0,1,0,0,0,0,1,0,x,y,z,1}; mulm(d); } void glTranslatef(GLfloat x,GLfloat y,GLfloat z){ glTranslated(x,y,z); }
void glFrustum(GLdouble l,GLdouble r,GLdouble b,GLdouble t,GLdouble n,GLdouble f){ double d[16]={2*n/(r-l),0,0,0,0,2*n/(t-b),0,0,(r+l)/(r-l),(t+b)/(t-b),-(f+n)/(f-n),-1,0,0,-2*f*n/(f-n),0}; mulm(d); }
void gluPerspective(GLdouble fovy,GLdouble asp,GLdouble n,GLdouble f){ double t=n*std::tan(fovy*M_PI/360); glFrustum(-t*asp,t*asp,-t,t,n,f); }
void glEnable(GLenum e){ Ctx& c=C("glEnable"); if(e==GL_TEXTURE_2D) c.tex2d=true; } void glDisable(GLenum e){ Ctx& c=C("glDisable"); if(e==GL_TEXTURE_2D) c.tex2d=false; }
void glTexEnvf(GLenum,GLenum p,GLfloat v){ if(p==GL_TEXTURE_ENV_MODE) C("glTexEnvf").env=(GLenum)v; } void glTexEnvi(GLenum,GLenum p,GLint v){ if(p==GL_TEXTURE_ENV_MODE) C("glTexEnvi").env=(GLenum)v; }
void glGenTextures(GLsizei n,GLuint* o){ sim::Quiet q; Ctx& c=C("glGenTextures"); for(int i=0;i<n;i++){ o[i]=c.next++; c.tex[o[i]]=Tex(); } }
void glDeleteTextures(GLsizei n,const GLuint* t){ sim::Quiet q; Ctx& c=C("glDeleteTextures"); for(int i=0;i<n;i++){ c.tex.erase(t[i]); if(c.bound==t[i]) c.bound=0; } }
void glBindTexture(GLenum,GLuint t){ sim::Quiet q; Ctx& c=C("glBindTexture"); c.bound=t; if(t) c.tex[t]; }
void glTexParameteri(GLenum,GLenum,GLint){ C("glTexParameteri"); } void glTexParameterf(GLenum,GLenum,GLfloat){ C("glTexParameterf"); }
void glTexImage2D(GLenum,GLint,GLint,GLsizei w,GLsizei h,GLint,GLenum fmt,GLenum type,const void* p){ Ctx& c=C("glTexImage2D"); if(fmt!=GL_BGRA){ c.err=GL_INVALID_ENUM; return; } size_t n=(size_t)w*h*4; if(p) sim::touch(p,n,false); sim::Quiet q; Tex& t=c.tex[c.bound]; t.w=w; t.h=h; t.d.assign(n,0); if(p&&n) memcpy(t.d.data(),p,n); }
void glTexSubImage2D(GLenum,GLint,GLint x,GLint y,GLsizei w,GLsizei h,GLenum,GLenum,const void* p){ Ctx& c=C("glTexSubImage2D"); sim::touch(p,(size_t)w*h*4,false); sim::Quiet q; Tex& t=c.tex[c.bound]; if(x<0||y<0||x+w>t.w||y+h>t.h){ c.err=GL_INVALID_VALUE; return; } for(int r=0;r<h;r++) memcpy(&t.d[((size_t)(y+r)*t.w+x)*4],(const char*)p+(size_t)r*w*4,(size_t)w*4); }
void glClear(GLbitfield){ C("glClear"); } void glClearColor(GLfloat,GLfloat,GLfloat,GLfloat){} void glViewport(GLint,GLint,GLsizei,GLsizei){ C("glViewport"); } void glPixelStorei(GLenum,GLint){ C("glPixelStorei"); } void glFinish(){} void glFlush(){}
GLUquadric* gluNewQuadric(){ sim::Quiet q; Quad* x=new Quad; x->ctx=cur; quads().insert(x); return (GLUquadric*)x; }
void gluDeleteQuadric(GLUquadric* p){ sim::Quiet q; if(!quads().erase((Quad*)p)) sim::violation("quadric-freed","a sphere object was deleted twice"); delete (Quad*)p; }
void gluQuadricDrawStyle(GLUquadric* p,GLenum s){ ((Quad*)p)->fill=s==GLU_FILL; } void gluQuadricOrientation(GLUquadric* p,GLenum s){ ((Quad*)p)->outside=s==GLU_OUTSIDE; } void gluQuadricTexture(GLUquadric* p,GLboolean b){ ((Quad*)p)->tex=b; } void gluQuadricNormals(GLUquadric*,GLenum){}
const GLubyte* gluErrorString(GLenum){ return (const GLubyte*)"simulated error"; }
void gluSphere(GLUquadric* p,GLdouble r,GLint,GLint){ Ctx& c=C("gluSphere"); { sim::Quiet q; Quad* x=(Quad*)p; if(!quads().count(x)) sim::violation("quadric-freed","a deleted sphere object was drawn"); GlRender g; g.ctx=c.id; memcpy(g.mv,c.mv.back().a,sizeof g.mv); memcpy(g.pr,c.pr.back().a,sizeof g.pr); auto t=c.tex.find(c.bound); g.textured=c.tex2d&&x->tex&&x->fill&&c.env==GL_REPLACE&&c.bound&&t!=c.tex.end()&&t->second.w>0&&r>0.02&&r<10; g.tw=g.textured?t->second.w:0; g.th=g.textured?t->second.h:0; if(g.textured) g.tex=t->second.d; c.last=g; c.drawn=1; } sim::sleep_ns(sim::delay_choice()); }
void glReadPixels(GLint x,GLint y,GLsizei w,GLsizei h,GLenum fmt,GLenum,void* p){ Ctx& c=C("glReadPixels"); sim::touch(p,(size_t)w*h*4,true); sim::Quiet q; if(c.drawn<0){ memset(p,0,(size_t)w*h*4); return; } GlRender g=c.last; g.w=c.w; g.h=c.h; int id=(int)glworld().renders.size(); glworld().renders.push_back(g); unsigned* o=(unsigned*)p; for(int r=0;r<h;r++) for(int k=0;k<w;k++) o[(size_t)r*w+k]=gl_pixel(id,y+r,x+k)&0xffffffu; if(w>0&&h>0) o[0]=(o[0]&0xffffffu); }
}
namespace { struct St{ bool open=false; unsigned n=0,w=0,h=0,salt=0,hid=0; double fps=0; long pos=0; }; std::map<const cv::VideoCapture*,St>& tab(){ static std::map<const cv::VideoCapture*,St> m; return m; } St& st(const cv::VideoCapture* p){ sim::Quiet q; return tab()[p]; } }
namespace cv {
VideoCapture::VideoCapture(){ sim::Quiet q; tab()[this]=St(); } VideoCapture::~VideoCapture(){ sim::Quiet q; tab().erase(this); }
bool VideoCapture::open(const String& f,int){ St& s=st(this); s.open=false; FILE* fp=fopen(f.c_str(),"rb"); if(!fp) return false; char b[128]={0}; size_t k=fread(b,1,sizeof b-1,fp); fclose(fp); (void)k; St t; if(sscanf(b,"SIMVID %u %u %u %u %u %lf",&t.n,&t.w,&t.h,&t.salt,&t.hid,&t.fps)!=6) return false; t.open=true; s=t; return true; }
bool VideoCapture::isOpened() const { return st(this).open; } void VideoCapture::release(){ St& s=st(this); s.open=false; s.pos=0; }
bool VideoCapture::set(int p,double v){ St& s=st(this); if(!s.open||p!=CAP_PROP_POS_FRAMES||v<0||(s.hid&8)) return false; if(s.hid&4) return true; s.pos=std::min((long)v,(long)s.n); return true; }
double VideoCapture::get(int p) const { St& s=st(this); return p==CAP_PROP_FRAME_COUNT?((s.hid&1)?0:s.n):p==CAP_PROP_POS_FRAMES?s.pos:p==CAP_PROP_FRAME_WIDTH?s.w:p==CAP_PROP_FRAME_HEIGHT?s.h:p==CAP_PROP_FPS?s.fps:0; }
VideoCapture& VideoCapture::operator>>(Mat& m){ St& s=st(this); sim::sleep_ns(sim::delay_choice()); if(!s.open||s.pos>=(long)s.n){ m.release(); return *this; } if(glworld().decoder_faults&&sim::fault()){ m.release(); if(sim::gen_bool()) s.pos++; sim::probe("vptz:decoder-fault"); return *this; } Mat f=pano_frame(s.w,s.h,s.salt,(s.hid&2)?0u:(unsigned)s.pos); if(s.hid&16){ sim::Quiet q; cv::extractChannel(f,f,0); } m=f; s.pos++; return *this; }
bool VideoCapture::read(OutputArray o){ Mat m; *this>>m; if(m.empty()){ o.release(); return false; } m.copyTo(o); return true; }
bool VideoCapture::grab(){ St& s=st(this); if(!s.open||s.pos>=(long)s.n) return false; s.pos++; return true; } bool VideoCapture::retrieve(OutputArray o,int){ St& s=st(this); if(!s.open||s.pos<1) { o.release(); return false; } pano_frame(s.w,s.h,s.salt,(unsigned)s.pos-1).copyTo(o); return true; }
VideoCapture& VideoCapture::operator>>(UMat&){ abort(); }
void imshow(const String&,InputArray){} int waitKey(int ms){ glworld().wait_at=sim::now_ns(); glworld().wait_ms=ms; glworld().waits++; sim::sleep_ns((uint64_t)std::max(ms,0)*1000000ull); return -1; } void namedWindow(const String&,int){} void destroyWindow(const String&){} void destroyAllWindows(){}
}
extern "C" { size_t sim_cache_min_value=10*1024*1024; size_t sim_cache_min_size(){ return sim_cache_min_value; } int sim_frame_w(){ return 320; } int sim_frame_h(){ return 240; } }
extern "C" void sim_warmup(){ cv::setNumThreads(0); cv::theRNG(); cv::Mat m(4,4,CV_8UC1,cv::Scalar(1)); cv::Mat n; m.convertTo(n,CV_32F); }
