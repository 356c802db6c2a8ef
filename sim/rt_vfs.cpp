// In-memory file system under "/simfs", with fault injection; its content survives a simulated crash.
#include "rt.hpp"
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/ioctl.h>
#include <poll.h>
#include <fcntl.h>
#include <dirent.h>
#include <unistd.h>
#include <stdarg.h>
#include <dlfcn.h>
#include <algorithm>

namespace sim {
struct Node{ char name[112]; int parent; bool used,dir,ro; u64 size,cap; u64 off; u64 ino; };
enum{ NN=4096, FDBASE=100000, NFD=512 };
static const u64 DATASZ=(u64)512<<20;
struct Disk{ u64 top; u64 cap; u64 used; int hi; u64 ino; Node n[NN]; };
static Disk* D; static char* DD;
struct OF{ bool used; int node; u64 pos; bool rd,wr,app,trunc; FILE* f; bool werr; bool fault_close; };
static OF of[NFD];
struct DirH{ u32 magic; int node; int i; int n; int ent[1024]; struct dirent de; };
static u32 dirmagic=0x51D15D15;
void vfs_init_shared(){ D=(Disk*)mmap(0,sizeof(Disk),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); DD=(char*)mmap(0,DATASZ,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); D->top=DATASZ; vfs_reset(); }
void vfs_reset(){ u64 top=D->top; for(int i=0;i<=D->hi&&i<NN;i++) memset((void*)&D->n[i],0,sizeof(Node)); if(top>0&&top<DATASZ) madvise(DD,(top+4095)&~4095ull,MADV_REMOVE); D->top=0; D->cap=~0ull; D->used=0; D->hi=0; D->ino=1; Node&r=D->n[0]; r.used=true; r.dir=true; r.parent=-1; r.ino=1; }
static int child(int p,const char* s,size_t l){ for(int i=1;i<=D->hi;i++) if(D->n[i].used&&D->n[i].parent==p&&strlen(D->n[i].name)==l&&!memcmp(D->n[i].name,s,l)) return i; return -1; }
static bool issim(const char* p){ return p&&!strncmp(p,"/simfs",6)&&(p[6]==0||p[6]=='/'); }
// resolve: returns node or -1; sets parent + leaf; err ENOENT/ENOTDIR
static int resolve(const char* p,int* par,const char** leaf,size_t* ll,int* err){ const char* s=p+6; int cur=0; if(par) *par=-1; *err=0;
    for(;;){ while(*s=='/') s++; if(!*s) return cur; const char* e=s; while(*e&&*e!='/') e++; size_t l=e-s; const char* r=e; while(*r=='/') r++; bool last=!*r;
        if(!D->n[cur].dir){ *err=ENOTDIR; return -1; }
        if(l==1&&s[0]=='.'){ s=e; continue; } if(l==2&&s[0]=='.'&&s[1]=='.'){ if(D->n[cur].parent>=0) cur=D->n[cur].parent; s=e; continue; }
        int c=child(cur,s,l); if(c<0){ *err=ENOENT; if(last&&par){ *par=cur; *leaf=s; *ll=l; } return -1; } cur=c; s=e; } }
static int mknode(int par,const char* s,size_t l,bool dir){ if(l>=112) return -ENAMETOOLONG; for(int i=1;i<NN;i++) if(!D->n[i].used){ Node&n=D->n[i]; memset((void*)&n,0,sizeof n); memcpy(n.name,s,l); n.parent=par; n.used=true; n.dir=dir; n.ino=++D->ino; if(i>D->hi) D->hi=i; return i; } return -ENOSPC; }
static bool reserve(Node& n,u64 want){ if(want<=n.cap) return true; u64 c=n.cap?n.cap*2:1024; while(c<want) c*=2; if(D->top+c>DATASZ) return false; memcpy(DD+D->top,DD+n.off,n.size); n.off=D->top; n.cap=c; D->top+=c; return true; }
static bool armed(){ return on&&me&&!me->quiet&&me->iof>0; }
static void point(int op){ if(on&&me&&!me->quiet) sched_point(op,0); }
static void maybe_crash(){ if(armed()&&G->phase==1&&decide(K_CRASH,2,rate(K_CRASH))) crash_now(); }
static i64 vwrite(OF& o,const char* b,u64 n){
    Node& nd=D->n[o.node]; u64 lim=n; int err=0; bool crash=false;
    if(armed()){ u32 v=decide(K_IO_WRITE,8,rate(K_IO_WRITE)); // 1 ENOSPC whole, 2 EIO whole, 3.. short / partial then error
        if(v==1) err=ENOSPC; else if(v==2) err=EIO; else if(v>=3){ lim=n*(v-2)/6; if(lim==0&&n) err=v&1?ENOSPC:EIO; }
        if(G->phase==1){ u32 c=decide(K_CRASH,17,rate(K_CRASH)); if(c){ crash=true; lim=n*(c-1)/16; if(c==16&&n) lim=n-1; err=0; } } }
    if(err&&!crash){ errno=err; return -1; }
    if(o.app) o.pos=nd.size;
    u64 grow=o.pos+lim>nd.size?o.pos+lim-nd.size:0; if(D->cap!=~0ull&&D->used+grow>D->cap){ u64 room=D->cap>D->used?D->cap-D->used:0; u64 ok=(o.pos<nd.size?nd.size-o.pos:0)+room; if(ok<lim) lim=ok; if(lim==0&&n&&!crash){ probe("fault:disk-full"); errno=ENOSPC; return -1; } }
    if(!reserve(nd,o.pos+lim)){ errno=ENOSPC; return -1; }
    if(o.pos>nd.size) memset(DD+nd.off+nd.size,0,o.pos-nd.size);
    memcpy(DD+nd.off+o.pos,b,lim); o.pos+=lim; if(o.pos>nd.size){ D->used+=o.pos-nd.size; nd.size=o.pos; }
    if(crash) crash_now();
    return (i64)lim; }
static i64 vread(OF& o,char* b,u64 n){ Node& nd=D->n[o.node]; if(nd.dir){ errno=EISDIR; return -1; } u64 left=o.pos<nd.size?nd.size-o.pos:0; u64 k=n<left?n:left; if(armed()){ u32 v=decide(K_IO_READ,6,rate(K_IO_READ)); if(v==1||v==2){ errno=EIO; return -1; } if(v>=3&&k>1){ k=k*(v-2)/4; if(!k) k=1; } } memcpy(b,DD+nd.off+o.pos,k); o.pos+=k; return (i64)k; }
static i64 vseek(OF& o,i64 off,int wh){ i64 b=wh==SEEK_SET?0:wh==SEEK_CUR?(i64)o.pos:(i64)D->n[o.node].size; b+=off; if(b<0){ errno=EINVAL; return -1; } o.pos=b; return b; }
static int vopen(const char* p,bool rd,bool wr,bool creat,bool trunc,bool app,bool excl){
    point(60); maybe_crash();
    if(armed()){ u32 v=decide(K_IO_OPEN,4,rate(K_IO_OPEN)); if(v){ errno=v==1?EACCES:v==2?EMFILE:EIO; return -1; } }
    int par; const char* leaf; size_t ll; int err; int n=resolve(p,&par,&leaf,&ll,&err);
    if(n<0){ if(!creat||par<0){ errno=err; return -1; } if(D->n[par].ro){ errno=EACCES; return -1; } n=mknode(par,leaf,ll,false); if(n<0){ errno=-n; return -1; } }
    else { if(excl){ errno=EEXIST; return -1; } if(D->n[n].dir&&wr){ errno=EISDIR; return -1; } if(wr&&D->n[n].ro){ errno=EACCES; return -1; } if(trunc){ D->used-=D->n[n].size; D->n[n].size=0; maybe_crash(); } }
    for(int i=0;i<NFD;i++) if(!of[i].used){ OF&o=of[i]; memset((void*)&o,0,sizeof o); o.used=true; o.node=n; o.rd=rd; o.wr=wr; o.app=app; return i; }
    errno=EMFILE; return -1; }
static int vclose(int i){ point(61); maybe_crash(); of[i].used=false; of[i].f=0; if(armed()&&of[i].wr){ u32 v=decide(K_IO_CLOSE,3,rate(K_IO_CLOSE)); if(v){ errno=v==1?EIO:ENOSPC; return -1; } } return 0; }
static void fillstat(int n,struct stat* st){ memset(st,0,sizeof *st); Node& nd=D->n[n]; st->st_mode=nd.dir?(S_IFDIR|0777):(S_IFREG|0666); st->st_size=nd.size; st->st_ino=nd.ino; st->st_nlink=1; st->st_blksize=4096; }
static int vstat(const char* p,struct stat* st){ point(62); if(armed()){ u32 v=decide(K_IO_STAT,2,rate(K_IO_STAT)); if(v){ errno=EIO; return -1; } } int err; int n=resolve(p,0,0,0,&err); if(n<0){ errno=err; return -1; } fillstat(n,st); return 0; }
static ssize_t ck_read(void* c,char* b,size_t n){ OF* o=(OF*)c; point(63); return vread(*o,b,n); }
static ssize_t ck_write(void* c,const char* b,size_t n){ OF* o=(OF*)c; point(64); size_t t=0; while(t<n){ i64 r=vwrite(*o,b+t,n-t); if(r<=0) break; t+=r; } return t<n?0:(ssize_t)t; }
static int ck_seek(void* c,off64_t* off,int wh){ OF*o=(OF*)c; i64 r=vseek(*o,*off,wh); if(r<0) return -1; *off=r; return 0; }
static int ck_close(void* c){ OF*o=(OF*)c; return vclose((int)(o-of)); }
static int fdi(int fd){ int i=fd-FDBASE; return i>=0&&i<NFD&&of[i].used?i:-1; }
// ---- harness helpers ----
namespace vfs {
bool exists(const std::string& p){ Quiet q; int e; return resolve(p.c_str(),0,0,0,&e)>=0; }
bool is_dir(const std::string& p){ Quiet q; int e; int n=resolve(p.c_str(),0,0,0,&e); return n>=0&&D->n[n].dir; }
bool get(const std::string& p,std::string& o){ Quiet q; int e; int n=resolve(p.c_str(),0,0,0,&e); if(n<0||D->n[n].dir) return false; o.assign(DD+D->n[n].off,D->n[n].size); return true; }
void mkdirs(const std::string& p){ Quiet q; int cur=0; const char* s=p.c_str()+6; for(;;){ while(*s=='/') s++; if(!*s) return; const char* e=s; while(*e&&*e!='/') e++; int c=child(cur,s,e-s); if(c<0) c=mknode(cur,s,e-s,true); cur=c; s=e; } }
void put(const std::string& p,const std::string& d){ Quiet q; size_t k=p.rfind('/'); mkdirs(p.substr(0,k)); int par,err; const char* l; size_t ll; int n=resolve(p.c_str(),&par,&l,&ll,&err); if(n<0) n=mknode(par,l,ll,false); Node&nd=D->n[n]; D->used-=nd.size; nd.size=0; reserve(nd,d.size()); memcpy(DD+nd.off,d.data(),d.size()); nd.size=d.size(); D->used+=nd.size; }
void remove(const std::string& p){ Quiet q; int e; int n=resolve(p.c_str(),0,0,0,&e); if(n>0){ D->used-=D->n[n].size; D->n[n].used=false; } }
std::vector<std::string> list(const std::string& p){ Quiet q; std::vector<std::string> v; int e; int n=resolve(p.c_str(),0,0,0,&e); if(n>=0) for(int i=1;i<=D->hi;i++) if(D->n[i].used&&D->n[i].parent==n) v.push_back(D->n[i].name); std::sort(v.begin(),v.end()); return v; }
void set_capacity(u64 b){ D->cap=b; } u64 used(){ return D->used; }
int open_count(){ int n=0; for(int i=0;i<NFD;i++) n+=of[i].used; return n; }
void make_readonly(const std::string& p,bool ro){ Quiet q; int e; int n=resolve(p.c_str(),0,0,0,&e); if(n>=0) D->n[n].ro=ro; }
}
#define NEXT(name) static auto f=(decltype(&::name))dlsym(RTLD_NEXT,#name)
}
using namespace sim;
extern "C" {
static FILE* sim_fopen(const char* p,const char* m){
    bool rd=false,wr=false,cr=false,tr=false,ap=false,ex=false; if(m[0]=='r') rd=true; else if(m[0]=='w'){ wr=cr=tr=true; } else { wr=cr=ap=true; } for(const char* c=m+1;*c;c++){ if(*c=='+') rd=wr=true; if(*c=='x') ex=true; }
    int i=vopen(p,rd,wr,cr,tr,ap,ex); if(i<0) return 0; cookie_io_functions_t io={ck_read,ck_write,ck_seek,ck_close}; if(me) me->quiet++; FILE* f=fopencookie(&of[i],m,io); if(me) me->quiet--; if(!f){ of[i].used=false; return 0;} of[i].f=f; return f; }
FILE* fopen(const char* p,const char* m){ if(issim(p)) return sim_fopen(p,m); NEXT(fopen); return f(p,m); }
FILE* fopen64(const char* p,const char* m){ if(issim(p)) return sim_fopen(p,m); NEXT(fopen64); return f(p,m); }
int fileno(FILE* s){ for(int i=0;i<NFD;i++) if(of[i].used&&of[i].f==s) return FDBASE+i; NEXT(fileno); return f(s); }
static int doopen(const char* p,int fl){ int acc=fl&O_ACCMODE; int i=vopen(p,acc!=O_WRONLY,acc!=O_RDONLY,fl&O_CREAT,fl&O_TRUNC,fl&O_APPEND,(fl&O_CREAT)&&(fl&O_EXCL)); return i<0?-1:FDBASE+i; }
int open(const char* p,int fl,...){ int mode=0; if(fl&(O_CREAT|O_TMPFILE)){ va_list a; va_start(a,fl); mode=va_arg(a,int); va_end(a);} if(issim(p)) return doopen(p,fl); long r=rawsys(SYS_openat,AT_FDCWD,(long)p,fl,mode); if(r<0){errno=-(int)r;return -1;} return (int)r; }
int open64(const char* p,int fl,...){ int mode=0; if(fl&(O_CREAT|O_TMPFILE)){ va_list a; va_start(a,fl); mode=va_arg(a,int); va_end(a);} if(issim(p)) return doopen(p,fl); long r=rawsys(SYS_openat,AT_FDCWD,(long)p,fl,mode); if(r<0){errno=-(int)r;return -1;} return (int)r; }
int close(int fd){ int i=fdi(fd); if(i>=0) return vclose(i); long r=rawsys(SYS_close,fd); if(r<0){errno=-(int)r;return -1;} return 0; }
ssize_t read(int fd,void* b,size_t n){ int i=fdi(fd); if(i>=0){ point(63); sim::touch(b,n,true); return vread(of[i],(char*)b,n);} long r=rawsys(SYS_read,fd,(long)b,n); if(r<0){errno=-(int)r;return -1;} return r; }
ssize_t write(int fd,const void* b,size_t n){ int i=fdi(fd); if(i>=0){ point(64); sim::touch(b,n,false); return vwrite(of[i],(const char*)b,n);} long r=rawsys(SYS_write,fd,(long)b,n); if(r<0){errno=-(int)r;return -1;} return r; }
ssize_t writev(int fd,const struct iovec* v,int c){ int i=fdi(fd); if(i>=0){ point(64); ssize_t t=0; for(int k=0;k<c;k++){ if(!v[k].iov_len) continue; sim::touch(v[k].iov_base,v[k].iov_len,false); i64 r=vwrite(of[i],(const char*)v[k].iov_base,v[k].iov_len); if(r<0) return t?t:-1; t+=r; if((size_t)r<v[k].iov_len) break; } return t; } long r=rawsys(SYS_writev,fd,(long)v,c); if(r<0){errno=-(int)r;return -1;} return r; }
off_t lseek(int fd,off_t o,int w){ int i=fdi(fd); if(i>=0) return vseek(of[i],o,w); long r=rawsys(SYS_lseek,fd,o,w); if(r<0){errno=-(int)r;return -1;} return r; }
off64_t lseek64(int fd,off64_t o,int w){ return lseek(fd,o,w); }
int fstat(int fd,struct stat* st){ int i=fdi(fd); if(i>=0){ fillstat(of[i].node,st); return 0; } long r=rawsys(SYS_fstat,fd,(long)st); if(r<0){errno=-(int)r;return -1;} return 0; }
int fstat64(int fd,struct stat64* st){ return fstat(fd,(struct stat*)st); }
int stat(const char* p,struct stat* st){ if(issim(p)) return vstat(p,st); long r=rawsys(SYS_stat,(long)p,(long)st); if(r<0){errno=-(int)r;return -1;} return 0; }
int stat64(const char* p,struct stat64* st){ return stat(p,(struct stat*)st); }
int lstat(const char* p,struct stat* st){ if(issim(p)) return vstat(p,st); long r=rawsys(SYS_lstat,(long)p,(long)st); if(r<0){errno=-(int)r;return -1;} return 0; }
int lstat64(const char* p,struct stat64* st){ return lstat(p,(struct stat*)st); }
int ioctl(int fd,unsigned long rq,...){ va_list a; va_start(a,rq); void* p=va_arg(a,void*); va_end(a); int i=fdi(fd); if(i>=0){ if(rq==FIONREAD){ u64 s=D->n[of[i].node].size; *(int*)p=(int)(of[i].pos<s?s-of[i].pos:0); return 0; } errno=ENOTTY; return -1; } long r=rawsys(SYS_ioctl,fd,rq,(long)p); if(r<0){errno=-(int)r;return -1;} return (int)r; }
int poll(struct pollfd* p,nfds_t n,int to){ if(n==1&&fdi(p->fd)>=0){ p->revents=p->events; return 1; } long r=rawsys(SYS_poll,(long)p,n,to); if(r<0){errno=-(int)r;return -1;} return (int)r; }
int ftruncate(int fd,off_t n){ int i=fdi(fd); if(i>=0){ Node&nd=D->n[of[i].node]; if((u64)n<nd.size){ D->used-=nd.size-n; nd.size=n; } return 0; } long r=rawsys(SYS_ftruncate,fd,n); if(r<0){errno=-(int)r;return -1;} return 0; }
int fsync(int fd){ int i=fdi(fd); if(i>=0){ point(65); if(armed()&&decide(K_IO_CLOSE,2,rate(K_IO_CLOSE))){ errno=EIO; return -1; } return 0; } long r=rawsys(SYS_fsync,fd); if(r<0){errno=-(int)r;return -1;} return 0; }
int fdatasync(int fd){ return fsync(fd); }
int mkdir(const char* p,mode_t m){ if(!issim(p)){ long r=rawsys(SYS_mkdir,(long)p,m); if(r<0){errno=-(int)r;return -1;} return 0; }
    point(66); maybe_crash(); if(armed()){ u32 v=decide(K_IO_OPEN,4,rate(K_IO_OPEN)); if(v){ errno=v==1?EACCES:v==2?ENOSPC:EIO; return -1; } }
    int par,err; const char* l; size_t ll; int n=resolve(p,&par,&l,&ll,&err); if(n>=0){ errno=EEXIST; return -1; } if(par<0){ errno=err; return -1; } if(D->n[par].ro){ errno=EACCES; return -1; } n=mknode(par,l,ll,true); if(n<0){ errno=-n; return -1; } return 0; }
int rmdir(const char* p){ if(!issim(p)){ long r=rawsys(SYS_rmdir,(long)p); if(r<0){errno=-(int)r;return -1;} return 0; } point(67); int err; int n=resolve(p,0,0,0,&err); if(n<0){errno=err;return -1;} for(int i=1;i<=D->hi;i++) if(D->n[i].used&&D->n[i].parent==n){ errno=ENOTEMPTY; return -1; } D->n[n].used=false; return 0; }
int unlink(const char* p){ if(!issim(p)){ long r=rawsys(SYS_unlink,(long)p); if(r<0){errno=-(int)r;return -1;} return 0; } point(67); maybe_crash(); int err; int n=resolve(p,0,0,0,&err); if(n<0){errno=err;return -1;} if(D->n[n].dir){errno=EISDIR;return -1;} D->used-=D->n[n].size; D->n[n].used=false; return 0; }
int remove(const char* p){ if(issim(p)){ int err; int n=resolve(p,0,0,0,&err); if(n>=0&&D->n[n].dir) return rmdir(p); return unlink(p);} long r=rawsys(SYS_unlink,(long)p); if(r<0){ r=rawsys(SYS_rmdir,(long)p); } if(r<0){errno=-(int)r;return -1;} return 0; }
int rename(const char* a,const char* b){ if(!issim(a)){ long r=rawsys(SYS_rename,(long)a,(long)b); if(r<0){errno=-(int)r;return -1;} return 0; }
    point(68); maybe_crash(); if(armed()&&decide(K_IO_OPEN,2,rate(K_IO_OPEN))){ errno=EIO; return -1; } int err; int n=resolve(a,0,0,0,&err); if(n<0){errno=err;return -1;} int par; const char* l; size_t ll; int m=resolve(b,&par,&l,&ll,&err); if(m>=0){ if(m==n) return 0; par=D->n[m].parent; char nm[112]; memcpy(nm,D->n[m].name,112); D->used-=D->n[m].size; D->n[m].used=false; memcpy(D->n[n].name,nm,112); D->n[n].parent=par; return 0; } if(par<0){errno=err;return -1;} memset(D->n[n].name,0,112); memcpy(D->n[n].name,l,ll); D->n[n].parent=par; return 0; }
int access(const char* p,int m){ if(!issim(p)){ long r=rawsys(SYS_access,(long)p,m); if(r<0){errno=-(int)r;return -1;} return 0; } struct stat st; return vstat(p,&st); }
DIR* opendir(const char* p){ if(!issim(p)){ NEXT(opendir); return f(p); }
    point(69); if(armed()){ u32 v=decide(K_IO_OPEN,3,rate(K_IO_OPEN)); if(v){ errno=v==1?EACCES:EMFILE; return 0; } }
    int err; int n=resolve(p,0,0,0,&err); if(n<0){errno=err;return 0;} if(!D->n[n].dir){errno=ENOTDIR;return 0;} if(me) me->quiet++; DirH* h=(DirH*)calloc(1,sizeof(DirH)); if(me) me->quiet--; h->magic=dirmagic; h->node=n; h->ent[h->n++]=-1; h->ent[h->n++]=-2; for(int i=1;i<=D->hi&&h->n<1020;i++) if(D->n[i].used&&D->n[i].parent==n) h->ent[h->n++]=i;
    if(on&&me){ u32 v=decide(K_DIRORDER,1000,rate(K_DIRORDER)); if(v){ u64 s=v; for(int i=h->n-1;i>0;i--){ s=s*6364136223846793005ull+1442695040888963407ull; int j=(int)((s>>33)%(i+1)); std::swap(h->ent[i],h->ent[j]); } } }
    return (DIR*)h; }
static bool isdirh(DIR* d){ return d&&((DirH*)d)->magic==dirmagic; }
struct dirent* readdir(DIR* d){ if(!isdirh(d)){ NEXT(readdir); return f(d); } DirH*h=(DirH*)d; for(;;){ if(h->i>=h->n) return 0; int e=h->ent[h->i++]; memset(&h->de,0,sizeof h->de); if(e==-1){ strcpy(h->de.d_name,"."); h->de.d_type=DT_DIR; return &h->de; } if(e==-2){ strcpy(h->de.d_name,".."); h->de.d_type=DT_DIR; return &h->de; } if(!D->n[e].used||D->n[e].parent!=h->node) continue; strcpy(h->de.d_name,D->n[e].name); h->de.d_type=D->n[e].dir?DT_DIR:DT_REG; h->de.d_ino=D->n[e].ino; return &h->de; } }
struct dirent64* readdir64(DIR* d){ return (struct dirent64*)readdir(d); }
int closedir(DIR* d){ if(!isdirh(d)){ NEXT(closedir); return f(d); } ((DirH*)d)->magic=0; if(me) me->quiet++; free(d); if(me) me->quiet--; return 0; }
void rewinddir(DIR* d){ if(!isdirh(d)){ NEXT(rewinddir); f(d); return; } ((DirH*)d)->i=0; }
}
