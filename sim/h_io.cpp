// P12, P13, P19, P21: matrix archives, directories and preallocated files on a faulty disk.
#include "sim.hpp"
#include "litiv/utils/opencv.hpp"
#include "litiv/utils/platform.hpp"
#include <thread>
#include <fstream>
#include <map>
#include <set>
namespace {
uint32_t mix(uint32_t a){ a^=a>>16; a*=0x7feb352dU; a^=a>>15; a*=0x846ca68bU; a^=a>>16; return a; }
uint64_t io_fired(){ return sim::fired_by_me(sim::K_IO_OPEN)+sim::fired_by_me(sim::K_IO_WRITE)+sim::fired_by_me(sim::K_IO_READ)+sim::fired_by_me(sim::K_IO_CLOSE)+sim::fired_by_me(sim::K_IO_STAT); }
// a matrix is described by a small recipe, so that it can be rebuilt for comparison after a crash
struct Recipe { int depth,cn,dims,sz[32],roi,bits,salt; };
Recipe gen_recipe(bool anybits,bool big=false){ Recipe r; r.depth=(int)sim::gen(7); r.cn=1+(int)sim::gen(4); memset(r.sz,0,sizeof r.sz); r.dims=sim::gen_rare(2,1,4)?3:2; if(r.dims==3&&sim::gen_rare(2,1,3)) r.dims=sim::gen_bool()?4+(int)sim::gen(4):32-(int)sim::gen_rare(24,1,2); int room=600; for(int i=0;i<r.dims;i++){ r.sz[i]=r.dims>3?std::max(1,std::min(room,(int)sim::gen(5))):1+(int)sim::gen(big&&i==1?400:9); if(r.dims>3) room/=r.sz[i]; } r.roi=(r.dims==2&&sim::gen_rare(2,1,3))||(r.dims>=3&&r.dims<6&&sim::gen_rare(2,1,5)); if(r.dims>3) sim::probe("io:many-dims"); r.bits=anybits; r.salt=(int)sim::gen(1<<16); return r; }
void fill_val(uint8_t* p,int depth,uint32_t h,bool bits){ uint32_t g=mix(h+0x9e3779b9u);
    switch(depth){ case CV_8U: case CV_8S: *p=(uint8_t)h; break; case CV_16U: case CV_16S: { uint16_t v=(uint16_t)h; memcpy(p,&v,2); break; } case CV_32S: memcpy(p,&h,4); break;
        case CV_32F: { float f; if(bits){ memcpy(p,&h,4); break; } switch(h%4){ case 0: f=(float)(int)(g%2001)-1000; break; case 1: f=((float)(int)(g%65536)+1)/7.f; break; case 2: f=-((float)(g&0xffffff)+1)*1.1920929e-7f*0.37f; break; default: f=((float)(g&0xffffff)+1)*3.1e12f; } memcpy(p,&f,4); break; }
        default: { double d; if(bits){ uint64_t v=((uint64_t)h<<32)|g; memcpy(p,&v,8); break; } switch(h%4){ case 0: d=(double)(int)(g%2001)-1000; break; case 1: d=((double)g+1)/3.; break; case 2: d=-((double)g+1)*0.7e-12; break; default: d=((double)g+1)*1.7e38; } memcpy(p,&d,8); } } }
cv::Mat build(const Recipe& r,cv::Mat* whole=nullptr){ sim::Quiet q; cv::Mat m; int t=CV_MAKETYPE(r.depth,r.cn);
    if(r.dims>2&&r.roi){ int big[32]; std::vector<cv::Range> g; for(int i=0;i<r.dims;i++){ big[i]=r.sz[i]+1+i%2; g.push_back(cv::Range(1,1+r.sz[i])); } cv::Mat w(r.dims,big,t); memset(w.data,0x5a,w.total()*w.elemSize()); cv::Mat c(r.dims,r.sz,t); for(size_t i=0;i<c.total()*r.cn;i++) fill_val(c.data+i*c.elemSize1(),r.depth,mix((uint32_t)r.salt*65599u+(uint32_t)i),r.bits); m=w(g.data()); c.copyTo(m); if(whole) *whole=w; return m; } if(r.dims>2) m.create(r.dims,r.sz,t); else if(r.roi){ cv::Mat w(r.sz[0]+2,r.sz[1]+3,t); memset(w.data,0x5a,w.total()*w.elemSize()); m=w(cv::Rect(2,1,r.sz[1],r.sz[0])); if(whole) *whole=w; } else m.create(r.sz[0],r.sz[1],t);
    size_t e1=m.elemSize1(),k=0; if(r.dims>2){ for(size_t i=0;i<m.total()*r.cn;i++) fill_val(m.data+i*e1,r.depth,mix((uint32_t)r.salt*65599u+(uint32_t)k++),r.bits); } else for(int y=0;y<m.rows;y++) for(int x=0;x<m.cols*r.cn;x++) fill_val(m.ptr(y)+x*e1,r.depth,mix((uint32_t)r.salt*65599u+(uint32_t)k++),r.bits);
    return m; }
bool same(const cv::Mat& a,const cv::Mat& b,std::string& why){ // a: result (read through the checked heap), b: expected
    if(a.type()!=b.type()||a.dims!=b.dims){ why="type or dimensions"; return false; } for(int i=0;i<a.dims;i++) if(a.size[i]!=b.size[i]){ why="size"; return false; }
    if(a.dims==2){ for(int y=0;y<a.rows;y++){ sim::touch(a.ptr(y),a.cols*a.elemSize(),false); sim::Quiet q; if(memcmp(a.ptr(y),b.ptr(y),a.cols*a.elemSize())){ for(size_t k=0;k<a.cols*a.elemSize();k++) if(a.ptr(y)[k]!=b.ptr(y)[k]){ char c[64]; snprintf(c,sizeof c,"content at row %d byte %zu",y,k); why=c; break; } return false; } } }
    else { size_t n=a.total()*a.elemSize(); cv::Mat x=a,y=b; { sim::Quiet q; if(!b.isContinuous()) y=b.clone(); if(!a.isContinuous()) x=a.clone(); } if(a.isContinuous()) sim::touch(a.data,n,false); sim::Quiet q; if(memcmp(x.data,y.data,n)){ why="content"; return false; } }
    return true; }
std::string desc(const Recipe& r){ char b[120]; snprintf(b,sizeof b,"depth %d, %d channel(s), %dD %dx%dx%d%s",r.depth,r.cn,r.dims,r.sz[0],r.sz[1],r.dims>2?r.sz[2]:1,r.roi?" (submatrix)":""); return b; }
const char* const EXT[5]={"bin","txt","yml","xml","json"};
lv::MatArchiveList fmt_of(int f){ return f==0?lv::MatArchive_BINARY:f==1?lv::MatArchive_PLAINTEXT:lv::MatArchive_FILESTORAGE; }
cv::Mat prealloc(){ if(sim::gen_rare(2,1,3)){ int k=(int)sim::gen(3); return k==0?cv::Mat(3,5,CV_8UC1,cv::Scalar(7)):k==1?cv::Mat(2,2,CV_64FC2,cv::Scalar(1)):cv::Mat(1,40,CV_16SC1,cv::Scalar(3)); } return cv::Mat(); }
void io_enable(double r){ sim::enable(sim::K_IO_OPEN,r); sim::enable(sim::K_IO_WRITE,r); sim::enable(sim::K_IO_CLOSE,r); }
}
// ===================================================================================================== P12
namespace {
struct File { std::string path; int fmt; bool known=false,written=false; Recipe r; };
void verify(File& f,const char* when){ if(!f.known) return; cv::Mat m=prealloc(); 
    try{ if(sim::gen_bool()) m=lv::read(f.path,fmt_of(f.fmt)); else lv::read(f.path,m,fmt_of(f.fmt)); }catch(const std::exception& e){ sim::violation("archive-unreadable","acknowledged %s archive (%s) cannot be read %s: %s",EXT[f.fmt],desc(f.r).c_str(),when,e.what()); }
    std::string why; cv::Mat x=build(f.r); if(!same(m,x,why)) sim::violation("archive-differs","acknowledged %s archive (%s) reads back different %s: %s",EXT[f.fmt],desc(f.r).c_str(),when,why.c_str()); sim::probe("io:archive-verified"); }
void writer(std::vector<File>& fs,int ops,bool limited,bool onefmt){
    for(int k=0;k<ops;k++){ File& f=fs[sim::gen((uint32_t)fs.size())]; Recipe r=gen_recipe(f.fmt==0,f.fmt==0&&sim::gen_rare(2,1,4)); cv::Mat whole; cv::Mat m=build(r,&whole); std::string bw; { sim::Quiet q; if(!whole.empty()) bw.assign((char*)whole.data,whole.total()*whole.elemSize()); }
        uint64_t f0=io_fired(); bool ok=false; std::string err; bool had=f.known;
        { sim::IoFaults io; try{ lv::write(f.path,m,fmt_of(f.fmt)); ok=true; }catch(const std::exception& e){ sim::Quiet q; err=e.what(); } }
        sim::logf("t%d write %s %s",sim::tid(),f.path.c_str(),ok?"ok":"failed");
        if(!ok&&io_fired()==f0&&!limited) sim::violation("spurious-write-error","writing %s (%s) failed although no fault was injected: %s",f.path.c_str(),desc(r).c_str(),err.c_str());
        std::string why; cv::Mat x=build(r); SIM_CHECK(same(m,x,why),"source-modified","writing changed the caller's matrix: %s",why.c_str()); { sim::Quiet q; if(!whole.empty()&&memcmp(bw.data(),whole.data,bw.size())) sim::violation("source-modified","writing changed data around the caller's submatrix"); }
        f.known=ok; f.r=r; if(!ok) sim::probe(limited?"io:write-failed-limited":"io:write-failed"); (void)had;
        if(sim::gen_bool()) verify(f,"right after writing");
        else if(sim::gen_rare(2,1,2)) verify(fs[sim::gen((uint32_t)fs.size())],"later");
    } }
}
SIM_HARNESS_W("P12",p12_write_read,4){ io_enable(0.12); sim::enable(sim::K_CLOCKJUMP,0.05); sim::vfs::mkdirs("/simfs/a"); bool limited=sim::gen_rare(2,1,3); if(limited) sim::vfs::set_capacity(50+sim::gen(40)*100);
    int nt=1+(int)sim::gen(3); std::vector<std::vector<File>> fs(nt); for(int t=0;t<nt;t++){ int nf=1+(int)sim::gen(3); for(int i=0;i<nf;i++){ File f; f.fmt=(int)sim::gen(5); char b[64]; snprintf(b,sizeof b,"/simfs/a/t%d_%d.%s",t,i,EXT[f.fmt]); f.path=b; fs[t].push_back(f); } }
    int ops=1+(int)sim::gen(4); std::vector<std::thread> th; for(int t=1;t<nt;t++) th.emplace_back([&,t]{ writer(fs[t],ops,limited,false); }); writer(fs[0],ops,limited,false); for(auto& t:th) t.join();
    sim::vfs::set_capacity(~0ull); for(auto& v:fs) for(auto& f:v) verify(f,"at the end"); SIM_CHECK(sim::vfs::open_count()==0,"file-leak","%d file(s) left open",sim::vfs::open_count()); }
SIM_HARNESS("P12",p12_concurrent_text){ // several threads archiving in the formats that format numbers and time stamps
    sim::vfs::mkdirs("/simfs/a"); sim::enable(sim::K_CLOCKJUMP,0.05); int nt=2+(int)sim::gen(2); std::vector<File> fs(nt); std::vector<cv::Mat> ms(nt); std::vector<std::thread> th; for(int t=0;t<nt;t++){ fs[t].fmt=1+(int)sim::gen(4); char b[64]; snprintf(b,sizeof b,"/simfs/a/c%d.%s",t,EXT[fs[t].fmt]); fs[t].path=b; fs[t].r=gen_recipe(false); fs[t].known=true; ms[t]=build(fs[t].r); }
    for(int t=0;t<nt;t++) th.emplace_back([&,t]{ lv::write(fs[t].path,ms[t],fmt_of(fs[t].fmt)); verify(fs[t],"while other archives are written"); }); for(auto& t:th) t.join(); for(auto& f:fs) verify(f,"at the end"); }
SIM_HARNESS("P12",p12_full_disk){ // every possible remaining capacity: success only if everything fits
    sim::vfs::mkdirs("/simfs/a"); File f; f.fmt=(int)sim::gen(5); f.path=std::string("/simfs/a/x.")+EXT[f.fmt]; f.r=gen_recipe(f.fmt==0); cv::Mat m=build(f.r); lv::write(f.path,m,fmt_of(f.fmt)); f.known=true; verify(f,"on an empty disk"); std::string full; sim::vfs::get(f.path,full);
    for(int k=0;k<4;k++){ if(sim::gen_bool()) sim::vfs::remove(f.path); size_t miss=sim::gen_bool()?1+sim::gen(40):1+sim::gen((uint32_t)full.size()); if(miss>full.size()) miss=full.size(); sim::vfs::set_capacity(full.size()-miss); bool ok=false; try{ lv::write(f.path,m,fmt_of(f.fmt)); ok=true; }catch(const std::exception&){} 
        if(ok){ std::string now; sim::vfs::get(f.path,now); if(now.size()!=full.size()) sim::violation("write-error-lost","writing a %s archive of %zu bytes (%s) returned without error although the disk was full after %zu bytes",EXT[f.fmt],full.size(),desc(f.r).c_str(),now.size()); verify(f,"on a full disk"); }
        sim::vfs::set_capacity(~0ull); lv::write(f.path,m,fmt_of(f.fmt)); f.known=true; verify(f,"after making room"); } }
SIM_HARNESS("P12",p12_refuses_empty){ sim::vfs::mkdirs("/simfs/a"); int f=(int)sim::gen(5); std::string p=std::string("/simfs/a/e.")+EXT[f]; bool ok=false; try{ lv::write(p,cv::Mat(),fmt_of(f)); ok=true; }catch(const std::exception&){} SIM_CHECK(!ok,"empty-accepted","archiving an empty matrix was acknowledged"); 
    ok=false; try{ cv::Mat m=lv::read(sim::gen_bool()?p:std::string("/simfs/a"),fmt_of(f)); ok=true; }catch(const std::exception&){} SIM_CHECK(!ok,"missing-read","reading a missing archive returned a matrix"); 
    Recipe r=gen_recipe(false); ok=false; try{ lv::write(std::string("/simfs/nodir/x.")+EXT[f],build(r),fmt_of(f)); ok=true; }catch(const std::exception&){} SIM_CHECK(!ok,"write-error-lost","archiving into a missing directory was acknowledged"); }
// ===================================================================================================== P13
namespace {
struct Dur { int magic; Recipe a,b; int hasA,doneB; };
struct Hdr { int32_t type; uint64_t esz,cnt; int32_t nd; std::vector<int32_t> sz; size_t bytes()const{ return 24+4*sz.size(); } };
bool parse(const std::string& s,Hdr& h){ if(s.size()<24) return false; memcpy(&h.type,&s[0],4); memcpy(&h.esz,&s[4],8); memcpy(&h.cnt,&s[12],8); memcpy(&h.nd,&s[20],4); if(h.nd<0||h.nd>32||s.size()<24+4*(size_t)h.nd) return false; h.sz.resize(h.nd); for(int i=0;i<h.nd;i++) memcpy(&h.sz[i],&s[24+4*i],4); return true; }
bool try_read(const std::string& p,cv::Mat& m){ try{ if(sim::gen_bool()) m=lv::read(p,lv::MatArchive_BINARY); else lv::read(p,m,lv::MatArchive_BINARY); return true; }catch(const std::exception&){ return false; } }
}
SIM_HARNESS_W("P13",p13_crash_during_write,2){ Dur* d=(Dur*)sim::durable(); const std::string p="/simfs/a/m.bin"; std::string why;
    if(sim::phase()==1){ sim::enable(sim::K_CRASH,0.5); sim::vfs::mkdirs("/simfs/a"); d->hasA=sim::gen_bool(); d->doneB=0; if(d->hasA){ d->a=gen_recipe(true,sim::gen_bool()); lv::write(p,build(d->a),lv::MatArchive_BINARY); } d->b=gen_recipe(true,sim::gen_bool()); cv::Mat m=build(d->b); { sim::IoFaults io; lv::write(p,m,lv::MatArchive_BINARY); } d->doneB=1; }
    cv::Mat m=prealloc(); if(try_read(p,m)){ bool isb=same(m,build(d->b),why); bool isa=!isb&&d->hasA&&!d->doneB&&same(m,build(d->a),why); SIM_CHECK(isa||isb,"torn-archive-accepted","archive cut short by a crash was read as a matrix that was never written (%s)",why.c_str()); sim::probe(sim::phase()==2?"io:intact-after-crash":"io:no-crash"); }
    else { SIM_CHECK(!d->doneB,"archive-unreadable","completed archive cannot be read"); sim::probe("io:torn-detected"); }
    // the path stays usable
    Recipe c=gen_recipe(true); lv::write(p,build(c),lv::MatArchive_BINARY); cv::Mat n; SIM_CHECK(try_read(p,n)&&same(n,build(c),why),"archive-unreadable","archive cannot be rewritten after a crash"); }
SIM_HARNESS("P13",p13_truncated){ sim::vfs::mkdirs("/simfs/a"); const std::string p="/simfs/a/m.bin"; Recipe r=gen_recipe(true,sim::gen_rare(2,1,3)); lv::write(p,build(r),lv::MatArchive_BINARY); std::string s; sim::vfs::get(p,s);
    for(int k=0;k<6;k++){ size_t n=sim::gen_bool()?sim::gen((uint32_t)s.size()):s.size()-1-sim::gen((uint32_t)std::min<size_t>(s.size(),60)); sim::vfs::put(p,s.substr(0,n)); cv::Mat m=prealloc(); SIM_CHECK(!try_read(p,m),"torn-archive-accepted","archive of %zu bytes cut to %zu bytes (%s) was read without error",s.size(),n,desc(r).c_str()); }
    sim::vfs::put(p,s); cv::Mat m; std::string why; SIM_CHECK(try_read(p,m)&&same(m,build(r),why),"archive-unreadable","intact archive cannot be read"); }
SIM_HARNESS_W("P13",p13_damaged_header,2){ sim::vfs::mkdirs("/simfs/a"); const std::string p="/simfs/a/m.bin"; Recipe r=gen_recipe(true); lv::write(p,build(r),lv::MatArchive_BINARY); std::string s; sim::vfs::get(p,s); Hdr h0; SIM_CHECK(parse(s,h0),"harness-error","unexpected header");
    for(int k=0;k<6;k++){ std::string t=s; int edits=1+(int)sim::gen_rare(3,1,3); for(int e=0;e<edits;e++){ int w=(int)sim::gen(6); auto put32=[&](size_t o,uint32_t v){ memcpy(&t[o],&v,4); }; auto put64=[&](size_t o,uint64_t v){ memcpy(&t[o],&v,8); }; static const int64_t ed[]={0,1,2,3,-1,-2,0x7fffffff,-0x7fffffff-1ll,0x10000,0x40000000,1ll<<32,1ll<<33,(1ll<<32)+1,1ll<<62,0x7fffffffffffffffll}; int64_t v=sim::gen_bool()?ed[sim::gen(15)]:(int64_t)sim::gen(200);
            int32_t cur; if(w==0){ memcpy(&cur,&t[0],4); put32(0,sim::gen_bool()?(uint32_t)v:(uint32_t)CV_MAKETYPE((int)sim::gen(8),1+(int)sim::gen(8))); } else if(w==1) put64(4,(uint64_t)v); else if(w==2) put64(12,sim::gen_bool()?(uint64_t)v:h0.cnt+(uint64_t)sim::gen(5)-2); else if(w==3) put32(20,(uint32_t)v); else if(w==4){ size_t o=24+4*sim::gen((uint32_t)h0.nd); memcpy(&cur,&t[o],4); put32(o,sim::gen_bool()?(uint32_t)v:(uint32_t)(cur+(int)sim::gen(5)-2)); } else { size_t o=sim::gen((uint32_t)h0.bytes()); t[o]=(char)(t[o]^(1<<sim::gen(8))); } }
        if(sim::gen_rare(2,1,6)&&h0.nd<=20){ /* sizes whose product wraps around to the stored element count */ static const uint32_t f[]={65535,65537,641,6700417,65535,65537,641,6700417}; std::vector<uint32_t> sz(h0.sz.begin(),h0.sz.end()); for(uint32_t x:f) sz.insert(sz.begin()+sim::gen((uint32_t)sz.size()+1),x); t=s.substr(0,20)+std::string(4+4*sz.size(),0)+s.substr(h0.bytes()); uint32_t nd=(uint32_t)sz.size(); memcpy(&t[20],&nd,4); memcpy(&t[24],sz.data(),4*sz.size()); sim::vfs::put(p,t); cv::Mat m; SIM_CHECK(!try_read(p,m),"damaged-archive-accepted","archive whose header gives %u sizes with a product far above its %llu elements was read without error",nd,(unsigned long long)h0.cnt); sim::probe("io:wrapping-sizes"); continue; }
        if(t==s) continue; sim::vfs::put(p,t); cv::Mat m=prealloc(); sim::logf("read damaged header"); if(!try_read(p,m)){ sim::probe("io:damage-detected"); continue; }
        Hdr h; if(!parse(t,h)) sim::violation("damaged-archive-accepted","archive with %d dimensions in its header was read without error",h.nd);
        bool ok=m.type()==h.type&&m.dims==h.nd&&m.elemSize()==h.esz&&m.total()==h.cnt; for(int i=0;ok&&i<h.nd;i++) ok=m.size[i]==h.sz[i]; if(ok) ok=h.bytes()+m.total()*m.elemSize()<=t.size(); 
        SIM_CHECK(ok,"damaged-archive-accepted","archive whose header (type %d, element size %llu, count %llu, %d dims) contradicts itself or its data was read as %dD matrix of type %d with %zu elements",h.type,(unsigned long long)h.esz,(unsigned long long)h.cnt,h.nd,m.dims,m.type(),m.total());
        sim::touch(m.data,m.total()*m.elemSize(),false); sim::Quiet q; SIM_CHECK(!memcmp(m.data,&t[h.bytes()],m.total()*m.elemSize()),"damaged-archive-accepted","matrix differs from the stored data"); sim::probe("io:consistent-damage"); } }
SIM_HARNESS("P13",p13_read_faults){ sim::enable(sim::K_IO_READ,0.3); sim::enable(sim::K_IO_OPEN,0.1); sim::enable(sim::K_IO_CLOSE,0.1); sim::vfs::mkdirs("/simfs/a"); std::string why; int nt=1+(int)sim::gen(2); std::vector<Recipe> r; for(int t=0;t<nt;t++){ r.push_back(gen_recipe(true,sim::gen_bool())); char b[64]; snprintf(b,sizeof b,"/simfs/a/m%d.bin",t); lv::write(b,build(r[t]),lv::MatArchive_BINARY); }
    auto f=[&](int t){ char b[64]; snprintf(b,sizeof b,"/simfs/a/m%d.bin",t); for(int k=0;k<5;k++){ cv::Mat m=prealloc(); uint64_t f0=io_fired(); bool ok; { sim::IoFaults io; ok=try_read(b,m); } std::string w; if(ok) SIM_CHECK(same(m,build(r[t]),w),"read-error-lost","matrix read under read faults differs (%s) without an error",w.c_str()); else SIM_CHECK(io_fired()>f0,"archive-unreadable","intact archive could not be read although no fault was injected"); sim::probe(ok?"io:read-ok":"io:read-failed"); } };
    std::vector<std::thread> th; for(int t=1;t<nt;t++) th.emplace_back(f,t); f(0); for(auto& t:th) t.join(); SIM_CHECK(sim::vfs::open_count()==0,"file-leak","%d file(s) left open",sim::vfs::open_count()); }
// ===================================================================================================== P19
SIM_HARNESS_W("P19",p19_create_dirs,3){ double fr=sim::gen_bool()?0.1:0; if(fr){ sim::enable(sim::K_IO_OPEN,fr); sim::enable(sim::K_IO_STAT,fr); } sim::vfs::mkdirs("/simfs/o"); if(sim::gen_rare(2,1,3)) sim::vfs::put("/simfs/o/d1","file in the way"); if(sim::gen_rare(2,1,4)) sim::vfs::mkdirs("/simfs/o/d0"); if(sim::gen_rare(2,1,5)) sim::vfs::make_readonly("/simfs/o",true);
    int nt=1+(int)sim::gen(4); auto path=[&]{ int k=(int)sim::gen(4); std::string s="/simfs/o/d"+std::to_string(sim::gen(2)); if(k==1) s+="/s"; if(k==2) s+="/s/t"; if(k==3) s+="/"; return s; };
    auto f=[&]{ int n=1+(int)sim::gen(4); for(int i=0;i<n;i++){ std::string p=path(); bool before=sim::vfs::is_dir(p); uint64_t f0=io_fired(); bool ok; { sim::IoFaults io; ok=lv::createDirIfNotExist(p); } bool after=sim::vfs::is_dir(p); bool flt=io_fired()>f0; sim::logf("t%d mkdir %s -> %d",sim::tid(),p.c_str(),ok); (void)before;
            if(ok) SIM_CHECK(after,"dir-false-success","createDirIfNotExist('%s') returned true but there is no such directory",p.c_str()); else if(!flt) { /* directories are never removed here: absent before the call's end means absent at it */ SIM_CHECK(!after||!before,"dir-false-failure","createDirIfNotExist('%s') returned false although the directory exists",p.c_str()); if(after) sim::probe("io:dir-created-later"); }
            if(!ok&&!flt&&before) sim::violation("dir-false-failure","createDirIfNotExist('%s') returned false although the directory existed before the call",p.c_str());
            bool e; { e=lv::checkIfExists(p); } SIM_CHECK(!ok||e,"dir-false-success","directory '%s' reported as created is not found",p.c_str()); } };
    std::vector<std::thread> th; for(int t=1;t<nt;t++) th.emplace_back(f); f(); for(auto& t:th) t.join(); }
SIM_HARNESS("P19",p19_same_dir){ sim::vfs::mkdirs("/simfs/o"); int nt=2+(int)sim::gen(3); std::vector<int> res(nt,-1); std::vector<std::thread> th; std::vector<std::string> ps; for(int t=0;t<nt;t++) ps.push_back(sim::gen_rare(2,1,4)?"/simfs/o/x/":"/simfs/o/x");
    for(int t=0;t<nt;t++) th.emplace_back([&,t]{ res[t]=lv::createDirIfNotExist(ps[t]); }); for(auto& t:th) t.join(); for(int t=0;t<nt;t++) SIM_CHECK(res[t]==1,"dir-false-failure","caller %d of %d creating the same directory at the same time was told it failed",t,nt); SIM_CHECK(sim::vfs::is_dir("/simfs/o/x"),"dir-false-success","directory missing"); }
namespace { struct Ent{ std::string n; bool dir; }; }
SIM_HARNESS_W("P19",p19_listing,2){ sim::enable(sim::K_DIRORDER,0.9); std::vector<Ent> es; std::set<std::string> seen; int n=(int)sim::gen(24); sim::vfs::mkdirs("/simfs/l"); static const char* const pre[]={"in","IN","in_","gt",".h","0","000","bg","Thumbs","Z"}; for(int i=0;i<n;i++){ std::string s=std::string(pre[sim::gen(10)])+(sim::gen_bool()?std::to_string(sim::gen(120)):"")+(sim::gen_bool()?".png":""); if(sim::gen_rare(2,1,12)) s="Thumbs.db"; if(!seen.insert(s).second) continue; Ent e{s,sim::gen_rare(2,1,3)!=0}; es.push_back(e); if(e.dir) sim::vfs::mkdirs("/simfs/l/"+s); else sim::vfs::put("/simfs/l/"+s,"x"); }
    std::vector<std::string> ef,ed; for(auto& e:es){ if(e.dir) ed.push_back("/simfs/l/"+e.n); else if(e.n!="Thumbs.db") ef.push_back("/simfs/l/"+e.n); } std::sort(ef.begin(),ef.end()); std::sort(ed.begin(),ed.end());
    auto cmp=[&](const std::vector<std::string>& a,const std::vector<std::string>& b,const char* w){ if(a!=b) sim::violation("listing-wrong","%s of %zu entries returned %zu paths, expected %zu in sorted order",w,es.size(),a.size(),b.size()); };
    auto f=[&]{ for(int k=0;k<2;k++){ std::string d=sim::gen_bool()?"/simfs/l":"/simfs/l/"; cmp(lv::getFilesFromDir(d),ef,"file listing"); cmp(lv::getSubDirsFromDir(d),ed,"directory listing"); } };
    int nt=1+(int)sim::gen_rare(3,1,2); std::vector<std::thread> th; for(int t=1;t<nt;t++) th.emplace_back(f); f(); for(auto& t:th) t.join();
    SIM_CHECK(lv::getFilesFromDir("/simfs/none").empty()&&lv::getSubDirsFromDir("/simfs/none").empty(),"listing-wrong","listing of a missing directory is not empty"); }
SIM_HARNESS("P19",p19_listing_while_changing){ // entries present for the whole call must be listed, entries never present must not
    sim::enable(sim::K_DIRORDER,0.9); std::set<std::string> stable,churn; sim::vfs::mkdirs("/simfs/l"); int n=1+(int)sim::gen(12); for(int i=0;i<n;i++){ std::string s="/simfs/l/s"+std::to_string(i); sim::vfs::put(s,"x"); stable.insert(s); } int c=1+(int)sim::gen(10);
    std::thread t([&]{ for(int i=0;i<c;i++){ std::string s="/simfs/l/c"+std::to_string(i); { sim::Quiet q; churn.insert(s); } lv::write(s,cv::Mat(1,1,CV_8UC1,cv::Scalar(1)),lv::MatArchive_BINARY); sim::yield_point(); } });
    for(int k=0;k<4;k++){ auto v=lv::getFilesFromDir("/simfs/l"); sim::Quiet q; std::set<std::string> s(v.begin(),v.end()); SIM_CHECK(s.size()==v.size(),"listing-wrong","an entry is listed twice"); SIM_CHECK(std::is_sorted(v.begin(),v.end()),"listing-wrong","listing is not sorted"); for(auto& x:stable) SIM_CHECK(s.count(x),"listing-wrong","file '%s' present throughout is not listed",x.c_str()); for(auto& x:s) SIM_CHECK(stable.count(x)||churn.count(x),"listing-wrong","'%s' listed but never created",x.c_str()); }
    t.join(); }
// ===================================================================================================== P21
SIM_HARNESS("P21",p21_prealloc){ io_enable(0.15); sim::enable(sim::K_IO_STAT,0.05); bool limited=sim::gen_rare(2,1,3); sim::vfs::mkdirs("/simfs/p"); const std::string p="/simfs/p/f.bin"; std::string old; if(sim::gen_bool()){ size_t n=sim::gen(300); old.resize(n); for(size_t i=0;i<n;i++) old[i]=(char)(mix((uint32_t)i)|1); sim::vfs::put(p,old); } bool exists=sim::vfs::exists(p);
    for(int k=0;k<3;k++){ size_t want=sim::gen_bool()?sim::gen(600):sim::gen(40000); bool zero=sim::gen_bool(); if(limited) sim::vfs::set_capacity(sim::vfs::used()+sim::gen(600)); uint64_t f0=io_fired(); bool ok=false; std::string err; int64_t pos=-2; std::string head,pat; bool use=false,wrote=false;
        { sim::IoFaults io; try{ std::fstream s=lv::createBinFileWithPrealloc(p,want,zero); ok=true; SIM_CHECK(s.is_open()&&s.good(),"prealloc-bad-stream","preallocating raised no error but returned a failed stream"); { sim::Quiet q; pos=(int64_t)s.tellp(); std::string now; sim::vfs::get(p,now); head=now; } if(sim::gen_bool()&&want){ use=true; pat.resize(want); for(size_t i=0;i<want;i++) pat[i]=(char)mix((uint32_t)(i*7+k)); s.write(pat.data(),want); s.flush(); wrote=s.good(); } }catch(const std::exception& e){ sim::Quiet q; err=e.what(); } }
        std::string now; bool ex=sim::vfs::get(p,now); sim::logf("prealloc %zu -> %d",want,ok); 
        if(use&&ok){ if(wrote) SIM_CHECK(now.size()==head.size()&&!memcmp(now.data(),pat.data(),pat.size())&&!memcmp(now.data()+pat.size(),head.data()+pat.size(),head.size()-pat.size()),"prealloc-write-lost","writing %zu bytes through the returned stream left a file with other content (%zu bytes)",pat.size(),now.size()); else SIM_CHECK(io_fired()>f0,"prealloc-write-refused","writing over the preallocated range failed although no fault was injected"); sim::probe("io:prealloc-used"); std::string h2=head; h2.swap(now); }
        if(exists){ SIM_CHECK(ex,"prealloc-lost-file","existing file disappeared"); SIM_CHECK(now.size()>=old.size()&&!memcmp(now.data(),old.data(),old.size()),"prealloc-lost-data","preallocating changed existing content (%zu bytes before, %zu after)",old.size(),now.size()); }
        if(ok){ SIM_CHECK(head.size()>=want,"prealloc-short","file has %zu of %zu preallocated bytes although no error was raised",head.size(),want); SIM_CHECK(head.size()==std::max(want,old.size()),"prealloc-size","file has %zu bytes, expected %zu",head.size(),std::max(want,old.size())); SIM_CHECK(pos==0,"prealloc-position","write position is %lld",(long long)pos); if(zero) for(size_t i=old.size();i<head.size();i++) SIM_CHECK(head[i]==0,"prealloc-not-zero","byte %zu is not zero",i); sim::probe("io:prealloc-ok"); }
        else { SIM_CHECK(io_fired()>f0||limited,"spurious-write-error","preallocating failed although no fault was injected: %s",err.c_str()); sim::probe("io:prealloc-failed"); }
        if(limited) sim::vfs::set_capacity(~0ull); sim::vfs::get(p,now); old=now; exists=ex; } }
