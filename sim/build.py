#!/usr/bin/env python3
"""Builds simulator binaries from the working tree of /repo (own build files; nothing is written to /repo)."""
import os,re,sys,hashlib,subprocess,json,concurrent.futures as cf
HERE=os.path.dirname(os.path.abspath(__file__)); ROOT=os.path.dirname(HERE)
REPO=os.environ.get("SIM_REPO","/repo")
BUILD=os.environ.get("SIM_BUILD",os.path.join(ROOT,".build"))
JOBS=int(os.environ.get("SIM_JOBS",str(os.cpu_count() or 8)))
VALS={"LITIV_VERSION":"1.6.0","LITIV_VERSION_MAJOR":"1","LITIV_VERSION_MINOR":"6","LITIV_VERSION_PATCH":"0","GIT_SHA1":"0"*40,
"USE_PROFILING":"OFF","USE_OPENCV_MAT_CONSTR_FIX":"0","USE_OPENCV_x264_TEST":"ON","BUILD_TESTS_FULL_FLOAT":"OFF","USE_SIGNEXT_SHIFT_TRICK":"OFF",
"USE_FAST_SQRT_FOR_CDIST":"OFF","USE_BSDS500_BENCHMARK":"ON","USE_KINECTSDK_STANDALONE":"TRUE","USE_CVCORE_WITH_UTILS":"ON",
"EXTERNAL_DATA_ROOT":"/simfs/data","SAMPLES_DATA_ROOT":"/repo/samples/data","TEST_INPUT_DATA_ROOT":"/repo/modules/test/data","TEST_OUTPUT_DATA_ROOT":"/simfs/testout",
"DATASETS_CACHE_SIZE":"4096","USE_RLUTIL_ANSI_DEFINE":"OFF","RLUTIL_STRING_TYPE":"const char*","TARGET_PLATFORM_x64":"TRUE","BUILD_SHARED_LIBS":"ON",
"USE_LINK_TIME_OPTIM":"OFF","USE_FAST_MATH":"OFF","USE_OPENMP":"ON","USE_WORLD_SOURCE_GLOB":"OFF","USE_SOSPD":"0","USE_OFDIS":"ON","USE_LZ4":"OFF",
"USE_GLSL":"OFF","TARGET_GL_VER_MAJOR":"4","TARGET_GL_VER_MINOR":"4","USE_GLEW_EXPERIMENTAL":"ON","USE_GLFW":"OFF","USE_FREEGLUT":"OFF","USE_VPTZ_STANDALONE":"ON",
"USE_CUDA":"OFF","CUDA_64_BIT_DEVICE_CODE":"ON","CUDA_PROPAGATE_HOST_FLAGS":"ON","USE_OPENCL":"0","USE_BOOST":"OFF","USE_OPENGM":"OFF","USE_OPENGM_WITH_EXTLIB":"ON",
"HAVE_OPENGM_EXTLIB_FASTPD":"OFF","HAVE_OPENGM_EXTLIB_QPBO":"OFF","USE_NEON":"OFF","USE_MMX":"OFF","USE_SSE":"ON","USE_SSE2":"ON","USE_SSE3":"ON","USE_SSSE3":"ON",
"USE_SSE4_1":"ON","USE_SSE4_2":"ON","USE_POPCNT":"ON","USE_AVX":"ON","USE_AVX2":"ON","USE_STL_ALIGNED_ALLOC":"1","USE_POSIX_ALIGNED_ALLOC":"1"}
for k in ("CHRONO","DATE_TIME","SYSTEM","FILESYSTEM","PROGRAM_OPTIONS","REGEX","SERIALIZATION"): VALS["Boost_%s_FOUND"%k]="1"
COMPAT="/opt/vp/support/compat/opencv4_compat.hpp"

def gen_defines():
    src=open(os.path.join(REPO,"modules/utils/include/litiv/utils/defines.hpp.in")).read()
    out=re.sub(r"@([A-Za-z_0-9]+)@",lambda m:VALS.get(m.group(1),""),src)
    d=os.path.join(BUILD,"gen/litiv/utils"); os.makedirs(d,exist_ok=True); p=os.path.join(d,"defines.hpp")
    if not os.path.exists(p) or open(p).read()!=out: open(p,"w").write(out)
    for name,tmpl in (("defines","modules/utils/include/litiv/utils/defines.hpp.in"),("utils","modules/vptz/include/litiv/vptz/utils.hpp.in")):
        V=dict(VALS,USE_GLSL="ON",USE_GLFW="ON"); out=re.sub(r"@([A-Za-z_0-9]+)@",lambda m:V.get(m.group(1),""),open(os.path.join(REPO,tmpl)).read())
        d=os.path.join(BUILD,"gen/litiv/vptz"); os.makedirs(d,exist_ok=True); p=os.path.join(d,name+".hpp")
        if not os.path.exists(p) or open(p).read()!=out: open(p,"w").write(out)

APPS={} # variants of the repository's applications: same source, other values of its compile-time options
def gen_apps(names):
    for n in names:
        src,defs=APPS[n]; out="".join("#undef %s\n"%k for k in defs)+open(os.path.join(REPO,src)).read()
        for k,v in defs.items(): out=re.sub(r"(?m)^([ \t]*#[ \t]*define[ \t]+%s)[ \t]+[^\s/]+"%k,lambda m:m.group(1)+" "+v,out)
        d=os.path.join(BUILD,"gen/apps"); os.makedirs(d,exist_ok=True); p=os.path.join(d,n+".inc")
        if not os.path.exists(p) or open(p).read()!=out: open(p,"w").write(out)
def repo_flags():
    inc=[os.path.join(BUILD,"gen")]+[os.path.join(REPO,"modules",m,"include") for m in ("utils","imgproc","features2d","datasets","video","vptz")]+[os.path.join(REPO,"3rdparty",x,"include") for x in ("ofdis","bsds500")]+["/usr/include/eigen3"]
    f=["-DLITIV_BUILD","-DLITIV_DEBUG=0","-DLV_EXPORT_API","-DLV_IMPORT_API","-DDATASETS_LITIV2018_DATA_VERSION=2","-DLITIV_SIM_CACHE_MIN_SIZE=sim_cache_min_size()","-DLITIV_SIM_DEFAULT_FRAME_SIZE=sim_frame_w(),sim_frame_h()"]
    f+=["-I"+i for i in inc]+["-isystem","/usr/include/opencv4"]
    if os.path.exists(COMPAT): f+=["-include",COMPAT]
    f+=["-include",os.path.join(HERE,"hookdecl.hpp"),"-fopenmp","-DNDEBUG","-std=gnu++14","-fno-pie","-w","-fpermissive","-march=x86-64-v3","-g1"]
    return f
TSAN=["-fsanitize=thread","-O1"]
RT=["rt_core","rt_libc","rt_vfs","rt_main","rt_mem"]
U="modules/utils/src/"
UTILS=[U+"cxx.cpp",U+"opencv.cpp",U+"platform.cpp"]
OFD=["3rdparty/ofdis/src/"+x for x in ("ofdis.cpp","oflow.cpp","patch.cpp","patchgrid.cpp","refine_variational.cpp","fdf/opticalflow_aux.cpp","fdf/image.c","fdf/solver.c")]
TARGETS={}
def target(name,harness,repo,libs,plain=(),apps=()):
    TARGETS[name]=dict(harness=harness,repo=repo,libs=libs,plain=list(plain),apps=list(apps))
CV=["-Wl,--no-as-needed","-lopencv_core","-lopencv_imgproc","-lopencv_imgcodecs"]
exec(open(os.path.join(HERE,"targets.py")).read())

def hash_file(p):
    h=hashlib.sha1()
    with open(p,"rb") as f: h.update(f.read())
    return h.hexdigest()
def run(cmd):
    r=subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    if r.returncode: raise RuntimeError("command failed: %s\n%s"%(" ".join(cmd),r.stdout[-6000:]))
def compile_one(src,flags,tag):
    key=hashlib.sha1((src+"\0"+"\0".join(flags)).encode()).hexdigest()[:16]
    o=os.path.join(BUILD,"obj",tag+"_"+os.path.basename(src).replace(".","_")+"_"+key+".o"); stamp=o+".json"
    os.makedirs(os.path.dirname(o),exist_ok=True)
    try:
        deps=json.load(open(stamp))
        if os.path.exists(o) and all(hash_file(d)==h for d,h in deps.items()): return o
    except Exception: pass
    d=o+".d"; fl=flags
    if src.endswith(".c"): # C sources of the bundled libraries: same flags without the C++-only ones
        fl=[]; skip=False
        for i,f in enumerate(flags):
            if skip: skip=False; continue
            if f=="-include": skip=True; continue
            if f.startswith("-std=") or f=="-fpermissive": continue
            fl.append(f)
    run([("gcc" if src.endswith(".c") else "g++")]+fl+["-MMD","-MF",d,"-c",src,"-o",o])
    deps=re.sub(r"^[^:]*:","",open(d).read().replace("\\\n"," "),count=1).split()
    json.dump({x:hash_file(x) for x in deps if not x.startswith("/usr/")},open(stamp,"w"))
    if tag=="rt" and not src.endswith("rt_mem.cpp"):
        run(["objcopy","--redefine-sym","memcpy=sim_memcpy","--redefine-sym","memset=sim_memset","--redefine-sym","memmove=sim_memmove",o])
    return o
def build(name):
    t=TARGETS[name]; gen_defines(); gen_apps(t.get("apps",())); rf=repo_flags(); jobs=[]
    for r in t["repo"]: jobs.append((os.path.join(REPO,r),rf+TSAN,"repo"))
    for h in t["harness"]: jobs.append((os.path.join(HERE,h),rf+TSAN+["-I"+HERE],"harness"))
    for r in t["plain"]:
        jobs.append((os.path.join(REPO,r[5:]) if r.startswith("repo:") else os.path.join(HERE,r),rf+["-O1","-I"+HERE],"plain"))
    for r in RT: jobs.append((os.path.join(HERE,r+".cpp"),["-std=gnu++17","-O2","-g1","-fno-pie","-w","-fno-builtin-malloc","-fno-threadsafe-statics","-fno-tree-loop-distribute-patterns"],"rt"))
    jobs.sort(key=lambda j:-(os.path.getsize(j[0])+(200000 if j[2]=="harness" else 0)))
    with cf.ThreadPoolExecutor(JOBS) as ex: objs=list(ex.map(lambda j:compile_one(*j),jobs))
    exe=os.path.join(BUILD,"bin",name); os.makedirs(os.path.dirname(exe),exist_ok=True)
    key=hashlib.sha1("".join(hash_file(o) for o in objs).encode()+repr(t["libs"]).encode()).hexdigest()
    if os.path.exists(exe) and os.path.exists(exe+".key") and open(exe+".key").read()==key: return exe
    run(["g++","-no-pie","-rdynamic","-Wl,--unresolved-symbols=ignore-in-object-files","-o",exe]+objs+t["libs"]+["-lpthread","-ldl"])
    open(exe+".key","w").write(key); return exe
if __name__=="__main__":
    for n in (sys.argv[1:] or list(TARGETS)): print(build(n))
