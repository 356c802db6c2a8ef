#!/usr/bin/env python3
"""Writes sim/cv_names.inc: wrappers of OpenCV functions (interposed by the simulator executables) that declare which
matrices are read and written, so that races through uninstrumented OpenCV code are seen. Run by hand when OpenCV changes."""
import subprocess,re,os,glob
VOID="""bitwise_or bitwise_and bitwise_xor bitwise_not addWeighted meanStdDev cartToPolar polarToCart magnitude phase copyMakeBorder convertScaleAbs LUT add subtract multiply divide absdiff exp log max min pow flip
merge split compare hconcat vconcat inRange normalize transpose reduce repeat minMaxIdx minMaxLoc copyTo sqrt dft idft dct randu randn sort sortIdx extractChannel insertChannel findNonZero setIdentity transform scaleAdd patchNaNs rotate
medianBlur warpAffine warpPerspective sepFilter2D GaussianBlur findContours morphologyEx applyColorMap matchTemplate bilateralFilter accumulate accumulateProduct accumulateWeighted accumulateSquare blur Canny Sobel erode dilate Scharr resize circle line rectangle ellipse putText
pyrDown pyrUp cvtColor fillPoly filter2D integral Laplacian boxFilter sqrBoxFilter remap equalizeHist distanceTransform drawContours adaptiveThreshold polylines""".split()
RET={"countNonZero":"int","sum":"cv::Scalar","mean":"cv::Scalar","norm":"double","threshold":"double","kmeans":"double","floodFill":"int","EMD":"float","imencode":"bool","imwrite":"bool","connectedComponents":"int","boundingRect":"cv::Rect","contourArea":"double","checkRange":"bool","hasNonZero":"bool"}
def split(a):
    out=[];d=0;c=""
    for ch in a:
        if ch in "<(": d+=1
        if ch in ">)": d-=1
        if ch=="," and d==0: out.append(c.strip()); c=""
        else: c+=ch
    if c.strip(): out.append(c.strip())
    return out
o=["// generated by tools/gen_cvwrap.py"]
n=0
for lib in ("core","imgproc","imgcodecs","features2d"):
    f="/usr/lib/x86_64-linux-gnu/libopencv_%s.so"%lib
    for l in subprocess.run(["nm","-D","--defined-only",f],capture_output=True,text=True).stdout.splitlines():
        p=l.split()
        if len(p)<3 or p[1] not in "TW": continue
        m=p[2].split("@")[0]
        if not m.startswith("_ZN2cv"): continue
        d=subprocess.run(["c++filt",m],capture_output=True,text=True).stdout.strip()
        g=re.match(r"^cv::(\w+)\((.*)\)$",d)
        if not g or not re.search("_(Input|Output)",g[2]): continue
        name=g[1]
        if name in RET: r=RET[name]
        elif name in VOID: r="void"
        else: continue
        if "cv::Mat const*" in g[2]: continue
        a=split(g[2].replace("std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >","std::string"))
        ps=", ".join("%s a%d"%(t,i) for i,t in enumerate(a)); cs=", ".join("a%d"%i for i in range(len(a)))
        pre="";post=""
        for i,t in enumerate(a):
            if t=="cv::_InputArray const&": pre+=" in(a%d);"%i
            elif t in("cv::_OutputArray const&","cv::_InputOutputArray const&"):
                if "InOut" in t or "InputOutput" in t: pre+=" in(a%d);"%i
                pre+=" Out o%d(a%d);"%(i,i); post+=" o%d.done();"%i
        n+=1; w="w%d_%s"%(n,name)
        o.append('%s %s(%s) asm("%s");'%(r,w,ps,m))
        call="real(%s)"%cs
        o.append('%s %s(%s){ REAL("%s",%s(%s)); Guard g; if(!g.top) return %s;%s %s%s%s }'%(r,w,ps,m,r+"(*)",", ".join(a),call,pre,("" if r=="void" else "auto r=")+call+";",post,"" if r=="void" else " return r;"))
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","sim","cv_names.inc"),"w").write("\n".join(o)+"\n"); print(n,"functions")
