// Stand-ins for GUI entry points (no display in the simulator) and the build-time hook.
#include <opencv2/core.hpp>
#include <opencv2/highgui.hpp>
extern "C" { size_t sim_cache_min_value=10*1024*1024; size_t sim_cache_min_size(){ return sim_cache_min_value; } int sim_frame_wv=320,sim_frame_hv=240; int sim_frame_w(){ return sim_frame_wv; } int sim_frame_h(){ return sim_frame_hv; } }
extern "C" void sim_warmup(){ cv::setNumThreads(0); cv::theRNG(); cv::Mat m(4,4,CV_8UC1,cv::Scalar(1)); cv::Mat n; m.convertTo(n,CV_32F); }
namespace cv {
void imshow(const String&,InputArray){} int waitKey(int){return -1;} void namedWindow(const String&,int){} void destroyWindow(const String&){} void destroyAllWindows(){} void setMouseCallback(const String&,MouseCallback,void*){} void resizeWindow(const String&,int,int){} void moveWindow(const String&,int,int){} void setWindowProperty(const String&,int,double){} int startWindowThread(){return 0;}
}
