// Simulated window system (no display): named windows, what they show, scripted keys, mouse events delivered by waitKey or by a window thread.
#pragma once
#include <opencv2/core.hpp>
#include <opencv2/highgui.hpp>
#include <opencv2/imgproc.hpp>
#include <string>
#include <vector>
#include <map>
namespace gui {
struct Shown { std::string win; cv::Mat img; size_t ev_begin; };                 // ev_begin: events delivered when it was shown
struct Call { cv::Point pos,in; cv::Size tile,disp; int ev,flags; int gen; };     // what a user callback received
struct Event { int x,y,ev,flags; size_t st0,st1; int gen0,gen1; std::vector<Call> calls; bool done; };
struct World { bool threaded=false; bool fail_show=false; std::map<std::string,std::pair<cv::MouseCallback,void*>> wins; std::vector<Shown> shown; std::vector<Event> events; std::vector<int> keys; size_t key=0; std::vector<int> delays; int opened=0,closed=0,failed=0; size_t st_done=0,st_begun=0; int gen_done=0,gen_begun=0; int per_wait=0; int W=100,H=100; void* mtx=nullptr; int flags=-1; int spare=27; };
World& world();
void reset(bool threaded);
void deliver(const std::string& win,int x,int y,int ev,int flags);               // one event, on the calling thread
void user_close(const std::string& win);
void rnd_event(int& x,int& y,int& ev,int& flags);
}
