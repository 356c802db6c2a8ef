// The repository's application, compiled with several sets of its compile-time options (see APPS in targets.py).
#include "litiv/datasets.hpp"
#include "litiv/video.hpp"
#include <iostream>
#include <iomanip>
#include <future>
namespace cd_show {
#define main app_main
#include "apps/cd_show.inc"
#undef main
}
int run_cd_show(){ char* a[1]={nullptr}; return cd_show::app_main(0,a); }
namespace cd_eval {
#define main app_main
#include "apps/cd_eval.inc"
#undef main
}
int run_cd_eval(){ char* a[1]={nullptr}; return cd_eval::app_main(0,a); }
namespace cd_many {
#define main app_main
#include "apps/cd_many.inc"
#undef main
}
int run_cd_many(){ char* a[1]={nullptr}; return cd_many::app_main(0,a); }
