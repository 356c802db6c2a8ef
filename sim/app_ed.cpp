// The repository's application, compiled with several sets of its compile-time options (see APPS in targets.py).
#include "litiv/datasets.hpp"
#include "litiv/imgproc.hpp"
#include <iostream>
#include <iomanip>
#include <future>
namespace ed_show {
#define main app_main
#include "apps/ed_show.inc"
#undef main
}
int run_ed_show(){ char* a[1]={nullptr}; return ed_show::app_main(0,a); }
namespace ed_eval {
#define main app_main
#include "apps/ed_eval.inc"
#undef main
}
int run_ed_eval(){ char* a[1]={nullptr}; return ed_eval::app_main(0,a); }
namespace ed_many {
#define main app_main
#include "apps/ed_many.inc"
#undef main
}
int run_ed_many(){ char* a[1]={nullptr}; return ed_many::app_main(0,a); }
