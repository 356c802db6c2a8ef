#!/bin/bash
# exit 0: property holds; nonzero: broken. Run with cwd /repo after the build.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
INC="-I$R/_build/modules/utils/include"; for m in utils imgproc features2d datasets video; do INC="$INC -I$R/modules/$m/include"; done
COMPAT=/opt/vp/support/compat/opencv4_compat.hpp; [ -f $COMPAT ] && INC="$INC -include $COMPAT"
g++ -O1 -std=gnu++14 -fopenmp -w -fpermissive -march=native -DNDEBUG -DLITIV_BUILD -DLITIV_DEBUG=0 -DLV_IMPORT_API $INC -I$R/3rdparty/ofdis/include -isystem /usr/include/opencv4 -isystem /usr/include/eigen3 "$D/demo.cpp" -o "$W/demo" \
  -L$R/_build/lib -Wl,-rpath,$R/_build/lib -llitiv_video -llitiv_datasets -llitiv_features2d -llitiv_imgproc -llitiv_utils -lopencv_core -lopencv_imgproc -lopencv_imgcodecs -lopencv_videoio -lopencv_highgui -lopencv_features2d -lopencv_video -lopencv_calib3d -lpthread || exit 3
cd "$W" && timeout 120 ./demo "$W"
