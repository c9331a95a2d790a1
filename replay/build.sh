#!/bin/bash
# build.sh OUTDIR ID... : compile the library sources of /repo (current tree) under
# AddressSanitizer (VERIF_SAN=thread: ThreadSanitizer) and libstdc++ assertions and link one replay program per ID into OUTDIR
SAN=${VERIF_SAN:-address}; OUT=$1; shift; REPO=${VERIF_REPO:-/repo}; HERE=$(cd "$(dirname "$0")" && pwd)
FL="-std=c++17 -O1 -DNDEBUG -w -D_GLIBCXX_ASSERTIONS -fsanitize=$SAN -fno-omit-frame-pointer -ftrivial-auto-var-init=pattern -I$REPO/McCalib/include -I$REPO/McCalib/src -I$HERE -I$REPO/apps/create_charuco_boards/src -I$REPO/apps/calibrate/src -isystem /usr/include/opencv4 -isystem /usr/include/eigen3 -isystem /usr/local/include/opencv4"
L=/usr/lib/x86_64-linux-gnu
LIBS="-lopencv_aruco -lopencv_highgui -lopencv_imgcodecs -lopencv_calib3d -lopencv_features2d -lopencv_flann -lopencv_imgproc -lopencv_core -lceres -lglog -lgflags $L/libboost_log_setup.a $L/libboost_log.a $L/libboost_chrono.a $L/libboost_filesystem.a $L/libboost_atomic.a $L/libboost_regex.a -licudata -licui18n -licuuc $L/libboost_thread.a $L/libboost_system.a -lpthread -lrt -ldl"
mkdir -p "$OUT/o"
{ for i in "$@"; do echo "$HERE/$i.cpp"; done; ls -S "$REPO"/McCalib/src/*.cpp; } |
  xargs -P 8 -I{} sh -c 'b=$(basename {}); if [ ! -e '"$OUT"'/o/$b.o ] || [ {} -nt '"$OUT"'/o/$b.o ]; then g++ '"$FL"' -c {} -o '"$OUT"'/o/$b.o || exit 255; fi' || exit 2
LIBO=$(for s in "$REPO"/McCalib/src/*.cpp; do echo "$OUT/o/$(basename "$s").o"; done)
printf '%s\n' "$@" | xargs -P 8 -I{} sh -c 'g++ -fsanitize='$SAN' -Wl,-z,muldefs -o '"$OUT"'/{} '"$OUT"'/o/{}.cpp.o '"$(echo $LIBO)"' '"$LIBS"' || exit 255' || exit 3
