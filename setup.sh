#!/bin/bash
# builds the symbolic executor, its runtime model and the native replay stub into /verif/build (ignored by git)
set -e
cd "$(dirname "$0")"; mkdir -p build
bash engine/build.sh &
p=$!
clang++ -std=c++17 -O1 -w -fno-access-control -fno-vectorize -fno-slp-vectorize -emit-llvm -c rt/rt.cpp -o build/rt.bc
g++ -std=c++17 -O1 -w -fno-access-control -c rt/native.cpp -o build/native.o
clang++ -std=c++17 -O1 -g -w -fsanitize=thread -c rt/natstr.cpp -o build/natstr.o
wait $p
cat engine/* rt/* setup.sh | sha256sum > build/stamp
