#!/bin/bash
# builds the symbolic executor (needs only what the sandbox ships: g++, the Rust toolchain's libLLVM, z3)
set -e
cd "$(dirname "$0")"
mkdir -p ../build
TC=${KSYM_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}
LLVMLIB=$(ls $HOME/.rustup/toolchains/$TC/lib/libLLVM.so.* | head -1)
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
OUT=../build/ksym
if [ -x $OUT ] && [ $OUT -nt ksym.cpp ] && [ $OUT -nt build.sh ]; then exit 0; fi
g++ -O2 -std=c++17 -o $OUT.tmp -Wl,--no-as-needed -lstdc++ ksym.cpp -I/usr/lib/llvm-18/include -I$Z/include "$LLVMLIB" $Z/lib/libz3.so -Wl,-rpath,$(dirname $LLVMLIB) -Wl,-rpath,$Z/lib -ffp-contract=off -w
mv $OUT.tmp $OUT
