#!/bin/bash
# builds demo.cpp against the libraries of the current build and runs it in a scratch directory
H=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap '/bin/rm -rf "$T"' EXIT
R=/repo; B=$R/_build
g++ -std=gnu++17 -O1 -DBLISS_USE_CAPNP=1 -DFMT_HEADER_ONLY=1 -DFMT_DEPRECATED_OSTREAM -w \
  -I$R/bland/bland/include -I$R/bland/bland -I$R/bland/external/dlpack -I$R/bliss/core/include -I$R/bliss/file_types/include -I$R/bliss/file_types \
  -I$R/bliss/drift_search/include -I$R/bliss/drift_search -I$R/bliss/estimators/include -I$R/bliss/flaggers/include -I$R/bliss/preprocess/include \
  -I$R/bliss/rfi/include -I/usr/include/hdf5/serial "$H/demo.cpp" -o "$T/demo" \
  -Wl,--start-group $B/bliss/flaggers/libflaggers.a $B/bliss/file_types/libbliss_serialization.a $B/bliss/file_types/libfile_types.a $B/bliss/rfi/librfi.a \
  $B/bliss/estimators/libestimators.a $B/bliss/preprocess/libbliss_preprocess.a $B/bliss/drift_search/libdrift_search_kernels.a \
  $B/bliss/drift_search/libdrift_search.a $B/bliss/core/libbliss_core.a $B/bland/bland/libbland.a -Wl,--end-group \
  -lfftw3f -L/usr/lib/x86_64-linux-gnu/hdf5/serial -lhdf5_cpp -lhdf5 -lpthread -ldl -lm -lstdc++fs -lcapnp -lkj || exit 2
cd "$T" && ./demo
