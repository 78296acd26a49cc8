# source'd: compiles demo.cpp beside $0 against the libraries in /repo, and runs it
here=$(cd "$(dirname "$0")" && pwd)
R=/repo/middleware
work=$(mktemp -d /tmp/demo-build-XXXXXX)
trap 'rm -rf "$work"' EXIT
inc=$(for d in $R/*/include; do printf -- '-I%s ' $d; done)
libdirs=$(for d in $R/*/bin /repo/_build/gtest/lib; do [ -d $d ] && printf -- '-L%s -Wl,-rpath,%s ' $d $d; done)
g++ -std=c++23 -O0 -w -pthread $inc -I"$here" "$here/demo.cpp" -o "$work/demo" $libdirs ${LIBS:--lcasual-configuration -lcasual-domain-common -lcasual-common} || exit 2
export LD_LIBRARY_PATH=$(for d in $R/*/bin /repo/_build/gtest/lib; do printf '%s:' $d; done)
g++ -std=c++23 -O0 -w -fPIC -shared $inc "$here/base64.cpp" -o "$work/base64.so" || exit 2
LD_PRELOAD="$work/base64.so" timeout -k 5 120 "$work/demo"
