#!/bin/bash
# Builds the simulator and installs the package of the repository, as it is now, in $1.
#   build.sh BUILD_DIR REPO
# The package is built as shipped; there are no hooks in it.
set -euo pipefail
HERE=$(cd "$(dirname "$0")" && pwd)
B=$1
REPO=$2
mkdir -p "$B"
exec 9>"$B/lock"
flock 9
export LANG=C.UTF-8 LC_ALL=C.UTF-8 PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export R_LIBS= R_LIBS_USER=NULL R_ENVIRON_USER= R_PROFILE_USER= _R_SHLIB_STRIP_=false
unset R_HOME LD_PRELOAD || true

# --- the simulator
key=$(cat "$HERE"/simrt.h "$HERE"/simrt.cpp "$HERE"/simR.c | sha256sum)
if [ ! -e "$B/simR.so" ] || [ "$(cat "$B/sim.key" 2>/dev/null)" != "$key" ]; then
    g++ -O3 -g -fPIC -shared -fno-builtin -o "$B/simrt.so.new" "$HERE/simrt.cpp" -ldl
    gcc -O2 -g -fPIC -shared -I/usr/share/R/include -o "$B/simR.so.new" "$HERE/simR.c" -L/usr/lib/R/lib -lR
    mv "$B/simrt.so.new" "$B/simrt.so"
    mv "$B/simR.so.new" "$B/simR.so"
    echo "$key" > "$B/sim.key"
fi

# --- the package
P=$B/pkg
if [ ! -e "$P/src" ] && [ -e "$REPO/_build/glmmsr/src/glmmsr.so" ]; then
    rm -rf "$P.new"
    cp -a "$REPO/_build/glmmsr" "$P.new"      # objects of an earlier build, where there are any
    mv "$P.new" "$P"
    # only those whose flags are ours: they need the list of headers they depend on
    for o in "$P"/src/*.o; do [ -e "${o%.o}.d" ] || rm -f "$o"; done
fi
mkdir -p "$P"
rsync -rlc --no-times --delete --exclude=/.git --exclude=/_build --exclude='*.o' --exclude='*.so' \
    --exclude='/src/*.d' --exclude=Rplots.pdf --exclude=/tests --exclude=/vignettes --exclude=/data-raw "$REPO"/ "$P"/
for d in "$P"/src/*.d; do
    [ -e "$d" ] || continue
    if [ ! -e "${d%.d}.cpp" ]; then rm -f "$d" "${d%.d}.o" "$P/src/glmmsr.so"; fi
done
key=$(cd "$P" && find . -type f ! -name '*.o' ! -name '*.so' ! -name '*.d' -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)
if [ ! -e "$B/lib/glmmsr/libs/glmmsr.so" ] || [ "$(cat "$B/pkg.key" 2>/dev/null)" != "$key" ]; then
    rm -f "$B/pkg.key"
    rm -rf "$B/lib"
    mkdir -p "$B/lib"
    R_MAKEVARS_USER=$HERE/Makevars.user MAKEFLAGS=-j8 \
        R CMD INSTALL --no-docs --no-test-load --library="$B/lib" "$P" > "$B/install.log" 2>&1 || { tail -40 "$B/install.log" >&2; exit 3; }
    [ -e "$B/lib/glmmsr/libs/glmmsr.so" ]
    echo "$key" > "$B/pkg.key"
fi
