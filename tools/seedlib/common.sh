# Builds demo.cpp with sources of the repository (cwd) in a scratch directory, and runs it there.
# usage: . common.sh; demo "lib1.cpp lib2.cpp ..." [compiler flags...]
set -u
HERE=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
REPO=$PWD
WORK=$(mktemp -d)
trap 'rm -rf "$WORK"' EXIT
mkdir -p "$WORK/inc/sse" "$WORK/run"
sed -e 's/#cmakedefine *HAS_LIBAIO.*/#define HAS_LIBAIO/' -e 's/#cmakedefine *\([A-Za-z_]*\).*//' \
    "$REPO/lib/include/sse/configure.hpp.in" > "$WORK/inc/sse/configure.hpp"
FLAGS="-std=gnu++17 -O1 -w -pthread -DFMT_SHARED -DSPDLOG_COMPILED_LIB -DSPDLOG_FMT_EXTERNAL -DSPDLOG_SHARED_LIB
 -Dnew_table_reader_for_compaction_inputs=is_fd_close_on_exec
 -I$WORK/inc -I$WORK/inc/sse -I$HERE/standin/include -I$REPO/lib/include -I$REPO/lib -I$REPO/lib/include/sse/schemes"
build()
{
    local srcs="$1" pids="" p; shift
    local objs="$WORK/demo.o"
    g++ $FLAGS "$@" -c "$HERE/demo.cpp" -o "$WORK/demo.o" & pids="$!"
    for s in $srcs; do
        local o="$WORK/$(echo "$s" | tr '/' '_').o"
        objs="$objs $o"
        g++ $FLAGS "$@" -c "$REPO/lib/$s" -o "$o" & pids="$pids $!"
    done
    for p in $pids; do wait "$p" || { echo "build failed"; exit 3; }; done
    g++ -pthread "$@" $objs -o "$WORK/demo" -lrocksdb -lspdlog -lfmt -laio -ldl || { echo "link failed"; exit 3; }
}
demo()
{
    build "$@"
    cd "$WORK/run" && timeout 120 "$WORK/demo" 2>"$WORK/err"
    local rc=$?
    [ $rc -ne 0 ] && tail -3 "$WORK/err"
    exit $rc
}
