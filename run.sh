#!/bin/bash
# Usage: run.sh PROPERTY [--section S --case a,b,c]
# Builds the harness of the property against /repo's working tree and runs it.
# Exit 0: held on everything explored.  1: VIOLATION line printed.  3: error of the check itself.
cd "$(dirname "$0")" || exit 3
V=$PWD
P=$1; shift
REPO=${NS_REPO:-/repo}
SRC=$(ls harness/"${P}"_*.cpp 2>/dev/null | head -1)
[ -n "$SRC" ] || { echo "no harness for $P"; exit 3; }
mkdir -p "$V/evidence"
T=$(mktemp -d "${TMPDIR:-/tmp}/ns-$P-XXXXXX") || exit 3
trap 'rm -rf "$T"' EXIT
export MC_KNOWN=$(sed -n "s/^finding: property=$P .*\(\[.*\]\)$/\1/p" "$V/known-findings.txt" 2>/dev/null)
export MC_TMP=$T MC_OUT=${MC_OUT:-$V/evidence}
export VERIF_TIER=${VERIF_TIER:-quick} VERIF_SEED=${VERIF_SEED:-1}
export ASAN_OPTIONS=detect_leaks=1:abort_on_error=0:exitcode=99:allocator_may_return_null=1:hard_rss_limit_mb=6000:detect_stack_use_after_return=0
export UBSAN_OPTIONS=print_stacktrace=1:halt_on_error=1
export LSAN_OPTIONS=exitcode=98
rm -f "$MC_OUT/$P.json" "$MC_OUT/$P".*.replay.txt

CXX=${CXX:-g++}
FLAGS="-std=c++11 -O1 -w -D_GLIBCXX_ASSERTIONS -I$REPO/src/lib -I$REPO/src/objloader -I$V/harness"
# Lines of the form "// BUILD: flags" in a harness add compiler flags
FLAGS="$FLAGS $(sed -n 's,^// BUILD: ,,p' "$SRC" | sed "s,@REPO@,$REPO,g" | tr '\n' ' ')"
build() {
	$CXX $FLAGS "$V/$SRC" -o "$T/h" >"$T/build.log" 2>&1
}
if ! build; then
	# Is it the toolchain or the code?
	echo '#include <vector>
#include <map>
int main() { std::map<int, std::vector<int> > m; return (int)m.size(); }' > "$T/t.cpp"
	if ! $CXX -std=c++11 "$T/t.cpp" -o "$T/t" || ! "$T/t"; then echo "the compiler does not work"; exit 3; fi
	sleep 2
	if ! build; then
		grep -a "error" "$T/build.log" | head -8
		{ echo "property $P: the public interface it is about does not compile any more"; head -c 20000 "$T/build.log"; } > "$MC_OUT/$P.build.replay.txt"
		echo "{\"property\": \"$P\", \"tier\": \"$VERIF_TIER\", \"seed\": $VERIF_SEED, \"level\": \"other\", \"coverage\": {\"explanation\": \"the code under test did not compile\"}, \"wall_s\": 0, \"violations\": 1}" > "$MC_OUT/$P.json"
		echo "VIOLATION property=$P replay=$MC_OUT/$P.build.replay.txt"
		exit 1
	fi
fi
"$T/h" "$@"
RC=$?
if [ $RC -ne 0 ] && [ $RC -ne 1 ]; then echo "the harness of $P ended with status $RC"; exit 3; fi
if [ $RC -eq 0 ] && [ $# -eq 0 ]; then
	# Findings that were recorded instead of repaired and have shown themselves
	for F in "$T"/known-*; do
		[ -e "$F" ] || continue
		sed -n "s/^finding: property=$P \(.*\[${F##*/known-}\]\)$/KNOWN-FINDING: property=$P \1/p" "$V/known-findings.txt" 2>/dev/null
	done
fi
exit $RC
