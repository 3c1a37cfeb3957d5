#!/bin/bash
# Nothing is built ahead: every check compiles its harness against /repo's current tree.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
T=$(mktemp -d) || exit 1
trap 'rm -rf "$T"' EXIT
printf '#include <vector>\nint main() { std::vector<int> v(3); return v[2]; }\n' > "$T/t.cpp"
g++ -std=c++11 -fsanitize=address,undefined "$T/t.cpp" -o "$T/t" && "$T/t"
