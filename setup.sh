#!/bin/bash
# Nothing is cached between runs: a check builds its harness from /repo's tree. This only verifies the tools are there.
set -e
cd "$(dirname "$0")"
for t in clang++ g++ python3; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
echo 'int main(){return 0;}' > "$d/a.cpp"
clang++ -fsanitize=address,undefined "$d/a.cpp" -o "$d/a" && "$d/a"
g++ "$d/a.cpp" -o "$d/b" && "$d/b"
mkdir -p evidence
python3 -m json.tool MANIFEST.json > /dev/null
echo ok
