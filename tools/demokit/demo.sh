#!/bin/bash
# Compiles the demonstration together with the library sources of the current
# directory and runs it: exit 0 if the behaviour is right.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$T"' EXIT
python3 "$D/gen.py" "$T/smp" || exit 3
F="-std=c++17 -O0 -w -pthread -I$T/smp -I$R/include -I$R/src -I$R/src-gen $(cat "$D/flags" 2>/dev/null)"
export F T
if grep -q '^//ONLY ' "$D/demo.cpp"; then
  L=$(sed -n 's|^//ONLY ||p' "$D/demo.cpp")
else
  L=$(find src src-gen -name '*.cpp' ! -name '*.pkg.cpp' ! -path 'src/python/*')
fi
(echo "$D/demo.cpp"; [ "$L" = none ] || printf '%s\n' $L) |
  xargs -P 8 -I{} sh -c 'g++ $F -c {} -o "$T/$(echo {} | tr / _).o" || exit 255' || exit 3
g++ $F -rdynamic -o "$T/demo" "$T"/*.o -ldl || exit 3
cd "$T" && printf 'log.rootLogger=\n' > XsmpLogger.properties
timeout 60 "$T/demo"
