#!/bin/bash
# builds demo.c with the library sources of the current directory (ASan + UBSan) and runs it
set -e
here=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
python3 - "$W" <<'P' > "$W/args"
import json, subprocess, sys, os
o = subprocess.run(["ninja", "-C", "_build", "-t", "compdb"], capture_output=True, text=True).stdout
seen, fl = [], []
for e in json.loads(o):
    f = e["file"]
    if f.endswith(".c") and "/arm-wt-22k/" in os.path.realpath(os.path.join(e["directory"], f)):
        f = os.path.realpath(os.path.join(e["directory"], f))
        if f not in seen:
            seen.append(f)
            fl = [a for a in e["command"].split() if a.startswith(("-D", "-I"))]
print(" ".join(a.replace('"', '') for a in fl))
print("\n".join(seen))
P
FLAGS="$(head -1 "$W/args") $(cat "$here/flags" 2>/dev/null || true)"
SAN=${SAN:--fsanitize=address,undefined -fno-sanitize=shift-base,signed-integer-overflow,alignment,pointer-overflow -fno-sanitize-recover=all}
tail -n +2 "$W/args" | xargs -P8 -I{} sh -c 'gcc -w -g -O0 '"$FLAGS $SAN"' -c "$1" -o "$2/$(basename "$1").o"' _ {} "$W"
gcc -w -g $FLAGS $SAN -I"$PWD/arm-wt-22k/lib_src" -I"$here" "$here/demo.c" "$W"/*.o -lm -o "$W/demo"
cd "$W"
export ASAN_OPTIONS=${ASAN_OPTIONS:-detect_leaks=0}
timeout 100 ./demo
