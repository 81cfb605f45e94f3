# Sets up a scratch directory with the runner; r ARGS runs it
D=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
CND=/repo/_build/src/cli/cnd
gcc -w -O1 -I/repo/include -o "$W/run" "$D/run.c" /repo/src/vm/*.c -lm || exit 2
c() { printf '%s\n' "$1" > "$W/s.cnd"; "$CND" compile "$W/s.cnd" "$W/s.il" > "$W/log" 2>&1 || { cat "$W/log"; exit 1; }; }
r() { "$W/run" "$@" > "$W/out" 2>&1 || echo "exit $?" >> "$W/out"; }
want() { [ "$(cat "$W/out")" = "$1" ] || { echo "got:"; cat "$W/out"; echo "want:"; echo "$1"; exit 1; }; }
