# sourced by the demonstrations: sets W (scratch), CC flags; functions build_main, build_tree
H=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
# build_main VARIANT FILE.c EXE: link against the library that build.sh made
build_main() {
  local v=$1; local s=/repo/_build/src-$v l=/repo/_build/lib-$v
  local f=; [ $v = inline ] && f="-mavx2 -mfma"; [ $v = general ] && f="-mssse3"
  gcc -std=gnu11 -O1 -g $f $4 -I"$H" -I$l/stage -I$s "$2" $l/simint/libsimint.a -o "$3" -lm
}
# build_tree VECTOR "create.py options" "flags": a small tree of its own, as $W/tree/libt.a
build_tree() {
  python3 -W ignore /repo/create.py -n 4 -g /repo/_build/generator/generator/ostei $2 "$W/tree" > "$W/create.log" 2>&1 || { tail "$W/create.log"; exit 1; }
  local L D; L=$(echo "$2" | sed 's/.*-l \([0-9]\).*/\1/'); D=$(echo "$2" | sed 's/.*-d \([0-9]\).*/\1/')
  mkdir -p "$W/stage/simint/ostei" "$W/stage/simint/vectorization" "$W/obj"
  sed -e "s/@SIMINT_MAXAM@/$L/g" -e "s/@SIMINT_MAXDER@/$D/g" "$W/tree/simint/ostei/ostei_config.h.in" > "$W/stage/simint/ostei/ostei_config.h"
  { sed -e 's/@[A-Z_]*@//g' "$W/tree/simint/vectorization/vector_config.h.in"; echo; echo "#define SIMINT_$1"; } > "$W/stage/simint/vectorization/vector_config.h"
  TREEFLAGS="-std=gnu11 -w -O1 -g $3 -I$H -I$W/stage -I$W/tree"
  ( cd "$W/tree" && find simint -name '*.c' ! -path 'simint/ostei/recur_lookup.c' | xargs -P 8 -I{} sh -c "gcc $TREEFLAGS -c {} -o $W/obj/\$(echo {} | tr / _).o" ) || exit 1
  ar rcs "$W/tree/libt.a" "$W"/obj/*.o
}
build_tree_main() { gcc $TREEFLAGS "$1" "$W/tree/libt.a" -o "$2" -lm -Wl,--unresolved-symbols=ignore-all; }
