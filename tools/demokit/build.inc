# sourced by demo.sh: build CFG OUT [extra cc args]   (run in the repository)
here=$(cd "$(dirname "$0")" && pwd); repo=$(pwd)
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
flags_of() {
  f=""; case $1 in
    semi) f="-DGC_PRECISE_ROOTS=1";;
    pcc) f="-DGC_PRECISE_ROOTS=1 -DGC_PARALLEL=1";;
    generational-pcc) f="-DGC_PRECISE_ROOTS=1 -DGC_PARALLEL=1 -DGC_GENERATIONAL=1";;
    bdw) f="-DGC_CONSERVATIVE_ROOTS=1 -DGC_CONSERVATIVE_TRACE=1 $(pkg-config --cflags bdw-gc)";;
    *) case $1 in stack-conservative-*) f="-DGC_CONSERVATIVE_ROOTS=1";; heap-conservative-*) f="-DGC_CONSERVATIVE_ROOTS=1 -DGC_CONSERVATIVE_TRACE=1";; *) f="-DGC_PRECISE_ROOTS=1";; esac
       case $1 in *parallel-*) f="$f -DGC_PARALLEL=1";; esac
       case $1 in *generational-*) f="$f -DGC_GENERATIONAL=1";; esac;;
  esac; echo "$f"
}
stem_of() { case $1 in semi) echo semi;; *pcc) echo pcc;; bdw) echo bdw;; *) echo mmc;; esac; }
build() {
  cfg=$1; out=$2; shift 2
  st=$(stem_of $cfg); libs="-lm"; [ $st = bdw ] && libs="-lm $(pkg-config --libs bdw-gc)"
  src="$repo/src/$st.c"; [ -n "$WHITEBOX" ] && src=""
  ${CC:-gcc} ${OPT:--O2} -g -w -fno-strict-aliasing -fvisibility=hidden ${DEBUGFLAG:--DNDEBUG} $(flags_of $cfg) -I"$repo/api" -I"$repo/src" -I"$here" \
    -DGC_ATTRS="\"$repo/api/$st-attrs.h\"" -DGC_EMBEDDER="\"$here/dk.h\"" "$here/demo.c" $src "$repo/src/gc-ephemeron.c" "$repo/src/gc-finalizer.c" \
    "$repo/src/gc-options.c" "$repo/src/gc-stack.c" "$repo/src/gc-tracepoint.c" "$repo/src/gc-platform-gnu-linux.c" "$@" -o "$out" -lpthread $libs || exit 3
}
