# sourced by demo.sh (cwd = the source tree). build OUT PROBLEM-FILE configure-args... -> $OUT/bin/athena
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd)
T=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$T"' EXIT
build() { # build NAME problem.c args...
  local o="$T/$1" p="$2"; shift 2
  mkdir -p "$o" && cp -r "$R/src" "$R/configure.ac" "$R/install-sh" "$R/Makefile.in" "$R/Makeoptions.in" "$o/" && mkdir -p "$o/bin"
  cp "$p" "$o/src/prob/demo.c"
  ( cd "$o" && autoconf && ./configure --with-problem=demo "$@" ) >"$o/log" 2>&1 || { tail -20 "$o/log"; echo "configure failed"; exit 99; }
  local cc="gcc -fcommon"; local mf=""
  case " $* " in *" --enable-mpi "*) cc="mpicc -fcommon";; esac
  ( cd "$o" && make -j8 all MACHINE=macosx CC="$cc" LDR="$cc" OPT="-O1" MPIINC= MPILIB= FFTWLIB="-lfftw3" FFTWINC= ) >>"$o/log" 2>&1
  [ -x "$o/bin/athena" ] || { tail -20 "$o/log"; echo "build failed"; exit 99; }
}
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1
mpi() { local n=$1; shift; mpirun --oversubscribe -n $n "$@"; }
