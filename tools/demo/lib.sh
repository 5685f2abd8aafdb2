# shared by the demonstrations: builds against the current /repo/src and runs under mpirun in a scratch folder
here=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d /tmp/demo-XXXXXX); trap 'rm -rf "$W"' EXIT
R=${REPO:-$PWD}
export OMPI_CXX=g++ HOME=$W TMPDIR=$W LC_ALL=C OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_btl=self,vader OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_btl_vader_backing_directory=$W OMPI_MCA_pml=ob1 OMPI_MCA_plm=isolated OMPI_MCA_oob_tcp_if_include=lo OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_hwloc_base_binding_policy=none OMPI_MCA_mpi_yield_when_idle=1
export ASAN_OPTIONS=detect_leaks=0:exitcode=99
build() { # build OUT DEFS... -- SOURCES...
  local out=$1; shift; local d=(); while [ "$1" != -- ]; do d+=("$1"); shift; done; shift
  mpicxx -w -g -O1 -DFFT_MEMALIGN=64 "${d[@]}" -I"$R/src" "$@" -o "$W/$out" $LIBS || { echo "demo does not build"; exit 0; }
}
run() { local np=$1; shift; (cd "$W" && timeout 60 mpirun -np $np "$@"); }
