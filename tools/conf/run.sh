#!/bin/bash
# Conformance of the simulated MPI/HDF5 with the installed Open MPI and parallel HDF5 (development tool, not a check):
# runs the same programs of conf.cpp on both and compares everything the processes observed and the files they wrote.
V=$(cd "$(dirname "$0")/../.." && pwd); R=${VERIF_REPO:-/repo}; W=$(mktemp -d); trap 'rm -rf "$W"' EXIT; O=/usr/lib/x86_64-linux-gnu
SRC=$(python3 -c "import sys; sys.path.insert(0,'$V'); import check; print(' '.join(check.lib_sources()))")
C="-std=c++17 -O1 -w -DVERIF_MPI -DVERIF_HDF5 -DVERIF_HDF_PARALLEL -I$R/src -I$V/harness/cfg/x/y -I$V/harness/cfg"
g++ -DREAL -DOMPI_SKIP_MPICXX $C -I$O/openmpi/include -I$O/openmpi/include/openmpi -I/usr/include/hdf5/openmpi $V/tools/conf/conf.cpp $SRC -o $W/real $O/openmpi/lib/libmpi.so $O/hdf5/openmpi/libhdf5.so -ldl -lpthread & 
g++ -I$V/harness/fakeh5 -I$V/harness/fake -I$V/harness $C $V/tools/conf/conf.cpp $V/harness/{mc,fakempi,fakeh5}.cpp $SRC -o $W/fake -ldl -lpthread || exit 2
wait; [ -x $W/real ] || exit 2
rc=0
for n in 1 2 3 4; do
  mkdir -p $W/r$n; (cd $W/r$n && timeout 120 mpirun --allow-run-as-root --oversubscribe -n $n ../real) || { echo "real run with $n processes failed"; exit 2; }
  CONF_N=$n CONF_OUT=$W/f$n $W/fake --out $W/x.json --jobs 4 --prefix conf >$W/fake.log 2>&1 || { cat $W/fake.log | head; rc=1; }
  for d in $W/f$n/*; do for f in files $(cd $W/r$n; ls log*); do cmp -s $d/$f $W/r$n/$f || { echo "DIFFERENT: $n processes, schedule $(basename $d), $f"; diff $d/$f $W/r$n/$f | head -4; rc=1; }; done; done
  echo "$n processes: $(cat $W/r$n/log* | wc -l) observations, $(wc -l < $W/r$n/files) file lines compared under $(ls $W/f$n | wc -l) schedules"
done
exit $rc
