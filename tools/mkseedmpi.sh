#!/bin/bash
# mkseedmpi.sh ID PROP "needs" "what it breaks" RANKS < demo.c : like mkseed.sh, for a demonstration that runs under MPI
d=/verif/seeded/$1; mkdir -p $d; cat > $d/demo.c
git -C /repo diff > $d/patch.diff; git -C /repo checkout -q -- .
sed "s/RANKS/${5:-2}/" > $d/demo.sh <<'Y'
#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$d"' EXIT
mpicc -w -I/repo/src -o $d/demo $here/demo.c /repo/src/bigfile.c /repo/src/bigfile-record.c /repo/src/bigfile-mpi.c /repo/src/mp-mpiu.c -lm || exit 2
export TMPDIR=$d OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_btl=self,vader OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_pml=ob1 OMPI_MCA_plm=isolated
export OMPI_MCA_oob_tcp_if_include=lo OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_rmaps_base_no_oversubscribe=0 OMPI_MCA_mpi_yield_when_idle=1 OMPI_MCA_hwloc_base_binding_policy=none
timeout -k 5 60 mpirun -n RANKS $d/demo $d/data
Y
python3 -c "import json,sys;json.dump({'property':sys.argv[1],'needs':sys.argv[2],'what_it_breaks':sys.argv[3]},open('$d/meta.json','w'))" "$2" "$3" "$4"
