#!/bin/bash
# mkseedpy.sh ID PROP "needs" "what it breaks" RANKS < demo.py : like mkseed.sh, for a demonstration in Python (RANKS 0: without MPI)
d=/verif/seeded/$1; mkdir -p $d; cat > $d/demo.py
git -C /repo diff > $d/patch.diff; git -C /repo checkout -q -- .
cat > $d/demo.sh <<'Y'
#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$d"' EXIT
mkdir $d/site; ln -s /repo/bigfile $d/site/bigfile
export PYTHONPATH=$d/site PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore
Y
if [ "$5" = 0 ]; then echo 'timeout -k 5 60 /opt/bigfile-venv/bin/python $here/demo.py $d/data' >> $d/demo.sh; else
cat >> $d/demo.sh <<'Y'
export TMPDIR=$d OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_btl=self,vader OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_pml=ob1 OMPI_MCA_plm=isolated
export OMPI_MCA_oob_tcp_if_include=lo OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_rmaps_base_no_oversubscribe=0 OMPI_MCA_mpi_yield_when_idle=1 OMPI_MCA_hwloc_base_binding_policy=none
Y
echo "timeout -k 5 60 mpirun -n $5 /opt/bigfile-venv/bin/python \$here/demo.py \$d/data" >> $d/demo.sh; fi
python3 -c "import json,sys;json.dump({'property':sys.argv[1],'needs':sys.argv[2],'what_it_breaks':sys.argv[3]},open('$d/meta.json','w'))" "$2" "$3" "$4"
