# usage: bg.sh RUNS SEED PROP...   long search from a copy of the binary
runs=$1; seed=$2; shift 2
mkdir -p /tmp/bgv; cp /verif/.build/joesim /tmp/bgv/joesim.$$; cp /verif/known-findings.txt /tmp/bgv/
for p in "$@"; do VERIF_DIR=/tmp/bgv timeout 1500 /tmp/bgv/joesim.$$ check -prop $p -runs $runs -seed $seed 2>&1 | tail -30; done
rm -f /tmp/bgv/joesim.$$
