# usage: dev.sh REPODIR PROP [flags]   build against another tree and check (development only)
set -eu
. /opt/vp/env.sh; export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
r=$1; p=$2; shift 2; d=${DEV:-/tmp/dev}; mkdir -p $d/o
python3 /verif/sim/overlay/gen.py "$(go env GOROOT)" $d/o
sed "s#=> /repo#=> $r#" /verif/sim/go.mod > $d/go.mod; cp /verif/sim/go.sum $d/go.sum
cd /verif/sim; go build -modfile $d/go.mod -overlay $d/o/overlay.json -o $d/joesim ./cmd/joesim
cp /verif/known-findings.txt $d/
VERIF_DIR=$d exec $d/joesim check -prop $p "$@"
