# usage: . /tmp/mk.sh ; newwt ; then edit ; meta id prop needs breaks
newwt() { rm -rf /tmp/wt; cp -a /repo /tmp/wt; }
meta() { mkdir -p /verif/seeded/$1; python3 - "$@" <<'P'
import json,sys
i,p,n,b=sys.argv[1:5]
json.dump({"property":p,"needs":n,"what_it_breaks":b},open(f"/verif/seeded/{i}/meta.json","w"),indent=1)
P
}
