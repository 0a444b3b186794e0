sub () 
{ 
    python3 - "$@" <<'E'
import sys
f,a,b=sys.argv[1:4]
s=open(f).read(); assert s.count(a)>=1,(f,a); s=s.replace(a,b,1); open(f,'w').write(s)
E

}
mk () 
{ 
    /verif/tools/mkseed.sh $1;
    printf '%s\n' "$2" > /verif/seeded/$1/meta.json;
    printf '#!/bin/bash\ncd /repo && PYTHONDONTWRITEBYTECODE=1 PROJ_NETWORK=OFF PYTHONPATH=/repo/src /opt/venv/bin/python "$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)/demo.py"\n' > /verif/seeded/$1/demo.sh;
    cat > /verif/seeded/$1/demo.py
}
