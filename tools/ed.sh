ed () 
{ 
    python3 - "$@" <<'P'
import sys
f,a,b=sys.argv[1:4]; import os; f=os.environ.get('IPV_REPO','/repo')+'/src/'+f; s=open(f).read()
a=a.encode().decode('unicode_escape'); b=b.encode().decode('unicode_escape')
assert s.count(a)==1,(s.count(a),a)
open(f,'w').write(s.replace(a,b))
P

}
