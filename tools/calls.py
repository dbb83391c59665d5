"""calls.py MODULE REGEX: external std:: calls made by matching functions (development aid)"""
import sys,re
sys.path[:0]=['/verif/ipv','/verif/contracts']
import ir,importlib
m=importlib.import_module(sys.argv[1]); mod=ir.load_sources(m.SRCS)
s=set()
for k in list(mod.funcs):
    n = k[1] if isinstance(k, tuple) else k
    if re.search(sys.argv[2],mod.dem[n]):
        f=mod.getfn(n, k[0] if isinstance(k, tuple) else None)
        for b in f.blocks:
            for i in b:
                if i['o'] in('call','invoke') and 'f' in i: s.add(mod.dem.get(i['f'],i['f'])[:240])
print('\n'.join(sorted(x for x in s if len(sys.argv)<4 or re.search(sys.argv[3],x))))
