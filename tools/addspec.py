"""addspec.py ID src "rule" ["assumption"...] : appends/replaces a SPECS entry (development helper)."""
import sys,re
i,src,rule,*ass=sys.argv[1:]
p='/verif/specs.py'; L=[l for l in open(p).read().rstrip().split('\n') if not l.startswith(' "%s":'%i)]
assert L[-1]=='}'
L[-1]=' "%s": dict(src=%r, rule=%r, assumptions=BASE + %r),'%(i,src.split(','),rule,ass)
L.append('}'); open(p,'w').write('\n'.join(L)+'\n')
