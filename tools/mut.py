"""tools/mut.py CHECK FILE OLD NEW [n]: verdict of a check with one textual replacement in the source"""
import sys
sys.path.insert(0, __file__.rsplit('/', 2)[0])
import check
from sa.rules import load_all
load_all()
pid, f, old, new = sys.argv[1:5]
n = int(sys.argv[5]) if len(sys.argv) > 5 else 0
s = open('/repo/' + f).read()
parts = s.split(old)
assert len(parts) > n + 1, 'text not found'
s2 = old.join(parts[:n + 1]) + new + old.join(parts[n + 1:])
for p in pid.split(','):
    ctx = check.analyse(p, '/repo', {f: s2})
    print(p, 'findings', len(ctx.findings), 'errors', len(ctx.errors))
    for x in ctx.findings[:3]: print('   ', str(x)[:300])
    for x in ctx.errors[:3]: print('   ERR', str(x)[:300])
