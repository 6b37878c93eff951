import sys, os
sys.path.insert(0, os.path.dirname(__file__))
import vlib, gen, json, time
n = int(sys.argv[1]); seed = int(sys.argv[2]); variant = sys.argv[3] if len(sys.argv) > 3 else 'plain'
kw = eval('dict(%s)' % sys.argv[4]) if len(sys.argv) > 4 else {}
t0 = time.time()
bins = {variant: '/tmp/w/b/drv-' + variant}
if not os.path.exists(bins[variant]):
    b = vlib.build([variant]); import shutil; shutil.copy(b[variant], bins[variant])
cases = []
for i in range(n):
    g = gen.Gen(seed * 100000 + i, **kw)
    cases.append(vlib.Case('g%d' % i, g.run(), g.params(), variant))
t1 = time.time()
vlib.run_all(cases, bins)
t2 = time.time()
for c in cases:
    if c.rc: print('EXIT', c.name, c.rc, c.err[-300:], c.lines[-1][:200] if c.lines else '')
bad = vlib.validate(cases)
t3 = time.time()
print('lines', sum(len(c.lines) for c in cases), 'gen %.1f run %.1f tlc %.1f' % (t1 - t0, t2 - t1, t3 - t2))
for c, idx, out in bad[:int(os.environ.get('N', '3'))]:
    print('-----', c.name, idx, c.params)
    for j in range(max(0, idx - 6), min(len(c.lines), idx + 1)): print('   ', c.lines[j][:400])
    open('/tmp/w/bad-%s.txt' % c.name, 'w').write('\n'.join(c.script)); open('/tmp/w/bad-%s.out' % c.name, 'w').write(out)
    open('/tmp/w/bad-%s.par' % c.name, 'w').write(repr(c.params)); open('/tmp/w/bad-%s.trace' % c.name, 'w').write('\n'.join(c.lines))
    err = [l for l in out.splitlines() if 'rror' in l][:3]
    print('   ', err)
    if any('valuat' in l or 'TLC threw' in l or 'Attempted' in l for l in out.splitlines()):
        i = out.find('Error:'); print(out[i:i + 1200])
print('bad', len(bad))
