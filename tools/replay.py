"""replay.py FILE [cursor [n]]: runs a saved violation again on the
implementation built from /repo, checks the trace, shows where it is refused
(and, given a cursor, the state of that cursor in the specification over the
last n events)."""
import sys, json, re, os
import vlib
j = json.load(open(sys.argv[1]))
c = vlib.Case(j['case'], j['script'], j['params'], j['variant'], j.get('env') or {})
if j.get('sim') or j.get('image_scripts') or j.get('module') in ('MdbxCrash', 'MdbxFault'):
    class G:
        def examine(self, img, boot): return (j.get('image_scripts') or {}).get(str(img), [])
    vlib.run_crash(vlib.build_sim([c.variant])[c.variant], c, G())
    bad = vlib.validate([c], j.get('module') or 'MdbxCrash', prop='replay', chunks=1)
else:
    bins = vlib.build([c.variant])
    vlib.run_all([c], bins)
    if j.get('module') == 'MdbxMulti':
        import gen
        c.lines = gen.incarnations(c.lines)
    bad = vlib.validate([c], j.get('module') or 'MdbxTrace', prop='replay', chunks=1)
print('exit', c.rc, c.err[-500:])
if not bad:
    print('accepted'); sys.exit(0)
_, idx, out = bad[0]
if len(sys.argv) > 2:
    cur, n = int(sys.argv[2]), int(sys.argv[3]) if len(sys.argv) > 3 else 20
    lines = []
    for i, x in enumerate(c.lines[:idx + 1]):
        lines.append(x)
        if i > idx - n: lines.append('{"e":"dbg"}')
    path = os.path.join(vlib.work(), 'dbg.ndjson')
    p = {'e': 'case'}; p.update(c.params)
    open(path, 'w').write('\n'.join([json.dumps(p)] + lines) + '\n')
    rc, o = vlib.tlc('MdbxTrace', env={'TRACE': path})
    dbg = re.findall(r'<< *"DBG",(.*?)(?=<< *"DBG"|<<"REACHED|Model checking|Error)', o, re.S)
    k = 0
    for i in range(max(0, idx - n + 1), idx + 1):
        st = ''
        if k < len(dbg):
            m = re.findall(r'%d :> *\[(.*?)\]' % cur, re.sub(r'\s+', ' ', dbg[k])); st = m[0] if m else ''
        k += 1
        e = json.loads(c.lines[i]); e.pop('w', None)
        print(json.dumps(e).replace('"', '')[:150].ljust(100), '|', st)
else:
    for x in c.lines[max(0, idx - 12):idx + 1]: print(x[:200])
sys.exit(1)
