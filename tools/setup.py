"""Nothing to build beforehand: every check builds what it needs from /repo.
Only verifies that the tools are there and the specification parses."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
for m in sorted(f for f in os.listdir(os.path.join(vlib.VERIF, 'spec')) if f.endswith('.tla')):
    p = subprocess.run(['java', '-cp', vlib.JARS, 'tla2sany.SANY', m], cwd=os.path.join(vlib.VERIF, 'spec'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode or 'Semantic errors' in p.stdout or 'Parse Error' in p.stdout:
        print(p.stdout); sys.exit(1)
    print('parsed', m)
for t in ('gcc', 'java'):
    if subprocess.run([t, '--version'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode: sys.exit(t + ' is missing')
