"""Common machinery: build the driver from /repo, run scripts, validate
traces with TLC, report."""
import os, sys, subprocess, json, shutil, tempfile, time, re, hashlib, concurrent.futures as cf, atexit, random

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
NCPU = int(os.environ.get('VERIF_JOBS', '0') or '0') or min(8, os.cpu_count() or 4)
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
BASE = ['-D_GNU_SOURCE', '-w', '-g', '-pthread', '-DMDBX_BUILD_SHARED_LIBRARY=0', '-DMDBX_BUILD_CXX=0', '-I' + REPO]

_tmp = None
def work():
    """private scratch directory, removed at exit"""
    global _tmp
    if _tmp is None:
        root = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) and shutil.disk_usage('/dev/shm').free > (2 << 30) else None
        _tmp = tempfile.mkdtemp(prefix='vf-', dir=root)
        pid = os.getpid()
        def clean():
            if os.getpid() == pid and not os.environ.get('VERIF_KEEP'):
                shutil.rmtree(_tmp, ignore_errors=True)
        atexit.register(clean)
    return _tmp

class Broken(Exception):
    pass

def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    return p.returncode, p.stdout

def compile_one(out, srcs, flags, cc='gcc'):
    rc, o = sh([cc] + flags + srcs + ['-o', out])
    if rc:
        raise Broken('build failed: %s\n%s' % (' '.join(srcs), o[-3000:]))
    return out

VARIANTS = {  # library builds
    'plain': ['-O1', '-DMDBX_CHECKING=0'],
    'chk':   ['-O1', '-DMDBX_CHECKING=2'],
    'chk1':  ['-O1', '-DMDBX_CHECKING=1'],
}
DRVWRAP = ['-DDRV_WRAP'] + ['-Wl,--wrap=' + w for w in 'sendfile64 copy_file_range write'.split()]
def build(variants=('plain',), driver='drv/drv.c', extra=(), tag='drv', lib_extra=(), cc='gcc'):
    """build driver binaries against the current /repo; returns {variant: path}"""
    d = work()
    def lib(v):
        return compile_one('%s/m-%s-%s.o' % (d, tag, v), [REPO + '/mdbx.c'], BASE + VARIANTS.get(v, ['-O1']) + list(lib_extra) + ['-c'], cc)
    with cf.ThreadPoolExecutor(4) as ex:
        libs = dict(zip(variants, ex.map(lib, variants)))
    res = {}
    for v in variants:
        res[v] = compile_one('%s/%s-%s' % (d, tag, v), [os.path.join(VERIF, driver), libs[v]], BASE + ['-O1'] + list(extra or (DRVWRAP if driver == 'drv/drv.c' else ())) + ['-lpthread'], cc)
    return res

WRAPS = 'open open64 close read pwrite64 pwritev64 ftruncate64 fdatasync fsync msync mmap64 mremap munmap fstatfs64 posix_fallocate64'.split()
def build_sim(variants=('plain',), driver='drv/drv.c', tag='sim'):
    """the driver with the simulated storage under the library"""
    return build(variants, driver, ['-DIOSIM', os.path.join(VERIF, 'drv/iosim.c'), os.path.join(VERIF, 'drv/pages.c')] + ['-Wl,--wrap=' + w for w in WRAPS], tag)

# ----------------------------------------------------------------- running
def run_case(binary, script, name, env=None, timeout=120, keep_db=False):
    """runs one script; returns (list of trace lines as dicts, exit code, stderr)"""
    d = os.path.join(work(), 'c-' + name)
    os.makedirs(d, exist_ok=True)
    sp, tp = d + '/s', d + '/t'
    with open(sp, 'w') as f:
        f.write('\n'.join(script) + '\n')
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run([binary, sp, tp, d], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=e, timeout=timeout)
        rc, err = p.returncode, p.stderr.decode(errors='replace')[-2000:]
    except subprocess.TimeoutExpired:
        rc, err = 99, 'timeout'
    lines = []
    try:
        with open(tp) as f:
            lines = [x.rstrip('\n') for x in f if x.strip()]
    except OSError:
        pass
    if not keep_db:
        shutil.rmtree(d, ignore_errors=True)
    return lines, rc, err

def run_crash(binary, case, gen, timeout=120):
    """runs a history on simulated storage, opens every image it left, and puts
    what was recorded there behind the image's event"""
    import shutil as sh_
    d = os.path.join(work(), 'c-' + case.name)
    case.lines, case.rc, case.err = run_case(binary, case.script, case.name, case.env, timeout, keep_db=True)
    imgs = []
    for x in case.lines:
        if '"e":"image"' in x: imgs.append(json.loads(x))
    parts = {}
    case.image_scripts = {}
    for boot in ('1', ''):
        mine = [e for e in imgs if (e['st'] == 'kill') == (boot == '')]
        todo = [(e['img'], gen.examine(e['img'], boot)) for e in mine]
        while todo:
            script, at = [], []
            for n, q in todo:
                at.append(len(script)); script += q
                case.image_scripts[n] = q
            sp, tp = d + '/xs', d + '/xt'
            open(sp, 'w').write('\n'.join(script) + '\n')
            e = dict(os.environ)
            if boot: e['IOSIM_BOOT'] = '%02x' % (int(case.name.split('-')[-1]) % 200 + 10)
            try:
                p = subprocess.run([binary, sp, tp, d], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=e, timeout=timeout)
                rc = p.returncode
                if rc: case.err += p.stderr.decode(errors='replace')[-1000:]
            except subprocess.TimeoutExpired:
                rc = 99
            out = [x.rstrip('\n') for x in open(tp) if x.strip()] if os.path.exists(tp) else []
            for (n, q), a in zip(todo, at): parts[n] = out[a:a + len(q)]
            if rc == 0: break
            if not any('"crash"' in x for x in out[-1:]): out.append('{"i":0,"w":0,"e":"crash","r":0,"sig":%d}' % rc)
            k = max(i for i, a in enumerate(at) if a <= len(out) - 1)
            parts[todo[k][0]] = out[at[k]:]
            todo = todo[k + 1:]
    res = []
    for x in case.lines:
        res.append(x)
        if '"e":"image"' in x:
            n = json.loads(x)['img']
            res += parts.get(n, []) + ['{"i":0,"w":0,"e":"imgend","r":0,"img":%d}' % n]
    case.lines = res
    sh_.rmtree(d, ignore_errors=True)
    return case

TLCOPT = ['-XX:+UseSerialGC', '-XX:TieredStopAtLevel=4', '-Xss16m', '-Xmx3g']
def tlc(module, cfg=None, env=None, workers=1, extra=(), timeout=850, specdir=None, java=()):
    specdir = specdir or os.path.join(VERIF, 'spec')
    meta = tempfile.mkdtemp(prefix='tlc-', dir=work())
    cmd = ['java'] + TLCOPT + list(java) + ['-Djava.io.tmpdir=' + meta, '-cp', JARS, 'tlc2.TLC', '-workers', str(workers), '-metadir', meta, '-noGenerateSpecTE',
           '-config', cfg or module + '.cfg'] + list(extra) + [module]
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=specdir, env=e, timeout=timeout)
        out, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired as x:
        out, rc = (x.stdout or b'').decode(errors='replace') if isinstance(x.stdout, bytes) else (x.stdout or ''), -9
    shutil.rmtree(meta, ignore_errors=True)
    return rc, out

import threading
LOCK = threading.Lock()
STATS = {'states': 0, 'transitions': 0}

class Case:
    """one script with the parameters the specification needs"""
    def __init__(self, name, script, params, variant='plain', env=None):
        self.name, self.script, self.params, self.variant, self.env = name, script, params, variant, env or {}
        self.lines, self.rc, self.err, self.module = [], 0, '', 'MdbxTrace'

def validate(cases, module='MdbxTrace', prop='?', chunks=None):
    """validates the traces of all cases against the specification, in
    parallel; returns list of (case, index of refused line, tlc output)"""
    chunks = chunks or NCPU
    groups = [[] for _ in range(chunks)]
    order = sorted(cases, key=lambda c: -len(c.lines))
    size = [0] * chunks
    for c in order:
        i = size.index(min(size))
        groups[i].append(c)
        size[i] += len(c.lines) + 20
    groups = [g for g in groups if g]
    def one(arg):
        gi, g = arg
        bad = []
        todo = list(g)
        while todo:
            path = os.path.join(work(), 'tr-%s-%d.ndjson' % (prop, gi))
            starts = []
            n = 0
            with open(path, 'w') as f:
                for c in todo:
                    starts.append(n)
                    p = {'e': 'case'}
                    p.update(c.params)
                    f.write(json.dumps(p) + '\n')
                    for x in c.lines:
                        f.write(x + '\n')
                    n += 1 + len(c.lines)
            rc, out = tlc(module, env={'TRACE': path})
            ms = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
            if ms:
                with LOCK:
                    STATS['transitions'] += int(ms.group(1))
                    STATS['states'] += int(ms.group(2))
            m = re.search(r'<<"REACHED", (\d+)>>', out)
            if m is None:
                m2 = re.search(r'The depth of the complete state graph search is (\d+)', out)
                # evaluation error: find position from the last state printed
                pos = None
                ms = re.findall(r'/\\ l = (\d+)', out)
                if ms:
                    pos = int(ms[-1]) - 1
                if pos is None:
                    raise Broken('TLC failed: ' + out[-3000:])
                reached = pos
            else:
                reached = int(m.group(1)) - 1
            if reached >= n and rc == 0:
                break
            # line index `reached` (0-based) was refused
            ci = max(i for i, s in enumerate(starts) if s <= reached)
            bad.append((todo[ci], reached - starts[ci] - 1, out))
            todo = todo[ci + 1:]
            if len(bad) >= 3:
                break
        return bad
    with cf.ThreadPoolExecutor(len(groups) or 1) as ex:
        res = list(ex.map(one, enumerate(groups)))
    return [b for r in res for b in r]

def run_all(cases, bins, timeout=120):
    def one(c):
        c.lines, c.rc, c.err = run_case(bins[c.variant], c.script, c.name, c.env, timeout)
        return c
    with cf.ThreadPoolExecutor(NCPU + 2) as ex:
        list(ex.map(one, cases))

def save_replay(prop, case, idx, out, binary_note=''):
    d = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s.json' % (prop, case.name))
    with open(path, 'w') as f:
        json.dump({'property': prop, 'case': case.name, 'variant': case.variant, 'params': case.params, 'script': case.script, 'env': case.env,
                   'module': getattr(case, 'module', None), 'image_scripts': getattr(case, 'image_scripts', None), 'sim': hasattr(case, 'image_scripts'), 'trace': case.lines[:idx + 2] if getattr(case, 'module', None) == 'MdbxMulti' else None, 'refused_line': idx, 'refused_event': case.lines[idx] if 0 <= idx < len(case.lines) else None, 'exit': case.rc, 'stderr': case.err}, f, indent=0)
    return path

def evidence(prop, tier, data):
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + '.json'), 'w') as f:
        json.dump(data, f, indent=1)
