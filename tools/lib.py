"""Shared machinery of the checks: building the harness from /repo's working tree,
stepping the specification, replaying its behaviours, reporting."""
import gzip
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, 'spec')
BUILD = os.path.join(ROOT, 'build')
REPO = '/repo'
sys.path.insert(0, os.path.join(ROOT, 'tools'))
import qc  # noqa: E402

NCPU = 8


class ToolError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


# ---- the implementation -----------------------------------------------------------
LAYERS = ['points', 'field', 'scalar', 'group', 'recode']   # features of the harness
GUARD = '--cfg ed448_verif'


def cargo_env(rustflags):
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE='true', RUSTFLAGS=rustflags + ' -Awarnings', CARGO_TERM_COLOR='never',
             RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', RUSTC_WRAPPER='', HOME=e.get('HOME', '/root'))
    e['PATH'] = '/usr/local/bin:/root/.cargo/bin:' + e.get('PATH', '')
    for k in ('CARGO_ENCODED_RUSTFLAGS', 'CARGO_BUILD_TARGET', 'CARGO_TARGET_DIR'):
        e.pop(k, None)
    return e


def cargo(feats, profile, verb='build'):
    tgt = os.path.join(BUILD, 'target')
    cmd = ['cargo', verb, '--offline', '--profile', profile, '--target-dir', tgt]
    if feats:
        cmd += ['--features', ','.join(feats)]
    r = subprocess.run(cmd, cwd=os.path.join(ROOT, 'harness'), env=cargo_env(GUARD), capture_output=True, text=True)
    return r, os.path.join(tgt, profile, 'harness')


def build_harness(profiles=('release', 'checked')):
    """Build the harness against /repo as it is.  A layer that does not compile any more
    (an internal function was renamed or removed) is left out, never an alarm; the public
    API is always driven."""
    def attempt(feats):
        exes = []
        for p in profiles:
            r, exe = cargo(feats, p)
            if r.returncode != 0:
                return None, r.stderr
            exes.append(exe)
        return exes, ''
    exes, err = attempt(LAYERS)
    if exes:
        return LAYERS, exes
    ok = [f for f in LAYERS if cargo([f], profiles[0], 'check')[0].returncode == 0]
    log('note: of the optional layers only %s build against this tree' % ok)
    exes, err = attempt(ok)
    if exes:
        return ok, exes
    raise ToolError('the harness does not build against /repo:\n' + err[-3000:])


def build_tape():
    """The key generation harness with a controlled random source, or None when it does
    not build (the library takes its randomness from somewhere else)."""
    r = subprocess.run(['cargo', 'build', '--offline', '--release', '--target-dir', os.path.join(BUILD, 'target')],
                       cwd=os.path.join(ROOT, 'tape'), env=cargo_env(GUARD), capture_output=True, text=True)
    return os.path.join(BUILD, 'target', 'release', 'tape') if r.returncode == 0 else None


# ---- the specification ---------------------------------------------------------------
TLA = os.path.join(ROOT, 'tla')
IR = os.path.join(ROOT, 'ir')


def spec_hash(main):
    """Hash of everything the machine is made of: the modules it imports, and the compiler
    version's output format."""
    seen, todo = set(), [main]
    while todo:
        f = todo.pop()
        if f in seen:
            continue
        seen.add(f)
        src = open(os.path.join(SPEC, f + '.qnt')).read()
        todo += re.findall(r'from "\./(\w+)"', src)
    h = hashlib.sha256()
    for f in sorted(seen):
        h.update(f.encode() + b'\0' + open(os.path.join(SPEC, f + '.qnt'), 'rb').read())
    return h.hexdigest()[:24]


def compile_ir(main, step='step', inv='inv'):
    extra = ['--step', step]
    if inv:
        extra += ['--invariant', inv]
    ir = qc.load_ir(os.path.join(SPEC, main + '.qnt'), main, extra)
    return slim({'modules': ir['modules'][-1:]})


def slim(x):
    """The IR without node ids, types and documentation."""
    if isinstance(x, dict):
        return {k: slim(v) for k, v in x.items() if k not in ('id', 'doc', 'typeAnnotation', 'depth')}
    if isinstance(x, list):
        return [slim(v) for v in x]
    return x


def ir_of(main, step='step', inv='inv'):
    """The flattened machine as Quint compiles it.  A compiled copy is kept under ir/,
    keyed by the hash of its sources; a stale or missing one is recompiled."""
    h = spec_hash(main)
    for d in (IR, os.path.join(BUILD, 'ir')):
        f = os.path.join(d, '%s.%s.json.gz' % (main, step))
        if os.path.exists(f):
            try:
                j = json.loads(gzip.open(f, 'rb').read())
                if j['hash'] == h and j['inv'] == inv:
                    return j['ir']
            except (OSError, ValueError, KeyError):
                pass
    ir = compile_ir(main, step, inv)
    save_ir(os.path.join(BUILD, 'ir'), main, step, inv, h, ir)
    return ir


def save_ir(d, main, step, inv, h, ir):
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, '%s.%s.json.gz' % (main, step))
    tmp = f + '.%d' % os.getpid()
    with open(tmp, 'wb') as o:
        with gzip.GzipFile(filename='', mode='wb', fileobj=o, mtime=0) as g:
            g.write(json.dumps({'hash': h, 'inv': inv, 'ir': ir}, sort_keys=True, separators=(',', ':')).encode())
    os.replace(tmp, f)


def translate(main, d):
    """The machine in TLA+, by Quint's own translation, for TLC."""
    port = 20000 + random.SystemRandom().randrange(20000)
    w = tempfile.mkdtemp(prefix='tla.', dir=BUILD if os.path.isdir(BUILD) else None)
    out = os.path.join(w, 'out')
    with open(out, 'w+') as o:
        r = subprocess.run(['quint', 'compile', '--target', 'tlaplus', '--main', main, '--invariant', 'inv',
                            '--server-endpoint', 'localhost:%d' % port, os.path.join(SPEC, main + '.qnt')],
                           stdout=o, stderr=subprocess.STDOUT, text=True, cwd=w, timeout=300)
    text = open(out).read()
    shutil.rmtree(w)
    a = re.search(r'^-+ MODULE %s -+$' % main, text, re.M)
    b = re.search(r'^={20,}$', text, re.M)
    if r.returncode or not a or not b:
        raise ToolError('quint compile --target tlaplus %s:\n%s' % (main, text[-1500:]))
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, main + '.tla'), 'w') as o:
        o.write('(* sources %s *)\n%s\n' % (spec_hash(main), text[a.start():b.end()]))


def tla_of(main):
    """Where the TLA+ translation of a machine is; made again if its sources changed."""
    for d in (TLA, os.path.join(BUILD, 'tla')):
        f = os.path.join(d, main + '.tla')
        if os.path.exists(f) and open(f).readline() == '(* sources %s *)\n' % spec_hash(main):
            return f
    translate(main, d)
    return f


def tlc(main, step, work, workers=1, timeout=300):
    """TLC on every state the step leads to.  (states generated, error text or None)"""
    w = tempfile.mkdtemp(prefix='tlc.', dir=work)
    for f in (tla_of(main), os.path.join(TLA, 'Apalache.tla'), os.path.join(TLA, 'Variants.tla')):
        shutil.copy(f, w)
    open(os.path.join(w, 'm.cfg'), 'w').write('INIT init\nNEXT %s\nINVARIANT inv\nCHECK_DEADLOCK FALSE\n' % step)
    env = dict(os.environ, JAVA_TOOL_OPTIONS='-Xss64m -Xmx3g -Djava.io.tmpdir=' + w)
    out = os.path.join(w, 'out')
    with open(out, 'w+') as o:
        subprocess.run(['tlc', '-workers', str(workers), '-metadir', os.path.join(w, 'states'), '-config', 'm.cfg', main + '.tla'],
                       stdout=o, stderr=subprocess.STDOUT, text=True, cwd=w, env=env, timeout=timeout)
    text = open(out).read()
    shutil.rmtree(w, ignore_errors=True)
    n = re.findall(r'^(\d+) states generated', text, re.M)
    if 'No error has been found' in text and n:
        return int(n[-1]), None
    return 0, text[-1500:]


_machines = {}


def machine(main, step='step', inv='inv'):
    k = (main, step)
    if k not in _machines:
        _machines[k] = qc.Machine(ir_of(main, step, inv))
    return _machines[k]


def b2hex(b):
    return b.v.to_bytes(b.n, 'little').hex() if b.n else ''


def call_line(c):
    return '|'.join([c.op, ','.join(map(str, c.s)) if c.s else '-',
                     ','.join(b2hex(x) for x in c.a) if c.a else '-', c.out.tag, b2hex(c.out.data)])


RESET = 'reset|-|-|ok|'


# ---- replay -----------------------------------------------------------------------------
class Mismatch:
    def __init__(self, kind, lines, at, got, exe, note=''):
        self.kind, self.lines, self.at, self.got, self.exe, self.note = kind, lines, at, got, exe, note


def replay(exe, lines, workdir, machine_=None, timeout=600, mode=None):
    """Replay lines; returns (calls executed, skipped, [Mismatch])."""
    fd, path = tempfile.mkstemp(dir=workdir, suffix='.calls')
    with os.fdopen(fd, 'w') as f:
        f.write('\n'.join(lines) + '\n')
    cmd = [exe] + (mode(path) if mode else ['replay', path])
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, errors='replace')
        out, rc = r.stdout, r.returncode
    except subprocess.TimeoutExpired as e:
        out = (e.stdout or b'').decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or '')
        rc = 'timeout'
    bad, n, skipped, done = [], 0, 0, False
    for l in out.splitlines():
        w = l.split(' ')
        if w[0] == 'MISMATCH':
            bad.append(Mismatch('outcome', lines, int(w[1]), (w[2], w[3] if len(w) > 3 else ''), exe))
        elif w[0] == 'SYM':
            bad.append(Mismatch('symbolic', lines, int(w[1]), (w[2], ' '.join(w[3:])), exe))
        elif w[0] == 'VALUE':
            i = int(w[1])
            want = lines[i].split('|')[4]
            g = int.from_bytes(bytes.fromhex(w[2]), 'little')
            x = int.from_bytes(bytes.fromhex(want), 'little')
            B = machine_.env['record_class'](['n', 'v'])
            if not machine_.call('scalarMatches', B(56, g), B(56, x)):
                bad.append(Mismatch('outcome', lines, i, ('scalar', w[2]), exe))
        elif w[0] == 'HANG':
            bad.append(Mismatch('hang', lines, int(w[1]), ('no answer', ''), exe))
            done = True
        elif w[0] == 'BROKEN':
            raise ToolError(l)
        elif w[0] == 'DONE':
            n, skipped, done = int(w[1]), int(w[2]), True
    if not done and rc == 'timeout':
        raise ToolError('replay did not finish in %s s' % timeout)
    if not done:
        # the process died: find the call
        if mode:
            bad.append(Mismatch('crash', lines, 0, ('process ended: %s' % rc, ''), exe))
        else:
            env = dict(os.environ, PROGRESS='1')
            r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=env, errors='replace')
            at = [int(l.split(' ')[1]) for l in r.stdout.splitlines() if l.startswith('AT ')]
            bad.append(Mismatch('crash', lines, at[-1] if at else 0, ('process ended: %s' % rc, ''), exe))
    os.unlink(path)
    return n, skipped, bad


def trace_of(lines, at):
    """The behaviour a call belongs to: from the last reset up to the call."""
    i = at
    while i > 0 and not lines[i].startswith('reset|'):
        i -= 1
    return lines[i:at + 1]


def calls_of(state):
    """The calls of a state, as harness lines (symbolic machines call them events)."""
    if 'last' in state:
        return [call_line(c) for c in state['last']]
    return ['|'.join([e.op, ','.join(map(str, e.s)) or '-', '-', e.out, '']) for e in state['ev']]


def run_trace(m, seed, steps, action='step', check_inv=True):
    """One behaviour of the machine: (lines per step, invariant violations)."""
    out, bad = [], 0
    m.forced = None
    m.start(seed)
    for _ in range(steps):
        s = m.step(action)
        if s is None:
            break
        out.append(calls_of(s))
        if check_inv and not m.call('inv'):
            bad += 1
    return out, bad


# ---- Quint's own simulator -------------------------------------------------------------
def quint_traces(main, step, seed, ntraces, steps, workdir, timeout=400):
    """Behaviours produced by `quint run`, with its invariant evaluation."""
    pat = os.path.join(workdir, 'itf_%s_%s_{seq}.itf.json' % (main, step))
    cmd = ['quint', 'run', '--main', main, '--step', step, '--invariant', 'inv', '--max-samples', str(ntraces),
           '--n-traces', str(ntraces), '--max-steps', str(steps), '--mbt', '--out-itf', pat, '--seed', hex(seed),
           os.path.join(SPEC, main + '.qnt')]
    with tempfile.TemporaryFile('w+') as out:
        r = subprocess.run(cmd, stdout=out, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        out.seek(0)
        text = out.read()
    if r.returncode != 0 or '[ok]' not in text:
        raise ToolError('quint run %s failed:\n%s' % (main, text[-2000:]))
    res = []
    for k in range(ntraces):
        f = pat.replace('{seq}', str(k))
        if os.path.exists(f):
            res.append(json.load(open(f)))
            os.unlink(f)
    if not res:
        raise ToolError('quint run %s wrote no trace' % main)
    return res


def follow(m, itf, action):
    """Step the compiled machine along a Quint behaviour, taking the same choices; every
    state must come out the same.  Returns the calls per step."""
    names = [v for v in itf['vars'] if not v.startswith('mbt::')]
    conv = [{v: qc.from_itf(s[v]) for v in names} for s in itf['states']]
    out = []
    for k in range(1, len(conv)):
        picks = {}
        for n, o in itf['states'][k]['mbt::nondetPicks'].items():
            if o['tag'] == 'Some':
                picks[n.split('::')[-1]] = qc.from_itf(o['value'])
        for attempt in range(400):
            m.rng = random.Random(attempt)
            m.forced = picks
            m.cur = dict(conv[k - 1])
            nxt = m.step(action)
            if nxt is not None and {v: nxt[v] for v in names} == conv[k]:
                break
        else:
            raise ToolError('the compiled specification and Quint disagree at step %d' % k)
        out.append(calls_of(nxt))
    m.forced = None
    return out


def scratch():
    d = os.path.join(BUILD, 'run')
    os.makedirs(d, exist_ok=True)
    return tempfile.mkdtemp(dir=d)
