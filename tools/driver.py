"""Decides one property: explores the specification, replays its behaviours into the
library as built from /repo, and reports."""
import concurrent.futures
import hashlib
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib
import checks
from lib import ROOT, BUILD, RESET, ToolError, log

CAP = {'quick': 420, 'thorough': 3300}     # seconds after which no new behaviour is started


# ---- which part of an outcome the property is about --------------------------------------
def project(proj, lines):
    out = []
    for l in lines:
        if proj is None or l.startswith('reset|'):
            out.append(l)
            continue
        op, s, a, tag, data = l.split('|')
        big = 'big_' if op.startswith('big_') else ''
        op = op[len(big):]
        if proj == 'complete':
            # only that genuine signatures are accepted
            out.append(l if op.startswith('complete') or (op in ('y_check', 'y_tails') and tag == 'true')
                       else '|'.join([op, s, a, 'any', '']))
        elif proj == 'again':
            out.append(l if op == 'y_again' else '|'.join([op, s, a, 'any', '']))
        elif proj in ('accepts', 'rejects'):
            # accepted or not; the reason for a rejection is C07's matter
            if op in ('verify', 'verify_err'):
                yes = tag in ('true', 'ok')
                want = 'true' if yes else 'false'
                if proj == 'rejects' and yes:
                    want = 'any'
                out.append('|'.join([big + ('accepts' if op == 'verify' else 'accepts_err'), s, a, want, '']))
            elif op in ('y_check', 'y_splice', 'y_sweep'):
                out.append('|'.join([op, s, a, tag if tag == 'false' or proj == 'accepts' else 'any', '']))
            else:
                out.append('|'.join([op, s, a, 'any', '']))
        elif proj == 'agree':
            # both functions say the same; all-zero keys and signatures are refused
            if op == 'verify':
                out.append('|'.join([big + 'agree', s, a, 'true', '']))
                pk, sig, _ = a.split(',')
                if pk == '00' * 57 or sig == '00' * 114:
                    out.append(l)
            elif op == 'verify_err':
                pk, sig, _ = a.split(',')
                if pk == '00' * 57 or sig == '00' * 114:
                    out.append(l)
            else:
                out.append('|'.join([op, s, a, 'any', '']))
        elif proj == 'hex':
            out.append(l if op.endswith('_from_str') or op.startswith('hex_') else '|'.join([op, s, a, 'any', '']))
        else:
            raise ToolError('projection ' + proj)
    return out


# ---- jobs (run in worker processes) -----------------------------------------------------
class Result:
    def __init__(self):
        self.states, self.transitions, self.traces, self.calls, self.skipped = set(), 0, 0, 0, 0
        self.mismatches, self.specbad, self.samples, self.notes = [], [], [], []
        self.what = ''
        self.extra = {}


def digest(x):
    return hashlib.blake2b(x.encode(), digest_size=8).digest()


def add_trace(r, steps, proj, lines):
    lines.append(RESET)
    for st in steps:
        r.transitions += 1
        r.states.add(digest('\n'.join(st)))
        lines.extend(project(proj, st))
    r.traces += 1
    if steps and len(r.samples) < 1:
        r.samples.append([x if len(x) < 400 else x[:400] + '...' for x in steps[0]])


def replay_all(r, ctx, lines, m, mode=None, validated=True):
    if len(lines) <= 1:
        return
    for exe in ctx['exes']:
        n, sk, bad = lib.replay(exe, lines, ctx['work'], m, mode=mode)
        r.calls += n
        r.skipped += sk
        for b in bad[:5]:
            r.mismatches.append({'kind': b.kind, 'at': b.at, 'got': b.got, 'exe': exe, 'lines': lines})


def job_trace(ctx, w, seeds):
    r = Result()
    m = lib.machine(w.main, w.step)
    lines = []
    for i, s in seeds:
        if time.time() > ctx['deadline']:
            r.notes.append('time cap reached')
            break
        inv = w.inv_every and i % w.inv_every == 0
        steps, bad = lib.run_trace(m, s, w.steps, w.step, inv)
        if bad:
            r.specbad.append('%s.%s seed %d: the specification violates its own invariant' % (w.main, w.step, s))
        add_trace(r, steps, w.proj, lines)
    replay_all(r, ctx, lines, m)
    return r


def job_quint(ctx, w, seed, traces):
    r = Result()
    m = lib.machine(w.main, w.step)
    lines = []
    if w.main == 'm_keygen':
        ctx = dict(ctx, exes=[e for e in [lib.build_tape()] if e])
    for itf in lib.quint_traces(w.main, w.step, seed, traces, w.steps, ctx['work']):
        add_trace(r, lib.follow(m, itf, w.step), w.proj, lines)
    replay_all(r, ctx, lines, m)
    r.extra['quint_simulator_steps_cross_checked'] = r.transitions
    return r


def job_sym(ctx, kw, seeds, reps, seed):
    r = Result()
    m = lib.machine('m_symbolic')
    lines = []
    for s in seeds:
        steps, bad = lib.run_trace(m, s, kw['steps'], 'step', True)
        if bad:
            r.specbad.append('m_symbolic seed %d: invariant' % s)
        add_trace(r, steps, kw['proj'], lines)
    for exe in ctx['exes'][:1]:
        n, sk, bad = lib.replay(exe, lines, ctx['work'], m, mode=lambda p: ['sym', p, str(reps), str(seed)])
        r.calls += n
        for b in bad[:5]:
            r.mismatches.append({'kind': b.kind, 'at': b.at, 'got': b.got, 'exe': exe, 'lines': lines,
                                 'mode': ['sym', str(reps), str(seed)]})
    r.extra['symbolic_calls_concretised'] = r.calls
    return r


def fresh_outcomes(exe, lines, work, threads):
    """Each call in a process of its own."""
    f = os.path.join(work, 'fresh.%d.calls' % os.getpid())
    open(f, 'w').write('\n'.join(lines) + '\n')
    p = subprocess.run([exe, 'fresh', f, str(threads)], capture_output=True, text=True, timeout=600)
    out = {}
    for l in p.stdout.splitlines():
        w = l.split(' ')
        if w[0] == 'OUT' and len(w) >= 3:
            out[int(w[1])] = (w[2], w[3] if len(w) > 3 else '')
    os.unlink(f)
    return out


def job_history(ctx, kw, seeds, rounds, seed):
    """C11: the outcome of a call in any history, on any thread, is the outcome the same
    call has in a fresh process."""
    r = Result()
    m = lib.machine('m_history')
    lines = []
    for s in seeds:
        steps, bad = lib.run_trace(m, s, kw['steps'], 'step', s % 4 == 0)
        if bad:
            r.specbad.append('m_history seed %d: invariant' % s)
        add_trace(r, steps, None, lines)
    for exe in ctx['exes'][:1]:
        fresh = fresh_outcomes(exe, lines, ctx['work'], 4)
        base, off = [], 0
        for i, l in enumerate(lines):
            if l.startswith('reset|'):
                base.append(l)
                continue
            op, s, a, tag, data = l.split('|')
            if i not in fresh:
                raise ToolError('no outcome from a fresh process for line %d' % i)
            if fresh[i] != (tag, data):
                off += 1     # wrong in a fresh process too: another property's matter
            base.append('|'.join([op, s, a, fresh[i][0], fresh[i][1]]))
        r.extra['fresh_process_outcomes'] = len(fresh)
        r.extra['fresh_outcomes_not_as_specified'] = off
        n, sk, bad = lib.replay(exe, base, ctx['work'], m)
        r.calls += n
        for b in bad[:5]:
            r.mismatches.append({'kind': 'history', 'at': b.at, 'got': b.got, 'exe': exe, 'lines': base})
        shuf = ['shuffle', str(kw['shuffle']), str(seed)]
        n, sk, bad = lib.replay(exe, base, ctx['work'], m, mode=lambda p: [shuf[0], p] + shuf[1:])
        r.calls += n
        r.extra['reordered_calls'] = n
        for b in bad[:5]:
            r.mismatches.append({'kind': 'history', 'at': b.at, 'got': b.got, 'exe': exe, 'lines': base, 'mode': shuf})
        for k in range(kw['cold']):
            mode = ['conc', '8', '3', str(seed * 1000 + k)]
            n, sk, bad = lib.replay(exe, base, ctx['work'], m, mode=lambda p: [mode[0], p] + mode[1:])
            r.calls += n
            r.extra['concurrent_cold_starts'] = r.extra.get('concurrent_cold_starts', 0) + 1
            for b in bad[:1]:
                r.mismatches.append({'kind': 'thread', 'at': b.at, 'got': b.got, 'exe': exe, 'lines': base, 'mode': mode})
            if bad:
                break
        cont = ['contend', '8', str(kw['contend']), str(seed)]
        n, sk, bad = lib.replay(exe, base, ctx['work'], m, mode=lambda p: [cont[0], p] + cont[1:])
        r.calls += n
        r.extra['contended_calls'] = n
        for b in bad[:2]:
            r.mismatches.append({'kind': 'thread', 'at': b.at, 'got': b.got, 'exe': exe, 'lines': base, 'mode': cont})
        n, sk, bad = lib.replay(exe, base, ctx['work'], m, mode=lambda p: ['conc', p, '8', str(rounds), str(seed)])
        r.calls += n
        r.extra['concurrent_calls'] = n
        for b in bad[:5]:
            r.mismatches.append({'kind': 'thread', 'at': b.at, 'got': b.got, 'exe': exe, 'lines': base,
                                 'mode': ['conc', '8', str(rounds), str(seed)]})
    return r


def job_sustain(ctx, kw, seeds, count):
    """C11: every operation many times over in one process, one operation to a thread."""
    r = Result()
    m = lib.machine('m_history')
    lines = []
    for s in seeds:
        add_trace(r, lib.run_trace(m, s, 3, 'step', False)[0], None, lines)
    exe, mode = ctx['exes'][0], ['sustain', str(count), '6']
    n, sk, bad = lib.replay(exe, lines, ctx['work'], m, mode=lambda p: [mode[0], p] + mode[1:], timeout=1500)
    r.calls += n
    r.extra['sustained_calls'] = n
    if bad:
        fresh = fresh_outcomes(exe, [l for i, l in enumerate(lines) if any(b.at == i for b in bad)], ctx['work'], 4)
        asked = [i for i in range(len(lines)) if any(b.at == i for b in bad)]
        for b in bad[:5]:
            op, s, a, tag, data = lines[b.at].split('|') if '|' in lines[b.at] else ('', '', '', '', '')
            # wrong in a fresh process too: another property's matter
            if b.kind != 'outcome' or op == 'reset' or fresh.get(asked.index(b.at)) == (tag, data):
                r.mismatches.append({'kind': 'history', 'at': b.at, 'got': b.got, 'exe': exe, 'lines': lines, 'mode': mode})
    return r


def job_population(ctx, kw, n, seed):
    """C11: many clients, each with a key and messages of its own, served by one process in
    one order and by another in the opposite order: the same outcomes."""
    r = Result()
    exe = ctx['exes'][0]
    ps = [subprocess.Popen([exe, 'population', str(n), str(seed), '4', b], stdout=subprocess.PIPE, text=True) for b in '01']
    seen = []
    for p in ps:
        out = {}
        for l in p.communicate(timeout=1500)[0].splitlines():
            w = l.split(' ')
            if w[0] == 'POP':
                out[int(w[1])] = w[2:]
            elif w[0] == 'HANG':
                out['hang'] = True
        seen.append(out)
    if any(len(o) != n or 'hang' in o for o in seen):
        r.notes.append('the population was not served completely; not judged')
        r.extra['population_not_run'] = 1
        return r
    r.calls += 10 * n
    r.extra['population_clients'] = n
    for i in [i for i in range(n) if seen[0][i] != seen[1][i]][:3]:
        j = [a == b for a, b in zip(seen[0][i], seen[1][i])].index(False)
        calls = subprocess.run([exe, 'client', str(seed), str(i)], capture_output=True, text=True).stdout.split()
        f = fresh_outcomes(exe, [calls[j] + 'any|'], ctx['work'], 1).get(0, ('?', ''))
        r.mismatches.append({'kind': 'history', 'at': 1, 'got': ('another outcome in one of two orders of %d clients' % n, ''), 'exe': exe,
                             'lines': [RESET, calls[j] + '|'.join(f)], 'novalidate': True})
    return r


def rank456(keys):
    basis = {}
    for k in keys:
        while k:
            h = k.bit_length()
            if h in basis:
                k ^= basis[h]
            else:
                basis[h] = k
                break
    return len(basis)


def job_keygen(ctx, kw, n):
    """C15 on ed448_generate_key and the real random source: two processes, eight threads.
    Every bound is far beyond what chance produces (below 1e-5 in all)."""
    r = Result()
    keys, probs = [], []
    for p in range(2):
        out = subprocess.run([ctx['exes'][p % len(ctx['exes'])], 'keygen', str(n), str(kw['windows']), '8'],
                             capture_output=True, text=True, timeout=600)
        rows = [l.split(' ') for l in out.stdout.splitlines()]
        if out.returncode != 0 or not rows or rows[-1][0] != 'DONE':
            if 'harness:' in out.stderr:
                raise ToolError(out.stderr[-500:])
            probs.append('key generation ended: rc %d' % out.returncode)
            break
        r.calls += int(rows[-1][1])
        st = {w[1]: w[2:] for w in rows if w[0] == 'STAT'}
        keys += [k for w in rows if w[0] == 'FIRST' for k in w[1].split(',')]
        if int(st['repeats'][0]):
            probs.append('%s keys occur twice among %d' % (st['repeats'][0], n))
        if int(st['stretches'][0]):
            probs.append('%s stretches of eight bytes occur twice' % st['stretches'][0])
        if float(st['bias'][0]) > 9:
            probs.append('bit %s prefers a value: %s standard deviations' % (st['bias'][1], st['bias'][0]))
        if float(st['pairs'][0]) > 12:
            probs.append('bytes %s and %s go together: %s standard deviations' % (*st['pairs'][1:], st['pairs'][0]))
        if float(st['values'][0]) > 12:
            probs.append('byte %s is %s too often or too rarely: %s standard deviations' % (*st['values'][1:], st['values'][0]))
    v = [int.from_bytes(bytes.fromhex(k), 'little') for k in keys]
    if len(set(v)) != len(v):
        probs.append('the same key in two processes or twice')
    rk = rank456(v)
    if keys and rk != 456:
        probs.append('the keys span a space of dimension %d, not 456' % rk)
    r.samples.append(keys[:1])
    r.extra.update(generated_keys=r.calls, rank=rk)
    if probs:
        r.mismatches.append({'kind': 'keygen', 'at': 0, 'got': ('; '.join(probs), ''), 'exe': ctx['exes'][0],
                             'lines': [RESET] + ['# ' + k for k in keys[:20]], 'novalidate': True})
    return r


def job_tape(ctx, w, seeds):
    """m_keygen on a random source the specification controls."""
    r = Result()
    exe = lib.build_tape()
    if exe is None:
        r.notes.append('the controlled random source does not build against this tree')
        return r
    m = lib.machine(w.main, w.step)
    lines = []
    for i, s in seeds:
        steps, bad = lib.run_trace(m, s, w.steps, w.step, True)
        if bad:
            r.specbad.append('%s seed %d: the specification violates its own invariant' % (w.main, s))
        add_trace(r, steps, w.proj, lines)
    replay_all(r, dict(ctx, exes=[exe]), lines, m)
    return r


def job_kat(ctx, kw):
    """The specification itself against published vectors."""
    r = Result()
    for f in ('ed448_kat',):
        p = subprocess.run(['quint', 'test', '--main', f, '--match', '.*', os.path.join(lib.SPEC, f + '.qnt')],
                           capture_output=True, text=True, timeout=400)
        if p.returncode != 0:
            raise ToolError('quint test %s:\n%s' % (f, (p.stdout + p.stderr)[-2000:]))
        r.extra['spec_vectors_passed'] = p.stdout.count(' ok ')
    return r


def quint_verify(ctx, main, init, steps, timeout):
    """quint verify, i.e. Apalache; None if it could not be run."""
    t = ''
    for attempt in range(2):
        d = tempfile.mkdtemp(prefix='apalache.', dir=ctx['work'])
        port = 20000 + random.SystemRandom().randrange(20000)
        with open(os.path.join(d, 'out'), 'w+') as out:
            p = subprocess.run(['quint', 'verify', '--main', main, '--init', init, '--invariant', 'inv', '--max-steps', str(steps),
                                '--server-endpoint', 'localhost:%d' % port, os.path.join(lib.SPEC, main + '.qnt')],
                               stdout=out, stderr=subprocess.STDOUT, text=True, timeout=timeout, cwd=d)
            out.seek(0)
            t = out.read()
        if '[ok]' in t and p.returncode == 0:
            return 'ok'
        if 'violation' in t.lower():
            return 'violation: ' + t[-1500:]
    log('quint verify %s: %s' % (main, t[-800:]))
    return None


def job_apalache(ctx, kw):
    """The symbolic machine: its invariant holds at first, and is kept by every step from
    every state in which it holds."""
    r = Result()
    timeout = kw.get('timeout', 300)
    for init, steps in (('init', kw['steps']), ('anyState', 1)):
        v = quint_verify(ctx, kw['main'], init, steps, timeout)
        if v is None:
            r.extra['apalache_not_run_' + init] = 1      # says nothing about the code
        elif v != 'ok':
            r.specbad.append('apalache from %s: %s' % (init, v))
        else:
            r.extra['apalache_steps_from_' + init] = steps
    return r


def job_toy(ctx, kw, step, part, parts):
    """Every instance of a statement about the small curves (toy.qnt)."""
    r = Result()
    m = lib.machine('m_toy')
    for choices in m.exhaust(step, part, parts):
        r.transitions += 1
        if not m.call('inv'):
            r.specbad.append('m_toy.%s: %s' % (step, choices))
            break
    r.extra['small_curve_instances_enumerated'] = r.transitions
    return r


def job_tlc(ctx, kw, step, workers, timeout):
    """The same by TLC, on Quint's translation to TLA+."""
    r = Result()
    try:
        n, bad = lib.tlc('m_toy', step, ctx['work'], workers, timeout)
    except (ToolError, OSError, subprocess.TimeoutExpired) as e:
        n, bad = 0, str(e)
    if bad and 'is violated' in bad:
        r.specbad.append('TLC m_toy.%s: %s' % (step, bad))
    elif bad:
        log('TLC m_toy.%s: %s' % (step, bad))
        r.extra['tlc_not_run_' + step] = 1     # says nothing about the code
    else:
        r.extra['tlc_states_generated'] = n
    return r


JOBS = {'population': job_population, 'sustain': job_sustain, 'toy': job_toy, 'tlc': job_tlc, 'trace': job_trace, 'quint': job_quint, 'sym': job_sym, 'history': job_history, 'keygen': job_keygen, 'tape': job_tape,
        'kat': job_kat, 'apalache': job_apalache}


def run_job(ctx, kind, args, what):
    if kind in ('quint', 'kat'):
        # external tools: a second attempt before giving up
        try:
            return run_job_once(ctx, kind, args, what)
        except ToolError:
            pass
    return run_job_once(ctx, kind, args, what)


def run_job_once(ctx, kind, args, what):
    try:
        t = time.time()
        r = JOBS[kind](ctx, *args)
        r.what = what
        r.wall = time.time() - t
        return r
    except subprocess.TimeoutExpired as e:
        raise ToolError('%s: timeout: %s' % (what, e))
    except ToolError:
        raise
    except Exception:
        raise ToolError('%s:\n%s' % (what, traceback.format_exc()))


def plan(prop, tier, seed):
    jobs = []
    base = (int(prop[1:]) * 1000003 + seed * 7919) * 100000
    deep = tier == 'thorough'
    for wi, w in enumerate(checks.CHECKS[prop]):
        s0 = base + wi * 1000000
        if isinstance(w, checks.T) and w.tape:
            n = w.traces * (w.deep if deep else 1)
            jobs.append(('tape', (w, [(i, s0 + i) for i in range(n)]), 'tape.' + w.main))
        elif isinstance(w, checks.T):
            n = w.traces * (w.deep if deep else 1)
            size = w.chunk or max(1, min(n // 24, 60))
            for a in range(0, n, size):
                jobs.append(('trace', (w, [(i, s0 + i) for i in range(a, min(n, a + size))]), w.main + '.' + w.step))
        elif isinstance(w, checks.Q):
            jobs.append(('quint', (w, s0 % (1 << 31) + 1, w.traces * (w.deep if deep else 1)), 'quint run ' + w.main))
        elif w.name == 'sym':
            parts = 8
            n = w.kw['traces']
            for k in range(parts):
                jobs.append(('sym', (w.kw, [s0 + i for i in range(k, n, parts)], w.kw['reps'] * (w.deep * 3 if deep else 1), s0 % (1 << 30) + k),
                             'symbolic'))
        elif w.name == 'history':
            parts = 6 if not deep else 24
            for k in range(parts):
                jobs.append(('history', (w.kw, [s0 + k * 10000 + i for i in range(w.kw['traces'])],
                                         w.kw['rounds'] * (w.deep if deep else 1), s0 % (1 << 30) + k), 'history'))
        elif w.name == 'sustain':
            jobs.append(('sustain', (w.kw, [s0 + i for i in range(w.kw['traces'])], w.kw['count'] * (w.deep if deep else 1)), 'sustained'))
        elif w.name == 'population':
            jobs.append(('population', (w.kw, w.kw['n'] * (w.deep if deep else 1), s0 % (1 << 30)), 'population'))
        elif w.name == 'keygen':
            jobs.append(('keygen', (w.kw, w.kw['n'] * (w.deep if deep else 1)), 'keygen'))
        elif w.name == 'apalache':
            kw = dict(w.kw)
            if deep:
                kw.update(steps=kw['steps'] + 3, timeout=2400)
            jobs.append(('apalache', (kw,), 'apalache'))
        elif w.name == 'toy':
            for st in checks.TOY[tier]:
                parts = checks.TOY[tier][st]
                for k in range(parts):
                    jobs.append(('toy', (w.kw, st, k, parts), 'm_toy.' + st))
            for st in checks.TLC[tier]:
                jobs.append(('tlc', (w.kw, st, 4 if deep else 1, 2400 if deep else 240), 'tlc.m_toy.' + st))
        else:
            jobs.append((w.name, (w.kw,), w.name))
    # the long ones first
    order = {'sustain': 0, 'population': 0, 'apalache': 0, 'tlc': 1, 'quint': 1, 'kat': 1, 'history': 0, 'sym': 1}
    jobs.sort(key=lambda j: (order.get(j[0], 3) if 'Hashed' not in j[2] and 'Signed' not in j[2] else 0, 0 if 'Hashed' in j[2] or 'Signed' in j[2] else 1 if 'huge' in j[2] else 2))
    return jobs


# ---- reporting --------------------------------------------------------------------------
def known_findings(prop):
    out = {}
    f = os.path.join(ROOT, 'known-findings.txt')
    if os.path.exists(f):
        for l in open(f):
            w = l.split()
            if len(w) > 2 and w[0] == 'known:' and w[1] == 'property=' + prop and w[2].startswith('call='):
                out[w[2][5:]] = ' '.join(w[3:])
    return out


def call_id(line):
    return hashlib.sha256('|'.join(line.split('|')[:3]).encode()).hexdigest()[:32]


def confirm(ctx, b):
    """Reproduce a mismatch: the behaviour alone, then the whole run it was part of.
    Returns (lines to keep, note) or None when it does not come back."""
    if b.get('novalidate'):
        return b['lines'], ''
    if 'mode' in b:
        mode = lambda p: [b['mode'][0], p] + b['mode'][1:]
        for _ in range(2):
            if lib.replay(b['exe'], b['lines'], ctx['work'], ctx['m'], mode=mode)[2]:
                return b['lines'], 'mode: ' + ' '.join(b['mode'])
        return b['lines'], 'not reproduced by repeating the same run; mode: ' + ' '.join(b['mode'])
    os.environ['HANG_SECONDS'] = '120'
    tr = lib.trace_of(b['lines'], b['at'])
    if lib.replay(b['exe'], tr, ctx['work'], ctx['m'])[2]:
        one = [RESET, tr[-1]]
        if len(tr) > 2 and tr[-1].split('|')[1] == '-' and lib.replay(b['exe'], one, ctx['work'], ctx['m'])[2]:
            return one, ''
        return tr, ''
    if lib.replay(b['exe'], b['lines'], ctx['work'], ctx['m'])[2]:
        return b['lines'], 'only after the calls before it'
    if b['kind'] == 'hang':
        return None
    return b['lines'], 'seen once, not reproduced by repeating the same run'


def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'))
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    ev = os.path.join(ROOT, 'evidence', prop + '.json')
    os.makedirs(os.path.dirname(ev), exist_ok=True)
    if os.path.exists(ev):
        os.unlink(ev)
    work = lib.scratch()
    try:
        rc = decide(prop, tier, seed, t0, ev, work)
    except ToolError as e:
        log('ERROR %s: %s' % (prop, e))
        rc = 2
    except Exception:
        log('ERROR %s:' % prop, traceback.format_exc())
        rc = 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def decide(prop, tier, seed, t0, ev, work):
    layers, exes = lib.build_harness()
    log('%s %s seed=%d: harness built from /repo (layers: api %s) in %.1f s' % (prop, tier, seed, ' '.join(layers), time.time() - t0))
    ctx = {'exes': exes, 'work': work, 'deadline': t0 + CAP[tier]}
    need = sorted({(w.main, w.step) for w in checks.CHECKS[prop] if isinstance(w, (checks.T, checks.Q))})
    with concurrent.futures.ThreadPoolExecutor(6) as ex:
        list(ex.map(lambda k: lib.ir_of(*k), need))
    jobs = plan(prop, tier, seed)
    results, err = [], None
    with concurrent.futures.ProcessPoolExecutor(lib.NCPU) as ex:
        fs = [ex.submit(run_job, ctx, *j) for j in jobs]
        for f in concurrent.futures.as_completed(fs):
            try:
                results.append(f.result())
            except ToolError as e:
                err = e
            except concurrent.futures.process.BrokenProcessPool as e:
                err = ToolError('worker died: %s' % e)
    states = set().union(*[r.states for r in results]) if results else set()
    tot = {k: sum(getattr(r, k) for r in results) for k in ('transitions', 'traces', 'calls', 'skipped')}
    per, extra, samples, notes = {}, {}, [], []
    for r in results:
        p = per.setdefault(r.what, {'behaviours': 0, 'steps': 0, 'calls_replayed': 0, 'cpu_s': 0})
        p['behaviours'] += r.traces
        p['steps'] += r.transitions
        p['calls_replayed'] += r.calls
        p['cpu_s'] = round(p['cpu_s'] + r.wall, 1)
        for k, v in r.extra.items():
            extra[k] = max(extra.get(k, 0), v) if k == 'rank' or k.startswith('apalache_') else extra.get(k, 0) + v
        if r.samples and sum(1 for s in samples if s['machine'] == r.what) < 1:
            samples.append({'machine': r.what, 'calls': r.samples[0]})
        notes += [n for n in r.notes if n not in notes]
    specbad = [x for r in results for x in r.specbad]
    bad = [b for r in results for b in r.mismatches]
    need_m = sorted(need, key=lambda k: k[0] != 'm_arith')
    ctx['m'] = lib.machine(*need_m[0]) if need_m and bad else None
    nviol, shown, known = 0, set(), known_findings(prop)
    vdir = os.path.join(BUILD, 'violations')
    for b in bad:
        line = b['lines'][b['at']] if b['at'] < len(b['lines']) else RESET
        if call_id(line) in known:
            if call_id(line) not in shown:
                log('KNOWN-FINDING: property=%s %s' % (prop, known[call_id(line)]))
            shown.add(call_id(line))
            continue
        if nviol >= 5 or call_id(line) in shown:
            continue
        shown.add(call_id(line))
        c = confirm(ctx, b)
        if c is None:
            notes.append('a call was slow once; not reproduced')
            continue
        nviol += 1
        os.makedirs(vdir, exist_ok=True)
        keep, note = c
        f = os.path.join(vdir, '%s-%s-%d.calls' % (prop, hashlib.sha256('\n'.join(keep).encode()).hexdigest()[:10], nviol))
        op = line.split('|')
        with open(f, 'w') as o:
            o.write('# property %s; the last call differs from the specification%s\n' % (prop, '; ' + note if note else ''))
            o.write('# call      %s(%s)\n' % (op[0], ', '.join(op[2].split(','))))
            o.write('# specified %s %s\n# observed  %s %s\n# build     %s\n' % (op[3], op[4], b['got'][0], b['got'][1], b['exe']))
            o.write('\n'.join(keep) + '\n')
        log('  %s: specified %s %s, observed %s %s' % (op[0], op[3], op[4][:60], b['got'][0][:200], str(b['got'][1])[:60]))
        log('VIOLATION property=%s replay=%s' % (prop, f))
    if specbad:
        log('SPECIFICATION DEFECT:', *specbad[:5])
    e = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': dict({
            'states': len(states), 'transitions': tot['transitions'], 'traces_validated_against_impl': tot['traces'],
            'calls_replayed': tot['calls'], 'calls_skipped_layer_not_built': tot['skipped'], 'builds': len(exes),
            'layers': ['api'] + list(layers), 'machines': per, 'samples': samples[:6],
        }, **extra),
        'assumptions': [
            'the compiled specification (tools/qc.py) is Quint\'s semantics: cross-checked against quint run on every run',
            'inputs outside the sampled classes behave like those inside them'],
        'wall_s': round(time.time() - t0, 1), 'violations': nviol,
    }
    if notes:
        e['coverage']['notes'] = notes
    json.dump(e, open(ev, 'w'), indent=1)
    log('%s: %d behaviours, %d steps, %d distinct states, %d calls replayed, %.0f s' % (
        prop, tot['traces'], tot['transitions'], len(states), tot['calls'], time.time() - t0))
    for k in sorted(per):
        log('   %-24s %s' % (k, per[k]))
    if nviol:
        return 1
    if specbad:
        return 2
    if err:
        raise err
    return 0


if __name__ == '__main__':
    main()
