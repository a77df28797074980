#!/usr/bin/env python3
"""Executes a Quint specification at volume.

`quint compile --target json` resolves, type-checks and flattens a specification;
this translates that IR, definition by definition, into Python functions (Python
integers are unbounded, like Quint's) and steps the resulting state machine.  The
specification stays the single source of every expected value; the checks compare
this evaluator with Quint's own simulator on every run (see crosscheck in
driver.py).

Only the part of Quint the specifications use is supported; anything else is an
error, never a guess.
"""
import json
import sys
import subprocess
import tempfile
import random as _random
from collections import namedtuple


sys.set_int_max_str_digits(0)   # a long message is a long integer


class Unsupported(Exception):
    pass


# ---- run-time values ----------------------------------------------------------
# int, bool, str     themselves
# List, Tup          tuple
# Set                QSet (ordered, duplicate free) or IntRange
# Rec                namedtuple on the sorted field names
# variant            ('Label', value)
# Map                QMap

_records = {}


def record_class(fields):
    key = tuple(sorted(fields))
    if key not in _records:
        names = [f + '_' if f in _PYRES else f for f in key]
        _records[key] = namedtuple('R_' + '_'.join(key), names)
    return _records[key]


_PYRES = {'from', 'in', 'is', 'as', 'def', 'class', 'pass', 'if', 'else', 'not', 'and', 'or',
          'count', 'index', 'None', 'True', 'False', 'lambda', 'with', 'try', 'raise', 'del'}


def _attr(f):
    return f + '_' if f in _PYRES else f


def sort_key(v):
    if isinstance(v, bool):
        return (0, int(v))
    if isinstance(v, int):
        return (1, v)
    if isinstance(v, str):
        return (2, v)
    if isinstance(v, tuple):
        return (3, len(v), tuple(sort_key(x) for x in v))
    if isinstance(v, (QSet, IntRange)):
        return (4, len(v), tuple(sorted(sort_key(x) for x in v)))
    if isinstance(v, QMap):
        return (5, len(v.d), tuple(sorted((sort_key(k), sort_key(x)) for k, x in v.d.items())))
    raise Unsupported(repr(type(v)))


class QSet:
    __slots__ = ('s',)

    def __init__(self, it):
        self.s = frozenset(it)

    def __iter__(self):
        return iter(sorted(self.s, key=sort_key))

    def __len__(self):
        return len(self.s)

    def __contains__(self, x):
        return x in self.s

    def __eq__(self, o):
        return self.s == frozenset(o)

    def __hash__(self):
        return hash(self.s)


class IntRange:
    __slots__ = ('a', 'b')

    def __init__(self, a, b):
        self.a, self.b = a, b

    def __iter__(self):
        x = self.a
        while x <= self.b:
            yield x
            x += 1

    def __len__(self):
        return max(0, self.b - self.a + 1)

    def __contains__(self, x):
        return isinstance(x, int) and self.a <= x <= self.b

    def __eq__(self, o):
        return frozenset(self) == frozenset(o)

    def __hash__(self):
        return hash(frozenset(self))


class QMap:
    __slots__ = ('d',)

    def __init__(self, d):
        self.d = d

    def __eq__(self, o):
        return self.d == o.d

    def __hash__(self):
        return hash(frozenset(self.d.items()))


def q_one_of(rng, s):
    if isinstance(s, IntRange):
        if s.b < s.a:
            return None
        return (rng.randint(s.a, s.b),)
    l = list(s)
    if not l:
        return None
    return (l[rng.randrange(len(l))],)


def q_match(v, *arms):
    for i in range(0, len(arms), 2):
        if arms[i] == '_' or arms[i] == v[0]:
            return arms[i + 1](v[1])
    raise Unsupported('no arm for ' + v[0])


def q_foldl(xs, z, f):
    for x in xs:
        z = f(z, x)
    return z


def q_foldr(xs, z, f):
    for x in reversed(tuple(xs)):
        z = f(x, z)
    return z


def q_fold(s, z, f):
    for x in s:
        z = f(z, x)
    return z


def q_nth(l, i):
    if i < 0:
        raise IndexError('nth')
    return l[i]


def q_replace(l, i, x):
    return l[:i] + (x,) + l[i + 1:]


def q_tuples(*ss):
    import itertools
    return QSet(itertools.product(*[list(s) for s in ss]))


def q_rec_with(r, f, x):
    return r._replace(**{_attr(f): x})


def q_some(xs, f):
    for x in xs:
        if f(x):
            return True
    return False


def q_every(xs, f):
    for x in xs:
        if not f(x):
            return False
    return True


def q_put(m, k, v):
    d = dict(m.d)
    d[k] = v
    return QMap(d)


def q_setby(m, k, f):
    d = dict(m.d)
    d[k] = f(d[k])
    return QMap(d)


def q_powerset(s):
    import itertools
    l = list(s)
    return QSet(QSet(c) for r in range(len(l) + 1) for c in itertools.combinations(l, r))


BIN = {'iadd': '+', 'isub': '-', 'imul': '*', 'idiv': '//', 'imod': '%', 'ipow': '**',
       'igt': '>', 'igte': '>=', 'ilt': '<', 'ilte': '<=', 'eq': '==', 'neq': '!='}


# Operators of the specification computed by Python's own: a definition written with
# tables because Quint has no bitwise operators.  Compared with Quint's evaluation of the
# definition by every cross-check with `quint run` and by tools/mkir.py.
OVERRIDE = {'xor64': '(%s ^ %s)', 'andn64': '(~%s & %s)', 'fpow': 'pow(%s, %s, {P})'}


def log2(e):
    """k if e is the literal 2^k, else None."""
    if e['kind'] == 'int':
        v = int(e['value'])
        if v > 0 and v & (v - 1) == 0:
            return v.bit_length() - 1
    return None


class Gen:
    """Code generation for one definition: statements plus a result expression."""

    def __init__(self, unit):
        self.unit = unit
        self.lines = []
        self.ind = 1
        self.tmp = 0

    def emit(self, s):
        self.lines.append('    ' * self.ind + s)

    def fresh(self, p='t'):
        self.tmp += 1
        return '_%s%d' % (p, self.tmp)

    # simple expressions never emit statements, so they may be placed lazily
    def sub(self, e, env):
        """Generate e in a nested block; returns (lines, expr)."""
        saved, self.lines = self.lines, []
        self.ind += 1
        x = self.expr(e, env)
        self.ind -= 1
        lines, self.lines = self.lines, saved
        return lines, x

    def lazy_bool(self, args, env, op):
        parts = [self.sub(a, env) for a in args]
        if all(not l for l, _ in parts):
            return '(' + (' %s ' % op).join(x for _, x in parts) + ')'
        t = self.fresh('b')
        l0, x0 = parts[0]
        for ln in l0:
            self.lines.append(ln[4:])
        self.emit('%s = %s' % (t, x0))
        depth = self.ind
        for l, x in parts[1:]:
            self.emit('if %s%s:' % ('' if op == 'and' else 'not ', t))
            self.ind += 1
            shift = '    ' * (self.ind - depth - 1)
            for ln in l:
                self.lines.append(shift + ln)
            self.emit('%s = %s' % (t, x))
        self.ind = depth
        return t

    def lam(self, e, env, name=None):
        """A function value: a Python lambda when possible, else a nested def."""
        if e['kind'] == 'name':
            return self.expr(e, env)
        if e['kind'] != 'lambda':
            raise Unsupported('lambda expected, got ' + e['kind'])
        env2 = dict(env)
        ps = []
        for p in e['params']:
            v = 'u_%s_%d' % (mangle(p['name']), self.unit.uniq())
            env2[p['name']] = ('val', v)
            ps.append(v)
        lines, x = self.sub(e['expr'], env2)
        if not lines and not name:
            return '(lambda %s: %s)' % (', '.join(ps), x)
        f = name or self.fresh('f')
        self.emit('def %s(%s):' % (f, ', '.join(ps)))
        self.lines += lines
        self.lines.append('    ' * (self.ind + 1) + 'return ' + x)
        return f

    def expr(self, e, env):
        k = e['kind']
        if k == 'int':
            return '(%d)' % int(e['value']) if int(e['value']) < 0 else str(int(e['value']))
        if k == 'bool':
            return 'True' if e['value'] else 'False'
        if k == 'str':
            return repr(e['value'])
        if k == 'name':
            n = e['name']
            if n in env:
                kind, v = env[n]
                return v + '()' if kind == 'thunk' else v
            return self.unit.ref(n)
        if k == 'lambda':
            return self.lam(e, env)
        if k == 'let':
            d = e['opdef']
            env2 = dict(env)
            if d['qualifier'] == 'nondet':
                raise Unsupported('nondet outside an action')
            if d['expr']['kind'] == 'lambda':
                v = 'd_%s_%d' % (mangle(d['name']), self.unit.uniq())
                self.lam(d['expr'], env, name=v)
                env2[d['name']] = ('val', v)
            else:
                v = 'v_%s_%d' % (mangle(d['name']), self.unit.uniq())
                x = self.expr(d['expr'], env)
                self.emit('%s = %s' % (v, x))
                env2[d['name']] = ('val', v)
            return self.expr(e['expr'], env2)
        if k == 'app':
            return self.app(e, env)
        raise Unsupported(k)

    def pow2(self, e, env):
        """An expression for k if e is 2^k by its form."""
        k = log2(e)
        if k is not None:
            return str(k)
        if e['kind'] == 'app' and e['opcode'] == 'ipow' and e['opcode'] not in env:
            k = log2(e['args'][0])
            if k:
                x = self.expr(e['args'][1], env)
                return x if k == 1 else '(%d * %s)' % (k, x)
        if e['kind'] == 'name' and e['name'] not in env and e['name'] in self.unit.defs:
            d = self.unit.defs[e['name']]
            if d['qualifier'] == 'pureval' and d['expr']['kind'] == 'app' and d['expr']['opcode'] == 'ipow' \
                    and all(a['kind'] == 'int' for a in d['expr']['args']):
                return self.pow2(d['expr'], env)
        return None

    def app(self, e, env):
        op, args = e['opcode'], e['args']
        if op in env:
            return '%s(%s)' % (env[op][1], ', '.join(self.expr(a, env) for a in args))
        if op in self.unit.defs:
            if op.split('::')[-1] in OVERRIDE and self.unit.overrides:
                f = OVERRIDE[op.split('::')[-1]] % tuple(self.expr(a, env) for a in args)
                return f.replace('{P}', self.unit.fref(self.unit.scope(op, 'P')))
            return '%s(%s)' % (self.unit.fref(op), ', '.join(
                self.lam(a, env) if a['kind'] == 'lambda' else self.expr(a, env) for a in args))
        if op in BIN:
            p = self.pow2(args[1], env) if op in ('idiv', 'imod') else \
                self.pow2(e, env) if op == 'ipow' else None
            if p is not None:
                if op == 'ipow':
                    return '(1 << %s)' % p
                a = self.expr(args[0], env)
                return '(%s >> %s)' % (a, p) if op == 'idiv' else '(%s & ((1 << %s) - 1))' % (a, p)
            a, b = self.expr(args[0], env), self.expr(args[1], env)
            return '(%s %s %s)' % (a, BIN[op], b)
        if op == 'iuminus':
            return '(-%s)' % self.expr(args[0], env)
        if op == 'and':
            return self.lazy_bool(args, env, 'and')
        if op == 'or':
            return self.lazy_bool(args, env, 'or')
        if op == 'not':
            return '(not %s)' % self.expr(args[0], env)
        if op == 'iff':
            return '(%s == %s)' % (self.expr(args[0], env), self.expr(args[1], env))
        if op == 'implies':
            neg = {'kind': 'app', 'opcode': 'not', 'args': [args[0]]}
            return self.lazy_bool([neg, args[1]], env, 'or')
        if op == 'ite':
            c = self.expr(args[0], env)
            l1, x1 = self.sub(args[1], env)
            l2, x2 = self.sub(args[2], env)
            if not l1 and not l2:
                return '(%s if %s else %s)' % (x1, c, x2)
            t = self.fresh('i')
            self.emit('if %s:' % c)
            self.lines += l1
            self.lines.append('    ' * (self.ind + 1) + '%s = %s' % (t, x1))
            self.emit('else:')
            self.lines += l2
            self.lines.append('    ' * (self.ind + 1) + '%s = %s' % (t, x2))
            return t
        if op == 'Rec':
            fs = [args[i]['value'] for i in range(0, len(args), 2)]
            vs = {fs[i]: self.expr(args[2 * i + 1], env) for i in range(len(fs))}
            cls = self.unit.rec(fs)
            return '%s(%s)' % (cls, ', '.join(vs[f] for f in sorted(fs)))
        if op == 'field':
            return '%s.%s' % (self.expr(args[0], env), _attr(args[1]['value']))
        if op == 'with':
            return 'q_rec_with(%s, %r, %s)' % (self.expr(args[0], env), args[1]['value'], self.expr(args[2], env))
        if op in ('List', 'Tup'):
            xs = [self.expr(a, env) for a in args]
            return '(' + ''.join(x + ', ' for x in xs) + ')'
        if op == 'item':
            return '%s[%d]' % (self.expr(args[0], env), int(args[1]['value']) - 1)
        if op == 'nth':
            return '%s[%s]' % (self.expr(args[0], env), self.expr(args[1], env))
        if op == 'append':
            return '(%s + (%s,))' % (self.expr(args[0], env), self.expr(args[1], env))
        if op == 'concat':
            return '(%s + %s)' % (self.expr(args[0], env), self.expr(args[1], env))
        if op == 'slice':
            return '%s[%s:%s]' % tuple(self.expr(a, env) for a in args)
        if op == 'head':
            return '%s[0]' % self.expr(args[0], env)
        if op == 'tail':
            return '%s[1:]' % self.expr(args[0], env)
        if op == 'length':
            return 'len(%s)' % self.expr(args[0], env)
        if op == 'size':
            return 'len(%s)' % self.expr(args[0], env)
        if op == 'replaceAt':
            return 'q_replace(%s)' % ', '.join(self.expr(a, env) for a in args)
        if op == 'range':
            return 'range(%s, %s)' % tuple(self.expr(a, env) for a in args) if False else \
                'tuple(range(%s, %s))' % tuple(self.expr(a, env) for a in args)
        if op == 'foldl':
            return self.foldl(args, env)
        if op == 'foldr':
            return 'q_foldr(%s, %s, %s)' % (self.expr(args[0], env), self.expr(args[1], env), self.lam(args[2], env))
        if op == 'fold':
            return 'q_fold(%s, %s, %s)' % (self.expr(args[0], env), self.expr(args[1], env), self.lam(args[2], env))
        if op == 'select':
            return 'tuple(filter(%s, %s))' % (self.lam(args[1], env), self.expr(args[0], env))
        if op == 'indices':
            return 'IntRange(0, len(%s) - 1)' % self.expr(args[0], env)
        if op == 'to':
            return 'IntRange(%s, %s)' % tuple(self.expr(a, env) for a in args)
        if op == 'Set':
            return 'QSet((%s))' % ''.join(self.expr(a, env) + ', ' for a in args)
        if op == 'contains':
            return '(%s in %s)' % (self.expr(args[1], env), self.expr(args[0], env))
        if op == 'in':
            return '(%s in %s)' % (self.expr(args[0], env), self.expr(args[1], env))
        if op == 'union':
            return 'QSet(tuple(%s) + tuple(%s))' % tuple(self.expr(a, env) for a in args)
        if op == 'exclude':
            a, b = (self.expr(x, env) for x in args)
            return 'QSet(x_ for x_ in %s if x_ not in %s)' % (a, b)
        if op == 'map':
            return 'QSet(map(%s, %s))' % (self.lam(args[1], env), self.expr(args[0], env))
        if op == 'filter':
            return 'QSet(filter(%s, %s))' % (self.lam(args[1], env), self.expr(args[0], env))
        if op == 'exists':
            return 'q_some(%s, %s)' % (self.expr(args[0], env), self.lam(args[1], env))
        if op == 'forall':
            return 'q_every(%s, %s)' % (self.expr(args[0], env), self.lam(args[1], env))
        if op == 'tuples':
            return 'q_tuples(%s)' % ', '.join(self.expr(a, env) for a in args)
        if op == 'flatten':
            return 'QSet(y_ for x_ in %s for y_ in x_)' % self.expr(args[0], env)
        if op == 'powerset':
            return 'q_powerset(%s)' % self.expr(args[0], env)
        if op == 'variant':
            return '(%r, %s)' % (args[0]['value'], self.expr(args[1], env))
        if op == 'matchVariant':
            out = [self.expr(args[0], env)]
            for i in range(1, len(args), 2):
                out.append(repr(args[i]['value']))
                out.append(self.lam(args[i + 1], env))
            return 'q_match(%s)' % ', '.join(out)
        if op == 'Map':
            return 'QMap(dict((%s)))' % ''.join(self.expr(a, env) + ', ' for a in args)
        if op == 'get':
            return '%s.d[%s]' % (self.expr(args[0], env), self.expr(args[1], env))
        if op in ('put', 'set'):
            return 'q_put(%s)' % ', '.join(self.expr(a, env) for a in args)
        if op == 'setBy':
            return 'q_setby(%s, %s, %s)' % (self.expr(args[0], env), self.expr(args[1], env), self.lam(args[2], env))
        if op == 'keys':
            return 'QSet(%s.d)' % self.expr(args[0], env)
        if op == 'mapBy':
            s, f = self.expr(args[0], env), self.lam(args[1], env)
            return 'QMap({x_: %s(x_) for x_ in %s})' % (f, s)
        if op == 'assert':
            return self.expr(args[0], env)
        raise Unsupported('operator ' + op)

    def foldl(self, args, env):
        xs, z, f = args
        # foldl([], (l, x) => l.append(E)), l not in E: a comprehension
        if z['kind'] == 'app' and z['opcode'] == 'List' and not z['args'] and f['kind'] == 'lambda':
            pl, px = f['params'][0]['name'], f['params'][1]['name']
            body, lets = f['expr'], []
            while body['kind'] == 'let':
                lets.append(body['opdef'])
                body = body['expr']
            if body['kind'] == 'app' and body['opcode'] == 'append' and \
                    body['args'][0]['kind'] == 'name' and body['args'][0]['name'] == pl and \
                    not mentions(body['args'][1], pl) and not any(mentions(d['expr'], pl) for d in lets):
                v = 'u_%s_%d' % (mangle(px), self.unit.uniq())
                env2 = dict(env)
                env2[px] = ('val', v)
                inner = body['args'][1]
                for d in reversed(lets):
                    inner = {'kind': 'let', 'opdef': d, 'expr': inner}
                src = self.iter_src(xs, env)
                lines, x = self.sub(inner, env2)
                if not lines:
                    return 'tuple([%s for %s in %s])' % (x, v, src)
                t = self.fresh('l')
                self.emit('%s = []' % t)
                self.emit('for %s in %s:' % (v, src))
                self.lines += lines
                self.lines.append('    ' * (self.ind + 1) + '%s.append(%s)' % (t, x))
                return 'tuple(%s)' % t
        if f['kind'] == 'lambda':
            # an inline loop
            src = self.iter_src(xs, env)
            acc = self.fresh('a')
            self.emit('%s = %s' % (acc, self.expr(z, env)))
            v = 'u_%s_%d' % (mangle(f['params'][1]['name']), self.unit.uniq())
            env2 = dict(env)
            env2[f['params'][0]['name']] = ('val', acc)
            env2[f['params'][1]['name']] = ('val', v)
            if captured(f['expr']):
                # a closure in the body must not see later accumulators
                fn = self.lam(f, env)
                return 'q_foldl(%s, %s, %s)' % (src, acc, fn)
            lines, x = self.sub(f['expr'], env2)
            self.emit('for %s in %s:' % (v, src))
            self.lines += lines
            self.lines.append('    ' * (self.ind + 1) + '%s = %s' % (acc, x))
            r = self.fresh('r')
            self.emit('%s = %s' % (r, acc))
            return r
        return 'q_foldl(%s, %s, %s)' % (self.expr(xs, env), self.expr(z, env), self.lam(f, env))

    def iter_src(self, xs, env):
        if xs['kind'] == 'app' and xs['opcode'] == 'range':
            return 'range(%s, %s)' % tuple(self.expr(a, env) for a in xs['args'])
        return self.expr(xs, env)

    # ---- actions: emit statements, return a Python bool expression -------------
    def action(self, e, env):
        k = e['kind']
        if k == 'let' and e['opdef']['qualifier'] == 'nondet':
            d = e['opdef']
            s = d['expr']
            if not (s['kind'] == 'app' and s['opcode'] == 'oneOf'):
                raise Unsupported('nondet without oneOf')
            x = self.expr(s['args'][0], env)
            o = self.fresh('o')
            v = 'n_%s_%d' % (mangle(d['name']), self.unit.uniq())
            self.emit('%s = M.choose(%r, %s)' % (o, d['name'].split('::')[-1], x))
            t = self.fresh('e')
            self.emit('%s = False' % t)
            self.emit('if %s is not None:' % o)
            self.ind += 1
            self.emit('%s = %s[0]' % (v, o))
            env2 = dict(env)
            env2[d['name']] = ('val', v)
            r = self.action(e['expr'], env2)
            self.emit('%s = %s' % (t, r))
            self.ind -= 1
            return t
        if k == 'let':
            d = e['opdef']
            env2 = dict(env)
            if d['qualifier'] == 'action':
                raise Unsupported('local action')
            if d['expr']['kind'] == 'lambda':
                v = 'd_%s_%d' % (mangle(d['name']), self.unit.uniq())
                self.lam(d['expr'], env, name=v)
            else:
                v = 'v_%s_%d' % (mangle(d['name']), self.unit.uniq())
                self.emit('%s = %s' % (v, self.expr(d['expr'], env)))
            env2[d['name']] = ('val', v)
            return self.action(e['expr'], env2)
        if k == 'app':
            op, args = e['opcode'], e['args']
            if op == 'assign':
                self.emit('M.nxt[%r] = %s' % (args[0]['name'], self.expr(args[1], env)))
                return 'True'
            if op == 'actionAll':
                t = self.fresh('e')
                self.emit('%s = True' % t)
                depth = self.ind
                for a in args:
                    self.emit('if %s:' % t)
                    self.ind += 1
                    r = self.action(a, env)
                    self.emit('%s = %s' % (t, r))
                self.ind = depth
                return t
            if op == 'actionAny':
                fs = []
                for a in args:
                    f = self.fresh('alt')
                    self.emit('def %s():' % f)
                    self.ind += 1
                    r = self.action(a, env)
                    self.emit('return ' + r)
                    self.ind -= 1
                    fs.append(f)
                return 'M.any((%s))' % ''.join(f + ', ' for f in fs)
            if op == 'ite':
                c = self.expr(args[0], env)
                t = self.fresh('e')
                self.emit('if %s:' % c)
                self.ind += 1
                self.emit('%s = %s' % (t, self.action(args[1], env)))
                self.ind -= 1
                self.emit('else:')
                self.ind += 1
                self.emit('%s = %s' % (t, self.action(args[2], env)))
                self.ind -= 1
                return t
            if op in self.unit.defs and self.unit.defs[op]['qualifier'] == 'action':
                return '%s(%s)' % (self.unit.fref(op), ', '.join(self.expr(a, env) for a in args))
        if k == 'name' and k not in env and e['name'] in self.unit.defs and \
                self.unit.defs[e['name']]['qualifier'] == 'action':
            return self.unit.fref(e['name']) + '()'
        return self.expr(e, env)


def mentions(e, name):
    k = e['kind']
    if k == 'name':
        return e['name'] == name
    if k == 'app':
        return e['opcode'] == name or any(mentions(a, name) for a in e['args'])
    if k == 'lambda':
        return mentions(e['expr'], name)
    if k == 'let':
        return mentions(e['opdef']['expr'], name) or mentions(e['expr'], name)
    return False


def captured(e):
    """Does evaluating e leave a closure that outlives the iteration?  Closures only
    escape through lists of functions, which Quint cannot express."""
    return False


def mangle(n):
    return ''.join(c if c.isalnum() else '_' for c in n)


class Machine:
    """The compiled specification: pure definitions as attributes of .env and a
    steppable state machine."""

    def __init__(self, ir, main=None, overrides=True):
        self.overrides = overrides
        mod = ir['modules'][-1]
        self.defs = {}
        self.vars = []
        self._n = 0
        self._recs = {}
        for d in mod['declarations']:
            if d['kind'] == 'def':
                self.defs[d['name']] = d
            elif d['kind'] == 'var':
                self.vars.append(d['name'])
            elif d['kind'] in ('typedef', 'assume'):
                pass
            else:
                raise Unsupported('declaration ' + d['kind'])
        self.cur, self.nxt = {}, {}
        self.rng = _random.Random(0)
        self.forced = None   # nondeterministic choices to take, by name
        src = []
        for d in mod['declarations']:
            if d['kind'] != 'def' or d['qualifier'] in ('run', 'temporal'):
                continue
            src.append(self.gen_def(d))
        self.src = '\n'.join(src)
        self.env = dict(globals())
        self.env.update(self._recs)
        self.env['M'] = self
        exec(compile(self.src, '<spec>', 'exec'), self.env)

    def uniq(self):
        self._n += 1
        return self._n

    def rec(self, fields):
        c = record_class(fields)
        self._recs[c.__name__] = c
        return c.__name__

    def ref(self, n):
        if n in self.vars:
            return 'M.cur[%r]' % n
        if n in self.defs:
            d = self.defs[n]
            if d['qualifier'] == 'pureval':
                return 'S_' + mangle(n)
            if d['expr']['kind'] == 'lambda':
                return 'S_' + mangle(n)
            return 'S_%s()' % mangle(n)
        raise Unsupported('name ' + n)

    def scope(self, op, name):
        """The constant `name` as the definition op sees it: in its instance, else global."""
        q = op.rsplit('::', 1)[0] + '::' + name if '::' in op else name
        if q in self.defs or name in self.defs:
            return q if q in self.defs else name
        found = [n for n in self.defs if n.endswith('::' + name)]
        if len(found) != 1:
            raise Unsupported('override of %s: which %s?' % (op, name))
        return found[0]

    def fref(self, n):
        return 'S_' + mangle(n)

    def gen_def(self, d):
        g = Gen(self)
        e = d['expr']
        name = 'S_' + mangle(d['name'])
        env, ps = {}, []
        act = d['qualifier'] == 'action'
        if e['kind'] == 'lambda':
            for p in e['params']:
                v = 'p_' + mangle(p['name'])
                env[p['name']] = ('val', v)
                ps.append(v)
            e = e['expr']
        try:
            x = g.action(e, env) if act else g.expr(e, env)
        except Unsupported as u:
            if not act:
                raise
            # an action for the model checker only: an error when taken
            return 'def %s(%s):\n    raise Unsupported(%r)' % (name, ', '.join(ps), str(u))
        out = ['def %s(%s):' % (name, ', '.join(ps))] + g.lines + ['    return ' + x]
        if d['qualifier'] == 'pureval':
            out.append('%s = %s()' % (name, name))
        return '\n'.join(out)

    def choose(self, name, s):
        if self.forced is not None and name in self.forced:
            return (self.forced[name],)
        return q_one_of(self.rng, s)

    # ---- stepping ---------------------------------------------------------------
    def any(self, alts):
        order = list(range(len(alts)))
        self.rng.shuffle(order)
        saved = dict(self.nxt)
        for i in order:
            if alts[i]():
                return True
            self.nxt = dict(saved)
        return False

    def exhaust(self, action, part=0, parts=1):
        """Every state the action leads to from the initial one, by enumerating every
        sequence of nondeterministic choices (the action contains no `any`).  Yields the
        choices; .cur is the state.  With parts, every parts-th value of the first choice."""
        path = []          # [index, number of options] per choice

        def choose(name, s):
            l = range(s.a, s.b + 1) if isinstance(s, IntRange) else list(s)
            d = len(taken)
            if d == 0:
                l = l[part::parts]
            if not len(l):
                return None
            if d == len(path):
                path.append([0, len(l)])
            taken.append((name, l[path[d][0]]))
            return (l[path[d][0]],)
        self.choose = choose
        try:
            while True:
                taken = []
                self.start(0)
                if self.step(action) is not None:
                    yield taken
                while path and path[-1][0] + 1 == path[-1][1]:
                    path.pop()
                if not path:
                    return
                path[-1][0] += 1
        finally:
            del self.choose

    def start(self, seed, action='init'):
        self.rng = _random.Random(seed)
        self.cur, self.nxt = {}, {}
        if not self.env['S_' + mangle(action)]():
            raise Unsupported('init is not enabled')
        self.cur = self.nxt
        return self.cur

    def step(self, action='step'):
        self.nxt = {}
        if not self.env['S_' + mangle(action)]():
            return None
        missing = [v for v in self.vars if v not in self.nxt]
        if missing:
            raise Unsupported('unassigned: %s' % missing)
        self.cur = self.nxt
        return self.cur

    def call(self, name, *args):
        f = self.env['S_' + mangle(name)]
        return f(*args) if callable(f) else f


def load_ir(path, main, extra=()):
    # to a file: node does not flush a pipe before it exits
    with tempfile.TemporaryFile('w+') as out:
        r = subprocess.run(['quint', 'compile', '--target', 'json', '--main', main, *extra, path],
                           stdout=out, stderr=subprocess.PIPE, text=True)
        out.seek(0)
        text = out.read()
    if r.returncode != 0 or not text:
        raise RuntimeError('quint compile failed:\n' + r.stderr[-3000:] + text[-500:])
    return json.loads(text)


def from_itf(v):
    """ITF JSON value -> run-time value (records keep sorted field order)."""
    if isinstance(v, bool) or isinstance(v, int):
        return v
    if isinstance(v, str):
        return v
    if isinstance(v, list):
        return tuple(from_itf(x) for x in v)
    if isinstance(v, dict):
        if '#bigint' in v:
            return int(v['#bigint'])
        if '#tup' in v:
            return tuple(from_itf(x) for x in v['#tup'])
        if '#set' in v:
            return QSet(from_itf(x) for x in v['#set'])
        if '#map' in v:
            return QMap({from_itf(k): from_itf(x) for k, x in v['#map']})
        if set(v) == {'tag', 'value'} and isinstance(v['tag'], str) and v['tag'][:1].isupper():
            return (v['tag'], from_itf(v['value']))
        fs = sorted(v)
        return record_class(fs)(*[from_itf(v[f]) for f in fs])
    raise Unsupported(repr(v))
