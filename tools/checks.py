"""What each check explores.

T(machine, step, traces, steps): behaviours of a machine, stepped by the compiled
specification (tools/qc.py) and replayed.
Q(machine, step, traces, steps): behaviours produced by Quint's own simulator, followed
by the compiled specification and replayed.
Other entries name a special job of driver.py.
`proj` says which part of an outcome the property is about (driver.project)."""


class T:
    def __init__(self, main, traces, steps, step='step', proj=None, deep=8, inv_every=1, chunk=None, tape=False):
        self.main, self.traces, self.steps, self.step = main, traces, steps, step
        self.proj, self.deep, self.inv_every = proj, deep, inv_every
        self.chunk, self.tape = chunk, tape


class Q:
    def __init__(self, main, traces, steps, step='step', proj=None, deep=3):
        self.main, self.traces, self.steps, self.step, self.proj, self.deep = main, traces, steps, step, proj, deep


class J:
    def __init__(self, name, deep=5, **kw):
        self.name, self.deep, self.kw = name, deep, kw


CHECKS = {
    'C01': [T('m_complete', 400, 25, proj='complete', inv_every=50), T('m_complete', 60, 25, step='stepLong', proj='complete', inv_every=0),
            J('sym', traces=60, steps=14, reps=150, proj='complete'), J('apalache', main='m_symbolic', steps=2),
            Q('m_complete', 1, 4, proj='complete')],
    'C02': [T('m_keys', 2000, 20), J('kat'), Q('m_keys', 1, 4)],
    'C03': [T('m_sign', 600, 20), T('m_sign_long', 48, 4), T('m_sign_huge', 12, 1, chunk=1), T('m_sign_huge', 10, 1, step='stepMega', chunk=1, deep=4), T('m_relations', 100, 10),
            T('m_giant', 1, 1, step='stepSigned', chunk=1, deep=8), J('sym', traces=30, steps=12, reps=20, proj='again'), J('kat'), Q('m_sign', 1, 3)],
    'C04': [J('toy'), T('m_verdict', 900, 20, proj='accepts'), T('m_tamper', 100, 10, proj='accepts'), T('m_giant', 40, 6, proj='accepts'), T('m_giant', 8, 1, step='stepGiant', chunk=1, proj='accepts', deep=3), T('m_giant', 1, 1, step='stepBeyond', chunk=1, proj='accepts', deep=1), T('m_giant', 1, 1, step='stepHashed', chunk=1, proj='accepts', deep=8), 
            T('m_sign_huge', 8, 1, proj='accepts', chunk=1), T('m_sign_huge', 6, 1, step='stepMega', proj='accepts', chunk=1, deep=4), J('kat'), Q('m_verdict', 1, 3, proj='accepts')],
    'C05': [T('m_tamper', 160, 12, proj='rejects'), T('m_verdict', 60, 12, proj='rejects'),
            J('sym', traces=80, steps=16, reps=40, proj='rejects'), J('apalache', main='m_symbolic', steps=2),
            Q('m_tamper', 1, 3, proj='rejects')],
    'C06': [J('toy'), T('m_decode', 2400, 25), Q('m_decode', 1, 8)],
    'C07': [T('m_total', 900, 20), T('m_giant', 40, 6), T('m_giant', 8, 1, step='stepGiant', chunk=1, deep=3), T('m_giant', 1, 1, step='stepBeyond', chunk=1, deep=1), 
            T('m_objects', 80, 20, step='stepText'), T('m_hex', 100, 20), Q('m_total', 1, 4)],
    'C08': [T('m_total', 700, 20, proj='agree'), T('m_verdict', 300, 16, proj='agree'), T('m_tamper', 40, 10, proj='agree'), T('m_giant', 40, 6, proj='agree'), T('m_giant', 8, 1, step='stepGiant', chunk=1, proj='agree', deep=3), T('m_giant', 1, 1, step='stepBeyond', chunk=1, proj='agree', deep=1), 
            Q('m_total', 1, 4, proj='agree')],
    'C09': [T('m_objects', 800, 40), Q('m_objects', 1, 12)],
    'C10': [T('m_objects', 800, 60, step='stepText'), T('m_objects', 200, 40), Q('m_objects', 1, 12, step='stepText')],
    'C11': [J('population', n=24000, deep=4), J('sustain', traces=12, count=66000, deep=4), J('history', traces=14, steps=3, rounds=4000, shuffle=300, cold=60, contend=600), J('sym', traces=30, steps=14, reps=20, proj='again'), Q('m_history', 1, 1)],
    'C12': [T('m_relations', 600, 16), T('m_keys', 600, 20), Q('m_relations', 1, 3)],
    'C13': [J('toy'), T('m_recode', 800, 40, inv_every=10), T('m_points', 1200, 20), T('m_group', 600, 20), T('m_keys', 200, 20), T('m_verdict', 200, 10, proj='accepts'), Q('m_points', 1, 4)],
    'C14': [T('m_recode', 300, 40, inv_every=10), T('m_arith', 16000, 40), T('m_group', 300, 20), T('m_decode', 300, 20), T('m_keys', 200, 20), Q('m_arith', 2, 10)],
    'C15': [J('keygen', n=1000000, windows=60000), T('m_keygen', 60, 20, tape=True), Q('m_keygen', 1, 6, step='step'), T('m_objects', 60, 40), Q('m_objects', 1, 8)],
    'C16': [T('m_hex', 3000, 40), T('m_objects', 300, 40, step='stepText', proj='hex'), Q('m_hex', 2, 10)],
}


# m_toy: the steps enumerated, and in how many parts
_S = {'stepEncodings': 1, 'stepMultiples': 1, 'stepPairs': 1, 'stepRecodings': 1, 'stepVerdicts3': 1}
TOY = {'quick': dict(_S, stepVerdicts7=7), 'thorough': dict(_S, stepVerdicts7=7, stepVerdicts13=13)}
TLC = {'quick': list(_S), 'thorough': list(_S) + ['stepVerdicts7']}


def machines():
    out = {('m_symbolic', 'step'), ('m_history', 'step')} | {('m_toy', 'step')}
    for ws in CHECKS.values():
        for w in ws:
            if isinstance(w, (T, Q)):
                out.add((w.main, w.step))
    return out
