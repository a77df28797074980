"""Compile every machine with Quint and keep the result under ir/ (tools/lib.py reads it)."""
import concurrent.futures
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib
import checks


def one(k):
    main, step = k
    h = lib.spec_hash(main)
    lib.save_ir(lib.IR, main, step, 'inv', h, lib.compile_ir(main, step, 'inv'))
    return k


if __name__ == '__main__':
    want = sorted(checks.machines())
    with concurrent.futures.ThreadPoolExecutor(6) as ex:
        for k in ex.map(one, want):
            print(*k, flush=True)
    lib.translate('m_toy', lib.TLA)
    keep = {'%s.%s.json.gz' % k for k in want}
    for f in os.listdir(lib.IR):
        if f not in keep:
            os.unlink(os.path.join(lib.IR, f))
