"""Run the calls of a violation file against /repo as it is now."""
import os
import shutil
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib

lines = [l for l in open(sys.argv[1]).read().splitlines() if l and not l.startswith('#')]
head = [l for l in open(sys.argv[1]).read().splitlines() if l.startswith('#')]
mode = None
for h in head:
    if 'mode: ' in h:
        w = h.split('mode: ')[1].split()
        mode = lambda p: [w[0], p] + w[1:]
layers, exes = lib.build_harness()
if any(l.startswith('gen_offered|') for l in lines):
    exes = [lib.build_tape()]
work = lib.scratch()
n = 0
for exe in exes:
    for b in lib.replay(exe, lines, work, lib.machine('m_arith'), mode=mode)[2]:
        print(exe, b.kind, lines[b.at][:2000], '-> observed', *b.got)
        n += 1
shutil.rmtree(work)
print('%d mismatches' % n)
sys.exit(1 if n else 0)
