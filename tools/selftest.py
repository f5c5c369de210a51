#!/usr/bin/env python3
"""Tests the schedule explorer itself: litmus programs with known outcomes, and, on the harnesses of C14-C18, that the state cache
and the conflict reduction lose no outcome (the set of outcomes with them equals the set without). Not a check; exit 0 if all agree."""
import json, os, re, subprocess, sys, tempfile, shutil
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
import run_check as r
from checks import CHECKS
REPO = '/repo'; D = tempfile.mkdtemp(prefix='verif-selftest-'); bad = 0
def build(src, flags, out, runtime): r.Builder(REPO, 'sched').build(src, flags, out, runtime)
def go(exe, space, extra, budget=120):
    bits = os.path.join(D, 'bits'); open(bits, 'wb').write(bytes(1 << 20))
    p = subprocess.run([exe, '--only', space, '--outcomes', '--bitmap', bits, '--budget', str(budget)] + extra, capture_output=True, text=True)
    if p.returncode: return None, p.stderr[-300:]
    j = json.loads(p.stdout); b = open(bits, 'rb').read(); s = frozenset(i for i in range(len(b)) if b[i])
    return (s, sum(bin(b[i]).count('1') for i in s), tuple(b[i] for i in sorted(s))), j
def spaces(exe): return [l.rsplit(' ', 1)[0] for l in subprocess.run([exe, '--list'], capture_output=True, text=True).stdout.splitlines() if l.endswith(' 0')]
def say(ok, text):
    global bad; bad += not ok; print(('ok    ' if ok else 'WRONG ') + text, flush=True)
try:
    rt = CHECKS['C16']['parts'][0].get('runtime', [])
    for flags, how in ((['-DLITMUS_PLAIN'], ''), (['-DLITMUS_REDUCE'], ' with reduction')):
        exe = os.path.join(D, 'litmus' + str(len(how))); build('conc/litmus.cpp', flags, exe, rt)
        for s in spaces(exe):
            for extra in ([], ['--nocache']):
                o, j = go(exe, s, extra); name = s + how + (' without cache' if extra else '')
                if o is None: say(False, name + ': ' + j); continue
                n = len(j['violations']); ex = j['spaces'][0]['executions']
                if s.startswith('bad: '): say(n > 0, f'{name}: {ex} executions, {n} violations' + (', ' + j['violations'][0]['msg'][:70] if n else ''))
                elif extra and not j['spaces'][0]['complete']: print(f'skip  {name}: too many schedules without cache')
                else: m = int(s.rsplit('=', 1)[1]); say(n == 0 and o[1] == m and j['spaces'][0]['complete'], f'{name}: {ex} executions, {o[1]} outcomes, {n} violations')
    LIB = {'C16': (0, 1), 'C15': (0, 1), 'C17': (0, 1), 'C18': (0,), 'C14': (0,)}
    for c, bounds in LIB.items():
        if len(sys.argv) > 1 and c not in sys.argv[1:]: continue
        part = next(p for p in CHECKS[c]['parts'] if p['flavor'] == 'sched'); exe = os.path.join(D, c)
        build(part['harness'], part.get('flags', []), exe, part.get('runtime', []))
        for s in spaces(exe):
            for b in bounds:
                full, j = go(exe, s, ['--bound', str(b), '--nocache', '--noreduce'], 60)
                if full is None or not j['spaces'][0]['complete']: print(f'skip  {c} {s}, bound {b}: too many schedules without cache'); continue
                both, k = go(exe, s, ['--bound', str(b)])
                if not full[1] and not both[1]: print(f'none  {c} {s}: records no outcome'); continue
                say(both == full and k['spaces'][0]['complete'], f'{c} {s}, bound {b}: {full[1]} outcomes in {j["spaces"][0]["executions"]} executions; {both[1]} in {k["spaces"][0]["executions"]} with cache and reduction')
finally: shutil.rmtree(D, ignore_errors=True)
print('self-test', 'FAILED' if bad else 'passed'); sys.exit(bad != 0)
