#!/usr/bin/env python3
"""Decides one property: builds /repo's working tree with the property's harness, explores, reports.

  run_check.py C01 [--tier quick|thorough] [--replay FILE] [--repo DIR] [--keep]
exit 0: the property held on everything explored; 1: VIOLATION; 2: the check itself failed."""
import argparse, concurrent.futures as cf, glob, hashlib, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks import CHECKS

NCPU = int(os.environ.get('VERIF_JOBS', '0')) or min(8, os.cpu_count() or 8)
CACHE = os.path.join(HERE, 'build', 'cache')
BASE = ['-std=c++17', '-w', '-D__STDC_FORMAT_MACROS', '-pthread']
CHECKED = ['-DPGBN_DEBUG', '-DPGZXB_DEBUG']  # the library's debug checks, as in the test suite's build
FLAVORS = {
    'plain': dict(lib=['-O1'], har=['-O1'], link=[]),
    'release': dict(lib=['-O2', '-DNDEBUG'], har=['-O1'], link=[], defs=[]),  # without the debug checks: the build the README describes
    'asan': dict(lib=['-O1', '-g', '-fsanitize=address', '-D_GLIBCXX_ASSERTIONS', '-D_GLIBCXX_SANITIZE_VECTOR=1', '-fno-omit-frame-pointer'],
                 har=['-O1', '-g', '-fsanitize=address', '-D_GLIBCXX_ASSERTIONS', '-D_GLIBCXX_SANITIZE_VECTOR=1'], link=['-fsanitize=address']),
    'sched-release': None,
    'sched': dict(lib=['-O1', '-g', '-fsanitize=thread', '-fno-omit-frame-pointer'],
                  har=['-O1', '-g', '-fsanitize=thread', '-fno-omit-frame-pointer'],
                  link=['-rdynamic', '-Wl,-z,now'] + ['-Wl,--wrap=' + f for f in ('memcpy', 'memmove', 'memset', 'memcmp')], runtime=['lib/sched_rt.cpp']),
}
FLAVORS['sched-release'] = dict(FLAVORS['sched'], defs=[], lib=FLAVORS['sched']['lib'] + ['-DNDEBUG'])
ENV = dict(os.environ, ASAN_OPTIONS='abort_on_error=1:detect_leaks=0:allocator_may_return_null=0:detect_stack_use_after_return=1:quarantine_size_mb=16:thread_local_quarantine_size_kb=64:malloc_context_size=6', LC_ALL='C')


class CheckError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode()); h.update(b'\0')
    return h.hexdigest()[:32]


def tree_hash(dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, ds, fs in sorted(os.walk(d)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(root, f)
                h.update(os.path.relpath(p, d).encode()); h.update(open(p, 'rb').read()); h.update(b'\0')
    return h.hexdigest()


class Builder:
    def __init__(self, repo, flavor):
        self.repo, self.f, self.name = repo, FLAVORS[flavor], flavor
        self.src = tree_hash([os.path.join(repo, 'src'), os.path.join(repo, 'c', 'src')])
        self.lib = tree_hash([os.path.join(HERE, 'lib')])
        os.makedirs(CACHE, exist_ok=True)

    def obj(self, path, flags, extra):
        key = sha(self.src, extra, open(path, 'rb').read(), ' '.join(self.f.get('defs', CHECKED) + flags), os.path.basename(path))
        out = os.path.join(CACHE, key + '.o')
        if os.path.exists(out):
            return out
        tmp = out + '.%d.tmp' % os.getpid()
        cmd = ['g++'] + BASE + self.f.get('defs', CHECKED) + flags + ['-I' + os.path.join(self.repo, 'src'), '-I' + os.path.join(self.repo, 'c', 'src'), '-I' + os.path.join(HERE, 'lib'), '-c', path, '-o', tmp]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise CheckError('cannot compile %s:\n%s' % (path, r.stderr[-3000:]))
        os.replace(tmp, out)
        return out

    def build(self, harness, hflags, out, runtime=()):
        runtime = list(runtime) + self.f.get('runtime', [])
        jobs = []
        with cf.ThreadPoolExecutor(NCPU) as ex:
            # the harness first: it is usually the slowest
            jobs.append(ex.submit(self.obj, os.path.join(HERE, 'harness', harness), self.f['har'] + list(hflags), self.lib))
            for r in runtime:  # our runtime is never instrumented
                jobs.append(ex.submit(self.obj, os.path.join(HERE, r), ['-O2', '-g'], self.lib))
            for s in sorted(glob.glob(os.path.join(self.repo, 'src', '**', '*.cpp'), recursive=True)) + sorted(glob.glob(os.path.join(self.repo, 'c', 'src', '*.cpp'))):
                jobs.append(ex.submit(self.obj, s, self.f['lib'], ''))
            objs = [j.result() for j in jobs]
        r = subprocess.run(['g++'] + objs + self.f['link'] + ['-pthread', '-ldl', '-o', out], capture_output=True, text=True)
        if r.returncode:
            raise CheckError('cannot link %s:\n%s' % (harness, r.stderr[-3000:]))


def prebuild(parts, repo):
    """Compiles the harnesses of many parts side by side; run_part then finds the objects in the cache."""
    builders = {f: Builder(repo, f) for f in {p['flavor'] for p in parts}}
    def one(p):
        b = builders[p['flavor']]
        b.obj(os.path.join(HERE, 'harness', p['harness']), b.f['har'] + list(p.get('flags', [])), b.lib)
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for j in [ex.submit(one, p) for p in parts]: j.result()


def read_shared(path, names):
    try:
        d = open(path, 'rb').read()
        prog, space, n = struct.unpack_from('<QII', d, 0)
        n = min(n, 512)
        return prog, (names[space] if space < len(names) else '?'), list(struct.unpack_from('<%dI' % n, d, 16))
    except Exception:
        return 0, '?', []


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()


def describe_exit(rc):
    if rc is None: return 'hang'
    if rc < 0:
        try: return 'killed by ' + signal.Signals(-rc).name
        except ValueError: return 'killed by signal %d' % -rc
    return 'process ended with exit code %d' % rc


MEMORY = (b'ERROR: AddressSanitizer', b'AddressSanitizer:', b'== Invalid ', b'== Conditional jump', b'== Use of uninit', b'== Syscall param', b'c++/13/bits', b'/include/c++/')


def tail(path, n=1500):
    try:
        d = open(path, 'rb').read()
        i = next((k for k in (d.find(x) for x in MEMORY) if k >= 0), -1)
        if i >= 0: return d[i:i + n].decode('latin1')
        return d[-n:].decode('latin1')
    except OSError:
        return ''


def resolve(binary, text):
    """code addresses binary+0x... -> function (file:line)"""
    name = os.path.basename(binary)
    addrs = sorted(set(re.findall(r'\b%s\+0x([0-9a-f]+)' % re.escape(name), text)))
    if not addrs: return text
    try: out = subprocess.run(['addr2line', '-Cfe', binary] + ['0x%x' % (int(a, 16) - 1) for a in addrs], capture_output=True, text=True, timeout=60).stdout.splitlines()
    except (OSError, subprocess.TimeoutExpired): return text
    names = {a: '%s (%s)' % (re.sub(r'\(.*', '', out[2 * i].replace('(anonymous namespace)::', ''))[-60:], os.path.basename(out[2 * i + 1]).split(' ')[0]) for i, a in enumerate(addrs) if 2 * i + 1 < len(out)}
    return re.sub(r'\b%s\+0x([0-9a-f]+)' % re.escape(name), lambda m: names.get(m.group(1), m.group(0)), text)


def replay_once(binary, part, space, choices, scratch, limit):
    """Runs one execution alone. -> (failed, message, notes)"""
    out = os.path.join(scratch, 'replay.json'); err = os.path.join(scratch, 'replay.err')
    for f in (out, err):
        if os.path.exists(f): os.unlink(f)
    with open(err, 'wb') as e:
        p = subprocess.Popen(part.get('wrap', []) + [binary] + part.get('args', []) + ['--tier', part['tier'], '--out', out, '--mem', str(part.get('mem', 3000)), '--replay', space, ','.join(map(str, choices))],
                             stdout=subprocess.DEVNULL, stderr=e, stdin=subprocess.DEVNULL, env=ENV, start_new_session=True, cwd=scratch)
        try:
            p.wait(limit)
        except subprocess.TimeoutExpired:
            kill(p)
            return True, 'did not terminate within %d s' % limit, ''
    if p.returncode == 97:
        raise CheckError('replay divergence in %s: %s' % (space, tail(err)))
    if p.returncode or not os.path.exists(out):
        return True, '%s; %s' % (describe_exit(p.returncode), tail(err)), ''
    try:
        r = json.load(open(out))
    except ValueError:
        return True, 'process ended early; ' + tail(err), ''
    if part['flavor'].startswith('sched'): r['msg'], r['notes'] = resolve(binary, r['msg']), resolve(binary, r['notes'])
    return r['result'] == 1, r['msg'], r['notes']


HANG = 90


def run_part(cid, part, tier, repo, scratch, deadline):
    """Explores one part (one harness binary, all its spaces) with NCPU workers. -> result dict"""
    tier = part.get('tier', tier)
    part = dict(part, tier=tier)
    t0 = time.time()
    binary = os.path.join(scratch, part['name'])
    Builder(repo, part['flavor']).build(part['harness'], part.get('flags', []), binary, part.get('runtime', []))
    t_build = time.time() - t0
    if part['flavor'] == 'asan' or part.get('wrap'): part['mem'] = 0
    lst = subprocess.run([binary] + part.get('args', []) + ['--list'], capture_output=True, text=True, env=ENV)
    if lst.returncode: raise CheckError('%s --list failed: %s' % (part['name'], lst.stderr[-500:]))
    names = [l.rsplit(' ', 1)[0] for l in lst.stdout.splitlines()]
    bitmap = os.path.join(scratch, part['name'] + '.bits')
    with open(bitmap, 'wb') as f: f.truncate(1 << part.get('bitmap_log2', 24))
    budget = max(20, deadline - time.time())
    W = []
    sched = part['flavor'].startswith('sched')  # one process, which forks its own workers
    n = 1 if sched else part.get('workers', NCPU)
    for i in range(n):
        out = os.path.join(scratch, '%s.%d.json' % (part['name'], i)); shm = os.path.join(scratch, '%s.%d.shm' % (part['name'], i)); err = os.path.join(scratch, '%s.%d.err' % (part['name'], i))
        e = open(err, 'wb')
        p = subprocess.Popen(part.get('wrap', []) + [binary] + part.get('args', []) + ['--tier', tier, '--shard', '%d/%d' % (i, n), '--out', out, '--shm', shm, '--bitmap', bitmap, '--budget', str(budget), '--mem', str(part.get('mem', 3000))] + (['--jobs', str(NCPU)] if sched else []),
                             stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL if part['flavor'] in ('plain', 'release') and not part.get('wrap') else e, stdin=subprocess.DEVNULL, env=ENV, start_new_session=True, cwd=scratch)
        W.append(dict(p=p, out=out, shm=shm, err=err, last=None, idle=0, i=i, done=False)); e.close()
    suspects = []  # (space, choices, message)
    try:
        while any(not w['done'] for w in W):
            time.sleep(0.05)
            for w in W:
                if w['done']: continue
                rc = w['p'].poll()
                if rc is None:
                    prog = read_shared(w['shm'], names)[0]
                    if prog != w['last']: w['last'], w['idle'] = prog, 0
                    else: w['idle'] += 1
                    if w['idle'] * 0.05 > part.get('hang', HANG):  # polls, not the clock: the machine may have been paused
                        kill(w['p']); w['done'] = True; w['crash'] = None
                        _, sp, ch = read_shared(w['shm'], names)
                        suspects.append((sp, ch, 'hang', w['i']))
                    continue
                w['done'] = True
                ok = rc == 0 and os.path.exists(w['out'])
                if ok:
                    try: w['res'] = json.load(open(w['out']))
                    except ValueError: ok = False
                if not ok:
                    if rc in (97, 98): raise CheckError('explorer error in %s (%s): %s' % (part['name'], describe_exit(rc), tail(w['err'])))
                    _, sp, ch = read_shared(w['shm'], names)
                    suspects.append((sp, ch, describe_exit(rc), w['i']))
                else:
                    for v in w['res']['violations']: suspects.append((v['space'], v['choices'], v['msg'], w['i']))
            if len(suspects) >= 1 and any(s[2] == 'hang' or 'msg' not in s for s in suspects):
                # enough to report: give the others a moment, then stop
                if 'stop_at' not in part: part['stop_at'] = time.time() + 5
                if time.time() > part['stop_at']:
                    for w in W:
                        if not w['done']: kill(w['p']); w['done'] = True
    finally:
        for w in W:
            if w['p'].poll() is None: kill(w['p'])
    res = dict(part=part, names=names, suspects=suspects, build_s=t_build, wall=time.time() - t0, binary=binary,
               spaces=merge([w['res'] for w in W if 'res' in w]), nworkers=n,
               states=bin(int.from_bytes(open(bitmap, 'rb').read(), 'little')).count('1'))
    os.unlink(bitmap)
    return res


def merge(rs):
    out = {}
    for r in rs:
        for s in r['spaces']:
            o = out.setdefault(s['name'], dict(name=s['name'], executions=0, steps=0, pruned=0, complete=True, max_choices=0, samples=[], wall_s=0, reports=0, extra={}))
            o['executions'] += s['executions']; o['steps'] += s['steps']; o['pruned'] += s['pruned']; o['complete'] &= s['complete']
            o['max_choices'] = max(o['max_choices'], s['max_choices']); o['samples'] += s['samples']; o['wall_s'] = max(o['wall_s'], s['wall_s']); o['reports'] += 1
            for k, v in s.get('extra', {}).items(): o['extra'][k] = o['extra'].get(k, 0) + v
    return out


def known_findings(cid):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r'finding: property=(\S+) match=(\S.*?) :: (.*)', l)
        if m and m.group(1) == cid: out.append((re.compile(m.group(2)), m.group(3).strip()))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--replay'); ap.add_argument('--repo', default='/repo'); ap.add_argument('--keep', action='store_true')
    ap.add_argument('--part')
    a = ap.parse_args()
    cid = a.id; spec = CHECKS[cid]; tier = 'thorough' if a.tier == 'thorough' else 'quick'
    t0 = time.time()
    deadline = t0 + (spec.get('quick_budget', 300) if tier == 'quick' else spec.get('thorough_budget', 5400))
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % cid)
    try:
        if a.replay: return do_replay(cid, spec, a, scratch, tier)
        parts = [p for p in spec['parts'] if (tier == 'thorough' or not p.get('thorough_only')) and (not a.part or a.part == p['name'])]
        results, violations = [], []
        if len(parts) > 2: prebuild(parts, a.repo)
        for p in parts:
            r = run_part(cid, p, tier, a.repo, scratch, deadline)
            # a stall is confirmed once: of several, only the first that stalls again is reported
            hangs = [s for s in r['suspects'] if s[2] == 'hang']
            again = next((s for s in hangs[:5] if replay_once(r['binary'], r['part'], s[0], s[1], scratch, 120)[0]), None)
            r['suspects'] = [s for s in r['suspects'] if s[2] != 'hang'] + ([again] if again else [])
            if hangs and not again and not r['suspects']:
                print('  a worker stalled without a reason that repeats; exploring %s again' % p['name'])
                r = run_part(cid, p, tier, a.repo, scratch, max(deadline, time.time() + 200))
            results.append(r)
            known = known_findings(cid)
            printed = set()
            unrep = []
            for sp, ch, msg, worker in r['suspects'][:40]:
                failed, m2, notes = replay_once(r['binary'], r['part'], sp, ch, scratch, 120 if msg == 'hang' else 200)
                if failed and p.get('memory') and not any(x.decode() in m2 for x in MEMORY) and 'not released' not in m2 and 'valgrind' not in m2:
                    print('  ended early for a reason that is no memory error: %s: %s' % (sp, m2[:300])); r['incomplete'] = True
                    continue
                if not failed:
                    unrep.append((sp, ch, msg)); continue
                text = '%s | %s | %s' % (sp, m2, notes)
                k = next((d for rx, d in known if rx.search(text)), None)
                if k:
                    if k not in printed: printed.add(k); print('KNOWN-FINDING: property=%s %s' % (cid, k))
                    continue
                violations.append(dict(property=cid, part=p['name'], space=sp, choices=ch, message=m2 or msg, notes=notes, tier=r['part']['tier']))
                if len(violations) >= 3: break
            if unrep and not violations:
                # fails only after other executions of the same worker: repeat that worker's whole sequence, alone
                sp, ch, msg = unrep[0]
                ok = rerun_shard(r, unrep, scratch, r['part']['tier'])
                if ok: violations.append(dict(property=cid, part=p['name'], space=sp, choices=ch, message=msg + ' (needs the executions before it in the same process)', notes='', tier=r['part']['tier'], whole_shard=ok))
                else: raise CheckError('not reproducible: %s %s %s' % (sp, ch, msg))
            if violations: break
        write_evidence(cid, spec, tier, results, violations, time.time() - t0)
        for r in results:
            for s in r['spaces'].values():
                print('  %-70s %12d executions %12d steps %s %.1fs' % (s['name'], s['executions'], s['steps'], '' if s['complete'] else '(INCOMPLETE)', s['wall_s']) + (' ' + json.dumps(s['extra']) if s['extra'] else ''))
        if violations:
            rd = os.path.join(HERE, 'replays'); os.makedirs(rd, exist_ok=True)
            for i, v in enumerate(violations):
                f = os.path.join(rd, '%s-%d.json' % (cid, i)); json.dump(v, open(f, 'w'), indent=1)
                print('  %s: %s\n    %s' % (v['space'], v['message'][:1200], v['notes'].replace('\n', '\n    ')[:2500]))
                print('VIOLATION property=%s replay=%s' % (cid, f))
            return 1
        print('%s held on everything explored (%s, %.1f s)' % (cid, tier, time.time() - t0))
        return 0
    except CheckError as e:
        print('CHECK ERROR: %s' % e, file=sys.stderr)
        return 2
    finally:
        if a.keep: print('kept', scratch)
        else: shutil.rmtree(scratch, ignore_errors=True)


def rerun_shard(r, unrep, scratch, tier):
    part = r['part']
    for i in range(r['nworkers']):
        out = os.path.join(scratch, 'again.json'); shm = os.path.join(scratch, 'again.shm')
        for f in (out, shm):
            if os.path.exists(f): os.unlink(f)
        if not any(s[3] == i for s in r['suspects']): continue
        p = subprocess.Popen(part.get('wrap', []) + [r['binary']] + part.get('args', []) + ['--tier', tier, '--shard', '%d/%d' % (i, r['nworkers']), '--out', out, '--shm', shm, '--mem', str(part.get('mem', 3000))],
                             stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, env=ENV, start_new_session=True, cwd=scratch)
        try: p.wait(300)
        except subprocess.TimeoutExpired:
            kill(p)
            return '%d/%d' % (i, r['nworkers'])
        if p.returncode or not os.path.exists(out): return '%d/%d' % (i, r['nworkers'])
        try:
            if json.load(open(out))['violations']: return '%d/%d' % (i, r['nworkers'])
        except ValueError: return '%d/%d' % (i, r['nworkers'])
    return None


def do_replay(cid, spec, a, scratch, tier):
    v = json.load(open(a.replay))
    p = next(p for p in spec['parts'] if p['name'] == v['part'])
    p = dict(p, tier=v['tier'])
    if p['flavor'] == 'asan' or p.get('wrap'): p['mem'] = 0
    b = os.path.join(scratch, 'bin'); Builder(a.repo, p['flavor']).build(p['harness'], p.get('flags', []), b, p.get('runtime', []))
    failed, msg, notes = replay_once(b, p, v['space'], v['choices'], scratch, 200)
    print(notes); print('FAILS: ' + msg if failed else 'passes')
    if failed: print('VIOLATION property=%s replay=%s' % (cid, a.replay))
    return 1 if failed else 0


def write_evidence(cid, spec, tier, results, violations, wall):
    allsp = [s for r in results for s in r['spaces'].values()]
    samples = []
    for s in allsp:
        for x in [y for y in s['samples'] if y][:2]: samples.append('[%s] %s' % (s['name'], x.strip()))
    cov = dict(states=sum(r['states'] for r in results), transitions=sum(s['steps'] for s in allsp), traces_validated_against_impl=sum(s['executions'] for s in allsp),
               samples=samples[:24] or ['none'],
               exhaustive=bool(allsp) and not violations and not any(r.get('incomplete') for r in results) and all(s['complete'] and s['reports'] == next(r['nworkers'] for r in results if s['name'] in r['spaces']) for s in allsp),
               pruned_executions=sum(s['pruned'] for s in allsp),
               spaces=[dict(name=s['name'], executions=s['executions'], steps=s['steps'], complete=s['complete'], max_choices=s['max_choices'], **({'extra': s['extra']} if s['extra'] else {})) for s in allsp],
               meaning=spec.get('meaning') or 'states: distinct model states reached (hash buckets, a lower bound); transitions: operations executed on the compiled library and compared with the model; traces: complete executions, each run on the implementation itself',
               build_s=round(sum(r['build_s'] for r in results), 1))
    ev = dict(property=cid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='model_checking', coverage=cov,
              assumptions=spec.get('assumptions', []), wall_s=round(wall, 2), violations=len(violations))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    tmp = os.path.join(HERE, 'evidence', cid + '.json.tmp')
    json.dump(ev, open(tmp, 'w'), indent=1); os.replace(tmp, os.path.join(HERE, 'evidence', cid + '.json'))


if __name__ == '__main__':
    sys.exit(main())
