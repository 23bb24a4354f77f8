#!/opt/veriftools/pyvenv/bin/python3
"""check.py <property> [--tier quick|thorough]   decide one property on /repo's current working tree.

1. the harness contracts of the property are compiled together with the real sources to LLVM IR and every obligation
   is generated and discharged by the verifier (vf/), one process per contract;
2. the same contracts are compiled natively against the real sources; counterexamples of the verifier are replayed
   there, and random inputs are drawn as a bounded cross-check (never counted as proved)."""
import json
import multiprocessing as mp
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'vf'))
sys.path.insert(0, os.path.join(VERIF, 'props'))
import build
from table import PROPS

NAME = re.compile(r'define dso_local void @(vf_(?:main|deep)_\w+)\(')
RTNAME = re.compile(r'\bvoid\s+(vf_(?:main|rt|deep)_\w+)\s*\(')


def worker(job, q):
    path, fn, opts = job
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
        sys.setrecursionlimit(20000)
        import prove
        text = open(path).read()
        r = prove.run_contract(text, fn, opts)
    except BaseException as e:
        r = {'contract': fn, 'status': 'unsupported', 'why': 'internal: %r' % (e,), 'model': None, 'obligations': [], 'covers': {},
             'paths': 0, 'steps': 0, 'wall': 0, 'solver': {'queries': 0, 'time': 0, 'by': {}, 'unknown': 0}, 'functions': [],
             'trusted': {}, 'loops': [], 'loopfail': {}}
    q.put(r)


def prove_all(jobs, par, hard):
    """run the contracts in parallel worker processes; each has a hard wall limit"""
    res = []
    todo = list(jobs)
    running = []
    ctx = mp.get_context('fork')
    while todo or running:
        while todo and len(running) < par:
            j = todo.pop(0)
            q = ctx.Queue()
            p = ctx.Process(target=worker, args=(j, q))
            p.start()
            running.append((p, q, j, time.time()))
        for e in list(running):
            p, q, j, t0 = e
            r = None
            try:
                r = q.get(timeout=0.05)
            except Exception:
                if time.time() - t0 > hard or (not p.is_alive() and q.empty()):
                    p.kill()
                    r = {'contract': j[1], 'status': 'timeout', 'why': 'no answer within %d s' % hard, 'model': None, 'obligations': [],
                         'covers': {}, 'paths': 0, 'steps': 0, 'wall': hard,
                         'solver': {'queries': 0, 'time': 0, 'by': {}, 'unknown': 0}, 'functions': [], 'trusted': {},
                         'loops': [], 'loopfail': {}}
            if r is not None:
                p.join(5)
                if p.is_alive():
                    p.kill()
                running.remove(e)
                res.append(r)
    order = [j[1] for j in jobs]
    res.sort(key=lambda r: order.index(r['contract']))
    return res


class Native:
    """native builds of the harnesses (in the background)"""

    def __init__(self, tmp, harnesses, cfg):
        self.tmp = tmp
        self.bins = {}
        self.err = {}
        self.cfg = cfg
        self.th = threading.Thread(target=self.go, args=(harnesses,))
        self.th.start()

    def go(self, harnesses):
        try:
            for h, b in build.native_all(self.tmp, harnesses, san=self.cfg.get('san', True), defs=self.cfg.get('rtdefs', ()),
                                         par=int(os.environ.get('VF_NPAR', '5'))).items():
                if isinstance(b, str):
                    self.bins[h] = b
                else:
                    self.err[h] = str(b)
        except Exception as e:
            for h in harnesses:
                self.err.setdefault(h, str(e))

    def wait(self):
        self.th.join()

    def run(self, h, args, timeout):
        env = dict(os.environ, TZ='UTC')
        sd = tempfile.mkdtemp(dir=self.tmp)
        try:
            r = subprocess.run([self.bins[h]] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd=sd, env=env)
            out = r.stdout.decode('latin1')
            return r.returncode, out
        except subprocess.TimeoutExpired as e:
            return 99, 'RT-FAIL no answer within %d s (hang)\n' % timeout + (e.stdout or b'').decode('latin1')[-2000:]
        finally:
            shutil.rmtree(sd, ignore_errors=True)


def replay(nat, h, fn, tape):
    rc, out = nat.run(h, ['replay', fn, tape], 90)
    return (rc not in (0, 3)), out


def search(nat, h, fn, seed, secs, maxit, tag):
    prog = os.path.join(nat.tmp, 'prog_%s' % tag)
    rc, out = nat.run(h, ['search', fn, str(seed), str(secs), str(maxit), prog], secs + 120)
    it = checks = skipped = 0
    cov = []
    try:
        b = open(prog, 'rb').read()
        it, checks, _, skipped = [int.from_bytes(b[i * 8:i * 8 + 8], 'little') for i in range(4)]
        cov = [b[32 + i * 48:80 + i * 48].split(b'\0')[0].decode('latin1') for i in range(64)]
        cov = [c for c in cov if c]
    except Exception:
        pass
    r = {'iterations': it, 'checks': checks, 'skipped': skipped, 'covers': cov, 'fail': None, 'out': out}
    if rc not in (0, 3):
        tape = os.path.join(nat.tmp, 'tape_%s' % tag)
        nat.run(h, ['dump', fn, str(seed), str(it), tape], 90)
        ok, o2 = replay(nat, h, fn, tape) if os.path.exists(tape) else (False, '')
        r['fail'] = {'tape': tape if os.path.exists(tape) else None, 'confirmed': ok, 'out': (o2 if ok else out)}
    return r


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    cfg = PROPS[pid]
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='vf_%s_' % pid)
    try:
        rc = decide(pid, tier, seed, cfg, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def decide(pid, tier, seed, cfg, tmp, t0):
    harnesses = [os.path.join(VERIF, 'props', h) for h in cfg['harness']]
    thorough = tier == 'thorough'
    nat = Native(tmp, harnesses, cfg)
    jobs, where, irerr = [], {}, {}
    for h in harnesses:
        srcs = [os.path.join(build.REPO, s) for s in cfg.get('srcs', {}).get(os.path.basename(h), [])]
        try:
            text = build.harness_module(tmp, h, srcs, cfg.get('defs', ()))
        except Exception as e:
            irerr[h] = str(e)
            continue
        path = os.path.join(tmp, os.path.basename(h) + '.final.ll')
        open(path, 'w').write(text)
        for fn in NAME.findall(text):
            if fn.startswith('vf_deep_') and not thorough:
                continue
            o = {'budget': 500 if thorough else 260, 'solver_ms': 20000 if thorough else 6000, 'contracts': cfg.get('contracts', {}),
                 'models': cfg.get('models')}
            o.update(cfg.get('opts', {}).get(fn, {}))
            jobs.append((path, fn, o))
            where[fn] = h
    par = int(os.environ.get('VF_PAR', '8'))
    results = prove_all(jobs, par, 560 if thorough else 300)
    nat.wait()
    t_prove = time.time() - t0

    # -------- bounded runtime cross-check of every contract, on the real code
    entries = []
    for h in harnesses:
        src = open(h).read()
        for fn in RTNAME.findall(src):
            if (fn, h) not in entries:
                entries.append((fn, h))
    byfn = {r['contract']: r for r in results}
    rts = {}
    violations = []
    if not nat.bins and not results:
        print('the harnesses could not be built on this tree:', str(irerr)[:1500], str(nat.err)[:1500])
        return 2

    def secs(fn):
        r = byfn.get(fn)
        b = cfg.get('rt_secs', {}).get(fn, 3)
        if r is None or r['status'] != 'proved':
            b = max(b, 60 if r is not None else 12)
        return b * (8 if thorough else 1)
    ths = []
    sem = threading.Semaphore(par)

    def go(fn, h):
        with sem:
            rts[fn] = search(nat, h, fn, seed, secs(fn), cfg.get('rt_iters', {}).get(fn, 400000), fn)
    # counterexamples of the verifier first
    os.makedirs(os.path.join(VERIF, 'work', 'replay'), exist_ok=True)
    replays = {}
    for r in results:
        if r.get('model') and where[r['contract']] in nat.bins:
            tape = os.path.join(tmp, 'cex_' + r['contract'])
            with open(tape, 'w') as f:
                for k, v in r['model'].items():
                    f.write('%s %s\n' % (k, v))
            ok, out = replay(nat, where[r['contract']], r['contract'], tape)
            replays[r['contract']] = (ok, out, tape)
    for fn, h in entries:
        if h in nat.bins and not (fn in replays and replays[fn][0]) and not (fn.startswith('vf_deep_') and not thorough):
            th = threading.Thread(target=go, args=(fn, h))
            th.start()
            ths.append(th)
    for th in ths:
        th.join()

    def report(fn, kind, text, tape=None):
        path = os.path.join(VERIF, 'work', 'replay', '%s-%s.txt' % (pid, fn))
        with open(path, 'w') as f:
            f.write('# property %s, contract %s (%s)\n' % (pid, fn, kind))
            for line in text.splitlines():
                f.write('# ' + line[:4000] + '\n')
            if tape:
                f.write('# inputs (label[index] value); replay: python3-vt check.py %s then rt replay %s <this file>\n' % (pid, fn))
                f.write(open(tape).read())
        violations.append((fn, path, kind))
        tail = ' no-failing-input-found' if kind == 'obligation' else ''
        print('%s: %s' % (fn, text.strip()[:1500]))
        print('VIOLATION property=%s replay=%s%s' % (pid, path, tail))

    undecided = []
    for fn, h in entries:
        r = byfn.get(fn)
        s = rts.get(fn)
        if fn in replays and replays[fn][0]:
            report(fn, 'replayed', 'failed obligation: %s\n%s\nverifier counterexample replayed on the real code:\n%s' %
                   (r.get('obligation') or r['why'][:300], r['why'][:1500], replays[fn][1]), replays[fn][2])
            continue
        if s and s['fail']:
            if s['fail']['tape'] or s['fail']['confirmed']:
                ob = ('verifier: %s %s\n' % (r['status'], r['why'][:1500])) if r else ''
                report(fn, 'input found', ob + 'contract violated on the real code:\n' + s['fail']['out'][-3000:], s['fail']['tape'])
                continue
        if r is None:
            continue
        if r['status'] == 'refuted':
            report(fn, 'obligation', 'failed obligation: %s\n%s\nverifier model: %s' % (r.get('obligation'), r['why'], json.dumps(r['model'])[:6000]))
        elif r['status'] == 'undecided' and r.get('model'):
            report(fn, 'obligation', 'obligation not discharged: %s\nverifier candidate model: %s' % (r['why'], json.dumps(r['model'])[:6000]))
        elif r['status'] != 'proved':
            undecided.append(fn)
    # vacuity: every cover point of a proved contract has to be reachable
    vac = []
    for r in results:
        if r['status'] == 'proved':
            miss = [c for c, v in r['covers'].items() if not v]
            want = cfg.get('covers', {}).get(r['contract'])
            src = open(where[r['contract']]).read()
            body = src[src.index(r['contract'] + '('):]
            nxt = re.search(r'\bextern "C" void vf_', body)
            body = body[:nxt.start()] if nxt else body
            want = set(re.findall(r'vf_cover\("([^"]+)"\)', body))
            miss += [c for c in want if not r['covers'].get(c)]
            if miss:
                vac.append((r['contract'], sorted(set(miss))))
    level = 'proof' if results and all(r['status'] == 'proved' for r in results) and not vac and not irerr else 'exploration'
    ev = evidence(pid, tier, seed, cfg, results, rts, undecided, vac, irerr, nat, level, violations, t0, t_prove)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for l in known(pid):
        print('KNOWN-FINDING: property=%s %s' % (pid, l))
    for r in results:
        print('%-40s %-11s %6.1fs  %d/%d obligations, %d paths, %d solver queries%s' % (
            r['contract'], r['status'], r['wall'], sum(o['discharged'] for o in r['obligations']),
            sum(o['checked'] for o in r['obligations']), r['paths'], r['solver']['queries'],
            '' if r['status'] == 'proved' else '  ' + r['why'][:300]))
    for fn, s in sorted(rts.items()):
        print('%-40s runtime cross-check (bounded): %d executions, %d contract evaluations' % (fn, s['iterations'], s['checks']))
    if irerr:
        print('not compiled for the verifier:', str(irerr)[:800])
    if nat.err:
        print('not compiled natively:', str(nat.err)[:800])
    if vac:
        print('vacuity: cover points not reached in proved contracts:', vac)
    print('%s %s: %s in %.1f s' % (pid, tier, 'VIOLATED' if violations else ('held, all obligations discharged' if level == 'proof' else
          'held on everything explored (bounded for: %s)' % (undecided or irerr or vac)), time.time() - t0))
    return 1 if violations else 0


def known(pid):
    p = os.path.join(VERIF, 'known_findings.txt')
    out = []
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'finding: property=(\S+) (.*)', line)
            if m and m.group(1) == pid:
                out.append(m.group(2).strip())
    return out


def evidence(pid, tier, seed, cfg, results, rts, undecided, vac, irerr, nat, level, violations, t0, t_prove):
    trusted = {}
    for r in results:
        for k, v in r['trusted'].items():
            trusted[k] = v
    funcs = sorted({f for r in results for f in r['functions']})
    ob = sum(o['checked'] for r in results for o in r['obligations'])
    di = sum(o['discharged'] for r in results for o in r['obligations'])
    by = {}
    st = 0.0
    for r in results:
        st += r['solver']['time']
        for k, v in r['solver']['by'].items():
            by[k] = by.get(k, 0) + v
    cov = {
        'obligations': ob, 'discharged': di,
        'checker_cmd': 'python3-vt check.py %s --tier %s' % (pid, tier),
        'trusted_base': ['clang 18 front end and LLVM sroa/simplifycfg', 'vf verifier (symbolic execution, loop summariser, sequence normaliser)',
                         'z3 / cvc5'] + ['library model: %s' % k[:160] for k, v in sorted(trusted.items()) if not k.startswith('vf_')],
        'contracts': [{k: r.get(k) for k in ('contract', 'status', 'why', 'paths', 'steps', 'wall', 'solver', 'loops', 'covers')} for r in results],
        'named_obligations': [dict(o, contract=r['contract']) for r in results for o in r['obligations']],
        'functions_under_contract': funcs,
        'back_end_decisions': by, 'solver_time_s': round(st, 2), 'prove_wall_s': round(t_prove, 2),
        'undecided_contracts': undecided, 'vacuity_failures': vac, 'not_compiled': {k: v[:500] for k, v in irerr.items()},
        'evaluations': sum(s['iterations'] for s in rts.values()),
        'distinct_nontrivial': sum(max(0, s['iterations'] - s['skipped']) for s in rts.values()),
        'rule': 'bounded runtime cross-check: random inputs drawn per contract from a seeded generator, executed on the real code built with the '
                'address sanitizer; non-trivial = the contract\'s assumptions held; these executions are never counted as proved',
        'runtime': {fn: {k: s[k] for k in ('iterations', 'checks', 'skipped', 'covers')} for fn, s in rts.items()},
        'bounded_only': sorted(fn for fn in rts if fn not in {r['contract'] for r in results}),
        'samples': [{'contract': fn, 'executions': s['iterations'], 'covers_reached': s['covers']} for fn, s in list(rts.items())[:4]],
        'explanation': cfg.get('explanation', ''),
    }
    return {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
            'assumptions': ASSUME + cfg.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(violations)}


ASSUME = [
    'operator new does not fail and object sizes stay below 2^48 bytes',
    'sequentially consistent memory; one thread executes the contract unless the contract says otherwise',
    'destructors and moves of modelled library types have no effect beyond their documented one',
    'text handed to the library is shorter than 2^47 bytes',
]

if __name__ == '__main__':
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.stdout.flush()
        os._exit(2)
