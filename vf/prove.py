"""Run the verifier on the harness contracts of one property."""
import sys
import os
import time
import traceback
import multiprocessing as mp

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ir
import build
import models as MD
import fmtmodel as FM
from exec import Exec
from state import *
from terms import *
import z3


def load(text):
    mod = ir.Module(text)
    names = list(mod.funcs) + list(mod.decls)
    dem = build.demangle(names)
    return mod, dem


def globals_init(ex, st):
    """run the translation units' static initialisers; a global whose initialiser is out of reach is not readable"""
    import re
    order = []
    for n in ex.m.funcs:
        if n.startswith('_GLOBAL__sub_I_'):
            cs = re.findall(r'call void @("?[^( ]+)\(', '\n'.join(map(str, ex.m.funcs[n].body)))
            cs = [c.strip('"') for c in cs]
            order += cs if all(c in ex.m.funcs for c in cs) else [n]
    ex.strict = True
    for n in order:
        s = st.copy()
        old = ex.ended
        try:
            ex.start(s, n)
            ex.ended = []
            ex.explore([s])
            if len(ex.ended) != 1:
                raise Unsupported('%d ends' % len(ex.ended))
            st = ex.ended[0]
            st.frames = []
        except (Unsupported, Violation, Exception) as e:
            body = '\n'.join(map(str, ex.m.funcs[n].body))
            for g in set(re.findall(r'@("[^"]+"|[\w.$]+)', body)):
                g = g.strip('"')
                if g in ex.m.globals and not ex.m.glob(g).const:
                    ex.noinit.add(g)
            ex.log('static init skipped', n, repr(e)[:200])
        ex.ended = old
    ex.strict = False
    return st


def run_contract(text, fname, opts):
    t0 = time.time()
    mod, dem = load(text) if isinstance(text, str) else text
    mods = opts.get('models')
    logf = open(opts['log'], 'w') if opts.get('log') else None

    def log(*a):
        if logf:
            print(*a, file=logf)
            logf.flush()
        if opts.get('verbose'):
            print(*a)
    ex = Exec(mod, dem, MD.Models(extra_rx=None if opts.get('nofmt') else FM.RX), Solver(opts.get('solver_ms', 4000)), log)
    ex.deadline = t0 + opts.get('budget', 240)
    ex.contracts = {}
    ex.active_contract = {}
    for pat, cfun in opts.get('contracts', {}).items():
        import re
        p = re.compile(pat)
        forced = cfun.endswith('!')      # also in place of a library model
        cfun = cfun.rstrip('!')
        for n in list(mod.funcs) + [n for n in dem if n not in mod.funcs]:
            if p.match(MD.simplify(dem[n])) and n != cfun:
                ex.contracts[n] = cfun
                if forced:
                    ex.forced.add(n)
                ex.active_contract[n] = 1 if opts.get('own') == pat else 0
    res = {'contract': fname, 'status': 'proved', 'why': '', 'model': None}
    st = State(ex)
    try:
        st = globals_init(ex, st)
        ex.steps = 0
        ex.touched = {}
        ex.oblkeys = {}
        ex.covers = {}
        ex.paths = 0
        ex.ended = []
        st.frames = []
        ex.start(st, fname)
        ex.explore([st])
        ends = [s for s in ex.ended if isinstance(s, State)]
        st_end = 'unsat'
        for s in ends[:12]:
            v = ex.solver.check(s.pc)[0]
            if v != 'unsat':
                st_end = v
            if v == 'sat':
                break
        ex.covers['end of contract reached'] = st_end != 'unsat'
        if ex.incomplete:
            res['status'] = 'unsupported'
            res['why'] = '; '.join(list(dict.fromkeys(ex.incomplete))[:4])
        und = [r for r in ex.oblkeys.values() if r['undecided']]
        if und:
            res['status'] = 'undecided'
            res['why'] = '; '.join('%s: %s' % (r['name'], (r['why'] or '')[:300]) for r in und)
            h = [r['hint'] for r in und if r.get('hint')]
            if h:
                try:
                    res['model'] = concretise(ex, h[0][2], h[0][0], h[0][1])
                except Exception as e:
                    log('hint failed', repr(e))
    except Violation as v:
        res['status'] = 'refuted'
        res['obligation'] = v.name
        res['why'] = v.why
        try:
            res['model'] = concretise(ex, v.state, v.model[0], v.model[1])
        except Exception as e:
            log('model extraction failed', traceback.format_exc())
            res['model'] = None
    except Unsupported as e:
        res['status'] = 'unsupported'
        res['why'] = str(e)
        if opts.get('verbose'):
            traceback.print_exc()
    except Budget as e:
        res['status'] = 'timeout'
        res['why'] = 'budget ' + str(e)
    except Exception as e:
        res['status'] = 'unsupported'
        res['why'] = 'internal: ' + repr(e)
        log(traceback.format_exc())
        if opts.get('verbose'):
            traceback.print_exc()
    res['obligations'] = [{k: r[k] for k in ('name', 'checked', 'discharged', 'undecided')} for r in ex.oblkeys.values()]
    res['covers'] = dict(ex.covers)
    res['paths'] = ex.paths
    res['steps'] = ex.steps
    res['wall'] = round(time.time() - t0, 2)
    res['solver'] = {'queries': ex.solver.stats.q, 'time': round(ex.solver.stats.t, 2), 'by': ex.solver.stats.by,
                     'unknown': ex.solver.stats.unknown}
    res['functions'] = sorted({repo_name(dem.get(n, n)) for n in ex.touched} - {None})
    res['trusted'] = dict(ex.trusted)
    res['loops'] = list(ex.summarised)
    res['loopfail'] = {MD.simplify(dem.get(k[0], k[0]))[:120]: v for k, v in ex.loopfail.items()}
    return res


def repo_name(d):
    d = MD.simplify(d)
    # drop return type / arguments: keep functions that live in the blackhole or vendored fmt namespaces
    depth = 0
    cut = len(d)
    for i, c in enumerate(d):
        if c == '<':
            depth += 1
        elif c == '>':
            depth -= 1
        elif c == '(' and depth == 0 and not d[i:].startswith('(anonymous namespace)'):
            cut = i
            break
    h = d[:cut]
    depth = 0
    sp = 0
    h2 = h.replace('(anonymous namespace)', '(anonymous_namespace)')
    for i, c in enumerate(h2):
        if c in '<(':
            depth += 1
        elif c in '>)':
            depth -= 1
        elif c == ' ' and depth == 0 and 'operator' not in h2[:i]:
            sp = i + 1
    h = h2[sp:]
    if h.startswith('blackhole::') or h.startswith('fmt::'):
        return h[:160]
    return None


def concretise(ex, st, pc, neg):
    """evaluate all harness inputs in a (small) model of pc /\\ neg"""
    lens = []
    for c in pc + [neg]:
        for t in atoms(c):
            if t.op in ('v', 'f') and t.sort == 'I':
                n = t.a[0]
                if n.endswith('.len') or n.startswith('k!') or n.startswith('in:n'):
                    if not (t.op == 'f' and any(x.op == 'v' and x.a[0].startswith('K!') for x in t.a[1:] if isinstance(x, T))):
                        lens.append(t)
    lens = list(dict.fromkeys(lens))
    soft = [[le(t, C(b)) for t in lens] for b in (4, 12, 40)]
    model = ex.solver.small_model(pc, [neg], soft)
    if model is None:
        return None
    out = {}

    def ev(t):
        v = model.eval(z(t), model_completion=True)
        if z3.is_int_value(v):
            return v.as_long()
        return None
    seen = {}
    allt = set()
    for c in pc + [neg]:
        for t in atoms(c):
            allt.add(t)
    from itertools import product
    for lab, info in st.inputs.items():
        if not info:
            continue
        kind, ar, lo, hi = info
        if kind == 'int':
            for idx in product(range(0, 6 if ar > 1 else 14), repeat=ar):
                t = uf('in:' + lab, [C(i) for i in idx], -INF, INF)
                v = _eval_uf(model, 'in:' + lab, idx)
                if v is None:
                    continue
                if lo is not None and v < lo:
                    v = lo
                if hi is not None and v > hi:
                    v = hi
                out['%s[%s]' % (lab, ','.join(map(str, idx)))] = v
        else:
            for idx in product(range(0, 6 if ar > 1 else 14), repeat=ar):
                n = _eval_uf(model, 'in:' + lab + '.len', idx)
                if n is None:
                    continue
                n = max(0, min(n, 64))
                bs = []
                for i in range(n):
                    b = _eval_uf(model, 'in:' + lab + '.at', tuple(idx) + (i,))
                    bs.append((b if b is not None else 97) % 256)
                out['%s[%s]' % (lab, ','.join(map(str, idx)))] = 's' + bytes(bs).hex()
    return out


def _eval_uf(model, name, idx):
    for d in model.decls():
        if d.name() == name and d.arity() == len(idx):
            e = model.eval(d(*[z3.IntVal(i) for i in idx]), model_completion=True)
            return e.as_long() if z3.is_int_value(e) else None
    return None


if __name__ == '__main__':
    import json
    text = open(sys.argv[1]).read()
    mod, dem = load(text)
    fs = [f for f in mod.funcs if f.startswith('vf_main')] if len(sys.argv) < 3 else sys.argv[2:]
    for f in fs:
        r = run_contract((mod, dem), f, {'verbose': bool(os.environ.get('V')), 'budget': 600})
        print('==', f, r['status'], r['wall'], 's paths', r['paths'], 'steps', r['steps'], 'queries', r['solver'])
        print('   why', r['why'][:1500])
        print('   obl', [(o['name'], o['checked'], o['discharged']) for o in r['obligations']])
        print('   covers', r['covers'], 'loops', [x[:60] for x in r['loops']])
        print('   loopfail', r['loopfail'])
        print('   model', r['model'])
        if os.environ.get('V'):
            print(json.dumps(r, indent=1)[:6000])
