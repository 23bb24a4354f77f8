"""Loop rule: inductive invariants synthesised from recurrences.

At the header of a loop whose trip count is symbolic the engine guesses, for every location the body
modifies, a closed form in the iteration counter k (linear counters/pointers, sequences that grow by a segment
that is a function of k, arrays extended by one element per iteration) and then *proves* the guess inductive by
executing the body once from the generalised state.  Everything that has no closed form is forgotten."""
from terms import *
from seqs import *
import seqs as SQ
import terms as TM
from state import *


def _same(a, b):
    return a is b or (type(a) == type(b) and a == b)


def locations(st, fr_idx, header):
    """snapshot of everything a loop body may modify"""
    loc = {}
    fr = st.frames[fr_idx]
    for x in fr.fn.insts(header):
        if x.op != 'phi':
            break
        loc[('reg', x.res)] = fr.regs.get(x.res)
    for key, m in st.heap.items():
        for off, (sz, v) in m.cells.items():
            loc[('mem', key, off, sz)] = v
    loc[('trace',)] = st.trace
    loc[('expect',)] = st.expect
    return loc


def part(m, off, sz):
    """the value at a location that is made of parts of known constants, or zero"""
    r = 0
    for i in range(sz):
        b = None
        for o, (z, v) in m.cells.items():
            if o <= off + i < o + z:
                if not (isinstance(v, T) and v.op == 'c'):
                    return None
                b = ((v.a % (1 << 8 * z)) >> 8 * (off + i - o)) % 256
        if b is None:
            if not getattr(m, 'zero', False):
                return None
            b = 0
        r |= b << 8 * i
    return C(r)


def setloc(ex, st, fr_idx, l, v):
    if l[0] == 'reg':
        st.frames[fr_idx].regs[l[1]] = v
    elif l[0] == 'mem':
        m = st.heap[l[1]]
        if m.owner != st.id:
            m = m.clone(st.id)
            st.heap[l[1]] = m
        if v is None:
            ex.clear(st, m, l[2], l[3])
        else:
            c = m.cells.get(l[2])
            if c is None or c[0] != l[3]:
                ex.clear(st, m, l[2], l[3])
            m.cells[l[2]] = (l[3], v)
    elif l[0] == 'trace':
        st.trace = v
    elif l[0] == 'expect':
        st.expect = v


def indexed(v, ids):
    """no unknown made since"""
    for a in atoms(v):
        if a.op in ('v', 'f'):
            n = a.a[0] if isinstance(a.a, tuple) else a.a
            i = str(n).rpartition('!')[2]
            if '!' in str(n) and i.isdigit() and int(i) > ids:
                return False
    return True


def getloc(st, fr_idx, l):
    if l[0] == 'reg':
        return st.frames[fr_idx].regs.get(l[1])
    if l[0] == 'mem':
        m = st.heap.get(l[1])
        if m is None:
            return None
        c = m.cells.get(l[2])
        return c[1] if c is not None and c[0] == l[3] else None
    if l[0] == 'trace':
        return st.trace
    return st.expect


def strip_prefix(s, pre):
    """s == pre ++ rest -> rest or None"""
    if s == pre:
        return EMPTY
    a, b = list(s.p), list(pre.p)
    i = 0
    while i < len(b):
        if i >= len(a):
            return None
        if a[i] == b[i]:
            i += 1
            continue
        if i == len(b) - 1:
            x, y = a[i], b[i]
            if x[0] == 'lit' and y[0] == 'lit' and x[1].startswith(y[1]):
                return Seq((('lit', x[1][len(y[1]):]),) + tuple(a[i + 1:]))
            if x[0] == 'sub' and y[0] == 'sub' and x[1] == y[1] and x[2] is y[2]:
                return Seq(SQ._norm((('sub', x[1], add(x[2], y[3]), sub(x[3], y[3])),) + tuple(a[i + 1:])))
        return None
    return Seq(SQ._norm(a[len(b):]))


def seqof(v):
    if isinstance(v, Str):
        return v.s
    if isinstance(v, Seq):
        return v
    return None


def reseq(v, s):
    return Str(s) if isinstance(v, Str) else s


def run_iter(ex, g, frame_id, depth, header, body):
    def stop(st):
        if len(st.frames) <= depth or st.frames[depth].id != frame_id:
            return 'exit'
        cur = st.frames[depth].loops.get(header)
        if cur is None:
            return 'exit'
        if isinstance(cur, tuple) and cur[0] == 'iterdone':
            return 'back' if len(st.frames) == depth + 1 else None
        return None
    g.frames[depth].loops[header] = ('iter', 0)
    saved_end = ex.ended
    saved_paths = ex.paths
    ex.ended = []
    res = ex.explore([g], stop)
    ended = ex.ended
    ex.ended = saved_end
    return res, ended


def summarise(ex, snap):
    S = snap.state
    depth = next(i for i, f in enumerate(S.frames) if f.id == snap.frame_id)
    fr = S.frames[depth]
    header = snap.header
    body = fr.fn.loops()[header]
    name = ex.dem.get(fr.fn.name, fr.fn.name)
    mark = Obj.n
    havoc_ok = False

    base = locations(S, depth, header)
    # ---- discovery: one iteration from the actual entry state
    saved = save_obl(ex)
    try:
        res, ended = run_iter(ex, S.copy(), snap.frame_id, depth, header, body)
    finally:
        restore_obl(ex, saved)
    backs = [s for t, s in res if t == 'back']
    if not backs:
        # the body always leaves: nothing to summarise
        res, ended = run_iter(ex, S.copy(), snap.frame_id, depth, header, body)
        ex.ended.extend(ended)
        for t, s in res:
            s.stack = S.stack
        return [s for t, s in res if s.frames]
    # locks held over all output so far: only locks held throughout the loop can stay in it
    oset = S.locks[2]
    for b in backs:
        if b.locks[0] != S.locks[0] or b.locks[3] != S.locks[3]:
            raise Unsupported('locks change in a loop')
        if b.guards != S.guards:
            raise Unsupported('the locks of what is shared change in a loop')
        if b.locks[2] != S.locks[2]:
            oset = frozenset(S.locks[0]) & (frozenset(S.locks[0]) if oset is None else oset) & b.locks[2]
    modified = {}
    elems = {}
    collect(ex, S, backs, depth, header, base, modified, elems, mark, None)
    force_havoc = set()
    for l in modified:
        if l[0] == 'mem' and base.get(l) is None and l[1] in S.heap and l[3] in (1, 2, 4, 8):
            v = part(S.heap[l[1]], l[2], l[3])
            if v is not None:
                base[l] = v
                modified[l] = [(v, b) for a, b in modified[l]]
    last = None
    prev = {}       # locations that hold what the previous iteration left there
    # inside another loop the iteration count is a function of the outer iteration
    k = uf('k!%d' % ex.newid(), S.stack, 0, LENMAX)
    cands = []
    tried = False
    for attempt in range(10):
        G = S.copy()
        old_ids = ex.ids
        G.stack = S.stack + (k,)
        G.locks = (S.locks[0], S.locks[1], oset, S.locks[3])
        for c in cands:
            G.assume(c)
        G.index(k)
        plan = {}
        bigs = {}
        pvars = tuple(var('p!%d' % ex.newid(), -INF, INF) for _ in S.stack)
        kap = var('K!%d' % ex.newid(), 0, LENMAX)
        precise = True
        for l, vals in modified.items():
            v0 = base.get(l)
            p = ('prev', prev[l]) if prev.get(l) is not None else guess(ex, l, v0, vals, force_havoc)
            plan[l] = p
            if p[0] == 'lin':
                v = add(v0, mul(p[1], k))
            elif p[0] == 'plin':
                v = v0.plus(mul(p[1], k))
            elif p[0] == 'step':
                v = ite(le(k, ZERO), v0, p[1])
            elif p[0] == 'prev':
                v = ite(le(k, ZERO), v0, subst(p[1][1], {p[1][0]: sub(k, ONE)}))
            elif p[0] == 'acc':
                d = BigDef(pvars, kap)
                bigs[l] = d
                v = reseq(v0, seqof(v0) + Seq.big(d, S.stack, k))
            elif p[0] == 'havoc':
                precise = False
                v = havoc_value(ex, G, v0, l, vals)
            else:
                precise = precise
                v = UNDEF
            setloc(ex, G, depth, l, v)
        segdefs = {}
        for o, (pre, e0, sz) in elems.items():
            alts = []
            gid = ex.newid()
            pv = tuple(var('p!%d' % ex.newid(), -INF, INF) for _ in pre)
            kp = var('K!%d' % ex.newid(), 0, LENMAX)
            seg = (e0, add(e0, k), pv + (kp,), alts, gid)
            segdefs[o] = (seg, alts, pv, kp, pre)
            G.segs[o] = [seg] + list(G.segs.get(o, []))
        npc = len(G.pc)
        gbase = locations(G, depth, header)
        saved = save_obl(ex)
        if not tried:
            # trial run with failing obligations muted: discovers the bounds implied by the loop guards
            old = ex.suppress
            nm = ex.muted
            ex.suppress = old + 1
            try:
                res, ended = run_iter(ex, G.copy(), snap.frame_id, depth, header, body)
            finally:
                ex.suppress = old
            if ex.muted != nm:
                tried = True
                restore_obl(ex, saved)
                cands = candidates(ex, S, k, [s for t, s in res if t == 'back'], npc)
                ex.log('loop invariant candidates', name[:60], [str(c)[:100] for c in cands])
                continue
        else:
            try:
                res, ended = run_iter(ex, G.copy(), snap.frame_id, depth, header, body)
            except Violation as e:
                restore_obl(ex, saved)
                if not precise:
                    raise Unsupported('obligation %s fails under forgotten state: %s' % (e.name, e.why))
                # the violating state is real only when the guessed closed forms are inductive
                if not confirm(ex, snap, G, depth, header, body, plan, base, k, S, gbase, modified, cands):
                    raise Unsupported('obligation %s fails under an unconfirmed invariant: %s' % (e.name, e.why))
                raise
        backs = [s for t, s in res if t == 'back']
        bad = None
        newmod = {}
        newel = {}
        collect(ex, G, backs, depth, header, gbase, newmod, newel, mark, k)
        for l in newmod:
            if l not in modified:
                modified[l] = newmod[l]
                bad = l
        for o in newel:
            if o not in elems:
                elems[o] = newel[o]
                bad = o
        if bad is not None:
            restore_obl(ex, saved)
            last = 'new modified location %r' % (bad,)
            continue
        # ---- inductive check
        for b in backs:
            if b.locks[0] != S.locks[0] or b.locks[2:] != G.locks[2:]:
                raise Unsupported('locks or locked output change in a loop')
        for l, p in plan.items():
            v0 = base.get(l)
            for s in backs:
                v = getloc(s, depth, l)
                if p[0] == 'lin':
                    ok = isinstance(v, T) and (ex.known(s, eq(v, add(v0, mul(p[1], add(k, ONE))))) is True)
                elif p[0] == 'plin':
                    w = v0.plus(mul(p[1], add(k, ONE)))
                    ok = isinstance(v, Ptr) and v.obj is w.obj and v.params == w.params and \
                        ex.known(s, eq(v.off, w.off)) is True
                elif p[0] == 'step':
                    ok = isinstance(v, T) and ex.known(s, eq(v, p[1])) is True
                elif p[0] == 'prev':
                    ok = isinstance(v, T) and ex.known(s, eq(v, subst(p[1][1], {p[1][0]: k}))) is True
                elif p[0] == 'acc':
                    ok = seqof(v) is not None and strip_prefix(seqof(v), seqof(getloc(G, depth, l))) is not None
                else:
                    ok = True
                if not ok:
                    bad = l
                    break
            if bad:
                break
        if not bad:
            for c in list(cands):
                c1 = subst(c, {k: add(k, ONE)})
                if not all(ex.known(s, c1) is True for s in backs):
                    cands.remove(c)
                    bad = c
            if bad:
                restore_obl(ex, saved)
                last = 'candidate invariant not inductive'
                continue
        if bad and plan[bad][0] == 'prev':
            restore_obl(ex, saved)
            prev[bad] = None
            last = 'no closed form for %r' % (bad,)
            continue
        if not bad:
            # forgotten, although every path leaves the same function of the iteration there?
            for l, p in plan.items():
                if p[0] == 'havoc' and l not in prev and isinstance(base.get(l), T):
                    vs = {getloc(s, depth, l) for s in backs}
                    v = vs.pop()
                    prev[l] = None
                    if not vs and isinstance(v, T) and v.sort == 'I' and k in atomset(v) and indexed(v, old_ids):
                        prev[l] = (k, v)
                        bad = l
            if bad:
                restore_obl(ex, saved)
                last = 'values of the previous iteration'
                continue
        if bad:
            restore_obl(ex, saved)
            force_havoc.add(bad)
            if plan[bad][0] == 'step':
                force_havoc.add((bad, 'step'))
            last = 'no closed form for %r' % (bad,)
            if plan[bad][0] in ('havoc', 'undef'):
                raise Unsupported(last)
            continue
        # ---- definitions
        sub_ = dict(zip(S.stack, pvars))
        sub_[k] = kap
        guards = []
        for s in backs:
            gd = and_(*[c for c in s.pc[npc:] if c not in s.derived])
            guards.append(gd)
        for l, d in bigs.items():
            alts = []
            g0 = seqof(getloc(G, depth, l))
            for s, gd in zip(backs, guards):
                seg = strip_prefix(seqof(getloc(s, depth, l)), g0)
                alts.append((subst(gd, sub_), seg.subst(sub_)))
            # merge alternatives with the same segment
            mg = {}
            for gd, sg in alts:
                mg.setdefault(sg, []).append(gd)
            d.alts = [(or_cases(gs), sg) for sg, gs in mg.items()]
            if len(d.alts) == 1 and d.alts[0][1] == EMPTY:
                pass
        for o, (seg, alts, pv, kp, pre) in segdefs.items():
            m2 = dict(zip(pre, pv))
            m2[k] = kp
            for s, gd in zip(backs, guards):
                keys = [kk for kk in s.heap if kk[0] is o and kk not in G.heap]
                cells = {}
                if keys:
                    kk = keys[0]
                    cells = {off: (sz, vsubst(v, m2)) for off, (sz, v) in s.heap[kk].cells.items()}
                alts.append((subst(gd, m2), {o: cells}))
        # families for objects allocated by the body and still alive
        fam_alts = []
        fam_objs = set()
        allp = S.stack + (k,)
        fv = tuple(var('p!%d' % ex.newid(), -INF, INF) for _ in S.stack) + (var('K!%d' % ex.newid(), 0, LENMAX),)
        fm = dict(zip(allp, fv))
        for s, gd in zip(backs, guards):
            cells = {}
            for (o, pp), m in s.heap.items():
                if o.id > mark and pp == allp and m.alive:
                    cells[o] = {off: (sz, vsubst(v, fm)) for off, (sz, v) in m.cells.items()}
                    fam_objs.add(o)
            fam_alts.append((subst(gd, fm), cells))
        gid = ex.newid()
        fact_body = subst(or_cases(guards), {k: kap})
        outs = []
        nsegs = {}
        for t, s in res:
            for o, sg in s.segs.items():
                if o not in G.segs and o.id > mark:
                    nsegs[o] = sg
        ex.summarised.append(name)
        ex.log('summarised loop in', name[:90], 'backs', len(backs), 'plan',
               {str(l)[:70]: str(p)[:60] for l, p in plan.items() if p[0] not in ('undef',)})
        for t, s in res:
            if t == 'exit' and s.frames:
                for o in fam_objs:
                    s.segs[o] = [(None, None, fv, fam_alts, gid)]
                for o, sg in nsegs.items():
                    s.segs.setdefault(o, sg)
                s.stack = S.stack
                n = trip_count(s, k)
                if n is not None:
                    subst_state(s, k, n)
                    s.assume(le(ZERO, n))
                else:
                    n = k
                add_fact(ex, s, kap, n, subst(fact_body, {k: n}))
                if not (n.op == 'c'):
                    s.index(n)
                    s.index(sub(n, ONE))
                renew(ex, s, depth)
                outs.append(s)
        for s in ended:
            add_fact(ex, s, kap, k, fact_body)
            ex.ended.append(s)
        return outs
    raise Unsupported('no inductive closed form: %s' % (last,))


def renew(ex, s, depth):
    """the exit block may head another loop, whose snapshot was taken inside this one: take it again now that the
    counter is bound and the facts of the finished loop are known"""
    if len(s.frames) != depth + 1:
        return
    f = s.frames[depth]
    sn = f.loops.get(f.blk)
    if sn is None or isinstance(sn, tuple) or sn.state.frames[depth].ip != f.ip:
        return
    del f.loops[f.blk]
    n2 = type(sn)(None, sn.frame_id, sn.header, sn.it)
    n2.state = s.copy()
    n2.soft, n2.nosoft = sn.soft, sn.nosoft
    f.loops[f.blk] = n2


def trip_count(s, k):
    """closed form of the number of iterations, when leaving the loop determines it"""
    for c in s.pc:
        if c.op != 'eq':
            continue
        c0, d = lin(c.a[0])
        n = d.get(k)
        if n not in (1, -1) or any(k in atomset(x) for x in d if x is not k):
            continue
        rest = mklin(c0, {x: v for x, v in d.items() if x is not k})
        return TM.neg(rest) if n == 1 else rest
    return None


def subst_state(s, k, n):
    """replace k by the equal term n everywhere in the state"""
    m = {k: n}

    def sv(v):
        if isinstance(v, T):
            return subst(v, m) if k in atomset(v) else v
        if v is None or isinstance(v, (str, int, bytes, Obj)):
            return v
        if isinstance(v, (list, tuple)):
            return tuple(sv(x) for x in v)
        return v.subst(m)
    for f in s.frames:
        for r, v in f.regs.items():
            w = sv(v)
            if w is not v:
                f.regs[r] = w
    heap = {}
    for (o, ps), mm in s.heap.items():
        nps = sv(ps) if ps else ps
        nc = None
        for off, (sz, v) in mm.cells.items():
            w = sv(v)
            if w is not v and w != v:
                if nc is None:
                    nc = mm.clone(s.id)
                nc.cells[off] = (sz, w)
        heap[(o, nps)] = nc or mm
    s.heap = heap
    s.segs = {o: [tuple(sv(x) if isinstance(x, T) else x for x in sg) for sg in l] for o, l in s.segs.items()}
    s.choice = {(g, sv(ps)): i for (g, ps), i in s.choice.items()}
    s.trace = s.trace.subst(m)
    s.expect = s.expect.subst(m)
    s.caught = [tuple(sv(x) for x in c) for c in s.caught]
    h, a, o, c = s.locks
    lk = lambda q: (q[0], sv(q[1]), sv(q[2]))
    s.locks = (tuple((lk(q), i) for q, i in h), a, None if o is None else frozenset((lk(q), i) for q, i in o),
               None if c is None else frozenset(lk(q) for q in c))
    pc, der = s.pc, s.derived
    s.indices = list(dict.fromkeys(sv(i) for i in s.indices))
    if any(k in atomset(c) for c in pc):
        s.pc = []
        s.pcset = {}
        s.foralls = []
        s.derived = set()
        s.bnd = {}
        for c in pc:
            c2 = sv(c)
            if c in der:
                s.derived.add(c2)
            s.assume(c2)
    else:
        s.pcset = {c: v for c, v in s.pcset.items() if k not in atomset(c)}
        s.bnd = {a: b for a, b in s.bnd.items() if k not in atomset(a)}


def add_fact(ex, s, kap, n, body):
    """every iteration satisfied body: keep what does not follow from the path condition anyway"""
    if body is TRUE:
        return
    base = s.pc + [le(ZERO, kap), lt(kap, n)]
    parts = body.a if body.op == 'and' else (body,)
    keep = [c for c in parts if ex.solver.check(base, [not_(c)])[0] != 'unsat']
    if keep:
        s.assume(forall(kap, ZERO, n, and_(*keep)))


def candidates(ex, S, k, backs, npc):
    """bounds on the iteration counter implied by the loop guard (to be proved inductive)"""
    out = []
    for s in backs:
        for c in s.pc[npc:]:
            neg = c.op == 'not' and c.a[0].op == 'eq'
            if not neg and c.op != 'le':
                continue
            t = c.a[0].a[0] if neg else c.a[0]
            c0, d = lin(t)
            if k not in d:
                continue
            if any(a is not k and k in atoms(a) for a in d):
                continue
            n = d[k]
            if neg:
                if abs(n) != 1:
                    continue
                rest = mklin(c0, {a: v for a, v in d.items() if a is not k})
                N = TM.neg(rest) if n == 1 else rest
                cand = le(k, N)
            elif n > 0:
                cand = or_(le(k, ZERO), subst(c, {k: sub(k, ONE)}))
            else:
                continue
            if cand in out or ex.known(S, subst(cand, {k: ZERO})) is not True:
                continue
            out.append(cand)
    return out


def confirm(ex, snap, G, depth, header, body, plan, base, k, S, gbase, modified, cands):
    """re-run the body with failing obligations muted and check the invariants are inductive"""
    old = ex.suppress
    ex.suppress = 1
    try:
        res, ended = run_iter(ex, G.copy(), snap.frame_id, depth, header, body)
    except (Unsupported, Violation):
        return False
    finally:
        ex.suppress = old
    backs = [s for t, s in res if t == 'back']
    newmod = {}
    newel = {}
    try:
        collect(ex, G, backs, depth, header, gbase, newmod, newel, Obj.n, k)
    except Unsupported:
        return False
    if any(l not in modified for l in newmod):
        return False
    for c in cands:
        if not all(ex.known(s, subst(c, {k: add(k, ONE)})) is True for s in backs):
            return False
    for l, p in plan.items():
        v0 = base.get(l)
        for s in backs:
            v = getloc(s, depth, l)
            if p[0] == 'lin':
                ok = isinstance(v, T) and (ex.known(s, eq(v, add(v0, mul(p[1], add(k, ONE))))) is True)
            elif p[0] == 'plin':
                w = v0.plus(mul(p[1], add(k, ONE)))
                ok = isinstance(v, Ptr) and v.obj is w.obj and v.params == w.params and \
                    ex.known(s, eq(v.off, w.off)) is True
            elif p[0] == 'step':
                ok = isinstance(v, T) and ex.known(s, eq(v, p[1])) is True
            elif p[0] == 'prev':
                ok = isinstance(v, T) and ex.known(s, eq(v, subst(p[1][1], {p[1][0]: k}))) is True
            elif p[0] == 'acc':
                ok = seqof(v) is not None and strip_prefix(seqof(v), seqof(getloc(G, depth, l))) is not None
            else:
                ok = True
            if not ok:
                return False
    return True


def save_obl(ex):
    return ({n: dict(r) for n, r in ex.oblkeys.items()}, ex.paths, list(ex.ended), dict(ex.covers))


def restore_obl(ex, s):
    ex.oblkeys = {n: dict(r) for n, r in s[0].items()}
    ex.paths = s[1]
    ex.ended = s[2]
    ex.covers = s[3]


CAP = 1 << 44


def relocate(ex, S, h):
    """view the storage of a growing container (found from the hint) as an unbounded array; contents are kept"""
    def isp(v, o, ps, off):
        return isinstance(v, Ptr) and v.obj is o and v.params == ps and v.off.op == 'c' and \
            v.off.a <= off and (off - v.off.a) % h.stride == 0
    found = None
    if h.kind == 'std':
        c = S.heap[(h.obj, h.params)].cells.get(h.off)
        e = S.heap[(h.obj, h.params)].cells.get(h.off + 8)
        if c is None or e is None or not isinstance(c[1], Ptr) or not isinstance(e[1], Ptr):
            return False
        b, e = c[1], e[1]
        found = (h.obj, h.params, h.off, 'std')
        if b.obj is None:
            n = 0
        else:
            if b.obj.kind != 'mem' or b.obj is not e.obj or b.off.op != 'c' or e.off.op != 'c':
                return False
            n = (e.off.a - b.off.a) // h.stride
        base = (b.obj, b.params, b.off.a) if b.obj is not None else None
    else:
        for (o, ps), mm in S.heap.items():
            if not mm.alive:
                continue
            for off, (sz, v) in mm.cells.items():
                if isp(v, h.obj, h.params, h.off):
                    n1 = mm.cells.get(off + 8)
                    if n1 is None:
                        continue
                    if isinstance(n1[1], T) and n1[1].op == 'c':
                        n = n1[1].a
                        if v.off.a + n * h.stride not in (h.off, h.off + h.stride) and v.off.a != h.off:
                            continue
                        found = (o, ps, off, 'small')
                    elif isinstance(n1[1], Ptr) and n1[1].obj is h.obj and n1[1].off.op == 'c':
                        found = (o, ps, off, 'std')
                        n = (n1[1].off.a - v.off.a) // h.stride
                    if found:
                        base = (h.obj, h.params, v.off.a)
                    if found:
                        break
            if found:
                break
    if not found:
        return False
    E = Obj('mem', 'elem', h.stride)
    E.is_elem = True
    A = Obj('arr', 'grown', None)
    A.stride = h.stride
    A.count = None
    A.elem = E
    A.grow = True
    E.arr = A
    ps = found[1]
    if base is not None:
        src = S.heap[(base[0], base[1])]
        for i in range(n):
            m = Mem(S.id)
            lo = base[2] + i * h.stride
            m.cells = {off - lo: c for off, c in src.cells.items() if lo <= off < lo + h.stride}
            S.heap[(E, ps + (C(i),))] = m
    if base is not None:
        # pointers to its elements
        end = None if found[3] == 'std' else base[2] + n * h.stride

        def moved(v):
            if isinstance(v, Ptr) and v.obj is base[0] and v.params == base[1] and v.off.op == 'c' and \
                    v.off.a >= base[2] and (end is None or v.off.a <= end):
                return Ptr(A, ps, C(v.off.a - base[2]))
            return v
        for fr in S.frames:
            for r, v in list(fr.regs.items()):
                w = moved(v)
                if w is not v:
                    fr.regs[r] = w
    key = (found[0], ps)
    mm = S.heap[key].clone(S.id)
    off = found[2]
    mm.cells[off] = (8, Ptr(A, ps, ZERO))
    if found[3] == 'std':
        mm.cells[off + 8] = (8, Ptr(A, ps, C(n * h.stride)))
        mm.cells[off + 16] = (8, Ptr(A, ps, C(CAP * h.stride)))
    else:
        mm.cells[off + 16] = (8, C(CAP))
    S.heap[key] = mm
    ex.log('container viewed as unbounded array', found, 'elements', n, 'stride', h.stride)
    return True


def collect(ex, S, backs, depth, header, base, modified, elems, mark, k):
    for s in backs:
        loc = locations(s, depth, header)
        if len(s.caught) != len(S.caught):
            raise Unsupported('exception state changes in loop')
        if s.occ != S.occ:
            raise Unsupported('unindexed nondeterministic input inside a loop: %r' % (
                [x for x in s.occ if s.occ[x] != S.occ.get(x)],))
        for l, v in base.items():
            if l[0] == 'mem':
                m = s.heap.get(l[1])
                if m is None or not m.alive:
                    if not S.heap[l[1]].alive:
                        continue
                    raise Unsupported('loop body destroys an outer object %r' % (l[1],))
            w = loc.get(l)
            if not _same(v, w):
                modified.setdefault(l, [])
        for l in loc:
            if l not in base and l[0] == 'mem':
                key = l[1]
                if key in S.heap:
                    # new cell of an existing object
                    modified.setdefault(l, [])
                elif key[0].id <= mark and key[1]:
                    # new element instance of an existing array
                    e = key[1][-1]
                    pre = key[1][:-1]
                    e0 = subst(e, {k: ZERO}) if k is not None else e
                    if k is not None and add(e0, k) is not e:
                        raise Unsupported('element writes are not one per iteration')
                    if key[0] in elems and elems[key[0]][:2] != (pre, e0):
                        raise Unsupported('several element writes per iteration')
                    elems[key[0]] = (pre, e0, None)
                elif key[0].id <= mark and key[0].kind == 'glob':
                    modified.setdefault(l, [])
    for l in list(modified):
        if l[0] == 'mem' and l[1] not in S.heap:
            if l[1][0].kind == 'glob':
                # global first touched inside the loop: treat initial value as base
                del modified[l]
                continue
        modified[l] = [(getloc(S, depth, l), getloc(s, depth, l)) for s in backs]


def guess(ex, l, v0, pairs, force):
    vals = [b for a, b in pairs]
    if l in force:
        c = vals[0]
        if isinstance(v0, T) and isinstance(c, T) and v0.sort == 'I' and c.op == 'c' and all(v is c for v in vals) and (l, 'step') not in force:
            return ('step', c)      # one value at the first iteration, another one at all others
        if isinstance(v0, T) and v0.sort == 'I' or seqof(v0) is not None:
            return ('havoc',)
        return ('undef',)
    if v0 is None:
        return ('undef',)
    if any(v is None for v in vals):
        return ('undef',)
    if isinstance(v0, T) and v0.sort == 'I' and all(isinstance(v, T) and v.sort == 'I' for v in vals):
        ds = {sub(b, a) for a, b in pairs}
        if len(ds) == 1:
            d = ds.pop()
            if d.op == 'c':
                return ('lin', d)
        # one constant, or unchanged where a condition of the path makes it that constant
        cs = {b for b in vals if b.op == 'c'}
        if len(cs) == 1 and all(b.op == 'c' or b is a for a, b in pairs) and (l, 'step') not in force:
            return ('step', cs.pop())
        return ('havoc',) if l[0] in ('reg', 'mem') else ('undef',)
    if isinstance(v0, Ptr) and all(isinstance(v, Ptr) and v.obj is v0.obj and v.params == v0.params for v in vals):
        ds = {sub(b.off, a.off) for a, b in pairs}
        if len(ds) == 1:
            d = ds.pop()
            if d.op == 'c':
                return ('plin', d)
        return ('undef',)
    s0 = seqof(v0)
    if s0 is not None and all(seqof(v) is not None for v in vals):
        if all(strip_prefix(seqof(b), seqof(a)) is not None for a, b in pairs):
            return ('acc',)
        return ('havoc',)
    return ('undef',)


def havoc_value(ex, G, v0, l, pairs):
    vals = [b for a, b in pairs]
    nm = 'h!%d' % ex.newid()
    if isinstance(v0, T) and v0.sort == 'I':
        if l[0] == 'mem':
            w = l[3] * 8
        else:
            w = 64
        # sign of the representation is unknown: take the hull of what was seen when it is a bool-like flag
        lo, hi = -(1 << (w - 1)), (1 << w) - 1
        hs = [v0] + [v for v in vals if isinstance(v, T)]
        if all(x.op == 'c' and 0 <= x.a <= 1 for x in hs):
            lo, hi = 0, 1
        return uf(nm, G.stack, lo, hi)
    if isinstance(v0, Str):
        return Str(Seq.sym(nm, G.stack))
    if isinstance(v0, Seq):
        return Seq.sym(nm, G.stack)
    return UNDEF
