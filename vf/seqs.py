"""Sequences (of bytes, or of ghost trace events) as normal forms, and the equality proof procedure."""
import re
from terms import *
import terms as TM

LENMAX = 1 << 40


BIGS = {}


class BigDef:
    """Concat_{kappa<count} seg(kappa, params): alternatives (guard, Seq) indexed by the loop counter."""
    n = 0

    def __init__(self, params, kappa):
        BigDef.n += 1
        self.id = BigDef.n
        BIGS[self.id] = self
        self.params = params
        self.kappa = kappa
        self.alts = None     # [(guard, Seq)]
        self.facts = []      # facts holding for every iteration

    def at(self, params, j):
        m = dict(zip(self.params, params))
        m[self.kappa] = j
        return [(subst(g, m), s.subst(m)) for g, s in self.alts]


def _tq(x):
    """canonical term for anything used as an argument"""
    if isinstance(x, T):
        return x
    if isinstance(x, Seq):
        return x.qterm()
    if isinstance(x, int):
        return C(x)
    return mk('v', ('obj:' + repr(x),), 'I', -INF, INF)


def xsubst(x, m):
    if isinstance(x, T):
        return subst(x, m)
    if isinstance(x, tuple):
        return tuple(xsubst(y, m) for y in x)
    if hasattr(x, 'subst'):
        return x.subst(m)
    return x


def _xterms(x, out):
    if isinstance(x, T):
        out.append(x)
    elif isinstance(x, tuple):
        for y in x:
            _xterms(y, out)
    elif hasattr(x, 'terms'):
        out.extend(x.terms())


class Seq:
    __slots__ = ('p', '_q')

    def __init__(self, parts=()):
        self.p = tuple(parts)
        self._q = None

    # constructors
    @staticmethod
    def lit(b):
        return Seq((('lit', bytes(b)),)) if len(b) else EMPTY

    @staticmethod
    def unit(t):
        if t.op == 'c':
            return Seq.lit(bytes([t.a & 255]))
        return Seq((('u', t),))

    @staticmethod
    def sym(name, params=()):
        base = ('s', name, tuple(params))
        return Seq((('sub', base, ZERO, base_len(base)),))

    @staticmethod
    def event(tag, args):
        return Seq((('ev', tag, tuple(args)),))

    @staticmethod
    def fn(name, *args):
        return Seq((('fn', name, tuple(args)),))

    @staticmethod
    def big(d, params, count):
        if count is ZERO:
            return EMPTY
        return Seq((('big', d, tuple(params), count),))

    @staticmethod
    def ite(c, a, b):
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if a == b:
            return a
        return Seq((('ite', c, a, b),))

    def __add__(self, o):
        if not self.p:
            return o
        if not o.p:
            return self
        return Seq(_norm(self.p + o.p))

    def __eq__(self, o):
        return isinstance(o, Seq) and self.p == o.p

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.p)

    def __repr__(self):
        return 'Seq%r' % (self.p,)

    def subst(self, m):
        if not m or not self.p:
            return self
        out = []
        for a in self.p:
            k = a[0]
            if k == 'lit':
                out.append(a)
            elif k == 'u':
                out.extend(Seq.unit(subst(a[1], m)).p)
            elif k == 'sub':
                b = ('s', a[1][1], xsubst(a[1][2], m))
                out.append(('sub', b, subst(a[2], m), subst(a[3], m)))
            elif k == 'ev':
                out.append(('ev', a[1], xsubst(a[2], m)))
            elif k == 'fn':
                out.append(('fn', a[1], xsubst(a[2], m)))
            elif k == 'big':
                out.extend(Seq.big(a[1], xsubst(a[2], m), subst(a[3], m)).p)
            elif k == 'ite':
                out.extend(Seq.ite(subst(a[1], m), a[2].subst(m), a[3].subst(m)).p)
        return Seq(_norm(out))

    def terms(self):
        out = []
        for a in self.p:
            for x in a[1:]:
                _xterms(x, out)
            if a[0] == 'sub':
                _xterms(a[1][2], out)
        return out

    def qterm(self):
        if self._q is None:
            self._q = mk('q', (self,), 'Q')
        return self._q

    def length(self):
        return add(*[part_len(a) for a in self.p]) if self.p else ZERO

    def is_lit(self):
        return not self.p or (len(self.p) == 1 and self.p[0][0] == 'lit')

    def litval(self):
        return self.p[0][1] if self.p else b''

    def nth(self, i):
        """byte at index term i (assumed in range)"""
        if i.op == 'c':
            k = i.a
            for a in self.p:
                if a[0] == 'lit':
                    if k < len(a[1]):
                        return C(a[1][k])
                    k -= len(a[1])
                elif a[0] == 'u':
                    if k == 0:
                        return a[1]
                    k -= 1
                elif a[0] == 'sub' and (a[3].op == 'c'):
                    if k < a[3].a:
                        return base_at(a[1], add(a[2], C(k)))
                    k -= a[3].a
                elif a[0] == 'sub' and a is self.p[-1]:
                    return base_at(a[1], add(a[2], C(k)))
                else:
                    break
        elif len(self.p) == 1 and self.p[0][0] == 'sub':
            a = self.p[0]
            return base_at(a[1], add(a[2], i))
        elif len(self.p) == 1 and self.p[0][0] == 'lit' and len(self.p[0][1]) <= 512:
            r = C(self.p[0][1][-1])
            for j in range(len(self.p[0][1]) - 2, -1, -1):
                r = ite(eq(i, C(j)), C(self.p[0][1][j]), r)
            return r
        return uf('seq.at', (self.qterm(), i), 0, 255)


EMPTY = Seq()


def base_len(b):
    return uf(b[1] + '.len', [_tq(x) for x in b[2]], 0, LENMAX)


def base_at(b, i):
    return uf(b[1] + '.at', [_tq(x) for x in b[2]] + [i], 0, 255)


def part_len(a):
    k = a[0]
    if k == 'lit':
        return C(len(a[1]))
    if k in ('u', 'ev'):
        return ONE
    if k == 'sub':
        return a[3]
    if k == 'fn':
        if a[1] == 'fmt:i' and a[2][0] == EMPTY:
            # decimal text of a machine integer
            return uf('len:' + a[1], [_tq(x) for x in a[2]], 1, 20)
        if a[1] in ('fmt:i', 'fmt:b', 'fmt:d') and a[2][0].is_lit():
            # at most the width or the precision given, plus the digits of the number
            ns = [int(x) for x in re.findall(rb'\d+', a[2][0].litval())]
            return uf('len:' + a[1], [_tq(x) for x in a[2]], 0, 512 + sum(ns))
        if a[1].startswith('strftime:'):
            # one conversion
            return uf('len:' + a[1], [_tq(x) for x in a[2]], 0 if a[1][-1] in 'zZpPcx+' else 1, 40)
        if a[1] == 'threadname':
            return uf('len:' + a[1], [_tq(x) for x in a[2]], 0, 15)
        return uf('len:' + a[1], [_tq(x) for x in a[2]], 0, LENMAX)
    if k == 'big':
        d = a[1]
        ls = {s.length() for _, s in d.alts} if d.alts is not None else None
        if ls and len(ls) == 1:
            l = list(ls)[0]
            if l.op == 'c':
                return scale(a[3], l.a)
        return uf('len:big%d' % d.id, list(map(_tq, a[2])) + [a[3]], 0, LENMAX)
    if k == 'ite':
        return ite(a[1], a[2].length(), a[3].length())
    raise NotImplementedError(k)


def _norm(ps):
    out = []
    for a in ps:
        k = a[0]
        if k == 'sub' and a[3] is ZERO:
            continue
        if k == 'sub' and a[3] is ONE:
            a = ('u', base_at(a[1], a[2]))
            if a[1].op == 'c':
                a = ('lit', bytes([a[1].a]))
            k = a[0]
        if k == 'big' and a[3] is ZERO:
            continue
        if out:
            b = out[-1]
            if k == 'lit' and b[0] == 'lit':
                out[-1] = ('lit', b[1] + a[1])
                continue
            if k == 'sub' and b[0] == 'sub' and a[1] == b[1] and add(b[2], b[3]) is a[2]:
                out[-1] = ('sub', a[1], b[2], add(b[3], a[3]))
                continue
            # big(n) followed by the body at n  is recognised in the prover, not here
        out.append(a)
    return tuple(out)


def seqeq_term(s1, s2):
    """boolean term for s1 == s2, expanded when small"""
    if s1 == s2:
        return TRUE
    if s2.is_lit() and not s1.is_lit():
        s1, s2 = s2, s1
    if s1.is_lit() and s2.is_lit():
        return B(s1.litval() == s2.litval())
    # strip common literal / identical prefix
    p1, p2 = list(s1.p), list(s2.p)
    while p1 and p2:
        if p1[0] == p2[0]:
            p1.pop(0); p2.pop(0)
            continue
        if p1[0][0] == 'lit' and p2[0][0] == 'lit':
            x, y = p1[0][1], p2[0][1]
            n = min(len(x), len(y))
            if x[:n] != y[:n]:
                return FALSE
            p1[0:1] = [('lit', x[n:])] if x[n:] else []
            p2[0:1] = [('lit', y[n:])] if y[n:] else []
            continue
        break
    while p1 and p2 and p1[-1] == p2[-1]:
        p1.pop(); p2.pop()
    s1, s2 = Seq(_norm(p1)), Seq(_norm(p2))
    if s1 == s2:
        return TRUE
    l = eq(s1.length(), s2.length())
    if l is FALSE:
        return FALSE
    if s2.is_lit() and not s1.is_lit():
        s1, s2 = s2, s1
    if s1.is_lit():
        b = s1.litval()
        if len(b) == 0:
            return l
        if len(b) <= 64 and len(s2.p) == 1 and s2.p[0][0] in ('sub', 'u'):
            return and_(l, *[eq(s2.nth(C(i)), C(b[i])) for i in range(len(b))])
    if len(s1.p) == 1 and len(s2.p) == 1 and s1.p[0][0] == 'u' and s2.p[0][0] == 'u':
        return eq(s1.p[0][1], s2.p[0][1])
    if id(s1.qterm()) > id(s2.qterm()):
        s1, s2 = s2, s1
    return and_(l, mk('seqeq', (s1, s2), 'B'))


class Cex(Exception):
    def __init__(self, model, why):
        self.model = model
        self.why = why


class Unknown(Exception):
    pass


_sk = [0]


def fresh_index(tag, hi=LENMAX):
    _sk[0] += 1
    return var('sk!%s%d' % (tag, _sk[0]), 0, hi)


def prove_eq_any(x, y, prv):
    """prv(cond, assume=()) returns None if proved, raises Cex / Unknown otherwise"""
    if isinstance(x, T) and isinstance(y, T):
        if x is not y:
            if x.sort != y.sort:
                raise Unknown('sort mismatch')
            prv.prove(eq(x, y), 'value differs')
        return
    if isinstance(x, Seq) and isinstance(y, Seq):
        return prove_seq_eq(x, y, prv)
    if isinstance(x, tuple) and isinstance(y, tuple):
        if len(x) != len(y):
            prv.prove(FALSE, 'arity')
        for a, b in zip(x, y):
            prove_eq_any(a, b, prv)
        return
    if x == y:
        return
    if hasattr(x, 'eqterm'):
        return prv.prove(x.eqterm(y), 'object differs')
    prv.prove(FALSE, 'different values %r / %r' % (x, y))


def norm_big(a):
    """Concat_{j<n} [b(c + j)]  is the slice b[c, c+n)"""
    d = a[1]
    if d.alts is None or len(d.alts) != 1:
        return None
    q = d.alts[0][1].p
    if len(q) != 1 or q[0][0] != 'u':
        return None
    t = q[0][1]
    if t.op != 'f' or not t.a[0].endswith('.at') or t.a[0] == 'seq.at':
        return None
    idx = t.a[-1]
    if any(isinstance(x, T) and d.kappa in atoms(x) for x in t.a[1:-1]):
        return None
    c0, l = lin(idx)
    if l.get(d.kappa) != 1 or any(x is not d.kappa and d.kappa in atoms(x) for x in l):
        return None
    m = dict(zip(d.params, a[2]))
    m[d.kappa] = ZERO
    b = ('s', t.a[0][:-3], tuple(xsubst(x, m) for x in t.a[1:-1]))
    return ('sub', b, subst(idx, m), a[3])


def prove_seq_eq(s1, s2, prv, depth=0):
    p1, p2 = list(s1.p), list(s2.p)
    if depth > 12:
        raise Unknown('depth')
    p1 = [(norm_big(a) or a) if a[0] == 'big' else a for a in p1]
    p2 = [(norm_big(a) or a) if a[0] == 'big' else a for a in p2]
    while p1 or p2:
        if p1 and p2 and p1[0] == p2[0]:
            p1.pop(0); p2.pop(0)
            continue
        # also peel syntactically equal tails
        if p1 and p2 and p1[-1] == p2[-1]:
            p1.pop(); p2.pop()
            continue
        # empty symbolic parts
        done = False
        for p in (p1, p2):
            if p and p[0][0] in ('sub', 'big') and prv.holds(eq(p[0][3], ZERO)):
                p.pop(0)
                done = True
                break
            if p and p[0][0] == 'fn' and part_len(p[0]).lo <= 0 and prv.holds(eq(part_len(p[0]), ZERO)):
                p.pop(0)
                done = True
                break
        if done:
            continue
        for p in (p1, p2):
            if p and p[0][0] == 'ite':
                c = p[0][1]
                if prv.holds(c):
                    p[0:1] = list(p[0][2].p)
                elif prv.holds(not_(c)):
                    p[0:1] = list(p[0][3].p)
                else:
                    o = p2 if p is p1 else p1
                    for cc, sel in ((c, p[0][2]), (not_(c), p[0][3])):
                        q = prv.under(cc)
                        if q is not None:
                            a, b = Seq(_norm(list(sel.p) + p[1:])), Seq(_norm(o))
                            prove_seq_eq(a, b, q, depth + 1)
                    return
                done = True
                break
        if done:
            continue
        if not p1 or not p2:
            p = p1 or p2
            # all remaining parts must be empty
            a = p[0]
            if a[0] in ('lit', 'u', 'ev'):
                prv.prove(FALSE, 'extra element %r' % (a,))
                return
            if a[0] == 'big' and empty_elsewhere(a, prv, depth):
                p.pop(0)
                continue
            prv.prove(eq(part_len(a), ZERO), 'extra part %r' % (a,))
            p.pop(0)
            continue
        a, b = p1[0], p2[0]
        ka, kb = a[0], b[0]
        if ka == 'lit' and kb == 'lit':
            n = min(len(a[1]), len(b[1]))
            if a[1][:n] != b[1][:n]:
                prv.prove(FALSE, 'literal %r vs %r' % (a[1], b[1]))
                return
            p1[0:1] = [('lit', a[1][n:])] if a[1][n:] else []
            p2[0:1] = [('lit', b[1][n:])] if b[1][n:] else []
            continue
        if ka == 'ev' and kb == 'ev':
            if a[1] != b[1]:
                prv.prove(FALSE, 'event %s vs %s' % (a[1], b[1]))
                return
            prove_eq_any(a[2], b[2], prv)
            p1.pop(0); p2.pop(0)
            continue
        if ka == 'fn' and kb == 'fn':
            if a[1] != b[1]:
                prv.prove(FALSE, '%s vs %s' % (a[1], b[1]))
                return
            prove_eq_any(a[2], b[2], prv)
            p1.pop(0); p2.pop(0)
            continue
        if ka == 'big' and kb == 'big':
            prove_big(a, b, prv, depth)
            p1.pop(0); p2.pop(0)
            continue
        if ka == 'big' or kb == 'big':
            # unfold the first iteration when the count is provably positive
            p, q = (p1, a) if ka == 'big' else (p2, b)
            if prv.holds(ge(q[3], ONE)) and depth < 10:
                o = p2 if p is p1 else p1
                d = q[1]
                # unfolding at the end keeps indices simple: only do it when count is a small constant
                for g, s in d.at(q[2], ZERO):
                    qq = prv.under(g)
                    if qq is None:
                        continue
                    rest = shift_big(d, q[2], q[3])
                    prove_seq_eq(Seq(_norm(list(s.p) + list(rest.p) + p[1:])) if p is p1 else Seq(_norm(o)),
                                 Seq(_norm(o)) if p is p1 else Seq(_norm(list(s.p) + list(rest.p) + p[1:])),
                                 qq, depth + 1)
                return
            # a counter-example must have a model: ask whether the big can be empty
            prv.prove(FALSE, 'iterated part against %r' % (b if ka == 'big' else a,), definite=False)
            return
        if ka == 'sub' and kb == 'sub':
            if a[1] == b[1] or (a[1][1] == b[1][1] and len(a[1][2]) == len(b[1][2]) and all(
                    prv.holds(eq(_tq(x), _tq(y))) for x, y in zip(a[1][2], b[1][2]))):
                if prv.holds(eq(a[2], b[2])):
                    if prv.holds(eq(a[3], b[3])):
                        p1.pop(0); p2.pop(0)
                        continue
                    if prv.holds(le(a[3], b[3])):
                        p1.pop(0)
                        p2[0] = ('sub', b[1], add(b[2], a[3]), sub(b[3], a[3]))
                        continue
                    if prv.holds(le(b[3], a[3])):
                        p2.pop(0)
                        p1[0] = ('sub', a[1], add(a[2], b[3]), sub(a[3], b[3]))
                        continue
                    # cases
                    for cc in (le(a[3], b[3]), lt(b[3], a[3])):
                        q = prv.under(cc)
                        if q is not None:
                            prove_seq_eq(Seq(_norm(p1)), Seq(_norm(p2)), q, depth + 1)
                    return
            elif len(p1) == 1 and len(p2) == 1:
                t = seqeq_term(Seq((a,)), Seq((b,)))
                prv.prove(t, 'strings differ')
                return
        # explode first character
        handled = False
        for p in (p1, p2):
            x = p[0]
            if x[0] == 'sub':
                if prv.holds(ge(x[3], ONE)):
                    c = base_at(x[1], x[2])
                    p[0:1] = [('u', c)] + ([('sub', x[1], add(x[2], ONE), sub(x[3], ONE))]
                                          if not sub(x[3], ONE) is ZERO else [])
                    handled = True
                    break
                else:
                    for cc in (eq(x[3], ZERO), ge(x[3], ONE)):
                        q = prv.under(cc)
                        if q is not None:
                            if depth > 8:
                                raise Unknown('case depth')
                            prove_seq_eq(Seq(_norm(p1)), Seq(_norm(p2)), q, depth + 1)
                    return
        if handled:
            continue
        if ka in ('u', 'lit') and kb in ('u', 'lit'):
            def head(p):
                x = p[0]
                if x[0] == 'u':
                    p.pop(0)
                    return x[1]
                c = x[1][0]
                p[0:1] = [('lit', x[1][1:])] if x[1][1:] else []
                return C(c)
            x, y = head(p1), head(p2)
            prv.prove(eq(x, y), 'byte differs')
            continue
        prv.prove(FALSE, 'shape %r vs %r' % (a, b), definite=False)
        return


def shift_big(d, params, count):
    """Concat_{1<=kappa<count}"""
    key = ('shift', d.id)
    nd = _shift.get(d.id)
    if nd is None:
        nd = BigDef(d.params, d.kappa)
        m = {d.kappa: add(d.kappa, ONE)}
        nd.alts = [(subst(g, m), s.subst(m)) for g, s in d.alts]
        _shift[d.id] = nd
    return Seq.big(nd, params, sub(count, ONE))


_shift = {}


def empty_elsewhere(a, prv, depth):
    """is the iterated part equal to another one that is known to be empty?"""
    seen = set()
    for c in prv.pc:
        for t in atoms(c):
            if t.op == 'f' and t.a[0].startswith('len:big') and t not in seen:
                seen.add(t)
                d = BIGS.get(int(t.a[0][7:]))
                if d is None or d is a[1] or depth > 8 or not prv.holds(eq(t, ZERO)):
                    continue
                try:
                    prove_big(('big', d, tuple(t.a[1:-1]), t.a[-1]), a, prv, depth + 1)
                    return True
                except (Cex, Unknown):
                    pass
    return False


def prove_big(a, b, prv, depth):
    d1, d2 = a[1], b[1]
    if not prv.holds(eq(a[3], b[3])):
        prv.prove(eq(a[3], b[3]), 'iteration counts differ')
    if d1 is d2:
        try:
            prove_eq_any(a[2], b[2], prv)
            return
        except (Cex, Unknown):
            pass
    j = fresh_index('j')
    q = prv.under(and_(le(ZERO, j), lt(j, a[3])))
    if q is None:
        return
    if d1.alts is None or d2.alts is None:
        raise Unknown('incomplete summary')
    x = d1.at(a[2], j)
    y = d2.at(b[2], j)
    q.index(j)
    for g1, s1 in x:
        q1 = q.under(g1)
        if q1 is None:
            continue
        for g2, s2 in y:
            q2 = q1.under(g2)
            if q2 is None:
                continue
            prove_seq_eq(s1, s2, q2, depth + 1)
