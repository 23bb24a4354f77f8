"""Hash-consed integer / boolean terms in linear normal form, and their translation to SMT (z3 API / SMT-LIB2)."""
import z3

INF = float('inf')


class T:
    __slots__ = ('op', 'a', 'sort', 'id', 'lo', 'hi', 'fv', '_z', '__weakref__')

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return show(self)


_tab = {}
_cnt = [0]


def mk(op, a, sort, lo=-INF, hi=INF):
    k = (op, a, sort)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.sort = sort
        _cnt[0] += 1
        t.id = _cnt[0]
        t.lo = lo
        t.hi = hi
        t.fv = None
        t._z = None
        _tab[k] = t
    return t


_c = {}


def C(v):
    t = _c.get(v)
    if t is None:
        t = mk('c', v, 'I', v, v)
        _c[v] = t
    return t


ZERO = C(0)
ONE = C(1)
TRUE = mk('true', (), 'B')
FALSE = mk('false', (), 'B')


def B(b):
    return TRUE if b else FALSE


def var(name, lo=-INF, hi=INF, sort='I'):
    return mk('v', (name,), sort, lo, hi)


def uf(name, args, lo=-INF, hi=INF, sort='I'):
    if not args:
        return var(name, lo, hi, sort)
    return mk('f', (name,) + tuple(args), sort, lo, hi)


# linear terms ----------------------------------------------------------------
def lin(t):
    """-> (const, dict atom->coef)"""
    if t.op == 'c':
        return t.a, {}
    if t.op == '+':
        return t.a[0], dict(t.a[1])
    return 0, {t: 1}


def mklin(c, d):
    items = [(k, v) for k, v in d.items() if v != 0]
    if not items:
        return C(c)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    items.sort(key=lambda kv: kv[0].id)
    lo = hi = c
    for k, v in items:
        if v > 0:
            lo += v * k.lo
            hi += v * k.hi
        else:
            lo += v * k.hi
            hi += v * k.lo
    return mk('+', (c, tuple(items)), 'I', lo, hi)


def add(*ts):
    c = 0
    d = {}
    for t in ts:
        if t.op == 'c':
            c += t.a
        elif t.op == '+':
            c += t.a[0]
            for k, v in t.a[1]:
                d[k] = d.get(k, 0) + v
        else:
            d[t] = d.get(t, 0) + 1
    return mklin(c, d)


def scale(t, n):
    if n == 1:
        return t
    if n == 0:
        return ZERO
    if t.op == 'c':
        return C(t.a * n)
    c, d = lin(t)
    return mklin(c * n, {k: v * n for k, v in d.items()})


def sub(a, b):
    return add(a, scale(b, -1))


def neg(a):
    return scale(a, -1)


def mul(a, b):
    if a.op == 'c':
        return scale(b, a.a)
    if b.op == 'c':
        return scale(a, b.a)
    if a.op == 'ite' and (a.a[1].op == 'c' and a.a[2].op == 'c'):
        return ite(a.a[0], mul(a.a[1], b), mul(a.a[2], b))
    if b.op == 'ite' and (b.a[1].op == 'c' and b.a[2].op == 'c'):
        return ite(b.a[0], mul(a, b.a[1]), mul(a, b.a[2]))
    if a.id > b.id:
        a, b = b, a
    ps = [x * y if not (x == 0 or y == 0) else 0 for x in (a.lo, a.hi) for y in (b.lo, b.hi)]
    return mk('*', (a, b), 'I', min(ps), max(ps))


def _fl(x, n):
    if x in (INF, -INF):
        return x
    return x // n


def div(a, n):
    """floor division, n positive python int"""
    if n == 1:
        return a
    if a.op == 'c':
        return C(a.a // n)
    if a.lo != -INF and a.hi != INF and a.lo // n == a.hi // n:
        return C(int(a.lo // n))
    c, d = lin(a)
    q = {}
    r = {}
    for k, v in d.items():
        if v % n == 0:
            q[k] = v // n
        else:
            r[k] = v
    if q or c // n:
        rem = mklin(c % n, r)
        if rem.op == 'c' or (rem.lo >= 0 and rem.hi < n):
            return mklin(c // n, q)
        if q or not (0 <= c < n):
            return add(mklin(c // n, q), div(rem, n))
    if a.op == 'div':
        return div(a.a[0], a.a[1] * n)
    if a.op == 'ite':
        return ite(a.a[0], div(a.a[1], n), div(a.a[2], n))
    return mk('div', (a, n), 'I', _fl(a.lo, n), _fl(a.hi, n))


def mod(a, n):
    """euclidean remainder, n positive python int"""
    if n == 1:
        return ZERO
    if a.op == 'c':
        return C(a.a % n)
    if a.lo >= 0 and a.hi < n:
        return a
    if a.lo != -INF and a.hi != INF and a.lo // n == a.hi // n:
        return add(a, C(-n * int(a.lo // n)))
    c, d = lin(a)
    nd = {}
    for k, v in d.items():
        w = v % n
        if w:
            if k.op == 'mod' and k.a[1] % n == 0:
                # coef * (x mod m) with n | m  ->  coef * x
                c2, d2 = lin(k.a[0])
                c += w * c2
                for k2, v2 in d2.items():
                    nd[k2] = nd.get(k2, 0) + w * v2
            else:
                # prefer small negative coefficients
                nd[k] = nd.get(k, 0) + w
    nd = {k: ((v % n) if (v % n) <= n // 2 else (v % n) - n) for k, v in nd.items()}
    c = c % n
    t = mklin(c, nd)
    if t.op == 'c':
        return C(t.a % n)
    if t.lo >= 0 and t.hi < n:
        return t
    if t.lo != -INF and t.hi != INF and t.lo // n == t.hi // n:
        return add(t, C(-n * int(t.lo // n)))
    if t.op == 'ite':
        return ite(t.a[0], mod(t.a[1], n), mod(t.a[2], n))
    return mk('mod', (t, n), 'I', 0, n - 1)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == 'B':
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return not_(c)
        if a is TRUE:
            return or_(c, b)
        if a is FALSE:
            return and_(not_(c), b)
        if b is TRUE:
            return or_(not_(c), a)
        if b is FALSE:
            return and_(c, a)
        return or_(and_(c, a), and_(not_(c), b))
    if c.op == 'not':
        return ite(c.a[0], b, a)
    return mk('ite', (c, a, b), a.sort, min(a.lo, b.lo), max(a.hi, b.hi))


# booleans ----------------------------------------------------------------------
def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.a[0]
    if a.op == 'le':  # lin <= 0   ->  lin >= 1 -> 1 - lin <= 0
        return le0(sub(ONE, a.a[0]))
    return mk('not', (a,), 'B')


def and_(*xs):
    out = []
    seen = set()
    for x in xs:
        ys = x.a if x.op == 'and' else (x,)
        for y in ys:
            if y is FALSE:
                return FALSE
            if y is TRUE or y in seen:
                continue
            seen.add(y)
            out.append(y)
    for y in out:
        if not_(y) in seen:
            return FALSE
    if len(out) > 1:
        # a single-atom equation decides the comparisons on the same atom
        known = {}
        for y in out:
            if y.op == 'eq':
                t = y.a[0]
                if t.op in ('v', 'f'):
                    known[t] = 0
                elif t.op == '+' and len(t.a[1]) == 1 and t.a[0] % t.a[1][0][1] == 0:
                    known[t.a[1][0][0]] = -t.a[0] // t.a[1][0][1]
        if known:
            nout = []
            for y in out:
                t = y.a[0] if y.op == 'le' else y.a[0].a[0] if y.op == 'not' and y.a[0].op == 'eq' and y.a[0].a[0].sort == 'I' else None
                if t is not None and (t in known or t.op == '+' and len(t.a[1]) == 1 and t.a[1][0][0] in known):
                    v = known[t] if t in known else t.a[0] + t.a[1][0][1] * known[t.a[1][0][0]]
                    if (v <= 0) if y.op == 'le' else v != 0:
                        continue
                    return FALSE
                nout.append(y)
            out = nout
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk('and', tuple(out), 'B')


def or_(*xs):
    out = []
    seen = set()
    for x in xs:
        ys = x.a if x.op == 'or' else (x,)
        for y in ys:
            if y is TRUE:
                return TRUE
            if y is FALSE or y in seen:
                continue
            seen.add(y)
            out.append(y)
    for y in out:
        if not_(y) in seen:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk('or', tuple(out), 'B')


def implies(a, b):
    return or_(not_(a), b)


def or_cases(gs, limit=64):
    """disjunction of path conditions, simplified as a set of cubes (case splits that cover everything disappear)"""
    cubes = []
    for g in gs:
        if g is TRUE:
            return TRUE
        if g is FALSE:
            continue
        cs = [frozenset()]
        for l in (g.a if g.op == 'and' else (g,)):
            if l.op == 'or' and len(l.a) * len(cs) <= 8 and all(y.op in ('eq', 'not', 'le') for y in l.a):
                cs = [c | {y} for c in cs for y in l.a]
            else:
                cs = [c | {l} for c in cs]
        cubes += cs
    if len(cubes) > limit:
        return or_(*gs)
    cubes = [c for c in cubes if not any(not_(l) in c for l in c)]
    changed = True
    while changed:
        changed = False
        cubes = list(dict.fromkeys(cubes))
        cubes = [c for c in cubes if not any(d < c for d in cubes)]
        for i, c in enumerate(cubes):
            for l in c:
                r = c - {l}
                n = not_(l)
                if any(n in d and (d - {n}) <= r for d in cubes):
                    cubes[i] = r
                    changed = True
                    break
            if changed:
                break
    order = {}
    for g in gs:
        for l in (g.a if g.op == 'and' else (g,)):
            for y in ((l,) + (l.a if l.op == 'or' else ())):
                order.setdefault(y, len(order))
    if not cubes:
        return FALSE
    common = frozenset.intersection(*cubes)
    key = lambda l: order.get(l, 1 << 30)
    return and_(*sorted(common, key=key), or_(*[and_(*sorted(c - common, key=key)) for c in cubes]))


def mklin2(c, n, t):
    return add(C(c), mul(C(n), t))


def le0(t):
    """t <= 0"""
    if t.hi <= 0:
        return TRUE
    if t.lo > 0:
        return FALSE
    if t.op == 'ite':
        a = le0(t.a[1]); b = le0(t.a[2])
        if a.op in ('true', 'false') or b.op in ('true', 'false'):
            return ite(t.a[0], a, b)
    if t.op == '+' and len(t.a[1]) == 1 and t.a[1][0][0].op == 'ite':
        c, ((x, n),) = t.a
        a = le0(mklin2(c, n, x.a[1])); b = le0(mklin2(c, n, x.a[2]))
        if a.op in ('true', 'false') or b.op in ('true', 'false'):
            return ite(x.a[0], a, b)
    if t.op == '+':
        c, items = t.a
        import math
        g = 0
        for _, v in items:
            g = math.gcd(g, v)
        if g > 1:
            # g*x + c <= 0  ->  x <= floor(-c/g)
            return le0(mklin(-((-c) // g), {k: v // g for k, v in items}))
    return mk('le', (t,), 'B')


def le(a, b):
    return le0(sub(a, b))


def lt(a, b):
    return le0(add(sub(a, b), ONE))


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def eq(a, b):
    if a is b:
        return TRUE
    if a.sort == 'B':
        return or_(and_(a, b), and_(not_(a), not_(b)))
    if a.sort != 'I':
        if a.id > b.id:
            a, b = b, a
        return mk('eqx', (a, b), 'B')
    t = sub(a, b)
    return eq0(t)


def eq0(t):
    if t.op == 'c':
        return B(t.a == 0)
    if t.lo > 0 or t.hi < 0:
        return FALSE
    if t.op == 'ite':
        a = eq0(t.a[1]); b = eq0(t.a[2])
        if a.op in ('true', 'false') or b.op in ('true', 'false'):
            return ite(t.a[0], a, b)
    if t.op == '+' and len(t.a[1]) == 1 and t.a[1][0][0].op == 'ite':
        c, ((x, n),) = t.a
        a = eq0(mklin2(c, n, x.a[1])); b = eq0(mklin2(c, n, x.a[2]))
        if a.op in ('true', 'false') or b.op in ('true', 'false'):
            return ite(x.a[0], a, b)
    if t.op == '+':
        c, items = t.a
        import math
        g = 0
        for _, v in items:
            g = math.gcd(g, v)
        if c % g:
            return FALSE
        if len(items) == 1 and items[0][0].op == 'ite':
            it = items[0][0]
            k = items[0][1]
            a = eq0(add(C(c), scale(it.a[1], k))); b = eq0(add(C(c), scale(it.a[2], k)))
            if a.op in ('true', 'false') or b.op in ('true', 'false'):
                return ite(it.a[0], a, b)
        if items[0][1] < 0:
            t = mklin(-c // g, {k: -v // g for k, v in items})
        elif g > 1:
            t = mklin(c // g, {k: v // g for k, v in items})
    return mk('eq', (t,), 'B')


def ne(a, b):
    return not_(eq(a, b))


# machine interpretation -----------------------------------------------------------
def uns(t, w):
    return mod(t, 1 << w)


def sgn(t, w):
    h = 1 << (w - 1)
    if t.lo >= -h and t.hi < h:
        return t
    if t.lo >= 0 and t.hi < (1 << w):
        # try simple case
        if t.hi < h:
            return t
    return sub(mod(add(t, C(h)), 1 << w), C(h))


# substitution --------------------------------------------------------------------
def subst(t, m, cache=None):
    """m: dict atom->term"""
    if not m:
        return t
    if cache is None:
        cache = {}
    return _subst(t, m, cache)


def _subst(t, m, cache):
    r = m.get(t)
    if r is not None:
        return r
    op = t.op
    if op in ('c', 'v', 'true', 'false'):
        return t
    r = cache.get(t)
    if r is not None:
        return r
    a = t.a
    if op == '+':
        r = add(C(a[0]), *[scale(_subst(k, m, cache), v) for k, v in a[1]])
    elif op == '*':
        r = mul(_subst(a[0], m, cache), _subst(a[1], m, cache))
    elif op == 'div':
        r = div(_subst(a[0], m, cache), a[1])
    elif op == 'mod':
        r = mod(_subst(a[0], m, cache), a[1])
    elif op == 'f':
        na = tuple(_subst(x, m, cache) if isinstance(x, T) else (x.subst(m) if hasattr(x, 'subst') else x) for x in a[1:])
        r = mk('f', (a[0],) + na, t.sort, t.lo, t.hi)
    elif op == 'ite':
        r = ite(_subst(a[0], m, cache), _subst(a[1], m, cache), _subst(a[2], m, cache))
    elif op == 'not':
        r = not_(_subst(a[0], m, cache))
    elif op == 'and':
        r = and_(*[_subst(x, m, cache) for x in a])
    elif op == 'or':
        r = or_(*[_subst(x, m, cache) for x in a])
    elif op == 'le':
        r = le0(_subst(a[0], m, cache))
    elif op == 'eq':
        r = eq0(_subst(a[0], m, cache))
    elif op == 'eqx':
        r = eq(_subst(a[0], m, cache), _subst(a[1], m, cache))
    elif op == 'forall':
        # a = (bound var, lo, hi, body)
        r = forall(a[0], _subst(a[1], m, cache), _subst(a[2], m, cache), _subst(a[3], m, cache))
    elif op == 'q':
        r = a[0].subst(m).qterm()
    elif op == 'seqeq':
        from seqs import seqeq_term
        r = seqeq_term(a[0].subst(m), a[1].subst(m))
    else:
        raise NotImplementedError(op)
    cache[t] = r
    return r


def forall(v, lo, hi, body):
    """forall integer v in [lo,hi): body"""
    if body is TRUE:
        return TRUE
    if sub(hi, lo).hi <= 0:
        return TRUE
    return mk('forall', (v, lo, hi, body), 'B')


_atomsets = {}


def atomset(t):
    r = _atomsets.get(t)
    if r is None:
        r = _atomsets[t] = frozenset(atoms(t))
    return r


def atoms(t, acc=None, seen=None):
    """all sub-terms"""
    if acc is None:
        acc = []
        seen = set()
    if t in seen:
        return acc
    seen.add(t)
    acc.append(t)
    op = t.op
    a = t.a
    if op == '+':
        for k, _ in a[1]:
            atoms(k, acc, seen)
    elif op in ('c', 'v', 'true', 'false'):
        pass
    elif op in ('div', 'mod'):
        atoms(a[0], acc, seen)
    elif op == 'f':
        for x in a[1:]:
            if isinstance(x, T):
                atoms(x, acc, seen)
    elif op in ('q', 'seqeq'):
        for s in a:
            for x in s.terms():
                atoms(x, acc, seen)
    elif op == 'forall':
        for x in a[1:]:
            atoms(x, acc, seen)
    else:
        for x in a:
            if isinstance(x, T):
                atoms(x, acc, seen)
    return acc


def show(t):
    op = t.op
    if op == 'c':
        return str(t.a)
    if op == 'v':
        return t.a[0]
    if op == 'f':
        return '%s(%s)' % (t.a[0], ','.join(map(str, t.a[1:])))
    if op == '+':
        s = [('%s' % k if v == 1 else '%d*%s' % (v, k)) for k, v in t.a[1]]
        if t.a[0]:
            s.append(str(t.a[0]))
        return '(' + ' + '.join(s) + ')'
    if op == 'le':
        return '(%s <= 0)' % (t.a[0],)
    if op == 'eq':
        return '(%s == 0)' % (t.a[0],)
    if op in ('true', 'false'):
        return op
    if op == 'forall':
        return 'forall %s in [%s,%s): %s' % t.a
    return '(%s %s)' % (op, ' '.join(map(str, t.a)))


# z3 ----------------------------------------------------------------------------
_QS = z3.DeclareSort('Q')
_fd = {}


def _zs(sort):
    return {'I': z3.IntSort(), 'B': z3.BoolSort(), 'Q': _QS, 'D': z3.IntSort()}[sort]


def z(t):
    r = t._z
    if r is not None:
        return r
    op = t.op
    a = t.a
    if op == 'c':
        r = z3.IntVal(a)
    elif op == 'v':
        r = z3.Const(a[0], _zs(t.sort))
    elif op == 'f':
        key = (a[0], tuple(x.sort for x in a[1:]), t.sort)
        f = _fd.get(key)
        if f is None:
            f = z3.Function(a[0], *([_zs(x.sort) for x in a[1:]] + [_zs(t.sort)]))
            _fd[key] = f
        r = f(*[z(x) for x in a[1:]])
    elif op == '+':
        r = z3.Sum([z(k) * v if v != 1 else z(k) for k, v in a[1]] + ([z3.IntVal(a[0])] if a[0] else []))
    elif op == '*':
        r = z(a[0]) * z(a[1])
    elif op == 'div':
        r = z(a[0]) / z3.IntVal(a[1])
    elif op == 'mod':
        r = z(a[0]) % z3.IntVal(a[1])
    elif op == 'ite':
        r = z3.If(z(a[0]), z(a[1]), z(a[2]))
    elif op == 'not':
        r = z3.Not(z(a[0]))
    elif op == 'and':
        r = z3.And([z(x) for x in a])
    elif op == 'or':
        r = z3.Or([z(x) for x in a])
    elif op == 'le':
        r = z(a[0]) <= 0
    elif op == 'eq':
        r = z(a[0]) == 0
    elif op == 'eqx':
        r = z(a[0]) == z(a[1])
    elif op == 'true':
        r = z3.BoolVal(True)
    elif op == 'false':
        r = z3.BoolVal(False)
    elif op == 'q':
        r = z3.Const('q!%d' % t.id, _QS)
    elif op == 'seqeq':
        r = z(a[0].qterm()) == z(a[1].qterm())
    elif op == 'forall':
        v = z(a[0])
        r = z3.ForAll([v], z3.Implies(z3.And(z(a[1]) <= v, v < z(a[2])), z(a[3])))
    else:
        raise NotImplementedError(op)
    t._z = r
    return r
