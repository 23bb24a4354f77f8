"""Symbolic state: values, memory objects, path condition, incremental prover."""
import time
import subprocess
import tempfile
import os
import z3
from terms import *
import terms as TM
from seqs import *
import seqs as SQ


class Unsupported(Exception):
    """outside the verifier's reach (never a violation)"""


class Budget(Exception):
    pass


class Violation(Exception):
    def __init__(self, name, why, model, state):
        self.name = name; self.why = why; self.model = model; self.state = state


# ------------------------------------------------------------------ objects
class Obj:
    n = 0

    def __init__(self, kind, name='', size=None, **kw):
        Obj.n += 1
        self.id = Obj.n
        self.kind = kind
        self.name = name
        self.size = size      # python int or None
        self.__dict__.update(kw)

    def __repr__(self):
        return '<%s#%d %s>' % (self.kind, self.id, self.name)


class FnObj(Obj):
    pass


class Ptr:
    __slots__ = ('obj', 'params', 'off')

    def __init__(self, obj, params, off):
        self.obj = obj
        self.params = params
        self.off = off

    def plus(self, t):
        if t is ZERO:
            return self
        return Ptr(self.obj, self.params, add(self.off, t))

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.obj is o.obj and self.params == o.params and self.off is o.off

    def __hash__(self):
        return hash((id(self.obj), self.params, self.off))

    def __repr__(self):
        return '&%r%s+%s' % (self.obj, list(self.params) if self.params else '', self.off)

    def subst(self, m):
        if not m:
            return self
        np = tuple(subst(x, m) for x in self.params)
        o = self.obj
        return Ptr(o, np, subst(self.off, m))

    def terms(self):
        return list(self.params) + [self.off]

    def eqterm(self, o):
        if not isinstance(o, Ptr) or self.obj is not o.obj:
            return FALSE
        return and_(eq(self.off, o.off), *[eq(a, b) for a, b in zip(self.params, o.params)])


NULL = Ptr(None, (), ZERO)


class Blob:
    """a character array holding a NUL-terminated text of symbolic length; what follows it is indeterminate"""
    __slots__ = ('s',)

    def __init__(self, s):
        self.s = s

    def subst(self, m):
        s = self.s.subst(m)
        return self if s is self.s else Blob(s)

    def __eq__(self, o):
        return isinstance(o, Blob) and self.s == o.s

    def __hash__(self):
        return hash(self.s)

    def terms(self):
        return self.s.terms()


class Str:
    """ghost content of a std::string / writer object; ver changes on every mutation"""
    __slots__ = ('s', 'ver')
    n = 0

    def __init__(self, s, ver=None):
        self.s = s
        if ver is None:
            Str.n += 1
            ver = Str.n
        self.ver = ver

    def subst(self, m):
        s = self.s.subst(m)
        return self if s is self.s else Str(s, self.ver)

    def __eq__(self, o):
        return isinstance(o, Str) and self.s == o.s

    def __hash__(self):
        return hash(self.s)

    def __repr__(self):
        return 'Str(%r)' % (self.s,)


class Ghost:
    """generic ghost value of a modelled library object"""
    __slots__ = ('kind', 'a')

    def __init__(self, kind, *a):
        self.kind = kind
        self.a = a

    def subst(self, m):
        return Ghost(self.kind, *[xsubst(x, m) for x in self.a])

    def __eq__(self, o):
        return isinstance(o, Ghost) and self.kind == o.kind and self.a == o.a

    def __hash__(self):
        return hash((self.kind, self.a))

    def __repr__(self):
        return 'Ghost(%s,%r)' % (self.kind, self.a)


class Undef:
    __slots__ = ()

    def __repr__(self):
        return 'undef'

    def subst(self, m):
        return self


UNDEF = Undef()


def vsubst(v, m):
    if isinstance(v, T):
        return subst(v, m)
    if isinstance(v, (list, tuple)):
        return tuple(vsubst(x, m) for x in v)
    return v.subst(m)


class Mem:
    """contents of one object instance"""
    __slots__ = ('cells', 'owner', 'alive', 'zero')

    def __init__(self, owner):
        self.cells = {}
        self.owner = owner
        self.alive = True
        self.zero = False   # unwritten bytes read as zero

    def clone(self, owner):
        m = Mem(owner)
        m.cells = dict(self.cells)
        m.alive = self.alive
        m.zero = self.zero
        return m


class Frame:
    __slots__ = ('fn', 'blk', 'ip', 'regs', 'prev', 'ret', 'loops', 'exc', 'onret', 'allocas', 'id', 'noloop', 'soft')
    n = 0

    def __init__(self, fn):
        self.fn = fn
        self.blk = fn.entry
        self.ip = 0
        self.regs = {}
        self.prev = None
        self.ret = None       # (resname, normal, unwind) for caller
        self.loops = {}
        self.soft = None
        self.exc = None
        self.onret = None
        self.allocas = []
        Frame.n += 1
        self.id = Frame.n

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn = self.fn; f.blk = self.blk; f.ip = self.ip
        f.regs = dict(self.regs)
        f.prev = self.prev; f.ret = self.ret
        f.loops = dict(self.loops)
        f.soft = self.soft
        f.exc = self.exc; f.onret = self.onret
        f.allocas = list(self.allocas)
        f.id = self.id
        return f


_sid = [0]


class State:
    def __init__(self, ex):
        _sid[0] += 1
        self.id = _sid[0]
        self.ex = ex
        self.frames = []
        self.heap = {}
        self.segs = {}       # obj -> list of (params_prefix, lo, hi, kappa, [(guard, {..cells})], elemObj)
        self.choice = {}
        self.pc = []
        self.pcset = {}
        self.unchecked = False  # a case was entered without asking the solver whether it is possible
        self.triggered = frozenset()
        self.derived = set()   # instances of quantified facts
        self.foralls = []
        self.indices = []
        self.trace = EMPTY
        self.expect = EMPTY
        self.inputs = {}
        self.occ = {}
        self.stack = ()      # current loop/generator index parameters
        self.caught = []
        self.freshn = {}
        self.ranked = frozenset()
        self.unrolled = 0
        self.note = ()
        self.bnd = {}
        self.stdstream = None
        self.initguard = 0   # static locals being initialised: no other thread sees them
        self.guards = None   # what threads share: objects, and for every word used the locks held at all uses, if written, where
        self.locks = ((), 0, None, None)   # held (mutex, acquisition), acquisitions, locks of all output since the last check, of all checks

    def copy(self):
        s = State.__new__(State)
        _sid[0] += 1
        s.id = _sid[0]
        s.ex = self.ex
        s.frames = [f.copy() for f in self.frames]
        s.heap = dict(self.heap)
        s.segs = dict(self.segs)
        s.choice = dict(self.choice)
        s.pc = list(self.pc)
        s.pcset = dict(self.pcset)
        s.unchecked = self.unchecked
        s.derived = set(self.derived)
        s.triggered = self.triggered
        s.foralls = list(self.foralls)
        s.indices = list(self.indices)
        s.trace = self.trace
        s.expect = self.expect
        s.inputs = dict(self.inputs)
        s.occ = dict(self.occ)
        s.stack = self.stack
        s.caught = list(self.caught)
        s.freshn = dict(self.freshn)
        s.ranked = self.ranked
        s.unrolled = self.unrolled
        s.note = self.note
        s.bnd = dict(self.bnd)
        s.locks = self.locks
        s.guards = self.guards
        s.initguard = self.initguard
        s.stdstream = self.stdstream
        # both states lose ownership of shared memory
        _sid[0] += 1
        self.id = _sid[0]
        return s

    # ---- path condition
    def assume(self, c):
        """returns False when the state became syntactically infeasible"""
        if c is TRUE:
            return True
        if c is FALSE:
            self.pc.append(FALSE)
            return False
        if c.op == 'and':
            ok = True
            for x in c.a:
                ok = self.assume(x) and ok
            return ok
        v = self.pcset.get(c)
        if v is False:
            self.pc.append(FALSE)
            return False
        if v is True:
            return True
        n = not_(c)
        self.pcset[c] = True
        self.pcset[n] = False
        self.pc.append(c)
        if c.op == 'le' or c.op == 'eq':
            self._bound(c)
        if c.op == 'forall':
            self.foralls.append(c)
            for i in list(self.indices):
                self._inst(c, i)
        return True

    def _bound(self, c):
        t = c.a[0]
        k0, d = lin(t)
        if len(d) == 1:
            (a, v), = d.items()
            lo, hi = self.bnd.get(a, (a.lo, a.hi))
            if c.op == 'eq':
                if (-k0) % v == 0:
                    lo = hi = (-k0) // v
            elif v > 0:   # v*a + k0 <= 0
                hi = min(hi, (-k0) // v)
            else:
                # -|v| a <= -k0 -> a >= k0/|v|
                lo = max(lo, -((-k0) // (-v)) if k0 % (-v) else k0 // (-v))
            self.bnd[a] = (lo, hi)

    def rng(self, t):
        """interval of t using path bounds"""
        c, d = lin(t)
        lo = hi = c
        for k, v in d.items():
            l, h = self.bnd.get(k, (k.lo, k.hi))
            if k.op in ('mod', 'ite', 'div') and k not in self.bnd:
                l, h = k.lo, k.hi
            if v > 0:
                lo += v * l; hi += v * h
            else:
                lo += v * h; hi += v * l
        return lo, hi

    def _inst(self, f, i):
        v, lo, hi, body = f.a
        b = subst(body, {v: i})
        n = len(self.pc)
        self.assume(implies(and_(le(lo, i), lt(i, hi)), b))
        self.derived.update(self.pc[n:])

    def trigger(self, b):
        """a byte of an input was read: what is known of every such byte holds for this one"""
        name, arg = b.a[0], b.a[-1]
        for f in list(self.foralls):
            v, lo, hi, body = f.a
            for x in atomset(body):
                if x.op == 'f' and x.a[0] == name and len(x.a) == len(b.a) and v in atomset(x.a[-1]):
                    c0, d = lin(x.a[-1])
                    if d.get(v) == 1 and not any(v in atomset(y) for y in d if y is not v):
                        i = add(sub(arg, x.a[-1]), v)
                        if (f, i) not in self.triggered:
                            self.triggered = self.triggered | {(f, i)}
                            self._inst(f, i)
                    break

    def index(self, t):
        if t in self.indices:
            return
        self.indices.append(t)
        for f in list(self.foralls):
            self._inst(f, t)

    def fresh(self, name, lo=-INF, hi=INF, sort='I'):
        k = self.freshn.get(name, 0)
        self.freshn[name] = k + 1
        # unique per call site occurrence, indexed by the current loop parameters
        nm = '%s!%d' % (name, self.ex.newid())
        return uf(nm, self.stack, lo, hi, sort)


class Stats:
    def __init__(self):
        self.q = 0
        self.t = 0.0
        self.by = {'z3': 0, 'cvc5': 0, 'syntactic': 0}
        self.unknown = 0


class Solver:
    """incremental z3 on the current path condition; cvc5 as second opinion on unknown"""

    def __init__(self, timeout_ms=4000):
        self.s = z3.Solver()
        self.s.set('timeout', timeout_ms)
        self.timeout = timeout_ms
        self.stack = []
        self.bounded = [set()]
        self.stats = Stats()
        self.cache = {}

    def _sync(self, pc):
        i = 0
        n = min(len(pc), len(self.stack))
        while i < n and self.stack[i] is pc[i]:
            i += 1
        if i < len(self.stack):
            self.s.pop(len(self.stack) - i)
            del self.stack[i:]
            del self.bounded[i + 1:]
        for c in pc[i:]:
            self.s.push()
            self.stack.append(c)
            self.bounded.append(set())
            self._assert(c)

    def _seen(self, t):
        for b in self.bounded:
            if t in b:
                return True
        return False

    def _bounds(self, c):
        bvs = set()
        for t in atoms(c):
            if t.op == 'forall':
                bvs.add(t.a[0])
        for t in atoms(c):
            if t.op in ('v', 'f') and t.sort == 'I' and (t.lo != -INF or t.hi != INF) and not self._seen(t):
                if bvs and any(x in bvs for x in atoms(t)):
                    continue
                self.bounded[-1].add(t)
                if t.lo != -INF:
                    self.s.add(z(t) >= int(t.lo))
                if t.hi != INF:
                    self.s.add(z(t) <= int(t.hi))

    def _assert(self, c):
        self._bounds(c)
        if c.op == 'forall':
            return          # instantiated explicitly
        self.s.add(z(c))

    def check(self, pc, extra=(), want_model=False):
        """sat / unsat / unknown of pc + extra"""
        for c in extra:
            if c is FALSE:
                return 'unsat', None
        key = None
        self._sync(pc)
        t0 = time.time()
        self.s.push()
        self.stack.append(None)
        self.bounded.append(set())
        for c in extra:
            self._assert(c)
        r = self.s.check()
        self.stats.q += 1
        self.stats.by['z3'] += 1
        res = str(r)
        model = None
        if r == z3.sat and want_model:
            model = self.s.model()
        if r == z3.unknown:
            res = self._cvc5()
        self.s.pop()
        self.stack.pop()
        self.bounded.pop()
        self.stats.t += time.time() - t0
        if res == 'unknown':
            self.stats.unknown += 1
        return res, model

    def _cvc5(self):
        txt = self.s.to_smt2()
        fd, p = tempfile.mkstemp(suffix='.smt2', dir=os.environ.get('VF_TMP'))
        with os.fdopen(fd, 'w') as f:
            f.write(txt if 'set-logic' in txt else '(set-logic ALL)\n' + txt)
        try:
            o = subprocess.run(['cvc5', '--tlimit=%d' % max(8000, self.timeout), p], capture_output=True, text=True,
                               timeout=60).stdout.split('\n')[0].strip()
        except subprocess.TimeoutExpired:
            o = 'unknown'
        finally:
            os.unlink(p)
        if o in ('sat', 'unsat'):
            self.stats.by['cvc5'] += 1
            return o
        return 'unknown'

    def small_model(self, pc, extra, soft):
        """model preferring the soft bounds (for readable counterexamples)"""
        self._sync(pc)
        self.s.push(); self.stack.append(None); self.bounded.append(set())
        try:
            for c in extra:
                self._assert(c)
            best = None
            for group in soft:
                self.s.push()
                for c in group:
                    self.s.add(z(c))
                r = self.s.check()
                if r == z3.sat:
                    best = self.s.model()
                    self.s.pop()
                    break
                self.s.pop()
            if best is None and self.s.check() == z3.sat:
                best = self.s.model()
            return best
        finally:
            self.s.pop(); self.stack.pop(); self.bounded.pop()


class Prover:
    def __init__(self, solver, pc, foralls=(), indices=(), state=None):
        self.solver = solver
        self.pc = pc
        self.foralls = list(foralls)
        self.indices = list(indices)
        self.set = set(pc)
        self.state = state
        self.extra_idx = []

    def holds(self, c):
        if c is TRUE:
            return True
        if c is FALSE:
            return self.solver.check(self.pc)[0] == 'unsat'
        if c in self.set:
            return True
        if not_(c) in self.set:
            return self.solver.check(self.pc)[0] == 'unsat'
        return self.solver.check(self.pc, [not_(c)])[0] == 'unsat'

    def prove(self, c, why, definite=True):
        if c is TRUE or c in self.set:
            return
        r, m = self.solver.check(self.pc, [not_(c)], want_model=True)
        if r == 'unsat':
            return
        if r == 'unknown':
            raise Unknown(why)
        if not definite:
            e = Unknown(why)
            e.pc = self.pc
            e.neg = not_(c)
            raise e
        e = Cex(m, why)
        e.pc = self.pc
        e.neg = not_(c)
        raise e

    def under(self, c):
        if c is TRUE:
            return self
        if c is FALSE:
            return None
        if not_(c) in self.set:
            return None
        q = Prover(self.solver, self.pc + [c], self.foralls, self.indices, self.state)
        for x in (c.a if c.op == 'and' else (c,)):
            q.set.add(x)
            if x.op == 'forall':
                q.foralls.append(x)
                for i in q.indices:
                    q._add_inst(x, i)
        if self.solver.check(q.pc)[0] == 'unsat':
            return None
        return q

    def _add_inst(self, f, i):
        v, lo, hi, body = f.a
        b = subst(body, {v: i})
        c = implies(and_(le(lo, i), lt(i, hi)), b)
        if c is not TRUE:
            self.pc = self.pc + [c]
            self.set.add(c)

    def index(self, t):
        if t in self.indices:
            return
        self.indices.append(t)
        for f in self.foralls:
            self._add_inst(f, t)
