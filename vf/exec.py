"""Symbolic executor / verification-condition generator for LLVM IR of the real code."""
import re
import sys
import time
from terms import *
import terms as TM
from seqs import *
import seqs as SQ
from state import *

sys.setrecursionlimit(20000)


def short(d):
    return d if len(d) < 160 else d[:110] + ' .. ' + d[-45:]


OURS = re.compile(r'_Z(L|Z*NK?9blackhole)')   # globals and static locals of the code under test


class ForkOn(Exception):
    def __init__(self, conds, feasible=False):
        self.conds = conds
        self.feasible = feasible     # already known to be


class PathEnd(Exception):
    pass


class Restart(Exception):
    """a loop needs summarising"""

    def __init__(self, frame_id, header, soft=False):
        self.soft = soft
        self.frame_id = frame_id
        self.header = header


class GrowHint(Exception):
    """a container held in an outer object has to be viewed as an unbounded array before a loop is summarised"""

    def __init__(self, kind, obj, params, off, stride):
        self.kind = kind
        self.obj = obj
        self.params = params
        self.off = off
        self.stride = stride


class Snap:
    n = 0

    def __init__(self, state, frame_id, header, it):
        Snap.n += 1
        self.id = Snap.n
        self.state = state
        self.frame_id = frame_id
        self.header = header
        self.it = it
        self.soft = False       # the exit was decided although its condition is symbolic
        self.nosoft = False


EXC_PARENT = {
    '_ZTISt13runtime_error': ['_ZTISt9exception'], '_ZTISt11logic_error': ['_ZTISt9exception'],
    '_ZTISt12out_of_range': ['_ZTISt11logic_error'], '_ZTISt16invalid_argument': ['_ZTISt11logic_error'],
    '_ZTISt12length_error': ['_ZTISt11logic_error'], '_ZTISt12domain_error': ['_ZTISt11logic_error'],
    '_ZTISt12system_error': ['_ZTISt13runtime_error'], '_ZTISt8bad_cast': ['_ZTISt9exception'],
    '_ZTISt9bad_alloc': ['_ZTISt9exception'], '_ZTISt10bad_typeid': ['_ZTISt9exception'],
    '_ZTISt17bad_function_call': ['_ZTISt9exception'], '_ZTISt9exception': [],
    '_ZTISt11range_error': ['_ZTISt13runtime_error'], '_ZTISt14overflow_error': ['_ZTISt13runtime_error'],
    '_ZTISt12bad_weak_ptr': ['_ZTISt9exception'],
    '_ZTINSt8ios_base7failureB5cxx11E': ['_ZTISt12system_error'],
}


class Exec:
    def __init__(self, mod, demangled, models, solver=None, log=None):
        self.addrs = {}
        self.m = mod
        self.atomic = False
        self.dem = demangled          # mangled -> demangled
        self.models = models
        self.solver = solver or Solver()
        self.ids = 0
        self.obligations = []          # dict(name, status, why)
        self.oblkeys = {}
        self.globals = {}
        self.fnobjs = {}
        self.modelcache = {}
        self.log = log or (lambda *a: None)
        self.steps = 0
        self.max_steps = 4000000
        self.deadline = None
        self.touched = {}              # functions of the code executed symbolically
        self.snapstack = []
        self.xdepth = 0
        self.incomplete = []
        self.strict = False
        self.unrolling = False
        self.search_s = 40
        self.search_until = 0
        self.trusted = {}              # models used
        self.bounded_loops = []
        self.summarised = []
        self.forced = set()
        self.contracts = {}            # demangled regex -> harness function name
        self.ti_ids = {}
        self.covers = {}
        self.paths = 0
        self.active_contract = None
        self.unroll = {}
        self.nosum = set()
        self.ginit = {}
        self.noinit = set()
        self.loopfail = {}
        self.ended = []
        self.streams = set()
        self.eager_prune = True
        self.summ_depth = 0
        self.suppress = 0
        self.muted = 0
        self.oob_checks = 0

    def newid(self):
        self.ids += 1
        return self.ids

    # ------------------------------------------------------------ prover glue
    def prover(self, st):
        return Prover(self.solver, st.pc, st.foralls, st.indices, st)

    def feasible(self, st, *extra):
        return self.solver.check(st.pc, list(extra))[0] != 'unsat'

    def unconstrained(self, st, t):
        """t is a single input nothing is known about (asking the solver which values it can take is a waste; when it
        is not, a path that cannot happen is explored, which is harmless)"""
        for _ in range(3):
            if t.op == 'ite':
                b = t.a[2]
                t = b if b.op in ('v', 'f') else t.a[1]
            elif t.op == '+' and len(t.a[1]) == 1:
                t = t.a[1][0][0]
        if t.op not in ('v', 'f'):
            return False
        for c in st.pc:
            if t in atomset(c):
                return False
        return True

    def known(self, st, c):
        """True / False / None for a condition under the path condition"""
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        v = st.pcset.get(c)
        if v is True or v is False:
            return v
        if c.op == 'le':
            lo, hi = st.rng(c.a[0])
            if hi <= 0:
                return True
            if lo > 0:
                return False
        elif c.op == 'eq':
            lo, hi = st.rng(c.a[0])
            if lo > 0 or hi < 0:
                return False
        elif c.op == 'not':
            k = self.known_cheap(st, c.a[0])
            if k is not None:
                return not k
        if self.solver.check(st.pc, [not_(c)])[0] == 'unsat':
            st.pcset[c] = True
            st.pcset[not_(c)] = False
            return True
        if self.solver.check(st.pc, [c])[0] == 'unsat':
            st.pcset[c] = False
            st.pcset[not_(c)] = True
            return False
        return None

    def known_cheap(self, st, c):
        if c.op in ('true', 'false'):
            return c is TRUE
        v = st.pcset.get(c)
        if v is True or v is False:
            return v
        if c.op == 'eq':
            lo, hi = st.rng(c.a[0])
            if lo > 0 or hi < 0:
                return False
        elif c.op == 'le':
            lo, hi = st.rng(c.a[0])
            if hi <= 0:
                return True
            if lo > 0:
                return False
        return None

    def decide(self, st, c):
        k = self.known(st, c)
        if k is None:
            self.soft_restart(st)
            raise ForkOn([c, not_(c)], True)
        return k

    def choose(self, st, conds):
        """index of the one condition that holds; forks when several are feasible"""
        feas = []
        for i, c in enumerate(conds):
            k = self.known_cheap(st, c)
            if k is True:
                return i
            if k is False:
                continue
            feas.append(i)
        feas = [i for i in feas if self.solver.check(st.pc, [conds[i]])[0] != 'unsat']
        if len(feas) == 1:
            st.assume(conds[feas[0]])
            return feas[0]
        if not feas:
            raise PathEnd()
        self.soft_restart(st)
        raise ForkOn([conds[i] for i in feas])

    # ------------------------------------------------------------ obligations
    def where(self, st):
        return short(self.dem.get(st.frames[-1].fn.name, st.frames[-1].fn.name)) if st.frames else ''

    def oblige(self, st, name, cond=None, seqs=None, why=''):
        n = len(st.pc)
        try:
            return self.oblige1(st, name, cond, seqs, why)
        except Violation:
            if not st.foralls or self.suppress:
                raise
            # the facts about earlier iterations were only used at the indices at hand: use the first few as well
            for j in range(8):
                st.index(C(j))
            if len(st.pc) == n:
                raise
            self.oblkeys[name]['checked'] -= 1
            self.log('retrying', name, 'with', len(st.pc) - n, 'more instances')
        return self.oblige1(st, name, cond, seqs, why)

    def oblige1(self, st, name, cond=None, seqs=None, why=''):
        """discharge pc => cond (or sequence equality); raises Violation on refutation"""
        rec = self.oblkeys.get(name)
        if rec is None:
            rec = {'name': name, 'checked': 0, 'discharged': 0, 'undecided': 0, 'why': None}
            self.oblkeys[name] = rec
        rec['checked'] += 1
        p = self.prover(st)
        try:
            if seqs is not None:
                prove_eq_any(seqs[0], seqs[1], p)
            else:
                p.prove(cond, why or name)
            rec['discharged'] += 1
        except Cex as e:
            if self.suppress:
                self.muted += 1
                st.assume(cond if cond is not None else TRUE)
                return
            raise Violation(name, str(e.why), (e.pc, e.neg), st)
        except Unknown as e:
            if self.suppress:
                self.muted += 1
            rec['undecided'] += 1
            rec['why'] = str(e)
            if hasattr(e, 'pc'):
                rec['hint'] = (e.pc, e.neg, st)
            self.log('UNDECIDED', name, str(e)[:400])

    # ------------------------------------------------------------ machine ints
    def sg(self, st, t, w):
        h = 1 << (w - 1)
        if t.lo >= -h and t.hi < h:
            return t
        lo, hi = st.rng(t)
        if lo >= -h and hi < h:
            return t
        if lo >= 0 and hi < 2 * h and t.op not in ('+',):
            pass
        if self._inrange(st, t, -h, h - 1):
            return t
        if self._inrange(st, t, 0, 2 * h - 1):
            return ite(lt(t, C(h)), t, sub(t, C(2 * h)))
        return sgn(t, w)

    def un(self, st, t, w):
        n = 1 << w
        if t.lo >= 0 and t.hi < n:
            return t
        lo, hi = st.rng(t)
        if lo >= 0 and hi < n:
            return t
        if self._inrange(st, t, 0, n - 1):
            return t
        if self._inrange(st, t, -(n // 2), n // 2 - 1):
            return ite(lt(t, ZERO), add(t, C(n)), t)
        return mod(t, n)

    def _inrange(self, st, t, lo, hi):
        if t.op == 'c':
            return lo <= t.a <= hi
        # only worth asking when the interval is not hopeless
        c = and_(le(C(lo), t), le(t, C(hi)))
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        if t.lo > hi or t.hi < lo:
            return False
        v = st.pcset.get(c)
        if v is None:
            v = self.solver.check(st.pc, [not_(c)])[0] == 'unsat'
            st.pcset[c] = v if v else 'no'
        return v is True

    # ------------------------------------------------------------ memory
    def alloc(self, st, kind, name, size, zero=False, params=None):
        o = Obj(kind, name, size)
        if params is None:
            params = st.stack
        o.nparams = len(params)
        m = Mem(st.id)
        m.zero = zero
        st.heap[(o, params)] = m
        return Ptr(o, params, ZERO)

    def fnptr(self, name):
        f = self.fnobjs.get(name)
        if f is None:
            f = FnObj('fn', name, 0)
            self.fnobjs[name] = f
        return Ptr(f, (), ZERO)

    def globptr(self, st, name):
        if name in self.m.aliases:
            name = self.m.aliases[name]
        if name in self.m.funcs or name in self.m.decls:
            return self.fnptr(name)
        o = self.globals.get(name)
        if o is None:
            if name in self.noinit:
                raise Unsupported('global %s with an initialiser out of reach' % name)
            g = self.m.glob(name)
            try:
                sz = self.m.size(g.ty)
            except NotImplementedError:
                sz = None
            if g.init is not None and g.init[0] == 'bytes' and g.const:
                o = Obj('bytes', name, sz)
                o.seq = Seq.lit(g.init[1])
                o.view = False
            else:
                o = Obj('glob', name, sz)
                o.ext = g.external
                o.const = g.const
                o.tls = bool(re.match(r'[^@%]*\bthread_local\b.*? (global|constant) ', g.text))
            self.globals[name] = o
        return Ptr(o, (), ZERO)

    def _ginit(self, st, o):
        """initial cells of a global"""
        r = self.ginit.get(o)
        if r is None:
            r = {}
            g = self.m.glob(o.name)
            if g.init is not None:
                self._fill(st, r, 0, g.ty, g.init)
            self.ginit[o] = r
        return r

    def _fill(self, st, cells, off, ty, op):
        t = self.m.resolve(ty)
        k = op[0]
        if k == 'undef':
            return
        if k == 'zero':
            if t[0] == 'struct':
                offs, _ = self.m.struct_layout(t)
                for o, f in zip(offs, t[1]):
                    self._fill(st, cells, off + o, f, op)
            elif t[0] == 'arr':
                if t[1] > 4096:
                    return
                s = self.m.size(t[2])
                for i in range(t[1]):
                    self._fill(st, cells, off + i * s, t[2], op)
            elif t[0] == 'ptr':
                cells[off] = (8, NULL)
            elif t[0] == 'i':
                cells[off] = (self.m.size(t), ZERO)
            elif t[0] == 'f':
                cells[off] = (self.m.size(t), var('fp:0.0', sort='D'))
            return
        if k == 'agg':
            if t[0] == 'struct':
                offs, _ = self.m.struct_layout(t)
            else:
                s = self.m.size(t[2])
                offs = [i * s for i in range(t[1])]
            for o, (et, eo) in zip(offs, op[1]):
                self._fill(st, cells, off + o, et, eo)
            return
        if k == 'bytes':
            for i, b in enumerate(op[1]):
                cells[off + i] = (1, C(b))
            return
        cells[off] = (self.m.size(t), self.const(st, t, op))

    def mem(self, st, ptr, write=False):
        """Mem of the instance ptr points into (ptr already resolved to a non-array object)"""
        o = ptr.obj
        key = (o, ptr.params)
        m = st.heap.get(key)
        if m is None:
            if o.kind == 'glob':
                m = Mem(st.id)
                m.cells = dict(self._ginit(st, o))
                st.heap[key] = m
                return m
            m = self._family(st, ptr)
            if m is None and write and getattr(o, 'is_elem', False) and o.arr.grow:
                m = Mem(st.id)
            if m is None:
                self.oblige(st, 'memory-safety', FALSE, why='access to dead object %r in %s' % (o, self.where(st)))
                raise PathEnd()
            if write:
                st.heap[key] = m
            return m
        if not m.alive:
            self.oblige(st, 'memory-safety', FALSE, why='use after free of %r in %s' % (o, self.where(st)))
            raise PathEnd()
        if write and m.owner != st.id:
            m = m.clone(st.id)
            st.heap[key] = m
        return m

    def _family(self, st, ptr):
        o = ptr.obj
        # instances with provably equal parameters
        for (oo, pp), mm in list(st.heap.items()):
            if oo is o and pp != ptr.params and len(pp) == len(ptr.params):
                c = and_(*[eq(a, b) for a, b in zip(pp, ptr.params)])
                if c is FALSE:
                    continue
                if self.decide(st, c):
                    return mm
        segs = st.segs.get(o)
        if not segs:
            return None
        for (lo, hi, kappas, alts, gid) in segs:
            k = ptr.params[-1]
            c = and_(le(lo, k), lt(k, hi)) if lo is not None else TRUE
            if c is not TRUE:
                if not self.decide(st, c):
                    continue
            mp = dict(zip(kappas, ptr.params))
            if lo is not None and lo is not ZERO:
                mp[kappas[-1]] = sub(k, lo)
            ck = (gid, ptr.params)
            i = st.choice.get(ck)
            if i is None:
                if len(alts) == 1:
                    i = 0
                    st.assume(subst(alts[0][0], mp))
                else:
                    i = self.choose(st, [subst(g, mp) for g, _ in alts])
                st.choice[ck] = i
            cells = alts[i][1].get(o)
            if cells is None:
                return None
            m = Mem(st.id)
            m.cells = {off: (sz, vsubst(v, mp)) for off, (sz, v) in cells.items()}
            return m
        return None

    def resolve(self, st, p, size, write=False):
        """map pointers into arrays to element instances; returns Ptr with non-array object"""
        if not isinstance(p, Ptr):
            raise Unsupported('deref of %r' % (p,))
        if p.obj is None:
            self.oblige(st, 'memory-safety', FALSE, why='null dereference in ' + self.where(st))
            raise PathEnd()
        o = p.obj
        n = 0
        while o.kind == 'arr':
            s = o.stride
            c0, d = lin(p.off)
            kd = {}
            for a, v in d.items():
                if v % s:
                    # common case: loop counters scaled by element size; otherwise give up
                    raise Unsupported('array offset %s stride %d' % (p.off, s))
                kd[a] = v // s
            k = mklin(c0 // s, kd)
            if o.count is not None:
                self.bound(st, and_(le(ZERO, k), lt(k, o.count)), 'array index in ' + self.where(st))
            st.index(k)
            p = Ptr(o.elem, p.params + (k,), C(c0 % s))
            o = p.obj
        if st.guards:
            self.guarded(st, p, size, write)
        return p

    def guarded(self, st, p, size, write):
        """locks held at every use of each word that threads share, and whether it is ever written"""
        if self.atomic or st.initguard:
            return
        if (p.obj, p.params) not in st.guards[0] and not (p.obj.kind == 'glob' and not p.obj.const and not getattr(p.obj, 'tls', False)
                                                           and OURS.match(p.obj.name)):
            return
        held = frozenset(x[0] for x in st.locks[0])
        if p.off.op != 'c' or not isinstance(size, int):
            words = [None]
        else:
            words = range(p.off.a // 8, (p.off.a + max(size, 1) - 1) // 8 + 1)
        d = None
        for w in words:
            k = (p.obj, p.params, w)
            old = st.guards[1].get(k)
            n = (held, write, self.where(st)) if old is None else (old[0] & held, old[1] or write, old[2] if not old[0] else self.where(st))
            if old is None or old[:2] != n[:2]:
                if d is None:
                    d = dict(st.guards[1])
                d[k] = n
        if d is not None:
            st.guards = (st.guards[0], d)

    def bound(self, st, c, why):
        self.oob_checks += 1
        if c is TRUE or st.pcset.get(c) is True:
            return
        self.oblige(st, 'memory-safety', c, why='out of bounds: ' + why)
        st.pcset[c] = True

    def load(self, st, p, ty):
        t = self.m.resolve(ty)
        if t[0] in ('struct', 'arr'):
            return self.load_agg(st, p, t)
        size = self.m.size(t)
        p = self.resolve(st, p, size)
        o = p.obj
        if o.kind in ('bytes', 'sdata'):
            return self.load_bytes(st, p, size)
        if o.kind == 'glob' and o.ext:
            if o.name == '__libc_single_threaded':
                return ZERO
            if o.name == 'program_invocation_short_name':
                s = Seq.sym('env:' + o.name)
                st.assume(self.nonul(s))
                return self.bytes_obj(st, s + Seq.lit(b'\0'), False, o.name)
            if o.name in ('stdin', 'stdout', 'stderr'):
                x = self.fnobjs.get('FILE:' + o.name)
                if x is None:
                    x = self.fnobjs['FILE:' + o.name] = Obj('mem', 'FILE:' + o.name, 216)
                return Ptr(x, (), ZERO)
            raise Unsupported('load from external global ' + o.name)
        if o.kind not in ('mem', 'glob'):
            raise Unsupported('load from %r in %s' % (o, self.where(st)))
        m = self.mem(st, p)
        if p.off.op != 'c':
            if size == 1 and any(isinstance(c[1], Blob) for c in m.cells.values()):
                return self.blob_load(st, m, p.off)
            return self.load_symoff(st, p, m, size, t)
        off = p.off.a
        if size == 1:
            for o2, (s2, v2) in m.cells.items():
                if isinstance(v2, Blob) and o2 <= off < o2 + s2:
                    return self.blob_load(st, m, p.off)
        return self.cell_load(st, m, o, off, size, t)

    def blob_load(self, st, m, off):
        """a byte of a character array holding a text of symbolic length"""
        for o2, (s2, v2) in m.cells.items():
            if isinstance(v2, Blob) and self.known(st, and_(le(C(o2), off), lt(off, C(o2 + s2)))):
                i = sub(off, C(o2))
                n = v2.s.length()
                self.bound(st, le(i, n), 'byte read in ' + self.where(st))
                return self.byte_at(st, v2.s, i) if self.decide(st, lt(i, n)) else ZERO
        raise Unsupported('byte of a character array of symbolic content')

    def load_symoff(self, st, p, m, size, t):
        c0, d = lin(p.off)
        # table lookup: ite over cells
        import math
        g = 0
        for v in d.values():
            g = math.gcd(g, v)
        cands = [off for off, (sz, v) in m.cells.items() if sz == size and (off - c0) % g == 0]
        if not cands or len(cands) > 512:
            raise Unsupported('symbolic offset %s in %r' % (p.off, p.obj))
        cands.sort()
        self.bound(st, and_(le(C(cands[0]), p.off), le(p.off, C(cands[-1]))), 'table index')
        vals = [m.cells[c][1] for c in cands]
        if not all(isinstance(v, T) for v in vals):
            for c in cands:
                pass
            i = self.choose(st, [eq(p.off, C(c)) for c in cands])
            return vals[i]
        if p.obj.kind == 'glob' and p.obj.const and len(cands) > 40:
            # keep as function of the index, defined pointwise
            r = vals[-1]
        r = vals[-1]
        for c, v in reversed(list(zip(cands[:-1], vals[:-1]))):
            r = ite(eq(p.off, C(c)), v, r)
        return r

    def cell_load(self, st, m, o, off, size, t):
        c = m.cells.get(off)
        if c is not None and c[0] == size:
            return self.conv(st, c[1], t)
        if o.size is not None and isinstance(o.size, int) and (off < 0 or off + size > o.size):
            self.oblige(st, 'memory-safety', FALSE, why='access outside object %r at %d in %s' % (o, off, self.where(st)))
            raise PathEnd()
        # wider cell containing it / composition of smaller ones
        if c is not None and c[0] > size and isinstance(c[1], T) and c[1].sort == 'I':
            return mod(self.un(st, c[1], c[0] * 8), 1 << (size * 8)) if t[0] == 'i' else c[1]
        if c is not None and isinstance(c[1], Ptr) and c[0] > size:
            raise Unsupported('partial pointer load')
        for off2, (sz2, v2) in m.cells.items():
            if off2 < off and off2 + sz2 >= off + size:
                if isinstance(v2, T) and v2.sort == 'I':
                    return mod(div(self.un(st, v2, sz2 * 8), 1 << (8 * (off - off2))), 1 << (8 * size))
                if v2 is UNDEF:
                    return UNDEF
                raise Unsupported('partial load of %r' % (v2,))
        parts = []
        pos = off
        res = ZERO
        undef = False
        while pos < off + size:
            c = m.cells.get(pos)
            if c is None:
                if m.zero:
                    pos += 1
                    continue
                undef = True
                pos += 1
                continue
            sz, v = c
            if pos + sz > off + size:
                raise Unsupported('overlapping load')
            if v is UNDEF:
                undef = True
                pos += sz
                continue
            if not isinstance(v, T):
                if isinstance(v, Ptr) and v.obj is None:
                    v = v.off
                else:
                    raise Unsupported('composite load of %r' % (v,))
            parts.append(scale(self.un(st, v, sz * 8), 1 << (8 * (pos - off))))
            pos += sz
        if undef:
            if not parts:
                return UNDEF
            # padding bytes: unknown value
            parts.append(ZERO)
        return self.conv(st, add(ZERO, *parts), t)

    def conv(self, st, v, t):
        if v is UNDEF:
            return v
        if t[0] == 'ptr':
            if isinstance(v, T):
                if v.op == 'c' and v.a == 0:
                    return NULL
                return Ptr(None, (), v)
            return v
        if t[0] == 'i':
            if isinstance(v, Ptr) and v.obj is None:
                return v.off
            if isinstance(v, T) and v.sort == 'D':
                if v.op == 'f' and v.a[0] == 'bitsd':
                    return v.a[1]
                return uf('dbits', [v], 0, (1 << 64) - 1)
            if isinstance(v, T) and t[1] == 1:
                return v if v.sort == 'B' else ne(mod(v, 2), ZERO)
            return v
        if t[0] == 'f':
            if isinstance(v, T) and v.sort == 'I':
                if v.op == 'f' and v.a[0] == 'dbits':
                    return v.a[1]
                return uf('bitsd', [v], sort='D')
            return v
        return v

    def load_agg(self, st, p, t):
        if t[0] == 'struct':
            offs, _ = self.m.struct_layout(t)
            return tuple(self.load(st, p.plus(C(o)), f) for o, f in zip(offs, t[1]))
        s = self.m.size(t[2])
        return tuple(self.load(st, p.plus(C(i * s)), t[2]) for i in range(t[1]))

    def content(self, st, p):
        """(Seq, has_terminator) of a byte object"""
        o = p.obj
        if o.kind == 'bytes':
            s = o.seq
            if o.pvars:
                s = s.subst(dict(zip(o.pvars, p.params)))
            return s, not o.view
        s = self.str_get(st, Ptr(o.owner, p.params, C(o.ooff)))
        if o.ver is not None and s.ver != o.ver:
            if not (getattr(o, 'mut', False)):
                raise Unsupported('string data pointer used after modification')
        return s.s, True

    def load_bytes(self, st, p, size):
        s, term = self.content(st, p)
        if p.obj.kind == 'sdata':
            ln = s.length()
        else:
            ln = s.length()
        lim = add(ln, ONE) if p.obj.kind == 'sdata' else ln
        self.bound(st, and_(le(ZERO, p.off), le(add(p.off, C(size)), lim)), 'byte read in ' + self.where(st))
        out = ZERO
        for i in range(size):
            idx = add(p.off, C(i))
            if p.obj.kind == 'sdata':
                # terminator
                k = self.known(st, lt(idx, ln))
                if k is None:
                    raise ForkOn([lt(idx, ln), not_(lt(idx, ln))])
                b = self.byte_at(st, s, idx) if k else ZERO
            else:
                b = self.byte_at(st, s, idx)
            out = add(out, scale(b, 1 << (8 * i)))
        return out

    def byte_at(self, st, s, i):
        b = self.byte_at0(st, s, i)
        if st.foralls and b.op == 'f' and b.a[0].endswith('.at'):
            st.trigger(b)
        return b

    def byte_at0(self, st, s, i):
        """the byte at index i (in range) of a sequence; one path per part the index can be in"""
        if len(s.p) == 1 and s.p[0][0] in ('sub', 'lit'):
            return s.nth(i)
        pos = ZERO
        if len(s.p) > 1 and self.snapstack and not any(a[0] == 'fn' and a[1] == 'fmt:i' and a[2][0] == EMPTY for a in s.p) \
                and any(v.op in ('v', 'f') and v.a[0].startswith('k!') for v in atoms(i)):
            return s.nth(i)
        for a in s.p[:12]:
            l = SQ.part_len(a)
            if a[0] == 'ite' or l.op != 'c' and a[0] != 'fn' and a[0] != 'sub':
                break
            rel = sub(i, pos)
            pos = add(pos, l)
            if a is not s.p[-1] and not self.decide(st, lt(i, pos)):
                continue
            if a[0] == 'fn':
                b = uf('seq.at', (Seq((a,)).qterm(), rel), 0, 255)
                if a[1] == 'fmt:i' and a[2][0] == EMPTY:
                    digit = and_(le(C(48), b), le(b, C(57)))
                    st.assume(digit if self.known(st, le(ZERO, a[2][1])) else or_(digit, and_(eq(b, C(45)), eq(rel, ZERO))))
                return b
            return Seq((a,)).nth(rel)
        return s.nth(i)

    def store(self, st, p, ty, v):
        t = self.m.resolve(ty)
        if t[0] in ('struct', 'arr'):
            if v is UNDEF:
                return
            if t[0] == 'struct':
                offs, _ = self.m.struct_layout(t)
                for o, f, x in zip(offs, t[1], v):
                    self.store(st, p.plus(C(o)), f, x)
            else:
                s = self.m.size(t[2])
                for i, x in enumerate(v):
                    self.store(st, p.plus(C(i * s)), t[2], x)
            return
        size = self.m.size(t)
        if isinstance(v, T) and v.sort == 'B':
            v = ite(v, ONE, ZERO)
        p = self.resolve(st, p, size, True)
        o = p.obj
        if o.kind == 'sdata':
            return self.store_sdata(st, p, size, v)
        if o.kind not in ('mem', 'glob'):
            raise Unsupported('store to %r in %s' % (o, self.where(st)))
        m = self.mem(st, p, True)
        if p.off.op != 'c':
            return self.store_symoff(st, p, m, size, v)
        self.cell_store(st, m, o, p.off.a, size, v)

    def store_symoff(self, st, p, m, size, v):
        self.growhint(p)
        raise Unsupported('store at symbolic offset %s of %r in %s' % (p.off, p.obj, self.where(st)))

    def growhint(self, p):
        if self.snapstack and p.obj.kind == 'mem':
            c0, d = lin(p.off)
            if len(d) == 1:
                stride = abs(list(d.values())[0])
                for S in self.snapstack:
                    if (p.obj, p.params) in S.heap:
                        raise GrowHint('small', p.obj, p.params, c0, stride)

    def store_sdata(self, st, p, size, v):
        if size != 1:
            raise Unsupported('wide store to string data')
        o = p.obj
        sp = Ptr(o.owner, p.params, C(o.ooff))
        s = self.str_get(st, sp)
        ln = s.s.length()
        self.bound(st, and_(le(ZERO, p.off), le(p.off, ln)), 'string write in ' + self.where(st))
        if isinstance(v, T) and self.known(st, eq(p.off, ln)):
            if v is ZERO:
                return
        new = self.seq_slice(st, s.s, ZERO, p.off) + Seq.unit(self.un(st, v, 8)) + \
            self.seq_slice(st, s.s, add(p.off, ONE), sub(sub(ln, p.off), ONE))
        self.str_set(st, sp, new, ver=s.ver)

    def cell_store(self, st, m, o, off, size, v):
        if isinstance(o.size, int) and (off < 0 or off + size > o.size):
            self.oblige(st, 'memory-safety', FALSE, why='write outside object %r at %d in %s' % (o, off, self.where(st)))
            raise PathEnd()
        c = m.cells.get(off)
        if c is not None and c[0] == size:
            m.cells[off] = (size, v)
            return
        self.clear(st, m, off, size)
        m.cells[off] = (size, v)

    def clear(self, st, m, off, size):
        kill = []
        for o2, (s2, v2) in m.cells.items():
            if o2 < off + size and off < o2 + s2:
                kill.append((o2, s2, v2))
        for o2, s2, v2 in kill:
            del m.cells[o2]
            if o2 < off or o2 + s2 > off + size:
                # keep the untouched bytes
                if isinstance(v2, T) and v2.sort == 'I':
                    u = self.un(st, v2, s2 * 8)
                    for b in range(o2, o2 + s2):
                        if not (off <= b < off + size):
                            m.cells[b] = (1, mod(div(u, 1 << (8 * (b - o2))), 256))
                elif v2 is UNDEF or isinstance(v2, Ptr) and v2.obj is None:
                    if v2 is not UNDEF and v2.off is ZERO:
                        for b in range(o2, o2 + s2):
                            if not (off <= b < off + size):
                                m.cells[b] = (1, ZERO)
                elif isinstance(v2, Str):
                    pass
                else:
                    # partially overwritten pointer/ghost: rest is lost
                    pass

    def memcpy(self, st, dst, src, n):
        if n is ZERO:
            return
        n1 = n
        if n.op != 'c':
            # try to resolve to a constant under the path condition
            lo, hi = st.rng(n)
            if lo == hi:
                n1 = C(int(lo))
        d = self.resolve(st, dst, 1, True)
        s = self.resolve(st, src, 1)
        if n1.op != 'c':
            return self.memcpy_sym(st, d, s, n)
        n = n1.a
        if s.obj.kind in ('bytes', 'sdata'):
            if d.obj.kind in ('mem', 'glob') and d.off.op == 'c' and n <= 4096:
                vals = [self.load_bytes(st, s.plus(C(i)), 1) for i in range(n)]
                m = self.mem(st, d, True)
                self.clear(st, m, d.off.a, n)
                for i, v in enumerate(vals):
                    m.cells[d.off.a + i] = (1, v)
                return
            return self.memcpy_sym(st, d, s, C(n))
        if d.obj.kind == 'sdata' or d.off.op != 'c' or s.off.op != 'c':
            return self.memcpy_sym(st, d, s, C(n))
        # whole elements of arrays: only within one element
        so, do = s.off.a, d.off.a
        sm = self.mem(st, s)
        if isinstance(s.obj.size, int) and so + n > s.obj.size:
            if getattr(s.obj, 'is_elem', False):
                raise Unsupported('memcpy across array elements')
            self.oblige(st, 'memory-safety', FALSE, why='memcpy reads outside object in ' + self.where(st))
        items = [(o, sz, v) for o, (sz, v) in sm.cells.items() if so <= o and o + sz <= so + n]
        part = [(o, sz, v) for o, (sz, v) in sm.cells.items()
                if not (so <= o and o + sz <= so + n) and o < so + n and so < o + sz]
        for o, sz, v in part:
            if isinstance(v, T) and v.sort == 'I':
                u = self.un(st, v, sz * 8)
                for b in range(max(o, so), min(o + sz, so + n)):
                    items.append((b, 1, mod(div(u, 1 << (8 * (b - o))), 256)))
            else:
                raise Unsupported('memcpy splits a pointer')
        zero = sm.zero
        dm = self.mem(st, d, True)
        if isinstance(d.obj.size, int) and do + n > d.obj.size:
            if getattr(d.obj, 'is_elem', False):
                raise Unsupported('memcpy across array elements')
            self.oblige(st, 'memory-safety', FALSE, why='memcpy writes outside object in ' + self.where(st))
        self.clear(st, dm, do, n)
        if zero and not dm.zero:
            have = set()
            for o, sz, v in items:
                have.update(range(o, o + sz))
            for b in range(so, so + n):
                if b not in have:
                    items.append((b, 1, ZERO))
        for o, sz, v in items:
            dm.cells[o - so + do] = (sz, v)

    def memcpy_sym(self, st, d, s, n):
        if self.snapstack and isinstance(s, Ptr) and s.obj is not None and s.obj.kind == 'mem' and s.off.op == 'c':
            c0, dd = lin(n)
            if len(dd) == 1 and c0 == 0 and any((s.obj, s.params) in S.heap for S in self.snapstack):
                raise GrowHint('small', s.obj, s.params, s.off.a, abs(list(dd.values())[0]))
        if isinstance(d, Ptr) and d.obj is not None and d.off.op != 'c':
            self.growhint(d)
        raise Unsupported('memcpy of symbolic size %s from %r to %r in ' % (n, s, d) + self.where(st))

    def blob(self, st, q):
        """(offset, text) when q points into a character array of symbolic content"""
        if q.off.op != 'c':
            return None
        m = self.mem(st, q)
        for o, (sz, v) in m.cells.items():
            if isinstance(v, Blob) and o <= q.off.a < o + sz:
                return C(q.off.a - o), v.s
        return None

    def read_seq(self, st, p, n):
        """bytes [p, p+n) as a Seq"""
        if n is ZERO:
            return EMPTY
        if isinstance(p, Ptr) and p.obj is None:
            if self.known(st, eq(n, ZERO)):
                return EMPTY
        q = self.resolve(st, p, 1)
        if q.obj.kind in ('bytes', 'sdata'):
            s, term = self.content(st, q)
            lim = add(s.length(), ONE) if q.obj.kind == 'sdata' else s.length()
            self.bound(st, and_(le(ZERO, q.off), le(ZERO, n), le(add(q.off, n), lim)), 'range read in ' + self.where(st))
            if q.obj.kind == 'sdata' and not self.known(st, le(add(q.off, n), s.length())):
                return self.seq_slice(st, s + Seq.lit(b'\0'), q.off, n)
            return self.seq_slice(st, s, q.off, n)
        if q.obj.kind in ('mem', 'glob'):
            b = self.blob(st, q)
            if b is not None:
                off, s = b
                self.bound(st, and_(le(ZERO, n), le(add(off, n), add(s.length(), ONE))), 'range read in ' + self.where(st))
                return self.seq_slice(st, s + Seq.lit(b'\0') if not self.known(st, le(add(off, n), s.length())) else s, off, n)
            if n.op != 'c':
                lo, hi = st.rng(n)
                if lo == hi:
                    n = C(int(lo))
                else:
                    if q.off.op == 'c' and hi <= 64:
                        i = self.choose(st, [eq(n, C(j)) for j in range(int(max(lo, 0)), int(hi) + 1)])
                        n = C(int(max(lo, 0)) + i)
                    else:
                        raise Unsupported('range read of symbolic size from %r' % (q.obj,))
            out = EMPTY
            for i in range(n.a):
                v = self.load(st, q.plus(C(i)), ('i', 8))
                if v is UNDEF:
                    raise Unsupported('uninitialised byte read')
                out = out + Seq.unit(self.un(st, v, 8))
            return out
        raise Unsupported('read_seq from %r' % (q.obj,))

    def cstr(self, st, p):
        """the C string at p as a Seq"""
        q = self.resolve(st, p, 1)
        if q.obj.kind in ('bytes', 'sdata'):
            s, term = self.content(st, q)
            s = self.seq_slice(st, s, q.off, sub(s.length(), q.off))
            if len(s.p) > 1 and s.p[-1][0] == 'lit' and s.p[-1][1] == b'\0' and self.known(st, self.nonul(Seq(s.p[:-1]))) is True:
                return Seq(s.p[:-1])
            if len(s.p) > 1 and s.p[-1] == ('lit', b'\0') and not q.obj.noterm:
                return self.cut0(st, Seq(s.p[:-1]))
            if s.is_lit():
                b = s.litval()
                if 0 in b:
                    return Seq.lit(b[:b.index(0)])
                if q.obj.kind == 'sdata' and not q.obj.noterm:
                    return s
                self.oblige(st, 'memory-safety', FALSE, why='unterminated C string read in ' + self.where(st))
                raise PathEnd()
            if q.obj.kind == 'sdata' and not q.obj.noterm:
                return self.cut0(st, s)
            # a view: no terminator is guaranteed
            self.oblige(st, 'memory-safety', FALSE,
                        why='a string view is used as a NUL-terminated string in ' + self.where(st))
            raise PathEnd()
        if q.obj.kind in ('mem', 'glob'):
            b = self.blob(st, q)
            if b is not None:
                off, s = b
                if off is not ZERO:
                    s = self.seq_slice(st, s, off, sub(s.length(), off))
                return self.cut0(st, s)
            out = EMPTY
            i = 0
            while True:
                v = self.load(st, q.plus(C(i)), ('i', 8))
                if v is UNDEF:
                    raise Unsupported('uninitialised C string')
                if self.decide(st, eq(self.un(st, v, 8), ZERO)):
                    return out
                out = out + Seq.unit(self.un(st, v, 8))
                i += 1
                if i > 4096:
                    raise Unsupported('long C string')
        raise Unsupported('cstr of %r' % (q.obj,))

    def cut0(self, st, s):
        """s up to its first NUL byte"""
        if self.decide(st, self.nonul(s)):
            return s
        ln = uf('cstrlen', [s.qterm()], 0, LENMAX)
        st.assume(lt(ln, s.length()))
        st.assume(eq(s.nth(ln), ZERO))
        return self.seq_slice(st, s, ZERO, ln)

    def nonul(self, s):
        """no NUL byte in s"""
        c = TRUE
        for a in s.p:
            if a[0] == 'lit':
                if 0 in a[1]:
                    return FALSE
            elif a[0] == 'u':
                c = and_(c, ne(a[1], ZERO))
            elif a[0] == 'fn' and (a[1] == 'fmt:i' and a[2][0] == EMPTY or a[1].startswith('what:')):
                pass
            else:
                x = Seq((a,))
                c = and_(c, uf('nonul', [x.qterm()], sort='B'))
        return c

    def seq_slice(self, st, s, off, n):
        """s[off, off+n) where the range is known to be inside"""
        if n is ZERO:
            return EMPTY
        if off is ZERO and (n is s.length()):
            return s
        out = []
        parts = list(s.p)
        pos = ZERO
        # skip
        i = 0
        while i < len(parts):
            a = parts[i]
            l = SQ.part_len(a)
            rel = sub(off, pos)
            if rel is ZERO or self.known(st, eq(rel, ZERO)):
                break
            if self.known(st, ge(rel, l)):
                pos = add(pos, l)
                i += 1
                continue
            if rel.op == 'c' and a[0] == 'lit':
                parts[i] = ('lit', a[1][rel.a:])
                pos = off
                break
            if a[0] == 'sub' and self.known(st, le(rel, l)):
                parts[i] = ('sub', a[1], add(a[2], rel), sub(a[3], rel))
                pos = off
                break
            # give the slice a name
            return self._opaque_slice(s, off, n)
        rest = n
        while i < len(parts):
            if rest is ZERO or self.known(st, eq(rest, ZERO)):
                rest = ZERO
                break
            a = parts[i]
            l = SQ.part_len(a)
            if l is rest or self.known(st, le(l, rest)):
                out.append(a)
                rest = sub(rest, l)
                i += 1
                continue
            if a[0] == 'lit' and rest.op == 'c':
                out.append(('lit', a[1][:rest.a]))
                rest = ZERO
                break
            if a[0] == 'sub' and self.known(st, le(rest, l)):
                out.append(('sub', a[1], a[2], rest))
                rest = ZERO
                break
            if a[0] == 'lit' and len(a[1]) <= 64 and len(parts) == 1:
                i0 = self.choose(st, [eq(rest, C(j)) for j in range(len(a[1]) + 1)])
                out.append(('lit', a[1][:i0]))
                rest = ZERO
                break
            return self._opaque_slice(s, off, n)
        if rest is not ZERO and not self.known(st, eq(rest, ZERO)):
            return self._opaque_slice(s, off, n)
        return Seq(SQ._norm(out))

    def _opaque_slice(self, s, off, n):
        return Seq((('sub', ('s', 'slice', (s,)), off, n),))

    # ---- ghost strings
    def str_get(self, st, p):
        q = self.resolve(st, p, 1)
        if q.obj.kind not in ('mem', 'glob'):
            raise Unsupported('string at %r' % (q,))
        m = self.mem(st, q)
        if q.off.op != 'c':
            raise Unsupported('string at symbolic offset')
        c = m.cells.get(q.off.a)
        if c is None or not isinstance(c[1], Str):
            raise Unsupported('not a string: %r at %r in %s' % (c, q, self.where(st)))
        return c[1]

    def str_set(self, st, p, seq, size=32, ver=None):
        q = self.resolve(st, p, size, True)
        m = self.mem(st, q, True)
        if q.off.op != 'c':
            self.growhint(q)
            raise Unsupported('string at symbolic offset')
        self.clear(st, m, q.off.a, size)
        m.cells[q.off.a] = (size, Str(seq, ver))

    def ghost_get(self, st, p, kind=None):
        q = self.resolve(st, p, 1)
        m = self.mem(st, q)
        c = m.cells.get(q.off.a)
        if c is None or not isinstance(c[1], Ghost) or (kind and c[1].kind != kind):
            raise Unsupported('not a %s: %r' % (kind, c))
        return c[1]

    def ghost_set(self, st, p, g, size):
        q = self.resolve(st, p, size, True)
        m = self.mem(st, q, True)
        self.clear(st, m, q.off.a, size)
        m.cells[q.off.a] = (size, g)

    def sdata(self, st, p, mut=False):
        """pointer to the bytes of the string object at p"""
        q = self.resolve(st, p, 32)
        s = self.str_get(st, q)
        o = Obj('sdata', 'data of %r' % (q,))
        key = ('sd', q.obj, q.off, s.ver)
        c = self.fnobjs.get(key)
        if c is None:
            o.owner = q.obj
            o.ooff = q.off.a
            o.ver = s.ver
            o.mut = mut
            self.fnobjs[key] = o
            c = o
        return Ptr(c, q.params, ZERO)

    def bytes_obj(self, st, seq, view=True, name='bytes'):
        if seq.p and False:
            pass
        o = Obj('bytes', name, None)
        o.view = view
        pv = st.stack
        o.pvars = pv
        o.seq = seq
        return Ptr(o, pv, ZERO)

    # ------------------------------------------------------------ operands
    def const(self, st, ty, op):
        k = op[0]
        if k == 'c':
            t = self.m.resolve(ty)
            if t == ('i', 1):
                return B(op[1] != 0)
            return C(op[1])
        if k == 'null':
            return NULL
        if k == 'g':
            return self.globptr(st, op[1])
        if k == 'undef':
            t = self.m.resolve(ty)
            if t[0] == 'struct':
                return tuple(UNDEF for _ in t[1])
            return UNDEF
        if k == 'zero':
            t = self.m.resolve(ty)
            if t[0] == 'i':
                return FALSE if t[1] == 1 else ZERO
            if t[0] == 'ptr':
                return NULL
            if t[0] == 'struct':
                return tuple(self.const(st, f, op) for f in t[1])
            if t[0] == 'arr':
                return tuple(self.const(st, t[2], op) for _ in range(t[1]))
            if t[0] == 'f':
                return var('fp:0.0', sort='D')
            return ZERO
        if k == 'fp':
            return self.fpconst(op[1])
        if k == 'gep':
            b = self.const(st, ('ptr',), op[2])
            return self.gep(st, b, op[1], op[3], None)
        if k == 'cast':
            v = self.const(st, op[2], op[3])
            return v
        if k == 'agg':
            return tuple(self.const(st, t, o) for t, o in op[1])
        if k == 'cbin':
            a = self.const(st, op[2], op[3]); b = self.const(st, op[2], op[4])
            if op[1] == 'sub':
                return sub(self.addr(a), self.addr(b))
            if op[1] == 'add':
                return add(self.addr(a), self.addr(b))
        raise Unsupported('const %r' % (op,))

    def fpconst(self, s):
        import struct
        if s.startswith('0x'):
            try:
                d = struct.unpack('>d', bytes.fromhex(s[2:].rjust(16, '0')))[0]
            except Exception:
                return var('fp:' + s, sort='D')
        else:
            d = float(s)
        return var('fp:' + repr(d), sort='D')

    def addr(self, v):
        """integer address of a pointer"""
        if isinstance(v, T):
            return v
        if isinstance(v, Ptr):
            if v.obj is None:
                return v.off
            a = uf('addr:%d' % v.obj.id, v.params, 256, 1 << 43)
            self.addrs[a] = Ptr(v.obj, v.params, ZERO)
            return add(scale(a, 16), v.off)
        raise Unsupported('address of %r' % (v,))

    def val(self, st, ty, op):
        k = op[0]
        if k == 'l':
            return st.frames[-1].regs[op[1]]
        if k == 'c':
            if ty == ('i', 1):
                return TRUE if op[1] else FALSE
            return C(op[1])
        return self.const(st, ty, op)

    def gep(self, st, base, ty, idx, fr):
        if base is UNDEF:
            return UNDEF
        if not isinstance(base, Ptr):
            if isinstance(base, T):
                base = Ptr(None, (), base)
            else:
                raise Unsupported('gep on %r' % (base,))
        off = base.off
        t = ty
        first = True
        for it, io in idx:
            if fr is None:
                v = self.const(st, it, io)
            else:
                v = fr.regs[io[1]] if io[0] == 'l' else self.const(st, it, io)
            if v is UNDEF:
                return UNDEF
            if isinstance(v, T) and v.sort == 'B':
                v = ite(v, C(-1), ZERO)
            if not isinstance(v, T):
                raise Unsupported('gep index %r' % (v,))
            if first:
                w = it[1]
                off = add(off, scale(self.sg(st, v, w), self.m.size(t)))
                first = False
                continue
            rt = self.m.resolve(t)
            if rt[0] == 'struct':
                offs, _ = self.m.struct_layout(rt)
                off = add(off, C(offs[v.a]))
                t = rt[1][v.a]
            elif rt[0] in ('arr', 'vec'):
                off = add(off, scale(self.sg(st, v, it[1]), self.m.size(rt[2])))
                t = rt[2]
            else:
                raise Unsupported('gep into %r' % (rt,))
        if off.op == '+' and base.obj is not None and any(a in self.addrs for a, _ in off.a[1]):
            # by the distance of two objects from one into the other
            t = self.addr(Ptr(base.obj, base.params, off))
            there = [a for a in lin(t)[1] if a in self.addrs]
            if len(there) == 1 and lin(t)[1][there[0]] == 16:
                o = self.addrs[there[0]]
                return Ptr(o.obj, o.params, sub(t, scale(there[0], 16)))
        return Ptr(base.obj, base.params, off)

    # ------------------------------------------------------------ main loop
    def start(self, st, fname, args=()):
        fn = self.m.funcs[fname].parse()
        fr = Frame(fn)
        for (t, n, a), v in zip(fn.params, args):
            fr.regs[n] = v
        st.frames.append(fr)
        self.touched[fname] = self.touched.get(fname, 0) + 1
        fr.noloop = False

    def explore(self, states, stop=None):
        """run until every path ended or hit stop(state)->tag; returns [(tag, state)]"""
        self.xdepth += 1
        try:
            return self._explore(states, stop)
        finally:
            self.xdepth -= 1

    def _explore(self, states, stop):
        work = list(states)
        out = []
        dead_snaps = set()
        while work:
            if self.unrolling and self.xdepth == 1:
                # shortest unrolling first; once a path left the verifier's reach the rest is a search for refutations
                if self.incomplete and time.time() > self.search_until:
                    return out
                i = min(range(len(work)), key=lambda i: (work[i].unrolled, -i))
                st = work.pop(i)
            else:
                st = work.pop()
            if dead_snaps and self._descends(st, dead_snaps):
                continue
            try:
                while True:
                    if self.deadline and (self.steps & 255) == 0 and time.time() > self.deadline:
                        raise Budget('time')
                    if not st.frames:
                        self.paths += 1
                        self.ended.append(st)
                        if stop:
                            out.append(('end', st))
                        break
                    if stop:
                        tag = stop(st)
                        if tag:
                            out.append((tag, st))
                            break
                    try:
                        self.step(st)
                    except ForkOn as f:
                        nxt = []
                        for c in f.conds:
                            s2 = st.copy()
                            s2.unchecked = s2.unchecked or f.feasible == 'assumed'
                            if s2.assume(c) and (f.feasible or self.feasible(s2)):
                                nxt.append(s2)
                        if not nxt:
                            break
                        if self.unrolling and self.xdepth == 1:
                            work.extend(nxt)
                            break
                        work.extend(reversed(nxt[1:]))
                        st = nxt[0]
                        st_check = None
                        continue
                    self.steps += 1
                    if self.steps > self.max_steps:
                        raise Budget('steps')
            except PathEnd:
                self.paths += 1
            except Unsupported as e:
                if self.xdepth > 1 or stop is not None or self.strict:
                    raise
                if not self.incomplete:
                    self.search_until = time.time() + self.search_s
                    self.unrolling = True
                self.incomplete.append(str(e))
            except Restart as r:
                fr = next(f for f in st.frames if f.id == r.frame_id)
                snap = fr.loops[r.header]
                dead_snaps.add(snap.id)
                work = [w for w in work if not self._descends(w, {snap.id})]
                out = [(t, s) for t, s in out if not self._descends(s, {snap.id})]
                res = self.summarise(snap)
                if res is None and r.soft:
                    s2 = snap.state.copy()
                    f2 = next(f for f in s2.frames if f.id == r.frame_id)
                    n2 = Snap(snap.state, snap.frame_id, snap.header, snap.it)
                    n2.nosoft = True
                    f2.loops[r.header] = n2
                    work.append(s2)
                elif res is None:
                    # could not summarise: unroll from the snapshot
                    s2 = snap.state.copy()
                    f2 = next(f for f in s2.frames if f.id == r.frame_id)
                    f2.loops[r.header] = 'unroll', snap.it
                    s2.unrolled += 1
                    self.unrolling = True
                    work.append(s2)
                else:
                    work.extend(res)
        return out

    def _descends(self, st, ids):
        for f in st.frames:
            for sn in f.loops.values():
                if isinstance(sn, Snap) and sn.id in ids:
                    return True
        return False

    MAXUNROLL = 40

    def enter(self, st, fr, blk):
        """control transfer inside a function; evaluates phis; tracks loops"""
        fn = fr.fn
        loops = fn.loops()
        if fr.loops:
            for h in list(fr.loops):
                if blk not in loops[h]:
                    del fr.loops[h]
        fr.prev = fr.blk
        if blk in loops:
            cur = fr.loops.get(blk)
            # leaving phis to be evaluated after the snapshot: evaluate now, snapshot afterwards
            fr.blk = blk
            fr.ip = 0
            self.phis(st, fr)
            if cur is None:
                it = 0
            elif isinstance(cur, Snap):
                it = cur.it + 1
            else:
                it = cur[1] + 1
            if isinstance(cur, tuple):
                if cur[0] == 'iter':
                    fr.loops[blk] = ('iterdone', 0)
                    return
                fr.loops[blk] = (cur[0], it)
                st.unrolled += 1
                lim = self.MAXUNROLL
                if it > lim:
                    self.bounded_loops.append((self.dem.get(fn.name, fn.name), lim))
                    raise Unsupported('loop in %s not summarised and longer than %d iterations: %s' % (
                        self.dem.get(fn.name, fn.name), lim, self.loopfail.get((fn.name, blk), '')))
            else:
                if it > 4000:
                    raise Unsupported('concrete loop too long in ' + self.dem.get(fn.name, fn.name))
                fr.loops.pop(blk, None)
                snap = Snap(None, fr.id, blk, it)
                snap.state = st.copy()
                fr.loops[blk] = snap
            return
        fr.blk = blk
        fr.ip = 0
        self.phis(st, fr)

    def phis(self, st, fr):
        ins = fr.fn.insts(fr.blk)
        vals = []
        i = 0
        for x in ins:
            if x.op != 'phi':
                break
            for v, b in x.a:
                if b == fr.prev:
                    vals.append((x.res, self.val(st, x.ty, v)))
                    break
            else:
                raise Unsupported('phi')
            i += 1
        for r, v in vals:
            fr.regs[r] = v
        fr.ip = i

    def step(self, st):
        fr = st.frames[-1]
        x = fr.fn.insts(fr.blk)[fr.ip]
        self.atomic = False
        getattr(self, 'i_' + x.op, self.unknown)(st, fr, x)

    def unknown(self, st, fr, x):
        if x.op in ir_bin:
            return self.i_bin(st, fr, x)
        if x.op in ir_casts:
            return self.i_cast(st, fr, x)
        raise Unsupported('instruction ' + x.op)

    # ---- control
    def i_br(self, st, fr, x):
        if x.a[0] is None:
            return self.enter(st, fr, x.a[1])
        c = self.val(st, ('i', 1), x.a[0])
        if c is UNDEF:
            raise Unsupported('branch on undefined value in ' + self.where(st))
        if c is TRUE or c is FALSE:
            if fr.soft and fr.loops and x.a[0][1] in fr.soft:
                self.mark_soft(fr, x)
            return self.enter(st, fr, x.a[1] if c is TRUE else x.a[2])
        k = None
        e = c.a[0] if c.op == 'not' else c
        assumed = e.op == 'eq' and c not in st.pcset and self.known_cheap(st, e) is None and self.unconstrained(st, e.a[0])
        if not assumed:
            k = self.known(st, c)
        if k is not None:
            if st.unchecked:
                if not self.feasible(st):
                    raise PathEnd()
                st.unchecked = False
            if fr.loops:
                self.mark_soft(fr, x)
        else:
            # does this branch decide leaving an active loop?
            loops = fr.fn.loops()
            for h, sn in fr.loops.items():
                if isinstance(sn, Snap):
                    body = loops[h]
                    if (x.a[1] in body) != (x.a[2] in body) and (fr.fn.name, h) not in self.nosum:
                        raise Restart(fr.id, h)
            self.soft_restart(st)
            raise ForkOn([c, not_(c)], 'assumed' if assumed else True)
        self.enter(st, fr, x.a[1] if k else x.a[2])

    def i_switch(self, st, fr, x):
        t, c, d, cs = x.a
        v = self.val(st, t, c)
        if v is UNDEF:
            raise Unsupported('switch on undefined value')
        if v.sort == 'B':
            v = ite(v, ONE, ZERO)
        w = t[1]
        targets = {}
        order = []
        dflt = TRUE
        for cv, b in cs:
            e = eq(self.un(st, v, w), C(cv[1] % (1 << w)))
            if b not in targets:
                targets[b] = e
                order.append(b)
            else:
                targets[b] = or_(targets[b], e)
            dflt = and_(dflt, not_(e))
        if d in targets:
            targets[d] = or_(targets[d], dflt)
        else:
            targets[d] = dflt
            order.append(d)
        live = []
        for b in order:
            k = self.known_cheap(st, targets[b])
            if k is True:
                return self.enter(st, fr, b)
            if k is None:
                live.append(b)
        loops = fr.fn.loops()
        assumed = len(live) > 1 and self.unconstrained(st, v)
        if len(live) > 1 and not assumed:
            live = [b for b in live if self.feasible(st, targets[b])]
        if len(live) == 1:
            st.assume(targets[live[0]])
            return self.enter(st, fr, live[0])
        if not live:
            raise PathEnd()
        for h, sn in fr.loops.items():
            if isinstance(sn, Snap):
                body = loops[h]
                ins = [b in body for b in live]
                if any(ins) and not all(ins) and (fr.fn.name, h) not in self.nosum:
                    raise Restart(fr.id, h)
        self.soft_restart(st)
        raise ForkOn([targets[b] for b in live], 'assumed' if assumed else True)

    def mark_soft(self, fr, x):
        loops = fr.fn.loops()
        for h, sn in fr.loops.items():
            if isinstance(sn, Snap) and (x.a[1] in loops[h]) != (x.a[2] in loops[h]):
                sn.soft = True

    def soft_restart(self, st):
        """a body that forks in the first iteration of a loop of symbolic length: generalise now, not after the known iterations"""
        for f in reversed(st.frames):
            for h, sn in f.loops.items():
                if isinstance(sn, Snap) and sn.it == 0 and sn.soft and not sn.nosoft and (f.fn.name, h) not in self.nosum:
                    raise Restart(f.id, h, True)

    def i_ret(self, st, fr, x):
        v = None if x.a is None else self.val(st, x.ty, x.a)
        self.do_ret(st, v)

    def pop(self, st):
        fr = st.frames.pop()
        for k in fr.allocas:
            st.heap.pop(k, None)
        return fr

    def do_ret(self, st, v):
        fr = self.pop(st)
        if fr.onret:
            fr.onret(st, v)
            return
        if fr.soft and (v is TRUE or v is FALSE) and st.frames and fr.ret and fr.ret[0]:
            f = st.frames[-1]
            f.soft = (f.soft or frozenset()) | {fr.ret[0]}
        self.finish_call(st, fr.ret, v)

    def finish_call(self, st, ret, v):
        if ret is None or not st.frames:
            return
        caller = st.frames[-1]
        res, normal, unwind = ret
        if res is not None:
            caller.regs[res] = v
        if normal is not None:
            self.enter(st, caller, normal)
        else:
            caller.ip += 1

    def i_unreachable(self, st, fr, x):
        self.oblige(st, 'unreachable', FALSE, why='unreachable code reached in ' + self.where(st))
        raise PathEnd()

    # ---- memory instructions
    def i_alloca(self, st, fr, x):
        sz = self.m.size(x.ty)
        if x.a is not None:
            n = self.val(st, *x.a)
            if n.op != 'c':
                raise Unsupported('variable alloca')
            sz *= n.a
        p = self.alloc(st, 'mem', '%s:%s' % (fr.fn.name[:40], x.res), sz)
        fr.allocas.append((p.obj, p.params))
        fr.regs[x.res] = p
        fr.ip += 1

    def i_load(self, st, fr, x):
        p = self.val(st, ('ptr',), x.a[0])
        self.atomic = x.a[1]
        v = self.load(st, p, x.ty)
        self.atomic = False
        if isinstance(v, T) and x.ty == ('i', 1) and v.sort == 'I':
            v = ne(mod(v, 2), ZERO)
        fr.regs[x.res] = v
        fr.ip += 1

    def i_store(self, st, fr, x):
        v = self.val(st, x.ty, x.a[0])
        p = self.val(st, ('ptr',), x.a[1])
        self.atomic = x.a[2]
        self.store(st, p, x.ty, v)
        self.atomic = False
        fr.ip += 1

    def i_getelementptr(self, st, fr, x):
        b = self.val(st, ('ptr',), x.a[0])
        fr.regs[x.res] = self.gep(st, b, x.ty, x.a[1], fr)
        fr.ip += 1

    def i_extractvalue(self, st, fr, x):
        a, ix = x.a
        v = self.val(st, x.ty, a)
        for i in ix:
            v = UNDEF if v is UNDEF else v[i]
        fr.regs[x.res] = v
        fr.ip += 1

    def i_insertvalue(self, st, fr, x):
        a, t2, b, ix = x.a
        v = self.val(st, x.ty, a)
        e = self.val(st, t2, b)

        def ins(v, t, ix):
            t = self.m.resolve(t)
            n = len(t[1]) if t[0] == 'struct' else t[1]
            v = [UNDEF] * n if v is UNDEF else list(v)
            et = t[1][ix[0]] if t[0] == 'struct' else t[2]
            v[ix[0]] = e if len(ix) == 1 else ins(v[ix[0]], et, ix[1:])
            return tuple(v)
        fr.regs[x.res] = ins(v, x.ty, ix)
        fr.ip += 1

    def i_select(self, st, fr, x):
        c, a, b = x.a
        c = self.val(st, ('i', 1), c)
        a = self.val(st, x.ty, a)
        b = self.val(st, x.ty, b)
        if c is UNDEF:
            raise Unsupported('select on undef')
        if c is TRUE or a == b:
            r = a
        elif c is FALSE:
            r = b
        elif isinstance(a, T) and isinstance(b, T) and a.sort == b.sort:
            r = ite(c, a, b)
        else:
            r = a if self.decide(st, c) else b
        fr.regs[x.res] = r
        fr.ip += 1

    def i_freeze(self, st, fr, x):
        fr.regs[x.res] = self.val(st, x.ty, x.a)
        fr.ip += 1

    def i_fence(self, st, fr, x):
        fr.ip += 1

    def i_atomicrmw(self, st, fr, x):
        k, a, v = x.a
        p = self.val(st, ('ptr',), a)
        v = self.val(st, x.ty, v)
        self.atomic = True
        old = self.load(st, p, x.ty)
        w = x.ty[1] if x.ty[0] == 'i' else 64
        if k == 'xchg':
            new = v
        elif k == 'add':
            new = add(old, v)
        elif k == 'sub':
            new = sub(old, v)
        else:
            new = self.binop(st, k, old, v, w)
        self.store(st, p, x.ty, new)
        self.atomic = False
        fr.regs[x.res] = old
        fr.ip += 1

    def i_cmpxchg(self, st, fr, x):
        a, c, n = x.a
        p = self.val(st, ('ptr',), a)
        c = self.val(st, x.ty, c); n = self.val(st, x.ty, n)
        self.atomic = True
        old = self.load(st, p, x.ty)
        self.atomic = False
        e = self.cmp_eq(st, old, c, x.ty)
        if self.decide(st, e):
            self.atomic = True
            self.store(st, p, x.ty, n)
            self.atomic = False
            fr.regs[x.res] = (old, TRUE)
        else:
            fr.regs[x.res] = (old, FALSE)
        fr.ip += 1

    # ---- arithmetic
    def i_bin(self, st, fr, x):
        a, b, fl = x.a
        va = self.val(st, x.ty, a); vb = self.val(st, x.ty, b)
        fr.regs[x.res] = self.bin(st, x.op, va, vb, x.ty, fl)
        fr.ip += 1

    i_add = i_sub = i_mul = i_bin

    def bin(self, st, op, va, vb, ty, fl=()):
        if va is UNDEF or vb is UNDEF:
            return UNDEF
        if ty[0] == 'f':
            return uf(op + str(ty[1]), [va, vb], sort='D')
        if isinstance(va, Ptr) or isinstance(vb, Ptr):
            if op == 'sub' and isinstance(va, Ptr) and isinstance(vb, Ptr) and va.obj is vb.obj and va.params == vb.params:
                return sub(va.off, vb.off)
            va = self.addr(va); vb = self.addr(vb)
        if va.sort == 'B' or ty == ('i', 1):
            va = va if va.sort == 'B' else ne(va, ZERO)
            vb = vb if vb.sort == 'B' else ne(vb, ZERO)
            if op == 'and':
                return and_(va, vb)
            if op == 'or':
                return or_(va, vb)
            if op in ('xor', 'add', 'sub'):
                return ite(va, not_(vb), vb)
            raise Unsupported('i1 ' + op)
        r = self.binop(st, op, va, vb, ty[1], fl)
        if 'nsw' in fl and op in ('add', 'sub', 'mul'):
            # signed overflow is undefined behaviour: obligation
            h = 1 << (ty[1] - 1)
            if not (r.lo >= -h and r.hi < h):
                lo, hi = st.rng(r)
                if not (lo >= -h and hi < h):
                    if self._inrange(st, r, -h, h - 1):
                        return r
                    a1, b1 = self.sg(st, va, ty[1]), self.sg(st, vb, ty[1])
                    r = self.binop(st, op, a1, b1, ty[1], fl)
                    c = and_(le(C(-h), r), le(r, C(h - 1)))
                    if self.in_repo(st):
                        self.oblige(st, 'no-signed-overflow', c, why='signed overflow in ' + self.where(st))
                    st.assume(c)
        return r

    def in_repo(self, st):
        return 'blackhole' in self.dem.get(st.frames[-1].fn.name, '')

    def binop(self, st, op, a, b, w, fl=()):
        if op == 'add':
            return self.shrink(st, add(a, b), w)
        if op == 'sub':
            return self.shrink(st, sub(a, b), w)
        if op == 'mul':
            if a.op != 'c' and b.op != 'c':
                a = self.un(st, a, w) if 'nsw' not in fl else self.sg(st, a, w)
                b = self.un(st, b, w) if 'nsw' not in fl else self.sg(st, b, w)
            return self.shrink(st, mul(a, b), w)
        if op == 'shl':
            if b.op == 'c':
                return self.shrink(st, scale(a, 1 << b.a), w)
            return self._shiftcases(st, op, a, b, w)
        if op == 'lshr':
            if b.op == 'c':
                return div(self.un(st, a, w), 1 << b.a)
            return self._shiftcases(st, op, a, b, w)
        if op == 'ashr':
            if b.op == 'c':
                return div(self.sg(st, a, w), 1 << b.a)
            return self._shiftcases(st, op, a, b, w)
        if op in ('udiv', 'urem'):
            a = self.un(st, a, w); b = self.un(st, b, w)
            if b.op != 'c':
                return self._divsym(st, op, a, b)
            if b.a == 0:
                self.oblige(st, 'no-division-by-zero', FALSE, why='division by zero in ' + self.where(st))
                raise PathEnd()
            return div(a, b.a) if op == 'udiv' else mod(a, b.a)
        if op in ('sdiv', 'srem'):
            a = self.sg(st, a, w); b = self.sg(st, b, w)
            if b.op != 'c':
                return self._divsym(st, op, a, b)
            n = b.a
            s = 1
            if n == 0:
                self.oblige(st, 'no-division-by-zero', FALSE, why='division by zero in ' + self.where(st))
                raise PathEnd()
            if n < 0:
                s = -1
                n = -n
            lo, hi = st.rng(a)
            k = True if lo >= 0 else (False if hi <= 0 else self.known(st, le(ZERO, a)))
            if k is True:
                q = div(a, n); r = mod(a, n)
            elif k is False:
                q = TM.neg(div(TM.neg(a), n)); r = TM.neg(mod(TM.neg(a), n))
            else:
                c = le(ZERO, a)
                q = ite(c, div(a, n), TM.neg(div(TM.neg(a), n)))
                r = ite(c, mod(a, n), TM.neg(mod(TM.neg(a), n)))
            return scale(q, s) if op == 'sdiv' else r
        a = self.un(st, a, w)
        b = self.un(st, b, w)
        M = (1 << w) - 1
        if a.op == 'c' and b.op == 'c':
            return C({'and': a.a & b.a, 'or': a.a | b.a, 'xor': a.a ^ b.a}[op])
        if a.op == 'c':
            a, b = b, a
        if b.op == 'c':
            v = b.a
            if op == 'and':
                if v == 0:
                    return ZERO
                if v == M:
                    return a
                # contiguous runs
                out = ZERO
                i = 0
                while i < w:
                    if (v >> i) & 1:
                        j = i
                        while j < w and (v >> j) & 1:
                            j += 1
                        out = add(out, scale(mod(div(a, 1 << i), 1 << (j - i)), 1 << i))
                        i = j
                    else:
                        i += 1
                return out
            if op == 'or':
                if v == 0:
                    return a
                return add(a, C(v), TM.neg(self.binop(st, 'and', a, b, w)))
            if op == 'xor':
                if v == 0:
                    return a
                if v == M:
                    return sub(C(M), a)
                return add(a, C(v), scale(self.binop(st, 'and', a, b, w), -2))
        if a is b:
            return ZERO if op == 'xor' else a
        x, y = (a, b) if a.id < b.id else (b, a)
        # disjoint bits: scaled + small
        if op in ('or', 'xor', 'add'):
            for p, q in ((a, b), (b, a)):
                g = self._pow2div(p)
                if g > 1 and q.hi < g:
                    return add(p, q)
        if st.rng(x)[0] >= 0 and st.rng(x)[1] <= 1 and st.rng(y)[0] >= 0 and st.rng(y)[1] <= 1:
            p, q = eq(x, ONE), eq(y, ONE)
            c = and_(p, q) if op == 'and' else or_(p, q) if op == 'or' else or_(and_(p, not_(q)), and_(not_(p), q))
            return ite(c, ONE, ZERO)
        r = uf('bv' + op, [x, y], 0, M)
        return r

    def _pow2div(self, t):
        c, d = lin(t)
        g = 1 << 64
        for v in list(d.values()) + ([c] if c else []):
            v = abs(v)
            g = min(g, v & -v)
        return g

    def _shiftcases(self, st, op, a, b, w):
        b = self.un(st, b, w)
        lo, hi = st.rng(b)
        if hi >= w and self.in_repo(st) and self.known(st, lt(b, C(w))) is not True:
            self.oblige(st, 'shift-within-width', lt(b, C(w)), why='shift by the width or more in ' + self.where(st))
            if not st.assume(lt(b, C(w))):
                raise PathEnd()
        lo = int(max(lo, 0)); hi = int(min(hi, w - 1))
        if hi - lo > 64:
            raise Unsupported('symbolic shift')
        if op == 'shl' and a.op == 'c':
            # a power of two times a constant: one path for each amount
            return self.binop(st, op, a, C(lo + self.choose(st, [eq(b, C(i)) for i in range(lo, hi + 1)])), w)
        r = ZERO
        for i in range(hi, lo - 1, -1):
            r = ite(eq(b, C(i)), self.binop(st, op, a, C(i), w), r)
        return r

    def _divsym(self, st, op, a, b):
        self.oblige(st, 'no-division-by-zero', not_(eq(b, ZERO)), why='division by zero in ' + self.where(st))
        if not st.assume(not_(eq(b, ZERO))):
            raise PathEnd()
        if self.known(st, le(ZERO, a)) and self.known(st, lt(ZERO, b)):
            # the quotients 0 and 1 exactly; beyond them an unknown quotient of at least 2
            q = uf('symudiv', [a, b], 2, max(a.hi, 2))
            r = uf('symurem', [a, b], 0, INF)
            st.assume(lt(r, b))
            st.assume(or_(lt(a, scale(b, 2)), le(r, sub(a, scale(b, 2)))))
            if op[1:] == 'div':
                return ite(lt(a, b), ZERO, ite(lt(a, scale(b, 2)), ONE, q))
            return ite(lt(a, b), a, ite(lt(a, scale(b, 2)), sub(a, b), r))
        return uf('sym' + op, [a, b], 0 if op[0] == 'u' else -INF, a.hi if op == 'udiv' else INF)

    def shrink(self, st, t, w):
        """keep representatives from growing without bound"""
        if t.op == 'c':
            if not (-(1 << (w - 1)) <= t.a < (1 << w)):
                return C(((t.a + (1 << (w - 1))) % (1 << w)) - (1 << (w - 1))) if t.a < 0 else C(t.a % (1 << w))
            return t
        return t

    def cmp_eq(self, st, a, b, ty):
        if a is UNDEF or b is UNDEF:
            raise Unsupported('comparison with undefined value in ' + self.where(st))
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return self.ptr_eq(st, a, b)
        if a.sort == 'B' or b.sort == 'B':
            a = a if a.sort == 'B' else ne(a, ZERO)
            b = b if b.sort == 'B' else ne(b, ZERO)
            return eq(a, b)
        w = ty[1]
        h = 1 << (w - 1)
        for lo_, hi_ in ((0, 2 * h), (-h, h)):
            if a.lo >= lo_ and a.hi < hi_ and b.lo >= lo_ and b.hi < hi_:
                return eq(a, b)
        ra, rb = st.rng(a), st.rng(b)
        for lo_, hi_ in ((0, 2 * h), (-h, h)):
            if ra[0] >= lo_ and ra[1] < hi_ and rb[0] >= lo_ and rb[1] < hi_:
                return eq(a, b)
        if self._inrange(st, a, -h, h - 1) and self._inrange(st, b, -h, h - 1):
            return eq(a, b)
        return eq(self.un(st, a, w), self.un(st, b, w))

    def ptr_eq(self, st, a, b):
        if isinstance(a, T):
            a = Ptr(None, (), a)
        if isinstance(b, T):
            b = Ptr(None, (), b)
        if a.obj is b.obj:
            if a.params == b.params:
                return eq(a.off, b.off)
            return and_(eq(a.off, b.off), *[eq(x, y) for x, y in zip(a.params, b.params)])
        if a.obj is None or b.obj is None:
            n = a if a.obj is None else b
            if n.off is ZERO:
                return FALSE
            raise Unsupported('comparison of pointer with integer')
        # element object against array pointer
        a2 = self._elemview(a); b2 = self._elemview(b)
        if a2.obj is b2.obj:
            return and_(eq(a2.off, b2.off), *[eq(x, y) for x, y in zip(a2.params, b2.params)])
        return FALSE

    def _elemview(self, p):
        arr = getattr(p.obj, 'arr', None)
        if arr is not None:
            return Ptr(arr, p.params[:-1], add(scale(p.params[-1], arr.stride), p.off))
        return p

    def i_icmp(self, st, fr, x):
        c, a, b = x.a
        ty = x.ty
        a = self.val(st, ty, a); b = self.val(st, ty, b)
        if a is UNDEF or b is UNDEF:
            # no effect unless it is used
            fr.regs[x.res] = UNDEF
            fr.ip += 1
            return
        r = fr.regs[x.res] = self.icmp(st, c, a, b, ty)
        if r is TRUE or r is FALSE:
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                sym = a.obj is b.obj and sub(a.off, b.off).op != 'c'
            else:
                sym = isinstance(a, T) and isinstance(b, T) and a.sort == 'I' and b.sort == 'I' and sub(a, b).op != 'c'
            if sym:
                fr.soft = (fr.soft or frozenset()) | {x.res}
            elif fr.soft:
                fr.soft = fr.soft - {x.res}
        fr.ip += 1

    def icmp(self, st, c, a, b, ty):
        if c == 'eq':
            return self.cmp_eq(st, a, b, ty)
        if c == 'ne':
            return not_(self.cmp_eq(st, a, b, ty))
        if a is UNDEF or b is UNDEF:
            raise Unsupported('comparison with undefined value in ' + self.where(st))
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                a2, b2 = self._elemview(a), self._elemview(b)
                if a2.obj is b2.obj and a2.params == b2.params:
                    a, b = a2.off, b2.off
                    w = 64
                    return {'ugt': gt, 'uge': ge, 'ult': lt, 'ule': le, 'sgt': gt, 'sge': ge, 'slt': lt, 'sle': le}[c](a, b)
            a = self.addr(a); b = self.addr(b)
            w = 64
        else:
            if a.sort == 'B':
                a = ite(a, ONE, ZERO)
            if b.sort == 'B':
                b = ite(b, ONE, ZERO)
            w = ty[1] if ty[0] == 'i' else 64
        if c[0] == 's':
            a = self.sg(st, a, w); b = self.sg(st, b, w)
        else:
            a = self.un(st, a, w); b = self.un(st, b, w)
        return {'gt': gt, 'ge': ge, 'lt': lt, 'le': le}[c[1:]](a, b)

    def i_fcmp(self, st, fr, x):
        c, a, b = x.a
        a = self.val(st, x.ty, a); b = self.val(st, x.ty, b)
        fr.regs[x.res] = uf('fcmp_' + c, [a, b], sort='B')
        fr.ip += 1

    def i_fneg(self, st, fr, x):
        fr.regs[x.res] = uf('fneg', [self.val(st, x.ty, x.a)], sort='D')
        fr.ip += 1

    def i_cast(self, st, fr, x):
        ft, a = x.a
        v = self.val(st, ft, a)
        fr.regs[x.res] = self.cast(st, x.op, ft, v, x.ty)
        fr.ip += 1

    def cast(self, st, op, ft, v, tt):
        if v is UNDEF:
            return v
        if op == 'zext':
            if v.sort == 'B' if isinstance(v, T) else False:
                return ite(v, ONE, ZERO)
            if isinstance(v, Ptr):
                return v
            return self.un(st, v, ft[1])
        if op == 'sext':
            if v.sort == 'B':
                return ite(v, C(-1), ZERO)
            return self.sg(st, v, ft[1])
        if op == 'trunc':
            if isinstance(v, Ptr):
                v = self.addr(v)
            if v.sort == 'B':
                return v
            if tt == ('i', 1):
                return ne(mod(v, 2), ZERO)
            n = 1 << tt[1]
            # drop multiples of 2^w only when it makes the term smaller
            if v.lo < -(n // 2) or v.hi >= n:
                lo, hi = st.rng(v)
                if lo < -(n // 2) or hi >= n:
                    if v.op in ('+', '*', 'ite', 'mod', 'div'):
                        return v
            return v
        if op in ('bitcast', 'addrspacecast'):
            return self.conv(st, v, self.m.resolve(tt))
        if op == 'ptrtoint':
            return v
        if op == 'inttoptr':
            if isinstance(v, T):
                return NULL if v is ZERO else Ptr(None, (), v)
            return v
        if op in ('sitofp', 'uitofp'):
            if v.sort == 'B':
                v = ite(v, ONE, ZERO)
            v = self.sg(st, v, ft[1]) if op == 'sitofp' else self.un(st, v, ft[1])
            if v.op == 'c':
                return var('fp:' + repr(float(v.a)), sort='D')
            return uf('i2d', [v], sort='D')
        if op in ('fptosi', 'fptoui'):
            w = tt[1]
            if v.op == 'v' and v.a[0].startswith('fp:'):
                try:
                    d = float(v.a[0][3:])
                    if d == d and abs(d) < 1 << 62:
                        return C(int(d))
                except ValueError:
                    pass
            return uf('d2i%s%d' % (op[4], w), [v], -(1 << (w - 1)) if op == 'fptosi' else 0,
                      (1 << (w - 1)) - 1 if op == 'fptosi' else (1 << w) - 1)
        if op in ('fpext', 'fptrunc'):
            return uf(op, [v], sort='D')
        raise Unsupported('cast ' + op)

    # ---- calls
    def i_call(self, st, fr, x):
        d = x.a
        cal = d['callee']
        args = [self.val(st, t, o) if t != ('metadata',) else None for t, o, a in d['args']]
        if cal[0] == 'g':
            name = cal[1]
        elif cal[0] == 'asm':
            raise Unsupported('inline asm')
        else:
            p = self.val(st, ('ptr',), cal)
            if not isinstance(p, Ptr) or not isinstance(p.obj, FnObj):
                if isinstance(p, Ptr) and p.obj is None:
                    self.oblige(st, 'memory-safety', FALSE, why='call through null pointer in ' + self.where(st))
                    raise PathEnd()
                raise Unsupported('indirect call %r in %s' % (p, self.where(st)))
            name = p.obj.name
        ret = (x.res, d.get('normal'), d.get('unwind'))
        self.call(st, name, args, ret, d)

    i_invoke = i_call

    def find_model(self, name):
        r = self.modelcache.get(name, 0)
        if r == 0:
            r = self.models.lookup(name, self.dem.get(name, name), name in self.m.funcs)
            self.modelcache[name] = r
        return r

    def call(self, st, name, args, ret, d=None):
        if name in self.m.aliases:
            name = self.m.aliases[name]
        mdl = self.find_model(name)
        con = self.contracts.get(name)
        if con is not None and (name not in self.m.funcs or name in self.forced) and not any(f.fn.name == con for f in st.frames):
            mdl = None
        if mdl is not None:
            self.trusted[mdl.__name__ if not hasattr(mdl, 'tag') else mdl.tag] = self.dem.get(name, name)[:160]
            saved = st.copy() if not getattr(mdl, 'pure', False) else None
            st.cur_ret = ret
            try:
                r = mdl(self, st, args, name, d)
            except ForkOn as f:
                if saved is not None:
                    # undo partial effects
                    keep = st.pcset
                    st.__dict__.update(saved.__dict__)
                raise
            if r is PENDING:
                return
            if isinstance(r, Throw):
                # the frame is at the call instruction: unwind from here
                return self.throw_from(st, ret, r.ti, r.obj)
            self.finish_call(st, ret, r)
            return
        con = self.contract_for(st, name)
        if con is not None:
            name = con
        if self.snapstack and '_M_realloc_' in name and args[0].obj is not None:
            v = args[0]
            if any((v.obj, v.params) in S.heap for S in self.snapstack) and v.off.op == 'c':
                raise GrowHint('std', v.obj, v.params, v.off.a, self.elemsize(name))
        fn = self.m.funcs.get(name)
        if fn is None:
            raise Unsupported('external function %s (%s) called from %s' % (name, self.dem.get(name, name), self.where(st)))
        fn.parse()
        if len(st.frames) > 200:
            raise Unsupported('call depth')
        self.touched[name] = self.touched.get(name, 0) + 1
        f2 = Frame(fn)
        f2.noloop = False
        if d is not None:
            for i, (t, o, at) in enumerate(d['args']):
                if 'byval' in at and i < len(args):
                    sz = self.m.size(at['byval'])
                    p = self.alloc(st, 'mem', 'byval', sz)
                    self.memcpy(st, p, args[i], C(sz))
                    args[i] = p
                    f2.allocas.append((p.obj, p.params))
        for (t, n, a), v in zip(fn.params, args):
            f2.regs[n] = v
        f2.ret = ret
        st.frames.append(f2)

    def elemsize(self, name):
        """element size of the std::vector whose growth function is `name` (from its pointer arithmetic)"""
        fn = self.m.funcs[name].parse()
        sizes = {self.m.size(x.ty) for b in fn.order for x in fn.insts(b) if x.op == 'getelementptr' and len(x.a[1]) == 1}
        if len(sizes) == 1:
            return sizes.pop()
        raise Unsupported('element size')

    def contract_for(self, st, name):
        if not self.contracts:
            return None
        c = self.contracts.get(name)
        if c is None:
            return None
        # a contract is not used for the function under verification at the outermost level
        if self.active_contract and self.active_contract.get(name, 0) > 0:
            if not any(f.fn.name == name for f in st.frames):
                return None
        return c

    # ---- exceptions
    def throw_from(self, st, ret, ti, obj):
        if ret is not None and ret[2] is not None:
            fr = st.frames[-1]
            fr.exc = (ti, obj)
            self.enter(st, fr, ret[2])
            return
        self.unwind(st, ti, obj)

    def unwind(self, st, ti, obj):
        """propagate out of the current frame"""
        while st.frames:
            fr = self.pop(st)
            if fr.onret:
                raise Unsupported('exception through a ghost callback')
            if not st.frames:
                break
            caller = st.frames[-1]
            if fr.ret and fr.ret[2] is not None:
                caller.exc = (ti, obj)
                self.enter(st, caller, fr.ret[2])
                return
        self.oblige(st, 'no-uncaught-exception', FALSE, why='exception %s escapes' % ti)
        raise PathEnd()

    def ti_chain(self, st, ti):
        out = [ti]
        todo = [ti]
        while todo:
            t = todo.pop()
            ps = EXC_PARENT.get(t)
            if ps is None:
                ps = []
                g = self.m.globals.get(t)
                if g is not None:
                    ps = [p for p in re.findall(r'@(_ZTI[\w]+)', g.text)]
                if not ps and (g is None or self.m.glob(t).external):
                    if 'boost' in t or 'St' in t or 'system_error' in t:
                        ps = ['_ZTISt9exception']
            for p in ps:
                if p not in out:
                    out.append(p)
                    todo.append(p)
        return out

    def ti_id(self, name):
        if name not in self.ti_ids:
            self.ti_ids[name] = len(self.ti_ids) + 1
        return self.ti_ids[name]

    def i_landingpad(self, st, fr, x):
        cleanup, clauses = x.a
        ti, obj = fr.exc
        chain = self.ti_chain(st, ti)
        sel = None
        for k, op in clauses:
            if k != 'catch':
                sel = 0 if sel is None else sel
                continue
            if op[0] == 'null':
                sel = self.ti_id('*')
                break
            if op[1] in chain:
                sel = self.ti_id(op[1])
                break
        if sel is None:
            if cleanup:
                sel = 0
            else:
                fr2 = fr
                # not handled here
                self.unwind_from_landing(st, ti, obj)
                return
        fr.regs[x.res] = (obj, C(sel))
        fr.ip += 1

    def unwind_from_landing(self, st, ti, obj):
        fr = self.pop(st)
        if not st.frames:
            self.oblige(st, 'no-uncaught-exception', FALSE, why='exception %s escapes' % ti)
            raise PathEnd()
        if fr.ret and fr.ret[2] is not None:
            st.frames[-1].exc = (ti, obj)
            self.enter(st, st.frames[-1], fr.ret[2])
            return
        self.unwind(st, ti, obj)

    def i_resume(self, st, fr, x):
        ti, obj = fr.exc
        self.unwind_from_landing(st, ti, obj)

    # ------------------------------------------------------------ loop summaries
    def summarise(self, snap):
        """returns exit states, or None when no sound summary was found"""
        key = (next(f for f in snap.state.frames if f.id == snap.frame_id).fn.name, snap.header)
        if self.summ_depth > 4:
            return None
        import loops as LP
        self.summ_depth += 1
        try:
            for attempt in range(8):
                self.snapstack.append(snap.state)
                saved = LP.save_obl(self)
                try:
                    return LP.summarise(self, snap)
                except GrowHint as h:
                    LP.restore_obl(self, saved)
                    if any((h.obj, h.params) in S.heap for S in self.snapstack[:-1]):
                        raise
                    if not LP.relocate(self, snap.state, h):
                        raise Unsupported('container growth in a loop: %s %r' % (h.kind, h.obj))
                    self.trusted['container growth: an unbounded container keeps its elements when it grows'] = h.kind
                finally:
                    self.snapstack.pop()
            return None
        except Unsupported as e:
            self.loopfail[key] = str(e)
            self.log('loop not summarised', self.dem.get(key[0], key[0])[:100], str(e)[:300])
            return None
        finally:
            self.summ_depth -= 1


class Throw:
    def __init__(self, ti, obj):
        self.ti = ti
        self.obj = obj


class _Pending:
    pass


PENDING = _Pending()

from ir import BIN as ir_bin, CASTS as ir_casts
Obj.pvars = ()
Obj.grow = False
Obj.view = False
Obj.ext = False
Obj.const = False
Obj.noterm = False
