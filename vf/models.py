"""Trusted contracts of library functions (keyed on mangled names or on simplified demangled names)."""
import re
from math import gcd
from terms import *
from seqs import *
import seqs as SQ
from state import *
from exec import Throw, Restart, ForkOn, PathEnd, PENDING, Frame

EXACT = {}
RX = []


def m(*names, **kw):
    def deco(f):
        for n in names:
            EXACT[n] = f
        f.pure = kw.get('pure', False)
        f.tag = kw.get('tag', f.__name__)
        return f
    return deco


def rx(*pats, **kw):
    def deco(f):
        for p in pats:
            RX.append((re.compile(p), f))
        f.pure = kw.get('pure', False)
        f.tag = kw.get('tag', f.__name__)
        return f
    return deco


LONGSTR = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>'


def simplify(d):
    return d.replace(LONGSTR, 'std::string').replace('std::__cxx11::', 'std::')


class Models:
    def __init__(self, extra_exact=None, extra_rx=None):
        self.exact = dict(EXACT)
        self.rx = list(extra_rx or []) + RX
        self.exact.update(extra_exact or {})

    def lookup(self, name, dem, hasbody):
        f = self.exact.get(name)
        if f is not None:
            return f
        s = simplify(dem)
        for p, f in self.rx:
            if p.match(s):
                return f
        return None


def u64(ex, st, t):
    return ex.un(st, t, 64)


# ---------------------------------------------------------------- harness interface
def label(ex, st, p):
    return ex.cstr(st, p).litval().decode()


def input_name(st, lab, idx):
    """name and index parameters of an input"""
    if idx is not None:
        st.inputs[lab] = st.inputs.get(lab) or {}
        return 'in:' + lab, [idx]
    if st.stack:
        return 'in:' + lab, list(st.stack)
    k = st.occ.get(lab, 0)
    st.occ[lab] = k + 1
    return 'in:' + lab, [C(k)]


def _bounded(ex, st, nm, ps, lo, hi):
    t = uf(nm, ps, lo.a if lo.op == 'c' else -(1 << 63), hi.a if hi.op == 'c' else (1 << 63) - 1)
    if lo.op != 'c':
        st.assume(le(lo, t))
    if hi.op != 'c':
        st.assume(le(t, hi))
    return t


@m('vf_int', 'vf_size')
def vf_int(ex, st, a, name, d):
    lab = label(ex, st, a[0])
    nm, ps = input_name(st, lab, None)
    lo, hi = ex.sg(st, a[1], 64), ex.sg(st, a[2], 64)
    t = _bounded(ex, st, nm, ps, lo, hi)
    st.inputs[lab] = ('int', len(ps), lo.a if lo.op == 'c' else None, hi.a if hi.op == 'c' else None)
    return t


@m('vf_case')
def vf_case(ex, st, a, name, d):
    t = vf_int(ex, st, a, name, d)
    lo, hi = a[1].a, a[2].a
    try:
        for v in range(lo, hi):
            if ex.decide(st, eq(t, C(v))):
                return C(v)
    except ForkOn:
        lab = label(ex, st, a[0])
        if not st.stack:
            st.occ[lab] -= 1
        raise
    return C(hi)


@m('vf_int_at')
def vf_int_at(ex, st, a, name, d):
    lab = label(ex, st, a[0])
    lo, hi = ex.sg(st, a[2], 64), ex.sg(st, a[3], 64)
    t = _bounded(ex, st, 'in:' + lab, [ex.sg(st, a[1], 64)], lo, hi)
    st.inputs[lab] = ('int', 1, lo.a if lo.op == 'c' else None, hi.a if hi.op == 'c' else None)
    return t


def _bytes(ex, st, lab, nm, ps, a, b):
    s = Seq.sym(nm, ps)
    p = ex.bytes_obj(st, s, True, lab)
    st.inputs[lab] = ('str', len(ps), None, None)
    ex.store(st, a, ('ptr',), p)
    ex.store(st, b, ('i', 64), s.length())
    return None


@m('vf_bytes')
def vf_bytes(ex, st, a, name, d):
    lab = label(ex, st, a[0])
    nm, ps = input_name(st, lab, None)
    return _bytes(ex, st, lab, nm, ps, a[1], a[2])


@m('vf_text')
def vf_text(ex, st, a, name, d):
    lab = label(ex, st, a[0])
    nm, ps = input_name(st, lab, None)
    st.assume(ex.nonul(Seq.sym(nm, ps)))
    return _bytes(ex, st, lab, nm, ps, a[1], a[2])


@m('vf_out')
def vf_out(ex, st, a, name, d):
    st.trace = st.trace + ex.read_seq(st, a[0], u64(ex, st, a[1]))


@m('vf_xout')
def vf_xout(ex, st, a, name, d):
    st.expect = st.expect + ex.read_seq(st, a[0], u64(ex, st, a[1]))


@m('vf_stream')
def vf_stream(ex, st, a, name, d):
    if a[0].obj is not None:
        q = ex.resolve(st, a[0], 1)
        st.stdstream = None
        ex.streams.add(None)
        if q.obj.kind == 'glob':
            st.stdstream = q.obj
        else:
            ex.streams.add((q.obj, q.params))


@m('syslog', tag='syslog: the C library formats %s and %.*s and passes the text on')
def syslog(ex, st, a, name, d):
    f = ex.cstr(st, a[1])
    if not f.is_lit():
        msg = Seq.fn('printf', f.qterm())
    elif f.litval() == b'%.*s':
        n = ex.sg(st, a[2], 32)
        if ex.known(st, le(ZERO, n)) is not True and not ex.decide(st, le(ZERO, n)):
            msg = ex.cstr(st, a[3])
        else:
            msg = ex.cut0(st, ex.read_seq(st, a[3], n))
    elif f.litval() == b'%s':
        msg = ex.cstr(st, a[2])
    elif b'%' not in f.litval():
        msg = f
    else:
        raise Unsupported('syslog format %r' % f.litval())
    st.trace = st.trace + Seq.event('syslog', (ex.sg(st, a[0], 32), ZERO, msg))


@m('openlog', 'closelog', tag='openlog and closelog have no effect on the contract')
def openlog(ex, st, a, name, d):
    return None


@m('vf_bytes_at')
def vf_bytes_at(ex, st, a, name, d):
    lab = label(ex, st, a[0])
    return _bytes(ex, st, lab, 'in:' + lab, [ex.sg(st, a[1], 64)], a[2], a[3])


@m('vf_assume')
def vf_assume(ex, st, a, name, d):
    c = ne(a[0], ZERO) if a[0].sort == 'I' else a[0]
    if not st.assume(c) or not ex.feasible(st):
        raise PathEnd()


@m('vf_check')
def vf_check(ex, st, a, name, d):
    c = ne(a[0], ZERO) if a[0].sort == 'I' else a[0]
    ex.oblige(st, label(ex, st, a[1]), c)
    st.assume(c)


@m('vf_cover')
def vf_cover(ex, st, a, name, d):
    lab = label(ex, st, a[0])
    if not ex.covers.get(lab):
        ex.covers[lab] = ex.solver.check(st.pc)[0] == 'sat' or ex.covers.get(lab, False)


@m('vf_generalise')
def vf_generalise(ex, st, a, name, d):
    """loop annotation: the innermost loop being run is left after a number of iterations that nothing here bounds"""
    for f in reversed(st.frames):
        for h, sn in f.loops.items():
            if isinstance(sn, tuple):
                return
            if (f.fn.name, h) not in ex.nosum:
                raise Restart(f.id, h)


@m('vf_symbolic')
def vf_symbolic(ex, st, a, name, d):
    return ONE


def _event(ex, st, a):
    tag = label(ex, st, a[0])
    s = ex.read_seq(st, a[3], u64(ex, st, a[4])) if a[4] is not ZERO else EMPTY
    return Seq.event(tag, (ex.sg(st, a[1], 64) if isinstance(a[1], T) else a[1],
                           ex.sg(st, a[2], 64) if isinstance(a[2], T) else a[2], s))


@m('vf_ev')
def vf_ev(ex, st, a, name, d):
    e = _event(ex, st, a)
    st.trace = st.trace + e


@m('vf_ex')
def vf_ex(ex, st, a, name, d):
    e = _event(ex, st, a)
    st.expect = st.expect + e


@m('vf_trace_eq')
def vf_trace_eq(ex, st, a, name, d):
    ex.oblige(st, label(ex, st, a[0]), seqs=(st.trace, st.expect))


@m('vf_forget')
def vf_forget(ex, st, a, name, d):
    st.trace = st.expect


@m('vf_bytes_eq')
def vf_bytes_eq(ex, st, a, name, d):
    s1 = ex.read_seq(st, a[0], u64(ex, st, a[1]))
    s2 = ex.read_seq(st, a[2], u64(ex, st, a[3]))
    ex.oblige(st, label(ex, st, a[4]), seqs=(s1, s2))


@m('vf_array')
def vf_array(ex, st, a, name, d):
    n, stride, gen, ctx = a
    n = ex.sg(st, n, 64)
    kap = var('K!%d' % ex.newid(), 0, LENMAX)
    mark = Obj.n
    E = Obj('mem', 'elem', stride.a)
    E.is_elem = True
    params = st.stack + (kap,)
    g = st.copy()
    g.stack = params
    g.heap[(E, params)] = Mem(g.id)
    npc0 = len(g.pc)
    g.assume(and_(le(ZERO, kap), lt(kap, n)))
    npc = len(g.pc)
    depth = len(g.frames)
    fn = ex.m.funcs[gen.obj.name].parse()
    fr = Frame(fn)
    for (t, nm, at), v in zip(fn.params, [ctx, kap, Ptr(E, params, ZERO)]):
        fr.regs[nm] = v
    fr.onret = lambda s, v: None
    g.frames.append(fr)
    A = Obj('arr', 'array', None)
    A.stride = stride.a
    A.count = n
    A.elem = E
    E.arr = A
    if not ex.feasible(g):
        return Ptr(A, st.stack, ZERO)
    res = ex.explore([g], lambda s: 'done' if len(s.frames) == depth else None)
    outs = [s for t, s in res if t == 'done']
    alts = []
    objs = set()
    for s in outs:
        if s.trace != st.trace or s.expect != st.expect or s.occ != st.occ:
            raise Unsupported('generator with side effects')
        cells = {}
        for (o, pp), mm in s.heap.items():
            if o.id > mark and o.kind == 'mem' and pp == params and mm.alive:
                cells[o] = mm.cells
                objs.add(o)
        alts.append((and_(*s.pc[npc:]), cells))
        st.inputs.update(s.inputs)
        for o, sg in s.segs.items():
            st.segs.setdefault(o, sg)
    gid = ex.newid()
    for o in objs:
        st.segs[o] = [(None, None, params, alts, gid)]
    return Ptr(A, st.stack, ZERO)


# ---------------------------------------------------------------- memory
@m('_Znwm', '_Znam', 'malloc', '_ZnwmRKSt9nothrow_t')
def op_new(ex, st, a, name, d):
    n = u64(ex, st, a[0])
    if n.op == 'c':
        return ex.alloc(st, 'mem', 'new', n.a)
    lo, hi = st.rng(n)
    if lo == hi:
        return ex.alloc(st, 'mem', 'new', int(lo))
    g = 0
    c0, d2 = lin(n)
    for v in [c0] + list(d2.values()):
        g = gcd(g, v)
    if g < 2 or lo < 0:
        raise Unsupported('allocation of symbolic size in ' + ex.where(st))
    # storage for an array of elements, each of which begins to exist when it is first written
    E = Obj('mem', 'elem', g)
    E.is_elem = True
    A = Obj('arr', 'allocated', None)
    A.stride = g
    A.count = mklin(c0 // g, {a: v // g for a, v in d2.items()})
    A.elem = E
    A.grow = True
    E.arr = A
    return Ptr(A, st.stack, ZERO)


@m('_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm', 'free')
def op_delete(ex, st, a, name, d):
    p = a[0]
    if isinstance(p, Ptr) and p.obj is not None:
        if p.obj.kind == 'arr':
            return
        key = (p.obj, p.params)
        mm = st.heap.get(key)
        if mm is not None:
            mm = mm.clone(st.id)
            mm.alive = False
            st.heap[key] = mm


@m('realloc')
def realloc_m(ex, st, a, name, d):
    n = u64(ex, st, a[1])
    r = op_new(ex, st, [a[1]], name, d)
    p = a[0]
    if isinstance(p, Ptr) and p.obj is not None:
        if n.op != 'c' or p.obj.kind != 'mem' or not isinstance(p.obj.size, int):
            raise Unsupported('realloc of unknown size')
        ex.memcpy(st, r, p, C(min(n.a, p.obj.size)))
        op_delete(ex, st, [p], name, d)
    return r


@m('llvm.is.fpclass.f64', tag='classification of doubles: a function of their bits')
def fpclass_m(ex, st, a, name, d):
    v, k = a[0], u64(ex, st, a[1])
    return uf('fpclass', (v, k), sort='B')


@m('llvm.memcpy.p0.p0.i64', 'llvm.memmove.p0.p0.i64')
def memcpy_i(ex, st, a, name, d):
    ex.memcpy(st, a[0], a[1], u64(ex, st, a[2]))


@m('memcpy', 'memmove')
def memcpy_f(ex, st, a, name, d):
    ex.memcpy(st, a[0], a[1], u64(ex, st, a[2]))
    return a[0]


@m('llvm.memset.p0.i64', 'memset')
def memset(ex, st, a, name, d):
    n = u64(ex, st, a[2])
    if n.op != 'c':
        raise Unsupported('memset of symbolic size')
    if n.a == 0:
        return a[0]
    q = ex.resolve(st, a[0], n.a, True)
    if q.obj.kind == 'sdata':
        raise Unsupported('memset of string data')
    mm = ex.mem(st, q, True)
    if q.off.op != 'c':
        raise Unsupported('memset at symbolic offset')
    v = ex.un(st, a[1], 8)
    ex.clear(st, mm, q.off.a, n.a)
    if v is ZERO and q.off.a == 0 and q.obj.size == n.a:
        mm.zero = True
        return a[0]
    if n.a > 8192:
        raise Unsupported('large memset')
    for i in range(n.a):
        mm.cells[q.off.a + i] = (1, v)
    return a[0]


def first_byte(s):
    p = s.p[0] if s.p else None
    if p is None:
        return None
    if p[0] == 'lit':
        return C(p[1][0])
    if p[0] == 'u':
        return p[1]
    if p[0] == 'sub':
        return uf(p[1][1] + '.at', list(p[1][2]) + [p[2]], 0, 255)
    return None


def seq_cmp(ex, st, s1, s2):
    """three-way comparison result: 0 iff equal.  Texts are totally ordered: each has a rank."""
    e = seqeq_term(s1, s2)
    if e is TRUE:
        return ZERO
    if s1.is_lit() and s2.is_lit():
        return C(-1 if s1.litval() < s2.litval() else 1)
    r1, r2 = rank(st, s1), rank(st, s2)
    l = lt(r1, r2)
    if e is FALSE:
        st.assume(not_(eq(r1, r2)))
    else:
        st.assume(eq(e, eq(r1, r2)))
    if len(s1.p) == 1 and len(s2.p) == 1 and s1.p[0][0] == 'u' and s2.p[0][0] == 'u':
        st.assume(eq(l, lt(s1.p[0][1], s2.p[0][1])))
    else:
        b1, b2 = first_byte(s1), first_byte(s2)
        if b1 is not None and b2 is not None and ex.known(st, lt(ZERO, s1.length())) is True and ex.known(st, lt(ZERO, s2.length())) is True:
            if ex.known(st, lt(b1, b2)) is True:
                st.assume(l)
                return C(-1)
            if ex.known(st, lt(b2, b1)) is True:
                st.assume(lt(r2, r1))
                return ONE
    return ite(e, ZERO, ite(l, C(-1), ONE))


def rank(st, s):
    r = uf('lexrank', [s.qterm()])
    if s.is_lit() and s not in st.ranked:
        # the order of the literals among each other is known
        below = [x for x in st.ranked if x.litval() < s.litval()]
        above = [x for x in st.ranked if x.litval() > s.litval()]
        if below:
            st.assume(lt(uf('lexrank', [max(below, key=lambda x: x.litval()).qterm()]), r))
        if above:
            st.assume(lt(r, uf('lexrank', [min(above, key=lambda x: x.litval()).qterm()])))
        st.ranked = st.ranked | {s}
    return r


@m('memcmp')
def memcmp(ex, st, a, name, d):
    n = u64(ex, st, a[2])
    return seq_cmp(ex, st, ex.read_seq(st, a[0], n), ex.read_seq(st, a[1], n))


@rx(r'std::char_traits<char>::compare\(', r'__gnu_cxx::char_traits<char>::compare\(')
def traits_compare(ex, st, a, name, d):
    return memcmp(ex, st, a, name, d)


@m('strcmp')
def strcmp(ex, st, a, name, d):
    return seq_cmp(ex, st, ex.cstr(st, a[0]), ex.cstr(st, a[1]))


@m('strlen')
def strlen(ex, st, a, name, d):
    return ex.cstr(st, a[0]).length()


@rx(r'std::char_traits<char>::length\(')
def traits_length(ex, st, a, name, d):
    return ex.cstr(st, a[0]).length()


def bool_term(t):
    return t if t.sort == 'B' else ne(t, ZERO)


# ---------------------------------------------------------------- llvm intrinsics
@rx(r'llvm\.(lifetime|dbg|experimental\.noalias|assume|donothing|invariant|prefetch|stacksave|stackrestore)', pure=True,
    tag='llvm intrinsic no-op')
def nop(ex, st, a, name, d):
    return None


@rx(r'llvm\.expect\.', pure=True)
def expect(ex, st, a, name, d):
    return a[0]


@rx(r'llvm\.eh\.typeid\.for', pure=True)
def typeid_for(ex, st, a, name, d):
    if a[0].obj is None:
        return C(ex.ti_id('*'))
    return C(ex.ti_id(a[0].obj.name))


@rx(r'llvm\.(umin|umax|smin|smax)\.', pure=True)
def minmax(ex, st, a, name, d):
    w = int(name.rsplit('.i', 1)[1])
    f = ex.un if name[5] == 'u' else ex.sg
    x, y = f(st, a[0], w), f(st, a[1], w)
    c = le(x, y)
    return ite(c, x, y) if 'min' in name else ite(c, y, x)


@rx(r'llvm\.(s|u)(add|sub|mul)\.with\.overflow', pure=True)
def with_overflow(ex, st, a, name, d):
    w = int(name.rsplit('.i', 1)[1])
    signed = name[5] == 's'
    f = ex.sg if signed else ex.un
    x, y = f(st, a[0], w), f(st, a[1], w)
    op = name[6:9]
    r = {'add': add, 'sub': sub, 'mul': mul}[op](x, y)
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
    ok = and_(le(C(lo), r), le(r, C(hi)))
    return (r, not_(ok))


@rx(r'llvm\.ctlz\.', pure=True)
def ctlz(ex, st, a, name, d):
    w = int(name.rsplit('.i', 1)[1])
    x = ex.un(st, a[0], w)
    if x.op == 'c':
        return C(w - x.a.bit_length())
    r = C(w)
    for b in range(w):
        r = ite(ge(x, C(1 << b)), C(w - 1 - b), r)
    return r


@rx(r'llvm\.trap', pure=True)
def trap(ex, st, a, name, d):
    ex.oblige(st, 'no-abort', FALSE, why='trap reached in ' + ex.where(st))
    raise PathEnd()


@rx(r'llvm\.abs\.', pure=True)
def labs(ex, st, a, name, d):
    w = int(name.rsplit('.i', 1)[1])
    x = ex.sg(st, a[0], w)
    return ite(le(ZERO, x), x, neg(x))


@rx(r'llvm\.is\.constant', pure=True)
def isconst(ex, st, a, name, d):
    return FALSE


# ---------------------------------------------------------------- exceptions
@m('__cxa_allocate_exception')
def cxa_alloc(ex, st, a, name, d):
    return ex.alloc(st, 'mem', 'exception', a[0].a)


@m('__cxa_free_exception')
def cxa_free(ex, st, a, name, d):
    return None


@m('__cxa_throw')
def cxa_throw(ex, st, a, name, d):
    ex.log("throw", ex.where(st)[:200], [f.fn.name[:60] for f in st.frames])
    return Throw(a[1].obj.name, a[0])


@m('__cxa_begin_catch')
def begin_catch(ex, st, a, name, d):
    st.caught.append((st.frames[-1].exc, a[0]))
    return a[0]


@m('__cxa_end_catch')
def end_catch(ex, st, a, name, d):
    if st.caught:
        st.caught.pop()
    return None


@m('__cxa_rethrow')
def rethrow(ex, st, a, name, d):
    exc, obj = st.caught[-1]
    return Throw(exc[0], obj)


@m('_ZSt17current_exceptionv')
def current_exception(ex, st, a, name, d):
    p = ex.alloc(st, 'mem', 'exception_ptr', 8)
    ex.store(st, a[0], ('ptr',), st.caught[-1][1] if st.caught else NULL)
    return None


@m('_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE')
def rethrow_exception(ex, st, a, name, d):
    p = ex.load(st, a[0], ('ptr',))
    for exc, obj in reversed(st.caught):
        if obj is p or obj == p:
            return Throw(exc[0], obj)
    raise Unsupported('an exception is thrown again after it was handled')


@m('_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv', '_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv')
def exception_ptr_count(ex, st, a, name, d):
    return None


@m('_ZNSt3_V215system_categoryEv', '_ZNSt3_V216generic_categoryEv')
def std_category(ex, st, a, name, d):
    o = ex.fnobjs.get(name)
    if o is None:
        o = Obj('glob', 'std error category', 8)
        ex.fnobjs[name] = o
    return Ptr(o, (), ZERO)


@m('__cxa_begin_cleanup', '__cxa_get_exception_ptr')
def get_exc(ex, st, a, name, d):
    return a[0]


@m('__clang_call_terminate', '_ZSt9terminatev', 'abort', '__assert_fail')
def terminate(ex, st, a, name, d):
    what = 'std::terminate' if 'term' in name else name
    if name == '__assert_fail':
        try:
            what = 'failing assertion (%s)' % ex.cstr(st, a[0]).litval().decode()
        except Exception:
            pass
    ex.oblige(st, 'no-abort', FALSE, why='%s reached in %s' % (what, ex.where(st)))
    raise PathEnd()


@m('_ZN5boost16assertion_failedEPKcS1_S1_l', '_ZN5boost20assertion_failed_msgEPKcS1_S1_S1_l')
def boost_assert(ex, st, a, name, d):
    ex.oblige(st, 'no-abort', FALSE, why='assertion fails in ' + ex.where(st))
    raise PathEnd()


STD_THROW = {
    '_ZSt20__throw_length_errorPKc': '_ZTISt12length_error',
    '_ZSt24__throw_out_of_range_fmtPKcz': '_ZTISt12out_of_range',
    '_ZSt20__throw_out_of_rangePKc': '_ZTISt12out_of_range',
    '_ZSt19__throw_logic_errorPKc': '_ZTISt11logic_error',
    '_ZSt25__throw_bad_function_callv': '_ZTISt17bad_function_call',
    '_ZSt17__throw_bad_allocv': '_ZTISt9bad_alloc',
    '_ZSt28__throw_bad_array_new_lengthv': '_ZTISt9bad_alloc',
    '_ZSt24__throw_invalid_argumentPKc': '_ZTISt16invalid_argument',
    '_ZSt20__throw_system_errori': '_ZTISt12system_error',
    '__cxa_bad_cast': '_ZTISt8bad_cast',
    '__cxa_throw_bad_array_new_length': '_ZTISt9bad_alloc',
}


@m(*STD_THROW)
def std_throw(ex, st, a, name, d):
    return Throw(STD_THROW[name], mk_exc(ex, st))


def exc_vtable(ex):
    o = ex.fnobjs.get('excvt')
    if o is None:
        o = Obj('glob', 'std exception vtable', 24)
        ex.fnobjs['excvt'] = o
        ex.ginit[o] = {0: (8, ex.fnptr('_ZNSt9exceptionD1Ev')), 8: (8, ex.fnptr('_ZNSt9exceptionD0Ev')),
                       16: (8, ex.fnptr('_ZNKSt9exception4whatEv'))}
    return Ptr(o, (), ZERO)


def exc_init(ex, st, p, msg):
    q = ex.resolve(st, p, 8, True)
    ex.store(st, q, ('ptr',), exc_vtable(ex))
    if q.obj.size is None or q.obj.size >= 16:
        ex.str_set(st, q.plus(C(8)), msg, size=8)


def mk_exc(ex, st, msg=None):
    p = ex.alloc(st, 'mem', 'exception', 32)
    exc_init(ex, st, p, msg if msg is not None else Seq.fn('what:std'))
    return p


@rx(r'std::(runtime_error|logic_error|invalid_argument|out_of_range|length_error|domain_error|range_error|exception|bad_cast|bad_alloc|bad_function_call|overflow_error)::\1\(',
    tag='std exception constructors')
def exc_ctor(ex, st, a, name, d):
    nm = simplify(ex.dem[name])
    msg = Seq.fn('what:std')
    if '(char const*)' in nm:
        msg = ex.cstr(st, a[1])
    elif '(std::string const&)' in nm:
        msg = sget(ex, st, a[1])
    exc_init(ex, st, a[0], msg)


@rx(r'std::(runtime_error|logic_error|invalid_argument|out_of_range|length_error|domain_error|range_error|exception|bad_cast|bad_alloc|system_error|bad_function_call|overflow_error)::~\1\(',
    r'std::system_error::system_error\(', tag='std exception destructors')
def exc_dtor(ex, st, a, name, d):
    if 'system_error::system_error' in simplify(ex.dem.get(name, '')):
        exc_init(ex, st, a[0], Seq.fn('what:system_error'))
        if 'system_error(int, ' in simplify(ex.dem[name]):
            ex.store(st, a[0].plus(C(16)), ('i', 32), a[1])
            ex.store(st, a[0].plus(C(24)), ('ptr',), a[2])
    return None


@rx(r'boost::system::error_code::(what|message)(\[abi:\w+\])?\(\) const', tag='boost::system::error_code::what: some text')
def error_text(ex, st, a, name, d):
    ex.str_set(st, a[0], Seq.fn('what:error', ex.un(st, ex.load(st, a[1], ('i', 32)), 32)))


@m('_ZNSt9exceptionD1Ev', '_ZNSt9exceptionD0Ev')
def exc_dtor2(ex, st, a, name, d):
    return None


@rx(r'std::(runtime_error|logic_error|exception|bad_cast|bad_alloc)::what\(\) const', r'_ZNKSt9exception4whatEv')
def exc_what(ex, st, a, name, d):
    try:
        s = ex.str_get(st, a[0].plus(C(8))).s
    except Unsupported:
        s = Seq.fn('what:std')
    return ex.bytes_obj(st, s + Seq.lit(b'\0'), False)


# ---------------------------------------------------------------- std::string
def sget(ex, st, p):
    return ex.str_get(st, p).s


@rx(r'std::(allocator<char>|__new_allocator<char>)::~?(allocator|__new_allocator)\(', pure=True)
def alloc_nop(ex, st, a, name, d):
    return None


@rx(r'std::string::basic_string\(\)$', r'std::string::basic_string\(std::allocator<char> const&\)$')
def str_ctor0(ex, st, a, name, d):
    ex.str_set(st, a[0], EMPTY)


@rx(r'std::string::basic_string\(std::string( const&|&&)(, std::allocator<char> const&)?\)$',
    r'std::string::operator=\(std::string( const&|&&)\)$', r'std::string::assign\(std::string( const&|&&)\)$',
    r'std::string::_M_assign\(std::string const&\)$')
def str_copy(ex, st, a, name, d):
    s = sget(ex, st, a[1])
    nm = simplify(ex.dem[name])
    ex.str_set(st, a[0], s)
    if '&&' in nm and not a[0] == a[1]:
        # moved-from: valid but unspecified; libstdc++ leaves it empty
        ex.str_set(st, a[1], EMPTY)
    return a[0]


@rx(r'std::string::basic_string(<std::allocator<char>>)?\(char const\*, std::allocator<char> const&\)$',
    r'std::string::(operator=|assign)\(char const\*\)$')
def str_from_c(ex, st, a, name, d):
    ex.str_set(st, a[0], ex.cstr(st, a[1]))
    return a[0]


@rx(r'std::string::basic_string\(char const\*, unsigned long, std::allocator<char> const&\)$',
    r'std::string::assign\(char const\*, unsigned long\)$')
def str_from_pn(ex, st, a, name, d):
    ex.str_set(st, a[0], ex.read_seq(st, a[1], u64(ex, st, a[2])))
    return a[0]


def _range(ex, st, b, e):
    if isinstance(b, Ptr) and isinstance(e, Ptr) and b.obj is None and e.obj is None:
        return EMPTY
    if not (isinstance(b, Ptr) and isinstance(e, Ptr)) or b.obj is not e.obj:
        raise Unsupported('range over different objects')
    return ex.read_seq(st, b, sub(e.off, b.off))


@rx(r'void std::string::basic_string<char( const)?\*, void>\(', r'std::string::basic_string<char( const)?\*, void>\(',
    r'std::string::basic_string<__gnu_cxx::__normal_iterator<char( const)?\*, std::string ?>, void>\(',
    r'std::string& std::string::assign<char( const)?\*, void>\(')
def str_from_range(ex, st, a, name, d):
    ex.str_set(st, a[0], _range(ex, st, a[1], a[2]))
    return a[0]


@rx(r'std::string::basic_string\(unsigned long, char, std::allocator<char> const&\)$')
def str_fill(ex, st, a, name, d):
    n = u64(ex, st, a[1])
    if n.op != 'c':
        raise Unsupported('string fill of symbolic size')
    s = EMPTY
    for i in range(n.a):
        s = s + Seq.unit(ex.un(st, a[2], 8))
    ex.str_set(st, a[0], s)


@rx(r'std::string::basic_string\(std::string const&, unsigned long, unsigned long\)$',
    r'std::string::basic_string\(std::string const&, unsigned long\)$')
def str_ctor_sub(ex, st, a, name, d):
    return _substr(ex, st, a[0], sget(ex, st, a[1]), u64(ex, st, a[2]), u64(ex, st, a[3]) if len(a) > 3 else None)


def _substr(ex, st, dst, s, pos, n):
    ln = s.length()
    if not ex.decide(st, le(pos, ln)):
        return Throw('_ZTISt12out_of_range', mk_exc(ex, st))
    rest = sub(ln, pos)
    if n is None or not ex.decide(st, lt(n, rest)):
        n = rest
    ex.str_set(st, dst, ex.seq_slice(st, s, pos, n))


@rx(r'std::string::substr\(')
def str_substr(ex, st, a, name, d):
    return _substr(ex, st, a[0], sget(ex, st, a[1]), u64(ex, st, a[2]), u64(ex, st, a[3]))


@rx(r'std::string::basic_string\(std::initializer_list<char>, ')
def str_il(ex, st, a, name, d):
    ex.str_set(st, a[0], ex.read_seq(st, a[1], u64(ex, st, a[2])))


@rx(r'std::string::~basic_string\(\)$')
def str_dtor(ex, st, a, name, d):
    return None


@rx(r'std::string::(size|length)\(\) const$')
def str_size(ex, st, a, name, d):
    return sget(ex, st, a[0]).length()


@rx(r'std::string::empty\(\) const$')
def str_empty(ex, st, a, name, d):
    return eq(sget(ex, st, a[0]).length(), ZERO)


@rx(r'std::string::(data|c_str)\(\) const$', r'std::string::c?begin\(\)( const)?$', r'std::string::_M_data\(\) const$')
def str_data(ex, st, a, name, d):
    return ex.sdata(st, a[0], not simplify(ex.dem[name]).endswith('const'))


@rx(r'std::string::c?end\(\)( const)?$')
def str_end(ex, st, a, name, d):
    p = ex.sdata(st, a[0], not simplify(ex.dem[name]).endswith('const'))
    return p.plus(sget(ex, st, a[0]).length())


@rx(r'std::string::(operator\[\]|at)\(unsigned long\)( const)?$')
def str_index(ex, st, a, name, d):
    i = u64(ex, st, a[1])
    if '::at(' in simplify(ex.dem[name]):
        if not ex.decide(st, lt(i, sget(ex, st, a[0]).length())):
            return Throw('_ZTISt12out_of_range', mk_exc(ex, st))
    return ex.sdata(st, a[0], not simplify(ex.dem[name]).endswith('const')).plus(i)


@rx(r'std::string::back\(\)( const)?$')
def str_back(ex, st, a, name, d):
    return ex.sdata(st, a[0], True).plus(sub(sget(ex, st, a[0]).length(), ONE))


@rx(r'std::string::front\(\)( const)?$')
def str_front(ex, st, a, name, d):
    return ex.sdata(st, a[0], True)


@rx(r'std::string::(append|operator\+=)\(std::string const&\)$')
def str_append_s(ex, st, a, name, d):
    ex.str_set(st, a[0], sget(ex, st, a[0]) + sget(ex, st, a[1]))
    return a[0]


@rx(r'std::string::(append|operator\+=)\(char const\*\)$')
def str_append_c(ex, st, a, name, d):
    s = ex.cstr(st, a[1])
    ex.str_set(st, a[0], sget(ex, st, a[0]) + s)
    return a[0]


@rx(r'std::string::append\(char const\*, unsigned long\)$')
def str_append_pn(ex, st, a, name, d):
    s = ex.read_seq(st, a[1], u64(ex, st, a[2]))
    ex.str_set(st, a[0], sget(ex, st, a[0]) + s)
    return a[0]


@rx(r'std::string& std::string::append<.*>\(')
def str_append_range(ex, st, a, name, d):
    s = _range(ex, st, a[1], a[2])
    ex.str_set(st, a[0], sget(ex, st, a[0]) + s)
    return a[0]


@rx(r'std::string::append\(unsigned long, char\)$')
def str_append_fill(ex, st, a, name, d):
    n = u64(ex, st, a[1])
    if n.op != 'c':
        raise Unsupported('append fill')
    s = sget(ex, st, a[0])
    for i in range(n.a):
        s = s + Seq.unit(ex.un(st, a[2], 8))
    ex.str_set(st, a[0], s)
    return a[0]


@rx(r'std::string::(push_back|operator\+=)\(char\)$')
def str_push(ex, st, a, name, d):
    ex.str_set(st, a[0], sget(ex, st, a[0]) + Seq.unit(ex.un(st, a[1], 8)))
    return a[0]


@rx(r'std::string::pop_back\(\)$')
def str_pop(ex, st, a, name, d):
    s = sget(ex, st, a[0])
    ex.str_set(st, a[0], ex.seq_slice(st, s, ZERO, sub(s.length(), ONE)))


@rx(r'std::string::clear\(\)$')
def str_clear(ex, st, a, name, d):
    ex.str_set(st, a[0], EMPTY)


@rx(r'std::string::reserve\(')
def str_reserve(ex, st, a, name, d):
    return None


@rx(r'std::string::swap\(')
def str_swap(ex, st, a, name, d):
    x, y = sget(ex, st, a[0]), sget(ex, st, a[1])
    ex.str_set(st, a[0], y)
    ex.str_set(st, a[1], x)


@rx(r'std::string::compare\(std::string const&\) const$')
def str_cmp(ex, st, a, name, d):
    return seq_cmp(ex, st, sget(ex, st, a[0]), sget(ex, st, a[1]))


@rx(r'std::string::compare\(char const\*\) const$')
def str_cmp_c(ex, st, a, name, d):
    return seq_cmp(ex, st, sget(ex, st, a[0]), ex.cstr(st, a[1]))


def _sub(ex, st, s, pos, n):
    """the part of s from pos of at most n, or the exception for a position past the end"""
    ln = s.length()
    if not ex.decide(st, le(pos, ln)):
        return Throw('_ZTISt12out_of_range', mk_exc(ex, st))
    rest = sub(ln, pos)
    if n is None or not ex.decide(st, lt(n, rest)):
        n = rest
    return ex.seq_slice(st, s, pos, n)


@rx(r'std::string::compare\(unsigned long, unsigned long, ')
def str_cmp_sub(ex, st, a, name, d):
    x = _sub(ex, st, sget(ex, st, a[0]), u64(ex, st, a[1]), u64(ex, st, a[2]))
    if isinstance(x, Throw):
        return x
    if 'std::string const&' in simplify(ex.dem[name]).split('compare', 1)[1]:
        y = sget(ex, st, a[3])
        if len(a) > 4:
            y = _sub(ex, st, y, u64(ex, st, a[4]), u64(ex, st, a[5]))
            if isinstance(y, Throw):
                return y
    else:
        y = ex.read_seq(st, a[3], u64(ex, st, a[4])) if len(a) > 4 else ex.cstr(st, a[3])
    return seq_cmp(ex, st, x, y)


@rx(r'std::string::append\(std::string const&, unsigned long, unsigned long\)$')
def str_append_sub(ex, st, a, name, d):
    y = _sub(ex, st, sget(ex, st, a[1]), u64(ex, st, a[2]), u64(ex, st, a[3]))
    if isinstance(y, Throw):
        return y
    ex.str_set(st, a[0], sget(ex, st, a[0]) + y)
    return a[0]


@rx(r'std::string::insert\(unsigned long, ')
def str_insert(ex, st, a, name, d):
    s, pos = sget(ex, st, a[0]), u64(ex, st, a[1])
    if 'std::string const&' in simplify(ex.dem[name]).split('insert', 1)[1]:
        if len(a) > 3:
            raise Unsupported('insert of a part')
        y = sget(ex, st, a[2])
    elif 'char const*' in simplify(ex.dem[name]):
        y = ex.read_seq(st, a[2], u64(ex, st, a[3])) if len(a) > 3 else ex.cstr(st, a[2])
    else:
        n = u64(ex, st, a[2])
        if n.op != 'c':
            raise Unsupported('insert fill')
        y = EMPTY
        for i in range(n.a):
            y = y + Seq.unit(ex.un(st, a[3], 8))
    if not ex.decide(st, le(pos, s.length())):
        return Throw('_ZTISt12out_of_range', mk_exc(ex, st))
    ex.str_set(st, a[0], ex.seq_slice(st, s, ZERO, pos) + y + ex.seq_slice(st, s, pos, sub(s.length(), pos)))
    return a[0]


@rx(r'std::string::erase\(unsigned long, unsigned long\)$')
def str_erase(ex, st, a, name, d):
    s, pos = sget(ex, st, a[0]), u64(ex, st, a[1])
    y = _sub(ex, st, s, pos, u64(ex, st, a[2]))
    if isinstance(y, Throw):
        return y
    end = add(pos, y.length())
    ex.str_set(st, a[0], ex.seq_slice(st, s, ZERO, pos) + ex.seq_slice(st, s, end, sub(s.length(), end)))
    return a[0]


@rx(r'std::string::resize\(unsigned long(, char)?\)$')
def str_resize(ex, st, a, name, d):
    s, n = sget(ex, st, a[0]), u64(ex, st, a[1])
    if ex.decide(st, le(n, s.length())):
        ex.str_set(st, a[0], ex.seq_slice(st, s, ZERO, n))
        return
    raise Unsupported('growing resize of a string')


@rx(r'std::string::operator=\(char\)$')
def str_assign_ch(ex, st, a, name, d):
    ex.str_set(st, a[0], Seq.unit(ex.un(st, a[1], 8)))
    return a[0]


@rx(r'bool std::operator==<char, .*>\(std::string const&, std::string const&\)$',
    r'bool std::operator==<char>\(std::string const&, std::string const&\)$',
    r'std::enable_if<.*bool>::__type std::operator==<char>\(std::string const&, std::string const&\)$',
    r'.*std::operator==<char>\(std::string const&, std::string const&\)$')
def str_eq(ex, st, a, name, d):
    return seqeq_term(sget(ex, st, a[0]), sget(ex, st, a[1]))


@rx(r'bool std::operator==<char, .*>\(std::string const&, char const\*\)$')
def str_eq_c(ex, st, a, name, d):
    return seqeq_term(sget(ex, st, a[0]), ex.cstr(st, a[1]))


@rx(r'bool std::operator!=<char, .*>\(std::string const&, std::string const&\)$')
def str_ne(ex, st, a, name, d):
    return not_(seqeq_term(sget(ex, st, a[0]), sget(ex, st, a[1])))


@rx(r'bool std::operator<<char, .*>\(std::string const&, std::string const&\)$')
def str_lt(ex, st, a, name, d):
    return eq(seq_cmp(ex, st, sget(ex, st, a[0]), sget(ex, st, a[1])), C(-1))


@rx(r'std::string std::operator\+<char, .*>\(std::string( const&|&&), std::string( const&|&&)\)$')
def str_plus(ex, st, a, name, d):
    ex.str_set(st, a[0], sget(ex, st, a[1]) + sget(ex, st, a[2]))


@rx(r'std::string std::operator\+<char, .*>\(std::string( const&|&&), char const\*\)$')
def str_plus_c(ex, st, a, name, d):
    ex.str_set(st, a[0], sget(ex, st, a[1]) + ex.cstr(st, a[2]))


@rx(r'std::string std::operator\+<char, .*>\(char const\*, std::string( const&|&&)\)$')
def c_plus_str(ex, st, a, name, d):
    ex.str_set(st, a[0], ex.cstr(st, a[1]) + sget(ex, st, a[2]))


@rx(r'std::string std::operator\+<char, .*>\(std::string( const&|&&), char\)$')
def str_plus_ch(ex, st, a, name, d):
    ex.str_set(st, a[0], sget(ex, st, a[1]) + Seq.unit(ex.un(st, a[2], 8)))


# ---------------------------------------------------------------- misc runtime
@m('__cxa_guard_acquire')
def guard_acquire(ex, st, a, name, d):
    q = a[0]
    try:
        v = ex.load(st, q, ('i', 8))
    except Unsupported:
        v = ZERO
    st.initguard += 1
    return ONE


@m('__cxa_guard_release', '__cxa_guard_abort')
def guard_release(ex, st, a, name, d):
    st.initguard = max(0, st.initguard - 1)
    if name == '__cxa_guard_release':
        ex.store(st, a[0], ('i', 8), ONE)


@m('__cxa_atexit', '__cxa_thread_atexit')
def atexit(ex, st, a, name, d):
    return ZERO


def note_output(st):
    h, n, o, c = st.locks
    st.locks = (h, n, frozenset(h) if o is None else o & frozenset(h), c)


@m('vf_touch')
def vf_touch(ex, st, a, name, d):
    note_output(st)


@m('vf_share')
def vf_share(ex, st, a, name, d):
    """the object, and what can be reached from it, is shared by threads from now on"""
    q = ex.resolve(st, a[0], 1)
    todo, seen = [(q.obj, q.params)], set()
    while todo:
        k = todo.pop()
        if k in seen or k[0] is None or k[0].kind != 'mem' or k not in st.heap:
            continue
        seen.add(k)
        for sz, v in st.heap[k].cells.values():
            if isinstance(v, Ptr) and v.obj is not None:
                todo.append((v.obj, v.params))
    st.guards = (frozenset(seen) | (st.guards[0] if st.guards else frozenset()), st.guards[1] if st.guards else {})


@m('vf_unshare')
def vf_unshare(ex, st, a, name, d):
    g, st.guards = st.guards, None
    bad = sorted((w, o.name) for (o, ps, word), (locks, written, w) in g[1].items() if written and not locks and (o, ps) in st.heap and st.heap[o, ps].alive)
    if bad:
        ex.oblige(st, 'lock-discipline', FALSE, why='what threads share (%s) is changed, and used without a common lock in %s' % (bad[0][1], bad[0][0]))
        raise PathEnd()
    ex.oblige(st, 'lock-discipline', TRUE, why='what threads share is used under one lock')


@m('vf_on_lock')
def vf_on_lock(ex, st, a, name, d):
    return None


@m('vf_atomic_output')
def vf_atomic_output(ex, st, a, name, d):
    h, n, o, c = st.locks
    if o is None:
        return ONE
    m = frozenset(x[0] for x in o)
    c = m if c is None else c & m
    st.locks = (h, n, None, c)
    return ONE if c else ZERO


@m('_ZNSt8ios_base4InitC1Ev', '_ZNSt8ios_base4InitD1Ev')
def ios_init(ex, st, a, name, d):
    return None


@m('__gthread_active_p', '_ZL18__gthread_active_pv', pure=True)
def gthread_active(ex, st, a, name, d):
    return ONE


def decimal(v, depth=0):
    """the decimal text of a number; of a choice of constants, the choice of their texts"""
    if v.op == 'c':
        return Seq.lit(str(v.a).encode())
    if depth < 12 and choice(v):
        return Seq.ite(v.a[0], decimal(v.a[1], depth + 1), decimal(v.a[2], depth + 1))
    return Seq.fn('fmt:i', EMPTY, v)


def choice(v, depth=0):
    return v.op == 'c' or v.op == 'ite' and depth < 12 and choice(v.a[1], depth + 1) and choice(v.a[2], depth + 1)


@rx(r'.*\bstd::(__ostream_insert|endl|flush|operator<< ?)<', r'std::basic_ostream<char, std::char_traits<char>>::(operator<<|flush|put|write)\(', r'std::ostream::',
    tag='std::ostream output (does not throw; other streams than the observed one are ignored)')
def ostream_out(ex, st, a, name, d):
    if not ex.streams:
        return a[0]
    q = ex.resolve(st, a[0], 1)
    s = simplify(ex.dem[name]).replace('std::basic_ostream<char, std::char_traits<char>>', 'ostream').replace('std::ostream', 'ostream')
    flush = False
    if '::flush(' in s or 'std::flush<' in s:
        out, flush = EMPTY, True
    elif '::put(' in s:
        out = Seq.unit(ex.un(st, a[1], 8))
    elif '::write(' in s:
        out = ex.read_seq(st, a[1], u64(ex, st, a[2]))
    elif '__ostream_insert<' in s:
        out = ex.read_seq(st, a[1], u64(ex, st, a[2]))
    elif 'std::endl<' in s:
        out, flush = Seq.lit(b'\n'), True
    elif re.match(r'ostream::operator<<\((int|long|unsigned int|unsigned long|short|unsigned short)\)', s):
        ty = re.search(r'\((.*)\)', s).group(1)
        v = (ex.un if ty.startswith('unsigned') else ex.sg)(st, a[1], 64 if 'long' in ty else 16 if 'short' in ty else 32)
        out = decimal(v)
    elif s == 'ostream::operator<<(bool)':
        out = Seq.lit(b'1' if ex.decide(st, a[1]) else b'0')
    elif s == 'ostream::operator<<(double)':
        # %g, as fmt writes {}
        out = Seq.fn('fmt:d', EMPTY, a[1])
    elif re.match(r'ostream::operator<<\(ostream& \(\*\)\(ostream&\)\)', s):
        fn = a[1].obj.name
        if 'endl' in fn:
            out, flush = Seq.lit(b'\n'), True
        elif 'flush' in fn:
            out, flush = EMPTY, True
        else:
            raise Unsupported('stream manipulator ' + fn)
    elif 'std::operator<<' in s and 'char const*)' in s:
        out = ex.cstr(st, a[1])
    elif 'std::operator<<' in s and s.endswith(' char)'):
        out = Seq.unit(ex.un(st, a[1], 8))
    elif 'std::operator<<' in s and 'std::string const&' in s or 'std::operator<< <char' in s and 'basic_string<' in s:
        out = sget(ex, st, a[1])
    else:
        raise Unsupported('stream output ' + s[:200])
    if (q.obj, q.params) in ex.streams or q.obj is st.stdstream:
        note_output(st)
        st.trace = st.trace + out
        if flush:
            st.trace = st.trace + Seq.event('flush', (ZERO, ZERO, EMPTY))
    elif out is not EMPTY:
        st.trace = st.trace + Seq.event('stray', (ZERO, ZERO, out))
    return a[0]


@rx(r'std::(basic_ostream|basic_ios|ios_base)(<char, std::char_traits<char>>)?::~?(basic_ostream|basic_ios|ios_base)\(', tag='std::ostream construction')
def ostream_ctor(ex, st, a, name, d):
    return None


@rx(r'std::string boost::lexical_cast<std::string, unsigned (long|short|int)>\(unsigned (long|short|int) const&\)', tag='boost::lexical_cast<std::string>(unsigned number): decimal text')
def lexical_cast(ex, st, a, name, d):
    w = {'long': 64, 'int': 32, 'short': 16}[re.search(r'unsigned (\w+) const&', ex.dem[name]).group(1)]
    v = ex.un(st, ex.load(st, a[1], ('i', w)), w)
    ex.str_set(st, a[0], decimal(v))


@rx(r'std::to_string\((int|long|unsigned int|unsigned long|long long|unsigned long long)\)')
def to_string(ex, st, a, name, d):
    ty = re.search(r'\((.*)\)', ex.dem[name]).group(1)
    v = (ex.un if ty.startswith('unsigned') else ex.sg)(st, a[1], 64 if 'long' in ty else 32)
    ex.str_set(st, a[0], decimal(v))


@m('fileno', tag='fileno of the standard streams')
def fileno(ex, st, a, name, d):
    n = getattr(a[0].obj, 'name', '') if a[0].obj is not None else ''
    if not n.startswith('FILE:'):
        raise Unsupported('fileno of another stream')
    return C(['stdin', 'stdout', 'stderr'].index(n[5:]))


@m('isdigit', tag='isdigit in the C locale', pure=True)
def isdigit(ex, st, a, name, d):
    v = ex.sg(st, a[0], 32)
    return ite(and_(le(C(48), v), le(v, C(57))), ONE, ZERO)


@rx(r'bool boost::algorithm::starts_with<boost::iterator_range<__gnu_cxx::__normal_iterator<char( const)?\*, std::string ?> ?>, char \[\d+\]>\(', tag='boost::starts_with: compares the first characters', pure=True)
def starts_with(ex, st, a, name, d):
    b = ex.load(st, a[0], ('ptr',))
    e = ex.load(st, a[0].plus(C(8)), ('ptr',))
    n = sub(ex.addr(e), ex.addr(b))
    s = ex.cstr(st, a[1])
    if not s.is_lit():
        raise Unsupported('starts_with of an unknown text')
    t = s.litval()
    if not ex.decide(st, ge(n, C(len(t)))):
        return FALSE
    return and_(*[eq(ex.un(st, ex.load(st, b.plus(C(i)), ('i', 8)), 8), C(c)) for i, c in enumerate(t)])


@m('nanosleep', tag='nanosleep: only time passes')
def nanosleep(ex, st, a, name, d):
    return ZERO


@m('exp2', tag='exp2 of a whole number', pure=True)
def exp2(ex, st, a, name, d):
    v = a[0]
    if v.op == 'v' and v.a[0].startswith('fp:'):
        n = float(v.a[0][3:])
    elif v.op == 'f' and v.a[0] == 'i2d':
        t = v.a[1]
        if ex.known(st, and_(le(ZERO, t), le(t, C(63)))) is not True:
            raise Unsupported('exp2 of a wide range')
        n = ex.choose(st, [eq(t, C(i)) for i in range(64)])
    else:
        raise Unsupported('exp2')
    return var('fp:' + repr(2.0 ** n), sort='D')


@m('isalpha', tag='isalpha in the C locale', pure=True)
def isalpha(ex, st, a, name, d):
    v = ex.sg(st, a[0], 32)
    return ite(or_(and_(le(C(65), v), le(v, C(90))), and_(le(C(97), v), le(v, C(122)))), ONE, ZERO)


@rx(r'bool boost::conversion::detail::try_lexical_convert<unsigned long, std::string ?>\(', tag='boost::lexical_cast of a decimal text')
def lexical_u64(ex, st, a, name, d):
    s = sget(ex, st, a[0])
    if s.is_lit() and len(s.litval()):
        t = s.litval()
        ok = t.isdigit() and int(t) < 1 << 64
        if t.isdigit():
            ex.store(st, a[1], ('i', 64), C(int(t) if ok else (1 << 64) - 1))
        elif t[:1] in b'+-':
            raise Unsupported('lexical_cast of a signed text')
        return TRUE if ok else FALSE
    if len(s.p) == 1 and s.p[0][0] == 'fn' and s.p[0][1] == 'fmt:i' and s.p[0][2][0] == EMPTY:
        v = s.p[0][2][1]
        if ex.decide(st, and_(le(ZERO, v), lt(v, C(1 << 64)))):
            ex.store(st, a[1], ('i', 64), v)
            return TRUE
    raise Unsupported('lexical_cast of an arbitrary text')


@m('__errno_location')
def errno_location(ex, st, a, name, d):
    o = ex.fnobjs.get('errno')
    if o is None:
        o = Obj('mem', 'errno', 4)
        ex.fnobjs['errno'] = o
    if (o, ()) not in st.heap:
        mm = Mem(st.id)
        mm.zero = True
        st.heap[(o, ())] = mm
    return Ptr(o, (), ZERO)


@m('tzset', tag='tzset sets only the C library time zone variables')
def tzset(ex, st, a, name, d):
    return None


# ---------------------------------------------------------------- calendar time of the C library
TM = [('sec', 0, 0, 60), ('min', 4, 0, 59), ('hour', 8, 0, 23), ('mday', 12, 1, 31), ('mon', 16, 0, 11), ('year', 20, -1900, 8100),
      ('wday', 24, 0, 6), ('yday', 28, 0, 365), ('isdst', 32, 0, 1)]


@m('gmtime_r', 'localtime_r', tag='gmtime_r and localtime_r: a function of the time given (and the time zone)')
def calendar(ex, st, a, name, d):
    t = ex.load(st, a[0], ('i', 64))
    if t is UNDEF:
        raise Unsupported('calendar time of an uninitialised value')
    t = ex.sg(st, t, 64)
    for f, o, lo, hi in TM:
        ex.store(st, a[1].plus(C(o)), ('i', 32), uf('%s:%s' % (name, f), [t], lo, hi))
    if name == 'gmtime_r':
        ex.store(st, a[1].plus(C(40)), ('i', 64), ZERO)
        z = Seq.lit(b'GMT\0')
    else:
        ex.store(st, a[1].plus(C(40)), ('i', 64), uf('localtime_r:gmtoff', [t], -86400, 86400))
        z = Seq.fn('zone', t) + Seq.lit(b'\0')
    ex.store(st, a[1].plus(C(48)), ('ptr',), ex.bytes_obj(st, z, False, 'time zone name'))
    return a[1]


def tm_fields(ex, st, p, conv):
    """the fields of a struct tm, as far as the conversion depends on them"""
    out = []
    for f, o, lo, hi in TM:
        v = ex.load(st, p.plus(C(o)), ('i', 32))
        if v is UNDEF:
            raise Unsupported('uninitialised calendar field tm_%s' % f)
        out.append(ex.sg(st, v, 32))
    v = ex.load(st, p.plus(C(40)), ('i', 64))
    z = ex.load(st, p.plus(C(48)), ('ptr',))
    if conv in 'zZ+':
        if (v if conv == 'z' else z) is UNDEF:
            ex.oblige(st, 'initialised', FALSE, why='strftime reads an uninitialised tm_%s in %s' % ('gmtoff' if conv == 'z' else 'zone', ex.where(st)))
            raise PathEnd()
        if conv == 'z':
            out = [out[8], ex.sg(st, v, 64)]
        elif z.obj is not None:
            out = [out[8], ex.cstr(st, z)] if conv == 'Z' else out + [ex.cstr(st, z)]
        else:
            out = [out[8], ZERO] if conv == 'Z' else out + [ZERO]
    return out


@m('strftime', tag='strftime: each conversion is a function of the calendar fields, of at most 40 bytes; other text is copied (C locale)')
def strftime(ex, st, a, name, d):
    cap = u64(ex, st, a[1])
    f = ex.cstr(st, a[2])
    out = EMPTY
    if f.is_lit():
        b = f.litval()
        i = 0
        while i < len(b):
            c = re.match(rb'%([-_0^#]*\d?\d?)([EO]?)(.)', b[i:], re.S)
            if b[i:i + 1] != b'%':
                out = out + Seq.lit(b[i:i + 1])
                i += 1
                continue
            if c is None:
                raise Unsupported('incomplete strftime conversion')
            k = c.group(3).decode('latin-1')
            if c.group(0) == b'%%':
                out = out + Seq.lit(b'%')
            elif c.group(0) == b'%n':
                out = out + Seq.lit(b'\n')
            elif c.group(0) == b'%t':
                out = out + Seq.lit(b'\t')
            elif k in 'aAbBcCdDeFgGhHIjklmMpPrRsSTuUVwWxXyYzZ+':
                out = out + Seq.fn('strftime:' + c.group(0)[1:].decode(), *tm_fields(ex, st, a[3], k))
            else:
                raise Unsupported('strftime conversion %r' % c.group(0))
            i += len(c.group(0))
    elif not f.p:
        out = EMPTY
    else:
        raise Unsupported('strftime with an unknown pattern')
    if cap.op != 'c' or ex.resolve(st, a[0], 1, True).obj.kind not in ('mem', 'glob'):
        raise Unsupported('strftime into an unknown buffer')
    q = ex.resolve(st, a[0], cap.a, True)
    mm = ex.mem(st, q, True)
    if isinstance(q.obj.size, int) and q.off.a + cap.a > q.obj.size:
        ex.oblige(st, 'memory-safety', FALSE, why='strftime writes outside its buffer in ' + ex.where(st))
    if ex.decide(st, lt(out.length(), cap)):
        ex.clear(st, mm, q.off.a, cap.a)
        mm.cells[q.off.a] = (cap.a, Blob(out))
        return out.length()
    ex.clear(st, mm, q.off.a, cap.a)
    return ZERO


@m('mktime', 'timegm', tag='mktime: a function of the calendar fields; it may change every one of them')
def mktime(ex, st, a, name, d):
    fs = tm_fields(ex, st, a[0], 'Y')
    for i, (f, o, lo, hi) in enumerate(TM):
        ex.store(st, a[0].plus(C(o)), ('i', 32), uf('%s:%s' % (name, f), fs, lo, hi))
    ex.store(st, a[0].plus(C(40)), ('i', 64), uf(name + ':gmtoff', fs, -86400, 86400))
    z = Seq.fn('zone', uf(name, fs, -(1 << 62), 1 << 62)) + Seq.lit(b'\0')
    ex.store(st, a[0].plus(C(48)), ('ptr',), ex.bytes_obj(st, z, False, 'time zone name'))
    return uf(name, fs, -(1 << 62), 1 << 62)


@m('pthread_self', 'getpid', 'syscall', tag='process and thread ids: constant while a contract runs')
def ids(ex, st, a, name, d):
    if name == 'syscall':
        if ex.un(st, a[0], 64) is not C(186):
            raise Unsupported('system call')
        return var('env:tid', 1, (1 << 31) - 1)
    return var('env:thread', 1, 1 << 47) if name == 'pthread_self' else var('env:pid', 1, (1 << 31) - 1)


@m('pthread_getname_np', tag='pthread_getname_np: fails or writes the name of the thread')
def getname(ex, st, a, name, d):
    cap = u64(ex, st, a[2])
    q = ex.resolve(st, a[1], cap.a, True)
    mm = ex.mem(st, q, True)
    t = ex.un(st, a[0], 64)
    s = Seq.fn('threadname', t)
    r = uf('threadname:rc', [t], 0, 200)
    if ex.decide(st, eq(r, ZERO)):
        if not ex.decide(st, lt(s.length(), cap)):
            return C(34)
        ex.clear(st, mm, q.off.a, cap.a)
        mm.cells[q.off.a] = (cap.a, Blob(s))
        st.assume(ex.nonul(s))
    return r


@m('_ZNSt18condition_variableC1Ev', '_ZNSt18condition_variableD1Ev', '_ZNSt18condition_variable10notify_oneEv', '_ZNSt18condition_variable10notify_allEv',
   'pthread_cond_clockwait', tag='condition variables: a wait ends at some time, holding the mutex again')
def condvar(ex, st, a, name, d):
    return ZERO if name == 'pthread_cond_clockwait' else None


@m('_ZNSt6chrono3_V212system_clock3nowEv', '_ZNSt6chrono3_V212steady_clock3nowEv', tag='environment (arbitrary value)')
def env_value(ex, st, a, name, d):
    return st.fresh('env_' + name[-6:], 1, (1 << 62))


# ---------------------------------------------------------------- locks (ghost: 0 free, 1 held by this thread)
def _lockcell(ex, st, p):
    q = ex.resolve(st, p, 4)
    mm = ex.mem(st, q)
    c = mm.cells.get(q.off.a)
    if c is None:
        return q, ZERO
    v = c[1]
    return q, (v if isinstance(v, T) else ZERO)


def _lockset(ex, st, q, v):
    mm = ex.mem(st, q, True)
    c = mm.cells.get(q.off.a)
    if c is not None and c[0] != 4:
        ex.clear(st, mm, q.off.a, 4)
    mm.cells[q.off.a] = (4, v)


@m('pthread_spin_init', 'pthread_mutex_init')
def lock_init(ex, st, a, name, d):
    q, v = _lockcell(ex, st, a[0])
    _lockset(ex, st, q, ZERO)
    return ZERO


@m('pthread_spin_destroy', 'pthread_mutex_destroy', '_ZNSt18condition_variableC1Ev', '_ZNSt18condition_variableD1Ev')
def lock_destroy(ex, st, a, name, d):
    return ZERO


@m('pthread_spin_lock', 'pthread_mutex_lock', '_ZL20__gthread_mutex_lockP15pthread_mutex_t')
def lock_acq(ex, st, a, name, d):
    q, v = _lockcell(ex, st, a[0])
    ex.oblige(st, 'lock-discipline', eq(v, ZERO), why='lock acquired twice in ' + ex.where(st))
    _lockset(ex, st, q, ONE)
    if getattr(q.obj, 'tls', False):
        return ZERO
    h, n, o, c = st.locks
    st.locks = (h + (((q.obj, q.params, q.off), n),), n + 1, o, c)
    return ZERO


@m('pthread_spin_unlock', 'pthread_mutex_unlock', '_ZL22__gthread_mutex_unlockP15pthread_mutex_t')
def lock_rel(ex, st, a, name, d):
    q, v = _lockcell(ex, st, a[0])
    ex.oblige(st, 'lock-discipline', eq(v, ONE), why='lock released while not held in ' + ex.where(st))
    _lockset(ex, st, q, ZERO)
    h, n, o, c = st.locks
    st.locks = (tuple(x for x in h if x[0] != (q.obj, q.params, q.off)), n, o, c)
    return ZERO


@m('_ZNSt10_Sp_lockerC1EPKv', '_ZNSt10_Sp_lockerC1EPKvS1_', tag='std::_Sp_locker: a lock of the shared pointer at the given address')
def sp_lock(ex, st, a, name, d):
    ps = sorted({(p.obj, p.params, p.off) for p in a[1:]}, key=repr)
    h, n, o, c = st.locks
    for k in ps:
        k = (('sp', k[0]),) + k[1:]
        if any(x[0] == k for x in h):
            ex.oblige(st, 'lock-discipline', FALSE, why='lock of a shared pointer acquired twice in ' + ex.where(st))
            raise PathEnd()
        h = h + ((k, n),)
        n += 1
    st.locks = (h, n, o, c)
    q = ex.resolve(st, a[0], 2, True)
    mm = ex.mem(st, q, True)
    ex.clear(st, mm, q.off.a, 2)
    mm.cells[q.off.a] = (2, Ghost('splock', tuple((('sp', p.obj), p.params, p.off) for p in a[1:])))


@m('_ZNSt10_Sp_lockerD1Ev')
def sp_unlock(ex, st, a, name, d):
    g = ex.ghost_get(st, a[0], 'splock')
    h, n, o, c = st.locks
    st.locks = (tuple(x for x in h if x[0] not in g.a[0]), n, o, c)


@m('vf_held', 'vf_spin_held')
def vf_held(ex, st, a, name, d):
    q, v = _lockcell(ex, st, a[0])
    return v


# ---------------------------------------------------------------- boost thread specific storage (one thread)
def _tss(ex, st, key):
    k = ('tss', key.obj, key.params, key.off)
    o = ex.fnobjs.get(k)
    if o is None:
        o = Obj('mem', 'tss', 24)
        ex.fnobjs[k] = o
    if (o, ()) not in st.heap:
        mm = Mem(st.id)
        mm.zero = True
        st.heap[(o, ())] = mm
    return Ptr(o, (), ZERO)


@m('_ZN5boost6detail12get_tss_dataEPKv')
def tss_get(ex, st, a, name, d):
    return ex.load(st, _tss(ex, st, a[0]), ('ptr',))


@m('_ZN5boost6detail12set_tss_dataEPKvPFvPFvPvES3_ES5_S3_b')
def tss_set(ex, st, a, name, d):
    p = _tss(ex, st, a[0])
    old = ex.load(st, p, ('ptr',))
    fn = ex.load(st, p.plus(C(8)), ('ptr',))
    caller = ex.load(st, p.plus(C(16)), ('ptr',))
    ex.store(st, p, ('ptr',), a[3])
    ex.store(st, p.plus(C(8)), ('ptr',), a[2])
    ex.store(st, p.plus(C(16)), ('ptr',), a[1])
    clean = a[4] if a[4].sort == 'B' else ne(a[4], ZERO)
    if clean is TRUE and isinstance(fn, Ptr) and fn.obj is not None and old.obj is not None:
        ex.call(st, caller.obj.name, [fn, old], st.cur_ret)
        return PENDING
    return None


@m('llvm.threadlocal.address.p0')
def tls_address(ex, st, a, name, d):
    if isinstance(a[0], Ptr) and a[0].obj is not None:
        a[0].obj.tls = True     # a lock in it excludes nobody
    return a[0]         # a contract runs on one thread
