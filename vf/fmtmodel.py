"""Contracts of the vendored formatting library (include/blackhole/extensions/format.hpp): the character buffer as a ghost
sequence, and 'write(format, args)' as literal text plus one function value per replacement field."""
import re
from terms import *
from seqs import *
import seqs as SQ
from state import *
from exec import Throw, PathEnd, Unsupported
import models as MD

RX = []
TAG = 'fmt: the character buffer is a growing sequence; write() emits literal text and one field per argument'


def rx(*pats, tag=TAG):
    def deco(f):
        for p in pats:
            RX.append((re.compile(p), f))
        f.pure = False
        f.tag = tag
        return f
    return deco


BUF = r'blackhole::fmt::Buffer<char>::'
MB = r'blackhole::fmt::internal::MemoryBuffer<char, \d+ul, std::allocator<char>>::'
WR = r'blackhole::fmt::BasicWriter<char>::'


def cell(p):
    return p.plus(C(8))


def get(ex, st, p):
    return ex.str_get(st, cell(p)).s


def put(ex, st, p, s):
    ex.str_set(st, cell(p), s, size=24)


@rx(BUF + r'Buffer\(')
def buf_ctor(ex, st, a, name, d):
    # the virtual table pointer is set as well: destructors and grow() are not modelled through it
    put(ex, st, a[0], EMPTY)


@rx(BUF + r'~Buffer\(', MB + r'~MemoryBuffer\(', MB + r'deallocate\(')
def buf_dtor(ex, st, a, name, d):
    return None


@rx(MB + r'MemoryBuffer\(std::allocator')
def mb_ctor(ex, st, a, name, d):
    put(ex, st, a[0], EMPTY)


@rx(MB + r'MemoryBuffer\(blackhole::fmt', MB + r'operator=\(', MB + r'move\(')
def mb_move(ex, st, a, name, d):
    put(ex, st, a[0], get(ex, st, a[1]))
    return a[0]


@rx(BUF + r'size\(')
def buf_size(ex, st, a, name, d):
    return get(ex, st, a[0]).length()


@rx(BUF + r'capacity\(')
def buf_cap(ex, st, a, name, d):
    return C(1 << 44)


@rx(BUF + r'reserve\(')
def buf_reserve(ex, st, a, name, d):
    return None


@rx(BUF + r'clear\(')
def buf_clear(ex, st, a, name, d):
    put(ex, st, a[0], EMPTY)


@rx(BUF + r'resize\(')
def buf_resize(ex, st, a, name, d):
    s = get(ex, st, a[0])
    n = ex.un(st, a[1], 64)
    if ex.known(st, eq(n, s.length())):
        return
    if ex.known(st, le(n, s.length())):
        put(ex, st, a[0], ex.seq_slice(st, s, ZERO, n))
        return
    if ex.known(st, ge(n, s.length())):
        # the new tail has arbitrary content until it is written
        k = sub(n, s.length())
        base = ('s', 'uninit%d' % ex.newid(), st.stack)
        put(ex, st, a[0], s + Seq((('sub', base, ZERO, k),)))
        return
    raise Unsupported('fmt buffer resize to %s of %s' % (n, s))


@rx(BUF + r'push_back\(')
def buf_push(ex, st, a, name, d):
    b = ex.load(st, a[1], ('i', 8))
    if b is UNDEF:
        raise Unsupported('uninitialised byte written to a buffer')
    put(ex, st, a[0], get(ex, st, a[0]) + Seq.unit(ex.un(st, b, 8)))


@rx(r'void ' + BUF + r'append<char>\(', BUF + r'append<char>\(')
def buf_append(ex, st, a, name, d):
    b, e = a[1], a[2]
    n = sub(ex.addr(e), ex.addr(b))
    put(ex, st, a[0], get(ex, st, a[0]) + (ex.read_seq(st, b, n) if n is not ZERO else EMPTY))


@rx(BUF + r'operator\[\]\(')
def buf_index(ex, st, a, name, d):
    s = get(ex, st, a[0])
    p = ex.sdata(st, cell(a[0]), True)
    p.obj.noterm = True
    return p.plus(ex.un(st, a[1], 64))


@rx(r'blackhole::fmt::BasicMemoryWriter<char, std::allocator<char>>::c_str\(', WR + r'c_str\(')
def c_str(ex, st, a, name, d):
    b = ex.load(st, a[0].plus(C(8)), ('ptr',))
    s = get(ex, st, b)
    o = ex.bytes_obj(st, s + Seq.lit(b'\0'), view=False, name='c_str of a writer')
    return o


# ---------------------------------------------------------------- formatted output
def targs(s, before='write<'):
    """template arguments of write<...>( in a demangled name"""
    i = s.index(before) + len(before)
    depth = 0
    out, cur = [], ''
    while True:
        c = s[i]
        if c == '>' and depth == 0:
            break
        if c in '<([':
            depth += 1
        elif c in '>)]':
            depth -= 1
        if c == ',' and depth == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
        i += 1
    if cur.strip():
        out.append(cur.strip())
    return out


INTS = {'int': (32, 1), 'unsigned int': (32, 0), 'long': (64, 1), 'unsigned long': (64, 0), 'long long': (64, 1),
        'unsigned long long': (64, 0), 'short': (16, 1), 'unsigned short': (16, 0), 'signed char': (8, 1), 'unsigned char': (8, 0)}


def argval(ex, st, ty, p):
    """(kind, value) of the argument of type ty stored at p"""
    if ty.endswith('severity_t'):
        ty = 'int'
    if ty in INTS:
        w, sg = INTS[ty]
        v = ex.load(st, p, ('i', w))
        if v is UNDEF:
            raise Unsupported('uninitialised value formatted')
        return 'i', (ex.sg(st, v, w) if sg else ex.un(st, v, w))
    if ty == 'bool':
        return 'b', ne(ex.un(st, ex.load(st, p, ('i', 8)), 8), ZERO)
    if ty == 'char':
        return 'c', ex.un(st, ex.load(st, p, ('i', 8)), 8)
    if ty == 'double':
        return 'd', ex.load(st, p, ('f', 64))
    if ty.endswith(']') and ty.startswith('char'):
        return 's', ex.cstr(st, p)
    if ty in ('char const*', 'char*'):
        q = ex.load(st, p, ('ptr',))
        if q.obj is None:
            raise Unsupported('null string formatted')
        return 's', ex.cstr(st, q)
    if 'BasicStringRef<char>' in ty or 'basic_string_view<char' in ty:
        q = ex.load(st, p, ('ptr',))
        n = ex.un(st, ex.load(st, p.plus(C(8)), ('i', 64)), 64)
        return 's', (ex.read_seq(st, q, n) if n is not ZERO else EMPTY)
    if ty == 'std::string':
        return 's', ex.str_get(st, p).s
    if ty == 'vf::printed':
        # a user's type (vf_util.hpp), streamed by a function that tells when it is called
        q = ex.load(st, p, ('ptr',))
        n = ex.un(st, ex.load(st, p.plus(C(8)), ('i', 64)), 64)
        v = ex.read_seq(st, q, n) if n is not ZERO else EMPTY
        st.trace = st.trace + Seq.event('formatted', (ZERO, ZERO, v))
        return 's', v
    raise Unsupported('formatting a %s' % ty)


def field(ex, st, spec, kind, v):
    """the text of one replacement field; spec is a Seq (what stands between the braces)"""
    if spec.is_lit():
        b = spec.litval()
        if b[:1] == b':' and len(b) == 1:
            b = b''
        if kind == 's' and b == b':s':
            b = b''
        if kind == 'i' and b == b':d':
            b = b''
        if b == b'':
            if kind == 's':
                return v
            if kind == 'c':
                return Seq.unit(v)
            if kind == 'b':
                return Seq.lit(b'true') if ex.decide(st, v) else Seq.lit(b'false')
            if kind == 'i' and MD.choice(v):
                return MD.decimal(v)
        if b[:1] not in (b'', b':'):
            raise Unsupported('numbered replacement field')
        spec = Seq.lit(b)
    if kind == 'b':
        v = ite(v, ONE, ZERO)
    return Seq.fn('fmt:' + kind, spec, v)


def expand(ex, st, f, args):
    """literal text, {{, }} and replacement fields, in order"""
    out = EMPTY
    spec = None
    args = list(args)
    parts = []
    for a in f.p:
        if a[0] == 'lit':
            parts += [('lit', bytes([c])) for c in a[1]]
        else:
            parts.append(a)
    i = 0
    if any(a[0] != 'lit' for a in parts) and not (parts and parts[0][0] == 'lit'):
        # nothing known about the format text: one opaque value
        r = Seq.fn('fmt:all', f, *[v for _, v in args])
        return r
    while i < len(parts):
        a = parts[i]
        i += 1
        if spec is None:
            if a == ('lit', b'{'):
                if i < len(parts) and parts[i] == ('lit', b'{'):
                    out = out + Seq.lit(b'{')
                    i += 1
                    continue
                spec = EMPTY
            elif a == ('lit', b'}'):
                i += 1
                out = out + Seq.lit(b'}')
            elif a[0] == 'lit':
                out = out + Seq.lit(a[1])
            else:
                # arbitrary text outside a field: it could contain fields itself
                raise Unsupported('format text with unknown literal part')
        elif a == ('lit', b'}'):
            if not args:
                return Throw('fmt_FormatError', None)
            k, v = args.pop(0)
            out = out + field(ex, st, spec, k, v)
            spec = None
        else:
            spec = spec + Seq((a,))
    if spec is not None:
        raise Unsupported('unterminated replacement field')
    return out


@rx(r'void ' + WR + r'write<')
def write(ex, st, a, name, d):
    s = MD.simplify(ex.dem[name])
    tys = targs(s)
    f = ex.cstr(st, a[1])
    vals = [argval(ex, st, t, p) for t, p in zip(tys, a[2:])]
    r = expand(ex, st, f, vals)
    if isinstance(r, Throw):
        raise Unsupported('format with missing arguments')
    b = ex.load(st, a[0].plus(C(8)), ('ptr',))
    put(ex, st, b, get(ex, st, b) + r)


@rx(r'std::string blackhole::fmt::format<')
def format_string(ex, st, a, name, d):
    vals = [argval(ex, st, t, p) for t, p in zip(targs(MD.simplify(ex.dem[name]), 'fmt::format<'), a[2:])]
    r = expand(ex, st, ex.cstr(st, a[1]), vals)
    if isinstance(r, Throw):
        raise Unsupported('format with missing arguments')
    ex.str_set(st, a[0], r)


@rx(WR + r'operator<<\((int|unsigned int|long|unsigned long|long long|unsigned long long)\)')
def shl_int(ex, st, a, name, d):
    m = re.search(r'operator<<\(([a-z ]+)\)', ex.dem[name])
    w, sg = INTS[m.group(1)]
    v = ex.sg(st, a[1], w) if sg else ex.un(st, a[1], w)
    b = ex.load(st, a[0].plus(C(8)), ('ptr',))
    put(ex, st, b, get(ex, st, b) + field(ex, st, EMPTY, 'i', v))
    return a[0]


@rx(WR + r'operator<<\(double\)')
def shl_double(ex, st, a, name, d):
    b = ex.load(st, a[0].plus(C(8)), ('ptr',))
    put(ex, st, b, get(ex, st, b) + field(ex, st, EMPTY, 'd', a[1]))
    return a[0]
