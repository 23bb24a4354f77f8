"""Reader for textual LLVM IR (LLVM 18, opaque pointers) -- function bodies are parsed on demand."""
import re

TOK = re.compile(r'''
   (?P<ws>\s+)
 | (?P<cstr>c"[^"]*")
 | (?P<loc>%"[^"]*"|%[\w.$-]+)
 | (?P<glob>@"[^"]*"|@[\w.$-]+)
 | (?P<meta>![\w.$-]*(?:\([^)]*\))?)
 | (?P<attr>\#\d+)
 | (?P<fp>-?\d+\.\d+(?:e[+-]?\d+)?|0x[HKLMR]?[0-9A-Fa-f]+)
 | (?P<num>-?\d+)
 | (?P<str>"[^"]*")
 | (?P<dots>\.\.\.)
 | (?P<word>[A-Za-z_$.][\w.$]*)
 | (?P<p><\{|\}>|[(){}\[\],=*<>:|])
''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    match = TOK.match
    while pos < n:
        m = match(s, pos)
        if not m:
            raise SyntaxError('tok: %r' % s[pos:pos + 60])
        k = m.lastgroup
        if k != 'ws':
            out.append((k, m.group()))
        pos = m.end()
    return out


def unq(name):
    if name[1] == '"':
        return re.sub(r'\\([0-9A-Fa-f]{2})', lambda m: chr(int(m.group(1), 16)), name[2:-1])
    return name[1:]


def cbytes(t):
    s = t[2:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\' and s[i + 1] == '\\':
            out.append(92)
            i += 2
        elif s[i] == '\\':
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


PARAM_ATTRS_PAREN = {'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'byref', 'inalloca',
                     'align', 'allocsize', 'memory', 'elementtype', 'nofpclass', 'preallocated', 'vscale_range',
                     'uwtable', 'allockind', 'alignstack', 'range'}
PARAM_ATTRS = {'noundef', 'nonnull', 'noalias', 'nocapture', 'readonly', 'readnone', 'writeonly', 'signext',
               'zeroext', 'inreg', 'returned', 'nofree', 'nest', 'swiftself', 'immarg', 'dead_on_unwind',
               'writable', 'noreturn', 'nounwind', 'noinline', 'builtin', 'nobuiltin', 'noundef', 'allocptr'}
LINK = {'private', 'internal', 'available_externally', 'linkonce', 'weak', 'common', 'appending', 'extern_weak',
        'linkonce_odr', 'weak_odr', 'external', 'dso_local', 'dso_preemptable', 'hidden', 'protected', 'default',
        'unnamed_addr', 'local_unnamed_addr', 'thread_local', 'fastcc', 'ccc', 'coldcc', 'externally_initialized',
        'localdynamic', 'initialexec', 'localexec', 'noundef', 'tail', 'musttail', 'notail'}
FMF = {'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'reassoc', 'afn'}


class P:
    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.m = mod

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ('eof', '')

    def v(self):
        return self.peek()[1]

    def next(self):
        t = self.t[self.i]
        self.i += 1
        return t

    def acc(self, s):
        if self.i < len(self.t) and self.t[self.i][1] == s:
            self.i += 1
            return True
        return False

    def exp(self, s):
        if not self.acc(s):
            raise SyntaxError('expected %s got %r' % (s, self.t[max(0, self.i - 5):self.i + 10]))

    def skip_paren(self):
        self.exp('(')
        d = 1
        while d:
            x = self.next()[1]
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1

    # types ---------------------------------------------------------------
    def type(self):
        k, s = self.next()
        if k == 'word':
            if s == 'ptr':
                if self.v() == 'addrspace':
                    self.next(); self.skip_paren()
                t = ('ptr',)
            elif s == 'void':
                t = ('void',)
            elif s[0] == 'i' and s[1:].isdigit():
                t = ('i', int(s[1:]))
            elif s in ('double', 'float', 'x86_fp80', 'half', 'fp128'):
                t = ('f', {'double': 64, 'float': 32, 'x86_fp80': 80, 'half': 16, 'fp128': 128}[s])
            elif s in ('label', 'metadata', 'token', 'opaque'):
                t = (s,)
            else:
                raise SyntaxError('type ' + s)
        elif k == 'loc':
            t = ('named', unq(s))
        elif s == '{':
            fs = []
            while not self.acc('}'):
                fs.append(self.type()); self.acc(',')
            t = ('struct', tuple(fs), False)
        elif s == '<{':
            fs = []
            while not self.acc('}>'):
                fs.append(self.type()); self.acc(',')
            t = ('struct', tuple(fs), True)
        elif s == '[' or s == '<':
            n = int(self.next()[1]); self.exp('x'); e = self.type(); self.exp(']' if s == '[' else '>')
            t = ('arr' if s == '[' else 'vec', n, e)
        else:
            raise SyntaxError('type %s %s' % (k, s))
        # function type
        if self.v() == '(' :
            self.next()
            ps = []
            va = False
            while not self.acc(')'):
                if self.acc('...'):
                    va = True
                    continue
                ps.append(self.type())
                self.attrs()
                self.acc(',')
            t = ('fn', t, tuple(ps), va)
        return t

    def attrs(self):
        """skip parameter attributes; return dict of interesting ones"""
        d = {}
        while True:
            k, s = self.peek()
            if k == 'word' and s in PARAM_ATTRS_PAREN:
                self.next()
                if self.v() == '(':
                    if s in ('byval', 'sret'):
                        self.exp('('); d[s] = self.type(); self.exp(')')
                    else:
                        self.skip_paren()
                elif self.peek()[0] == 'num':
                    self.next()
            elif k == 'word' and s in PARAM_ATTRS:
                d[s] = True
                self.next()
            elif k == 'attr':
                self.next()
            elif k == 'str':
                self.next()
                if self.acc('='):
                    self.next()
            else:
                return d

    # operands --------------------------------------------------------------
    def operand(self, ty):
        k, s = self.next()
        if k == 'loc':
            return ('l', unq(s))
        if k == 'glob':
            return ('g', unq(s))
        if k == 'num':
            if ty[0] == 'f':
                return ('fp', s)
            return ('c', int(s))
        if k == 'fp':
            return ('fp', s)
        if k == 'cstr':
            return ('bytes', cbytes(s))
        if k == 'word':
            if s == 'true':
                return ('c', 1)
            if s == 'false':
                return ('c', 0)
            if s == 'null':
                return ('null',)
            if s in ('undef', 'poison'):
                return ('undef',)
            if s == 'zeroinitializer':
                return ('zero',)
            if s == 'none':
                return ('zero',)
            if s == 'getelementptr':
                while self.v() in ('inbounds', 'nuw', 'nusw') or self.v() == 'inrange':
                    self.next()
                    if self.v() == '(' and self.t[self.i - 1][1] == 'inrange':
                        self.skip_paren()
                self.exp('(')
                t = self.type(); self.exp(',')
                self.acc('inrange')
                bt = self.type(); b = self.operand(bt)
                idx = []
                while self.acc(','):
                    self.acc('inrange')
                    if self.v() == 'inrange':
                        self.next()
                    it = self.type(); idx.append((it, self.operand(it)))
                self.exp(')')
                return ('gep', t, b, idx)
            if s in ('bitcast', 'inttoptr', 'ptrtoint', 'trunc', 'zext', 'sext', 'addrspacecast'):
                self.exp('(')
                t = self.type(); o = self.operand(t); self.exp('to'); t2 = self.type(); self.exp(')')
                return ('cast', s, t, o, t2)
            if s in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'icmp', 'select'):
                while self.peek()[0] == 'word' and self.v() != '(':
                    self.next()
                self.exp('(')
                t = self.type(); a = self.operand(t); self.exp(','); t2 = self.type(); b = self.operand(t2)
                while self.acc(','):
                    t3 = self.type(); self.operand(t3)
                self.exp(')')
                return ('cbin', s, t, a, b)
            if s == 'blockaddress':
                self.skip_paren()
                return ('undef',)
            if s in ('dso_local_equivalent', 'no_cfi'):
                return ('g', unq(self.next()[1]))
            if s == 'asm':
                while self.peek()[0] == 'word':
                    self.next()
                a = self.next()[1]; self.exp(','); b = self.next()[1]
                return ('asm', a, b)
        if s in ('{', '<{', '['  , '<'):
            end = {'{': '}', '<{': '}>', '[': ']', '<': '>'}[s]
            if s == '<' and self.v() == '{':
                raise SyntaxError
            xs = []
            while not self.acc(end):
                t = self.type(); xs.append((t, self.operand(t))); self.acc(',')
            return ('agg', xs)
        if k == 'meta':
            # metadata operand
            if self.v() == '(':
                self.skip_paren()
            return ('undef',)
        raise SyntaxError('operand %s %s ctx %r' % (k, s, self.t[max(0, self.i - 8):self.i + 8]))

    def typed(self):
        t = self.type()
        self.attrs()
        return t, self.operand(t)


class Inst:
    __slots__ = ('op', 'res', 'ty', 'a', 'n')

    def __init__(self, op, res, ty, a):
        self.op = op; self.res = res; self.ty = ty; self.a = a

    def __repr__(self):
        return '%s = %s %r %r' % (self.res, self.op, self.ty, self.a)


class Function:
    def __init__(self, mod, name, header, body):
        self.mod = mod; self.name = name; self.header = header; self.body = body
        self.parsed = False
        self.blocks = None

    def parse(self):
        if self.parsed:
            return self
        m = self.mod
        p = P(tokenize(self.header), m)
        p.exp('define')
        while p.peek()[0] == 'word' and (p.v() in LINK):
            p.next()
            if p.v() == '(':
                p.skip_paren()
        p.attrs()
        self.ret = p.type()
        p.attrs()
        p.next()  # @name
        p.exp('(')
        self.params = []
        self.vararg = False
        cnt = 0
        while not p.acc(')'):
            if p.acc('...'):
                self.vararg = True
                continue
            t = p.type()
            at = p.attrs()
            if p.peek()[0] == 'loc':
                nm = unq(p.next()[1])
            else:
                nm = str(cnt)
            cnt += 1
            self.params.append((t, nm, at))
            p.acc(',')
        rest = [x[1] for x in p.t[p.i:]]
        self.attr_groups = [x for x in rest if x.startswith('#')]
        # body
        self.blocks = {}
        self.order = []
        cur = None
        unnamed = None
        lines = self.body
        i = 0
        n = len(lines)
        # implicit entry label
        first = True
        while i < n:
            ln = lines[i]
            s = ln.strip()
            i += 1
            if not s or s[0] == ';':
                continue
            if not ln.startswith(' '):
                mm = re.match(r'("[^"]*"|[\w.$-]+):', s)
                if mm:
                    lab = mm.group(1)
                    if lab[0] == '"':
                        lab = lab[1:-1]
                    cur = lab
                    self.blocks[cur] = []
                    self.order.append(cur)
                    first = False
                    continue
            if first:
                cur = str(cnt)
                self.blocks[cur] = []
                self.order.append(cur)
                first = False
            # join continuation lines
            if s.startswith('switch') or ' switch ' in s:
                while not re.search(r'\](, !.*)?$', lines[i - 1].strip()):
                    s += ' ' + lines[i].strip(); i += 1
                s = re.sub(r'\], !.*$', ']', s)
            elif re.match(r'(%\S+ = )?(tail |musttail |notail )?invoke ', s) or 'invoke ' in s.split('(')[0]:
                s += ' ' + lines[i].strip(); i += 1
            elif s.startswith('%') and '= landingpad' in s:
                while i < n and re.match(r'\s+(catch|cleanup|filter)\b', lines[i]):
                    s += ' ' + lines[i].strip(); i += 1
            c = s.find(' ;')
            if c >= 0 and '"' not in s[c:]:
                s = s[:c]
            if s.endswith(tuple('0123456789')) and '!nosanitize' in s:
                s = re.sub(r', !nosanitize !\d+', '', s)
            self.blocks[cur].append(s)
        self.entry = self.order[0]
        self.parsed = True
        self._ins = {}
        return self

    def insts(self, blk):
        r = self._ins.get(blk)
        if r is None:
            r = [parse_inst(s, self.mod) for s in self.blocks[blk]]
            self._ins[blk] = r
        return r

    def succs(self, blk):
        t = self.insts(blk)[-1]
        if t.op == 'br':
            return [t.a[1]] if t.a[0] is None else [t.a[1], t.a[2]]
        if t.op == 'switch':
            return [t.a[2]] + [b for _, b in t.a[3]]
        if t.op == 'invoke':
            return [t.a['normal'], t.a['unwind']]
        return []

    def loops(self):
        """natural loop headers -> set(blocks); computed once"""
        if hasattr(self, '_loops'):
            return self._loops
        # dominators (simple iterative)
        order = []
        seen = set()
        stack = [(self.entry, iter(self.succs(self.entry)))]
        seen.add(self.entry)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succs(s))))
                    break
            else:
                order.append(b)
                stack.pop()
        order.reverse()
        num = {b: i for i, b in enumerate(order)}
        preds = {b: [] for b in order}
        for b in order:
            for s in self.succs(b):
                preds[s].append(b)
        idom = {self.entry: self.entry}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                new = None
                for q in preds[b]:
                    if q in idom:
                        if new is None:
                            new = q
                        else:
                            x, y = q, new
                            while x != y:
                                while num[x] > num[y]:
                                    x = idom[x]
                                while num[y] > num[x]:
                                    y = idom[y]
                            new = x
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == self.entry:
                    return False
                b = idom[b]
        loops = {}
        for b in order:
            for s in self.succs(b):
                if dom(s, b):
                    body = loops.setdefault(s, set([s]))
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(preds[x])
        self._loops = loops
        return loops


BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
       'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr',
         'bitcast', 'addrspacecast'}


def parse_inst(s, mod):
    p = P(tokenize(s), mod)
    res = None
    if p.peek()[0] == 'loc' and p.peek(1)[1] == '=':
        res = unq(p.next()[1])
        p.next()
    while p.v() in ('tail', 'musttail', 'notail'):
        p.next()
    op = p.next()[1]
    if op in BIN:
        fl = set()
        while p.v() in ('nsw', 'nuw', 'exact', 'disjoint') or p.v() in FMF:
            fl.add(p.next()[1])
        t = p.type(); a = p.operand(t); p.exp(','); b = p.operand(t)
        return Inst(op, res, t, (a, b, fl))
    if op in CASTS:
        while p.v() in ('nneg', 'nuw', 'nsw'):
            p.next()
        t = p.type(); a = p.operand(t); p.exp('to'); t2 = p.type()
        return Inst(op, res, t2, (t, a))
    if op == 'icmp' or op == 'fcmp':
        while p.v() in FMF or p.v() == 'samesign':
            p.next()
        c = p.next()[1]
        t = p.type(); a = p.operand(t); p.exp(','); b = p.operand(t)
        return Inst(op, res, t, (c, a, b))
    if op == 'alloca':
        if p.v() == 'inalloca':
            p.next()
        t = p.type()
        cnt = None
        while p.acc(','):
            if p.v() == 'align':
                p.next(); p.next()
            else:
                ct = p.type(); cnt = (ct, p.operand(ct))
        return Inst(op, res, t, cnt)
    if op == 'load':
        atomic = False
        while p.v() in ('volatile', 'atomic'):
            atomic |= p.next()[1] == 'atomic'
        t = p.type(); p.exp(','); pt = p.type(); a = p.operand(pt)
        return Inst(op, res, t, (a, atomic))
    if op == 'store':
        atomic = False
        while p.v() in ('volatile', 'atomic'):
            atomic |= p.next()[1] == 'atomic'
        t = p.type(); v = p.operand(t); p.exp(','); pt = p.type(); a = p.operand(pt)
        return Inst(op, None, t, (v, a, atomic))
    if op == 'getelementptr':
        while p.v() in ('inbounds', 'nuw', 'nusw'):
            p.next()
        t = p.type(); p.exp(',')
        bt = p.type(); b = p.operand(bt)
        idx = []
        while p.acc(','):
            it = p.type(); idx.append((it, p.operand(it)))
        return Inst(op, res, t, (b, idx))
    if op in ('call', 'invoke'):
        while p.v() in FMF or p.v() in LINK:
            p.next()
        p.attrs()
        while p.v() in FMF:
            p.next()
        t = p.type()
        p.attrs()
        if t[0] == 'fn':
            rt = t[1]
        else:
            rt = t
        callee = p.operand(('ptr',))
        p.exp('(')
        args = []
        while not p.acc(')'):
            at = p.type()
            if at == ('metadata',):
                # skip metadata operand
                d = 0
                while not (d == 0 and p.v() in (',', ')')):
                    if p.v() in ('(', '{'):
                        d += 1
                    elif p.v() in (')', '}'):
                        d -= 1
                    p.next()
                args.append((at, ('undef',), {}))
            else:
                ad = p.attrs()
                args.append((at, p.operand(at), ad))
            p.acc(',')
        d = {'callee': callee, 'args': args}
        grp = set()
        while p.peek()[0] in ('attr',) or p.v() == '[' or (p.peek()[0] == 'word' and p.v() in PARAM_ATTRS):
            if p.v() == '[':
                while p.next()[1] != ']':
                    pass
            else:
                grp.add(p.next()[1])
        d['attrs'] = grp
        if op == 'invoke':
            p.exp('to'); p.exp('label'); d['normal'] = unq(p.next()[1]); p.exp('unwind'); p.exp('label')
            d['unwind'] = unq(p.next()[1])
        return Inst(op, res, rt, d)
    if op == 'br':
        if p.acc('label'):
            return Inst('br', None, None, (None, unq(p.next()[1])))
        p.exp('i1'); c = p.operand(('i', 1)); p.exp(','); p.exp('label'); a = unq(p.next()[1]); p.exp(',')
        p.exp('label'); b = unq(p.next()[1])
        return Inst('br', None, None, (c, a, b))
    if op == 'switch':
        t = p.type(); c = p.operand(t); p.exp(','); p.exp('label'); d = unq(p.next()[1]); p.exp('[')
        cs = []
        while not p.acc(']'):
            ct = p.type(); cv = p.operand(ct); p.exp(','); p.exp('label'); cs.append((cv, unq(p.next()[1])))
        return Inst('switch', None, t, (t, c, d, cs))
    if op == 'ret':
        t = p.type()
        return Inst('ret', None, t, None if t == ('void',) else p.operand(t))
    if op == 'resume':
        t = p.type()
        return Inst('resume', None, t, p.operand(t))
    if op == 'unreachable':
        return Inst(op, None, None, None)
    if op == 'landingpad':
        t = p.type()
        clauses = []
        cleanup = p.acc('cleanup')
        while p.v() in ('catch', 'filter', 'cleanup'):
            k = p.next()[1]
            if k == 'cleanup':
                cleanup = True
                continue
            ct = p.type()
            clauses.append((k, p.operand(ct)))
        return Inst(op, res, t, (cleanup, clauses))
    if op == 'extractvalue':
        t = p.type(); a = p.operand(t)
        ix = []
        while p.acc(','):
            ix.append(int(p.next()[1]))
        return Inst(op, res, t, (a, ix))
    if op == 'insertvalue':
        t = p.type(); a = p.operand(t); p.exp(','); t2 = p.type(); b = p.operand(t2)
        ix = []
        while p.acc(','):
            ix.append(int(p.next()[1]))
        return Inst(op, res, t, (a, t2, b, ix))
    if op == 'phi':
        while p.v() in FMF:
            p.next()
        t = p.type()
        inc = []
        while True:
            p.exp('['); v = p.operand(t); p.exp(','); b = unq(p.next()[1]); p.exp(']')
            inc.append((v, b))
            if not p.acc(','):
                break
        return Inst(op, res, t, inc)
    if op == 'select':
        while p.v() in FMF:
            p.next()
        ct = p.type(); c = p.operand(ct); p.exp(','); t = p.type(); a = p.operand(t); p.exp(','); t2 = p.type()
        b = p.operand(t2)
        return Inst(op, res, t, (c, a, b))
    if op == 'atomicrmw':
        if p.v() == 'volatile':
            p.next()
        k = p.next()[1]
        pt = p.type(); a = p.operand(pt); p.exp(','); t = p.type(); v = p.operand(t)
        return Inst(op, res, t, (k, a, v))
    if op == 'cmpxchg':
        while p.v() in ('weak', 'volatile'):
            p.next()
        pt = p.type(); a = p.operand(pt); p.exp(','); t = p.type(); c = p.operand(t); p.exp(',')
        t2 = p.type(); n = p.operand(t2)
        return Inst(op, res, t, (a, c, n))
    if op == 'fence':
        return Inst(op, None, None, None)
    if op in ('freeze', 'fneg'):
        while p.v() in FMF:
            p.next()
        t = p.type(); a = p.operand(t)
        return Inst(op, res, t, a)
    if op == 'va_arg':
        return Inst(op, res, None, None)
    if op in ('extractelement', 'insertelement', 'shufflevector'):
        return Inst(op, res, None, None)
    raise SyntaxError('inst ' + s)


class Global:
    __slots__ = ('name', 'text', 'ty', 'init', 'const', 'external', '_p', 'mod')


class Module:
    def __init__(self, text):
        self.types_txt = {}
        self.types = {}
        self.funcs = {}
        self.globals = {}
        self.decls = {}
        self.aliases = {}
        self.attr_nounwind = {}
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            if ln.startswith('define'):
                hdr = ln
                j = i + 1
                while lines[j] != '}':
                    j += 1
                nm = self._fname(ln)
                # strip trailing '{'
                self.funcs[nm] = Function(self, nm, hdr.rstrip()[:-1], lines[i + 1:j])
                i = j + 1
                continue
            if ln.startswith('declare'):
                self.decls[self._fname(ln)] = ln
            elif ln.startswith('%'):
                k = ln.index(' = type ')
                self.types_txt[unq(ln[:k])] = ln[k + 8:]
            elif ln.startswith('@'):
                g = Global()
                mm = re.match(r'(@"[^"]*"|@[\w.$-]+) = ', ln)
                g.name = unq(mm.group(1))
                g.text = ln[mm.end():]
                g._p = False
                g.mod = self
                if re.match(r'(\w+ )*(alias|ifunc) ', g.text):
                    p = re.findall(r'(@"[^"]*"|@[\w.$-]+)', g.text)
                    self.aliases[g.name] = unq(p[0])
                else:
                    self.globals[g.name] = g
            elif ln.startswith('attributes #'):
                mm = re.match(r'attributes (#\d+) = \{(.*)\}', ln)
                self.attr_nounwind[mm.group(1)] = ' nounwind' in mm.group(2)
            i += 1

    @staticmethod
    def _fname(ln):
        m = re.search(r'(@"[^"]*"|@[\w.$-]+)\(', ln)
        return unq(m.group(1))

    def named(self, name):
        t = self.types.get(name)
        if t is None:
            txt = self.types_txt[name]
            if txt.strip() == 'opaque':
                t = ('opaque',)
            else:
                t = P(tokenize(txt), self).type()
            self.types[name] = t
        return t

    def resolve(self, t):
        while t[0] == 'named':
            t = self.named(t[1])
        return t

    def glob(self, name):
        g = self.globals[name]
        if not g._p:
            p = P(tokenize(g.text), self)
            g.external = False
            while True:
                w = p.v()
                if w in ('global', 'constant'):
                    p.next()
                    g.const = w == 'constant'
                    break
                if w in ('external', 'extern_weak', 'available_externally'):
                    g.external = w != 'available_externally'
                p.next()
                if p.v() == '(':
                    p.skip_paren()
            g.ty = p.type()
            g.init = None
            if not g.external and p.i < len(p.t) and p.v() != ',':
                g.init = p.operand(g.ty)
            g._p = True
        return g

    # layout ------------------------------------------------------------
    _al = None

    def align(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'i':
            b = (t[1] + 7) // 8
            if b > 8:
                return 16
            a = 1
            while a < b:
                a *= 2
            return a
        if k == 'ptr':
            return 8
        if k == 'f':
            return {64: 8, 32: 4, 80: 16, 16: 2, 128: 16}[t[1]]
        if k == 'arr':
            return self.align(t[2])
        if k == 'vec':
            return min(16, self.size(t))
        if k == 'struct':
            if t[2]:
                return 1
            return max([1] + [self.align(f) for f in t[1]])
        raise NotImplementedError(t)

    def size(self, t):
        if not hasattr(self, '_sz'):
            self._sz = {}
        r = self._sz.get(t)
        if r is None:
            r = self._size(self.resolve(t))
            self._sz[t] = r
        return r

    def _size(self, t):
        k = t[0]
        if k == 'i':
            b = (t[1] + 7) // 8
            a = self.align(t)
            return (b + a - 1) // a * a
        if k == 'ptr':
            return 8
        if k == 'f':
            return {64: 8, 32: 4, 80: 16, 16: 2, 128: 16}[t[1]]
        if k in ('arr', 'vec'):
            return t[1] * self.size(t[2])
        if k == 'struct':
            return self.struct_layout(t)[1]
        raise NotImplementedError(t)

    def struct_layout(self, t):
        if not hasattr(self, '_sl'):
            self._sl = {}
        r = self._sl.get(t)
        if r is None:
            off = 0
            offs = []
            mx = 1
            for f in t[1]:
                a = 1 if t[2] else self.align(f)
                mx = max(mx, a)
                off = (off + a - 1) // a * a
                offs.append(off)
                off += self.size(f)
            sz = (off + mx - 1) // mx * mx
            r = (offs, sz)
            self._sl[t] = r
        return r
