"""Parser for the textual LLVM-18 IR that clang emits for the contract units.

Anything it does not know raises Unsupported, so no instruction is silently
dropped (metadata, attributes, debug records and alignment are ignored).
"""
import re
import struct
from fractions import Fraction


class Unsupported(Exception):
    pass


TOK = re.compile(r'''
   \s+
 | (?P<str>c"(?:[^"\\]|\\.)*")
 | (?P<q>[@%$!]"(?:[^"\\]|\\.)*")
 | (?P<qs>"(?:[^"\\]|\\.)*")
 | (?P<name>[@%$!][-A-Za-z0-9_.$]+)
 | (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
 | (?P<num>-?[0-9]+(?:\.[0-9]+(?:[eE][-+]?[0-9]+)?)?)
 | (?P<dots>\.\.\.)
 | (?P<attr>\#[0-9]+)
 | (?P<word>[A-Za-z_][A-Za-z0-9_.]*)
 | (?P<p>[()\[\]{}<>,=*:|!])
''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        if s[pos] == ';':
            break
        m = TOK.match(s, pos)
        if not m:
            raise Unsupported("token at %r" % s[pos:pos + 40])
        pos = m.end()
        if m.lastgroup:
            out.append(m.group())
    return out


# types: ('i',w) ('f',bits) ('ptr',) ('void',) ('arr',n,t) ('vec',n,t) ('st',(t..),packed) ('named',n)
I1 = ('i', 1)
PTR = ('ptr',)
VOID = ('void',)


class Types:
    def __init__(self):
        self.named = {}
        self.cache = {}

    def resolve(self, t):
        while t[0] == 'named':
            t = self.named[t[1]]
        return t

    def size(self, t):
        r = self.cache.get(t)
        if r is None:
            r = self._sa(t)
            self.cache[t] = r
        return r[0]

    def align(self, t):
        self.size(t)
        return self.cache[t][1]

    def _sa(self, t):
        k = t[0]
        if k == 'i':
            b = max(1, (t[1] + 7) // 8)
            p = 1
            while p < b:
                p *= 2
            return (p, min(p, 16))
        if k == 'f':
            return {16: (2, 2), 32: (4, 4), 64: (8, 8), 80: (16, 16)}[t[1]]
        if k == 'ptr':
            return (8, 8)
        if k == 'arr':
            return (t[1] * self.size(t[2]), self.align(t[2]))
        if k == 'vec':
            s = t[1] * self.size(t[2])
            return (s, s)
        if k == 'named':
            r = self.resolve(t)
            return (self.size(r), self.align(r))
        if k == 'st':
            off, al = 0, 1
            for e in t[1]:
                a = 1 if t[2] else self.align(e)
                off = (off + a - 1) // a * a + self.size(e)
                al = max(al, a)
            return ((off + al - 1) // al * al, al)
        raise Unsupported("size of type %r" % (t,))

    def offsets(self, t):
        t = self.resolve(t)
        key = ('off', t)
        r = self.cache.get(key)
        if r is None:
            r = []
            off = 0
            for e in t[1]:
                a = 1 if t[2] else self.align(e)
                off = (off + a - 1) // a * a
                r.append(off)
                off += self.size(e)
            self.cache[key] = r
        return r


def unq(n):
    """strip quotes in names, keep sigil"""
    if len(n) > 1 and n[1] == '"':
        return n[0] + n[2:-1]
    return n


class P:
    """token stream"""

    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.i < len(self.t) and self.t[self.i] == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x:
            raise Unsupported("expected %s got %s in %s" % (x, y, ' '.join(self.t)))

    def type(self):
        x = self.next()
        if x == 'void':
            t = VOID
        elif x == 'ptr':
            t = PTR
            if self.accept('addrspace'):
                self.expect('(')
                self.next()
                self.expect(')')
        elif x[0] == 'i' and x[1:].isdigit():
            t = ('i', int(x[1:]))
        elif x == 'float':
            t = ('f', 32)
        elif x == 'double':
            t = ('f', 64)
        elif x == 'half':
            t = ('f', 16)
        elif x == 'x86_fp80':
            t = ('f', 80)
        elif x in ('label', 'metadata', 'token', 'opaque'):
            t = (x,)
        elif x == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = ('arr', n, e)
        elif x == '<':
            if self.peek() == '{':
                self.next()
                els = self.typelist('}')
                self.expect('>')
                t = ('st', tuple(els), True)
            else:
                n = int(self.next())
                self.expect('x')
                e = self.type()
                self.expect('>')
                t = ('vec', n, e)
        elif x == '{':
            t = ('st', tuple(self.typelist('}')), False)
        elif x[0] == '%':
            t = ('named', unq(x))
        else:
            raise Unsupported("type %s" % x)
        # function type
        if self.peek() == '(' and t[0] != 'label':
            save = self.i
            self.next()
            try:
                ps = []
                while not self.accept(')'):
                    if self.accept('...'):
                        ps.append('...')
                    else:
                        ps.append(self.type())
                    self.accept(',')
                t = ('fn', t, tuple(ps))
            except Unsupported:
                self.i = save
        return t

    def typelist(self, close):
        els = []
        while not self.accept(close):
            els.append(self.type())
            self.accept(',')
        return els

    ATTRS = {'noundef', 'nonnull', 'noalias', 'nocapture', 'readonly', 'writeonly', 'readnone', 'signext',
             'zeroext', 'returned', 'nofree', 'nest', 'inreg', 'immarg', 'writable', 'dead_on_unwind',
             'allocptr', 'swiftself', 'noext'}
    ATTRP = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'range', 'nofpclass',
             'memory', 'captures', 'elementtype', 'allocalign', 'initializes'}

    def skip_attrs(self):
        got = set()
        while True:
            x = self.peek()
            if x in self.ATTRS:
                self.next()
            elif x in self.ATTRP:
                self.next()
                got.add(x)
                if x == 'align' and self.peek() != '(':
                    self.next()
                else:
                    self.expect('(')
                    d = 1
                    while d:
                        y = self.next()
                        d += (y == '(') - (y == ')')
            else:
                return got

    def value(self, ty):
        """operand of known type -> ('l',name) ('g',name) ('c',pyvalue) ('undef',) ('agg',[..]) ('ce',op,...)"""
        x = self.next()
        c0 = x[0]
        if c0 == '%':
            return ('l', unq(x))
        if c0 == '@':
            return ('g', unq(x))
        if x == 'undef' or x == 'poison':
            return ('undef',)
        if x == 'null':
            return ('c', 0)
        if x == 'true':
            return ('c', 1)
        if x == 'false':
            return ('c', 0)
        if x == 'zeroinitializer':
            return ('zero', ty)
        if x == 'none':
            return ('undef',)
        if c0 in '-0123456789':
            if ty[0] == 'f':
                return ('c', parse_fp(x, ty))
            return ('c', int(x, 0) & ((1 << ty[1]) - 1))
        if c0 == 'c' and x[1:2] == '"':
            s = x[2:-1]
            out = []
            i = 0
            while i < len(s):
                if s[i] == '\\':
                    out.append(int(s[i + 1:i + 3], 16))
                    i += 3
                else:
                    out.append(ord(s[i]))
                    i += 1
            return ('agg', [(('i', 8), ('c', v)) for v in out])
        if x in '[{<':
            close = {'[': ']', '{': '}', '<': '>'}[x]
            if x == '<' and self.peek() == '{':
                self.next()
                els = self.tvlist('}')
                self.expect('>')
                return ('agg', els)
            return ('agg', self.tvlist(close))
        if x == 'getelementptr':
            self.accept('inbounds')
            self.accept('nuw')
            if self.accept('inrange'):
                self.expect('(')
                while self.next() != ')':
                    pass
            self.expect('(')
            t = self.type()
            self.expect(',')
            ops = []
            while True:
                self.accept('inrange')
                ops.append(self.tv())
                if not self.accept(','):
                    break
            self.expect(')')
            return ('ce', 'gep', t, ops)
        if x in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext'):
            self.expect('(')
            tv = self.tv()
            self.expect('to')
            t2 = self.type()
            self.expect(')')
            return ('ce', x, tv, t2)
        if x in ('sub', 'add', 'mul', 'and', 'or', 'xor'):
            while self.peek() in ('nsw', 'nuw'):
                self.next()
            self.expect('(')
            a = self.tv()
            self.expect(',')
            b = self.tv()
            self.expect(')')
            return ('ce', x, a, b)
        raise Unsupported("value %s" % x)

    def tvlist(self, close):
        els = []
        while not self.accept(close):
            els.append(self.tv())
            self.accept(',')
        return els

    def tv(self):
        t = self.type()
        self.skip_attrs()
        return (t, self.value(t))


INF = ('inf', 1)
NINF = ('inf', -1)
NAN = ('nan',)


def parse_fp(x, ty):
    if x.startswith('0xK'):
        v = int(x[3:], 16)
        man = v & ((1 << 64) - 1)
        se = v >> 64
        e = se & 0x7fff
        s = -1 if se >> 15 else 1
        if e == 0x7fff:
            if man << 1 & ((1 << 64) - 1):
                return NAN
            return INF if s > 0 else NINF
        if man == 0:
            return Fraction(0)
        return s * Fraction(man) * Fraction(2) ** (e - 16383 - 63)
    if x.startswith('0x'):
        d = struct.unpack('>d', bytes.fromhex(x[2:].rjust(16, '0')))[0]
        if d != d:
            return NAN
        if d in (float('inf'), float('-inf')):
            return INF if d > 0 else NINF
        return Fraction(d)
    return Fraction(float(x))


class Func:
    __slots__ = ('name', 'params', 'ret', 'blocks', 'order', 'attrs_lowered')


class Module:
    def __init__(self):
        self.types = Types()
        self.globals = {}      # name -> (type, init or None, const)
        self.funcs = {}
        self.decls = set()
        self.aliases = {}
        self.ctors = []


LINK = {'private', 'internal', 'available_externally', 'linkonce', 'weak', 'common', 'appending', 'extern_weak',
        'linkonce_odr', 'weak_odr', 'external', 'dso_local', 'dso_preemptable', 'hidden', 'protected', 'default',
        'unnamed_addr', 'local_unnamed_addr', 'thread_local', 'dllimport', 'dllexport', 'fastcc', 'ccc', 'coldcc',
        'externally_initialized'}

FMF = {'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'}
IFL = {'nsw', 'nuw', 'exact', 'disjoint', 'nneg', 'samesign', 'inbounds', 'nusw'}

BINOPS = {'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr',
          'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'sext', 'zext', 'trunc', 'fpext', 'fptrunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'bitcast',
         'ptrtoint', 'inttoptr'}


def parse_call(p, kind):
    while p.peek() in FMF or p.peek() in LINK:
        p.next()
    p.skip_attrs()
    rt = p.type()
    if rt[0] == 'fn':
        rt = rt[1]
    x = p.next()
    if x[0] == '@':
        callee = ('g', unq(x))
    elif x[0] == '%':
        callee = ('l', unq(x))
    elif x == 'asm':
        raise Unsupported("inline asm")
    else:
        raise Unsupported("callee %s" % x)
    p.expect('(')
    args = []
    while not p.accept(')'):
        t = p.type()
        if t[0] == 'metadata':
            # skip metadata operand
            d = 0
            while True:
                y = p.peek()
                if d == 0 and y in (',', ')'):
                    break
                d += (y == '(') - (y == ')')
                p.next()
            args.append((t, ('undef',)))
        else:
            p.skip_attrs()
            args.append((t, p.value(t)))
        p.accept(',')
    while p.peek() and p.peek()[0] == '#':
        p.next()
    if p.peek() == '[':          # operand bundles
        raise Unsupported("operand bundle")
    return rt, callee, args


def parse_instr(toks):
    p = P(toks)
    dst = None
    if len(toks) > 1 and toks[1] == '=':
        dst = unq(p.next())
        p.next()
    op = p.next()
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()
    if op in BINOPS:
        fl = set()
        while p.peek() in FMF or p.peek() in IFL:
            fl.add(p.next())
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        return (op, dst, t, a, b, frozenset(fl))
    if op == 'load':
        p.accept('volatile')
        if p.accept('atomic'):
            pass
        t = p.type()
        p.expect(',')
        pt = p.tv()
        return ('load', dst, t, pt[1])
    if op == 'store':
        p.accept('volatile')
        p.accept('atomic')
        v = p.tv()
        p.expect(',')
        pt = p.tv()
        return ('store', None, v[0], v[1], pt[1])
    if op == 'getelementptr':
        while p.peek() in IFL:
            p.next()
        t = p.type()
        p.expect(',')
        ops = [p.tv()]
        while p.accept(','):
            if p.peek()[0] == '!':
                break
            ops.append(p.tv())
        return ('gep', dst, t, ops)
    if op == 'br':
        if p.accept('label'):
            return ('jmp', None, unq(p.next()))
        c = p.tv()
        p.expect(',')
        p.expect('label')
        a = unq(p.next())
        p.expect(',')
        p.expect('label')
        b = unq(p.next())
        return ('br', None, c[1], a, b)
    if op == 'phi':
        while p.peek() in FMF:
            p.next()
        t = p.type()
        inc = []
        while True:
            p.expect('[')
            v = p.value(t)
            p.expect(',')
            b = unq(p.next())
            p.expect(']')
            inc.append((v, b))
            if not p.accept(','):
                break
            if p.peek()[0] == '!':
                break
        return ('phi', dst, t, inc)
    if op == 'icmp' or op == 'fcmp':
        while p.peek() in FMF or p.peek() in IFL:
            p.next()
        pred = p.next()
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        return (op, dst, pred, t, a, b)
    if op == 'select':
        while p.peek() in FMF:
            p.next()
        c = p.tv()
        p.expect(',')
        a = p.tv()
        p.expect(',')
        b = p.tv()
        return ('select', dst, a[0], c, a[1], b[1])
    if op in CASTS:
        while p.peek() in IFL or p.peek() in FMF:
            p.next()
        v = p.tv()
        p.expect('to')
        t2 = p.type()
        return ('cast', dst, op, v[0], v[1], t2)
    if op == 'fneg':
        while p.peek() in FMF:
            p.next()
        v = p.tv()
        return ('fneg', dst, v[0], v[1])
    if op == 'freeze':
        v = p.tv()
        return ('freeze', dst, v[0], v[1])
    if op == 'alloca':
        p.accept('inalloca')
        t = p.type()
        n = None
        while p.accept(','):
            if p.peek() == 'align':
                p.next()
                p.next()
            elif p.peek()[0] == '!':
                break
            else:
                n = p.tv()
        return ('alloca', dst, t, n)
    if op == 'call':
        return ('call', dst) + parse_call(p, op)
    if op == 'invoke':
        rt, cal, args = parse_call(p, op)
        p.expect('to')
        p.expect('label')
        a = unq(p.next())
        p.expect('unwind')
        p.expect('label')
        b = unq(p.next())
        return ('invoke', dst, rt, cal, args, a, b)
    if op == 'ret':
        t = p.type()
        if t == VOID:
            return ('ret', None, None, None)
        return ('ret', None, t, p.value(t))
    if op == 'unreachable':
        return ('unreachable', None)
    if op == 'extractvalue':
        v = p.tv()
        idx = []
        while p.accept(','):
            if p.peek()[0] == '!':
                break
            idx.append(int(p.next()))
        return ('extractvalue', dst, v[0], v[1], idx)
    if op == 'insertvalue':
        v = p.tv()
        p.expect(',')
        e = p.tv()
        idx = []
        while p.accept(','):
            if p.peek()[0] == '!':
                break
            idx.append(int(p.next()))
        return ('insertvalue', dst, v[0], v[1], e, idx)
    if op == 'extractelement':
        v = p.tv()
        p.expect(',')
        i = p.tv()
        return ('extractelement', dst, v[0], v[1], i[1])
    if op == 'insertelement':
        v = p.tv()
        p.expect(',')
        e = p.tv()
        p.expect(',')
        i = p.tv()
        return ('insertelement', dst, v[0], v[1], e, i[1])
    if op == 'landingpad':
        t = p.type()
        cleanup = False
        clauses = []
        while p.peek():
            x = p.next()
            if x == 'cleanup':
                cleanup = True
            elif x in ('catch', 'filter'):
                clauses.append((x, p.tv()))
            elif x[0] in ',!':
                continue
        return ('landingpad', dst, t, cleanup, clauses)
    if op == 'resume':
        v = p.tv()
        return ('resume', None, v[0], v[1])
    if op == 'switch':
        v = p.tv()
        p.expect(',')
        p.expect('label')
        d = unq(p.next())
        p.expect('[')
        cases = []
        while not p.accept(']'):
            c = p.tv()
            p.expect(',')
            p.expect('label')
            cases.append((c[1][1], unq(p.next())))
        return ('switch', None, v[0], v[1], d, cases)
    raise Unsupported("instruction %s" % op)


LABEL = re.compile(r'^("(?:[^"\\]|\\.)*"|[-A-Za-z0-9_.$]+):')
MD = re.compile(r',? ![-A-Za-z0-9_.]+(?: ![0-9]+)?')


def parse_module(text):
    m = Module()
    lines = text.split('\n')
    i = 0
    n = len(lines)
    while i < n:
        ln = lines[i]
        i += 1
        if not ln or ln[0] in ';!$' or ln.startswith(('source_filename', 'target ', 'attributes ', 'module asm')):
            continue
        if ln[0] == '%':
            toks = tokenize(ln)
            name = unq(toks[0])
            p = P(toks)
            p.i = 3
            m.types.named[name] = p.type() if toks[3] != 'opaque' else ('opaque',)
            continue
        if ln[0] == '@':
            toks = tokenize(ln)
            name = unq(toks[0])
            p = P(toks)
            p.i = 2
            isext = False
            while p.peek() in LINK:
                if p.peek() in ('external', 'extern_weak'):
                    isext = True
                if p.next() == 'thread_local' and p.peek() == '(':
                    while p.next() != ')':
                        pass
            kw = p.next()
            if kw in ('alias', 'ifunc'):
                p.type()
                p.expect(',')
                t = p.type()
                v = p.value(t)
                m.aliases[name] = v
                continue
            if kw not in ('constant', 'global'):
                raise Unsupported("global %s" % ln[:80])
            t = p.type()
            init = None
            if not isext:
                init = p.value(t)
            m.globals[name] = (t, init, kw == 'constant')
            continue
        if ln.startswith('declare'):
            mm = re.search(r'(@(?:"[^"]*"|[-A-Za-z0-9_.$]+))\(', ln)
            m.decls.add(unq(mm.group(1)))
            continue
        if ln.startswith('define'):
            f = Func()
            f.attrs_lowered = False
            toks = tokenize(ln.rstrip('{ '))
            p = P(toks)
            p.next()
            while p.peek() in LINK:
                p.next()
            p.skip_attrs()
            f.ret = p.type()
            f.name = unq(p.next())
            p.expect('(')
            f.params = []
            k = 0
            while not p.accept(')'):
                if p.accept('...'):
                    f.params.append('...')
                    p.accept(',')
                    continue
                t = p.type()
                p.skip_attrs()
                if p.peek() and p.peek()[0] == '%':
                    nm = unq(p.next())
                else:
                    nm = '%' + str(k)
                k += 1
                f.params.append((t, nm))
                p.accept(',')
            f.blocks = {}
            f.order = []
            cur = None
            body = []
            while True:
                ln = lines[i]
                i += 1
                if ln == '}':
                    break
                body.append(ln)
            # the entry block has an implicit number when unlabelled
            j = 0
            cur = None
            first = True
            while j < len(body):
                ln = body[j]
                j += 1
                s = ln.strip()
                if not s or s[0] == ';':
                    continue
                if ln[0] != ' ':
                    mm = LABEL.match(ln)
                    if not mm:
                        raise Unsupported("line %r" % ln)
                    nm = mm.group(1)
                    if nm[0] == '"':
                        nm = nm[1:-1]
                    cur = []
                    f.blocks['%' + nm] = cur
                    f.order.append('%' + nm)
                    first = False
                    continue
                if cur is None:
                    cur = []
                    nm = '%' + str(sum(1 for q in f.params if q != '...'
                                       and q[1][1:].isdigit()))
                    f.blocks[nm] = cur
                    f.order.append(nm)
                # multi-line: switch and landingpad clauses
                if s.startswith('switch ') or ' = switch' in s:
                    while not body[j - 1].strip().endswith(']') and not body[j - 1].strip().startswith(']'):
                        s += ' ' + body[j].strip()
                        j += 1
                elif ' landingpad ' in s:
                    while j < len(body) and body[j].startswith('          '):
                        s += ' ' + body[j].strip()
                        j += 1
                elif s.startswith('invoke ') or ' = invoke ' in s or ' invoke ' in s[:40]:
                    s += ' ' + body[j].strip()
                    j += 1
                cur.append(s)
            m.funcs[f.name] = f
            continue
        raise Unsupported("top-level line %r" % ln[:100])
    return m


MDTAIL = re.compile(r'(, ![A-Za-z_.][-A-Za-z0-9_.]* ![0-9]+)+$')


def lower(f):
    """parse the instructions of a function on first use"""
    for b in list(f.blocks):
        out = []
        for s in f.blocks[b]:
            if isinstance(s, str):
                s = MDTAIL.sub('', s)
                s = parse_instr(tokenize(s))
            out.append(s)
        f.blocks[b] = out
