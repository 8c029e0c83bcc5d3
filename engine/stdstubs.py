"""Trusted contracts of the standard library's random number facilities (assumed, never verified here):
 - std::rand, std::random_device and the engines return an unspecified value of their type;
 - std::uniform_int_distribution / uniform_real_distribution require a <= b and return a value in [a, b];
 - std::normal_distribution returns any real number.
Every draw is an unconstrained symbolic value, so what is proved holds for every output of the generator."""
import re
import terms as tm

NOINLINE = [r'^_ZNSt24uniform_int_distributionI.EclI.*param_typeE$', r'^_ZNSt25uniform_real_distributionI.EclI.*param_typeE$',
            r'^_ZNSt19normal_distributionI.EclI.*param_typeE$', r'^_ZNSt26linear_congruential_engineI.*E4seed',
            r'^_ZNSt26linear_congruential_engineI.*EclEv$', r'^_ZNSt13random_device',
            r'^_ZNSt23mersenne_twister_engineI', r'^_ZNSt26linear_congruential_engineI.*EC[12]E']

WIDTH = {'i': 32, 'j': 32, 'l': 64, 'm': 64, 's': 16, 't': 16, 'x': 64, 'y': 64}


def nothing(ex, st, fr, ins, args):
    return ex.ret_to(st, fr, ins, None)


def word(ex, st, fr, ins, args):
    w = ins[2][1] if isinstance(ins[2], tuple) else 64
    return ex.ret_to(st, fr, ins, ex.newvar('word', w))


def rand(ex, st, fr, ins, args):
    v = ex.newvar('rand', 32)
    st.assume(tm.icmp('sge', v, tm.const(0, 32)))
    return ex.ret_to(st, fr, ins, v)


def count(ex, st):
    n = st.ghost.get('draws', 0) + 1
    st.ghost['draws'] = n
    if n > ex.maxdraws:
        import symex
        # every later round of a retry loop starts from a state that the first round already covers (the elements
        # drawn into are arbitrary on entry)
        raise symex.PathError('infeasible', '')


def as_term(x, sort):
    if isinstance(x, tm.T):
        return x
    return tm.const(x, sort) if sort != 'R' else tm.const(x)


def uniform_int(ex, st, fr, ins, args, letter):
    count(ex, st)
    w = WIDTH[letter]
    ty = ('i', w)
    a = as_term(ex.load(st, ty, args[2]), w)
    b = as_term(ex.load(st, ty, ex.padd(args[2], w // 8)), w)
    le = 'sle' if letter in 'ilsx' else 'ule'
    ex.obl(st, 'random', tm.icmp(le, a, b), 'uniform_int_distribution: lower bound is at most the upper bound')
    v = ex.newvar('draw', w)
    st.assume(tm.icmp(le, a, b))
    st.assume(tm.icmp(le, a, v))
    st.assume(tm.icmp(le, v, b))
    return ex.ret_to(st, fr, ins, v)


def uniform_real(ex, st, fr, ins, args, letter):
    count(ex, st)
    size = 8 if letter == 'd' else 4
    ty = ('f', size * 8)
    a = as_term(ex.load(st, ty, args[2]), 'R')
    b = as_term(ex.load(st, ty, ex.padd(args[2], size)), 'R')
    ex.obl(st, 'random', tm.le(a, b), 'uniform_real_distribution: lower bound is at most the upper bound')
    v = ex.newvar('draw')
    st.assume(tm.le(a, v))
    st.assume(tm.le(v, b))
    return ex.ret_to(st, fr, ins, v)


def normal(ex, st, fr, ins, args, letter):
    count(ex, st)
    return ex.ret_to(st, fr, ins, ex.newvar('draw'))


def _l(f, k):
    return lambda ex, st, fr, ins, args: f(ex, st, fr, ins, args, k)


TABLE = [(re.compile(r'^@_ZNSt24uniform_int_distributionI(.)EclI.*param_typeE$'), lambda m: _l(uniform_int, m.group(1))),
         (re.compile(r'^@_ZNSt25uniform_real_distributionI(.)EclI.*param_typeE$'), lambda m: _l(uniform_real, m.group(1))),
         (re.compile(r'^@_ZNSt19normal_distributionI(.)EclI.*param_typeE$'), lambda m: _l(normal, m.group(1))),
         (re.compile(r'^@_ZNSt26linear_congruential_engineI.*E4seed'), lambda m: nothing),
         (re.compile(r'^@_ZNSt26linear_congruential_engineI.*EC[12]E'), lambda m: nothing),
         (re.compile(r'^@_ZNSt26linear_congruential_engineI.*EclEv$'), lambda m: word),
         (re.compile(r'^@_ZNSt23mersenne_twister_engineI.*EclEv$'), lambda m: word),
         (re.compile(r'^@_ZNSt23mersenne_twister_engineI'), lambda m: nothing),
         (re.compile(r'^@_ZNSt13random_deviceclEv$'), lambda m: word),
         (re.compile(r'^@_ZNSt13random_device9_M_getvalEv$'), lambda m: word),
         (re.compile(r'^@_ZNSt13random_device'), lambda m: nothing),
         (re.compile(r'^@rand$'), lambda m: rand),
         (re.compile(r'^@srand$'), lambda m: nothing)]


def lookup(name):
    for r, f in TABLE:
        m = r.match(name)
        if m:
            return f(m)
    return None


# ---------------------------------------------------------------- output streams
# Trusted contract: each inserter of std::ostream appends the text of its argument (for numbers: an unspecified function
# of the value, its type and the stream's format state) and returns the stream.  A stream is the ghost sequence of what
# was inserted; adjacent pieces of literal text are merged.

STREAM_NOINLINE = [r'^_ZNSolsE', r'^_ZStlsI', r'^_ZSt4endlI', r'^_ZSt5flushI', r'^_ZNSo3putEc$', r'^_ZNSo5writeE', r'^_ZNSo5flushEv$',
                   r'^_ZNSo9_M_insertI', r'^_ZSt16__ostream_insertI']


def _stream(ex, st, p):
    import symex
    if not isinstance(p, symex.Ptr) or ('stream', p.obj) not in st.ghost:
        raise symex.Unsupported('insertion into an unknown stream')
    return ('stream', p.obj)


def _append(ex, st, fr, ins, p, item):
    k = _stream(ex, st, p)
    tr = st.ghost[k]
    if isinstance(item, str):
        tr = tr[:-1] + (tr[-1] + item,) if tr and isinstance(tr[-1], str) else (tr + (item,) if item else tr)
    else:
        tr = tr + (item,)
    st.ghost[k] = tr
    return ex.ret_to(st, fr, ins, p)


def _bytes(ex, st, p, n=None):
    out = []
    while n is None or len(out) < n:
        c = ex.load(st, ('i', 8), ex.padd(p, len(out)))
        if isinstance(c, tm.T):
            c = c.args[0] if c.op == 'c' else None
        if not isinstance(c, int):
            import symex
            raise symex.Unsupported('insertion of text that is not a literal')
        if n is None and c == 0:
            break
        out.append(chr(c & 255))
    return ''.join(out)


def os_text(ex, st, fr, ins, args):
    return _append(ex, st, fr, ins, args[0], _bytes(ex, st, args[1]))


def os_textn(ex, st, fr, ins, args):
    return _append(ex, st, fr, ins, args[0], _bytes(ex, st, args[1], ex.conc(st, args[2])))


def os_char(ex, st, fr, ins, args):
    c = args[1].args[0] if isinstance(args[1], tm.T) and args[1].op == 'c' else args[1]
    if not isinstance(c, int):
        return _append(ex, st, fr, ins, args[0], ('c', c))
    return _append(ex, st, fr, ins, args[0], chr(c & 255))


def os_num(letter):
    def f(ex, st, fr, ins, args):
        v = args[1]
        if letter in 'dfe':
            v = as_term(v, 'R')
        else:
            w = {'b': 1, 's': 16, 't': 16, 'i': 32, 'j': 32, 'l': 64, 'm': 64, 'x': 64, 'y': 64}[letter]
            v = as_term(v, w)
        kind = 'R' if letter in 'dfe' else ('b' if letter == 'b' else 's' if letter in 'silx' else 'u')
        return _append(ex, st, fr, ins, args[0], (kind, v))
    return f


def os_manip(ex, st, fr, ins, args):
    import symex
    if isinstance(args[1], symex.FnPtr) and args[1].name.startswith('@_ZSt4endlI'):
        return _append(ex, st, fr, ins, args[0], '\n')
    if isinstance(args[1], symex.FnPtr) and args[1].name.startswith('@_ZSt5flushI'):
        return _append(ex, st, fr, ins, args[0], '')
    raise symex.Unsupported('stream manipulator %r' % (args[1],))


def os_lit(text):
    return lambda ex, st, fr, ins, args: _append(ex, st, fr, ins, args[0], text)


def os_new(ex, st, fr, ins, args):
    import symex
    o = st.new(8, 'stream', 'stream')
    st.ghost[('stream', o.id)] = ()
    return ex.ret_to(st, fr, ins, symex.Ptr(o.id, 0))


def os_same(ex, st, fr, ins, args):
    a, b = (st.ghost[_stream(ex, st, p)] for p in args)
    ok = len(a) == len(b)
    if ok:
        for x, y in zip(a, b):
            if isinstance(x, str) or isinstance(y, str):
                ok = ok and x == y
            elif x[0] != y[0] or x[1].sort != y[1].sort:
                ok = False
    if ok:
        for k, (x, y) in enumerate(zip(a, b)):
            if not isinstance(x, str) and x[1] is not y[1]:
                ex.obl(st, 'stream', tm.eq(x[1], y[1]), 'value number %d written to the stream' % k)
    return ex.ret_to(st, fr, ins, int(ok))


TABLE += [(re.compile(r'^@_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc$'), lambda m: os_text),
          (re.compile(r'^@_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c$'), lambda m: os_char),
          (re.compile(r'^@_ZNSols(?:E|Ev)?([bstijlmxydfe])$'), lambda m: os_num(m.group(1))),
          (re.compile(r'^@_ZNSo9_M_insertI([bijlmxydfe])EERSoT_$'), lambda m: os_num(m.group(1))),
          (re.compile(r'^@_ZNSolsEPFRSoS_E$'), lambda m: os_manip),
          (re.compile(r'^@_ZSt4endlIc'), lambda m: os_lit('\n')),
          (re.compile(r'^@_ZSt5flushIc'), lambda m: os_lit('')),
          (re.compile(r'^@_ZNSo5flushEv$'), lambda m: os_lit('')),
          (re.compile(r'^@_ZNSo3putEc$'), lambda m: os_char),
          (re.compile(r'^@_ZNSo5writeEPKcl$'), lambda m: os_textn),
          (re.compile(r'^@_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamI'), lambda m: os_textn),
          (re.compile(r'^@os_new$'), lambda m: os_new),
          (re.compile(r'^@os_same$'), lambda m: os_same),
          (re.compile(r'^@os_free$'), lambda m: nothing)]
