"""C20: orthographic and perspective projections, frustum planes"""
from contracts.common import *
from contracts.c15 import target
from contracts.c19 import be, put, idm, MINERR

META = {'level': 'proof'}
SQ4 = [('fix', 4, 4, 'col', 'col'), ('fix', 4, 4, 'row', 'row'), ('fix', 4, 4, 'col', 'row'), ('fix', 4, 4, 'row', 'col'), ('dyn', 4, 4, 'col', 'row'), ('dyn', 4, 4, 'row', 'col'),
       ('ext', 4, 4, 'col', 'col'), ('ext', 4, 4, 'row', 'row'), ('dext', 4, 4, 'row', 'row'), ('dext', 4, 4, 'col', 'row')]
ODD = [('fix', 5, 4, 'col', 'row'), ('fix', 4, 5, 'row', 'row'), ('dyn', 5, 5, 'row', 'row')]
CLIP = {'z_clip_neg_one': -1, 'z_clip_zero': 0}
HAND = {'left_handed': 1, 'right_handed': -1}
C0, C1, C2 = const(0), const(1), const(2)


def ortho(T, l, r, b, t, n, f, s, z):
    w, h, d = r - l, t - b, f - n
    v = {(0, 0): C2 / w, (1, 1): C2 / h, (3, 0): -(r + l) / w, (3, 1): -(t + b) / h}
    if z:
        v.update({(2, 2): const(2 * s) / d, (3, 2): -(f + n) / d})
    else:
        v.update({(2, 2): const(s) / d, (3, 2): -n / d})
    return put(idm(T), T[3], v)


def persp(T, l, r, b, t, n, f, s, z):
    w, h, d = r - l, t - b, f - n
    S_ = const(s)
    v = {(0, 0): C2 * n / w, (1, 1): C2 * n / h, (2, 0): -S_ * (r + l) / w, (2, 1): -S_ * (t + b) / h, (2, 3): S_, (3, 3): C0}
    if z:
        v.update({(2, 2): S_ * (f + n) / d, (3, 2): -C2 * f * n / d})
    else:
        v.update({(2, 2): S_ * f / d, (3, 2): -f * n / d})
    return put(idm(T), T[3], v)


def image(M, T, p):
    """homogeneous image of a point under the leading 4x4 block"""
    A = [[be(M, T[3], j, i) for j in range(4)] for i in range(4)]
    return mv(A, list(p) + [C1])


CALLS = {  # parameter form -> (call, extents from (a, b, c, d, n, f))
    'lrbt': ('%s(M, e[0], e[1], e[2], e[3], e[4], e[5], %s)', lambda e: (e[0], e[1], e[2], e[3], e[4], e[5])),
    'wh': ('%s(M, e[0], e[1], e[4], e[5], %s)', lambda e: (-e[0] / C2, e[0] / C2, -e[1] / C2, e[1] / C2, e[4], e[5])),
}


def c_proj(nm, t, T, form, et=None, kinds=('orthographic', 'perspective')):
    """all handedness and depth forms of the extents or width/height projections"""
    k, r, c, b, l = T
    et = et or t
    call, ext = CALLS[form]
    body, outs = 'cv_touch(m[0]);', []
    for kind in kinds:
        for h in HAND:
            for z in CLIP:
                for suf in (True, False):
                    o = 'o%d' % len(outs)
                    cl = call % ('matrix_%s%s' % (kind, {'left_handed': '_LH', 'right_handed': '_RH'}[h] if suf else ''), z if suf else '%s, %s' % (h, z))
                    body += '{ %s %s; outm(%s, M, %d, %d); }' % (target(t, T), cl, o, r, c)
                    outs.append((o, kind, HAND[h], CLIP[z], suf))
    body = body.replace('cv_touch(m[0]);', '')
    kw = dict(lo=-1000, hi=1000) if et == 'int' else {}
    ps = [P('m', t, (r, c)), P('e', et, 6, **kw)] + [P(o[0], t, (r, c), 'out') for o in outs]
    conv = (lambda xs: [as_real(x) for x in xs]) if et == 'int' else (lambda xs: list(xs))

    def pre(I):
        L, R, B, Tp, n, f = ext(conv(I.e))
        if et == 'int':
            return [in_range(x, -1000, 1000) for x in I.e] + [ne(L, R), ne(B, Tp), ne(n, f)]
        return [ne(L, R), ne(B, Tp), ne(n, f)]

    def ens(I, O):
        X = ext(conv(I.e))
        res = []
        for o, kind, s, z, suf in outs:
            res += meq('%s %s %d%s' % (kind, 'LH' if s > 0 else 'RH', z, ' by suffix' if suf else ''), O[o], (ortho if kind == 'orthographic' else persp)(T, *X, s, z))
        return res
    return Case(nm, body, ps, ens, pre, label='%s projections, %s %s from %s' % (form, t, T, et), opts={'float': True} if 'float' in (t, et) else {})


def c_fov(nm, t, T):
    k, r, c, b, l = T
    body, outs = '', []
    for w in 'xy':
        for h in HAND:
            for z in CLIP:
                for suf in (True, False):
                    o = 'o%d' % len(outs)
                    cl = 'matrix_perspective_%sfov%s(M, fov, asp, n, f, %s)' % (w, {'left_handed': '_LH', 'right_handed': '_RH'}[h] if suf else '', z if suf else '%s, %s' % (h, z))
                    body += '{ %s %s; outm(%s, M, %d, %d); }' % (target(t, T), cl, o, r, c)
                    outs.append((o, w, HAND[h], CLIP[z]))
    ps = [P('m', t, (r, c)), P('fov', t, gen='angle'), P('asp', t), P('n', t), P('f', t)] + [P(o[0], t, (r, c), 'out') for o in outs]
    pre = lambda I: [ne(tm.cos(I.fov / C2), C0), ne(tm.sin(I.fov / C2), C0), ne(I.asp, C0), ne(I.n, C0), ne(I.n, I.f)]

    def ens(I, O):
        tn = tm.sin(I.fov / C2) / tm.cos(I.fov / C2)
        full = C2 * I.n * tn
        res = []
        for o, w, s, z in outs:
            W, H = (full, full / I.asp) if w == 'x' else (full * I.asp, full)
            res += meq('%sfov %s %d' % (w, 'LH' if s > 0 else 'RH', z), O[o], persp(T, -W / C2, W / C2, -H / C2, H / C2, I.n, I.f, s, z))
        return res
    return Case(nm, body, ps, ens, pre, label='field of view projections, %s %s' % (t, T))


def c_corner(nm, t, T, kind, s, z):
    """the corners of the viewing volume go to the corners of the clip volume: stated on the library's own transform of points"""
    k, r, c, b, l = T
    h = 'left_handed' if s > 0 else 'right_handed'
    zc = 'z_clip_neg_one' if z else 'z_clip_zero'
    body = target(t, T) + 'matrix_%s(M, e[0], e[1], e[2], e[3], e[4], e[5], %s, %s);' % (kind, h, zc)
    corners = [(i, j, d) for i in (0, 1) for j in (0, 1) for d in (0, 1)]
    for q, (i, j, d) in enumerate(corners):
        sc = '*e[5]/e[4]' if kind == 'perspective' and d else ''
        body += '{ vector<%s,fixed<4>> P(e[%d]%s, e[%d]%s, %s%se[%d], %s1); auto x = transform_vector_4D(M, P); out(o%d, x, 4); vector<%s,fixed<3>> R(P[0], P[1], P[2]); auto y = transform_point_4D(M, R); out(p%d, y, 3); }' % (
            t, i, sc, 2 + j, sc, '' if s > 0 else '-', '', 4 + d, '', q, t, q)
    ps = [P('m', t, (r, c)), P('e', t, 6)] + [P('o%d' % q, t, 4, 'out') for q in range(8)] + [P('p%d' % q, t, 3, 'out') for q in range(8)]
    pre = lambda I: [ne(I.e[0], I.e[1]), ne(I.e[2], I.e[3]), ne(I.e[4], I.e[5]), ne(I.e[4], C0), ne(I.e[5], C0)]

    def ens(I, O):
        res = []
        for q, (i, j, d) in enumerate(corners):
            w = I.e[4 + d] if kind == 'perspective' else C1
            exp = [const(1 if i else -1), const(1 if j else -1), const(1 if d else z)]
            res += veq('corner %d%d%d' % (i, j, d), O['o%d' % q], [x * w for x in exp] + [w]) + veq('corner %d%d%d after division' % (i, j, d), O['p%d' % q], exp)
        return res
    return Case(nm, body, ps, ens, pre, label='corners of the %s volume, %s %s %s %s' % (kind, h, zc, t, T))


def plane_rows(A, z):
    """planes from basis elements A(i, j) = be(i, j): rows i = x,y,z,w components"""
    pl = []
    for c_, sg in ((0, 1), (0, -1), (1, 1), (1, -1), (2, 1), (2, -1)):
        if c_ == 2 and sg == 1 and not z:
            pl.append([A(i, 2) for i in range(4)])
        else:
            pl.append([A(i, 3) + A(i, c_) if sg > 0 else A(i, 3) - A(i, c_) for i in range(4)])
    return pl


def c_planes(nm, t, T, pt, z, norm, two=None):
    """frustum planes of a concatenated matrix (or of modelview and projection); norm: True, False, None (default) """
    k, r, c, b, l = T
    zc = 'z_clip_neg_one' if z else 'z_clip_zero'
    arg = '' if norm is None else ', true' if norm else ', false'
    body = target(t, T) + (target(t, two, 'N', 'n') if two else '') + '%s pl[6][4]; extract_frustum_planes(M%s, pl, %s%s); for(int i = 0; i < 6; ++i) for(int j = 0; j < 4; ++j) o[4*i+j] = pl[i][j]; outm(m1, M, %d, %d);' % (
        pt, ', N' if two else '', zc, arg, r, c)
    if not two:
        body += '%s q[4]; extract_near_frustum_plane(M, q, %s); for(int j = 0; j < 4; ++j) g[j] = q[j];' % (pt, zc)
    ps = [P('m', t, (r, c))] + ([P('n', t, (4, 4))] if two else []) + [P('p', t, 3), P('o', pt, (6, 4), 'out'), P('m1', t, (r, c), 'out')] + ([P('g', pt, 4, 'out')] if not two else [])
    on = norm is not False

    def M_(I):
        if not two:
            return I.m
        A, B = (I.m, I.n) if b == 'row' else (I.n, I.m)
        return mm(A, B)

    def pre(I):
        if not on:
            return []
        M = M_(I)
        return [lt(C0, norm2(p[:3])) for p in plane_rows(lambda i, j: be(M, b, i, j), z)]

    def ens(I, O):
        M = M_(I)
        rows = plane_rows(lambda i, j: be(M, b, i, j), z)
        names = ('left', 'right', 'bottom', 'top', 'near', 'far')
        res = meq('matrix kept', O.m1, I.m)
        for p, a, o in zip(names, rows, O.o):
            L = tm.sqrt(norm2(a[:3])) if on else None
            res += veq(p, o, [x / L for x in a] if on else a)
            if on and not two:
                res += [('lemma: %s has a unit normal' % p, eq(norm2(o[:3]), C1))]
        if not two:
            res += veq('near plane', O.g, rows[4])
        if not two and not on:
            # the planes bound the visible volume: clip coordinates within [-w, w] (or [0, w] in depth) exactly on the inner side
            h = mv([[be(I.m, b, j, i) for j in range(4)] for i in range(4)], I.p + [C1])
            d = [dot(o, I.p + [C1]) for o in O.o]
            x, y, zz, w = h
            side = [w + x, w - x, w + y, w - y, w + zz if z else zz, w - zz]
            res += [('lemma: %s distance is the clip condition' % p, eq(a, b_)) for p, a, b_ in zip(names, d, side)]
        return res
    return Case(nm, body, ps, ens, pre, label='frustum planes, %s %s %s into %s %s' % (t, T, zc, pt, {None: 'normalized by default', True: 'normalized', False: 'raw'}[norm]), opts={'float': True} if 'float' in (t, pt) else {})


SIZED = {'ortho': 'matrix_orthographic(M, -1., 2., -3., 4., 1., 9., left_handed, z_clip_zero);', 'persp': 'matrix_perspective(M, 2., 4., 1., 9., right_handed, z_clip_neg_one);',
         'fov': 'matrix_perspective_xfov(M, 1., 2., 1., 9., right_handed, z_clip_neg_one);', 'planes': 'double pl[6][4]; extract_frustum_planes(M, pl, z_clip_zero, false);',
         'near': 'double q[4]; extract_near_frustum_plane(M, q, z_clip_zero);'}


def c_size(nm, fn, b, k):
    decl = mtype(k, 'double', 0, 0, b, 'row' if b == 'col' else 'col')
    body = 'double mb[25] = {}; %s M%s; M.zero(); ok[0] = 0; %s ok[0] = 1;' % (decl, '(rs, cs)' if k == 'dyn' else '(mb, rs, cs)', SIZED[fn])
    ps = [P('rs', 'int', lo=1, hi=5), P('cs', 'int', lo=1, hi=5), P('ok', 'int', 1, 'out')]
    return Case(nm, body, ps, lambda I, O: [('runs', is_val(O.ok[0], 1))], lambda I: [in_range(I.rs, 1, 5), in_range(I.cs, 1, 5)],
                throws=lambda I: [(MINERR, or_(tm.icmp('slt', I.rs, const(4, 32)), tm.icmp('slt', I.cs, const(4, 32))))], label='minimum size of %s, %s %s' % (fn, b, k))


def units(tier):
    cs = []
    n = [0]

    def add(f, *a):
        n[0] += 1
        cs.append(f('c20_%s_%d' % (f.__name__, n[0]), *a))
    ty = lambda i: ('double', 'float')[i % 3 == 2]
    for i, T in enumerate(SQ4 + ODD):
        add(c_proj, ty(i), T, 'lrbt')
        add(c_proj, ty(i + 1), T, 'wh')
        add(c_fov, ty(i + 2), T)
        add(c_planes, ty(i), T, ty(i), -1 if i % 2 else 0, False)
        add(c_planes, ty(i + 1), T, ty(i + 1), 0 if i % 2 else -1, (True, None)[i // 2 % 2])
    for i, T in enumerate(SQ4[:4] + SQ4[4:8:3]):
        for kind in ('orthographic', 'perspective'):
            for s in (1, -1):
                for z in (-1, 0):
                    if i < 2 or (i + s + z) % 2:
                        add(c_corner, ty(i), T, kind, s, z)
    for T in (SQ4[2], SQ4[5]):
        for form in CALLS:
            add(c_proj, 'double', T, form, 'int')
            add(c_proj, 'float', T, form, 'int')
    add(c_proj, 'float', SQ4[0], 'lrbt', 'double')
    add(c_proj, 'double', SQ4[1], 'wh', 'float')
    for i, (T, U) in enumerate([(SQ4[0], SQ4[0]), (SQ4[1], SQ4[1]), (SQ4[2], SQ4[4]), (SQ4[5], SQ4[3]), (SQ4[6], SQ4[0]), (SQ4[8], SQ4[7])]):
        add(c_planes, ty(i), T, ty(i), -1 if i % 2 else 0, False, U)
        add(c_planes, ty(i + 1), T, ty(i + 1), 0 if i % 2 else -1, (True, None)[i // 2 % 2], U)
    add(c_planes, 'double', SQ4[0], 'float', 0, True)
    add(c_planes, 'float', SQ4[1], 'double', -1, False)
    for i, fn in enumerate(SIZED):
        for b in ('row', 'col'):
            add(c_size, fn, b, ('dyn', 'dext')[i % 2])
    return chunks('c20', cs, 6)
