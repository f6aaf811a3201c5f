"""Interpolation: Hermite (pointwise, control points) and 1D linear."""
from .common import *
import itertools
from ..calculus import D

HCC = {d: 'src/cpu/interpolation/hermite-%dd.cc' % d for d in DIMS}
MIX = {2: {(0, 1): 0}, 3: {(0, 1): 0, (1, 2): 1, (0, 2): 2, (0, 1, 2): 3}}

def cell_point(w, tag=''):
    """a generic point of a generic cell of the padded grid -> (X, base node, offsets t, facts)"""
    X = []; B = []; T = []; fs = []
    for a in range(3):
        if a >= w.dim: X.append(sym('P%s%d' % (tag, a))); B.append(ZERO); T.append(None); continue
        b = sym('b%s%s' % (tag, 'xyz'[a]), True); t = sym('t%s%s' % (tag, 'xyz'[a]))
        fs += [(t, False), (sub(ONE, t), True), (add(b, w.pad), False), (sub(sub(add(w.n[a], w.pad), const(2)), b), False)]
        X.append(add(w.x0[a], mul(add(add(b, const(Fraction(1, 2))), t), w.h[a]))); B.append(b); T.append(t)
    return X, B, T, fs

def outside_point(w, side):
    """a point below (side 0) or above (side 1) the padded grid's cells on every axis; its cell is the nearest one"""
    X = []; B = []; T = []; fs = []
    for a in range(3):
        if a >= w.dim: X.append(sym('P%d' % a)); B.append(ZERO); T.append(None); continue
        t = sym('t%s%s' % ('+' if side else '-', 'xyz'[a]))
        b = sub(add(w.n[a], w.pad), const(2)) if side else neg(w.pad)
        fs += [(sub(t, ONE), True)] if side else [(neg(t), True)]
        X.append(add(w.x0[a], mul(add(add(b, const(Fraction(1, 2))), t), w.h[a]))); B.append(b); T.append(t)
    return X, B, T, fs

def hbasis(corner, slope, t):
    o = sub(ONE, t)
    if not slope: return mul(mul(o, o), add(ONE, mul(const(2), t))) if corner == 0 else mul(mul(t, t), sub(const(3), mul(const(2), t)))
    return mul(t, mul(o, o)) if corner == 0 else mul(mul(t, t), sub(t, ONE))

def nodal(w, s, J, pre):
    """nodal data for the set s of differentiated axes"""
    if len(s) == 0: return w.value('s', w.ls['phip'][0], *J, node=pre)
    if len(s) == 1: return w.value('v', w.ls['psip'][0], *J, s[0], node=pre)
    return w.value('n', w.ls['mixp'][0], *J, MIX[w.dim][s], node=pre)

def tensor_cubic(w, B, T, pre):
    r = ZERO
    for corner in itertools.product((0, 1), repeat=w.dim):
        J = [add(B[a], const(corner[a])) if a < w.dim else ZERO for a in range(3)]
        for sl in itertools.product((0, 1), repeat=w.dim):
            s = tuple(a for a in range(w.dim) if sl[a])
            v = nodal(w, s, J, pre)
            for a in range(w.dim):
                v = mul(v, hbasis(corner[a], sl[a], T[a]))
                if sl[a]: v = mul(v, w.h[a])
            r = add(r, v)
    return r

def evaluate(w, X, lim=None, probe='k_herm'):
    """value and gradient of the tree's interpolant at X"""
    out = w.obj('out')
    log, pc = w.E.log, w.E.pc
    w.E.pc = TRUE
    if lim is None: w.d('k_hermd', w.grid, w.ls_obj, *X, out)
    else: w.d(probe, w.grid, w.ls_obj, *X, lim, out)
    r = [w.E.load(out.plus(const(8 * k)), 8, DBL, pc=TRUE) for k in range(4)]
    w.after = w.E.log
    w.E.log, w.E.pc = log, pc
    return r

def hermite_world(m, d):
    w = World(m, d, minpad=1)
    w.ls_obj = w.levelset()
    return w

def C09(ctx):
    for cfg in ctx.configs:
        m = ctx.module(['world', 'interp'], cfg)
        for d in DIMS:
            w = hermite_world(m, d)
            X, B, T, fs = cell_point(w)
            pre = w.mark()
            with assume(*fs):
                want = tensor_cubic(w, B, T, pre)
                for lim in (FALSE, None):
                    got = evaluate(w, X, lim)
                    ctx.equal('tensor-product cubic', '%dD value at a point of cell %s%s' % (d, ijk(B), '' if lim is FALSE else ' (default arguments)'), got[0], want, HCC[d])
                # continuity: value and derivatives agree at the shared face of neighbouring cells
            ctx.stats(w.E)
    ctx.floor = 10

def slope(value, at):
    """derivative of the value; piecewise when the value switches on the coordinate itself (then the boundaries of the
    pieces are left out of the comparison)"""
    try: return derivative(value, at), None
    except Unsupported: return D(value, at), at.id

def C10(ctx):
    for cfg in ctx.configs:
        m = ctx.module(['world', 'interp'], cfg)
        for d in DIMS:
            w = hermite_world(m, d)
            X, B, T, fs = cell_point(w)
            pre = w.mark()
            with assume(*fs):
                for lim in (FALSE, TRUE):
                    got = evaluate(w, X, lim)
                    for a in range(3):
                        label = '%dD limiting %s gradient component %d' % (d, 'on' if lim is TRUE else 'off', a)
                        if a < d:
                            at = ATOMS[next(iter(full(T[a])))[0][0]]
                            want, inner = slope(got[0], at)
                            ctx.equal('gradient is the derivative of the value', label, got[1 + a], div(want, w.h[a]), HCC[d], inner=inner)
                        else: ctx.equal('no gradient off the grid axes', label, got[1 + a], ZERO, HCC[d])
                    # at every corner of the cell
                    for corner in itertools.product((0, 1), repeat=d):
                        S = Subst({next(iter(full(T[a])))[0][0]: const(corner[a]) for a in range(d)})
                        J = [add(B[a], const(corner[a])) if a < d else ZERO for a in range(3)]
                        ctx.equal('nodal value', '%dD limiting %s, corner %s' % (d, 'on' if lim is TRUE else 'off', corner), S(got[0]), nodal(w, (), J, pre), HCC[d])
            # extrapolation: a point outside the cells of the padded grid
            for side in (0, 1):
                X, B, T, fs = outside_point(w, side)
                with assume(*fs):
                    got = evaluate(w, X, FALSE)
                    for a in range(d):
                        at = ATOMS[next(iter(full(T[a])))[0][0]]
                        want, inner = slope(got[0], at)
                        ctx.equal('gradient is the derivative of the value', '%dD outside the grid (%s) gradient component %d' % (d, 'above' if side else 'below', a), got[1 + a], div(want, w.h[a]), HCC[d], inner=inner)
            ctx.stats(w.E)
    ctx.floor = 60

def C11(ctx):
    where = 'include/gals/cpu/interpolation/hermite.h get_control_points'
    third = const(Fraction(1, 3))
    for cfg in ctx.configs:
        m = ctx.module(['world', 'interp'], cfg)
        FACTS.__init__()
        E = Engine(m); E.run_ctors()
        p0, s0, p1, s1, h = [sym(x) for x in ('phi0', 'slope0', 'phi1', 'slope1', 'dx')]
        FACTS.ge(h, True)
        c30, c03 = p0, p1
        c21 = add(p0, mul(third, mul(s0, h))); c12 = sub(p1, mul(third, mul(s1, h)))
        def run(probe, args):
            out = Ptr(('obj', 'out'), (), ZERO)
            log = E.log; E.pc = TRUE
            E.call(probe, args + [out])
            r = [E.load(out.plus(const(8 * k)), 8, DBL, pc=TRUE) for k in range(4)]
            E.log = log
            return r
        names = ['c_30', 'c_21', 'c_12', 'c_03']
        for probe, args in (('k_cp', [p0, s0, p1, s1, h, FALSE]), ('k_cpd', [p0, s0, p1, s1, h])):
            for nm, g, x in zip(names, run(probe, args), (c30, c21, c12, c03)):
                ctx.equal('unlimited control points', nm, g, x, where)
        D1 = mul(const(3), sub(c21, c30)); D2 = mul(const(3), sub(c03, c12))
        D3 = mul(const(Fraction(3, 2)), sub(c12, c30)); D4 = mul(const(Fraction(3, 2)), sub(c03, c21)); D5 = sub(c03, c30)
        t1 = lt(mul(sub(D1, D3), sub(D1, D5)), ZERO)
        t2 = lt(mul(sub(D2, D4), sub(D2, D5)), ZERO)
        t3 = le(mul(sub(D1, D5), sub(D2, D5)), ZERO)
        two3 = const(Fraction(2, 3))
        L21 = ite(t1, c21, ite(t2, sub(mul(const(2), c12), c03), ite(t3, add(mul(two3, c30), mul(third, c03)), c21)))
        L12 = ite(t1, sub(mul(const(2), c21), c30), ite(t2, c12, ite(t3, add(mul(two3, c03), mul(third, c30)), c12)))
        for nm, g, x in zip(names, run('k_cp', [p0, s0, p1, s1, h, TRUE]), (c30, L21, L12, c03)):
            ctx.equal('limited control points', nm, g, x, where)
        e = sym('eta'); at = ATOMS[next(iter(full(e)))[0][0]]
        o = sub(ONE, e)
        Bs = [mul(o, mul(o, o)), mul(const(3), mul(e, mul(o, o))), mul(const(3), mul(mul(e, e), o)), mul(e, mul(e, e))]
        for i in range(4):
            E.pc = TRUE
            ctx.equal('Bernstein basis', 'B%d' % i, E.call('k_B', [const(i), e]), Bs[i], where)
            E.pc = TRUE
            ctx.equal('Bernstein derivative', "B%d'" % i, E.call('k_B', [const(4 + i), e]), derivative(Bs[i], at), where)
        ctx.stats(E)
    ctx.floor = 40

def point_fields(w, x, I, pre): return [w.value('v', x, *I, c, node=pre) for c in range(3)]

def ls_frame(ctx, w, pre, rule, where, result=('phii', 'psii'), ghosts=('phii', 'psii'), more=None):
    fs = {n: w.ls[n] for n in w.ls if n not in result}
    if more: fs.update(more)
    frame_fields(ctx, w, pre, fs, rule, where, ghosts_of={n: w.ls[n] for n in ghosts})

def C12(ctx):
    for cfg in ctx.configs:
        m = ctx.module(['world', 'interp'], cfg)
        for d in DIMS:
            for entry, label in (('k_hcomp', 'compute'), ('k_hop', 'call operator'), ('k_hfront', 'front end')):
                w = hermite_world(m, d)
                x = w.array('points', 'v')
                snapshot_roots(w)
                pre = w.mark()
                w.d(entry, x, w.ls_obj)
                post = w.mark()
                I, fs = w.index()
                with assume(*fs):
                    w.E.log = pre
                    want = evaluate(w, point_fields(w, x, I, pre), FALSE)
                    w.E.log = post
                    ctx.equal('value at every point', '%dD %s value%s' % (d, label, ijk(I)), w.value('s', w.ls['phii'][0], *I), want[0], HCC[d])
                    for c in range(3):
                        ctx.equal('gradient at every point', '%dD %s gradient%s[%d]' % (d, label, ijk(I), c), w.value('v', w.ls['psii'][0], *I, c), want[1 + c], HCC[d])
                ls_frame(ctx, w, pre, 'inputs and ghosts unchanged', HCC[d], more={'points': (x, 'v')})
                frame_rest(ctx, w, pre, storage_roots(w, ('phii', 'psii')), 'inputs and ghosts unchanged', HCC[d])
                ctx.stats(w.E)
            # points on a grid of their own, with at most as many cells
            w = hermite_world(m, d)
            w2 = w.second(within=True)
            x = w2.array('points', 'v')
            pre = w.mark()
            w.d('k_hcomp', x, w.ls_obj)
            post = w.mark()
            I, fs = w2.index()
            with assume(*fs):
                w.E.log = pre
                want = evaluate(w, point_fields(w2, x, I, pre), FALSE)
                w.E.log = post
                ctx.equal('value at every point', '%dD points on another grid: value%s' % (d, ijk(I)), w.value('s', w.ls['phii'][0], *I), want[0], HCC[d])
                for c in range(3):
                    ctx.equal('gradient at every point', '%dD points on another grid: gradient%s[%d]' % (d, ijk(I), c), w.value('v', w.ls['psii'][0], *I, c), want[1 + c], HCC[d])
            for a in range(d):
                I, fs = w.index('r%d' % a)
                with assume(*fs, (sub(I[a], w2.n[a]), False)):
                    ctx.equal('inputs and ghosts unchanged', '%dD points on another grid: value%s unchanged beyond the points along %s' % (d, ijk(I), 'xyz'[a]), w.value('s', w.ls['phii'][0], *I), w.value('s', w.ls['phii'][0], *I, node=pre), HCC[d])
            ctx.stats(w.E)
    ctx.floor = 100

def storage_roots(w, names):
    return {r for r, n in w.fields.items() if n in names}

def C13(ctx):
    where = 'src/cpu/interpolation/linear-1d.cc'
    for cfg in ctx.configs:
        m = ctx.module(['world', 'interp'], cfg)
        w = World(m, 1, minpad=1)
        a = w.array('alpha', 's')
        X, B, T, fs = cell_point(w)
        pre = w.mark()
        with assume(*fs):
            got = w.d('k_lin', w.grid, *X, a)
            lo, hi = w.value('s', a, B[0], ZERO, ZERO, node=pre), w.value('s', a, add(B[0], ONE), ZERO, ZERO, node=pre)
            ctx.equal('blend of the enclosing nodes', 'value at a point of cell %s' % ijk(B), got, add(mul(sub(ONE, T[0]), lo), mul(T[0], hi)), where)
        ctx.stats(w.E)
        for entry, label in (('k_lcomp', 'compute'), ('k_lop', 'call operator'), ('k_lfront', 'front end')):
            w = World(m, 1, minpad=1)
            a = w.array('alpha', 's'); x = w.array('points', 'v'); o = w.array('result', 's')
            snapshot_roots(w)
            pre = w.mark()
            w.d(entry, x, a, o)
            post = w.mark()
            I, fs = w.index()
            with assume(*fs):
                w.E.log = pre
                want = w.pure('k_lin', w.grid, *point_fields(w, x, I, pre), a)
                w.E.log = post
                ctx.equal('every point', '%s result%s' % (label, ijk(I)), w.value('s', o, *I), want, where)
            frame_fields(ctx, w, pre, {'alpha': (a, 's'), 'points': (x, 'v')}, 'inputs and ghosts unchanged', where, ghosts_of={'result': (o, 's')})
            frame_rest(ctx, w, pre, storage_roots(w, ('result',)), 'inputs and ghosts unchanged', where)
            ctx.stats(w.E)
        # points, and results, on a grid of their own
        w = World(m, 1, minpad=1)
        w2 = w.second()
        a = w.array('alpha', 's'); x = w2.array('points', 'v'); o = w2.array('result', 's')
        snapshot_roots(w)
        pre = w.mark()
        w.d('k_lcomp', x, a, o)
        post = w.mark()
        I, fs = w2.index()
        with assume(*fs):
            w.E.log = pre
            want = w.pure('k_lin', w.grid, *point_fields(w, x, I, pre), a)
            w.E.log = post
            ctx.equal('every point', 'points on another grid: result%s' % ijk(I), w2.value('s', o, *I), want, where)
        frame_fields(ctx, w, pre, {'alpha': (a, 's')}, 'inputs and ghosts unchanged', where)
        frame_fields(ctx, w2, pre, {'points': (x, 'v')}, 'inputs and ghosts unchanged', where, ghosts_of={'result': (o, 's')})
        frame_rest(ctx, w, pre, storage_roots(w, ('result',)), 'inputs and ghosts unchanged', where)
        ctx.stats(w.E)
    ctx.floor = 20
