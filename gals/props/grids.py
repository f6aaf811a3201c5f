"""Grid geometry and addressing."""
from .common import *
GRIDCC = 'src/cpu/grid.cc'

def kinds(d): return ['s', 'v', 'm'] + (['n'] if d > 1 else [])

def slot(w, I):
    s = add(I[0], w.pad)
    if w.dim >= 2: s = add(s, mul(add(I[1], w.pad), add(w.n[0], mul(const(2), w.pad))))
    if w.dim >= 3: s = add(s, mul(add(I[2], w.pad), mul(add(w.n[0], mul(const(2), w.pad)), add(w.n[1], mul(const(2), w.pad)))))
    return s
def volume(w):
    s = ONE
    for a in range(w.dim): s = mul(s, add(w.n[a], mul(const(2), w.pad)))
    return s

def C01(ctx):
    for cfg in ctx.configs:
        m = ctx.module(['world', 'grid'], cfg)
        for d in DIMS:
            w = World(m, d, minpad=0, coords=False)
            I, fs = w.index(ghosts=True)
            with assume(*fs):
                ex = slot(w, I)
                ctx.equal('slot', '%dD index%s' % (d, ijk(I)), w.pure('g_index', w.grid, *I), ex, GRIDCC + ' Grid::index')
                ctx.equal('slot', '%dD index(Vec3%s)' % (d, ijk(I)), w.pure('g_indexv', w.grid, *I), ex, GRIDCC + ' Grid::index(Vec3)')
                ctx.nonneg('slot range', '%dD index%s >= 0' % (d, ijk(I)), ex)
                ctx.nonneg('slot range', '%dD index%s < size' % (d, ijk(I)), sub(sub(volume(w), ONE), ex))
                ctx.equal('storage size', '%dD size()' % d, w.pure('g_size', w.grid), volume(w), GRIDCC + ' Grid::generate')
                # indices along missing axes
                un = list(range(d, 3))
                if un:
                    J = list(I)
                    for a in un: J[a] = sym('any%d' % a, True)
                    ctx.equal('missing axes', '%dD index%s ignores missing axes' % (d, ijk(J)), w.pure('g_index', w.grid, *J), ex, GRIDCC + ' Grid::index')
                    for v in (2147483647, -2147483648):
                        FACTS.push(); FACTS.ge(sub(w.pad, ONE), False)
                        J = list(I)
                        for a in un: J[a] = const(v)
                        for pr in ('g_index', 'g_indexv'):
                            n0 = len(w.E.overflows)
                            r = w.pure(pr, w.grid, *J)
                            ctx.equal('missing axes', '%dD %s%s' % (d, pr, ijk(J)), r, ex, GRIDCC + ' Grid::index')
                            ov = w.E.overflows[n0:]
                            ctx.check(not ov, 'no overflow', '%dD %s%s: signed overflow in %s' % (d, pr, ijk(J), ov[:1]) if ov else '%dD %s%s' % (d, pr, ijk(J)), ov[0][0] if ov else '')
                        FACTS.pop()
                # every route to a node
                p = w.pure('p_x', w.grid, *I)
                for pr in ('p_c', 'p_cv'):
                    route(ctx, w, '%dD %s' % (d, pr), w.pure(pr, w.grid, *I), p, GRIDCC)
                if isinstance(p, Ptr):
                    base = w.pure('p_x', w.grid, *[neg(w.pad) if a < d else ZERO for a in range(3)])
                    route(ctx, w, '%dD coordinate slot' % d, p, Ptr(base.root, base.idx, add(base.off, mul(const(24), ex))), GRIDCC)
                for k in kinds(d):
                    arr = w.obj('arr_' + k)
                    w.d('n_new_' + k, arr, w.grid)
                    p0 = w.pure('n_pi_' + k, arr, ZERO)
                    if not isinstance(p0, Ptr): raise Unsupported('storage of array %s: %r' % (k, p0))
                    p1 = w.pure('n_pi_' + k, arr, ONE)
                    stride = cval(canon(sub(p1.off, p0.off))) if isinstance(p1, Ptr) and p1.root == p0.root else None
                    if not stride or stride < 8: raise Unsupported('element stride of array %s' % k)
                    want = Ptr(p0.root, p0.idx, add(p0.off, mul(const(stride), ex)))
                    for pr in ('n_p_', 'n_pc_', 'n_pv_', 'n_pcv_'):
                        route(ctx, w, '%dD %s%s%s' % (d, pr, k, ijk(I)), w.pure(pr + k, arr, *I), want, 'src/cpu/array.cc')
                    for pr in ('n_pi_', 'n_pci_', 'n_pd_'):
                        route(ctx, w, '%dD %s%s[index]' % (d, pr, k), w.pure(pr + k, arr, ex), want, 'src/cpu/array.cc')
            ctx.stats(w.E)
    ctx.floor = 100

def route(ctx, w, what, p, want, where):
    if not (isinstance(p, Ptr) and isinstance(want, Ptr)):
        ctx.unsure('same slot', what + ': address %r' % (p,), where); return
    if p.root != want.root or p.idx != want.idx:
        ctx.bad('same slot', '%s: designates %r instead of %r' % (what, p, want), where); return
    ctx.equal('same slot', what + ' byte offset', p.off, want.off, where)

def geometry(ctx, w, label):
    d = w.dim
    I, fs = w.index(ghosts=True)
    with assume(*fs):
        for c in range(d):
            exp = add(w.x0[c], mul(add(I[c], const(Fraction(1, 2))), w.h[c]))
            ctx.equal('cell centre', '%s x%s[%d]' % (label, ijk(I), c), w.pure('g_x', w.grid, *I, c), exp, GRIDCC + ' Grid::generate')
    for c in range(3):
        ctx.equal('spacing', '%s dX()[%d]' % (label, c), w.pure('g_dx', w.grid, c), w.h[c], GRIDCC + ' Grid::generate')
    for c in range(d):
        ctx.equal('reciprocal spacing', '%s oneOverDX()[%d]' % (label, c), w.pure('g_odx', w.grid, c), div(ONE, w.h[c]), GRIDCC + ' Grid::generate')
    size = volume(w); tot = ONE
    for c in range(d): tot = mul(tot, w.n[c])
    for c in range(d, 3): size = mul(size, w.n[c])
    ctx.equal('storage size', label + ' size()', w.pure('g_size', w.grid), size, GRIDCC)
    ctx.equal('cell count', label + ' totalCells()', w.pure('g_total', w.grid), tot, GRIDCC)
    ctx.equal('padding', label + ' getPadding()', w.pure('g_pad', w.grid), w.pad, GRIDCC)
    ctx.equal('dimension', label + ' dimension()', w.pure('g_dim', w.grid), const(d), GRIDCC)
    for c in range(3):
        ctx.equal('cell counts', label + ' numCells()[%d]' % c, w.pure('g_cells', w.grid, c), w.n[c], GRIDCC)
        ctx.equal('mask', label + ' getMask()[%d]' % c, w.pure('g_mask', w.grid, c), const(1 if c < d else 0), GRIDCC)

def C02(ctx):
    for cfg in ctx.configs:
        m = ctx.module(['world', 'grid'], cfg)
        for d in DIMS:
            # one generate()
            w = World(m, d, minpad=0, coords=False)
            geometry(ctx, w, '%dD' % d)
            for r in range(3):
                for c in range(3):
                    ctx.equal('axis vectors', '%dD axis_vectors(%d,%d)' % (d, r, c), w.pure('g_axis', r, c), const(int(r == c)), 'include/gals/utilities/grid.h')
                    ctx.equal('identity matrix', '%dD identity_mat(%d,%d)' % (d, r, c), w.pure('g_ident', r, c), const(int(r == c)), 'include/gals/utilities/grid.h')
            # generated again on another box, and with another padding
            x1 = [sym('%smin2' % 'xyz'[a]) for a in range(3)]; h1 = [sym('h%s2' % 'xyz'[a]) for a in range(3)]
            pad2 = sym('pad2', True)
            for h in h1: FACTS.ge(h, True)
            FACTS.ge(pad2, False)
            def regen():
                w.x0, w.h = x1, h1
                args = []
                for a in range(3): args += [x1[a], add(x1[a], mul(w.n[a], h1[a]))]
                w.d('w_gridre', w.grid, *args)
            regen()
            geometry(ctx, w, '%dD regenerated' % d)
            w.d('w_gridpad', w.grid, pad2); w.pad = pad2
            regen()
            geometry(ctx, w, '%dD regenerated with new padding' % d)
            ctx.stats(w.E)
            # default padding
            w = World(m, d, minpad=0, ctors=True, coords=False)
            w.grid = w.obj('grid2'); w.pad = ONE
            w.d('w_grid3', w.grid, *w.n)
            args = []
            for a in range(3): args += [w.x0[a], add(w.x0[a], mul(w.n[a], w.h[a]))]
            w.d('w_gridre', w.grid, *args)
            geometry(ctx, w, '%dD default padding' % d)
            if d < 3:
                # more than one cell along an axis the grid does not have
                n2 = [w.n[a] if a < d else sym('m%s' % 'xyz'[a], True) for a in range(3)]
                for a in range(d, 3): FACTS.ge(sub(n2[a], ONE), False)
                w.grid = w.obj('grid3'); w.n = n2
                w.d('w_grid3', w.grid, *n2)
                args = []
                # the box along those axes may be anything, an empty or a reversed one included
                ext = [w.h[a] if a < d else sym('e%s' % 'xyz'[a]) for a in range(3)]
                for a in range(3): args += [w.x0[a], add(w.x0[a], mul(n2[a], ext[a]))]
                w.d('w_gridre', w.grid, *args)
                for c in range(3):
                    ctx.equal('cell count', '%dD numCells()[%d] with cells along missing axes' % (d, c), w.pure('g_cells', w.grid, c), n2[c], GRIDCC)
                for c in range(3):
                    ctx.equal('spacing', '%dD dX()[%d] with cells along missing axes' % (d, c), w.pure('g_dx', w.grid, c), ext[c], GRIDCC)
                tot = ONE; size = volume(w)
                for c in range(d): tot = mul(tot, n2[c])
                for c in range(d, 3): size = mul(size, n2[c])
                ctx.equal('cell count', '%dD totalCells() with cells along missing axes' % d, w.pure('g_total', w.grid), tot, GRIDCC)
                ctx.equal('storage size', '%dD size() with cells along missing axes' % d, w.pure('g_size', w.grid), size, GRIDCC)
            # counts that are not given are one
            for q in (1, 2, 3):
                w.grid = w.obj('short%d' % q)
                w.d('w_gridctor%d' % q, w.grid, *w.n[:q])
                for c in range(3):
                    ctx.equal('cell count', '%dD numCells()[%d] from %d counts' % (d, c, q), w.pure('g_cells', w.grid, c), w.n[c] if c < q else ONE, GRIDCC)
                ctx.equal('padding', '%dD getPadding() from %d counts' % (d, q), w.pure('g_pad', w.grid), ONE, GRIDCC)
            ctx.stats(w.E)
    ctx.floor = 200

def C03(ctx):
    for cfg in ctx.configs:
        m = ctx.module(['world', 'grid'], cfg)
        for d in DIMS:
            # a point in the cell of nodes b: x = x0 + (b + 1/2 + t) h, 0 <= t < 1
            def point(w, sel):
                X = []; fs = []; B = []
                for a in range(3):
                    if a >= d: X.append(sym('P%d' % a)); B.append(None); continue
                    b = sym('b%s' % 'xyz'[a], True); t = sym('t%s' % 'xyz'[a])
                    lo, hi = neg(w.pad), sub(add(w.n[a], w.pad), const(2))
                    fs += [(t, False), (sub(ONE, t), True)]
                    s = sel[a]
                    if s == 'in': fs += [(sub(b, lo), False), (sub(hi, b), False)]; B.append(b)
                    elif s.endswith('below'): fs += [(sub(sub(lo, b), const(FAR) if s == 'far below' else ONE), False)]; B.append(lo)
                    else: fs += [(sub(sub(b, hi), const(FAR) if s == 'far above' else ONE), False)]; B.append(hi)
                    X.append(add(w.x0[a], mul(add(add(b, const(Fraction(1, 2))), t), w.h[a])))
                return X, B, fs
            import itertools
            FAR = 1 << 36       # cells beyond what an int can count
            for sel in list(itertools.product(('in', 'below', 'above'), repeat=d)) + [tuple(s if a == x else 'in' for a in range(d)) for x in range(d) for s in ('far below', 'far above')]:
                w = World(m, d, minpad=1)
                X, B, fs = point(w, sel)
                n0 = len(w.E.overflows)
                with assume(*fs):
                    for a in range(d):
                        ctx.equal('base node', '%dD base node along %s, point %s' % (d, 'xyz'[a], sel), w.pure('g_base', w.grid, *X, a), B[a], GRIDCC + ' Grid::baseNodeId')
                    # consistent use: coordinate and slot of the base node
                    p = w.pure('g_basecoord', w.grid, *X)
                    J = [B[a] if a < d else ZERO for a in range(3)]
                    route_base(ctx, w, d, p, w.pure('p_c', w.grid, *J))
                    ctx.equal('base node slot', '%dD index(baseNodeId)' % d, w.pure('g_baseidx', w.grid, *X), slot(w, J), GRIDCC)
                    ov = w.E.overflows[n0:]
                    ctx.check(not ov, 'no overflow', '%dD baseNodeId, index(baseNodeId), point %s: %s' % (d, sel, ov[:1]), ov[0][0] if ov else '')
                ctx.stats(w.E)
    ctx.floor = 100
def route_base(ctx, w, d, p, want):
    if isinstance(p, Ptr) and isinstance(want, Ptr) and p.root == want.root and p.idx == want.idx:
        ctx.equal('base node coordinate', '%dD grid(baseNodeId)' % d, p.off, want.off, GRIDCC)
    else: ctx.unsure('base node coordinate', '%dD grid(baseNodeId): %r' % (d, p), GRIDCC)
