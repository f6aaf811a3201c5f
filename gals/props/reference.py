"""The reference solvers below src/reference: serial, parallel (OpenMP / MPI headers), old serial, CUDA kernels."""
import os
from .common import *
from ..calculus import D, trig
from .. import build

VARIANTS = {'serial': ('REF_SERIAL', 'SerialCode'), 'parallel': ('REF_OMP', '.'), 'old serial': ('REF_OLD', 'OldSerialCode'), 'CUDA': ('REF_CUDA', 'CUDA')}
HALF = const(Fraction(1, 2))

def O(n): return Ptr(('obj', n), (), ZERO)
def isbound(n, d): return bool(re_bound.match(d))
import re
re_bound = re.compile(r'(\S+ )?std::(lower|upper)_bound<')

class Prog:
    def __init__(self, ctx, v):
        flag, d = VARIANTS[v]
        self.v = v; self.dir = os.path.join('src/reference', d)
        self.m = ctx.program('ref', v.replace(' ', '_'), ['-D' + flag, '-I' + os.path.join(build.REPO, self.dir)], opaque=isbound)
        FACTS.__init__()
        self.ctx = ctx
        self.E = Engine(self.m); self.E.run_ctors()
        self.E.hook_call = self.hook
        self.where = os.path.normpath(self.dir)
        self.fresh = 0
    def at(self, f): return os.path.join(self.where, f)
    def call(self, f, *a):
        if f not in self.m.funcs: raise Unsupported('probe %s is not in the module' % f)
        self.E.pc = TRUE
        r = self.E.call(f, [lift(x) if isinstance(x, (int, Num)) else x for x in a])
        self.E.pc = TRUE
        return r
    def pure(self, f, *a):
        log = self.E.log
        try: return self.call(f, *a)
        finally: self.E.log = log
    def load(self, p, k=0, node=None, size=8):
        if not isinstance(p, Ptr): raise Unsupported('address %r' % (p,))
        p = Ptr(p.root, p.idx, add(p.off, mul(lift(k), const(size))))
        return self.E.load(p, size, DBL if size == 8 else I32, pc=TRUE, node=node)
    def same(self, rule, what, got, want, where):
        """equality up to the addition theorems of sine and cosine"""
        if got is not want and isinstance(got, Num) and isinstance(want, Num):
            try:
                a, b = trig([got, want])
                if a is b: self.ctx.ok(rule, what); return True
            except Unsupported: pass
        return self.ctx.equal(rule, what, got, want, where)
    # ------------------------------------------------ binary search in the node coordinates
    def hook(self, E, name, dem, args, i):
        m = re_bound.match(dem)
        if not m: return NotImplemented
        b, e, pv = args[:3]
        if not (isinstance(b, Ptr) and isinstance(e, Ptr) and b.root == e.root and b.idx == e.idx and len(args) == 3): raise Unsupported('binary search over %r' % (args,))
        n = div(sub(e.off, b.off), const(8))
        v = E.load(pv, 8, DBL)
        k = sym('search!', True)
        with assume((k, False), (sub(sub(n, ONE), k), False)):
            x = E.load(Ptr(b.root, b.idx, add(b.off, mul(k, const(8)))), 8, DBL)
        ka = ATOMS[next(iter(full(k)))[0][0]]
        c1 = derivative(x, ka); c0 = sub(x, mul(c1, k))
        if ka.id in atoms_of(c1) or ka.id in atoms_of(c0) or not FACTS.prove_nonneg(c1, True): raise Unsupported('binary search in %r' % (x,))
        z = div(sub(v, c0), c1)
        L = neg(floor_(neg(z))) if m.group(2) == 'lower' else add(floor_(z), ONE)
        L = ite(lt(L, ZERO), ZERO, ite(lt(n, L), n, L))
        return Ptr(b.root, b.idx, add(b.off, mul(L, const(8))))

# ---------------------------------------------------------------- C31
def hermite(f, fx, fy, fxy, X, Y, a, b, dx, dy):
    def basis(z):
        z2 = mul(z, z); z3 = mul(z2, z)
        return ((add(sub(ONE, mul(const(3), z2)), mul(const(2), z3)), sub(mul(const(3), z2), mul(const(2), z3))),
                (add(sub(z3, mul(const(2), z2)), z), sub(z3, z2)))
    H = ZERO
    B, C = basis(div(sub(X, a), dx)), basis(div(sub(Y, b), dy))
    for i in range(2):
        for j in range(2):
            k = i + 2 * j
            for (data, p, q) in ((f, 0, 0), (fx, 1, 0), (fy, 0, 1), (fxy, 1, 1)):
                w = mul(B[p][i], C[q][j])
                if p: w = mul(w, dx)
                if q: w = mul(w, dy)
                H = add(H, mul(w, data[k]))
    return H

def C31(ctx):
    for v in VARIANTS:
        P = Prog(ctx, v); W = P.at('HermiteCUDA.cu' if v == 'CUDA' else 'Hermite.h')
        X, Y, a, b, dx, dy = (sym(n) for n in ('X', 'Y', 'xo', 'yo', 'dx', 'dy'))
        for h in (dx, dy): FACTS.ge(h, True)
        objs = [O(n) for n in ('f', 'fx', 'fy', 'fxy')]
        data = [[P.load(o, k) for k in range(4)] for o in objs]
        H = hermite(*data, X, Y, a, b, dx, dy)
        for name, want in (('hp', H), ('hermx', D(H, X)), ('hermy', D(H, Y))):
            mark = P.E.log
            ctx.equal('tensor-product cubic and its derivatives', '%s: %s' % (v, name), P.call('r_' + name, *objs, X, Y, a, b, dx, dy), want, W)
            for o, n, ds in zip(objs, ('f', 'fx', 'fy', 'fxy'), data):
                for k in range(4): ctx.equal('the corner data are not changed', '%s: %s leaves %s[%d]' % (v, name, n, k), P.load(o, k), ds[k], W)
            P.E.log = mark
        ctx.stats(P.E)
    ctx.floor = 4 * 3 * 17

# ---------------------------------------------------------------- C32
def initial(x, y):
    """the bell whose zero contour is the circle of radius 0.15 about (1/2, 3/4)"""
    a, b = sub(x, HALF), sub(y, const(Fraction(3, 4)))
    return fn('exp', canon(neg(add(mul(a, a), mul(b, b)))))
def vortex(x, y, t, T):
    def s(z, k=1): return fn('sin', canon(mul(mul(const(k), pi()), z)))
    c = fn('cos', canon(div(mul(pi(), t), T)))
    return mul(mul(mul(s(x), s(x)), s(y, 2)), c), neg(mul(mul(mul(s(y), s(y)), s(x, 2)), c))

def check_initial(P, rule, what, got, x, y, where):
    """exp(-d^2) - exp(-0.15^2); the constant is folded by the compiler"""
    import math
    if isinstance(got, Num):
        r = canon(sub(got, initial(x, y))); c = cval(r)
        if c is None:
            e = fn('exp', const(Fraction(-225, 10000)))
            if canon(add(r, e)) is ZERO or cval(canon(add(r, e))) == 0: c = -Fraction(math.exp(-0.0225))
        if c is not None and abs(float(c) + math.exp(-0.0225)) < 1e-12: P.ctx.ok(rule, what); return
    P.ctx.equal(rule, what, got, sub(initial(x, y), fconst(math.exp(-0.0225))), where)

def C32(ctx):
    for v in VARIANTS:
        P = Prog(ctx, v)
        x, y, t, T = (sym(n) for n in 'xytT'); FACTS.ge(T, True)
        W = P.at({'CUDA': 'VortexVelocityCUDA.cu', 'old serial': 'Initializer_vortex.h'}.get(v, 'VortexVelocity.h'))
        u, w = vortex(x, y, t, T)
        for n, want in (('u', u), ('v', w), ('ux', D(u, x)), ('uy', D(u, y)), ('vx', D(w, x)), ('vy', D(w, y))):
            P.same('vortex velocity and its exact gradient', '%s: %s' % (v, n), P.call('r_' + n, x, y, t, T), want, W)
        W = P.at({'old serial': 'Initializer_vortex.h'}.get(v, 'InitializeLevelSet.h'))
        g = initial(x, y)
        check_initial(P, 'initial level set and its exact derivatives', v + ': value', P.call('r_phi', x, y), x, y, W)
        for n, want in (('phix', D(g, x)), ('phiy', D(g, y)), ('phixy', D(D(g, x), y))):
            P.same('initial level set and its exact derivatives', '%s: %s' % (v, n), P.call('r_' + n, x, y), want, W)
        if v != 'old serial': node_fields(P)
        ctx.stats(P.E)
    ctx.floor = 40

class Nodes:
    """symbolic node grid of a program"""
    def __init__(self, P):
        self.P = P
        self.nx, self.ny = sym('nx', True), sym('ny', True)
        self.dx, self.dy, self.x0, self.y0 = (sym(n) for n in ('dx', 'dy', 'xlim1', 'ylim1'))
        for n in (self.nx, self.ny): FACTS.ge(sub(n, const(3)), False)
        for n in (self.dx, self.dy): FACTS.ge(n, True)
        self.I, self.J = sym('I', True), sym('J', True)
        self.inside = [(self.I, False), (sub(sub(self.ny, ONE), self.I), False), (self.J, False), (sub(sub(self.nx, ONE), self.J), False)]
        self.X, self.Y = O('x'), O('y')
        self.x = add(self.x0, mul(self.dx, self.J)); self.y = add(self.y0, mul(self.dy, self.I))
    def make(self):
        P = self.P
        if P.v != 'CUDA':
            P.call('g_vec', self.X); P.call('g_vec', self.Y)
        P.call('h_nodes' if P.v == 'CUDA' else 'g_nodes', self.X, self.Y, self.x0, self.y0, self.dx, self.dy, self.nx, self.ny)
    def grid(self, name, empty=False, ints=False):
        o = O(name)
        if self.P.v != 'CUDA':
            if empty: self.P.call('g_empty', o)
            else: self.P.call('g_igrid' if ints else 'g_grid', o, self.nx, self.ny)
        return o
    def unknown(self, o, name, ints=False):
        """forget the content of a grid"""
        p = self.addr(o, sym('I!0', True), sym('I!1', True), ints)
        self.P.E.havoc(p.root, name)
    def addr(self, o, i, j, ints=False):
        if self.P.v == 'CUDA': return Ptr(o.root, o.idx, add(o.off, mul(const(4 if ints else 8), add(mul(lift(i), self.nx), lift(j)))))
        p = self.P.pure('g_iat' if ints else 'g_at', o, i, j)
        if not isinstance(p, Ptr): raise Unsupported('storage address %r' % (p,))
        return p
    def value(self, o, i=None, j=None, node=None, ints=False):
        return self.P.load(self.addr(o, self.I if i is None else i, self.J if j is None else j, ints), node=node, size=4 if ints else 8)
    def thread(self):
        """the generic thread of a kernel launch that covers the grid: node (I, J) of it"""
        P = self.P
        tile = sym('tile', True); FACTS.ge(sub(tile, ONE), False)
        b = [sym('blockIdx' + a, True) for a in 'xy']; t = [sym('threadIdx' + a, True) for a in 'xy']
        for z in b + t: FACTS.ge(z, False)
        for z in t: FACTS.ge(sub(sub(tile, ONE), z), False)
        for k in range(2):
            for n, z in (('blockIdx', b[k]), ('threadIdx', t[k]), ('blockDim', tile)):
                P.E.store(Ptr(('global', n), (), const(4 * k)), 4, z, guard=TRUE)
        self.J, self.I = add(mul(b[0], tile), t[0]), add(mul(b[1], tile), t[1])
        self.inside = [(sub(sub(self.ny, ONE), self.I), False), (sub(sub(self.nx, ONE), self.J), False), (self.I, False), (self.J, False)]
        return tile

def frame(P, mark, allowed, rule, what, where):
    """every write after `mark` goes to the storage of the results or to temporaries"""
    out = []
    P.E.collect_stores(P.E.log, mark, [], out, None)
    roots = {p.root for p in allowed}
    bad = sorted({show_root(n.ptr.root) for n, _ in out if n.ptr.root not in roots and n.ptr.root[0] not in ('alloca',) and not (n.ptr.root[0] == 'new' and n.ptr.root not in P.known)})
    P.ctx.check(not bad, rule, what, where, actual='writes %s' % ', '.join(bad))

def node_fields(P):
    """node coordinates, and initial fields and velocity at the nodes"""
    ctx = P.ctx; v = P.v
    G = Nodes(P); G.make(); W = P.at('Allocation.h')
    T = sym('T'); t = sym('t')
    with assume(*G.inside):
        if v != 'CUDA':
            for o, n in ((G.X, G.nx), (G.Y, G.ny)): ctx.equal('nodes of the box', '%s: number of nodes' % v, P.pure('g_size', o), n, W)
            px, py = P.pure('g_v', G.X, G.J), P.pure('g_v', G.Y, G.I)
        else: px, py = Ptr(G.X.root, (), mul(const(8), G.J)), Ptr(G.Y.root, (), mul(const(8), G.I))
        ctx.equal('nodes of the box', v + ': x of column J', P.load(px), G.x, W)
        ctx.equal('nodes of the box', v + ': y of row I', P.load(py), G.y, W)
    def fields(tag, f, vel=None):
        fs = [G.grid(n + tag, empty=True) for n in ('phi', 'psix', 'psiy', 'psixy')]
        f(*fs)
        with assume(*G.inside):
            g = initial(G.x, G.y)
            check_initial(P, 'initial fields at the nodes', '%s%s: phi' % (v, tag), G.value(fs[0]), G.x, G.y, W)
            xx, yy = sym('xx'), sym('yy'); gg = initial(xx, yy)
            at = lambda e: Subst({next(iter(full(xx)))[0][0]: G.x, next(iter(full(yy)))[0][0]: G.y})(e)
            for n, o, want in (('psix', fs[1], D(gg, xx)), ('psiy', fs[2], D(gg, yy)), ('psixy', fs[3], D(D(gg, xx), yy))):
                P.same('initial fields at the nodes', '%s%s: %s' % (v, tag, n), G.value(o), at(want), W)
    pre = 'h' if v == 'CUDA' else 'g'
    fields('', lambda *fs: P.call(pre + '_init', *fs, G.X, G.Y, G.nx, G.ny))
    us = [G.grid(n, empty=True) for n in ('u', 'v')]
    P.call(pre + '_vel', *us, G.X, G.Y, G.nx, G.ny, t, T)
    with assume(*G.inside):
        for n, o, want in zip('uv', us, vortex(G.x, G.y, t, T)): P.same('velocity at the nodes', '%s: %s' % (v, n), G.value(o), want, W)
    if v == 'CUDA':
        I, J = G.I, G.J
        G.thread()
        G.x = P.load(Ptr(O('xk').root, (), mul(const(8), G.J))); G.y = P.load(Ptr(O('yk').root, (), mul(const(8), G.I)))
        fields(' kernel', lambda *fs: P.call('k_init', *fs, O('xk'), O('yk'), G.nx, G.ny))

# ---------------------------------------------------------------- C33
def foot(P, x, y, k, dt, T, rk):
    """where the characteristic through (x, y) at the new time started: explicit Euler or third-order Runge-Kutta backwards"""
    u = lambda *a: (P.pure('r_u', *a, T), P.pure('r_v', *a, T))
    t0, t1 = mul(k, dt), mul(add(k, ONE), dt)
    a = u(x, y, t1)
    p1 = tuple(sub(z, mul(w, dt)) for z, w in zip((x, y), a))
    if not rk: return p1
    b = u(*p1, t0)
    q = const(Fraction(1, 4))
    p2 = tuple(sub(z, mul(mul(dt, q), add(w, s))) for z, w, s in zip((x, y), a, b))
    c = u(*p2, add(t0, mul(dt, HALF)))
    s6 = const(Fraction(1, 6)); s3 = const(Fraction(2, 3))
    return tuple(sub(z, mul(dt, add(mul(s6, add(w, s)), mul(s3, r)))) for z, w, s, r in zip((x, y), a, b, c))

def heun(P, k, dt, T, x, y, px, py, W):
    """Heun's method for the gradient equation: predictor with the old rate, corrector with the mean of both"""
    xa, ya, pxy, old = (sym(n) for n in ('xf', 'yf', 'pxy', 'old'))
    t0, t1 = mul(k, dt), mul(add(k, ONE), dt)
    g = lambda a, b, t: [P.pure('r_' + n, a, b, t, T) for n in ('ux', 'vx', 'uy', 'vy')]
    r, n = g(xa, ya, t0), g(x, y, t1)
    rate = lambda G, a, b: (add(mul(G[0], a), mul(G[1], b)), add(mul(G[2], a), mul(G[3], b)))
    r0 = rate(r, px, py)
    r1 = rate(n, *(sub(p, mul(dt, z)) for p, z in zip((px, py), r0)))
    out = O('heun'); P.call('r_heun', x, y, xa, ya, px, py, k, dt, T, out)
    for c, p in enumerate((px, py)):
        P.same('gradient transported by Heun\'s method', '%s: component %d' % (P.v, c), P.load(out, c), sub(p, mul(mul(dt, HALF), add(r0[c], r1[c]))), W)
    # at a border the value comes from the interpolant along the border and the transport across it from the node
    for c, (name, gi, go, vel, root, other) in enumerate((('r_hx', 0, 1, 'r_v', px, py), ('r_hy', 3, 2, 'r_u', py, px))):
        a, b = g(x, y, t0), g(x, y, t1)
        f = lambda G, t, psi: add(add(mul(G[go], other), mul(P.pure(vel, x, y, t, T), pxy)), mul(G[gi], psi))
        f0 = f(a, t0, old); f1 = f(b, t1, sub(root, mul(dt, f0)))
        P.same('border gradient by Heun\'s method', '%s: component %d' % (P.v, c), P.call(name, x, y, px, py, pxy, old, k, dt, T), sub(root, mul(mul(dt, HALF), add(f0, f1))), W)

def C33(ctx):
    for v in VARIANTS:
        if v == 'old serial': continue
        P = Prog(ctx, v)
        k, dt, T = sym('k', True), sym('dt'), sym('T'); FACTS.ge(T, True); FACTS.ge(dt, True); FACTS.ge(k, False)
        x, y, px, py = (sym(n) for n in ('x', 'y', 'px', 'py'))
        W = P.at('TimeSteppingMethodsCUDA.cu' if v == 'CUDA' else 'TimeSteppingMethods.h')
        for name, rk in (('r_sc', True), ('r_sce', False)):
            if v == 'CUDA' and not rk: continue
            F = foot(P, x, y, k, dt, T, rk)
            out = O('out'); P.call(name, x, y, px, py, k, dt, T, out)
            lab = '%s, %s: ' % (v, 'RK3' if rk else 'Euler')
            for c, z in enumerate((x, y)):
                want = add(mul(D(F[0], z), px), mul(D(F[1], z), py))
                P.same('gradient transported by the exact Jacobian of the foot point', lab + 'component %d' % c, P.load(out, c), want, W)
        heun(P, k, dt, T, x, y, px, py, W)
        W = P.at('AdvectionPointCalcsCUDA.cu' if v == 'CUDA' else 'AdvectionPointCalcs.h')
        G = Nodes(P); G.make()
        if v == 'CUDA':
            tile = G.thread()
            xa, ya = O('xadv'), O('yadv')
            xs, ys = O('xk'), O('yk')
            X, Y = P.load(Ptr(xs.root, (), mul(const(8), G.J))), P.load(Ptr(ys.root, (), mul(const(8), G.I)))
            mark = P.E.log; P.known = set(P.E.sizes)
            P.call('k_foot', xs, ys, xa, ya, G.nx, k, dt, T, tile)
            F = foot(P, X, Y, k, dt, T, True)
            with assume(*G.inside):
                for n, o, want in (('x', xa, F[0]), ('y', ya, F[1])): P.same('foot point of the characteristic', '%s: %s' % (v, n), G.value(o), want, W)
            frame(P, mark, [xa, ya], 'only the foot points are written', v, W)
            ctx.stats(P.E); continue
        for name, rk, part in (('g_foot_rk', True, False), ('g_foot_eu', False, False), ('g_footp_rk', True, True), ('g_footp_eu', False, True)):
            mark0 = P.E.log
            xa, ya = G.grid('xadv'), G.grid('yadv')
            G.unknown(xa, 'old xadv'); G.unknown(ya, 'old yadv')
            mark = P.E.log; P.known = set(P.E.sizes)
            lo, hi = sym('lo', True), sym('hi', True)
            rng = [(lo, False), (sub(hi, lo), False), (sub(G.nx, hi), False)]
            with assume(*(rng if part else [])):
                P.call(name, G.X, G.Y, xa, ya, k, dt, T, *((lo, hi) if part else ()))
                F = foot(P, G.x, G.y, k, dt, T, rk)
                with assume(*G.inside):
                    for n, o, want in (('x', xa, F[0]), ('y', ya, F[1])):
                        lab = '%s, %s%s: %s' % (v, 'RK3' if rk else 'Euler', ' by columns' if part else '', n)
                        if part:
                            with assume((sub(G.J, lo), False), (sub(sub(hi, ONE), G.J), False)): P.same('foot point of the characteristic', lab, G.value(o), want, W)
                            with assume((sub(sub(lo, ONE), G.J), False)): ctx.equal('columns outside the range are left alone', lab, G.value(o), G.value(o, node=mark), W)
                            with assume((sub(G.J, hi), False)): ctx.equal('columns outside the range are left alone', lab, G.value(o), G.value(o, node=mark), W)
                        else: P.same('foot point of the characteristic', lab, G.value(o), want, W)
                    frame(P, mark, [G.addr(xa, 0, 0), G.addr(ya, 0, 0)], 'only the foot points are written', '%s %s' % (v, name), W)
            P.E.log = mark0
        ctx.stats(P.E)
    ctx.floor = 30

# ---------------------------------------------------------------- C34
def between(lo, x, hi): return [(sub(x, lo), False), (sub(hi, x), False)]
def below(x, b, strict=False): return [(sub(b, x), strict)]
def eqf(a, b): return [(sub(a, b), False), (sub(b, a), False)]

def ranges(P, G, part):
    lo, hi = sym('lo', True), sym('hi', True)
    return (lo, hi), ([(lo, False), (sub(hi, lo), False), (sub(G.nx, hi), False)] if part else []), (between(lo, G.J, sub(hi, ONE)) if part else [])

def untouched(P, G, part, rng, objs, mark, what, where):
    """columns outside the given range keep their values"""
    if not part: return
    lo, hi = rng
    for o, n, ints in objs:
        for side in (below(G.J, sub(lo, ONE)), below(hi, G.J)):
            with assume(*G.inside, *side): P.ctx.equal('columns outside the range are left alone', '%s: %s' % (what, n), G.value(o, ints=ints), G.value(o, node=mark, ints=ints), where)

def C34(ctx):
    for v in ('serial', 'parallel', 'CUDA'):
        P = Prog(ctx, v)
        k, dt, T = sym('k', True), sym('dt'), sym('T'); FACTS.ge(T, True); FACTS.ge(dt, True); FACTS.ge(k, False)
        W = P.at('AdvectionPointCalcsCUDA.cu' if v == 'CUDA' else 'AdvectionPointCalcs.h')
        G = Nodes(P); G.make()
        tile = G.thread() if v == 'CUDA' else None
        for part in (False, True) if v != 'CUDA' else (False,): locate(P, G, part, W, tile)
        for part in (False, True) if v != 'CUDA' else (False,):
            for sch in ('', '_h') if v != 'CUDA' else ('',): update(P, G, part, sch, k, dt, T, W, tile)
        ctx.stats(P.E)
    ctx.floor = 100

def locate(P, G, part, W, tile):
    ctx = P.ctx; E = P.E; mark0 = E.log
    (lo, hi), rng, mine = ranges(P, G, part)
    xa, ya = G.grid('xadv'), G.grid('yadv')
    cells = [G.grid(n, ints=True) for n in ('cellx', 'celly', 'tracker')]
    if not tile:
        for o, n in ((xa, 'xa'), (ya, 'ya')): G.unknown(o, n)
        for o, n in zip(cells, ('old cellx', 'old celly', 'old tracker')): G.unknown(o, n, True)
    mark = E.log; P.known = set(E.sizes)
    x1, y1 = G.x0, G.y0
    x2, y2 = add(G.x0, mul(G.dx, sub(G.nx, ONE))), add(G.y0, mul(G.dy, sub(G.ny, ONE)))
    with assume(*rng):
        if tile:
            with assume(*G.inside): P.call('k_find', G.X, G.Y, xa, ya, G.nx, G.ny, *cells, x1, x2, y1, y2, tile)
        else: P.call('g_findp' if part else 'g_find', G.X, G.Y, xa, ya, *cells, x1, x2, y1, y2, *((lo, hi) if part else ()))
        frame(P, mark, [G.addr(c, 0, 0, True) for c in cells], 'only cells and tracker are written', '%s locate' % P.v, W)
        with assume(*G.inside, *mine):
            fx, fy = G.value(xa), G.value(ya)
            def zones(f, a, b, h, n):
                z = div(sub(f, a), h)
                return (('inside', [(sub(f, a), True), (sub(b, f), True)], (sub(neg(floor_(neg(z))), ONE), floor_(z))), ('below', below(f, a), (ZERO,)), ('above', below(b, f), (sub(n, const(2)),)))
            for xn, xf, xc in zones(fx, x1, x2, G.dx, G.nx):
                for yn, yf, yc in zones(fy, y1, y2, G.dy, G.ny):
                    lab = '%s%s, x %s, y %s: ' % (P.v, ' by columns' if part else '', xn, yn)
                    tr = (1 if yn == 'inside' else 2) if xn == 'inside' else (3 if yn == 'inside' else 4)
                    with assume(*xf, *yf):
                        ctx.equal('how the foot point left the box is recorded', lab + 'tracker', G.value(cells[2], ints=True), const(tr), W)
                        if tr == 4: continue
                        for n, o, want in (('cellx', cells[0], xc), ('celly', cells[1], yc)):
                            if tile and len(want) == 2: continue   # the kernel searches with a loop whose exit depends on the data
                            got = G.value(o, ints=True)
                            if isinstance(got, Num) and any(canon(sub(got, w)) is ZERO for w in want): ctx.ok('the cell encloses the foot point', lab + n)
                            else: ctx.equal('the cell encloses the foot point', lab + n, got, want[0], W)
        untouched(P, G, part, (lo, hi), [(cells[0], 'cellx', True), (cells[1], 'celly', True), (cells[2], 'tracker', True)], mark, P.v + ' locate', W)
    E.log = mark0

def update(P, G, part, sch, k, dt, T, W, tile):
    ctx = P.ctx; E = P.E; v = P.v; mark0 = E.log
    (lo, hi), rng, mine = ranges(P, G, part)
    names = ('f', 'fx', 'fy', 'fxy'); master = ('mf', 'mfx', 'mfy', 'mfxy')
    g = {n: G.grid(n) for n in ('xadv', 'yadv') + names + master}
    c = {n: G.grid(n, ints=True) for n in ('cellx', 'celly', 'tracker')}
    if v == 'CUDA': g['mfxy'] = g['fxy']
    else:
        for n, o in g.items(): G.unknown(o, n)
        for n, o in c.items(): G.unknown(o, n, True)
    mark = E.log; P.known = set(E.sizes)
    X = lambda j: add(G.x0, mul(G.dx, j)); Y = lambda i: add(G.y0, mul(G.dy, i))
    with assume(*rng):
        if v == 'CUDA':
            with assume(*G.inside): P.call('k_update', G.X, G.Y, *(g[n] for n in ('xadv', 'yadv')), *c.values(), k, dt, *(g[n] for n in names + master[:3]), T, G.nx, G.ny, tile)
        else:
            P.call(('g_updatep' if part else 'g_update') + sch, G.X, G.Y, g['xadv'], g['yadv'], *c.values(), k, dt, *(g[n] for n in names + master), T, *((lo, hi) if part else ()))
        lab0 = '%s%s%s' % (v, ', Heun' if sch else ', superconsistent', ' by columns' if part else '')
        frame(P, mark, [G.addr(g[n], 0, 0) for n in ('f', 'fx', 'fy')], 'only value and gradient are written', lab0, W)
        with assume(*G.inside, *mine):
            old = lambda n, i=None, j=None: G.value(g[n], i, j, node=mark)
            cx, cy, tr = (G.value(c[n], node=mark, ints=True) for n in ('cellx', 'celly', 'tracker'))
            fx, fy = old('xadv'), old('yadv'); x, y = X(G.J), Y(G.I)
            dx, dy = sub(X(const(2)), X(ONE)), sub(Y(const(2)), Y(ONE))
            scope = between(ZERO, cx, sub(G.nx, const(2))) + between(ZERO, cy, sub(G.ny, const(2)))
            for z in (cx, cy, tr): atom_int(z)
            for code in (1, 2, 3, 4, 0):
                with assume(*scope, *eqf(tr, const(code))):
                    corner = [(cy, cx), (cy, add(cx, ONE)), (add(cy, ONE), cx), (add(cy, ONE), add(cx, ONE))]
                    data = [[old(n, *ij) for ij in corner] for n in master]
                    px, py = fx if code in (1, 2) else x, fy if code in (1, 3) else y
                    H = [P.pure('r_' + n, *local(P, data), px, py, X(cx), Y(cy), dx, dy) for n in ('hp', 'hermx', 'hermy')]
                    t0 = mul(k, dt)
                    u, w = (P.pure(n, x, y, t0, T) for n in ('r_u', 'r_v'))
                    want = {n: old(n) for n in ('f', 'fx', 'fy')}
                    if code == 1:
                        out = O('grad')
                        log = E.log
                        if sch: P.call('r_heun', x, y, fx, fy, H[1], H[2], k, dt, T, out)
                        else: P.call('r_sc', x, y, H[1], H[2], k, dt, T, out)
                        want = {'f': H[0], 'fx': P.load(out, 0), 'fy': P.load(out, 1)}
                        E.log = log
                    elif code == 2:
                        want['f'] = sub(H[0], mul(mul(dt, w), want['fy']))
                        want['fx'] = P.pure('r_hx', x, y, H[1], old('fy'), old('fxy'), old('fx'), k, dt, T)
                    elif code == 3:
                        want['f'] = sub(H[0], mul(mul(dt, u), want['fx']))
                        want['fy'] = P.pure('r_hy', x, y, old('fx'), H[2], old('fxy'), old('fy'), k, dt, T)
                    elif code == 4: want['f'] = sub(want['f'], mul(dt, add(mul(u, want['fx']), mul(w, want['fy']))))
                    for n in ('f', 'fx', 'fy'): P.same('value and gradient are those at the foot point', '%s, tracker %d: %s' % (lab0, code, n), G.value(g[n]), want[n], W)
        untouched(P, G, part, (lo, hi), [(g[n], n, False) for n in ('f', 'fx', 'fy')], mark, lab0, W)
    E.log = mark0

def atom_int(z):
    a = ATOMS[next(iter(full(z)))[0][0]]
    a.isint = True
def local(P, data):
    """corner data handed to the interpolant probes"""
    r = []
    for n, ds in zip(('f', 'fx', 'fy', 'fxy'), data):
        o = O('corner ' + n); r.append(o)
        for k, d in enumerate(ds): P.E.store(Ptr(o.root, (), const(8 * k)), 8, d, guard=TRUE)
    return r

# ---------------------------------------------------------------- C35
def C35(ctx):
    for v in ('serial', 'parallel', 'CUDA'):
        P = Prog(ctx, v); E = P.E
        W = P.at('AdvectionPointCalcsCUDA.cu' if v == 'CUDA' else 'AdvectionPointCalcs.h')
        G = Nodes(P)
        tile = G.thread() if v == 'CUDA' else None
        for part in (False, True) if v != 'CUDA' else (False,):
            mark0 = E.log
            (lo, hi), rng, mine = ranges(P, G, part)
            px, py, pxy = (G.grid(n) for n in ('px', 'py', 'pxy'))
            if v != 'CUDA':
                for o, n in ((px, 'px'), (py, 'py'), (pxy, 'old pxy')): G.unknown(o, n)
            mark = E.log; P.known = set(E.sizes)
            with assume(*rng):
                if v == 'CUDA': P.call('k_mixed', px, py, pxy, G.nx, G.ny, G.dx, G.dy, tile)
                else: P.call('g_mixedp' if part else 'g_mixed', px, py, pxy, G.nx, G.ny, G.dx, G.dy, *((lo, hi) if part else ()))
                frame(P, mark, [G.addr(pxy, 0, 0)], 'only the mixed derivative is written', v, W)
                I, J = G.I, G.J; nx, ny = G.nx, G.ny
                A = lambda i, j: G.value(px, i, j, node=mark); B = lambda i, j: G.value(py, i, j, node=mark)
                def zone(z, n): return ((-1, eqf(z, ZERO)), (0, between(ONE, z, sub(n, const(2)))), (1, eqf(z, sub(n, ONE))))
                for iy, fy in zone(I, ny):
                    for ix, fx in zone(J, nx):
                        with assume(*G.inside, *mine, *fy, *fx):
                            cI = {-1: ZERO, 0: I, 1: sub(ny, ONE)}[iy]; cJ = {-1: ZERO, 0: J, 1: sub(nx, ONE)}[ix]
                            cx = lambda: div(sub(B(cI, add(cJ, ONE)), B(cI, sub(cJ, ONE))), mul(const(2), G.dx))
                            cy = lambda: div(sub(A(add(cI, ONE), cJ), A(sub(cI, ONE), cJ)), mul(const(2), G.dy))
                            if ix == 0 and iy == 0: want = mul(HALF, add(cx(), cy()))
                            elif ix == 0: want = cx()
                            elif iy == 0: want = cy()
                            else:
                                nI, nJ = sub(cI, const(iy)), sub(cJ, const(ix))
                                ex = lambda i: div(sub(B(i, cJ), B(i, nJ)), mul(const(ix), G.dx))
                                ey = lambda j: div(sub(A(cI, j), A(nI, j)), mul(const(iy), G.dy))
                                want = sub(mul(const(Fraction(3, 4)), add(ex(cI), ey(cJ))), mul(const(Fraction(1, 4)), add(ex(nI), ey(nJ))))
                            ctx.equal('mixed derivative from the differences of the gradient', '%s%s, row %+d, column %+d' % (v, ' by columns' if part else '', iy, ix), G.value(pxy) if v == 'CUDA' else G.value(pxy, cI, cJ), want, W)
                untouched(P, G, part, (lo, hi), [(pxy, 'mixed derivative', False)], mark, v, W)
            E.log = mark0
        ctx.stats(P.E)
    ctx.floor = 45

# ---------------------------------------------------------------- C36
PROGRAMS = ('GALS_Advection_OpenMP.cpp', 'GALS_Advection_MPI_OpenMP.cpp', 'GALS_Advection_MPI.cpp', 'SerialCode/GALS_Advection.cpp')
def C36(ctx):
    import subprocess
    # --- message datatypes: the programs are type-checked against handles that carry their element type
    for f in PROGRAMS[:3]:
        src = os.path.join(build.REPO, 'src/reference', f)
        if not os.path.exists(src): raise Unsupported('%s is gone' % f)
        r = subprocess.run(['clang++-18', '-std=c++14', '-fsyntax-only', '-w', '-fopenmp', '-ferror-limit=0', '-I' + os.path.dirname(src), '-isystem', os.path.join(build.HERE, 'stubs', 'model'), src], stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True)
        bad = []; other = []
        lines = r.stderr.split('\n')
        for n, l in enumerate(lines):
            if 'error:' not in l: continue
            if 'MPI datatype does not describe the buffer' in l:
                note = next((x for x in lines[n + 1:] if f in x and 'in instantiation of' in x), l)
                bad.append(':'.join(note.split(':')[:2]).replace(build.REPO + '/', ''))
            else: other.append(l)
        if other or (r.returncode and not bad): raise build.BuildError('\n'.join(other[:3]) or r.stderr[:600])
        # the template is instantiated once per pair of types: name every call with that datatype
        n = len(re.findall(r'\bMPI_(?:Send|Ssend|Recv|Bcast)\s*\(', open(src).read()))
        for b in bad: ctx.bad('the datatype of a message is the element type of its buffer', 'message buffer', b)
        for _ in range(n): 
            if not bad: ctx.ok('the datatype of a message is the element type of its buffer', f)
    # --- OpenMP: what a parallel region may write
    for tag, flag, d in (('omp', 'REF_OMP', '.'), ('omps', 'REF_SERIAL', 'SerialCode')):
        m = ctx.program('ref', tag, ['-D' + flag, '-fopenmp', '-I' + os.path.normpath(os.path.join(build.REPO, 'src/reference', d))], opaque=isbound)
        regions = {}
        for fn_ in m.funcs.values():
            for b in fn_.blocks.values():
                for i in b.insts:
                    if i.op in ('call', 'invoke') and '__kmpc_fork_call' in i.text:
                        for o in re.findall(r'ptr @("[^"]+"|[-\w.$]+)', i.text):
                            o = o.strip('"')
                            if o in m.funcs: regions[o] = m.funcs[o]
        ctx.analysed['parallel_regions'] = ctx.analysed.get('parallel_regions', 0) + len(regions)
        names = build.demangle([r.split('.omp_')[0] for r in regions])
        for r, F in regions.items():
            region(ctx, m, F, names.get(r.split('.omp_')[0], r).split('(')[0], os.path.normpath(os.path.join('src/reference', d)))
    ctx.floor = 4

def region(ctx, m, F, name, where):
    """one outlined parallel region: `shared` are the addresses inside the captured variables themselves, not what is reached
    through a pointer or container held in them"""
    W = Engine(m).where
    shared = {n for ty, n, attrs in F.args[2:] if ty.k == 'ptr' and 'dereferenceable' in attrs}
    varidx = set(); static = set()
    insts = [i for b in F.blocks.values() for i in b.insts]
    loc = lambda o: o.v if o.k == 'local' else None
    change = True
    while change:
        change = False
        for i in insts:
            if not i.res or i.res in shared or i.op not in ('getelementptr', 'bitcast', 'phi', 'select', 'addrspacecast', 'freeze'): continue
            src = [v for v, _ in i.x] if i.op == 'phi' else i.ops[:1] if i.op == 'getelementptr' else i.ops
            hit = {loc(o) for o in src} & shared
            if any(o.k == 'global' or loc(o) in static for o in src) and i.res not in static and not any(o.k == 'local' for o in i.ops[1:]): static.add(i.res); change = True
            if not hit: continue
            shared.add(i.res); change = True
            if hit & varidx or i.op == 'getelementptr' and any(o.k == 'local' for o in i.ops[1:]): varidx.add(i.res)
    calls = [i for i in insts if i.op in ('call', 'invoke')]
    callee = lambda i: (re.search(r'@("[^"]+"|[-\w.$]+)\(', i.text) or [None, ''])[1].strip('"')
    sync = any(re.match(r'__kmpc_(critical|single|master|masked|reduce|ordered|set_lock|omp_task)|omp_set_lock', callee(i)) for i in calls)
    work = any(re.match(r'__kmpc_(for_static_init|dispatch_init)', callee(i)) for i in calls)
    rule = 'a parallel region writes no variable its threads share'
    bad = {}; unsure = []; writes = 0
    for i in insts:
        if i.op == 'store':
            a = loc(i.ops[1])
            if a in shared:
                if sync or a in varidx: unsure.append(i)
                else: bad.setdefault(a, i)
            elif i.ops[1].k in ('global', 'cexpr') or a in static: bad.setdefault(a or i.ops[1].v, i)
            elif a is not None: writes += 1
    for i in calls:
        n = callee(i)
        if re.match(r'__kmpc_|llvm\.(dbg|lifetime|assume)|omp_', n): continue
        if {loc(o) for o in i.ops or ()} & shared and not readonly(m, n): unsure.append(i)
    for a, i in bad.items(): ctx.bad(rule, '%s: every thread of the team stores to the shared variable %s' % (name, re.sub(r'^.*E(L|\d+)(?=[a-z]\w*$)', '', str(a).split('.')[0])), '%s (%s)' % (W(i), where))
    for i in unsure[:3]: ctx.unsure(rule, '%s: %s' % (name, i.text.strip()[:160]), where)
    if not bad and not unsure: ctx.ok(rule, name)
    rule = 'the iterations of a parallel region are divided among its threads'
    if work or not writes: ctx.ok(rule, name)
    elif sync: ctx.unsure(rule, name, where)
    else: ctx.bad(rule, '%s: every thread of the team executes every iteration' % name, where)

def readonly(m, name):
    f = m.funcs.get(name)
    if f is None: return bool(re.match(r'(strcmp|strncmp|strlen|memcmp|sin|cos|exp|pow|floor|ceil|sqrt|_ZNKS)', name))
    return not any(i.op == 'store' or i.op in ('call', 'invoke') and '@llvm.' not in i.text for b in f.blocks.values() for i in b.insts)
