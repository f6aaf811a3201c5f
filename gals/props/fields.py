"""Kernels on fields: gradients, interpolation, time steps, containers."""
from .common import *

GRAD = {'2': ('second-order central', 1, [(1, Fraction(1, 2)), (-1, Fraction(-1, 2))], 'src/cpu/gradient/second-order-central.cc'),
        '3': ('third-order', 2, [(1, Fraction(1, 3)), (0, Fraction(1, 2)), (-1, Fraction(-1)), (-2, Fraction(1, 6))], 'src/cpu/gradient/third-order.cc')}

def stencil(w, kind, arr, I, comp, axis, st, pre):
    s = ZERO
    for o, c in st: s = add(s, mul(const(c), w.value(kind, arr, *shift(I, axis, o), *comp, node=pre)))
    return div(s, w.h[axis])

def _grad(ctx, vector):
    for cfg in ctx.configs:
        m = ctx.module(['world', 'grad'], cfg)
        for d in DIMS:
            for sch, (name, pad, st, where) in GRAD.items():
                for entry in ('f', 's'):
                    w = World(m, d, minpad=pad)
                    a = w.array('alpha', 'v' if vector else 's'); g = w.array('grad', 'm' if vector else 'v')
                    snapshot_roots(w)
                    pre = w.mark()
                    w.d('k_%sgrad%s%s' % ('' if entry == 'f' else 'd', sch, 'v' if vector else 's'), a, g)
                    label = '%s %dD (%s)' % (name, d, 'front end' if entry == 'f' else 'scheme')
                    I, fs = w.index()
                    with assume(*fs):
                        for r in range(d) if vector else (None,):
                            for c in range(d):
                                comp = (r, c) if vector else (c,)
                                exp = stencil(w, 'v' if vector else 's', a, I, (r,) if vector else (), c, st, pre)
                                ctx.equal('stencil', '%s grad%s%s' % (label, ijk(I), list(comp)), w.value('m' if vector else 'v', g, *I, *comp), exp, where)
                        for comp in w.comps('m' if vector else 'v'):
                            if max(comp) >= d:
                                ctx.equal('outside the grid axes', '%s grad%s%s unchanged' % (label, ijk(I), list(comp)), w.value('m' if vector else 'v', g, *I, *comp), w.value('m' if vector else 'v', g, *I, *comp, node=pre), where)
                    frame_fields(ctx, w, pre, {'alpha': (a, 'v' if vector else 's')}, 'input unchanged', where)
                    ctx.stats(w.E)
    ctx.floor = len(ctx.configs) * 2 * 2 * 6
def C06(ctx): _grad(ctx, False)
def C07(ctx): _grad(ctx, True)

# ------------------------------------------------------------------ time steps
SL = (('k_sl', 'compute'), ('k_slop', 'call operator'), ('k_slfront', 'front end'))
EU = (('k_eu', 'compute'), ('k_euop', 'call operator'), ('k_eufront', 'front end'))
SLW = 'src/cpu/temporal-schemes/semi-lagrangian/euler.cc'
EUW = 'src/cpu/temporal-schemes/euler.cc'

def step_world(m, d):
    from .interp import hermite_world
    w = hermite_world(m, d)
    w.lv_obj = w.velocity()
    w.dt = sym('dt')
    snapshot_roots(w)
    return w

def C14(ctx):
    from .interp import evaluate
    for cfg in ctx.configs:
        m = ctx.module(['world', 'interp', 'time'], cfg)
        for d in DIMS:
            for entry, label in SL:
                w = step_world(m, d)
                pre = w.mark()
                w.d(entry, w.dt, w.lv_obj, w.ls_obj)
                post = w.mark()
                I, fs = w.index()
                with assume(*fs):
                    root = []
                    for a in range(3):
                        x = w.value('v', w.lv['vel'][0], *I, a, node=pre)
                        # the point's components off the grid axes do not matter to any interpolant
                        base = w.E.load(w.addr('x', w.grid, *I, a), 8, DBL, pc=TRUE, node=pre)
                        root.append(sub(base, mul(w.dt, x)))
                    w.E.log = pre
                    want = evaluate(w, root, FALSE)
                    w.E.log = post
                    tag = '%dD %s' % (d, label)
                    ctx.equal('value follows the characteristic', '%s phi%s' % (tag, ijk(I)), w.value('s', w.ls['phi'][0], *I), want[0], SLW)
                    for c in range(3):
                        g = ZERO
                        for r in range(3):
                            J = w.value('m', w.lv['grad'][0], *I, r, c, node=pre)
                            M = sub(ONE if r == c and r < d else ZERO, mul(w.dt, J))
                            g = add(g, mul(M, want[1 + r]))
                        if c >= d: continue
                        ctx.equal('gradient is pulled back', '%s psi%s[%d]' % (tag, ijk(I), c), w.value('v', w.ls['psi'][0], *I, c), g, SLW)
                ctx.stats(w.E)
    ctx.floor = 50

def C15(ctx):
    for cfg in ctx.configs:
        m = ctx.module(['world', 'interp', 'time'], cfg)
        for d in DIMS:
            for entry, label in EU:
                w = step_world(m, d)
                pre = w.mark()
                w.d(entry, w.dt, w.lv_obj, w.ls_obj)
                I, fs = w.index()
                with assume(*fs):
                    want = sub(w.value('s', w.ls['phip'][0], *I, node=pre), mul(w.dt, w.value('v', w.lv['vel'][0], *I, 0, node=pre)))
                    ctx.equal('explicit update', '%dD %s phi%s' % (d, label, ijk(I)), w.value('s', w.ls['phi'][0], *I), want, EUW)
                fields = {n: w.ls[n] for n in w.ls if n != 'phi'}; fields.update(w.lv)
                frame_fields(ctx, w, pre, fields, 'no other field changes', EUW)
                frame_rest(ctx, w, pre, {r for r, n in w.fields.items() if n == 'phi'}, 'no other object changes', EUW)
                ctx.stats(w.E)
    ctx.floor = 100

def C16(ctx):
    for cfg in ctx.configs:
        m = ctx.module(['world', 'interp', 'time'], cfg)
        for d in DIMS:
            for entry, label in SL + EU:
                w = step_world(m, d)
                pre = w.mark()
                w.d(entry, w.dt, w.lv_obj, w.ls_obj)
                sl = entry.startswith('k_sl')
                where = SLW if sl else EUW
                written = ('phi', 'psi', 'phii', 'psii') if sl else ('phi',)
                fields = {n: w.ls[n] for n in w.ls if n not in written}; fields.update(w.lv)
                tag = ' (%s step, %s)' % ('semi-Lagrangian' if sl else 'explicit', label)
                frame_fields(ctx, w, pre, fields, 'inputs unchanged' + tag, where, ghosts_of={n: w.ls[n] for n in w.ls if n in written})
                frame_rest(ctx, w, pre, {r for r, n in w.fields.items() if n in written}, 'no other object changes' + tag, where)
                # every non-ghost node is updated, from inputs alone (no loop-carried value, no current field)
                I, fs = w.index()
                with assume(*fs):
                    for n in (('phi', 'psi') if sl else ('phi',)):
                        for c in w.comps(w.ls[n][1]):
                            if c and max(c) >= d: continue
                            v = w.value(w.ls[n][1], w.ls[n][0], *I, *c)
                            order_free(ctx, 'every node is updated from the inputs alone' + tag, '%dD %s%s%s' % (d, n, ijk(I), list(c)), v, written, where)
                ctx.stats(w.E)
    ctx.floor = 500

def order_free(ctx, rule, what, v, names, where):
    """v depends neither on the old contents of a written field nor on another iteration of a loop"""
    ren = {}
    for a in deep_any(v):
        at = ATOMS[a]
        if at.kind == 'carried' and str(at.args[0]).startswith('mem#') and at.args[1].root[0] == 'new':
            ctx.bad(rule, what + ': the value is carried from one node to the next', where, actual=repr(v)[:500]); return
        if at.kind in ('carried', 'opaque'): ctx.unsure(rule, '%s: unresolved value %r' % (what, at), where); return
        if at.kind == 'undef': ctx.bad(rule, what + ': the value is uninitialised', where, actual=repr(v)[:500]); return
        if at.kind == 'init' and len(at.args) > 1 and at.args[1] in names: ren[a] = sym('other!%d' % a)
    if isinstance(v, Undef): ctx.bad(rule, what + ': the value is uninitialised', where); return
    ctx.equal(rule, what + ' does not depend on old contents of ' + ', '.join(names), v, Subst(ren)(v) if ren else v, where)

# ------------------------------------------------------------------ arrays and containers
ARR = 'src/cpu/array.cc'
def same_object(ctx, rule, what, p, want, where):
    if not isinstance(p, Ptr): ctx.unsure(rule, '%s: address %r' % (what, p), where); return
    if p.root != want.root or p.idx != want.idx: ctx.bad(rule, '%s: designates %s, not %s' % (what, show_root(p.root), show_root(want.root)), where); return
    ctx.equal(rule, what, p.off, want.off, where)

def C05(ctx):
    from .grids import kinds, volume
    for cfg in ctx.configs:
        m = ctx.module(['world', 'grid'], cfg)
        for d in DIMS:
            for k in kinds(d):
                w = World(m, d, minpad=0)
                a = w.obj('a')
                w.d('n_new_' + k, a, w.grid)
                tag = '%dD array of %s' % (d, {'s': 'scalars', 'v': 'vectors', 'm': 'matrices', 'n': 'mixed derivatives'}[k])
                ctx.equal('one element per stored node', tag + ' size()', w.pure('n_size_' + k, a), volume(w), ARR)
                ctx.equal('one element per stored node', tag + ' data().size()', w.pure('n_dsize_' + k, a), volume(w), ARR)
                same_object(ctx, 'reports its grid', tag + ' grid()', w.pure('n_grid_' + k, a), w.grid, ARR)
                for c in range(3): ctx.equal('reports its cell counts', tag + ' numCells()[%d]' % c, w.pure('n_cells_' + k, a, c), w.n[c], ARR)
                I, fs = w.index('z', ghosts=True)
                with assume(*fs):
                    for c in w.comps(k): ctx.equal('zero after construction', '%s element%s%s' % (tag, ijk(I), list(c)), w.value(k, a, *I, *c), ZERO, ARR)
                for how in ('n_set_', 'n_copy_'):
                    w = World(m, d, minpad=0)
                    src = w.obj('source'); dst = w.obj('target')
                    w.d('n_new_' + k, src, w.grid); w.havoc_array(src, k, 'source')
                    if how == 'n_set_': w.d('n_new_' + k, dst, w.grid); w.havoc_array(dst, k, 'target')
                    pre = w.mark()
                    w.d(how + k, dst, src)
                    post = w.mark()
                    I, fs = w.index('c', ghosts=True)
                    op = 'assignment' if how == 'n_set_' else 'copy construction'
                    with assume(*fs):
                        for c in w.comps(k):
                            old = w.value(k, src, *I, *c, node=pre)
                            ctx.equal('copy equals source', '%s %s target%s%s' % (tag, op, ijk(I), list(c)), w.value(k, dst, *I, *c), old, ARR)
                            ctx.equal('source unchanged', '%s %s source%s%s' % (tag, op, ijk(I), list(c)), w.value(k, src, *I, *c), old, ARR)
                    ctx.equal('one element per stored node', '%s size() after %s' % (tag, op), w.pure('n_size_' + k, dst), volume(w), ARR)
                    for c in range(3): ctx.equal('reports its cell counts', '%s numCells()[%d] after %s' % (tag, c, op), w.pure('n_cells_' + k, dst, c), w.n[c], ARR)
                    # independence: change one afterwards, look at the other
                    for x, y, nm in ((src, dst, 'target'), (dst, src, 'source')):
                        w.E.log = post
                        w.havoc_array(x, k, 'later')
                        with assume(*fs):
                            for c in w.comps(k):
                                ctx.equal('independent afterwards', '%s %s %s%s%s' % (tag, op, nm, ijk(I), list(c)), w.value(k, y, *I, *c), w.value(k, src, *I, *c, node=pre), ARR)
                    ctx.stats(w.E)
                # assignment from an array on another grid, and from itself
                for other in ('a larger grid', 'a smaller grid', None):
                    w = World(m, d, minpad=0)
                    w2 = w.second(minpad=0) if other else w
                    if other:
                        more = sub(volume(w), volume(w2))
                        FACTS.ge(more if 'larger' in other else neg(more), True)
                    src = w.obj('source')
                    w.d('n_new_' + k, src, w.grid); w.havoc_array(src, k, 'source')
                    dst = src
                    if other:
                        dst = w.obj('target')
                        w.d('n_new_' + k, dst, w2.grid); w.havoc_array(dst, k, 'target')
                    how = 'assignment from ' + (other or 'itself')
                    slot = sym('slot', True)
                    with assume((slot, False), (sub(sub(volume(w), ONE), slot), False)):
                        def elems(arr):
                            if k == 'n': return [w.pure('n_e_n', arr, slot, c) for c in range(len(w.comps(k)))]
                            p = w.pure('n_pi_' + k, arr, slot)
                            return [w.E.padd(p, const(8 * c)) for c in range(len(w.comps(k)))]
                        pre = w.mark()
                        old = [w.E.load(p, 8, DBL, pc=TRUE) for p in elems(src)]
                        w.d('n_set_' + k, dst, src)
                        ctx.equal('one element per element of the source', '%s size() after %s' % (tag, how), w.pure('n_size_' + k, dst), volume(w), ARR)
                        for c, p in enumerate(elems(dst)):
                            ctx.equal('copy equals source', '%s %s element [slot] component %d' % (tag, how, c), w.E.load(p, 8, DBL, pc=TRUE), old[c], ARR)
                    ctx.stats(w.E)
                if d < 3:
                    # more than one cell along an axis the grid does not have
                    w = World(m, d, minpad=0, coords=False)
                    n2 = [w.n[x] if x < d else sym('m%s' % 'xyz'[x], True) for x in range(3)]
                    for x in range(d, 3): FACTS.ge(sub(n2[x], ONE), False)
                    g = w.obj('wide'); w.d('w_grid3', g, *n2)
                    args = []
                    for x in range(3): args += [w.x0[x], add(w.x0[x], mul(n2[x], w.h[x]))]
                    w.d('w_gridre', g, *args)
                    a = w.obj('b'); w.d('n_new_' + k, a, g)
                    for c in range(3): ctx.equal('reports its cell counts', '%s numCells()[%d] with cells along missing axes' % (tag, c), w.pure('n_cells_' + k, a, c), n2[c], ARR)
                    ctx.equal('one element per stored node', '%s size() with cells along missing axes' % tag, w.pure('n_size_' + k, a), w.pure('g_size', g), ARR)
                    ctx.stats(w.E)
    ctx.floor = 300

def C17(ctx):
    from .grids import volume
    W = {'ls': 'include/gals/cpu/levelset.h', 'lv': 'include/gals/cpu/levelset-velocity.h'}
    for cfg in ctx.configs:
        m = ctx.module(['world', 'cont'], cfg)
        for d in DIMS:
            w = World(m, d, minpad=0)
            lo = w.levelset(havoc=False); vo = w.velocity(havoc=False)
            same_object(ctx, 'reports its grid', '%dD level set grid()' % d, w.pure('l_grid', lo), w.grid, W['ls'])
            same_object(ctx, 'reports its grid', '%dD velocity grid()' % d, w.pure('v_grid', vo), w.grid, W['lv'])
            stores = {}
            for box, fields, pf, owner in (('ls', w.ls, 'lc_', lo), ('lv', w.lv, 'vc_', vo)):
                for n, (a, k) in fields.items():
                    if not isinstance(a, Ptr): raise Unsupported('address of field %s: %r' % (n, a))
                    same_object(ctx, 'one storage per accessor pair', '%dD %s read-only accessor' % (d, n), w.pure(pf + n, owner), a, W[box])
                    same_object(ctx, 'on the container grid', '%dD %s grid()' % (d, n), w.pure('c_grid_' + k, a), w.grid, W[box])
                    ctx.equal('on the container grid', '%dD %s size()' % (d, n), w.pure('c_size_' + k, a), volume(w), W[box])
                    I, fs = w.index('z', ghosts=True)
                    if k == 'n' and d == 1: continue
                    with assume(*fs):
                        for c in w.comps(k):
                            p = w.addr(k, a, *I, *c)
                            if not isinstance(p, Ptr): raise Unsupported('storage of %s: %r' % (n, p))
                            stores.setdefault(n, p.root)
                            ctx.equal('zero after construction', '%dD %s%s%s' % (d, n, ijk(I), list(c)), w.value(k, a, *I, *c), ZERO, W[box])
            names = sorted(stores)
            for x in names:
                for y in names:
                    if x < y: ctx.check(stores[x] != stores[y], 'own storage', '%dD %s and %s are separate objects' % (d, x, y), W['ls'])
            # writing one field shows in no other
            allf = dict(w.ls); allf.update(w.lv)
            post = w.mark()
            for x in names:
                w.E.log = post
                w.havoc_array(allf[x][0], allf[x][1], 'written')
                for y in names:
                    if y == x: continue
                    I, fs = w.index('y', ghosts=True)
                    with assume(*fs):
                        c = w.comps(allf[y][1])[0]
                        ctx.equal('a write to one field shows in no other', '%dD %s after a write to %s' % (d, y, x), w.value(allf[y][1], allf[y][0], *I, *c), ZERO, W['ls'])
            w.E.log = post
            ctx.stats(w.E)
    ctx.floor = 400

# ------------------------------------------------------------------ storage bounds
def recorder(E):
    """every access of the analysed call becomes a node of the effect log (so that it keeps its loops and its path condition)"""
    from ..engine import Node
    def h(kind, p, size, inst):
        def rec(p, g):
            if isinstance(p, PIte): rec(p.a, cand(g, p.c)); rec(p.b, cand(g, cnot(p.c))); return
            E.log = Node(E.log, 'access', p if isinstance(p, Ptr) else None, size, (kind, p), g, dbg=inst.dbg)
        rec(p, E.pc)
    return h

def accesses(node, stop, loops, out):
    while node is not None and node is not stop:
        if node.k == 'access': out.append((node, loops))
        elif node.k == 'loop': accesses(node.val.end, node.val.start.prev, loops + (node.val,), out)
        node = node.prev

def object_size(w, root):
    if root in w.E.sizes: return w.E.sizes[root]
    if root[0] == 'alloca' and root in w.E.asizes: return w.E.asizes[root]
    if root[0] == 'global':
        g = w.mod.globals.get(root[1])
        if g is not None and g.get('ty') is not None: return const(w.mod.sizeof(g['ty']))
    return None

def bounds(ctx, w, pre, label, facts=(), checked=None):
    """0 <= offset and offset + size <= object size for every access after `pre`"""
    out = []
    accesses(w.E.log, pre, (), out)
    seen = set(); n = 0; cache = {}
    for node, loops in out:
        kind, p = node.val
        where = w.mod.where(node.dbg) if node.dbg is not None else ''
        if node.ptr is None:
            ctx.unsure('inside storage', '%s: %s through an unresolved address %r' % (label, kind, p), where); continue
        sz = object_size(w, node.ptr.root)
        if sz is None:
            continue
        key = (node.ptr.root, node.ptr.off.id, node.size, node.guard, tuple(l.id for l in loops))
        if key in seen: continue
        seen.add(key)
        off = node.ptr.off
        if cval(off) is not None and cval(sz) is not None and 0 <= cval(off) and cval(off) + node.size <= cval(sz):
            ctx.ok('inside storage'); continue
        fs = list(facts)
        for l in loops:
            if not l.weak: fs += [(sub(var(l.iv), l.lo), False), (sub(l.hi, var(l.iv)), False)]
        with assume(*fs):
            with w.E.pcfacts(node.guard):
                what = '%s: %s of %s' % (label, kind, field_name(w, node.ptr.root))
                if by_index(w, sz, off, node.size, cache, (tuple(l.id for l in loops), node.guard)): ctx.ok('inside storage', what); ctx.ok('inside storage', what)
                else:
                    ctx.nonneg('inside storage', what + ' at or after its start', off, where, guard=node.guard)
                    ctx.nonneg('inside storage', what + ' before its end', sub(sub(sz, off), const(node.size)), where, guard=node.guard)
        n += 1
    return n

def by_index(w, sz, off, size, cache, ctxkey):
    """the byte offset is an element of the padded node box: off = c*slot(J) + delta with -pad <= J[a] < n[a]+pad, 0 <= delta <= c-size"""
    from .grids import slot, volume
    c = exact_div(full(sz), full(volume(w)))
    if c is None or set(c) != {()}: return False
    c = c[()]
    U = [sym('slot!%d' % a, True) if a < w.dim else ZERO for a in range(3)]
    ids = [next(iter(full(u)))[0][0] for u in U[:w.dim]]
    r = w.E.solve((mul(const(c), slot(w, U)),), (off,), [ATOMS[i] for i in ids], c, size)
    if r is None or r[1] is not TRUE: return False
    sol = r[0]
    for a in range(w.dim):
        if ids[a] not in sol: return False
        J = sol[ids[a]]
        k = (J.id, a, ctxkey)
        if k not in cache:
            lo, hi = w.ghost_range(a)
            cache[k] = prove_cases(sub(J, lo)) and prove_cases(sub(hi, J))
        if not cache[k]: return False
    return True

def field_name(w, root):
    return w.fields.get(root) or show_root(root)

def C08(ctx):
    from .interp import hermite_world
    for cfg in ctx.configs:
        m = ctx.module(['world', 'grad', 'interp', 'time'], cfg)
        for d in DIMS:
            jobs = []
            for sch, (name, pad, st, where) in GRAD.items():
                for vec in (False, True): jobs.append((name + (' vector' if vec else ' scalar') + ' gradient', pad, 'grad', ('k_grad%s%s' % (sch, 'v' if vec else 's'), vec)))
            for lim in (FALSE, TRUE): jobs.append(('Hermite interpolation, limiting %s' % ('on' if lim is TRUE else 'off'), 1, 'point', lim))
            jobs.append(('batch Hermite interpolation', 1, 'batch', None))
            if d == 1: jobs += [('linear interpolation', 1, 'lin', None), ('batch linear interpolation', 1, 'linb', None)]
            jobs += [('semi-Lagrangian step', 1, 'step', 'k_sl'), ('explicit Euler step', 1, 'step', 'k_eu')]
            for label, pad, kind, arg in jobs:
                if kind == 'grad':
                    w = World(m, d, minpad=pad)
                    a = w.array('alpha', 'v' if arg[1] else 's'); g = w.array('grad', 'm' if arg[1] else 'v')
                    run = lambda: w.d(arg[0], a, g)
                elif kind == 'lin':
                    w = World(m, d, minpad=pad); a = w.array('alpha', 's')
                    run = lambda: w.d('k_lin', w.grid, sym('Px'), sym('Py'), sym('Pz'), a)
                elif kind == 'linb':
                    w = World(m, d, minpad=pad); a = w.array('alpha', 's'); x = w.array('points', 'v'); o = w.array('result', 's')
                    run = lambda: w.d('k_lcomp', x, a, o)
                elif kind == 'step':
                    w = step_world(m, d)
                    run = lambda: w.d(arg, w.dt, w.lv_obj, w.ls_obj)
                else:
                    w = hermite_world(m, d)
                    if kind == 'point': run = lambda: w.d('k_herm', w.grid, w.ls_obj, sym('Px'), sym('Py'), sym('Pz'), arg, w.obj('out'))
                    else:
                        x = w.array('points', 'v')
                        run = lambda: w.d('k_hcomp', x, w.ls_obj)
                pre = w.mark()
                w.E.hook_access = recorder(w.E)
                run()
                w.E.hook_access = None
                n = bounds(ctx, w, pre, '%dD %s' % (d, label))
                if not n: ctx.unsure('inside storage', '%dD %s: no access to a field was found' % (d, label))
                ctx.stats(w.E)
    ctx.floor = 500
