"""Analytical level set and velocity."""
from .common import *
from ..models import strlit
I64 = Ty('int', 64)
LW = 'src/cpu/analytical-fields/levelset.cc'
VW = 'src/cpu/analytical-fields/velocity.cc'

def put(w, probe, val, *a, size=8):
    p = w.call(probe, w.inp, *a)
    w.E.store(p, size, val, guard=TRUE)
    return val

def pos_world(m, d):
    w = World(m, d)
    w.pos = w.array('pos', 'v')
    return w

def C20(ctx):
    for cfg in ctx.configs:
        m = ctx.module(['world', 'analytic'], cfg)
        for d in DIMS:
            w = pos_world(m, d)
            ls = w.levelset()
            w.inp = w.obj('inputs'); w.call('il_make', w.inp)
            name = put(w, 'il_name', sym('name', True))
            put(w, 'il_scheme', sym('scheme', True))
            R = put(w, 'il_radius', sym('radius'))
            C = [put(w, 'il_center', sym('c' + 'xyz'[c]), const(c)) for c in range(3)]
            snapshot_roots(w)
            pre = w.mark()
            w.d('p_al', w.grid, w.inp, w.pos, ls)
            ctx.check(w.E.pc is TRUE, 'the computation returns', '%dD' % d, LW)
            circle = eq(name, strlit('CIRCLE'))
            I, fs = w.index()
            with assume(*fs):
                s = ZERO
                for c in range(3):
                    t = sub(w.value('v', w.pos, *I, c, node=pre), C[c]); s = add(s, mul(t, t))
                want = ite(circle, sub(sqrt_(s), R), w.value('s', w.ls['phi'][0], *I, node=pre))
                ctx.equal('signed distance', '%dD %s phi%s' % (d, cfg, ijk(I)), w.value('s', w.ls['phi'][0], *I), want, LW)
            fields = {n: w.ls[n] for n in w.ls if n != 'phi'}; fields['positions'] = (w.pos, 'v')
            frame_fields(ctx, w, pre, fields, 'nothing else changes', LW, ghosts_of={'phi': w.ls['phi']})
            frame_rest(ctx, w, pre, {r for r, n in w.fields.items() if n == 'phi'}, 'no other object changes', LW)
            g = w.d('p_alg', w.grid, w.inp)
            ctx.check(g == w.grid, 'reports its grid', '%dD grid() is the grid given' % d, LW)
            ctx.stats(w.E)
    ctx.floor = 60

def C21(ctx):
    for cfg in ctx.configs:
        m = ctx.module(['world', 'analytic'], cfg)
        for d in DIMS:
            w = pos_world(m, d)
            lv = w.velocity()
            w.inp = w.obj('inputs'); w.call('iv_make', w.inp)
            name = put(w, 'iv_name', sym('name', True))
            scheme = put(w, 'iv_scheme', sym('scheme', True))
            C = [put(w, 'iv_center', sym('c' + 'xyz'[c]), const(c)) for c in range(3)]
            for c in range(3): put(w, 'iv_vector', sym('u' + 'xyz'[c]), const(c))
            snapshot_roots(w)
            pre = w.mark()
            w.d('p_av', w.grid, w.inp, w.pos, sym('time'), lv)
            pc = w.E.pc
            w.E.pc = TRUE
            circular = eq(name, strlit('CIRCULAR'))
            analytical = eq(scheme, strlit('ANALYTICAL'))
            om = div(pi(), const(Fraction('3.15')))
            vel, grad = w.lv['vel'][0], w.lv['grad'][0]
            V_ = lambda c, node=None: w.value('v', vel, *I, c, node=node)
            if d > 1: ctx.check(pc is TRUE, 'the computation returns', '%dD' % d, VW)
            I, fs = w.index()
            with assume(*fs):
                x, y = (w.value('v', w.pos, *I, c, node=pre) for c in (0, 1))
                want = [mul(om, sub(C[1], y)), mul(om, sub(x, C[0])), ZERO]
                for c in range(3):
                    exp = ite(circular, want[c], V_(c, pre)) if d > 1 else V_(c, pre)
                    act = V_(c) if d > 1 else ite(circular, V_(c, pre), V_(c))
                    ctx.equal('rigid rotation', '%dD %s velocity%s[%d]' % (d, cfg, ijk(I), c), act, exp, VW)
                for r in range(d):
                    for c in range(d):
                        old = w.value('m', grad, *I, r, c, node=pre); new = w.value('m', grad, *I, r, c)
                        J = {(0, 1): neg(om), (1, 0): om}.get((r, c), ZERO)
                        exp = ite(circular, ite(analytical, J, old), old) if d > 1 else old
                        if d == 1: new = ite(circular, old, new)
                        ctx.equal('exact Jacobian', '%dD %s gradient%s(%d,%d)' % (d, cfg, ijk(I), r, c), new, exp, VW)
                for r, c in w.comps('m'):
                    if max(r, c) < d: continue
                    old = w.value('m', grad, *I, r, c, node=pre); new = w.value('m', grad, *I, r, c)
                    if first_difference(new, old) is None: ctx.ok('entries outside the grid axes'); continue
                    ctx.equal('entries outside the grid axes', '%dD gradient(%d,%d) is unchanged or zero' % (d, r, c), ite(cand(circular, analytical), new, old), ite(cand(circular, analytical), ZERO, old), VW)
            frame_fields(ctx, w, pre, {'positions': (w.pos, 'v')}, 'nothing else changes', VW, ghosts_of={'velocity': w.lv['vel'], 'velocity gradient': w.lv['grad']})
            frame_rest(ctx, w, pre, {r for r, n in w.fields.items() if n in ('vel', 'grad')}, 'no other object changes', VW)
            g = w.d('p_avg', w.grid, w.inp)
            ctx.check(g == w.grid, 'reports its grid', '%dD grid() is the grid given' % d, VW)
            ctx.stats(w.E)
    ctx.floor = 60
