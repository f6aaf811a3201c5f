"""Requests that must end the process, and requests that must not."""
from .common import *
from .analytic import put
from ..models import strlit, flat_events
from . import inputs

def truth(c): return ite(c, ONE, ZERO)

def exits(E, mark):
    """(guard, what, where, events before it) of every reachable end of the process after `mark`"""
    out = []; seen = []
    for e in flat_events(E.events(mark)):
        if e[1][0] == 'noreturn': out.append((e[2], e[1][1], E.mod.where(e[3]) if e[3] is not None else '', list(seen)))
        else: seen.append(e)
    return out

def refused(ctx, w, mark, cond, label, where, allowed_roots=()):
    """under `cond` (TRUE: always) the process ends, after a message and before any result is stored; otherwise it goes on"""
    E = w.E
    pc = E.pc; E.pc = TRUE
    ctx.equal('an unimplemented request ends the process', '%s returns' % label, truth(pc), truth(cnot(cond)), where)
    ex = exits(E, mark)
    said = FALSE; tot = FALSE
    for g, name, at, before in ex:
        tot = cor(tot, g)
        said = FALSE
        for b in before:
            if b[1][0] in ('out_s', 'out_d', 'out_i'): said = cor(said, b[2])
        ctx.equal('it reports itself first', '%s: message before %s' % (label, name), truth(cand(g, said)), truth(g), at or where)
    # no result stored on the way
    n = 0
    for s, loops in w.stores(mark):
        r = s.ptr.root if isinstance(s.ptr, Ptr) else None
        if r not in w.fields: continue
        n += 1
        ctx.equal('no result before the end', '%s: write to %s' % (label, w.fields[r]), truth(cand(s.guard, cond)), ZERO, E.mod.where(s.dbg) if s.dbg is not None else where)
    ctx.ok('no result before the end', '%s: %d writes to fields examined' % (label, n))

def continues(ctx, E, mark, label, where):
    pc = E.pc; E.pc = TRUE
    ctx.equal('an implemented request returns', label, truth(pc), ONE, where)
    for g, name, at, before in exits(E, mark):
        ctx.equal('an implemented request returns', '%s: %s is unreachable' % (label, name), truth(g), ZERO, at or where)

class Bare:
    def __init__(self, E, fields): self.E = E; self.fields = fields
    def stores(self, mark):
        out = []; self.E.collect_stores(self.E.log, mark, [], out, None); return out

def C22(ctx):
    cfg = 'prod'
    m = ctx.module(['world', 'guard', 'interp', 'time', 'grad', 'analytic'], cfg)
    # three-component vectors from sequences
    for t, empty in (('d', False), ('d', True), ('i', False), ('i', True)):
        FACTS.__init__()
        E = Engine(m); E.run_ctors()
        n = ZERO if empty else sym('count', True)
        FACTS.ge(ZERO if empty else sub(n, ONE))
        v = Ptr(('obj', 'seq'), (), ZERO); o = Ptr(('obj', 'vec'), (), ZERO)
        E.call('v%s_make' % t, [v, n])
        E.pc = TRUE
        mark = E.log
        w = Bare(E, {('obj', 'vec'): 'the vector'})
        E.call('v3%s_make' % t, [o, v])
        refused(ctx, w, mark, cnot(eq(n, const(3))), 'Vec3<%s> from %s' % ('double' if t == 'd' else 'int', 'an empty sequence' if empty else 'a sequence'), 'src/cpu/vec3.cc')
        ctx.stats(E)
    # interpolation front ends
    for entry in ('u_lin', 'u_linop', 'u_linfront'):
        w = World(m, 1); ls = w.levelset(); x = w.array('points', 'v')
        mark = w.mark(); w.d(entry, x, ls)
        refused(ctx, w, mark, TRUE, 'level-set linear interpolation (%s)' % entry[2:], 'src/cpu/interpolation/linear-1d.cc')
        ctx.stats(w.E)
    for d in DIMS:
        for entry in ('u_hop', 'u_hfront'):
            w = World(m, d); a = w.array('alpha', 's'); x = w.array('points', 'v'); o = w.array('result', 's')
            mark = w.mark(); w.d(entry, x, a, o)
            refused(ctx, w, mark, TRUE, '%dD array Hermite interpolation (%s)' % (d, entry[2:]), 'include/gals/cpu/interpolation/hermite.h')
            ctx.stats(w.E)
    # analytical velocity
    for d in DIMS:
        w = World(m, d); lv = w.velocity(); pos = w.array('pos', 'v')
        w.inp = w.obj('inputs'); w.call('iv_make', w.inp)
        name = put(w, 'iv_name', sym('name', True)); put(w, 'iv_scheme', sym('scheme', True))
        w.fields = {r: n for r, n in w.fields.items() if n in ('vel', 'grad')}
        mark = w.mark(); w.d('p_av', w.grid, w.inp, pos, sym('time'), lv)
        VW = 'src/cpu/analytical-fields/velocity.cc'
        if d == 1: refused(ctx, w, mark, eq(name, strlit('CIRCULAR')), '1D circular velocity', VW)
        else: continues(ctx, w.E, mark, '%dD analytical velocity' % d, VW)
        ctx.stats(w.E)
    # implemented requests
    for d in DIMS:
        w = World(m, d, minpad=1)
        continues(ctx, w.E, None, '%dD grid construction and generation' % d, 'src/cpu/grid.cc')
        for kind in ('2s', '2v', '3s', '3v'):
            w = World(m, d, minpad=2); a = w.array('alpha', kind[1]); o = w.array('result', 'v' if kind[1] == 's' else 'm')
            mark = w.mark(); w.d('k_grad' + kind, a, o)
            continues(ctx, w.E, mark, '%dD gradient %s' % (d, kind), 'src/cpu/gradient.cc'); ctx.stats(w.E)
        for entry in ('k_slfront', 'k_eufront'):
            w = World(m, d); lv = w.velocity(); ls = w.levelset()
            mark = w.mark(); w.d(entry, sym('dt'), lv, ls)
            continues(ctx, w.E, mark, '%dD time step %s' % (d, entry[2:]), 'src/cpu/temporal.cc'); ctx.stats(w.E)
        w = World(m, d); ls = w.levelset(); x = w.array('points', 'v')
        mark = w.mark(); w.d('k_hfront', x, ls)
        continues(ctx, w.E, mark, '%dD Hermite interpolation' % d, 'src/cpu/interpolate.cc'); ctx.stats(w.E)
        if d == 1:
            w = World(m, 1); a = w.array('alpha', 's'); x = w.array('points', 'v'); o = w.array('result', 's')
            mark = w.mark(); w.d('k_lfront', x, a, o)
            continues(ctx, w.E, mark, '1D linear interpolation', 'src/cpu/interpolation/linear-1d.cc'); ctx.stats(w.E)
        w = World(m, d); ls = w.levelset(); pos = w.array('pos', 'v')
        w.inp = w.obj('inputs'); w.call('il_make', w.inp)
        put(w, 'il_name', sym('name', True))
        mark = w.mark(); w.d('p_al', w.grid, w.inp, pos, ls)
        continues(ctx, w.E, mark, '%dD analytical level set' % d, 'src/cpu/analytical-fields/levelset.cc'); ctx.stats(w.E)
    m2 = ctx.module(['input'], cfg)
    c = inputs.Cfg(m2)
    file = Ptr(('obj', 'file'), (), ZERO)
    name = sym('file_name', True)
    c.E.store(file, 8, name, guard=TRUE)
    root = fn('yaml_file', name, isint=True)
    mark = c.E.log
    with assume(*inputs.lengths({s: inputs.key(root, [s]) for s in inputs.FIELDS})):
        c.E.call('if_parse', [file, c.o])
        continues(ctx, c.E, mark, 'parsing a complete file', 'src/cpu/input-parser.cc')
    ctx.stats(c.E)
    ctx.assumptions += ['gradients run on a grid with padding 2 or more, everything else on padding 1 or more; parsed lists have their documented lengths']
    ctx.floor = 50
