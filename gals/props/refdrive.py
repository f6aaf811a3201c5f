"""The time loops of the reference programs: which operation runs on which data, in which order and when."""
import os, re
from .common import *
from .. import build

MAINS = {'serial': ('REF_SERIAL', 'SerialCode', 'GALS_Advection.cpp'), 'parallel': ('REF_OMP', '.', 'GALS_Advection_OpenMP.cpp'), 'CUDA': ('REF_CUDA', 'CUDA', 'GALS_Advection.cu')}
OPS = [('foot', r'advection_point(?:_MPI|_cuda)?'), ('find', r'find_advection_point_location(?:_MPI|_cuda)?'), ('update', r'update_levelset_data(?:_cuda)?'),
       ('mixed', r'update_mixed_derivatives'), ('print', r'fileprint'), ('copy', r'devicetodevicecopy'), ('init', r'allocate_levelset_matrices_CUDA')]
OPS = [(k, re.compile(r'(?:galsfunctions::)?%s\(' % r)) for k, r in OPS]
def which(dem):
    for k, r in OPS:
        if r.match(dem): return k
    return None
SETTINGS = ('xlim1', 'xlim2', 'ylim1', 'ylim2', 'dt', 'Tfinal', 'T_period', 'nx', 'ny', 'option', 'printstep', 'TileSize')
def truth(c): return ite(c, ONE, ZERO)

def abstract(text, path):
    """the program text with arbitrary settings and with kernel launches as calls"""
    for n in SETTINGS:
        text = re.sub(r'\b((?:const\s+)?(?:double|float|unsigned int|unsigned|int|auto)\s+%s)\s*=[^;,]*;' % n, r'\1 = gals_set_%s();' % n, text, count=1)
    text = re.sub(r'(\b[A-Za-z_]\w*)\s*<<<(.*?)>>>\s*\(', r'gals_launch(\2), \1(', text, flags=re.S)
    return '#line 1 "%s"\n' % path + text

class Stop(Exception):
    """a violation was found that leaves nothing to analyse"""

class Drive:
    def __init__(self, ctx, v, option):
        flag, d, f = MAINS[v]
        self.v = v; self.ctx = ctx; self.cuda = v == 'CUDA'
        src = os.path.normpath(os.path.join(build.REPO, 'src/reference', d)); self.W = os.path.join(os.path.relpath(src, build.REPO), f)
        out = os.path.join(ctx.work, 'drive_' + v); os.makedirs(out, exist_ok=True)
        for name in (f, 'Setting.h'):
            p = os.path.join(src, name)
            if os.path.exists(p):
                with open(p) as g: t = g.read()
                with open(os.path.join(out, name + '.inc' if name == f else name), 'w') as g: g.write(abstract(t, p))
        self.m = ctx.program('refdrive', 'drive_' + v, ['-D' + flag, '-DREF_MAIN="%s"' % os.path.join(out, f + '.inc'), '-I' + out, '-I' + src], opaque=lambda n, dd: which(dd) is not None)
        FACTS.__init__()
        E = self.E = Engine(self.m); E.run_ctors()
        S = self.S = {n: sym(n, n in ('nx', 'ny', 'option', 'printstep', 'TileSize')) for n in SETTINGS}
        if self.cuda:
            FACTS.ge(sub(S['TileSize'], ONE), False)
            for n in ('nx', 'ny'):
                k = sym('tiles_' + n, True); FACTS.ge(sub(k, ONE), False)
                S[n] = mul(k, S['TileSize'])
        for n in ('nx', 'ny'): FACTS.ge(sub(S[n], const(3)), False)
        for n in ('dt', 'Tfinal', 'T_period'): FACTS.ge(S[n], True)
        for a in 'xy': FACTS.ge(sub(S[a + 'lim2'], S[a + 'lim1']), True)
        FACTS.ge(sub(S['printstep'], ONE), False); S['option'] = const(option)
        FACTS.ge(sub(S['Tfinal'], mul(const(4), S['dt'])), False)
        E.hook_call = self.hook; E.expand_max = 8
        E.peel = lambda i: i.x.k == 'global' and which(E.sdem.get(i.x.v, '')) is not None
        self.k = 0; self.grid = None; self.when = TRUE
        argc = sym('argc', True); FACTS.ge(sub(argc, const(2)), False)
        self.mark = E.log
        E.call('d_main', [argc, Ptr(('obj', 'argv'), (), ZERO)])
        E.pc = TRUE
    def pure(self, name, *args):
        E = self.E; log, pc = E.log, E.pc
        try: return E.call(name, [lift(a) if isinstance(a, int) else a for a in args])
        finally: E.log, E.pc = log, pc
    # ---------------------------------------------------------------- storage
    def addr(self, kind, g, I, J=None):
        if self.cuda:
            if not isinstance(g, Ptr): raise Unsupported('array %r' % (g,))
            k = I if J is None else add(mul(I, self.S['nx']), J)
            return Ptr(g.root, g.idx, add(g.off, mul(const(4 if kind == 'u' else 8), k)))
        return self.pure('d_' + kind, g, I) if J is None else self.pure('d_' + kind, g, I, J)
    def unknown(self, g, kind='e'):
        I, J = sym('I!0', True), sym('I!1', True)
        with assume((I, False), (sub(sub(self.S['ny'], ONE), I), False), (J, False), (sub(sub(self.S['nx'], ONE), J), False)):
            p = self.addr(kind, g, I, J)
        if not isinstance(p, Ptr):
            n = len(self.ctx.violations)
            if not self.cuda: self.ctx.equal('arrays have one element per node', self.v + ': rows of an array an operation fills', self.pure('d_urows' if kind == 'u' else 'd_rows', g), self.S['ny'], self.W)
            if len(self.ctx.violations) > n: raise Stop()
            raise Unsupported('storage of %r' % (p,))
        self.E.havoc(p.root, '%s@%d' % (kind, self.k))
        self.k += 1
    def value(self, kind, g, node, I, J=None):
        E = self.E; log, pc = E.log, E.pc
        E.log = node; E.pc = self.when
        try: p = self.addr(kind, g, I, J)
        finally: E.log, E.pc = log, pc
        if not isinstance(p, Ptr): raise Unsupported('address %r' % (p,))
        return E.load(p, 4 if kind == 'u' else 8, I32 if kind == 'u' else DBL, pc=self.when, node=node)
    # ---------------------------------------------------------------- operations
    ARGS = {'serial': {'foot': 'x y xa ya t dt T s', 'find': 'x y xa ya cx cy tr x1 x2 y1 y2', 'update': 'x y xa ya cx cy tr t dt f fx fy fxy mf mfx mfy mfxy psi s T',
                       'mixed': 'fx fy fxy nx ny dx dy', 'print': 'f fx fy fxy nx ny x y time T'},
            'parallel': {'foot': 'x y xa ya t dt T lo hi s', 'find': 'x y xa ya cx cy tr x1 x2 y1 y2 lo hi'},
            'CUDA': {'foot': 'x y xa ya nx t dt T tile', 'find': 'x y xa ya nx ny cx cy tr x1 x2 y1 y2 tile', 'update': 'x y xa ya cx cy tr t dt f fx fy fxy mf mfx mfy psi s T nx ny tile',
                     'mixed': 'fx fy fxy nx ny dx dy tile', 'copy': 'f fx fy mf mfx mfy nx tile', 'init': 'f fx fy fxy x y nx ny'}}
    def hook(self, E, name, dem, args, i):
        if name.startswith('gals_set_'): return self.S[name[9:]]
        if name == 'gals_grid': self.grid = tuple(args); return None
        if name == 'malloc' and self.cuda:
            p = E.new((i.fn.name, i.res)); E.sizes[p.root] = args[0]
            E.havoc(p.root, 'uninitialised@%d' % self.k); self.k += 1
            return p
        if name == 'gals_copied':
            for p, what in ((args[0], 'target'), (args[1], 'source')):
                size = E.sizes.get(p.root) if isinstance(p, Ptr) else None
                if size is None: raise Unsupported('copy of %r' % (p,))
                self.ctx.nonneg('copies stay inside their arrays', '%s: %s of the copy' % (self.v, what), sub(sub(size, p.off), args[2]), E.mod.where(i.dbg))
            return None
        k = which(dem)
        if k is None: return NotImplemented
        names = (self.ARGS[self.v].get(k) or self.ARGS['serial'].get(k) or '').split()
        # serial and parallel headers offer both the plain and the column-range form
        if not self.cuda and k in ('foot', 'find'): names = self.ARGS['parallel' if '_MPI(' in dem else 'serial'][k].split()
        if len(names) != len(args): raise Unsupported('%s takes %d arguments' % (dem, len(args)))
        a = dict(zip(names, args))
        before = E.log
        E.event(('begin', k))
        if k == 'foot': self.unknown(a['xa']); self.unknown(a['ya'])
        elif k == 'find':
            for n in ('cx', 'cy', 'tr'): self.unknown(a[n], 'u')
        elif k == 'update':
            for n in ('f', 'fx', 'fy'): self.unknown(a[n])
        elif k == 'mixed': self.unknown(a['fxy'])
        elif k == 'init':
            pc = E.pc
            E.call('d_init', list(args))
            E.pc = pc
        elif k == 'copy':
            for n in ('f', 'fx', 'fy'):
                pc = E.pc
                E.call('d_copy', [a['m' + n], a[n], mul(self.S['nx'], self.S['ny'])])
                E.pc = pc
        a['before'] = before; a['grid'] = self.grid; self.grid = None
        E.event(('op', k, a), i.dbg)
        return None

def C37(ctx):
    for v in MAINS:
        for option in (1, 2): drive(ctx, v, option)
    ctx.assumptions += ['node counts are multiples of the tile size in the CUDA program, as it requires', 'at least four time steps; the passes after the third are covered by induction over the loop state']
    ctx.floor = 150

def drive(ctx, v, option):
    from ..models import flat_events
    try: R = Drive(ctx, v, option)
    except Stop: return
    E = R.E; S = R.S; W = R.W
    ev = E.events(R.mark)
    passes = {}; order = []; cur = 'before'; ends = {}
    # log nodes of events
    nodes = {}
    n = E.log
    while n is not None and n is not R.mark:
        if n.k == 'event': nodes[id(n.val)] = n
        n = n.prev
    for e in ev:
        if e[0] == 'loop':
            if any(x[1][0] == 'op' for x in flat_events([e])): ctx.unsure('time loop', v + ': an operation inside a summarised loop', W)
            continue
        w = e[1]
        if w[0] == 'iteration':
            ends[cur] = nodes[id(w)].prev
            cur = w[1] if w[1] != 'end' else 'after'
            if cur != 'after': order.append(cur)
        elif w[0] == 'op': passes.setdefault(cur, []).append((w[1], w[2], e[2], e[3], nodes[id(w)]))
    if not order or 'A' not in order: ctx.unsure('time loop', v + ': the time loop was not found', W); return
    for p in E.peel_problems: ctx.unsure('time loop', v + ': ' + p, W)
    I, J, K = sym('row', True), sym('col', True), sym('K', True)
    inside = [(I, False), (sub(sub(S['ny'], ONE), I), False), (J, False), (sub(sub(S['nx'], ONE), J), False)]
    dx = div(sub(S['xlim2'], S['xlim1']), sub(S['nx'], ONE)); dy = div(sub(S['ylim2'], S['ylim1']), sub(S['ny'], ONE))
    steps = floor_(div(S['Tfinal'], S['dt']))
    period = S['printstep'] if option == 1 else steps
    if option != 1: v += ' (first and last only)'
    def same(rule, what, got, want, where, g=TRUE):
        if isinstance(got, Num) and isinstance(want, Num):
            for t, b in literals(g): got, want = vrestrict(got, t, b), vrestrict(want, t, b)
        ctx.equal(rule, '%s: %s' % (v, what), got, want, where)
    def nodes_ok(a, node, what, where):
        with assume(*inside):
            same('nodes span the box', what + ' x[col]', R.value('x', a['x'], node, J), add(S['xlim1'], mul(dx, J)), where)
            same('nodes span the box', what + ' y[row]', R.value('x', a['y'], node, I), add(S['ylim1'], mul(dy, I)), where)
    def grids(a, names, node, kind='e'): return [R.value(kind, a[n], node, I, J) for n in names]
    def launch(a, what, where):
        if not R.cuda: return
        g = a['grid']
        if g is None: ctx.bad('one thread per node', '%s: %s is not launched on a grid' % (v, what), where); return
        for k, n in ((0, 'nx'), (1, 'ny')):
            same('one thread per node', '%s threads along %s' % (what, n), mul(g[k], g[k + 3]), S[n], where)
            same('one thread per node', '%s tile along %s' % (what, n), g[k + 3], S['TileSize'], where)
        for k in (2, 5): same('one thread per node', what + ' depth', g[k], ONE, where)
    def scal(a, what, where, **kw):
        for n, want in kw.items():
            if n in a: same('arguments are the settings', '%s %s' % (what, n), a[n], want, where)
    def shapes(a, what, node, where):
        rule = 'arrays have one element per node'
        for n, p in a.items():
            kind = 'u' if n in ('cx', 'cy', 'tr') else 'x' if n in ('x', 'y') else 'e' if n in ('xa', 'ya', 'f', 'fx', 'fy', 'fxy', 'mf', 'mfx', 'mfy', 'mfxy') else None
            if kind is None: continue
            need = S['nx'] if n == 'x' else S['ny'] if n == 'y' else mul(S['nx'], S['ny'])
            if R.cuda:
                size = E.sizes.get(p.root)
                if size is None: ctx.unsure(rule, '%s: %s %s: allocation not found' % (v, what, n), where); continue
                ctx.nonneg(rule, '%s: %s %s has room for every node' % (v, what, n), sub(sub(size, p.off), mul(const(4 if kind == 'u' else 8), need)), where)
                continue
            log = E.log; E.log = node; pc = E.pc; E.pc = R.when
            try:
                if kind == 'x': same(rule, '%s %s' % (what, n), R.pure('d_len', p), need, where)
                else:
                    same(rule, '%s %s rows' % (what, n), R.pure('d_urows' if kind == 'u' else 'd_rows', p), S['ny'], where)
                    with assume(*inside): same(rule, '%s %s columns' % (what, n), R.pure('d_ucols' if kind == 'u' else 'd_cols', p, I), S['nx'], where)
            finally: E.log, E.pc = log, pc
    F = ('f', 'fx', 'fy', 'fxy')
    # ---------------------------------------------------------------- before the loop
    pre = passes.get('before', [])
    pr = [o for o in pre if o[0] == 'print']
    ctx.check(len(pr) == 1 and pr[0][2] is TRUE, 'the initial fields are printed', '%s: %d times before the time loop' % (v, len(pr)), W)
    for o in pre:
        if o[0] not in ('print', 'init'): ctx.bad('one step per pass', '%s: %s before the time loop' % (v, o[0]), E.mod.where(o[3]))
    ctx.check('after' not in passes, 'one step per pass', '%s: %s after the time loop' % (v, [o[0] for o in passes.get('after', [])]), W)
    up = [o for o in passes.get(0, []) if o[0] == 'update']
    if len(up) != 1: ctx.bad('one step per pass', '%s: the first pass updates the fields %d times' % (v, len(up)), W); return
    U = up[0][1]
    master = [n for n in ('mf', 'mfx', 'mfy', 'mfxy') if n in U]
    start = ends['before']
    for o in pre:
        wh = E.mod.where(o[3])
        if o[0] == 'init': scal(o[1], 'initialisation', wh, nx=S['nx'], ny=S['ny']); nodes_ok(o[1], o[1]['before'], 'initialisation', wh); launch(o[1], 'initialisation', wh)
    with assume(*inside):
        for a, b in zip(master, F):
            same('old and new fields agree between passes', 'start: ' + b, R.value('e', U[a], start, I, J), R.value('e', U[b], start, I, J), W)
        for o in pr:
            wh = E.mod.where(o[3])
            nodes_ok(o[1], o[1]['before'], 'initial output', wh); shapes(o[1], 'initial output', o[1]['before'], wh)
            scal(o[1], 'initial output', wh, nx=S['nx'], ny=S['ny'], T=S['T_period'], time=ZERO)
            from .reference import initial, check_initial, HALF
            X, Y = add(S['xlim1'], mul(dx, J)), add(S['ylim1'], mul(dy, I))
            f = initial(X, Y); a2, b2 = mul(const(-2), sub(X, HALF)), mul(const(-2), sub(Y, const(Fraction(3, 4))))
            class Q: pass
            q = Q(); q.ctx = ctx
            got = grids(o[1], F, o[1]['before'])
            check_initial(q, 'the initial fields are printed', v + ': f', got[0], X, Y, wh)
            for nm, gv, want in zip(F[1:], got[1:], (mul(a2, f), mul(b2, f), mul(mul(a2, b2), f))): same('the initial fields are printed', nm, gv, want, wh)
            for b in F: same('the initial fields are printed', b + ' is where the loop starts', R.value('e', U[b], start, I, J), R.value('e', o[1][b], o[1]['before'], I, J), wh)
    # ---------------------------------------------------------------- passes
    prev = start
    def one(tag, t, prevnode):
        ops = passes.get(tag, [])
        lab = 'pass %s ' % tag
        core = [o for o in ops if o[0] in ('foot', 'find', 'update', 'mixed')]
        names = [o[0] for o in core]
        if names != ['foot', 'find', 'update', 'mixed']:
            ctx.bad('one step per pass', '%s: %sperforms %s' % (v, lab, names), W); return None
        foot, find, upd, mix = core
        run = lt(t, steps); R.when = foot[2]
        for o in core:
            same('runs for the stated time', lab + o[0] + ' condition', truth(o[2]), truth(run), E.mod.where(o[3]))
            launch(o[1], lab + o[0], E.mod.where(o[3]))
            scal(o[1], lab + o[0], E.mod.where(o[3]), t=t, dt=S['dt'], T=S['T_period'], x1=S['xlim1'], x2=S['xlim2'], y1=S['ylim1'], y2=S['ylim2'], nx=S['nx'], ny=S['ny'], dx=dx, dy=dy, lo=ZERO, hi=S['nx'], tile=S['TileSize'])
            if 'x' in o[1]: nodes_ok(o[1], o[1]['before'], lab + o[0], E.mod.where(o[3]))
            shapes(o[1], lab + o[0], o[1]['before'], E.mod.where(o[3]))
        if 's' in foot[1]: ctx.check(foot[1]['s'] == upd[1]['s'], 'gradient and foot point use one scheme', v + ': ' + lab, E.mod.where(upd[3]))
        a = upd[1]; wh = E.mod.where(upd[3]); b4 = a['before']
        with assume(*inside):
            for o in (find, upd):
                for n, x, y in zip(('xa', 'ya'), grids(o[1], ('xa', 'ya'), o[1]['before']), grids(foot[1], ('xa', 'ya'), foot[4])): same('each operation uses the results of the one before', lab + o[0] + ' ' + n, x, y, E.mod.where(o[3]))
            for n, x, y in zip(('cx', 'cy', 'tr'), grids(a, ('cx', 'cy', 'tr'), b4, 'u'), grids(find[1], ('cx', 'cy', 'tr'), find[4], 'u')): same('each operation uses the results of the one before', lab + 'update ' + n, x, y, wh)
            now = [R.value('e', U[n], prevnode, I, J) for n in F]
            for n, x, y in zip(F, grids(a, F, b4), now): same('the update starts from the previous result', lab + n, x, y, wh)
            for n, x, y in zip(master, grids(a, master, b4), now): same('the update reads the old fields', lab + n, x, y, wh)
            log, pc = E.log, E.pc; E.log, E.pc = b4, R.when
            try: roots = [R.addr('e', a[n], I, J) for n in F] + [R.addr('e', a[n], I, J) for n in master]
            finally: E.log, E.pc = log, pc
            roots = [p for p in roots if isinstance(p, Ptr)]
            ctx.check(len({(p.root, p.idx) for p in roots}) == len(roots), 'the update reads the old fields', '%s: %snew and old fields are distinct arrays' % (v, lab), wh)
            wm = E.mod.where(mix[3])
            for n, x, y in zip(('fx', 'fy'), grids(mix[1], ('fx', 'fy'), mix[1]['before']), grids(a, ('fx', 'fy'), upd[4])): same('each operation uses the results of the one before', lab + 'mixed ' + n, x, y, wm)
            new = grids(a, ('f', 'fx', 'fy'), upd[4]) + grids(mix[1], ('fxy',), mix[4])
            end = ends[tag]
            for n, x, y in zip(F, [R.value('e', U[n], end, I, J) for n in F], new): same('the new fields are kept', lab + n, x, y, wh)
            for n, x, y in zip(master, [R.value('e', U[n], end, I, J) for n in master], new): same('old and new fields agree between passes', lab + n, x, y, wh)
            out = [o for o in ops if o[0] == 'print']
            due = cand(run, eq(sub(add(t, ONE), mul(period, E.intdiv(add(t, ONE), period))), ZERO))
            shown = FALSE
            for o in out:
                shown = cor(shown, o[2]); wo = E.mod.where(o[3])
                shapes(o[1], lab + 'output', o[1]['before'], wo)
                scal(o[1], lab + 'output', wo, nx=S['nx'], ny=S['ny'], T=S['T_period'], time=mul(add(t, ONE), S['dt']))
                nodes_ok(o[1], o[1]['before'], lab + 'output', wo)
                for n, x, y in zip(F, grids(o[1], F, o[1]['before']), new): same('the output is the current state', lab + n, x, y, wo, o[2])
            same('output at the stated interval', lab + 'condition', truth(shown), truth(due), E.mod.where(out[0][3]) if out else W)
        return ends[tag]
    t = 0
    for tag in [x for x in order if isinstance(x, int)]:
        prev = one(tag, const(t), prev) or prev; t += 1
    with assume((K, False)):
        p = one('A', add(K, const(t)), prev)
        if p is not None and 'B' in order: one('B', add(K, const(t + 1)), p)
    ctx.stats(E)
