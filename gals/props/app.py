"""The advection application: order, arguments and conditions of the library operations it performs."""
import re
from .common import *
from ..models import strlit, strcat
from . import inputs

AW = 'applications/advection/main.cc'
OPS = [(re.compile(r'GALS::ANALYTICAL_FIELDS::Velocity<.*>::compute\('), 'velocity'),
       (re.compile(r'GALS::ANALYTICAL_FIELDS::Levelset<.*>::compute\('), 'initial'),
       (re.compile(r'GALS::CPU::ThirdOrder<.*>::compute\('), 'gradient3'),
       (re.compile(r'GALS::CPU::SecondOrderCentral<.*>::compute\('), 'gradient2'),
       (re.compile(r'GALS::TEMPORAL_SCHEMES::SEMI_LAGRANGIAN::Euler<.*>::compute\('), 'semi-lagrangian step'),
       (re.compile(r'GALS::TEMPORAL_SCHEMES::Euler<.*>::compute\('), 'explicit step'),
       (re.compile(r'GALS::INPUT_PARSER::InputParser::parse\('), 'parse'),
       (re.compile(r'GALS::UTILITIES::FileUtils::write<'), 'write')]
def which(dem):
    for r, k in OPS:
        if r.match(dem): return k
    return None
def truth(c): return ite(c, ONE, ZERO)

class Run:
    """one abstract run of the program on a symbolic input file"""
    def __init__(self, m):
        FACTS.__init__()
        self.m = m
        self.dim = 2
        w = self.w = World.__new__(World)
        w.mod = m; w.dim = 2; w.E = self.E = Engine(m); w.fields = {}
        self.n = [sym('nx', True), sym('ny', True), sym('nz', True)]
        self.h = [sym('h' + a) for a in 'xyz']; self.x0 = [sym(a + 'min') for a in 'xyz']
        for a in range(3): FACTS.ge(sub(self.n[a], ONE), False); FACTS.ge(self.h[a], True)
        self.cfg = {('grid', 'n' + a): self.n[k] for k, a in enumerate('xyz')}
        for k, a in enumerate('xyz'):
            self.cfg[('grid', a + '_min')] = self.x0[k]; self.cfg[('grid', a + '_max')] = add(self.x0[k], mul(self.n[k], self.h[k]))
        self.start, self.end, self.dtin, self.cdt = sym('start'), sym('end'), sym('dt_configured'), sym('constant_dt', True)
        self.cfg.update({('time', 'start'): self.start, ('time', 'end'): self.end, ('time', 'dt'): self.dtin, ('time', 'constant_dt'): self.cdt})
        self.out = sym('output_directory', True)
        self.cfg[('general', 'output_directory')] = self.out
        self.k = 0
        self.tags = {}
        E = self.E
        E.run_ctors()
        E.hook_call = self.hook
        E.peel = lambda i: i.x.k == 'global' and which(E.sdem.get(i.x.v, '')) is not None
        argc = sym('argc', True); FACTS.ge(sub(argc, const(2)), False)
        argv = Ptr(('obj', 'argv'), (), ZERO)
        self.mark = E.log
        E.call('app_run', [argc, argv])
        self.pc = E.pc; E.pc = TRUE
    def pure(self, name, *args):
        E = self.E; log, pc, hk = E.log, E.pc, E.hook_call
        E.pc = TRUE
        try: return E.call(name, [lift(a) if isinstance(a, int) else a for a in args])
        finally: E.log, E.pc = log, pc
    def hook(self, E, name, dem, args, i):
        k = which(dem)
        if k is None: return NotImplemented
        self.k += 1
        node = E.log
        if k == 'parse':
            c = inputs.Cfg.__new__(inputs.Cfg); c.m = self.m; c.E = E; c.o = args[-1]
            for s, f, comp, t, p in c.scalars():
                E.store(p, inputs.TY[t][0], self.cfg.get((s, f), sym('in.%s.%s%s' % (s, f, '' if comp is None else comp), t != 'd')), guard=TRUE)
        elif k == 'velocity':
            lv = args[-1]
            for f in ('vel', 'grad'): self.unknown(self.pure('v_%s_2' % f, lv), 'v' if f == 'vel' else 'm', f)
        elif k == 'initial': self.unknown(self.pure('l_phi_2', args[-1]), 's', 'phi')
        elif k in ('gradient2', 'gradient3'): self.unknown(args[-1], 'v', 'grad of phi')
        elif k in ('semi-lagrangian step', 'explicit step'):
            for f, kd in (('phi', 's'), ('psi', 'v'), ('phii', 's'), ('psii', 'v')): self.unknown(self.pure('l_%s_2' % f, args[-1]), kd, f)
        E.event(('op', k, tuple(args), node), i.dbg)
        return None
    def unknown(self, arr, kind, name):
        I = [sym('I!0', True), sym('I!1', True), ZERO]
        p = self.pure('a_%s_2' % kind, arr, *(I + {'s': [], 'v': [0], 'm': [0, 0]}[kind]))
        if not isinstance(p, Ptr): raise Unsupported('storage address of %s: %r' % (name, p))
        self.E.havoc(p.root, '%s@%d' % (name, self.k))
    def value(self, kind, arr, idx, node):
        """content of an element at a point of the log"""
        E = self.E; log = E.log; E.log = node
        try: p = self.pure('a_%s_2' % kind, arr, *idx)
        finally: E.log = log
        return E.load(p, 8, DBL, pc=TRUE, node=node)

def C26(ctx):
    from ..models import flat_events
    for cfg in ctx.configs:
        m = ctx.module(['world', 'input', 'app'], cfg, opaque=lambda n, d: which(d) is not None)
        r = Run(m); E = r.E
        ev = E.events(r.mark)
        EX = None
        its = {}; order = []; cur = 'before'; pre = []
        for e in ev:
            if e[0] == 'loop':
                for x in flat_events([e]):
                    if x[1][0] == 'op': ctx.unsure('march', 'a library operation inside a summarised loop', E.mod.where(x[3]))
                continue
            w = e[1]
            if w[0] == 'fs' and w[1] == 'exists' and EX is None: EX = boolatom(atom('fs', ('exists', w[2])))
            if w[0] == 'iteration':
                cur = w[1] if w[1] != 'end' else 'after'
                if w[1] != 'end': order.append(cur)
                continue
            if w[0] == 'op':
                if cur in its or cur in order: its.setdefault(cur, []).append(e)
                else: pre.append((cur, e))
        ex = EX if EX is not None else TRUE
        # ops before the loop and after it
        first = [e for c, e in pre if c == 'before']
        after = [e for c, e in pre if c == 'after']
        steps = [e for es in its.values() for e in es if 'step' in e[1][1]]
        if not order or not steps:
            ctx.unsure('march', 'the time loop was not found', AW); continue
        for p in E.peel_problems: ctx.unsure('march', p, AW)
        ls0 = [e for e in first if e[1][1] == 'initial']
        ctx.check(len(ls0) == 1, 'one initial level set before the loop', '%s: %d initialisations' % (cfg, len(ls0)), AW)
        auto = eq(r.cdt, strlit('NO'))
        half = const(Fraction(1, 2))
        dt = ite(auto, mul(ite(lt(r.h[1], r.h[0]), r.h[1], r.h[0]), half), r.dtin)
        def stop(t): return cor(E.tobool(r.pure('app_close', t, r.end)), lt(r.end, t))
        I, J = sym('I', True), sym('J', True)
        node_in = [(I, False), (sub(sub(r.n[0], ONE), I), False), (J, False), (sub(sub(r.n[1], ONE), J), False)]
        def positions(op, label):
            with assume(*node_in):
                for a, x in enumerate((I, J)):
                    v = r.value('v', op[1][2][1], [I, J, ZERO, const(a)], op[1][3])
                    for t, b in list(literals(op[2])) + list(literals(ex)): v = vrestrict(v, t, b)
                    ctx.equal('positions are the grid nodes', '%s: %s position [%d]' % (cfg, label, a), v, add(r.x0[a], mul(add(x, half), r.h[a])), E.mod.where(op[3]))
        for e in ls0: positions(e, 'initial level set'); ctx.equal('march', cfg + ': initialised when the input file exists', truth(e[2]), truth(ex), E.mod.where(e[3]))
        ls = ls0[0][1][2][-1] if ls0 else None
        guard = ex; K = sym('K', True); prev = None
        def obligations(n, es, guard, t, running=()):
            st = [e for e in es if 'step' in e[1][1]]
            if len(st) != 1:
                ctx.bad('one step per pass', '%s pass %s performs %d time steps' % (cfg, n, len(st)), AW); return None
            e = st[0]; args = e[1][2]; node = e[1][3]; where = E.mod.where(e[3])
            lab = '%s pass %s: ' % (cfg, n)
            ctx.check(e[1][1] == 'semi-lagrangian step', 'the step is semi-Lagrangian', lab + e[1][1], where)
            if guard is not None:
                # given that the previous pass ran, which its own state decides
                x, y = e[2], guard
                for v, b in running: x, y = vrestrict(x, v, b), vrestrict(y, v, b)
                ctx.equal('runs until the clock reaches the end', lab + 'condition', truth(x), truth(y), where)
            g = e[2]
            def under(x):
                for v, b in literals(g): x = vrestrict(x, v, b)
                return ncare(x, g)
            ctx.equal('the configured or automatic step', lab + 'dt', under(args[1]), under(dt), where)
            L = args[-1]; V = args[-2]
            if ls is not None: ctx.check(L == ls, 'one level set', lab + 'the level set advanced is the one initialised', where, actual=repr(L))
            before = es[:es.index(e)]
            vo = [x for x in before if x[1][1] == 'velocity']
            if not vo: ctx.bad('velocity at the new time', lab + 'no velocity is computed before the step', where); return e
            vo = vo[-1]
            ctx.equal('velocity at the new time', lab + 'time', under(vo[1][2][2]), under(t), E.mod.where(vo[3]))
            ctx.equal('velocity at the new time', lab + 'computed whenever the step is', truth(cand(vo[2], g)), truth(g), E.mod.where(vo[3]))
            ctx.check(vo[1][2][-1] == V, 'velocity at the new time', lab + 'the step uses the velocity computed', where)
            positions(vo, lab + 'velocity')
            go = [x for x in before if x[1][1].startswith('gradient')]
            if not go: ctx.bad('gradient of the current level set', lab + 'no gradient is computed before the step', where); return e
            go = go[-1]
            ctx.equal('gradient of the current level set', lab + 'computed whenever the step is', truth(cand(go[2], g)), truth(g), E.mod.where(go[3]))
            F = {f: r.pure('l_%s_2' % f, L) for f in ('phi', 'psi', 'phip', 'psip')}
            alpha, out = go[1][2][-2], go[1][2][-1]
            grid = r.pure('app_agrid', alpha); pad = r.pure('app_pad', grid)
            need = 3 - 1 if go[1][1] == 'gradient3' else 1
            ctx.nonneg('padding suffices for the gradient', lab + 'padding %r, %d needed' % (pad, need), sub(pad, const(need)), E.mod.where(go[3]))
            ctx.nonneg('padding suffices for the step', lab + 'padding %r' % pad, sub(pad, ONE), where)
            for a in range(2): ctx.equal('grid has the configured cells', lab + 'axis %d' % a, r.pure('app_n', grid, a), r.n[a], AW)
            allI = [(add(I, pad), False), (sub(sub(add(r.n[0], pad), ONE), I), False), (add(J, pad), False), (sub(sub(add(r.n[1], pad), ONE), J), False)]
            with assume(*allI):
                idx = [I, J, ZERO]
                now = under(r.value('s', F['phi'], idx, node))
                ctx.equal('gradient of the current level set', lab + 'argument', under(r.value('s', alpha, idx, go[1][3])), now, E.mod.where(go[3]))
                ctx.equal('current fields are copied to the previous ones', lab + 'phi', under(r.value('s', F['phip'], idx, node)), now, where)
                for c in range(2):
                    gnow = under(r.value('v', out, idx + [const(c)], node))
                    ctx.equal('current fields are copied to the previous ones', lab + 'psi[%d]' % c, under(r.value('v', F['psip'], idx + [const(c)], node)), gnow, where)
                    if out != F['psip'] and out != F['psi']:
                        ctx.equal('gradient of the current level set', lab + 'psi[%d]' % c, under(r.value('v', F['psi'], idx + [const(c)], node)), gnow, where)
                for f, kd, cs in (('vel', 'v', [(0,), (1,)]), ('grad', 'm', [(a, b) for a in range(2) for b in range(2)])):
                    arr = r.pure('v_%s_2' % f, V)
                    nxt = vo_after(E, vo, r.mark)
                    for c in cs:
                        ctx.equal('velocity at the new time', lab + '%s%s is not changed before the step' % (f, list(c)), under(r.value(kd, arr, idx + [const(x) for x in c], node)), under(r.value(kd, arr, idx + [const(x) for x in c], nxt)), where)
            return e
        for n in [x for x in order if isinstance(x, int)]:
            t = add(r.start, mul(const(n + 1), dt))
            obligations(n, its.get(n, []), guard, t)
            guard = cand(guard, cnot(stop(t)))
        if 'A' in order:
            with assume((K, False)):
                tA = add(r.start, mul(add(K, const(4)), dt)); tB = add(tA, dt)
                # a later pass, and the one after it
                a = obligations('K', its.get('A', []), None, tA)
                if a is not None: obligations('K+1', its.get('B', []), cand(a[2], cnot(stop(tA))), tB, literals(a[2]))
        else: ctx.unsure('march', 'the generic pass was not analysed', AW)
        wr = [e for e in after + first if e[1][1] == 'write']
        for e in wr:
            path, fld = e[1][2][-2], e[1][2][-1]
            v = E.load(path, 8, Ty('int', 64), pc=TRUE, node=e[1][3])
            ctx.equal('the velocity is written into the output directory', cfg + ': path', v, strcat(r.out, strlit('/velocity')), E.mod.where(e[3]))
        ctx.check(len(wr) == 1, 'the velocity is written into the output directory', '%s: %d files written' % (cfg, len(wr)), AW)
        ctx.stats(E)
    ctx.assumptions += ['the input file exists and every section is present; the passes after the third are covered by induction over the loop state']
    ctx.floor = 100

def vo_after(E, op, mark):
    """log node right after an operation's own effects"""
    n = E.log
    while n is not None and n is not mark:
        if n.k == 'event' and n.val is op[1]: return n
        n = n.prev
    return None
