"""Configuration objects and the input parser."""
from .common import *
from ..models import strlit
I64 = Ty('int', 64)
# section -> field -> (key path, type)
FIELDS = {
 'general': {'output_directory': (['output_directory'], 's')},
 'grid': {**{'%s_%s' % (a, b): (['box', '%s_%s' % (a, b)], 'd') for a in 'xyz' for b in ('min', 'max')},
          'nx': (['cells', 0], 'i'), 'ny': (['cells', 1], 'i'), 'nz': (['cells', 2], 'i')},
 'time': {'start': (['start'], 'd'), 'end': (['end'], 'd'), 'dt': (['dt'], 'd'), 'constant_dt': (['constant_dt'], 's')},
 'velocity': {'name': (['name'], 's'), 'gradient_scheme': (['gradient', 'scheme'], 's'), 'vector': (['vector'], 'vd'), 'center': (['center'], 'vd')},
 'levelset': {'name': (['name'], 's'), 'radius': (['radius'], 'd'), 'gradient_scheme': (['gradient', 'scheme'], 's'), 'center': (['center'], '3d')},
}
TY = {'s': (8, I64), 'd': (8, DBL), 'i': (4, I32)}
PW = 'src/cpu/input-parser/'

def key(node, path):
    for k in path: node = fn('yaml_item', node, const(k), isint=True) if isinstance(k, int) else fn('yaml_key', node, strlit(k), isint=True)
    return node
def convert(node, t): return fn('yaml_d', node) if t == 'd' else fn('yaml_s', node, isint=True) if t == 's' else fn('yaml_i', node, ZERO, isint=True)

class Cfg:
    """an analysed InputFields object"""
    def __init__(self, m, havoc=True):
        FACTS.__init__()
        self.m = m; self.E = Engine(m)
        self.E.run_ctors()
        self.o = Ptr(('obj', 'cfg'), (), ZERO)
        self.mark0 = self.E.log; self.roots0 = set(self.E.sizes)
        self.E.call('if_make', [self.o])
        if havoc: self.unknowns()
    def pure(self, name, *args):
        E = self.E; log, pc, hk = E.log, E.pc, E.hook_access
        E.pc = TRUE; E.hook_access = None
        try: return E.call(name, [self.o] + [lift(a) if isinstance(a, int) else a for a in args])
        finally: E.log, E.pc, E.hook_access = log, pc, hk
    def scalars(self):
        """(section, field, component or None, type, address)"""
        for s, fs in FIELDS.items():
            for f, (path, t) in fs.items():
                if t in TY: yield s, f, None, t, self.pure('a_%s_%s' % (s, f))
                elif t == '3d':
                    for c in range(3): yield s, f, c, 'd', self.pure('a_%s_%s' % (s, f), c)
    def unknowns(self):
        for s, f, c, t, p in self.scalars():
            self.E.store(p, TY[t][0], sym('old.%s.%s%s' % (s, f, '' if c is None else c), t != 'd'), guard=TRUE)
    def load(self, p, t, node=None): return self.E.load(p, TY[t][0], TY[t][1], pc=TRUE, node=node)

def compare_all(ctx, c, pre, node_of, only, rule, label, where):
    """every configuration field against its key; sections not in `only` unchanged"""
    for s, f, k, t, p in c.scalars():
        path, ft = FIELDS[s][f]
        new, old = c.load(p, t), c.load(p, t, pre)
        nm = '%s: %s.%s%s' % (label, s, f, '' if k is None else '[%d]' % k)
        if s in only:
            cond, node = node_of(s)
            want = convert(key(node, path + ([k] if k is not None else [])), t)
            ctx.equal(rule, nm, new, ite(cond, want, old), where)
        else: ctx.equal('other sections untouched', nm, new, old, where)
    for f in ('vector', 'center'):
        if 'velocity' not in only: continue
        cond, node = node_of('velocity')
        nd = key(node, [f])
        n = c.pure('n_velocity_' + f)
        size = fn('yaml_size', nd, isint=True)
        if cond is TRUE: ctx.equal(rule, '%s: velocity.%s length' % (label, f), n, size, where)
        else:
            (lv, lb), = literals(cond)
            ctx.equal(rule, '%s: velocity.%s length' % (label, f), vrestrict(n, lv, lb), size, where)
            ctx.equal(rule, '%s: velocity.%s length without the section' % (label, f), vrestrict(n, lv, not lb), ZERO, where)
        I = sym('I', True)
        with assume((I, False), (sub(sub(size, I), ONE), False)):
            def under(x):
                if cond is TRUE: return x
                (v, b), = [l for l in literals(cond)]
                return vrestrict(x, v, b)
            p = under(c.pure('a_velocity_' + f, I))
            v = under(c.E.load(p, 8, DBL, pc=cond))
            ctx.equal(rule, '%s: velocity.%s[I]' % (label, f), v, fn('yaml_d', fn('yaml_item', nd, I, isint=True)), where)

def C18(ctx):
    for cfg in ctx.configs:
        m = ctx.module(['input'], cfg)
        # the whole file
        c = Cfg(m)
        file = Ptr(('obj', 'file'), (), ZERO)
        name = sym('file_name', True)
        c.E.store(file, 8, name, guard=TRUE)
        root = fn('yaml_file', name, isint=True)
        nd = lambda s: (boolatom(atom('yaml_defined', (key(root, [s]),))), key(root, [s]))
        pre = c.E.log
        with assume(*lengths({s: nd(s)[1] for s in FIELDS})):
            c.E.call('if_parse', [file, c.o])
            ctx.check(c.E.pc is TRUE, 'parsing returns', 'complete file', 'src/cpu/input-parser.cc')
            c.E.pc = TRUE
            compare_all(ctx, c, pre, nd, set(FIELDS), 'key to field', cfg + ' file', 'src/cpu/input-parser.cc')
        ctx.stats(c.E)
        # each section parser, through each of its entry points
        for s in FIELDS:
            for e, what in (('p', 'parse'), ('o', 'call operator'), ('b', 'base parse'), ('c', 'base call operator')):
                c = Cfg(m)
                y = Ptr(('obj', 'node'), (), ZERO)
                node = sym('node', True)
                c.E.store(y, 8, node, guard=TRUE)
                pre = c.E.log
                with assume(*lengths({s: node})):
                    c.E.call('%s_%s' % (e, s), [y, c.o])
                    ctx.check(c.E.pc is TRUE, 'parsing returns', s, PW + s + '.cc')
                    c.E.pc = TRUE
                    compare_all(ctx, c, pre, lambda s_: (TRUE, node), {s}, 'key to field', '%s %s %s' % (cfg, s, what), PW + s + '.cc')
                ctx.stats(c.E)
    ctx.assumptions += ['the `cells` list has at least three entries and `levelset.center` exactly three (other lengths are rejected: C22), keys of a present section are all present']
    ctx.floor = 1000

def lengths(nodes):
    """facts: documented list lengths"""
    out = []
    for s, n in nodes.items():
        size = lambda k: fn('yaml_size', key(n, [k]), isint=True)
        if s == 'grid': out.append((sub(size('cells'), const(3)), False))
        if s == 'levelset': out += [(sub(size('center'), const(3)), False), (sub(const(3), size('center')), False)]
        if s == 'velocity': out += [(size('center'), False), (size('vector'), False)]
    return out

FW = 'src/cpu/input-fields/input-fields.cc'
def frees(E, mark):
    """(pointer, guard, where) of every release after `mark`; None when one happens in a loop"""
    from ..models import flat_events
    out = []
    def add_(p, g, w):
        if isinstance(p, PIte): add_(p.a, cand(g, p.c), w); add_(p.b, cand(g, cnot(p.c)), w)
        elif p != NULL: out.append((p, g, w))
    for e in flat_events(E.events(mark)):
        if e[1][0] == 'free': add_(e[1][1], e[2], E.mod.where(e[3]))
    return out
def released(ctx, E, mark, roots, rule, label):
    fr = [f for f in frees(E, mark)]
    for name, root in roots:
        mine = [f for f in fr if isinstance(f[0], Ptr) and f[0].root == root]
        tot = FALSE
        for p, g, w in mine:
            if cand(tot, g) is not FALSE: ctx.bad(rule, '%s: the %s section is released twice' % (label, name), w); break
            if cval(p.off) != 0: ctx.bad(rule, '%s: release of an inner address of the %s section' % (label, name), w); break
            tot = cor(tot, g)
        else:
            ctx.check(tot is TRUE, rule, '%s: the %s section is released exactly once' % (label, name), FW)
    seen = {}
    for p, g, w in fr:
        k = p.key() if isinstance(p, Ptr) else repr(p)
        if k in seen and cand(seen[k], g) is not FALSE: ctx.bad(rule, '%s: %r is released twice' % (label, p), w)
        seen[k] = cor(seen.get(k, FALSE), g)

def after_free(ctx, E, mark, rule, label):
    """access hook: no load or store of an object that is already released on the same path"""
    hit = set()
    def hook(kind, p, size, i):
        if not isinstance(p, Ptr) or p.root[0] != 'new': return
        for q, g, w in frees(E, mark):
            if isinstance(q, Ptr) and q.root == p.root and q.idx == p.idx and cand(g, E.pc) is not FALSE:
                at = E.mod.where(i.dbg) if i is not None and i.dbg is not None else FW
                if at not in hit: hit.add(at); ctx.bad(rule, '%s: %s of %r after its release' % (label, kind, p), at)
                return
        ctx.ok(rule)
    return hook

def C19(ctx):
    for cfg in ctx.configs:
        m = ctx.module(['input'], cfg)
        c = Cfg(m, havoc=False)
        secs = {s: c.pure('s_' + s) for s in FIELDS}
        for s, p in secs.items():
            ctx.check(isinstance(p, Ptr) and (p.root[0] == 'new' and cval(p.off) == 0 or p.root == c.o.root), 'a section is an object of its own', '%s %s is freshly allocated, or a part of its owner' % (cfg, s), FW, actual=repr(p))
        for a in FIELDS:
            for b in FIELDS:
                if a < b: ctx.check(secs[a] != secs[b], 'sections are distinct', '%s: %s and %s' % (cfg, a, b), FW)
        for s, f, k, t, p in c.scalars():
            v = c.load(p, t)
            nm = '%s %s.%s%s after construction is %r' % (cfg, s, f, '' if k is None else '[%d]' % k, v)
            if isinstance(v, Undef) or any(ATOMS[a].kind == 'undef' for a in deep_any(v)): ctx.bad('every field has a definite value', nm, FW)
            elif any(ATOMS[a].kind in ('opaque', 'carried') for a in deep_any(v)): ctx.unsure('every field has a definite value', nm, FW)
            else: ctx.ok('every field has a definite value', nm)
        for f in ('vector', 'center'):
            ctx.equal('every field has a definite value', '%s velocity.%s starts empty or sized' % (cfg, f), c.pure('n_velocity_' + f), c.pure('n_velocity_' + f), FW)
        ctx.stats(c.E)
        # destruction, whatever the fields hold by then
        c = Cfg(m)
        secs = {s: c.pure('s_' + s) for s in FIELDS}
        roots = [(s, p.root) for s, p in secs.items() if isinstance(p, Ptr) and p.root[0] == 'new']
        E = c.E
        E.track_free = True
        mark = E.log
        E.hook_access = after_free(ctx, E, mark, 'not used once released', cfg + ' destructor')
        E.call('if_free', [c.o])
        E.hook_access = None
        ctx.check(E.pc is TRUE, 'destruction returns', cfg, FW)
        released(ctx, E, mark, roots, 'released exactly once', cfg + ' destructor')
        ctx.stats(E)
        # construction followed by destruction leaves nothing allocated
        c = Cfg(m, havoc=False); E = c.E
        E.track_free = True; mark = c.mark0
        E.call('if_free', [c.o])
        gone = {f[0].root for f in frees(E, mark) if isinstance(f[0], Ptr)}
        for r in E.sizes:
            if r in c.roots0 or r[0] != 'new' or cval(E.sizes[r]) == 0: continue
            ctx.check(r in gone, 'nothing stays allocated', '%s: %s, allocated by construction or destruction, is released' % (cfg, show_root(r)), FW)
        ctx.stats(E)
        # two configurations: nothing shared, and each frees its own
        c = Cfg(m); E = c.E
        sa = {s: c.pure('s_' + s) for s in FIELDS}
        A, B = c.o, Ptr(('obj', 'cfg2'), (), ZERO)
        E.call('if_make', [B])
        c.o = B; sb = {s: c.pure('s_' + s) for s in FIELDS}
        for s in FIELDS: ctx.check(sa[s] != sb[s], 'sections are distinct', '%s: the %s sections of two configurations' % (cfg, s), FW)
        E.track_free = True
        mark = E.log
        E.hook_access = after_free(ctx, E, mark, 'not used once released', cfg + ' two configurations')
        E.call('if_free', [A]); E.call('if_free', [B])
        E.hook_access = None
        released(ctx, E, mark, [(s, p.root) for x in (sa, sb) for s, p in x.items() if isinstance(p, Ptr) and p.root[0] == 'new'], 'released exactly once', cfg + ' two configurations')
        ctx.stats(E)
        # copies: impossible, or independent
        for op in ('copy', 'move', 'assign', 'massign'):
            can = E.call('can_' + op, [])
            if cval(E.tonum(can)) == 0:
                ctx.ok('no sharing copy', '%s: %s is rejected by the compiler' % (cfg, op)); continue
            c = Cfg(m, havoc=False); E = c.E
            A = c.o; B = Ptr(('obj', 'cfg2'), (), ZERO)
            E.track_free = True
            mark = c.mark0
            if op in ('assign', 'massign'): E.call('if_make', [B])
            E.call('do_' + op, [B, A])
            sb = {s: E.call('s_' + s, [B]) for s in FIELDS}
            c.o = A; sa = {s: c.pure('s_' + s) for s in FIELDS}
            if op in ('copy', 'assign'):
                for s in FIELDS: ctx.check(sa[s] != sb[s], 'no sharing copy', '%s: after %s the %s section is not shared' % (cfg, op, s), FW)
            E.call('if_free', [B]); E.call('if_free', [A])
            released(ctx, E, mark, [(s, p.root) for s, p in sb.items() if isinstance(p, Ptr) and p.root[0] == 'new'], 'released exactly once', '%s after %s' % (cfg, op))
            ctx.stats(E)
            c = Cfg(m, havoc=False); E = c.E
    ctx.floor = 80
