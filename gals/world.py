"""The canonical analysis context: a grid of symbolic size, padding and spacing and the containers on it, all built by
abstract interpretation of the tree's own constructors, with unknown (but fixed) field contents."""
import re
from .vals import *
from .engine import Engine, Node
from .ir import Ty

DBL = Ty('double'); I32 = Ty('int', 32); PTR = Ty('ptr'); I64 = Ty('int', 64)

class World:
    def __init__(self, mod, dim, minpad=1, ctors=True, coords=True):
        self.mod = mod; self.dim = dim
        self.E = Engine(mod)
        self.n = [sym('n%s' % 'xyz'[a], True) if a < dim else ONE for a in range(3)]
        self.pad = sym('pad', True)
        self.x0 = [sym('%smin' % 'xyz'[a]) for a in range(3)]
        self.h = [sym('h%s' % 'xyz'[a]) for a in range(3)]
        self.facts = []
        for a in range(dim):
            self.facts.append((sub(self.n[a], ONE), False))
        for a in range(3): self.facts.append((self.h[a], True))
        self.facts.append((sub(self.pad, const(minpad)), False))
        FACTS.__init__()
        for f in self.facts: FACTS.ge(*f)
        self.fields = {}
        if ctors: self.E.run_ctors()
        self.grid = self.obj('grid')
        args = [self.grid] + self.n + [self.pad]
        for a in range(3): args += [self.x0[a], add(self.x0[a], mul(self.n[a], self.h[a]))]
        self.call('w_grid_%d' % dim, *args)
        if coords: self.canonical_coords()

    def second(self, tag='2', minpad=0, within=False):
        """another grid in the same context, with its own cell counts (at most this grid's if `within`), padding and box"""
        w = object.__new__(World)
        w.mod, w.dim, w.E, w.fields = self.mod, self.dim, self.E, self.fields
        w.n = [sym('n%s%s' % ('xyz'[a], tag), True) if a < w.dim else ONE for a in range(3)]
        w.pad = sym('pad' + tag, True)
        w.x0 = [sym('%smin%s' % ('xyz'[a], tag)) for a in range(3)]
        w.h = [sym('h%s%s' % ('xyz'[a], tag)) for a in range(3)]
        w.facts = self.facts
        for a in range(w.dim):
            w.facts.append((sub(w.n[a], ONE), False))
            if within: w.facts.append((sub(self.n[a], w.n[a]), False))
        for a in range(3): w.facts.append((w.h[a], True))
        w.facts.append((sub(w.pad, const(minpad)), False))
        FACTS.__init__()
        for f in w.facts: FACTS.ge(*f)
        w.grid = w.obj('grid' + tag)
        args = [w.grid] + w.n + [w.pad]
        for a in range(3): args += [w.x0[a], add(w.x0[a], mul(w.n[a], w.h[a]))]
        w.call('w_grid_%d' % w.dim, *args)
        w.canonical_coords()
        return w

    def obj(self, name): return Ptr(('obj', name), (), ZERO)
    def call(self, name, *args):
        if name not in self.mod.funcs: raise Unsupported('probe %s is not in the module' % name)
        return self.E.call(name, [lift(a) if isinstance(a, (int, Num)) else a for a in args])
    def d(self, name, *args): return self.call('%s_%d' % (name, self.dim), *args)

    # address of an element through the accessors, as pure function (log unchanged)
    def addr(self, kind, arr, *idx):
        log, pc = self.E.log, self.E.pc
        hk, self.E.hook_access = self.E.hook_access, None
        self.E.pc = TRUE
        try: r = self.d('a_' + kind, arr, *idx)
        finally:
            self.E.log, self.E.pc = log, pc
            self.E.hook_access = hk
        return r
    def value(self, kind, arr, *idx, node=None):
        p = self.addr(kind, arr, *idx)
        return self.E.load(p, 8, DBL, pc=TRUE, node=node)
    def mark(self): return self.E.log
    def comps(self, kind):
        """component suffixes of an element kind (all stored doubles)"""
        if kind == 's': return [()]
        if kind == 'v': return [(c,) for c in range(3)]
        if kind == 'm': return [(r, c) for r in range(3) for c in range(3)]
        return [(c,) for c in range({1: 0, 2: 1, 3: 4}[self.dim])]
    def ghost_cases(self, tag='g'):
        """generic padded indices outside the real nodes, one case per axis and side: (description, I, facts)"""
        out = []
        for a in range(self.dim):
            for side in (0, 1):
                I, fs = self.index('%s%d%d' % (tag, a, side), ghosts=True)
                lo, hi = self.inner_range(a)
                fs = fs + [(sub(sub(lo, I[a]), ONE) if side == 0 else sub(sub(I[a], hi), ONE), False)]
                out.append(('%s ghost along %s' % ('low' if side == 0 else 'high', 'xyz'[a]), I, fs))
        return out
    def stores(self, mark):
        """every write logged after `mark` with its enclosing loops"""
        out = []
        self.E.collect_stores(self.E.log, mark, [], out, None)
        return out
    def pure(self, name, *args):
        log, pc = self.E.log, self.E.pc
        hk, self.E.hook_access = self.E.hook_access, None
        self.E.pc = TRUE
        try: return self.d(name, *args)
        finally:
            self.E.log, self.E.pc = log, pc
            self.E.hook_access = hk

    # storage range of index (i,j,k) including ghosts
    def ghost_range(self, a):
        if a < self.dim: return neg(self.pad), add(self.n[a], sub(self.pad, ONE))
        return ZERO, ZERO
    def inner_range(self, a):
        if a < self.dim: return ZERO, sub(self.n[a], ONE)
        return ZERO, ZERO
    def index(self, tag='', ghosts=False):
        """a generic index triple and its range facts"""
        out = []; fs = []
        for a in range(3):
            if a >= self.dim: out.append(ZERO); continue
            v = sym('IJK'[a] + tag, True)
            lo, hi = self.ghost_range(a) if ghosts else self.inner_range(a)
            fs += [(sub(v, lo), False), (sub(hi, v), False)]
            out.append(v)
        return out, fs

    def canonical_coords(self):
        """override the coordinate data by x(i,j,k)[a] = x0 + (i+1/2)h (what `generate` must produce is property C02)"""
        I = [sym('I!%d' % a, True) if a < self.dim else ZERO for a in range(3)]
        self.coord_root = None
        for c in range(self.dim):
            p = self.addr('x', self.grid, I[0], I[1], I[2], c)
            if not isinstance(p, Ptr): raise Unsupported('coordinate storage address %r' % (p,))
            val = add(self.x0[c], mul(add(I[c], const(Fraction(1, 2))), self.h[c]))
            self.coord_root = p.root
            self.put_rule(p, [(I[a], self.ghost_range(a)) for a in range(self.dim)], val)
    def put_rule(self, ptr, ivs, val, size=8):
        """store `val` at `ptr` for every index in the given ranges: a synthetic loop nest in the log"""
        from .engine import LoopInfo
        E = self.E
        def nest(k, sub_):
            if k == len(ivs):
                E.store(sub_(ptr), size, sub_(val), guard=TRUE); return
            v, (lo, hi) = ivs[k]
            li = LoopInfo('rule', 'rule')
            at = atom('iv', ('r#%d' % li.id,), True)
            li.iv = at; li.lo, li.hi = lo, hi
            vid = next(iter(full(v)))[0][0]
            before = E.log
            E.log = Node(E.log, 'loopstart', val=li)
            li.start = E.log
            m = dict(sub_.m); m[vid] = var(at)
            nest(k + 1, Subst(m))
            li.end = E.log
            E.log = Node(before, 'loop', val=li, guard=TRUE)
        nest(0, Subst({}))

    # containers
    def array(self, name, kind):
        o = self.obj(name)
        self.d('w_a' + kind, o, self.grid)
        self.havoc_array(o, kind, name)
        return o
    def havoc_array(self, o, kind, name):
        idx = [ZERO, ZERO, ZERO]
        args = {'s': [], 'v': [0], 'm': [0, 0], 'n': [0]}[kind]
        if kind == 'n' and self.dim == 1: return
        I = [sym('I!%d' % a, True) if a < self.dim else ZERO for a in range(3)]
        p = self.addr(kind, o, *(I + args))
        if not isinstance(p, Ptr): raise Unsupported('storage address of %s: %r' % (name, p))
        self.fields[p.root] = name
        self.E.havoc(p.root, name)
    def levelset(self, name='ls', havoc=True):
        o = self.obj(name)
        self.d('w_ls', o, self.grid)
        self.ls = {}
        for f, kind in (('phi', 's'), ('psi', 'v'), ('mix', 'n'), ('phip', 's'), ('psip', 'v'), ('mixp', 'n'), ('phii', 's'), ('psii', 'v')):
            a = self.pure('l_' + f, o)
            self.ls[f] = (a, kind)
            if havoc: self.havoc_array(a, kind, f)
        return o
    def velocity(self, name='lv', havoc=True):
        o = self.obj(name)
        self.d('w_lv', o, self.grid)
        self.lv = {}
        for f, kind in (('vel', 'v'), ('grad', 'm')):
            a = self.pure('v_' + f, o)
            self.lv[f] = (a, kind)
            if havoc: self.havoc_array(a, kind, f)
        return o
