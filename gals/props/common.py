from ..vals import *
from ..world import World, DBL, I32, PTR
from ..engine import Engine
from ..ir import Ty

DIMS = (1, 2, 3)
def ijk(I): return '(%s)' % ','.join(repr(x) for x in I)
def shift(I, a, s):
    J = list(I); J[a] = add(J[a], const(s)); return J

def frame_fields(ctx, w, pre, fields, rule, where, ghosts_of=(), comps=None):
    """unchanged(field) for whole fields, and ghost entries of `ghosts_of`"""
    for name, (arr, kind) in fields.items():
        I, fs = w.index('f', ghosts=True)
        for c in w.comps(kind):
            with assume(*fs):
                ctx.equal(rule, '%s%s%s unchanged' % (name, ijk(I), list(c)), w.value(kind, arr, *I, *c), w.value(kind, arr, *I, *c, node=pre), where)
    for name, (arr, kind) in ghosts_of.items() if ghosts_of else ():
        for desc, I, fs in w.ghost_cases():
            for c in w.comps(kind):
                with assume(*fs):
                    ctx.equal(rule, '%s%s%s (%s) unchanged' % (name, ijk(I), list(c), desc), w.value(kind, arr, *I, *c), w.value(kind, arr, *I, *c, node=pre), where)

def frame_rest(ctx, w, pre, allowed, rule, where):
    """no write after `pre` changes an object that existed before and is not in `allowed` (roots)"""
    seen = 0
    for n, loops in w.stores(pre):
        r = n.ptr.root
        if r in allowed or r[0] in ('alloca', 'global') or n.k == 'elems': continue   # global objects: C23
        if r[0] == 'new' and r not in w.pre_roots: continue
        if r[0] == 'any': continue
        seen += 1
        fs = []
        for l in loops:
            if not l.weak: fs += [(sub(var(l.iv), l.lo), False), (sub(l.hi, var(l.iv)), False)]
        with assume(*fs):
            with w.E.pcfacts(n.guard):
                if n.k == 'store':
                    ty = PTR if isinstance(n.val, (Ptr, PIte, Term)) else DBL if n.size == 8 and not (isinstance(n.val, Num) and isint(n.val)) else Ty('int', n.size * 8)
                    a = w.E.load(n.ptr, n.size, ty, pc=TRUE); b = w.E.load(n.ptr, n.size, ty, pc=TRUE, node=pre)
                    ctx.equal(rule, 'write to %s leaves it unchanged' % show_root(r), a, b, w.mod.where(n.dbg) if n.dbg is not None else where)
                else:
                    ctx.bad(rule, 'write to %s' % show_root(r), where)
    ctx.ok(rule, 'every write after the call starts goes to the result storage or to temporaries')

def snapshot_roots(w):
    """remember which heap objects exist before the analysed call"""
    w.pre_roots = set(w.E.sizes) | set(w.fields)
