"""Counterexample extraction: evaluates two derived summaries (never the program) at sample points that satisfy the
context facts.  Used only to confirm a normal-form mismatch before it is reported."""
import math, random
from fractions import Fraction
from .vals import *
from . import vals as V

class Undefined(Exception):
    pass

class Eval:
    def __init__(self, rnd, fixed=None):
        self.rnd = rnd; self.mem = {}; self.at = {}; self.nm = {}; self.cm = {}
        self.fixed = fixed or {}
        self.pool = None
        self.opaque = False
        self.inner = None               # atom that may not sit on a comparison boundary
        if rnd.random() < 0.2: self.pool = self.rndnum(False)          # every free number the same
        self.zero = {}; self.pzero = rnd.choice([0, 0, 0.3, 0.7])     # whole fields that are zero
    def rndnum(self, isint, lo=None):
        r = self.rnd
        if isint: return r.choice([0, 1, 2, 3, -1, -2, 4, 5, 7])
        if self.pool is not None: return self.pool
        k = r.random()
        if k < 0.35: return Fraction(r.choice([0, 1, -1, 2, -2, 3, -3]))
        if k < 0.7: return Fraction(r.randint(-24, 24), r.choice([1, 2, 3, 4, 5]))
        return Fraction(r.randint(-400, 400), 97)
    def num(self, n):
        v = self.nm.get(n.id)
        if v is not None: return v
        if n.op == 'p':
            v = 0
            for m, c in n.poly.items():
                t = c
                for a, e in m:
                    x = self.atom(V.ATOMS[a])
                    if e < 0 and x == 0: raise Undefined()
                    t = t * (x ** e if isinstance(x, (int, float)) and e > 0 or isinstance(x, float) else Fraction(x) ** e)
                v = v + t
        elif n.op == 'add': v = self.num(n.a) + self.num(n.b)
        else: v = self.num(n.a) * self.num(n.b)
        self.nm[n.id] = v
        return v
    def key(self, x):
        if isinstance(x, Num): return self.num(x)
        if isinstance(x, Ptr): return (x.root, tuple(self.num(y) for y in x.idx), self.num(x.off))
        if isinstance(x, Cond): return self.cond(x)
        if isinstance(x, PIte): return self.key(x.a) if self.cond(x.c) else self.key(x.b)
        if isinstance(x, Term):
            if x.name == 'ite': return self.key(x.args[1]) if self.cond(x.args[0]) else self.key(x.args[2])
            if x.name in ('opaqueptr', 'opaque', 'carried'): self.opaque = True
            return (x.name,) + tuple(self.key(y) for y in x.args)
        if isinstance(x, tuple): return tuple(self.key(y) for y in x)
        return x
    def atom(self, a):
        v = self.at.get(a.id)
        if v is not None: return v
        k = a.kind
        if a.id in self.fixed: v = self.fixed[a.id]
        elif k in ('sym', 'iv'): v = self.rndnum(a.isint)
        elif k == 'pi': v = math.pi
        elif k == 'ite': v = self.num(a.args[1]) if self.cond(a.args[0]) else self.num(a.args[2])
        elif k == 'inv':
            x = self.num(a.args[0])
            if x == 0: raise Undefined()
            v = 1 / (x if isinstance(x, float) else Fraction(x))
        elif k == 'floor': v = math.floor(self.num(a.args[0]))
        elif k == 'fabs': v = abs(self.num(a.args[0]))
        elif k == 'sqrt':
            x = self.num(a.args[0])
            if x < 0: raise Undefined()
            v = math.sqrt(x)
        elif k in ('sin', 'cos', 'tan', 'exp', 'atan', 'sinh', 'cosh', 'tanh'): v = getattr(math, k)(min(self.num(a.args[0]), 300))
        elif k == 'pow':
            x, y = self.num(a.args[0]), self.num(a.args[1])
            try: v = float(x) ** float(y)
            except (ValueError, ZeroDivisionError, OverflowError): raise Undefined()
            if isinstance(v, complex): raise Undefined()
        elif k == 'round':              # halves away from zero
            x = self.num(a.args[0])
            v = math.floor(x + Fraction(1, 2)) if x >= 0 else -math.floor(-x + Fraction(1, 2))
        elif k == 'intdiv':
            x, y = self.num(a.args[0]), self.num(a.args[1])
            if y == 0: raise Undefined()
            q = abs(x) // abs(y); v = q if (x >= 0) == (y > 0) else -q
        elif k == 'tofloat':
            import struct
            v = Fraction(struct.unpack('f', struct.pack('f', float(self.num(a.args[0]))))[0])
        elif k == 'fdiv': raise Undefined()
        else:
            if k in ('opaque', 'carried', 'undef'): self.opaque = True
            key = (k,) + tuple(self.key(x) for x in a.args)
            v = self.mem.get(key)
            if v is None:
                f = key[1][0] if len(key) > 1 and isinstance(key[1], tuple) and key[1] else None
                if f is not None and not a.isint and self.pzero:
                    try: z = self.zero.setdefault(f, self.rnd.random() < self.pzero)
                    except TypeError: z = False
                    v = 0 if z else self.rndnum(False)
                else: v = self.rndnum(a.isint)
                self.mem[key] = v
        self.at[a.id] = v
        return v
    def cond(self, c):
        while c.v is not None:
            r = self.cm.get(c.v)
            if r is None:
                x = V.RS[c.v[0]]
                if isinstance(x, Num):
                    y = self.num(x); t = c.v[1]
                    if self.inner is not None and y == t and self.inner in atoms_of(x): raise Undefined()
                    r = y <= t if c.v[2] else y < t
                else: r = self.boolat(x)
                self.cm[c.v] = r
            c = c.hi if r else c.lo
        return c is TRUE
    def boolat(self, a):
        if a.kind in INTERPRETED and a.kind not in ('opaque', 'carried', 'undef', 'iv'): return self.atom(a) != 0
        if a.kind in ('opaque', 'carried', 'undef'): self.opaque = True
        key = ('b', a.kind) + tuple(self.key(x) for x in a.args)
        if key not in self.mem: self.mem[key] = self.rnd.random() < 0.5
        return self.mem[key]

def differ(a, b):
    if isinstance(a, bool) or isinstance(b, bool): return a != b
    if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)): return a != b
    if isinstance(a, (int, Fraction, float)) and isinstance(b, (int, Fraction, float)):
        return abs(a - b) > 1e-8 * (1 + abs(a) + abs(b))
    return a != b

def fact_atoms(facts):
    s = set()
    for p, _ in facts: s |= atoms_of(p)
    return s

def sample(facts, rnd, extra=None, small=None):
    """an Eval whose free symbols satisfy the facts, or None"""
    for _ in range(300):
        ev = Eval(rnd, dict(extra) if extra else None)
        try:
            if propagate(ev, facts, rnd): return ev
        except (Undefined, OverflowError): pass
    return None

def propagate(ev, facts, rnd):
    """choose symbols in creation order within the bounds implied by facts over already chosen ones"""
    ids = sorted({a for p, _ in facts for a in atoms_of(p) if V.ATOMS[a].kind in ('sym', 'iv')})
    chosen = dict(ev.fixed)
    todo = [i for i in ids if i not in chosen]
    # symbols bounded by others come later: repeat passes
    order = []
    dep = {}
    for i in todo:
        dep[i] = set()
    for p, s in facts:
        at = sorted(a for a in atoms_of(p) if a in dep)
        if len(at) > 1: dep[at[-1]] |= set(at[:-1])
    for i in todo:
        A = V.ATOMS[i]
        lo = hi = None; slo = shi = False
        for p, s in facts:
            q = full(p)
            if i not in atoms_of(p): continue
            if any(a not in chosen and a != i for a in atoms_of(p) if V.ATOMS[a].kind in ('sym', 'iv')): continue
            co = 0; rest = 0; ok = True
            for m, c in q.items():
                t = c; e1 = 0
                for a, e in m:
                    if a == i: e1 = e
                    elif a in chosen: t = t * Fraction(chosen[a]) ** e
                    else: ok = False
                if not ok: break
                if e1 == 1: co += t
                elif e1 == 0: rest += t
                else: ok = False
            if not ok or co == 0: continue
            b = -Fraction(rest) / co
            if co > 0:
                if lo is None or b > lo: lo, slo = b, s
            else:
                if hi is None or b < hi: hi, shi = b, s
        if A.isint:
            l = math.ceil(lo) if lo is not None else None
            h = math.floor(hi) if hi is not None else None
            if l is not None and slo and l == lo: l += 1
            if h is not None and shi and h == hi: h -= 1
            if l is None and h is None: v = rnd.randint(-3, 5)
            elif l is None: v = rnd.choice([h, h - 1, h - rnd.randint(0, 4)])
            elif h is None: v = rnd.choice([l, l + 1, l + 2, l + rnd.randint(0, 4)])
            else:
                if l > h: return False
                v = rnd.choice([l, h, rnd.randint(l, h), rnd.randint(l, h)])
        else:
            if lo is None and hi is None: v = ev.rndnum(False)
            elif lo is None: v = hi - abs(ev.rndnum(False)) - (Fraction(1, 7) if shi else 0)
            elif hi is None: v = lo + abs(ev.rndnum(False)) + (Fraction(1, 7) if slo else 0)
            else:
                if lo > hi: return False
                t = rnd.choice([Fraction(0), Fraction(1), Fraction(rnd.randint(1, 11), 12), Fraction(rnd.randint(1, 11), 12)])
                if rnd.random() < 0.12: t = rnd.choice([Fraction(1, 1000), Fraction(999, 1000), Fraction(1, 10 ** 6)])
                if t == 0 and slo or t == 1 and shi: t = Fraction(1, 2)
                v = lo + (hi - lo) * t
        chosen[i] = v
        ev.fixed[i] = v
    for p, s in facts:
        x = ev.num(p)
        if x < 0 or (s and x == 0): return False
    return True

def atoms_any(x): return deep_any(x)

def thresholds(x):
    """comparisons against thresholds inside a summary: {(0, left hand side): thresholds} and, for the jumps of floor
    and round, {(1, argument): {shift of the jumps}}"""
    out = {}
    def sup(c):
        for v in c.support():
            if isinstance(V.RS[v[0]], Num): out.setdefault((0, v[0]), set()).add(v[1])
    if isinstance(x, Cond): sup(x)
    for a in deep_any(x):
        k = V.ATOMS[a].kind
        if k in ('floor', 'round'): out.setdefault((1, a), set()).add(Fraction(0) if k == 'floor' else Fraction(1, 2))
        for y in V.ATOMS[a].args:
            if isinstance(y, Cond): sup(y)
    return out

def near(ev, ths, rnd):
    """move one symbol so that some comparison sits at, or between, its thresholds"""
    r = rnd.choice(sorted(ths))
    ts = sorted(ths[r])
    if r[0]:
        e = V.ATOMS[r[1]].args[0]
        x = ev.num(e)
        if isinstance(x, float): return False
        ts = [math.floor(x + Fraction(1, 2)) + ts[0]]; r = None
    else: e = V.RS[r[1]]
    pts = list(ts)
    for a, b in zip(ts, ts[1:]): pts += [(Fraction(a) + b) / 2] * 3
    w = 100 if r else 10 ** 12
    pts += [ts[0] - abs(Fraction(ts[0])) / w - Fraction(1, 10 ** 13), ts[-1] + abs(Fraction(ts[-1])) / w + Fraction(1, 10 ** 13)]
    return move(ev, e, rnd.choice(pts), rnd)

def move(ev, e, t, rnd):
    """change one free symbol of the expression e so that e = t"""
    q = full(e)
    free = {}
    for m in q:
        for a, x in m: free[a] = free.get(a, True) and x == 1 and V.ATOMS[a].kind not in INTERPRETED
    cands = [a for a in free if free[a] and not any(b != a and a in atom_deep(V.ATOMS[b]) for b in free)]
    if not cands: return False
    i = rnd.choice(sorted(cands))
    co = ev.num(mk({tuple(x for x in m if x[0] != i): c for m, c in q.items() if (i, 1) in m}))
    rest = ev.num(mk({m: c for m, c in q.items() if (i, 1) not in m}))
    if isinstance(rest, float) or isinstance(co, float) or co == 0: return False
    x = (Fraction(t) - rest) / co
    A = V.ATOMS[i]
    if A.isint:
        if x.denominator != 1: return False
        x = int(x)
    if A.kind == 'sym': ev.fixed[i] = x
    else: ev.mem[(A.kind,) + tuple(ev.key(y) for y in A.args)] = x
    ev.nm.clear(); ev.at.clear(); ev.cm.clear()
    return True

def guide(ev, lits, rnd):
    """move towards the case described by literals (comparison, truth)"""
    for _ in range(4):
        done = True
        for v, b in lits:
            x = V.RS[v[0]]
            if not isinstance(x, Num):
                if x.kind not in INTERPRETED or x.kind in ('opaque', 'carried', 'undef'):
                    ev.mem[('b', x.kind) + tuple(ev.key(y) for y in x.args)] = b; ev.cm.clear()
                continue
            y = ev.num(x)
            if (y <= v[1] if v[2] else y < v[1]) == b: continue
            done = False
            unit = 1 if isint(x) else Fraction(1, rnd.choice([1, 4, 64, 10 ** 11]))
            if b: t = v[1] if v[2] and rnd.random() < 0.5 else v[1] - unit
            else: t = v[1] if not v[2] and rnd.random() < 0.5 else v[1] + unit
            move(ev, x, t, rnd)
        if done: return True
    return False
INTERPRETED = {'iv', 'pi', 'ite', 'inv', 'floor', 'fabs', 'sqrt', 'sin', 'cos', 'tan', 'exp', 'atan', 'sinh', 'cosh', 'tanh', 'pow', 'round', 'intdiv', 'tofloat', 'fdiv', 'opaque', 'carried', 'undef'}

def find(actual, expected, facts, tries=400, seed=1, exact=False, extra=None, lits=None, inner=None):
    """-> (description, opaque) of a sample where the two differ, or None"""
    rnd = random.Random(seed)
    und = 0
    ths = {} if exact else thresholds(actual)
    if not exact:
        for k, v in thresholds(expected).items(): ths.setdefault(k, set()).update(v)
    for n in range(tries):
        ev = sample(facts, rnd, extra)
        if ev is None: continue
        ev.inner = inner
        try:
            if (ths or lits) and n % 2:
                for a in (atoms_any(actual) | atoms_any(expected)):
                    if V.ATOMS[a].kind == 'sym' and a not in ev.fixed: ev.fixed[a] = ev.atom(V.ATOMS[a])
                if lits and (not ths or n % 4 == 1): guide(ev, lits, rnd)
                elif ths:
                    for _ in range(rnd.choice([1, 1, 2, 3, 9])): near(ev, ths, rnd)
                if any(x < 0 or (s and x == 0) for x, s in ((ev.num(p), s) for p, s in facts)): continue
            x = ev.key(actual); y = ev.key(expected)
        except (Undefined, OverflowError): und += 1; continue
        if exact and (ev.opaque or not isinstance(x, (int, bool, Fraction)) or not isinstance(y, (int, bool, Fraction))): continue
        if differ(x, y):
            d = {repr(V.ATOMS[i]): str(v) for i, v in sorted(ev.fixed.items())}
            def f(z): return str(float(z)) if isinstance(z, Fraction) else str(z)
            return (dict(at=d, actual=f(x), expected=f(y)), ev.opaque)
    return None

def negative(p, facts, strict=False, guard=TRUE, lits=(), tries=600, seed=1):
    """a sample that satisfies the facts and the guard where p < 0 (p <= 0 when strict), or None"""
    rnd = random.Random(seed)
    ths = thresholds(p)
    for k, v in thresholds(guard).items(): ths.setdefault(k, set()).update(v)
    syms = sorted(a for a in atoms_any(p) | atoms_any(guard) if V.ATOMS[a].kind == 'sym')
    for n in range(tries):
        ev = sample(facts, rnd)
        if ev is None: continue
        try:
            if n % 2 and (ths or lits):
                for a in syms:
                    if a not in ev.fixed: ev.fixed[a] = ev.atom(V.ATOMS[a])
                if lits and n % 4 == 1: guide(ev, lits, rnd)
                elif ths:
                    for _ in range(rnd.choice([1, 1, 2, 3])): near(ev, ths, rnd)
                if any(x < 0 or (s and x == 0) for x, s in ((ev.num(q), s) for q, s in facts)): continue
            if guard is not TRUE and not ev.cond(guard): continue
            x = ev.num(p)
        except (Undefined, OverflowError): continue
        if (x < 0 or (strict and x == 0)) and not ev.opaque:
            return dict(at={repr(V.ATOMS[i]): str(v) for i, v in sorted(ev.fixed.items())}, value=str(x))
    return None
