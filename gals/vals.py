"""Abstract value domain of the value-flow analysis.

Numbers are value-numbered expressions with an exact polynomial normal form over interned atoms (initial memory
contents, induction variables, named symbols, uninterpreted function results, gated joins).  Conditions are
decision diagrams over canonical threshold comparisons.  No solver is involved: equality is decided by normal form,
inequality facts by interval/bound substitution."""
import math
from fractions import Fraction

class Unsupported(Exception):
    """the analysis met a construct it has no transfer function for"""
class TooLarge(Unsupported):
    """a normal form beyond the size limits"""

# ------------------------------------------------------------------ atoms
class Atom:
    __slots__ = ('id', 'kind', 'args', 'isint')
    def __repr__(self): return show_atom(self)

_atoms = {}
ATOMS = []
SQRT = set()
ITES = set()
INVS = set()

def atom(kind, args, isint=False):
    key = (kind, args)
    a = _atoms.get(key)
    if a is None:
        a = Atom(); a.id = len(ATOMS); a.kind = kind; a.args = args; a.isint = isint
        _atoms[key] = a; ATOMS.append(a)
        if kind == 'sqrt': SQRT.add(a.id)
        elif kind == 'ite': ITES.add(a.id)
        elif kind == 'inv': INVS.add(a.id)
    return a

# ------------------------------------------------------------------ polynomials: dict mono -> int|Fraction
def nrm(c):
    if type(c) is Fraction and c.denominator == 1: return c.numerator
    return c

def mono_mul(x, y):
    if not x: return y
    if not y: return x
    out = []; i = j = 0; nx = len(x); ny = len(y)
    while i < nx and j < ny:
        a, e = x[i]; b, f = y[j]
        if a == b:
            if e + f: out.append((a, e + f))
            i += 1; j += 1
        elif a < b: out.append(x[i]); i += 1
        else: out.append(y[j]); j += 1
    if i < nx: out.extend(x[i:])
    if j < ny: out.extend(y[j:])
    return tuple(out)

def padd(p, q, s=1):
    if len(q) > len(p) and s == 1: p, q = q, p
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + s * c
        if v: r[m] = nrm(v)
        else: r.pop(m, None)
    return r

def _fixup(r):
    """sqrt(x)^2 -> x"""
    if not SQRT: return r
    bad = [m for m in r if any(a in SQRT and (e >= 2 or e <= -2) for a, e in m)]
    if not bad: return r
    out = {m: c for m, c in r.items() if m not in set(bad)}
    for m in bad:
        q = {(): r[m]}
        for a, e in m:
            if a in SQRT and abs(e) >= 2:
                arg = full(ATOMS[a].args[0])
                k, odd = divmod(abs(e), 2)
                for _ in range(k):
                    q = pmul(q, arg) if e > 0 else full(div(mk(q), mk(arg)))
                if odd: q = pmul(q, {((a, 1 if e > 0 else -1),): 1})
            else: q = pmul(q, {((a, e),): 1})
        out = padd(out, q)
    return out

def pmul(p, q):
    if not p or not q: return {}
    if len(p) > len(q): p, q = q, p
    if len(p) == 1 and () in p:
        c = p[()]
        if c == 1: return dict(q)
        return {m: nrm(c * v) for m, v in q.items()}
    if len(p) * len(q) > 4000000: raise TooLarge('normal form too large')
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = mono_mul(m1, m2)
            r[m] = r.get(m, 0) + c1 * c2
    r = {m: nrm(c) for m, c in r.items() if c}
    return _fixup(r)

# ------------------------------------------------------------------ numbers
class Num:
    __slots__ = ('id', 'op', 'a', 'b', 'poly', '_full', '_at')
    def __repr__(self): return show(self)
    # convenience for the specifications
    def __add__(s, o): return add(s, lift(o))
    __radd__ = __add__
    def __sub__(s, o): return sub(s, lift(o))
    def __rsub__(s, o): return sub(lift(o), s)
    def __mul__(s, o): return mul(s, lift(o))
    __rmul__ = __mul__
    def __truediv__(s, o): return div(s, lift(o))
    def __rtruediv__(s, o): return div(lift(o), s)
    def __neg__(s): return neg(s)

NUMS = []
_polyn = {}
_lazyn = {}
SMALL = 60

def _new(op, a, b, poly):
    n = Num(); n.id = len(NUMS); n.op = op; n.a = a; n.b = b; n.poly = poly; n._full = poly; n._at = None
    NUMS.append(n)
    return n

def mk(poly):
    """canonical node of a polynomial"""
    k = frozenset(poly.items())
    n = _polyn.get(k)
    if n is None:
        n = _new('p', None, None, poly); _polyn[k] = n
    return n

def const(c):
    c = nrm(c) if not isinstance(c, int) else c
    return mk({(): c} if c else {})
ZERO = const(0)
ONE = const(1)
def var(at): return mk({((at.id, 1),): 1})
def sym(name, isint=False): return var(atom('sym', (name,), isint))
def lift(x):
    if isinstance(x, Num): return x
    if isinstance(x, float): return const(rat(x))
    return const(x)

def lazy(op, a, b):
    if op in ('add', 'mul') and a.id > b.id: a, b = b, a
    k = (op, a.id, b.id)
    n = _lazyn.get(k)
    if n is None:
        n = _new(op, a, b, None); _lazyn[k] = n
    return n

def add(a, b):
    pa, pb = a.poly, b.poly
    if pa is not None and not pa: return b
    if pb is not None and not pb: return a
    if pa is not None and pb is not None and len(pa) + len(pb) <= 2 * SMALL:
        r = padd(pa, pb)
        return mk(r)
    return lazy('add', a, b)
def neg(a): return mul(a, const(-1))
def sub(a, b):
    if a is b: return ZERO
    return add(a, neg(b))
def mul(a, b):
    pa, pb = a.poly, b.poly
    if pa is not None:
        if not pa: return ZERO
        if len(pa) == 1 and pa.get(()) == 1: return b
    if pb is not None:
        if not pb: return ZERO
        if len(pb) == 1 and pb.get(()) == 1: return a
    if pa is not None and pb is not None and len(pa) * len(pb) <= SMALL:
        return mk(pmul(pa, pb))
    return lazy('mul', a, b)

def inverse(b):
    p = full(b)
    if not p: raise Unsupported('division by the constant zero')
    if len(p) == 1:
        (m, c), = p.items()
        r = {tuple((a, -e) for a, e in m): nrm(Fraction(1) / c)}
        return mk(_fixup(r))
    # normalise: leading coefficient 1
    lead = max(p)
    c = p[lead]
    q = mk({m: nrm(Fraction(v) / c) for m, v in p.items()})
    return mk({((atom('inv', (q,)).id, 1),): nrm(Fraction(1) / c)})

def div(a, b):
    if b is ONE: return a
    pa = a.poly
    if pa is not None and not pa: return ZERO
    pb = full(b)
    if len(pb) > 1:
        if a is b: return ONE
        q = exact_div(full(a), pb) if len(full(a)) <= 4 * SMALL else None
        if q is not None: return mk(q)
    return mul(a, inverse(b))

def exact_div(p, q):
    """multivariate exact division, or None"""
    if not q: return None
    lm = max(q, key=_grade); lc = q[lm]
    r = dict(p); out = {}
    for _ in range(4 * len(p) + 8):
        if not r: return out
        m = max(r, key=_grade)
        d = mono_mul(m, tuple((a, -e) for a, e in lm))
        if any(e < 0 and not _hasneg(m, a) for a, e in d): return None
        c = nrm(Fraction(r[m]) / lc)
        out[d] = nrm(out.get(d, 0) + c)
        r = padd(r, pmul(q, {d: c}), -1)
    return None
def _hasneg(m, a): return any(x == a and e < 0 for x, e in m)
def _grade(m): return (sum(e for _, e in m), m)

import sys
sys.setrecursionlimit(100000)

def full(n):
    """complete polynomial normal form"""
    if n._full is not None: return n._full
    if n.id in BIG: raise TooLarge('normal form too large')
    try: return _full(n)
    except TooLarge: BIG.add(n.id); raise
BIG = set()
def _full(n):
    # flatten sums
    if n.op == 'add':
        terms = []; st = [n]
        while st:
            x = st.pop()
            if x._full is None and x.op == 'add': st.append(x.a); st.append(x.b)
            else: terms.append(x)
        r = {}
        for t in terms:
            for m, c in full(t).items():
                v = r.get(m, 0) + c
                r[m] = v
        r = {m: nrm(c) for m, c in r.items() if c}
    else:
        r = pmul(full(n.a), full(n.b))
    if len(r) > 400000: raise TooLarge('normal form too large')
    n._full = r
    return r

def canon(n):
    """node whose identity is the normal form"""
    if n.op == 'p': return n
    return mk(full(n))

def cval(n):
    """constant value or None"""
    p = n.poly
    if p is None: return None
    if not p: return 0
    if len(p) == 1 and () in p: return p[()]
    return None

def isint(n):
    while n.op != 'p' and n._full is None:
        if not isint(n.b): return False
        n = n.a
    p = full(n)
    return all((isinstance(c, int)) and all(ATOMS[a].isint and e > 0 for a, e in m) for m, c in p.items())

def atoms_of(n, deep=True):
    """ids of all atoms in n (deep: also inside atoms)"""
    if n._at is not None: return n._at
    if n.op != 'p':
        s = atoms_of(n.a) | atoms_of(n.b)
    else:
        s = set()
        for m in n.poly:
            for a, _ in m: s.add(a)
        t = set(s)
        for a in s: t |= atom_deep(ATOMS[a])
        s = t
    n._at = frozenset(s)
    return n._at

_ad = {}
def atom_deep(a):
    r = _ad.get(a.id)
    if r is None:
        r = set([a.id])
        for x in a.args: r |= deep_any(x)
        r = frozenset(r); _ad[a.id] = r
    return r
def deep_any(x):
    if isinstance(x, Num): return atoms_of(x)
    if isinstance(x, Cond): return x.atoms()
    if isinstance(x, Ptr):
        r = set()
        for y in x.idx: r |= atoms_of(y)
        return r | atoms_of(x.off)
    if isinstance(x, tuple):
        r = set()
        for y in x: r |= deep_any(y)
        return r
    if isinstance(x, Atom): return atom_deep(x)
    if isinstance(x, (PIte,)): return x.c.atoms() | deep_any(x.a) | deep_any(x.b)
    if isinstance(x, Term):
        r = set()
        for y in x.args: r |= deep_any(y)
        return r
    return frozenset()

# ------------------------------------------------------------------ constants
PI = None
def pi():
    return var(atom('pi', ()))
_PIK = {}
for _n in range(1, 13):
    for _d in (1, 2, 3, 4, 5, 6, 8, 12):
        _PIK.setdefault(math.pi * _n / _d, Fraction(_n, _d))
        _PIK.setdefault(_n * math.pi / _d, Fraction(_n, _d))
_PIQ = [Fraction(20, 63) * k for k in (1, 2, Fraction(1, 2))]
def rat(f):
    if f == int(f) if f == f and abs(f) != float('inf') else False: return int(f)
    g = Fraction(f).limit_denominator(5000)
    if float(g) == f: return g
    return Fraction(repr(f))
def fconst(f):
    if f != f or abs(f) == float('inf'): return var(atom('fpconst', (repr(f),)))
    s = -1 if f < 0 else 1
    if abs(f) in _PIK: return mul(pi(), const(s * _PIK[abs(f)]))
    for q in _PIQ:      # a folded product of pi with a decimal constant of the sources
        if abs(abs(f) / (math.pi * float(q)) - 1) < 1e-15: return mul(pi(), const(s * q))
    return const(rat(f))

# ------------------------------------------------------------------ functions
def fn(name, *args, isint=False):
    def small(a):
        if not isinstance(a, Num) or a.op == 'p': return a
        try: return canon(a) if len(full(a)) < 2000 else a
        except TooLarge: return a
    args = tuple(map(small, args))
    return var(atom(name, args, isint))

def floor_(x):
    p = full(x)
    ip = {}; rest = {}
    for m, c in p.items():
        if all(ATOMS[a].isint and e > 0 for a, e in m):
            k = math.floor(c)
            if m == (): 
                if k: ip[m] = k
                if c - k: rest[m] = c - k
            elif isinstance(c, int): ip[m] = c
            else: rest[m] = c
        else: rest[m] = c
    if not rest: return mk(ip)
    r = mk(rest)
    lo = FACTS.prove_nonneg(r)
    if lo and FACTS.prove_nonneg(sub(ONE, r), strict=True): return mk(ip)
    if len(rest) > 1 or () in rest or not lo:
        if lo and FACTS.prove_nonneg(sub(const(2), r), strict=True): return add(mk(ip), ite(le(ONE, r), ONE, ZERO))
        if not lo and FACTS.prove_nonneg(add(r, ONE)) and FACTS.prove_nonneg(sub(ONE, r), strict=True): return add(mk(ip), ite(lt(r, ZERO), const(-1), ZERO))
    if len(rest) == 1:      # a single gated join: distribute when that removes the floor
        (m, k), = rest.items()
        if len(m) == 1 and m[0][1] == 1 and m[0][0] in ITES:
            A = ATOMS[m[0][0]].args
            fa, fb = floor_(mul(const(k), A[1])), floor_(mul(const(k), A[2]))
            if not any(ATOMS[a].kind == 'floor' for x in (fa, fb) for mm in full(x) for a, _ in mm): return add(mk(ip), ite(A[0], fa, fb))
    return add(mk(ip), fn('floor', r, isint=True))

def fabs_(x):
    c = cval(x)
    if c is not None: return const(abs(c))
    if FACTS.prove_nonneg(x): return x
    if FACTS.prove_nonneg(neg(x)): return neg(x)
    # |p| = |-p|
    try: p = full(x)
    except TooLarge: return fn('fabs', x)
    lead = max(p)
    if p[lead] < 0: x = neg(x)
    return fn('fabs', x)

def sqrt_(x):
    c = cval(x)
    if c is not None and c >= 0:
        f = Fraction(c)
        a, b = math.isqrt(f.numerator), math.isqrt(f.denominator)
        if a * a == f.numerator and b * b == f.denominator: return const(Fraction(a, b))
    return fn('sqrt', x)

# ------------------------------------------------------------------ pointers, terms, aggregates
class Ptr:
    """root object, indices that select the instance, byte offset"""
    __slots__ = ('root', 'idx', 'off')
    def __init__(s, root, idx, off): s.root, s.idx, s.off = root, idx, off
    def key(s): return (s.root, tuple(x.id for x in s.idx), s.off.id)
    def __eq__(s, o): return isinstance(o, Ptr) and s.key() == o.key()
    def __hash__(s): return hash(s.key())
    def __repr__(s): return '&%s%s+%r' % (show_root(s.root), list(s.idx) if s.idx else '', s.off)
    def plus(s, o): return Ptr(s.root, s.idx, add(s.off, o))
NULL = Ptr(('null',), (), ZERO)

class PIte:
    __slots__ = ('c', 'a', 'b')
    def __init__(s, c, a, b): s.c, s.a, s.b = c, a, b
    def __eq__(s, o): return isinstance(o, PIte) and s.c == o.c and s.a == o.a and s.b == o.b
    def __hash__(s): return hash((s.c, s.a, s.b))
    def __repr__(s): return 'ite(%r,%r,%r)' % (s.c, s.a, s.b)

class Term:
    """uninterpreted non-numeric value (strings, handles, function results)"""
    __slots__ = ('name', 'args', '_h')
    def __init__(s, name, args=()): s.name, s.args = name, tuple(args); s._h = None
    def __eq__(s, o): return isinstance(o, Term) and s.name == o.name and s.args == o.args
    def __hash__(s):
        if s._h is None: s._h = hash((s.name, s.args))
        return s._h
    def __repr__(s): return '%s(%s)' % (s.name, ', '.join(map(repr, s.args))) if s.args else str(s.name)

class Agg:
    __slots__ = ('v',)
    def __init__(s, v): s.v = v
    def __repr__(s): return 'agg%r' % (s.v,)

class Undef:
    def __repr__(s): return 'undef'
    def __eq__(s, o): return isinstance(o, Undef)
    def __hash__(s): return 77
UNDEF = Undef()

def show_root(r):
    if isinstance(r, tuple):
        if r[0] == 'of': return '*(%s)' % show_root(r[1])
        return ':'.join(str(show_root(x)) if isinstance(x, tuple) else str(x) for x in r)
    return str(r)

# ------------------------------------------------------------------ conditions (ordered decision diagrams)
class Cond:
    __slots__ = ('id', 'v', 'hi', 'lo', '_at', '_sup')
    def __repr__(s): return show_cond(s)
    def atoms(s):
        if s._at is None:
            r = set()
            for v in s.support(): r |= var_atoms(v)
            s._at = frozenset(r)
        return s._at
    def support(s):
        if s._sup is None:
            if s.v is None: s._sup = frozenset()
            else: s._sup = s.hi.support() | s.lo.support() | {s.v}
        return s._sup

_conds = {}
def _mkc(v, hi, lo):
    # a true 'r <= t' makes every later threshold of the same r true
    while hi.v is not None and v is not None and hi.v[0] == v[0]: hi = hi.hi
    if hi is lo: return hi
    # the earlier threshold implies the later one, which decides alone
    if lo.v is not None and lo.v[0] == v[0] and lo.hi is hi: return lo
    k = (v, hi.id, lo.id)
    c = _conds.get(k)
    if c is None:
        c = Cond(); c.id = len(_conds) + 2; c.v = v; c.hi = hi; c.lo = lo; c._at = None; c._sup = None
        _conds[k] = c
    return c
def _leaf(i):
    c = Cond(); c.id = i; c.v = None; c.hi = c.lo = None; c._at = frozenset(); c._sup = frozenset()
    return c
TRUE = _leaf(1); FALSE = _leaf(0)

RS = []          # comparison left hand sides: Num (threshold comparison) or Atom (opaque boolean)
_rs = {}
def rid(x):
    k = ('n', x.id) if isinstance(x, Num) else ('a', x.id)
    i = _rs.get(k)
    if i is None:
        i = len(RS); _rs[k] = i; RS.append(x)
    return i
def var_atoms(v):
    x = RS[v[0]]
    return atoms_of(x) if isinstance(x, Num) else atom_deep(x)

_ic = {}
def cite(f, g, h):
    """if f then g else h"""
    if f is TRUE: return g
    if f is FALSE: return h
    if g is h: return g
    if g is TRUE and h is FALSE: return f
    k = (f.id, g.id, h.id)
    r = _ic.get(k)
    if r is not None: return r
    v = min(x.v for x in (f, g, h) if x.v is not None)
    def co(x, b):
        if x.v is None: return x
        if x.v == v: return x.hi if b else x.lo
        if b and x.v[0] == v[0]:      # later threshold of the same expression
            while x.v is not None and x.v[0] == v[0]: x = x.hi
        return x
    r = _mkc(v, cite(co(f, 1), co(g, 1), co(h, 1)), cite(co(f, 0), co(g, 0), co(h, 0)))
    _ic[k] = r
    return r
_cc = {}
def ccare(f, c):
    """a simpler condition that agrees with f wherever c holds"""
    if f.v is None or c is TRUE or c is FALSE: return f
    if f is c: return TRUE
    k = (f.id, c.id)
    r = _cc.get(k)
    if r is None:
        v = min(f.v, c.v)
        def co(x, b):
            if x.v is None: return x
            if x.v == v: return x.hi if b else x.lo
            if b and x.v[0] == v[0]:
                while x.v is not None and x.v[0] == v[0]: x = x.hi
            return x
        c1, c0 = co(c, 1), co(c, 0)
        if c1 is FALSE: r = ccare(co(f, 0), c0)
        elif c0 is FALSE: r = ccare(co(f, 1), c1)
        elif f.v != v and co(f, 1) is f: r = ccare(f, cor(c1, c0))
        else: r = _mkc(v, ccare(co(f, 1), c1), ccare(co(f, 0), c0))
        _cc[k] = r
    return r
def cand(a, b): return cite(a, b, FALSE)
def cor(a, b): return cite(a, TRUE, b)
def cnot(a): return cite(a, FALSE, TRUE)
def cxor(a, b): return cite(a, cnot(b), b)
def implies(a, b): return cand(a, cnot(b)) is FALSE

def crestrict(c, v, b):
    """cofactor of c for variable v = b (also settles implied thresholds of the same expression)"""
    if c.v is None: return c
    if c.v[0] == v[0]:
        if c.v == v: return crestrict(c.hi if b else c.lo, v, b)
        if b and c.v > v: return crestrict(c.hi, v, b)
        if not b and c.v < v: return crestrict(c.lo, v, b)
    nested = any(var_atoms(w) & ITES for w in c.support())
    k = (c.id, v, b, FACTS.ver if nested else 0)
    r = _cr.get(k)
    if r is None:
        r = cite(_vrestrict1(c.v, v, b), crestrict(c.hi, v, b), crestrict(c.lo, v, b))
        _cr[k] = r
    return r
_cr = {}
def _vrestrict1(w, v, b):
    """a comparison whose operand contains joins: the operand under v = b"""
    x = RS[w[0]]
    if isinstance(x, Num) and (atoms_of(x) & ITES):
        y = nrestrict(x, v, b)
        if y is not x: return compare(sub(y, const(w[1])), w[2] == 0)
    return _mkc(w, TRUE, FALSE)

def const_leaves(n, depth=6):
    if cval(n) is not None: return True
    p = full(n)
    r = [m for m in p if m != ()]
    if depth == 0 or len(r) != 1 or len(r[0]) != 1 or r[0][0][1] != 1 or r[0][0][0] not in ITES: return False
    A = ATOMS[r[0][0][0]].args
    return const_leaves(A[1], depth - 1) and const_leaves(A[2], depth - 1)

def compare(p, strict):
    """p < 0 (strict) or p <= 0"""
    try: q = full(p)
    except TooLarge: return _mkc((rid(p), 0, 0 if strict else 1), TRUE, FALSE)
    c = q.get((), 0)
    r = {m: v for m, v in q.items() if m != ()}
    if not r:
        return TRUE if (c < 0 or (c == 0 and not strict)) else FALSE
    if len(r) < 60:
        if strict:
            if FACTS.prove_nonneg(p): return FALSE
            if FACTS.prove_nonneg(neg(p), strict=True): return TRUE
        else:
            if FACTS.prove_nonneg(neg(p)): return TRUE
            if FACTS.prove_nonneg(p, strict=True): return FALSE
    # k|x| + rest: compare both signs
    fb = [m for m in r if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == 'fabs']
    if len(fb) == 1 and sum(1 for m in r if any(ATOMS[a].kind == 'fabs' for a, _ in m)) == 1:
        k = r[fb[0]]; x = mul(const(k), ATOMS[fb[0][0][0]].args[0])
        rest = mk({m: v for m, v in q.items() if m != fb[0]})
        u, l = compare(add(rest, x), strict), compare(sub(rest, x), strict)
        return cand(u, l) if k > 0 else cor(u, l)
    # +-floor(x) + integer: a comparison of x itself may be decided
    fl = [m for m in r if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == 'floor' and r[m] in (1, -1)]
    if len(fl) == 1 and all(m == fl[0] or isinstance(v, int) and all(ATOMS[a].isint and e > 0 for a, e in m) for m, v in q.items()):
        x = ATOMS[fl[0][0][0]].args[0]
        rest = mk({m: v for m, v in q.items() if m != fl[0]})
        if r[fl[0]] == 1: f = compare(add(rest, x if strict else sub(x, ONE)), True)
        else: f = compare(sub(add(rest, ONE) if strict else rest, x), False)
        if f is TRUE or f is FALSE: return f
    # k ite(c, a, b) + const with constant leaves: decided by c
    if len(r) == 1:
        (m, k), = r.items()
        if len(m) == 1 and m[0][1] == 1 and m[0][0] in ITES:
            A = ATOMS[m[0][0]].args
            if const_leaves(A[1]) and const_leaves(A[2]):
                return cite(A[0], compare(add(mul(const(k), A[1]), const(c)), strict), compare(add(mul(const(k), A[2]), const(c)), strict))
    # few joins in a small expression: the comparison is a function of their conditions
    if len(r) <= 8:
        js = sorted({a for m in r for a, _ in m if a in ITES})
        if len(js) == 1:
            A = ATOMS[js[0]].args
            deep = atom_deep(ATOMS[js[0]])
            if len(deep & ITES) <= 4 and all(len(full(x)) <= 8 for x in A[1:]) and len(A[0].support()) <= 6:
                f = lambda x: compare(_rebuild(q, lambda a: x if a.id == js[0] else var(a)), strict)
                return cite(A[0], f(A[1]), f(A[2]))
    lead = r[max(r)]
    flip = lead < 0
    allint = all(ATOMS[a].isint and e > 0 for m in r for a, e in m)
    if allint:
        den = 1
        for v in r.values():
            if isinstance(v, Fraction): den = den * v.denominator // math.gcd(den, v.denominator)
        g = 0
        for v in r.values(): g = math.gcd(g, int(v * den))
        s = Fraction(den, g)
    else:
        s = Fraction(1) / abs(lead)
    if flip: s = -s
    R = mk({m: nrm(v * s) for m, v in r.items()})
    t = nrm(-c * s)
    if not flip:      # R < t or R <= t
        th = (t, 0 if strict else 1)
        if allint:
            m = math.floor(t)
            if strict and m == t: m -= 1
            th = (m, 1)
        return _mkc((rid(R),) + th, TRUE, FALSE)
    # R > t or R >= t
    th = (t, 1 if strict else 0)
    if allint:
        m = math.floor(t) if strict else math.ceil(t) - 1
        th = (m, 1)
    return cnot(_mkc((rid(R),) + th, TRUE, FALSE))

def lt(a, b): return compare(sub(a, b), True)
def le(a, b): return compare(sub(a, b), False)
def eq(a, b):
    d = sub(a, b)
    p = full(d)
    if not p: return TRUE
    if FACTS.prove_nonneg(d, strict=True) or FACTS.prove_nonneg(neg(d), strict=True): return FALSE
    return cand(compare(d, False), compare(neg(d), False))
def boolatom(a): return _mkc((rid(a), 0, 0), TRUE, FALSE)

def one_path(c):
    """some satisfying assignment [(var, bool)], or None"""
    out = []
    while c.v is not None:
        if c.hi is not FALSE: out.append((c.v, True)); c = c.hi
        else: out.append((c.v, False)); c = c.lo
    return out if c is TRUE else None

def literals(c):
    """if c is a conjunction of literals return them, else the implied subset found on the spine"""
    out = []
    while c.v is not None:
        if c.lo is FALSE: out.append((c.v, True)); c = c.hi
        elif c.hi is FALSE: out.append((c.v, False)); c = c.lo
        else: break
    return out

def lit_fact(v, b):
    """literal -> (poly, strict): poly >= 0 (or > 0)"""
    x = RS[v[0]]
    if not isinstance(x, Num) or x.id in BIG: return None
    t, e = v[1], v[2]
    if b:      # x <= t or x < t
        return (sub(const(t), x), e == 0)
    f = sub(x, const(t))
    if isint(x): return (sub(f, ONE) if e == 1 else f, False)
    return (f, e == 1)

# ------------------------------------------------------------------ gated joins
def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if isinstance(a, Undef): return b
    if isinstance(b, Undef): return a
    if isinstance(a, Num) and isinstance(b, Num):
        # simplify branches under the literals of c
        for v, bb in literals(c): a = nrestrict(a, v, bb)
        for v, bb in literals(cnot(c)): b = nrestrict(b, v, bb)
        if a is b: return a
        # a boundary case that the facts reduce to an equation under which both sides agree
        if c.hi is TRUE and c.lo is FALSE or c.hi is FALSE and c.lo is TRUE:
            for bb, x in ((c.hi is TRUE, b), (c.hi is not TRUE, a)):
                if a.op != 'p' or b.op != 'p' or len(a.poly) > 8 or len(b.poly) > 8: break
                s = pinned(lit_fact(c.v, bb))
                if s is not None and s(a) is s(b): return x
        ii = isint(a) and isint(b)
        return var(atom('ite', (c, a, b), ii))
    if isinstance(a, Cond) and isinstance(b, Cond): return cite(c, a, b)
    if isinstance(a, (Ptr, PIte)) and isinstance(b, (Ptr, PIte)):
        if a == b: return a
        return PIte(c, a, b)
    if isinstance(a, Agg) and isinstance(b, Agg): return Agg([ite(c, x, y) for x, y in zip(a.v, b.v)])
    if a == b: return a
    if isinstance(a, Term) or isinstance(b, Term): return Term('ite', (c, a, b))
    raise Unsupported('join of %r and %r' % (a, b))

_nr = {}
def nrestrict(n, v, b):
    """value of n when the comparison v has outcome b"""
    if not isinstance(n, Num): return vrestrict(n, v, b)
    if not (atoms_of(n) & ITES): return n
    k = (n.id, v, b, FACTS.ver)
    r = _nr.get(k)
    if r is None:
        if n.op != 'p':
            x, y = nrestrict(n.a, v, b), nrestrict(n.b, v, b)
            r = add(x, y) if n.op == 'add' else mul(x, y)
        else:
            r = _rebuild(n.poly, lambda a: _arestrict(a, v, b))
        _nr[k] = r
    return r
def vrestrict(x, v, b):
    if isinstance(x, Cond): return crestrict(x, v, b)
    if isinstance(x, Num): return nrestrict(x, v, b)
    if isinstance(x, Ptr): return Ptr(x.root, tuple(nrestrict(y, v, b) for y in x.idx), nrestrict(x.off, v, b))
    if isinstance(x, PIte):
        return ite(crestrict(x.c, v, b), vrestrict(x.a, v, b), vrestrict(x.b, v, b))
    if isinstance(x, Term):
        if x.name == 'ite': return ite(crestrict(x.args[0], v, b), vrestrict(x.args[1], v, b), vrestrict(x.args[2], v, b))
        return Term(x.name, [vrestrict(y, v, b) for y in x.args])
    if isinstance(x, tuple): return tuple(vrestrict(y, v, b) for y in x)
    return x
def _arestrict(a, v, b):
    if not (atom_deep(a) & ITES): return var(a)
    if a.kind == 'ite':
        return ite(crestrict(a.args[0], v, b), nrestrict(a.args[1], v, b), nrestrict(a.args[2], v, b))
    return rebuild_atom(a, tuple(vrestrict(x, v, b) for x in a.args))

def ncare(n, g):
    """a value that agrees with n wherever g holds"""
    if not isinstance(n, Num) or g is TRUE or not (atoms_of(n) & ITES): return n
    def f(a):
        if a.kind != 'ite': return var(a)
        c = ccare(a.args[0], g)
        if c is TRUE: return ncare(a.args[1], g)
        if c is FALSE: return ncare(a.args[2], g)
        return ite(c, ncare(a.args[1], cand(g, c)), ncare(a.args[2], cand(g, cnot(c))))
    return _rebuild(full(n), f)

def rebuild_atom(a, args):
    """value of the atom with new arguments (re-applies the simplification rules)"""
    if args == a.args: return var(a)
    k = a.kind
    if k == 'ite': return ite(*args)
    if k == 'inv': return inverse(args[0])
    if k == 'floor': return floor_(args[0])
    if k == 'fabs': return fabs_(args[0])
    if k == 'sqrt': return sqrt_(args[0])
    if k == 'init':
        h = REBUILD_INIT
        if h is not None: return h(args)
    return var(atom(k, args, a.isint))
REBUILD_INIT = None

def _rebuild(poly, f):
    out = ZERO
    cache = {}
    acc = {}
    for m, c in poly.items():
        t = const(c)
        keep = []
        changed = False
        for a, e in m:
            x = cache.get(a)
            if x is None:
                x = f(ATOMS[a]); cache[a] = x
            if x.op == 'p' and x.poly == {((a, 1),): 1}:
                keep.append((a, e))
            else:
                changed = True
                for _ in range(abs(e)): t = mul(t, x) if e > 0 else div(t, x)
        if not changed: acc[m] = c
        else:
            if keep: t = mul(t, mk({tuple(keep): 1}))
            out = add(out, t)
    return add(mk(acc), out) if acc else out

# ------------------------------------------------------------------ substitution
class Subst:
    """replace atoms (by id) everywhere"""
    def __init__(self, m):
        self.m = m; self.keys = frozenset(m); self.memo = {}; self.am = {}; self.cm = {}
    def __call__(self, x):
        if isinstance(x, Num): return self.num(x)
        if isinstance(x, Cond): return self.cond(x)
        if isinstance(x, Ptr):
            if not (deep_any(x) & self.keys): return x
            return Ptr(x.root, tuple(self.num(y) for y in x.idx), self.num(x.off))
        if isinstance(x, PIte): return ite(self.cond(x.c), self(x.a), self(x.b))
        if isinstance(x, Term):
            if not (deep_any(x) & self.keys): return x
            if x.name == 'ite': return ite(self(x.args[0]), self(x.args[1]), self(x.args[2]))
            return Term(x.name, [self(y) for y in x.args])
        if isinstance(x, tuple): return tuple(self(y) for y in x)
        if isinstance(x, Agg): return Agg([self(y) for y in x.v])
        return x
    def num(self, n):
        if not (atoms_of(n) & self.keys): return n
        r = self.memo.get(n.id)
        if r is None:
            if n.op != 'p':
                x, y = self.num(n.a), self.num(n.b)
                r = add(x, y) if n.op == 'add' else mul(x, y)
            else: r = _rebuild(n.poly, self.atom)
            self.memo[n.id] = r
        return r
    def atom(self, a):
        if a.id in self.m: return self.m[a.id]
        if not (atom_deep(a) & self.keys): return var(a)
        r = self.am.get(a.id)
        if r is None:
            r = rebuild_atom(a, tuple(self(x) for x in a.args)); self.am[a.id] = r
        return r
    def cond(self, c):
        if c.v is None or not (c.atoms() & self.keys): return c
        r = self.cm.get(c.id)
        if r is None:
            r = cite(self.var(c.v), self.cond(c.hi), self.cond(c.lo)); self.cm[c.id] = r
        return r
    def var(self, v):
        x = RS[v[0]]
        if isinstance(x, Num):
            if not (atoms_of(x) & self.keys): return _mkc(v, TRUE, FALSE)
            return compare(sub(self.num(x), const(v[1])), v[2] == 0)
        y = self.atom(x)
        if isinstance(y, Cond): return y
        if isinstance(y, Num):
            p = y.poly
            if len(p) == 1:
                (m, c), = p.items()
                if c == 1 and len(m) == 1 and m[0][1] == 1: return boolatom(ATOMS[m[0][0]])
            return cnot(eq(y, ZERO))
        return _mkc(v, TRUE, FALSE)

# ------------------------------------------------------------------ facts
class Facts:
    def __init__(self):
        self.lo = {}; self.hi = {}      # atom id -> list of (bound Num, strict)
        self.stack = []
        self.memo = {}
        self.busy = 0
        self.pos = []                    # (Num, strict): whole expressions known >= 0
    ver = 0; _next = 0
    def bump(self):
        Facts._next += 1; self.ver = Facts._next
    def push(self):
        self.stack.append(({k: list(v) for k, v in self.lo.items()}, {k: list(v) for k, v in self.hi.items()}, list(self.pos), self.memo, self.ver))
    def pop(self):
        self.lo, self.hi, self.pos, self.memo, self.ver = self.stack.pop()
    def ge(self, p, strict=False):
        """assume p >= 0 (p > 0)"""
        self.memo = {}
        self.bump()
        q = full(p)
        self.pos.append((q, strict))
        for m, c in list(q.items()):
            if len(m) == 1 and m[0][1] == 1:
                a = m[0][0]
                if any(a == x for mm in q if mm != m for x, _ in mm): continue
                rest = mk({mm: nrm(Fraction(-v) / c) for mm, v in q.items() if mm != m})
                if any(a in atom_deep(ATOMS[x]) for x in atoms_of(rest)): continue
                if c > 0: self.lo.setdefault(a, []).insert(0, (rest, strict))
                else: self.hi.setdefault(a, []).insert(0, (rest, strict))
    def prove_nonneg(self, p, strict=False, depth=7):
        q = full(p)
        if not q: return not strict
        if len(q) > 60: return False
        k = (frozenset(q.items()), strict)
        r = self.memo.get(k)
        if r is None:
            self.steps = 400
            r = self._shifted(q, strict) or self._nn(q, strict, depth, frozenset())
            self.memo[k] = r
        return r
    def _shifted(self, q, strict):
        """every atom moved to its constant lower bound: all coefficients nonnegative"""
        sh = {}
        for m in q:
            for a, e in m:
                if a in sh: continue
                A = ATOMS[a]
                if A.kind in ('fabs', 'sqrt', 'pi'): sh[a] = 0; continue
                best = None
                for b, st in self.lo.get(a, ()):
                    v = cval(b)
                    if v is not None and (best is None or v > best): best = v
                if best is None or (e < 0 and best < 0): return False
                sh[a] = best
        neg_ = {a for m in q for a, e in m if e < 0}
        r = dict(q)
        for a, c0 in sh.items():
            if c0 == 0 or a in neg_:
                if c0 < 0: return False
                continue
            n = {}
            for m, v in r.items():
                e = dict(m).get(a, 0)
                if e == 0: n[m] = n.get(m, 0) + v; continue
                rest = tuple(x for x in m if x[0] != a)
                for k in range(e + 1):
                    mm = mono_mul(rest, ((a, k),)) if k else rest
                    n[mm] = n.get(mm, 0) + v * math.comb(e, k) * c0 ** (e - k)
            r = n
            if len(r) > 300: return False
        if any(v < 0 for v in r.values()): return False
        return not strict or r.get((), 0) > 0
    def _nn(self, q, strict, depth, seen):
        c = q.get((), 0)
        if len(q) == 0: return not strict
        if len(q) == 1 and () in q: return c > 0 or (c == 0 and not strict)
        if depth <= 0 or self.steps <= 0: return False
        self.steps -= 1
        # direct: all monomials nonnegative
        if c >= 0 and all(v > 0 and self._mono_nn(m, depth) for m, v in q.items() if m):
            if not strict or c > 0: return True
            if any(self._mono_pos(m, depth) for m in q if m): return True
        for f, s in self.pos:
            d = padd(q, f, -1)
            if not d and (s or not strict): return True
            if len(d) == 1 and () in d and (d[()] > 0 or (d[()] == 0 and (s or not strict))): return True
        # eliminate one atom by its bound; the most recently created atoms first
        at = sorted({a for m in q for a, e in m if e == 1 and (a in self.lo or a in self.hi)}, reverse=True)
        for a in at:
            if a in seen: continue
            if any(e != 1 for m in q for x, e in m if x == a): continue
            coef = {}; rest = {}
            for m, v in q.items():
                if any(x == a for x, _ in m): coef[tuple((x, e) for x, e in m if x != a)] = v
                else: rest[m] = v
            for sign, bounds in ((1, self.lo.get(a, ())), (-1, self.hi.get(a, ()))):
                if not bounds: continue
                cc = coef if sign > 0 else {m: -v for m, v in coef.items()}
                if not self._nn(cc, False, depth - 2, seen | {a}): continue
                for bnd, st in bounds[:6]:
                    bp = full(bnd)
                    n = padd(rest, pmul(coef, bp))
                    st2 = strict
                    if strict and st and self._nn(cc, True, depth - 2, seen | {a}): st2 = False
                    if self._nn(n, st2, depth - 1, seen | {a}): return True
        # case split over a join
        for a in sorted({a for m in q for a, _ in m if a in ITES}):
            A = ATOMS[a]
            vs = sorted(A.args[0].support())
            if not vs: continue
            v = vs[0]
            ok = True
            for b in (True, False):
                qq = full(nrestrict(mk(q), v, b))
                if qq == q: ok = False; break
                f = lit_fact(v, b)
                self.push()
                try:
                    if f is not None: self.ge(f[0], f[1])
                    self.busy += 1
                    sv = self.steps
                    if not self._nn(qq, strict, depth - 1, seen): ok = False
                finally:
                    self.busy -= 1
                    self.pop()
                if not ok: break
            if ok: return True
            break
        return False
    def _mono_nn(self, m, depth):
        for a, e in m:
            if e % 2 == 0: continue
            if not self.atom_nn(a, depth): return False
        return True
    def _mono_pos(self, m, depth):
        for a, e in m:
            if not self.atom_pos(a, depth): return False
        return True
    def atom_nn(self, a, depth):
        A = ATOMS[a]
        if A.kind in ('fabs', 'sqrt', 'pi'): return True
        if A.kind == 'inv': return self._nn(full(A.args[0]), True, depth - 2, frozenset())
        return any(self._nn(full(b), False, depth - 3, frozenset([a])) for b, _ in self.lo.get(a, ())[:4])
    def atom_pos(self, a, depth):
        A = ATOMS[a]
        if A.kind == 'pi': return True
        if A.kind == 'inv': return self._nn(full(A.args[0]), True, depth - 2, frozenset())
        return any(self._nn(full(b), not st, depth - 3, frozenset([a])) for b, st in self.lo.get(a, ())[:4])

FACTS = Facts()
class assume:
    """with assume((p, strict), ...): facts p >= 0 / p > 0 inside the block"""
    def __init__(self, *fs): self.fs = fs
    def __enter__(self):
        FACTS.push()
        for f in self.fs:
            if isinstance(f, tuple): FACTS.ge(*f)
            else: FACTS.ge(f)
    def __exit__(self, *a): FACTS.pop()

# ------------------------------------------------------------------ equality
def clear_inv(p):
    """multiply out Inv(..) atoms of a polynomial that is compared with zero"""
    for _ in range(12):
        inv = None; k = 0
        for m in p:
            for a, e in m:
                if a in INVS: inv = a; break
            if inv is not None: break
        if inv is None: return p
        k = max(e for m in p for a, e in m if a == inv)
        lo = min([e for m in p for a, e in m if a == inv] + [0])
        q = full(ATOMS[inv].args[0])
        out = {}
        for m, c in p.items():
            e = next((e for a, e in m if a == inv), 0)
            mm = tuple((a, x) for a, x in m if a != inv)
            t = {mm: c}
            for _ in range(max(k, 0) - e): t = pmul(t, q)
            out = padd(out, t)
        p = out
        if len(p) > 200000: return p
    return p

def first_difference(a, b, limit=256):
    """None when a equals b for every assignment consistent with the facts, else a list of literals (a case) where they differ"""
    if a is b: return None
    if isinstance(a, Num) and isinstance(b, Num):
        return _fd(a, b, [], [limit])
    if isinstance(a, Cond) and isinstance(b, Cond):
        d = cxor(a, b)
        return None if _unsat(d) else one_path(d)
    if isinstance(a, (Ptr,)) and isinstance(b, Ptr):
        if a.root != b.root or len(a.idx) != len(b.idx): return []
        for x, y in zip(a.idx + (a.off,), b.idx + (b.off,)):
            d = first_difference(x, y, limit)
            if d is not None: return d
        return None
    if isinstance(a, PIte) or isinstance(b, PIte):
        p = a if isinstance(a, PIte) else b
        v = sorted(p.c.support())[0]
        for bb in (True, False):
            f = lit_fact(v, bb)
            with assume(*([f] if f else [])):
                d = first_difference(vrestrict(a, v, bb), vrestrict(b, v, bb), limit)
            if d is not None: return [(v, bb)] + d
        return None
    if isinstance(a, Term) and isinstance(b, Term):
        if a == b: return None
        if a.name == 'ite' or b.name == 'ite':
            p = a if a.name == 'ite' else b
            v = sorted(p.args[0].support())[0]
            for bb in (True, False):
                d = first_difference(vrestrict(a, v, bb), vrestrict(b, v, bb), limit)
                if d is not None: return [(v, bb)] + d
            return None
        if a.name == b.name and len(a.args) == len(b.args):
            for x, y in zip(a.args, b.args):
                d = first_difference(x, y, limit)
                if d is not None: return d
            return None
        return []
    return None if a == b else []

def _unsat(c):
    if c is FALSE: return True
    if c is TRUE: return False
    v = c.v
    for b, n in ((True, c.hi), (False, c.lo)):
        if n is FALSE: continue
        f = lit_fact(v, b)
        if f is not None and contradiction(f): continue
        with assume(*([f] if f else [])):
            if not _unsat(n): return False
    return True

def contradiction(f):
    """the fact f = (p, strict) cannot hold: -p > 0 (or >= 0 when strict) is provable"""
    p, s = f
    if FACTS.prove_nonneg(neg(p), strict=not s): return True
    q = full(p)
    if 2 < len(q) <= 40 and all(sum(e for _, e in m) >= 2 for m in q):     # quadratic forms whose sum is a sum of squares
        if s and psd(q, -1): return True
        for g, t in FACTS.pos:
            if not (s or t) or not 2 < len(g) <= 40: continue
            for k in sorted({abs(Fraction(c) / g[m]) for m, c in q.items() if m in g}):
                if psd(padd(q, g, k), -1): return True
    return False

def psd(p, sign=1):
    """sign * p is a positive semidefinite quadratic form in monomials"""
    base = sorted(tuple((a, e // 2) for a, e in m) for m in p if all(e % 2 == 0 for _, e in m))
    if not 0 < len(base) <= 8: return False
    n = len(base); G = [[Fraction(0)] * n for _ in range(n)]; seen = set()
    for i in range(n):
        for j in range(i, n):
            m = mono_mul(base[i], base[j])
            if m in seen: return False
            seen.add(m)
            c = Fraction(p.get(m, 0)) * sign
            G[i][j] = G[j][i] = c if i == j else c / 2
    if any(m not in seen for m in p): return False
    for i in range(n):
        if G[i][i] < 0: return False
        if G[i][i] == 0:
            if any(G[i][j] for j in range(i + 1, n)): return False
            continue
        for j in range(i + 1, n):
            f = G[j][i] / G[i][i]
            for k in range(i, n): G[j][k] -= f * G[i][k]
    return True

def _plain(v):
    return isinstance(RS[v[0]], Num) and all(ATOMS[a].kind in ('sym', 'iv') for a in var_atoms(v))

def _fd(a, b, lits, budget):
    if a is b: return None
    d = sub(a, b)
    p = clear_inv(full(d))
    if not p: return None
    # a join somewhere: split on one of its comparisons
    cand_v = None
    deep = sorted({x for m in p for at, _ in m for x in atom_deep(ATOMS[at]) if x in ITES})
    for x in deep:
        sup = ATOMS[x].args[0].support()
        # prefer comparisons that contain no join themselves
        for v in sorted(sup):
            if not (var_atoms(v) & ITES):
                cand_v = v; break
        if cand_v is not None: break
        if cand_v is None and sup: fallback = sorted(sup)[0]
    if cand_v is None and deep: cand_v = fallback
    if cand_v is not None and not _plain(cand_v):
        # comparisons of plain parameters and indices first: they may pin an index that other conditions mention
        for x in deep[:400]:
            w = next((v for v in sorted(ATOMS[x].args[0].support()) if _plain(v)), None)
            if w is not None: cand_v = w; break
    if cand_v is None:
        return lits
    budget[0] -= 1
    if budget[0] < 0: raise Unsupported('too many cases when comparing two values')
    v = cand_v
    for bb in (True, False):
        f = lit_fact(v, bb)
        if f is not None and contradiction(f): continue
        with assume(*([f] if f else [])):
            x, y = nrestrict(a, v, bb), nrestrict(b, v, bb)
            # both bounds meet: an equation, use it
            s = solve_equalities(lits + [(v, bb)])
            if s is not None: x, y = s(x), s(y)
            s = pinned(f)
            if s is not None: x, y = s(x), s(y)
            r = _fd(x, y, lits + [(v, bb)], budget)
        if r is not None: return r
    return None

def solve_equalities(lits):
    """two opposite literals on one expression that pin it to a value -> substitution of one atom"""
    m = {}
    by = {}
    for v, b in lits: by.setdefault(v[0], []).append((v, b))
    for r, ls in by.items():
        x = RS[r]
        if not isinstance(x, Num) or x.id in BIG: continue
        up = [(v[1], v[2]) for v, b in ls if b]
        dn = [(v[1], v[2]) for v, b in ls if not b]
        if not up or not dn: continue
        u = min(up); l = max(dn)
        if isint(x):
            val = u[0] if u[0] == l[0] + 1 else None
        else:
            val = u[0] if u[0] == l[0] and u[1] == 1 and l[1] == 0 else None
        if val is None: continue
        p = full(x)
        for mm, c in p.items():
            if len(mm) == 1 and mm[0][1] == 1 and abs(c) == 1 and ATOMS[mm[0][0]].kind not in ('ite',):
                a = mm[0][0]
                if any(a == y for m2 in p if m2 != mm for y, _ in m2): continue
                rest = mk({m2: v for m2, v in p.items() if m2 != mm})
                if a in atoms_of(rest): continue
                m[a] = div(sub(const(val), rest), const(c)); break
    return Subst(m) if m else None

def pinned(f):
    """the fact p >= 0 where -p >= 0 is known already: p == 0, solved for one atom"""
    if f is None or f[1]: return None
    p = full(f[0])
    if len(p) > 8: return None
    with assume():
        if not FACTS.prove_nonneg(neg(f[0])): return None
    best = None
    for mm, c in p.items():
        if len(mm) == 1 and mm[0][1] == 1 and abs(c) == 1 and ATOMS[mm[0][0]].kind != 'ite':
            a = mm[0][0]
            if any(a == y for m2 in p if m2 != mm for y, _ in m2): continue
            rest = mk({m2: v for m2, v in p.items() if m2 != mm})
            if a in atoms_of(rest): continue
            if best is None or a > best[0]: best = (a, div(neg(rest), const(c)))
    return Subst({best[0]: best[1]}) if best else None

def equal(a, b): return first_difference(a, b) is None

# ------------------------------------------------------------------ derivative of a normal form
def derivative(n, at):
    """d n / d atom; the atom may only occur polynomially"""
    out = {}
    for m, c in full(n).items():
        e = 0
        for a, x in m:
            if a == at.id: e = x
            elif at.id in atom_deep(ATOMS[a]): raise Unsupported('value depends on %r inside %r' % (at, ATOMS[a]))
        if e:
            mm = tuple((a, x - 1) if a == at.id else (a, x) for a, x in m if not (a == at.id and x == 1))
            out[mm] = nrm(out.get(mm, 0) + c * e)
    return mk({m: c for m, c in out.items() if c})

# ------------------------------------------------------------------ printing
def show_atom(a):
    k = a.kind
    if k == 'sym': return a.args[0]
    if k == 'iv': return a.args[0]
    if k == 'ite': return '(%r ? %r : %r)' % a.args
    if k == 'inv': return '1/(%r)' % a.args
    if k == 'init':
        p = a.args[0]
        return '%s[%s%r]' % (a.args[1] if len(a.args) > 1 else show_root(p.root), ''.join('%r;' % x for x in p.idx), p.off)
    return '%s(%s)' % (k, ', '.join(repr(x) for x in a.args))
def show(n, limit=14):
    if n.op != 'p':
        return '(%s..%s..)' % (n.op, n.id)
    p = n.poly
    if not p: return '0'
    out = []
    for i, (m, c) in enumerate(sorted(p.items(), key=lambda t: (-sum(e for _, e in t[0]), t[0]))):
        if i >= limit: out.append('... %d more terms' % (len(p) - limit)); break
        s = '*'.join((repr(ATOMS[a]) if e == 1 else '%r^%d' % (ATOMS[a], e)) for a, e in m)
        if not s: out.append(str(c))
        elif c == 1: out.append(s)
        elif c == -1: out.append('-' + s)
        else: out.append('%s*%s' % (c, s))
    return ' + '.join(out).replace('+ -', '- ')
def show_var(v):
    x = RS[v[0]]
    if not isinstance(x, Num): return repr(x)
    return '%r %s %s' % (x, '<=' if v[2] else '<', v[1])
def show_cond(c, depth=12):
    if c is TRUE: return 'true'
    if c is FALSE: return 'false'
    if depth == 0: return '...'
    if c.hi is TRUE and c.lo is FALSE: return '[%s]' % show_var(c.v)
    if c.hi is FALSE and c.lo is TRUE: return 'not[%s]' % show_var(c.v)
    if c.lo is FALSE: return '[%s] & %s' % (show_var(c.v), show_cond(c.hi, depth - 1))
    if c.hi is FALSE: return 'not[%s] & %s' % (show_var(c.v), show_cond(c.lo, depth - 1))
    return '([%s] ? %s : %s)' % (show_var(c.v), show_cond(c.hi, depth // 2), show_cond(c.lo, depth // 2))
def show_lits(ls):
    return ' and '.join(('' if b else 'not ') + '[' + show_var(v) + ']' for v, b in ls) or 'always'

def prove_cases(p, strict=False, budget=None, trail=()):
    """p >= 0 (> 0), splitting on the joins inside p; budget[1:] receives the literals of the case that could not be proved"""
    if budget is None: budget = [400]
    if FACTS.prove_nonneg(p, strict=strict): return True
    q = full(p)
    pick = None; fallback = None
    for x in sorted({x for m in q for at, _ in m for x in atom_deep(ATOMS[at]) if x in ITES}):
        for v in sorted(ATOMS[x].args[0].support()):
            if not (var_atoms(v) & ITES): pick = v; break
            if fallback is None: fallback = v
        if pick is not None: break
    if pick is None: pick = fallback
    if pick is None or budget[0] <= 0:
        budget[1:] = trail
        return False
    budget[0] -= 1
    for b in (True, False):
        f = lit_fact(pick, b)
        if f is not None and contradiction(f): continue
        with assume(*([f] if f else [])):
            if not prove_cases(nrestrict(p, pick, b), strict, budget, trail + ((pick, b),)): return False
    return True
