"""Exact differentiation of derived expressions and a normal form for the trigonometric and exponential functions in them."""
from math import gcd
from .vals import *
from . import vals as V

def D(n, at, memo=None):
    """d n / d at for expressions of polynomials, quotients, roots, sin, cos, exp and gated joins"""
    if memo is None: memo = {}
    if isinstance(at, Num): at = ATOMS[next(iter(full(at)))[0][0]]
    def num(n):
        if at.id not in atoms_of(n): return ZERO
        r = memo.get(n.id)
        if r is None:
            if n.op == 'add': r = add(num(n.a), num(n.b))
            elif n.op == 'mul': r = add(mul(num(n.a), n.b), mul(n.a, num(n.b)))
            else:
                r = ZERO
                for m, c in n.poly.items():
                    for k, (a, e) in enumerate(m):
                        d = dat(ATOMS[a])
                        if d is ZERO: continue
                        rest = m[:k] + (((a, e - 1),) if e != 1 else ()) + m[k + 1:]
                        r = add(r, mul(mk({rest: nrm(c * e)}), d))
            memo[n.id] = r
        return r
    def dat(a):
        if a is at: return ONE
        if at.id not in atom_deep(a): return ZERO
        k = a.kind; x = a.args[0]
        if k == 'sin': return mul(fn('cos', x), num(x))
        if k == 'cos': return neg(mul(fn('sin', x), num(x)))
        if k == 'exp': return mul(var(a), num(x))
        if k == 'sqrt': return mul(mul(num(x), const(Fraction(1, 2))), inverse(var(a)))
        if k == 'inv': return neg(mul(mul(var(a), var(a)), num(x)))
        if k == 'ite': return ite(x, num(a.args[1]), num(a.args[2]))
        raise Unsupported('cannot differentiate %r' % (a,))
    return num(n)

def _fgcd(a, b):
    a, b = Fraction(a), Fraction(b)
    return Fraction(gcd(a.numerator * b.denominator, b.numerator * a.denominator), a.denominator * b.denominator)

def _pow(x, k):
    r = ONE
    for _ in range(k): r = mul(r, x)
    return r

def _multiple(s, c, k):
    """(sin, cos) of k times the angle with sine s and cosine c"""
    S, C = ZERO, ONE
    for _ in range(abs(k)): S, C = add(mul(S, c), mul(C, s)), sub(mul(C, c), mul(S, s))
    return (S, C) if k >= 0 else (neg(S), C)

def _square(n):
    """cos^2 -> 1 - sin^2; products of exponentials -> one exponential"""
    p = full(n)
    if not any(ATOMS[a].kind == 'cos' and e >= 2 or ATOMS[a].kind == 'exp' for m in p for a, e in m): return mk(p)
    acc = {}; out = ZERO
    for m, c in p.items():
        t = None; ex = ZERO; nex = 0
        keep = []
        for a, e in m:
            A = ATOMS[a]
            if A.kind == 'cos' and e >= 2:
                s = fn('sin', *A.args)
                f = _pow(sub(ONE, mul(s, s)), e // 2)
                t = f if t is None else mul(t, f)
                if e % 2: keep.append((a, 1))
            elif A.kind == 'exp': ex = add(ex, mul(A.args[0], const(e))); nex += 1 if e == 1 else 2
            else: keep.append((a, e))
        if nex == 1:
            keep = sorted(keep + [(a, e) for a, e in m if ATOMS[a].kind == 'exp']); nex = 0
        if nex:
            e = fn('exp', canon(ex)) if cval(canon(ex)) != 0 else ONE
            t = e if t is None else mul(t, e)
        if t is None: acc[m] = nrm(acc.get(m, 0) + c)
        else: out = add(out, mul(mk({tuple(keep): c}), t))
    r = add(mk({m: c for m, c in acc.items() if c}), out)
    r = mk(full(r))
    return r if r.poly == p else _square(r)

def _pmap(n, f):
    p = full(n)
    return V._rebuild(p, f)

def trig(nums):
    """rewrite a list of expressions so that angles which are rational multiples of each other share one sine and cosine"""
    nums = [mk(full(n)) for n in nums]
    done = set()
    for _ in range(12):
        seen = set()
        for n in nums: seen |= {a for a in atoms_of(n) if ATOMS[a].kind in ('sin', 'cos')}
        level = [ATOMS[a] for a in seen if a not in done and not any(ATOMS[b].kind in ('sin', 'cos') and b not in done for b in atoms_of(ATOMS[a].args[0]))]
        if not level: break
        rays = {}
        for a in level:
            p = full(_square(a.args[0]))
            if not p: rays.setdefault((), []).append((a, 0)); continue
            lead = min(p); c = Fraction(p[lead])
            key = tuple(sorted((m, nrm(Fraction(x) / c)) for m, x in p.items()))
            rays.setdefault(key, []).append((a, c))
        sub_ = {}
        for key, xs in rays.items():
            if not key:
                for a, _c in xs: sub_[a.id] = ZERO if a.kind == 'sin' else ONE
                continue
            b = abs(xs[0][1])
            for _a, c in xs[1:]: b = _fgcd(b, c)
            b = abs(b)
            base = mk({m: nrm(x * b) for m, x in key})
            s, c_ = fn('sin', base), fn('cos', base)
            for x in (s, c_): done.add(next(iter(x.poly))[0][0])
            for a, c in xs:
                k = c / b
                if abs(k) > 64: raise Unsupported('angles %r too far apart' % (a,))
                S, C = _multiple(s, c_, int(k))
                sub_[a.id] = S if a.kind == 'sin' else C
        S_ = Subst(sub_)
        nums = [_square(S_(n)) for n in nums]
    else: raise Unsupported('nested angles')
    return [_square(n) for n in nums]
