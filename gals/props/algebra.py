"""Small vectors and matrices."""
from .common import *

VEC = 'src/cpu/vec3.cc'; MAT = 'src/cpu/mat3.cc'; VN = 'src/cpu/vec_n.cc'; UT = 'include/gals/utilities/utilities.h'

def close(x, y, isd):
    if not isd: return eq(x, y)
    d = sub(x, y); t = fconst(1e-10)
    return cand(le(d, t), le(neg(d), t))

def C04(ctx):
    for cfg in ctx.configs:
        m = ctx.module(['algebra'], cfg)
        for n in 'id':
            FACTS.__init__()
            E = Engine(m); E.run_ctors()
            sz = 4 if n == 'i' else 8; ty = I32 if n == 'i' else DBL
            T = 'int' if n == 'i' else 'double'
            def S(name): return sym(name + '_' + n, n == 'i')
            start = E.log
            def O(name): return Ptr(('obj', name), (), ZERO)
            def call(p, *a):
                if p not in m.funcs: raise Unsupported('probe %s is not in the module' % p)
                E.pc = TRUE
                r = E.call(p, [lift(x) if isinstance(x, (int, Num)) else x for x in a])
                if E.pc is not TRUE: ctx.bad('returns', '%s ends the process for %s' % (p, [repr(x) for x in a]), VEC)
                return r
            def getv(o, k=3, kind='v'): return [call('%s_get_%s' % (kind, n), o, i) for i in range(k)]
            def eqv(rule, what, got, want, where):
                for i, (g, x) in enumerate(zip(got, want)): ctx.equal(rule, '%s component %d' % (what, i), g, x, where)
            def fresh(): E.log = start
            def operand(name, kind='v'):
                k = 3 if kind == 'v' else 9
                xs = [S('%s%d' % (name, i)) for i in range(k)]
                o = O(name)
                call('%s_new%d_%s' % (kind, k, n), o, *xs)
                return o, xs
            # --- Vec3
            a, A = operand('a')
            eqv('construction', 'Vec3<%s>(a,b,c)' % T, getv(a), A, VEC)
            b, B = operand('b')
            eqv('construction', 'Vec3<%s> unaffected by another' % T, getv(a), A, VEC)
            z = O('z'); call('v_new0_' + n, z); eqv('default zero', 'Vec3<%s>()' % T, getv(z), [ZERO] * 3, VEC)
            q = O('q'); call('v_newv_' + n, q, *A); eqv('construction', 'Vec3<%s>(sequence)' % T, getv(q), A, VEC)
            ctx.equal('size', 'Vec3<%s>::size()' % T, call('v_size_' + n, a), const(3), VEC)
            for i in range(3):
                p = call('v_ref_' + n, a, i)
                if isinstance(p, Ptr): ctx.equal('read and write designate one element', 'Vec3<%s>[%d]' % (T, i), E.load(p, sz, ty, pc=TRUE), A[i], VEC)
                else: ctx.unsure('read and write designate one element', 'Vec3[%d]: %r' % (i, p))
            i = sym('i', True)
            least = ite(le(A[0], A[1]), ite(le(A[0], A[2]), A[0], A[2]), ite(le(A[1], A[2]), A[1], A[2]))
            ctx.equal('minimum', 'Vec3<%s>::min()' % T, call('v_min_' + n, a), least, VEC)
            ss = add(add(mul(A[0], A[0]), mul(A[1], A[1])), mul(A[2], A[2]))
            ctx.equal('magnitude', 'Vec3<%s>::mag()' % T, call('v_mag_' + n, a), sqrt_(ss), VEC)
            same = TRUE
            for x, y in zip(A, B): same = cand(same, close(x, y, n == 'd'))
            ctx.equal('equality', 'Vec3<%s> ==' % T, E.tobool(call('v_eq_' + n, a, b)), same, VEC)
            for op, f in (('sub', sub), ('mul', mul), ('div', div if n == 'd' else E.intdiv)):
                o = O('o_' + op)
                if op == 'div':
                    # a non-zero divisor
                    for y in B: FACTS.push(); FACTS.ge(y, True)
                call('v_%s_%s' % (op, n), a, b, o)
                eqv('componentwise', 'Vec3<%s> %s' % (T, op), getv(o), [f(x, y) for x, y in zip(A, B)], VEC)
                if op == 'div':
                    for y in B: FACTS.pop()
                eqv('operands unchanged', 'Vec3<%s> %s left' % (T, op), getv(a), A, VEC); eqv('operands unchanged', 'Vec3<%s> %s right' % (T, op), getv(b), B, VEC)
            s = S('s'); o = O('o_scale'); call('v_scale_' + n, a, s, o); eqv('scaling', 'Vec3<%s> * scalar' % T, getv(o), [mul(x, s) for x in A], VEC)
            eqv('operands unchanged', 'Vec3<%s> scaling' % T, getv(a), A, VEC)
            for how in ('copy', 'set'):
                o, _ = operand('c')
                call('v_%s_%s' % (how, n), o, a); eqv('copy', 'Vec3<%s> %s' % (T, how), getv(o), A, VEC)
                call('v_set_' + n, a, b); eqv('copy', 'Vec3<%s> %s is independent' % (T, how), getv(o), A, VEC)
                eqv('copy', 'Vec3<%s> source' % T, getv(b), B, VEC)
                a, A = operand('a')
            # --- Mat3
            fresh()
            a, A = operand('m', 'm'); b, B = operand('n', 'm'); v, Vv = operand('v')
            eqv('construction', 'Mat3<%s>(a00..a22)' % T, getv(a, 9, 'm'), A, MAT)
            z = O('z'); call('m_new0_' + n, z); eqv('default zero', 'Mat3<%s>()' % T, getv(z, 9, 'm'), [ZERO] * 9, MAT)
            ctx.equal('size', 'Mat3<%s>::size()' % T, call('m_size_' + n, a), const(9), MAT)
            for r in range(3):
                for c in range(3):
                    ctx.equal('row-major', 'Mat3<%s>(%d,%d)' % (T, r, c), call('m_get2_' + n, a, r, c), A[3 * r + c], MAT)
                    for p, k in ((call('m_ref2_' + n, a, r, c), '(%d,%d)' % (r, c)), (call('m_ref_' + n, a, 3 * r + c), '[%d]' % (3 * r + c))):
                        if isinstance(p, Ptr): ctx.equal('read and write designate one element', 'Mat3<%s>%s' % (T, k), E.load(p, sz, ty, pc=TRUE), A[3 * r + c], MAT)
                        else: ctx.unsure('read and write designate one element', 'Mat3%s: %r' % (k, p))
            o = O('o_dot'); call('m_dot_' + n, a, v, o)
            eqv('transposed product', 'Mat3<%s>::dot' % T, getv(o), [add(add(mul(A[c], Vv[0]), mul(A[3 + c], Vv[1])), mul(A[6 + c], Vv[2])) for c in range(3)], MAT)
            o = O('o_sub'); call('m_sub_' + n, a, b, o); eqv('componentwise', 'Mat3<%s> -' % T, getv(o, 9, 'm'), [sub(x, y) for x, y in zip(A, B)], MAT)
            s = S('s'); o = O('o_scale'); call('m_scale_' + n, a, s, o); eqv('scaling', 'Mat3<%s> * scalar' % T, getv(o, 9, 'm'), [mul(x, s) for x in A], MAT)
            same = TRUE
            for x, y in zip(A, B): same = cand(same, close(x, y, n == 'd'))
            ctx.equal('equality', 'Mat3<%s> ==' % T, E.tobool(call('m_eq_' + n, a, b)), same, MAT)
            eqv('operands unchanged', 'Mat3<%s>' % T, getv(a, 9, 'm'), A, MAT); eqv('operands unchanged', 'Mat3<%s> right' % T, getv(b, 9, 'm'), B, MAT)
            for how in ('copy', 'set'):
                o, _ = operand('c', 'm')
                call('m_%s_%s' % (how, n), o, a); eqv('copy', 'Mat3<%s> %s' % (T, how), getv(o, 9, 'm'), A, MAT)
                call('m_set_' + n, a, b); eqv('copy', 'Mat3<%s> %s is independent' % (T, how), getv(o, 9, 'm'), A, MAT)
                a, A = operand('m', 'm')
            # --- VecN
            for k in (1, 2, 3) if n == 'i' else (0, 1, 2, 3, 4):
                fresh()
                tag = '%s%d' % (n, k); nm = 'VecN<%s,%d>' % (T, k)
                x = O('x'); y = O('y'); call('n_new_' + tag, x); call('n_new_' + tag, y)
                ctx.equal('size', nm + '::size()', call('n_size_' + tag, x), const(k), VN)
                vals = [S('w%d' % i) for i in range(k)]
                for i in range(k): ctx.equal('default zero', '%s()[%d]' % (nm, i), call('n_get_' + tag, x, i), ZERO, VN)
                for i in range(k):
                    p = call('n_ref_' + tag, x, i)
                    E.pc = TRUE
                    E.store(p, sz, vals[i])
                for i in range(k): ctx.equal('read and write designate one element', '%s[%d]' % (nm, i), call('n_get_' + tag, x, i), vals[i], VN)
                for i in range(k): ctx.equal('default zero', '%s other object' % nm, call('n_get_' + tag, y, i), ZERO, VN)
                for how in ('copy', 'set'):
                    o = O('o' + how)
                    if how == 'set': call('n_new_' + tag, o)
                    call('n_%s_%s' % (how, tag), o, x)
                    ctx.equal('copy', nm + ' size after ' + how, call('n_size_' + tag, o), const(k), VN)
                    for i in range(k):
                        ctx.equal('copy', '%s %s [%d]' % (nm, how, i), call('n_get_' + tag, o, i), vals[i], VN)
                        pp, po = call('n_ref_' + tag, x, i), call('n_ref_' + tag, o, i)
                        if isinstance(pp, Ptr) and isinstance(po, Ptr): ctx.check(pp.root != po.root, 'copy', '%s %s has its own storage' % (nm, how), VN)
            x, y = S('p'), S('q')
            ctx.equal('helpers', 'sqr<%s>' % T, call('u_sqr_' + n, x), mul(x, x), UT)
            ctx.equal('helpers', 'cube<%s>' % T, call('u_cube_' + n, x), mul(x, mul(x, x)), UT)
            ctx.equal('equality', 'is_equal(%s)' % T, E.tobool(call('u_eq_' + n, x, y)), close(x, y, n == 'd'), UT)
            ctx.stats(E)
    ctx.floor = 500
