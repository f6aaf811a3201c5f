"""Transfer functions of library routines that are not inlined."""
import re
from fractions import Fraction
from .vals import *

NORETURN = {'exit', 'abort', '_exit', '_Exit', 'quick_exit', '__cxa_throw', '__cxa_rethrow', '_ZSt9terminatev', '__assert_fail', 'gals_model_throw',
            '__cxa_throw_bad_array_new_length', '__cxa_bad_cast', '__cxa_bad_typeid', '__clang_call_terminate', '__cxa_pure_virtual'}

MATH1 = {'sin', 'cos', 'tan', 'asin', 'acos', 'exp', 'log', 'cbrt', 'round', 'rint', 'nearbyint', 'sinh', 'cosh', 'tanh', 'log10', 'log2', 'exp2', 'expm1', 'log1p', 'erf'}

def is_library(dem):
    return bool(re.match(r'(std::__shared|std::_Sp_|std::shared_ptr|operator new|operator delete|testing::)', dem))

# ------------------------------------------------------------------ strings: literals are distinct integers, everything else symbolic
STRBASE = 7000000000000
_lits = {}; _texts = {}
def strlit(text):
    if text not in _lits:
        _lits[text] = STRBASE + len(_lits); _texts[_lits[text]] = text
    return const(_lits[text])
def text_of(v):
    c = cval(v) if isinstance(v, Num) else None
    return _texts.get(c)
def parts(v):
    """concatenation parts of a string value"""
    t = text_of(v)
    if t is not None: return [t] if t else []
    if v.poly and len(v.poly) == 1:
        (m, c), = v.poly.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == 'strcat': return list(ATOMS[m[0][0]].args[0])
    return [v]
def cat_parts(ps):
    out = []
    for p in ps:
        if isinstance(p, str) and not p: continue
        if isinstance(p, str) and out and isinstance(out[-1], str): out[-1] += p
        else: out.append(p)
    return out
def strcat(a, b):
    ite_ = first_ite(a)
    if ite_ is not None: return ite(ite_[0], strcat(ite_[1], b), strcat(ite_[2], b))
    ite_ = first_ite(b)
    if ite_ is not None: return ite(ite_[0], strcat(a, ite_[1]), strcat(a, ite_[2]))
    ps = cat_parts(parts(a) + parts(b))
    if not ps: return strlit('')
    if len(ps) == 1: return strlit(ps[0]) if isinstance(ps[0], str) else ps[0]
    return var(atom('strcat', (tuple(ps),), True))
def first_ite(v):
    """(cond, a, b) when v is a single gated join"""
    p = full(v)
    for m, c in p.items():
        for a, e in m:
            if a in ITES:
                A = ATOMS[a].args
                # only handle v == ite(...) + const
                if len(m) == 1 and e == 1:
                    rest = sub(v, mul(const(c), var(ATOMS[a])))
                    if cval(rest) is not None: return A[0], add(mul(const(c), A[1]), rest), add(mul(const(c), A[2]), rest)
    return None
def unescape(t):
    t = t[t.index('"') + 1:-1]
    return re.sub(r'\\([0-9A-Fa-f]{2}|\\)', lambda m: '\\' if m.group(1) == '\\' else chr(int(m.group(1), 16)), t).encode('latin1')
def bytes_of(E, p, n=None):
    """text behind a pointer to constant characters, or None"""
    if not isinstance(p, Ptr) or p.root[0] != 'global': return None
    g = E.mod.globals.get(p.root[1]); o = cval(p.off)
    if g is None or o is None or not g.get('const') or g.get('init') is None: return None
    op = g['init']
    if op.k == 'zero': b = b'\0'
    elif op.k == 'str': b = unescape(op.v)
    else: return None
    b = b[o:]
    if n is not None: return b[:n].decode('latin1')
    return b.split(b'\0')[0].decode('latin1')
def str_of_ptr(E, p, n=None):
    if isinstance(p, PIte): return ite(p.c, str_of_ptr(E, p.a, n), str_of_ptr(E, p.b, n))
    if isinstance(p, Ptr) and p.root == ('cstr',):
        if cval(p.off) == 0 and n is None: return p.idx[0]
        return fn('strbytes', p.idx[0], p.off, *([n] if n is not None else []), isint=True)
    if n is None or cval(n) is not None:
        t = bytes_of(E, p, None if n is None else int(cval(n)))
        if t is not None: return strlit(t)
    if isinstance(p, Ptr):
        if p.root[0] in ('alloca', 'new'): return var(atom('opaque', ('characters of', p, E.log.n), True))
        return fn('chars', p, *([n] if n is not None else []), isint=True)
    raise Unsupported('string from %r' % (p,))
def streq(a, b): return eq(a, b)
def strcmp_(a, b):
    return ite(streq(a, b), ZERO, ite(boolatom(atom('strlt', (a, b))), const(-1), ONE))

FS = {1: 'exists', 2: 'is_directory', 3: 'is_file', 4: 'remove_file', 5: 'resize_file', 6: 'create_directory', 7: 'create_directories', 8: 'remove_directory', 9: 'remove_directories'}

def prim(E, n, args, i):
    N = [E.tonum(a) if not isinstance(a, (Ptr, PIte)) else a for a in args]
    if n == 'str_lit': return str_of_ptr(E, args[0])
    if n == 'str_bytes': return str_of_ptr(E, args[0], N[1])
    if n == 'str_fill':
        c, k = cval(N[1]), cval(N[0])
        if c is not None and k is not None: return strlit(chr(int(c) % 256) * int(k))
        return fn('strfill', *N, isint=True)
    if n == 'str_c': return Ptr(('cstr',), (N[0],), ZERO)
    if n == 'str_eq': return streq(*N)
    if n == 'str_cmp': return strcmp_(*N)
    if n == 'str_cat': return strcat(*N)
    if n == 'str_chr':
        c = cval(N[0])
        return strlit(chr(int(c) % 256)) if c is not None else fn('strchr', N[0], isint=True)
    if n == 'str_len':
        t = text_of(N[0])
        return const(len(t)) if t is not None else fn('strlen', N[0], isint=True)
    if n == 'str_at':
        t, k = text_of(N[0]), cval(N[1])
        if t is not None and k is not None and 0 <= k < len(t): return const(ord(t[int(k)]))
        return fn('strat', *N, isint=True)
    if n == 'str_sub':
        t, a, k = text_of(N[0]), cval(N[1]), cval(N[2])
        if t is not None and a is not None and k is not None: return strlit(t[int(a):] if k < 0 or k > len(t) else t[int(a):int(a + k)])
        return fn('strsub', *N, isint=True)
    if n in ('str_find', 'str_setat'): return fn(n, *N, isint=True)
    if n == 'str_num_d': return fn('str_of_double', N[0], isint=True)
    if n == 'str_num_i': return fn('str_of_int', N[0], isint=True)
    if n == 'str_to_d': return fn('double_of_str', N[0])
    if n == 'str_to_i': return fn('int_of_str', N[0], isint=True)
    if n.startswith('out_') or n.startswith('file_') and n != 'file_is_open':
        E.event((n,) + tuple(N), i.dbg)
        return None
    if n in ('file_is_open', 'stream_ok') and E.streams_open: return TRUE
    if n in ('file_is_open', 'stream_ok'): return boolatom(atom('stream', (n, args[0])))
    if n == 'stream_text': return stream_text(E, args[0])
    if n.startswith('in_'):
        E.event((n,) + tuple(N), i.dbg)
        v = var(atom('opaque', ('input', E.log.n), n != 'in_d'))
        E.store(args[1], 8, v); return None
    if n == 'yaml_defined': return boolatom(atom('yaml_defined', (N[0],)))
    if n == 'yaml_kind': return boolatom(atom('yaml_kind', (N[0], N[1])))
    if n == 'yaml_b': return boolatom(atom('yaml_bool', (N[0],)))
    if n in ('yaml_file', 'yaml_text'):
        E.event((n,) + tuple(N), i.dbg)
    if n.startswith('yaml_'): return fn(n, *N, isint=n not in ('yaml_d', 'yaml_f'))
    if n == 'fs':
        return fs_op(E, FS[int(cval(N[0]))], N[1], i.dbg)
    if n == 'fs_val': return fn('fs_val', *N, isint=True)
    raise Unsupported('primitive ' + n)

FS_QUERY = {'exists', 'is_directory', 'is_file'}
def fs_op(E, op, path, dbg):
    """one file system operation: an event, and an answer that depends on the changes made before it"""
    ver = getattr(E, 'fs_version', 0)
    E.event(('fs', op, path), dbg)
    if op not in FS_QUERY: E.fs_version = ver + 1
    return boolatom(atom('fs', (op, path) + ((ver,) if ver else ())))

def stream_text(E, os):
    """text accumulated in a string stream, when every output to it is unconditional and outside loops"""
    out = []
    node = E.log
    while node is not None:
        if node.k == 'loop':
            acc = []
            E.collect_events(node.val.end, node.val.start.prev, acc)
            if any(e[1][1] == os for e in flat_events(acc) if e[1][0].startswith('out_')): return var(atom('opaque', ('stream text', E.log.n), True))
        if node.k == 'event' and node.val[0].startswith('out_') and node.val[1] == os:
            w = node.val
            if node.guard is not TRUE and node.guard is not E.pc: return var(atom('opaque', ('stream text', E.log.n), True))
            if w[0] == 'out_s': out.append(w[2])
            elif w[0] == 'out_d': out.append(fn('text_d', w[2], isint=True))
            elif w[0] == 'out_i': out.append(fn('text_i', w[2], isint=True))
            elif w[0] in ('out_flush', 'out_fmt'): pass
            else: return var(atom('opaque', ('stream text', E.log.n), True))
        node = node.prev
    v = strlit('')
    for x in reversed(out): v = strcat(v, x)
    return v
def flat_events(evs):
    for e in evs:
        if e[0] == 'loop': yield from flat_events(e[2])
        else: yield e

def call(E, name, dem, args, i):
    if name.startswith('gals_') and name != 'gals_model_throw' and name not in E.mod.funcs: return prim(E, name[5:], args, i)
    if name in ('remove', 'rmdir', 'unlink', 'mkdir', 'access') and name not in E.mod.funcs:
        op = {'remove': 'remove_file', 'rmdir': 'remove_directory', 'unlink': 'unlink', 'mkdir': 'create_directory', 'access': 'exists'}[name]
        return ite(fs_op(E, op, str_of_ptr(E, args[0]), i.dbg), ZERO, const(-1))
    if name == 'strcmp': return strcmp_(str_of_ptr(E, args[0]), str_of_ptr(E, args[1]))
    if name in ('strncmp', 'strcasecmp', 'strncasecmp'):
        a, b = str_of_ptr(E, args[0]), str_of_ptr(E, args[1])
        low = (lambda t: t.lower()) if 'case' in name else (lambda t: t)
        cut = int(cval(E.tonum(args[2]))) if 'n' in name[3:4] and cval(E.tonum(args[2])) is not None else None
        if 'n' in name[3:4] and cut is None: raise Unsupported(name + ' with a symbolic length')
        ta, tb = text_of(a), text_of(b)
        if ta is not None and tb is not None: return strcmp_(strlit(low(ta[:cut])), strlit(low(tb[:cut])))
        def part(x, t):
            if t is not None: return strlit(low(t[:cut]))
            if cut is not None: x = fn('strsub', x, ZERO, const(cut), isint=True)
            return fn('strlower', x, isint=True) if 'case' in name else x
        return strcmp_(part(a, ta), part(b, tb))
    if name in NORETURN or name.startswith('_ZSt') and '__throw_' in name:
        E.event(('noreturn', name) + tuple(args), i.dbg)
        E.pc = FALSE
        return UNDEF
    if name in ('_Znwm', '_Znam', 'malloc', '_ZnwmSt11align_val_t', 'aligned_alloc'):
        p = E.new((i.fn.name, i.res))
        E.sizes[p.root] = args[0]
        return p
    if name == 'calloc':
        p = E.new((i.fn.name, i.res))
        E.fill(p, mul(E.tonum(args[0]), E.tonum(args[1])), E.zero_fill); return p
    if name.startswith('_Zdl') or name.startswith('_Zda') or name == 'free':
        if E.track_free: E.event(('free', args[0]), i.dbg)
        return None
    n = name
    if n in ('floor', 'floorf', '_ZSt5floorf'): return floor_(E.tonum(args[0]))
    if n in ('ceil',): return neg(floor_(neg(E.tonum(args[0]))))
    if n == 'trunc': return E.truncz(E.tonum(args[0]))
    if n in ('lround', 'lroundf', 'llround'): return fn('round', E.tonum(args[0]), isint=True)
    if n in ('fabs', 'abs', 'labs'): return fabs_(E.tonum(args[0]))
    if n == 'sqrt': return sqrt_(E.tonum(args[0]))
    if n == 'hypot':
        a, b = map(E.tonum, args); return sqrt_(add(mul(a, a), mul(b, b)))
    if n == 'pow': return E.power(E.tonum(args[0]), E.tonum(args[1]))
    if n in ('fmax', 'fmin'):
        a, b = map(E.tonum, args)
        return ite(lt(a, b), b, a) if n == 'fmax' else ite(lt(b, a), b, a)
    if n == 'fma': return add(mul(E.tonum(args[0]), E.tonum(args[1])), E.tonum(args[2]))
    if n == 'fmod': return fn('fmod', *map(E.tonum, args))
    if n == 'atan':
        x = E.tonum(args[0]); c = cval(x)
        if c == 0: return ZERO
        if c in (1, -1): return mul(pi(), const(Fraction(int(c), 4)))
        return fn('atan', x)
    if n == 'atan2': return fn('atan2', *map(E.tonum, args))
    if n == 'acos':
        x = E.tonum(args[0])
        if cval(x) == -1: return pi()
        if cval(x) == 0: return mul(pi(), const(Fraction(1, 2)))
        return fn('acos', x)
    if n in MATH1:
        x = E.tonum(args[0])
        if cval(x) == 0:
            if n in ('sin', 'tan', 'asin', 'sinh', 'tanh', 'round', 'rint'): return ZERO
            if n in ('cos', 'exp', 'cosh'): return ONE
        return fn(n, x)
    if n == '__cxa_guard_release' and not E.loopstack: E.store(args[0], 1, ONE)     # later calls find it initialised
    if n in ('__cxa_atexit', '__cxa_guard_release', '__cxa_guard_abort'): return ZERO
    if n == '__cxa_guard_acquire': return ONE
    if n in ('memcpy', 'memmove'): E.memcpy(args[0], args[1], args[2], i); return args[0]
    if n == 'memset': E.memset(args[0], args[1], args[2], i); return args[0]
    if n == 'strlen':
        v = str_of_ptr(E, args[0]); t = text_of(v)
        return const(len(t)) if t is not None else fn('strlen', v, isint=True)
    return NotImplemented
