"""Effect analysis: no operation writes a global or static object, and none depends on ambient state."""
import re
from .common import *
from ..engine import FnInfo
from ..build import demangle

AMBIENT = {'rand', 'srand', 'random', 'srandom', 'drand48', 'lrand48', 'erand48', 'time', 'clock', 'gettimeofday', 'clock_gettime', 'getenv', 'secure_getenv', 'setenv', 'putenv',
           'unsetenv', 'getpid', 'getppid', 'gettid', 'pthread_self', 'strtok', 'setlocale', 'localtime', 'gmtime', 'ctime', 'asctime', 'rand_r', 'pthread_create', 'fork', 'signal',
           '_ZNSt6chrono3_V212system_clock3nowEv', '_ZNSt6chrono3_V212steady_clock3nowEv', '_ZNSt13random_device9_M_getvalEv', '_ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE', 'fesetround', 'chdir', 'umask', 'getcwd', 'sysconf', 'omp_get_thread_num', 'omp_get_num_threads', 'omp_get_max_threads'}
STREAMS = re.compile(r'_ZSt(3cin|4cout|4cerr|4clog)$')
READERS = re.compile(r'(gals_(str|yaml|fs|stream|out|file|in)_?|llvm\.(assume|lifetime|invariant|experimental|dbg|donothing)|__cxa_guard_|__cxa_atexit|strlen|strcmp|strncmp|memcmp|exit$|abort$|_Z(dl|da))')

class Taint:
    """flow-insensitive propagation of the addresses of mutable globals and static objects through one module"""
    def __init__(self, m, entries):
        self.m = m
        self.info = {}
        self.reach = set()
        wl = [e for e in entries if e in m.funcs]
        while wl:
            f = wl.pop()
            if f in self.reach: continue
            self.reach.add(f)
            for b in m.funcs[f].blocks.values():
                for i in b.insts:
                    if i.op == 'call' and i.x.k == 'global' and i.x.v in m.funcs: wl.append(i.x.v)
                    for o in i.ops:
                        if o.k == 'global' and o.v in m.funcs: wl.append(o.v)
        self.t = {}           # (fn, local) -> name of the global it may be derived from
        self.hold = {}        # (fn, alloca) -> global whose address it may hold
        self.argdep = {}      # (fn, local) -> True when the value depends on the call's arguments
        self.holdarg = set()
        self.escapes = []
        self.rets = {}
        self.run()
    def mutable(self, n):
        g = self.m.globals.get(n)
        if g is None or g['const'] or n.startswith('_ZGV') or n.startswith('llvm.') or n == '__dso_handle' or STREAMS.match(n): return False
        if n.startswith('_ZTV') or n.startswith('_ZTI') or n.startswith('_ZTS'): return False
        return True
    def base(self, f, o):
        """global an operand may point into"""
        if o.k == 'global': return o.v if self.mutable(o.v) else None
        if o.k == 'cexpr':
            for x in o.v[2]:
                r = self.base(f, x)
                if r: return r
            return None
        if o.k == 'local': return self.t.get((f, o.v))
        return None
    def dep(self, f, o):
        if o.k == 'local': return (f, o.v) in self.argdep
        if o.k == 'cexpr': return any(self.dep(f, x) for x in o.v[2])
        return False
    def root(self, f, o, defs):
        """the alloca an address is based on"""
        for _ in range(50):
            if o.k != 'local': return None
            i = defs.get(o.v)
            if i is None: return None
            if i.op == 'alloca': return i.res
            if i.op in ('getelementptr', 'bitcast', 'freeze'): o = i.ops[0]; continue
            return None
        return None
    def run(self):
        m = self.m
        self.defs = {f: {i.res: i for b in m.funcs[f].blocks.values() for i in b.insts if i.res} for f in self.reach}
        for f in self.reach:
            for _, a, _ in m.funcs[f].args: self.argdep[(f, a)] = True
        ch = True; rounds = 0
        while ch and rounds < 40:
            ch = False; rounds += 1
            for f in self.reach:
                for b in m.funcs[f].blocks.values():
                    for i in b.insts:
                        if self.step(f, i): ch = True
    def set(self, d, k, v):
        if v and k not in d: d[k] = v; return True
        return False
    def step(self, f, i):
        ch = False
        D = self.defs[f]
        if i.op in ('getelementptr', 'bitcast', 'freeze', 'inttoptr', 'ptrtoint', 'addrspacecast', 'add', 'sub', 'extractvalue', 'insertvalue'):
            for o in (i.ops[:1] if i.op == 'getelementptr' else i.ops):
                ch |= self.set(self.t, (f, i.res), self.base(f, o))
        elif i.op == 'phi':
            for v, _ in i.x:
                ch |= self.set(self.t, (f, i.res), self.base(f, v))
                if self.dep(f, v): ch |= self.set(self.argdep, (f, i.res), True)
        elif i.op == 'select':
            for o in i.ops[1:]: ch |= self.set(self.t, (f, i.res), self.base(f, o))
        elif i.op == 'load':
            g = self.base(f, i.ops[0])
            if i.ty.k in ('ptr', 'int') and g and (i.ty.k == 'ptr'): ch |= self.set(self.t, (f, i.res), g)
            r = self.root(f, i.ops[0], D)
            if r is not None:
                if i.ty.k == 'ptr': ch |= self.set(self.t, (f, i.res), self.hold.get((f, r)))
                if (f, r) in self.holdarg: ch |= self.set(self.argdep, (f, i.res), True)
        elif i.op == 'store':
            r = self.root(f, i.ops[1], D)
            g = self.base(f, i.ops[0])
            if r is not None:
                ch |= self.set(self.hold, (f, r), g)
                if self.dep(f, i.ops[0]) and (f, r) not in self.holdarg: self.holdarg.add((f, r)); ch = True
        elif i.op == 'call':
            n = i.x.v if i.x.k == 'global' else None
            if n and n.startswith('llvm.threadlocal.address'): ch |= self.set(self.t, (f, i.res), self.base(f, i.ops[0]))
            if n in self.reach:
                for o, (_, a, _) in zip(i.ops, self.m.funcs[n].args): ch |= self.set(self.t, (n, a), self.base(f, o))
                for b in self.m.funcs[n].blocks.values():
                    x = b.insts[-1]
                    if x.op == 'ret' and x.ops and i.res: ch |= self.set(self.t, (f, i.res), self.base(n, x.ops[0]))
            if n in ('memcpy', 'memmove') or n and n.startswith(('llvm.memcpy', 'llvm.memmove')):
                a, c = self.root(f, i.ops[0], D), self.root(f, i.ops[1], D)
                if a is not None and c is not None: ch |= self.set(self.hold, (f, a), self.hold.get((f, c)))
        if i.res and i.op not in ('phi', 'alloca'):
            if any(self.dep(f, o) for o in i.ops): ch |= self.set(self.argdep, (f, i.res), True)
        return ch

    # -------------------------------------------------- findings
    def once(self, f):
        """blocks that run once per process under a static-initialisation guard: block -> guard"""
        fn_ = self.m.funcs[f]
        out = {}
        info = None
        for b in fn_.order:
            for i in fn_.blocks[b].insts:
                if i.op == 'call' and i.x.k == 'global' and i.x.v == '__cxa_guard_acquire':
                    info = info or FnInfo(fn_)
                    g = self.globals_in(i.ops[0])
                    t = fn_.blocks[b].insts[-1]
                    if t.op != 'br' or len(t.x) != 2: continue
                    rel = [c for c in fn_.order if any(x.op == 'call' and x.x.k == 'global' and x.x.v == '__cxa_guard_release' and self.globals_in(x.ops[0]) == g for x in fn_.blocks[c].insts)]
                    for s in t.x:
                        if not any(c in info.pos and info.dominates(s, c) for c in rel): continue
                        for c in info.rpo:
                            if info.dominates(s, c) and not any(c != r and info.dominates(r, c) for r in rel): out[c] = g
        return out
    def globals_in(self, o):
        if o.k == 'global': return o.v
        if o.k == 'cexpr':
            for x in o.v[2]:
                r = self.globals_in(x)
                if r: return r
        return None
    def writes(self):
        """(kind, global, where, detail) of every write, ambient read or unknown use"""
        out = []
        for f in sorted(self.reach):
            once = self.once(f)
            for b in self.m.funcs[f].order:
                for i in self.m.funcs[f].blocks[b].insts:
                    at = lambda: self.m.where(i.dbg) if i.dbg is not None else f
                    def hit(o, what, vals):
                        g = self.base(f, o)
                        if not g: return
                        if b in once and once[b] == '_ZGV' + g[2:]:
                            if any(self.dep(f, v) for v in vals): out.append(('first call', g, at(), what))
                            return
                        if b in once and g.startswith('_ZZ'): return
                        out.append(('write', g, at(), what))
                    if i.op == 'store':
                        hit(i.ops[1], 'store', [i.ops[0]])
                        if self.base(f, i.ops[0]) and self.root(f, i.ops[1], self.defs[f]) is None and not self.base(f, i.ops[1]):
                            out.append(('escape', self.base(f, i.ops[0]), at(), 'address stored in an object'))
                    elif i.op in ('atomicrmw', 'cmpxchg'):
                        for n in re.findall(r'@("[^"]+"|[-\w.$]+)', i.x):
                            if self.mutable(n.strip('"')): out.append(('write', n, at(), i.op))
                        for n in re.findall(r'%("[^"]+"|[-\w.$]+)', i.x):
                            if (f, n.strip('"')) in self.t: out.append(('write', self.t[(f, n.strip('"'))], at(), i.op))
                    elif i.op == 'call':
                        n = i.x.v if i.x.k == 'global' else None
                        if n is None:
                            if any(self.base(f, o) for o in i.ops): out.append(('unknown', 'indirect call', at(), i.text[:80]))
                            continue
                        if n in AMBIENT: out.append(('ambient', n, at(), 'call')); continue
                        if n in self.reach or n.startswith('llvm.threadlocal'): continue
                        if n in ('memcpy', 'memmove', 'memset') or n.startswith(('llvm.memcpy', 'llvm.memmove', 'llvm.memset')):
                            hit(i.ops[0], n, i.ops[1:2]); continue
                        if n in ('_ZNSt8ios_base4InitC1Ev', '_ZNSt8ios_base4InitD1Ev'): continue
                        if READERS.match(n):
                            if n.startswith('gals_in_'): hit(i.ops[1], n, [])
                            continue
                        for o in i.ops:
                            if self.base(f, o): out.append(('unknown', self.base(f, o), at(), 'passed to ' + n))
        return out

GROUPS = [['algebra'], ['world', 'grid'], ['world', 'cont'], ['world', 'grad'], ['world', 'interp'], ['world', 'time'], ['world', 'analytic'], ['input'], ['world', 'print'], ['world', 'files'], ['world', 'guard']]

def C23(ctx):
    nf = ni = ng = 0
    for cfg in ctx.configs:
        seen = set()
        for grp in GROUPS:
            m = ctx.module(grp, cfg)
            T = Taint(m, [n for n in m.funcs if n not in m.ctors and not n.startswith(('_GLOBAL__', '__cxx_global', '__cxx_'))])
            nf += len(T.reach)
            n = sum(len(b.insts) for f in T.reach for b in m.funcs[f].blocks.values()); ni += n
            gl = [g for g in m.globals if T.mutable(g)]
            ng += len(gl)
            label = '%s %s' % (cfg, '+'.join(grp))
            stores = sum(1 for f in T.reach for b in m.funcs[f].blocks.values() for i in b.insts if i.op in ('store', 'call', 'atomicrmw', 'cmpxchg'))
            for f in sorted(T.reach):
                ctx.ok('no operation writes a global', '%s: %s' % (label, f))
            for kind, g, at, what in T.writes():
                key = (kind, g, at)
                if key in seen: continue
                seen.add(key)
                gn = demangle([g]).get(g, g)
                if kind == 'write': ctx.bad('no operation writes a global', '%s of %s' % (what, gn), at)
                elif kind == 'first call': ctx.bad('a static value does not remember the first call', '%s of %s with a value that depends on the arguments' % (what, gn), at)
                elif kind == 'ambient': ctx.bad('no operation depends on ambient state', 'call of %s' % gn, at)
                elif kind == 'escape': ctx.unsure('no operation writes a global', 'address of %s: %s' % (gn, what), at)
                else: ctx.unsure('no operation writes a global', '%s: %s' % (gn, what), at)
            ctx.mods.clear()
    ctx.analysed.update(operations_and_callees=nf, instructions_scanned=ni, mutable_globals=ng)
    ctx.floor = 1000
