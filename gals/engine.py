"""Value-flow / array dataflow analysis over the SSA form.

Every function is interpreted abstractly once per call context: values are the normal forms of vals.py, joins are gated,
counted loops are summarised (induction variable + iteration domain + the stores of one generic iteration), memory is an
effect log that loads are resolved against by subscript matching.  Nothing is executed and no concrete input is chosen."""
import re
from fractions import Fraction
from .vals import *
from . import vals as V
from .ir import IRError, Ty
from .build import demangle, strip_ret

# ------------------------------------------------------------------ log
class Node:
    __slots__ = ('prev', 'k', 'ptr', 'size', 'val', 'guard', 'x', 'dbg', 'n')
    def __init__(s, prev, k, ptr=None, size=0, val=None, guard=TRUE, x=None, dbg=None):
        s.prev, s.k, s.ptr, s.size, s.val, s.guard, s.x, s.dbg = prev, k, ptr, size, val, guard, x, dbg
        s.n = prev.n + 1 if prev is not None else 0

class LoopInfo:
    """a counted loop in one context"""
    count = 0
    def __init__(s, name, dbg):
        LoopInfo.count += 1
        s.id = LoopInfo.count; s.name = name; s.dbg = dbg
        s.iv = None; s.lo = None; s.hi = None; s.dir = 1
        s.pending = {}; s.carried = {}; s.weak = False; s.memiv = {}
        s.start = None; s.end = None; s.guard = TRUE

class FnInfo:
    """CFG facts of one function: reverse post order, dominators, natural loops, dead-end blocks"""
    def __init__(s, f):
        s.f = f
        order = []; seen = set()
        st = [(f.order[0], iter(f.blocks[f.order[0]].succs))]
        seen.add(f.order[0])
        while st:
            b, it = st[-1]
            for x in it:
                if x not in seen:
                    seen.add(x); st.append((x, iter(f.blocks[x].succs))); break
            else:
                order.append(b); st.pop()
        s.rpo = order[::-1]
        s.pos = {b: i for i, b in enumerate(s.rpo)}
        preds = {b: [p for p in f.blocks[b].preds if p in s.pos] for b in s.rpo}
        s.preds = preds
        idom = {s.rpo[0]: s.rpo[0]}
        ch = True
        while ch:
            ch = False
            for b in s.rpo[1:]:
                ps = [p for p in preds[b] if p in idom]
                n = ps[0]
                for p in ps[1:]:
                    x, y = p, n
                    while x != y:
                        while s.pos[x] > s.pos[y]: x = idom[x]
                        while s.pos[y] > s.pos[x]: y = idom[y]
                    n = x
                if idom.get(b) != n: idom[b] = n; ch = True
        s.idom = idom
        # dead ends: cannot reach a return
        rev = set()
        wl = [b for b in s.rpo if f.blocks[b].insts[-1].op == 'ret']
        while wl:
            b = wl.pop()
            if b in rev: continue
            rev.add(b); wl.extend(preds[b])
        s.dead = {b for b in s.rpo if b not in rev}
        loops = {}
        for b in s.rpo:
            for t in f.blocks[b].succs:
                if s.dominates(t, b):
                    body = loops.setdefault(t, {'h': t, 'blocks': {t}, 'latches': []})
                    body['latches'].append(b)
                    wl = [b]
                    while wl:
                        x = wl.pop()
                        if x in body['blocks']: continue
                        body['blocks'].add(x); wl.extend(preds[x])
        # dead-end blocks hanging off a loop belong to its body
        for L in loops.values():
            if L['h'] in s.dead: continue
            wl = [t for b in L['blocks'] for t in f.blocks[b].succs if t not in L['blocks'] and t in s.dead]
            while wl:
                t = wl.pop()
                if t in L['blocks'] or t not in s.dead: continue
                if all(p in L['blocks'] for p in preds[t]):
                    L['blocks'].add(t); wl.extend(f.blocks[t].succs)
        s.loops = loops
        s.parent = {}
        hs = sorted(loops, key=lambda h: len(loops[h]['blocks']))
        s.inner = {}
        for h in hs:
            for b in loops[h]['blocks']: s.inner.setdefault(b, h)
        for h in hs:
            s.parent[h] = next((g for g in hs if g != h and loops[h]['blocks'] < loops[g]['blocks']), None)
        s.defs = {}
        for b in f.order:
            for i in f.blocks[b].insts:
                if i.res: s.defs[i.res] = (b, i)
    def dominates(s, a, b):
        while True:
            if a == b: return True
            if s.idom[b] == b: return False
            b = s.idom[b]

class Frame:
    __slots__ = ('f', 'info', 'env', 'id')
    def __init__(s, f, info, fid): s.f, s.info, s.env, s.id = f, info, {}, fid

def subrange(pred):
    return pred

class Engine:
    def __init__(self, mod):
        self.mod = mod
        self.log = Node(None, 'start')
        self.pc = TRUE
        self.fninfo = {}
        self.nframes = 0
        self.nnew = 0
        self.loopstack = []; self.alts = 1; self.digits = []
        self.dem = demangle(sorted(set(list(mod.funcs) + list(mod.decls))))
        self.sdem = {k: strip_ret(v) for k, v in self.dem.items()}
        self.hook_access = None       # (kind, ptr, size, inst) for every memory access
        self.hook_call = None         # (engine, dem, args, inst) -> value or NotImplemented
        self.hook_init = None         # (ptr, size, ty) -> value or None : contents of initial memory
        self.opaque_ok = False
        self.track_free = False
        self.peel = None              # predicate on call instructions: loops around such a call are peeled, not summarised
        self.peel_problems = []
        self.expand_max = 5000        # loops with a larger constant number of iterations are summarised
        self.streams_open = False
        self.stats = {'functions': 0, 'instructions': 0, 'loads': 0, 'stores': 0, 'loops': 0, 'expanded_loops': 0, 'calls': 0, 'events': 0}
        self.overflows = []
        self.sizes = {}
        self.asizes = {}
        self.zero_fill = zero_fill
        self.unknown_calls = []
        self.depth = 0
        self.cur = None
        self.noreturn_pc = []
        V.REBUILD_INIT = self.rebuild_init

    # ---------------------------------------------------------------- globals
    def run_ctors(self):
        """abstract interpretation of the dynamic initialisers, in order"""
        for c in self.mod.ctors:
            if c in self.mod.funcs: self.call(c, [])

    # ---------------------------------------------------------------- calls
    def call(self, name, args):
        f = self.mod.funcs.get(name)
        if f is None: raise Unsupported('no body for ' + name)
        info = self.fninfo.get(name)
        if info is None:
            info = FnInfo(f); self.fninfo[name] = info
        self.nframes += 1
        self.depth += 1
        if self.depth > 60: raise Unsupported('recursion in ' + name)
        self.stats['functions'] += 1
        fr = Frame(f, info, self.nframes)
        for (_, an, _), v in zip(f.args, args): fr.env[an] = v
        saved = self.cur
        self.cur = fr
        rets = []
        try:
            self.region(fr, None, info.rpo[0], {None: self.pc}, rets)
        finally:
            self.cur = saved
            self.depth -= 1
        if not rets:
            self.pc = FALSE
            return UNDEF
        pc = FALSE
        val = None
        for c, v in rets:
            pc = cor(pc, c)
        for c, v in reversed(rets):
            val = v if val is None else ite(self.simp(c, pc), v, val) if v is not None else None
        self.pc = pc
        return val

    def simp(self, c, pc):
        """c simplified under pc for use in a join (c -> pc holds)"""
        if c is pc: return TRUE
        for v, b in literals(pc): c = crestrict(c, v, b)
        if c.v is not None and pc.v is not None: c = ccare(c, pc)
        return c

    # ---------------------------------------------------------------- region = acyclic order of blocks of one loop body / function
    def region(self, fr, loop, entry, inedges, rets):
        """interpret the blocks whose innermost loop is `loop` (and, collapsed, its inner loops).
        inedges: pred -> condition for the entry block. Returns edges leaving the region: (from, to) -> cond"""
        info = fr.info
        blocks = info.loops[loop]['blocks'] if loop is not None else None
        edge = {}           # (pred, block) -> cond
        out = {}
        for p, c in inedges.items(): edge[(p, entry)] = c
        todo = [b for b in info.rpo if (blocks is None or b in blocks)]
        for b in todo:
            inner = info.inner.get(b)
            if inner != loop:
                # inside an inner loop: handled at the header of the loop directly below `loop`
                h = inner
                while info.parent.get(h) != loop: h = info.parent[h]
                if b != h: continue
                ins = {p: c for (p, t), c in edge.items() if t == b and c is not FALSE}
                if not ins: continue
                for (u, v), c in self.loop(fr, h, ins, rets).items():
                    if c is FALSE: continue
                    if blocks is not None and (v == entry or v not in blocks): out[(u, v)] = cor(out.get((u, v), FALSE), c)
                    else: edge[(u, v)] = cor(edge.get((u, v), FALSE), c)
                continue
            ins = {p: c for (p, t), c in edge.items() if t == b and c is not FALSE}
            if not ins: continue
            pc = FALSE
            for c in ins.values(): pc = cor(pc, c)
            if pc is FALSE: continue
            if b == entry and loop is not None: pass      # phis of a loop header are set by the caller
            else: self.phis(fr, b, ins, pc)
            for t, c in self.block(fr, b, pc, rets).items():
                if blocks is not None and (t == entry or t not in blocks): out[(b, t)] = cor(out.get((b, t), FALSE), c)
                else: edge[(b, t)] = cor(edge.get((b, t), FALSE), c)
        return out

    def phis(self, fr, b, ins, pc):
        vals = []
        for i in fr.f.blocks[b].insts:
            if i.op != 'phi': break
            val = None
            for v, p in i.x:
                if p in ins:
                    x = self.operand(fr, v)
                    val = x if val is None else self.join(self.simp(ins[p], pc), x, val)
            vals.append((i.res, val if val is not None else UNDEF))
        for r, v in vals: fr.env[r] = v

    def join(self, c, a, b):
        return ite(c, a, b)

    def block(self, fr, b, pc, rets, skip_phi=True, stop_before_term=False):
        self.pc = pc
        insts = fr.f.blocks[b].insts
        for i in insts:
            if i.op == 'phi': continue
            if i.op in ('br', 'switch', 'ret', 'unreachable', 'resume'):
                if stop_before_term: return {}
                pc = self.pc
                if i.op == 'br':
                    if len(i.x) == 1: return {i.x[0]: pc}
                    c = self.tobool(self.operand(fr, i.ops[0]))
                    if i.x[0] == i.x[1]: return {i.x[0]: pc}
                    return {i.x[0]: cand(pc, c), i.x[1]: cand(pc, cnot(c))}
                if i.op == 'switch':
                    v = self.operand(fr, i.ops[0])
                    out = {}; rest = pc
                    for cv, t in i.x[1]:
                        c = eq(v, self.operand(fr, cv)) if isinstance(v, Num) else self.tobool(Term('eq', (v, self.operand(fr, cv))))
                        out[t] = cor(out.get(t, FALSE), cand(rest, c)); rest = cand(rest, cnot(c))
                    out[i.x[0]] = cor(out.get(i.x[0], FALSE), rest)
                    return out
                if i.op == 'ret':
                    rets.append((pc, self.operand(fr, i.ops[0]) if i.ops else None))
                return {}
            self.inst(fr, i)
            if self.pc is FALSE: return {}
        return {}

    # ---------------------------------------------------------------- loops
    def loop(self, fr, h, ins, rets):
        info = fr.info
        L = info.loops[h]
        pc = FALSE
        for c in ins.values(): pc = cor(pc, c)
        self.stats['loops'] += 1
        hb = fr.f.blocks[h]
        phis = [i for i in hb.insts if i.op == 'phi']
        latches = set(L['latches'])
        init = {}
        for i in phis:
            val = None
            for v, p in i.x:
                if p in ins:
                    x = self.operand(fr, v)
                    val = x if val is None else ite(self.simp(ins[p], pc), x, val)
            init[i.res] = val
        if len(latches) != 1: raise Unsupported('loop with several latches at ' + self.where(hb.insts[0]))
        latch = next(iter(latches))
        exits = [(u, v) for u in L['blocks'] for v in fr.f.blocks[u].succs if v not in L['blocks']]
        exiting = {u for u, _ in exits}
        top = exiting == {h} and len(fr.f.blocks[h].succs) == 2
        # --- constant trip count: expand
        peeled = self.peel and any(i.op == 'call' and self.peel(i) for b in L['blocks'] for i in fr.f.blocks[b].insts)
        if not (peeled and self.expand_max < 5000):
            r = self.try_expand(fr, h, L, phis, init, pc, top, latch, rets)
            if r is not None: return r
        if peeled:
            return self.peel_loop(fr, h, L, phis, init, pc, latch, rets)
        return self.symbolic_loop(fr, h, L, phis, init, pc, top, latch, exits, rets)

    def snapshot(self):
        return (self.log, self.pc, [(l, dict(l.pending)) for l in self.loopstack], len(self.overflows), len(self.unknown_calls))
    def restore(self, s):
        self.log, self.pc = s[0], s[1]
        for l, p in s[2]: l.pending = p
        del self.overflows[s[3]:]; del self.unknown_calls[s[4]:]

    def header_cmp(self, fr, h):
        """the comparison that decides the header branch: (pred, a, b) operands or None"""
        t = fr.f.blocks[h].insts[-1]
        if t.op != 'br' or len(t.x) != 2: return None
        o = t.ops[0]
        if o.k != 'local': return None
        d = fr.info.defs.get(o.v)
        if d is None or d[1].op != 'icmp': return None
        return d[1]

    def try_expand(self, fr, h, L, phis, init, pc, top, latch, rets):
        snap = self.snapshot()
        nrets = len(rets)
        if top:
            # decide from the header alone whether the trip count is a constant
            for i in phis: fr.env[i.res] = init[i.res]
            try:
                out = self.block(fr, h, pc, [])
            except Unsupported:
                self.restore(snap); raise
            c = self.header_cmp(fr, h)
            const_ = False
            if c is not None:
                a, b = self.operand(fr, c.ops[0]), self.operand(fr, c.ops[1])
                const_ = self.const_diff(a, b)
            self.restore(snap)
            if not const_: return None
        cur = dict(init)
        res = {}; leaves = []; pc0 = pc
        defs = None
        exiting = {u for u in L['blocks'] for v in fr.f.blocks[u].succs if v not in L['blocks']}
        for it in range(self.expand_max):
            for i in phis: fr.env[i.res] = cur[i.res]
            out = self.region(fr, h, h, {None: pc}, rets)
            back = FALSE; ex = FALSE
            for (u, v), c in out.items():
                if v == h: back = cor(back, c)
                else: ex = cor(ex, c); res[(u, v)] = cor(res.get((u, v), FALSE), c)
            if ex is not FALSE or leaves:
                if defs is None: defs = [i.res for b in L['blocks'] for i in fr.f.blocks[b].insts if i.res]
                leaves.append((ex, {d: fr.env[d] for d in defs if d in fr.env}))
            if back is FALSE:
                self.stats['expanded_loops'] += 1
                if len(leaves) > 1:
                    # several iterations can be the last one: values after the loop are those of the one that leaves
                    tot = FALSE
                    for c, _ in leaves: tot = cor(tot, c)
                    for d in defs:
                        vs = [(c, e[d]) for c, e in leaves if c is not FALSE and d in e]
                        if not vs: continue
                        v = vs[-1][1]
                        for c, x in reversed(vs[:-1]):
                            if x is not v: v = ite(self.simp(c, tot), x, v)
                        fr.env[d] = v
                return res
            # a constant trip count is a fact about a comparison of a leaving branch (others may leave early)
            if (ex is not FALSE and it >= 64) or (not top and it == 0 and not any(self.latch_const(fr, u) for u in exiting)):
                self.restore(snap); del rets[nrets:]
                return None
            nxt = {}
            for i in phis:
                for v, p in i.x:
                    if p == latch: nxt[i.res] = self.operand(fr, v)
            cur = nxt
            pc = back
        self.restore(snap); del rets[nrets:]
        return None

    def peel_loop(self, fr, h, L, phis, init, pc, latch, rets):
        """the first iterations one by one, then two consecutive ones from a generic later state"""
        cur = dict(init); res = {}; leaves = []; hist = [dict(init)]
        defs = [i.res for b in L['blocks'] for i in fr.f.blocks[b].insts if i.res]
        def step(cur, pc, tag):
            for i in phis: fr.env[i.res] = cur[i.res]
            self.event(('iteration', tag))
            out = self.region(fr, h, h, {None: pc}, rets)
            back = FALSE; ex = FALSE
            for (u, v), c in out.items():
                if v == h: back = cor(back, c)
                else:
                    ex = cor(ex, c)
                    res[(u, v)] = cor(res.get((u, v), FALSE), c)
            if ex is not FALSE: leaves.append((ex, {d: fr.env[d] for d in defs if d in fr.env}))
            return back, {i.res: self.operand(fr, next(v for v, p in i.x if p == latch)) for i in phis}
        n = 3
        for it in range(n):
            pc, cur = step(cur, pc, it)
            hist.append(dict(cur))
            if pc is FALSE: break
        else:
            # generic state: numbers that grew by the same loop-invariant amount keep growing by it, everything else is unknown
            K = sym('K', True)
            gen = {}; self.generic_linear = {}; roots = {}
            for i in phis:
                seq = [hh[i.res] for hh in hist]
                if all(isinstance(x, Num) for x in seq):
                    d = [canon(sub(y, x)) for x, y in zip(seq, seq[1:])]
                    if all(x is d[0] for x in d) and not any(ATOMS[a].kind in ('opaque', 'carried') for a in deep_any(d[0])):
                        gen[i.res] = add(seq[0], mul(add(K, const(n)), d[0])); self.generic_linear[i.res] = d[0]; continue
                if all(x is seq[0] for x in seq): gen[i.res] = seq[0]; continue
                if all(isinstance(x, Ptr) for x in seq) and all(x.off is seq[-1].off for x in seq[1:]) and not seq[-1].idx:
                    # storage replaced in every iteration: a generic object of its own
                    k = tuple(x.root for x in seq[1:])
                    gen[i.res] = seq[0] if all(x == seq[0] for x in seq) else Ptr(('obj', 'state%d' % roots.setdefault(k, len(roots))), (), seq[-1].off); continue
                gen[i.res] = self.opaque_of(i, 'state.%s' % i.res)
            save = dict(res), list(leaves)
            with assume((K, False)):
                self.pc = TRUE
                g, nxt = step(gen, TRUE, 'A')
                # the assumed growth is preserved by the generic iteration
                for r, d in self.generic_linear.items():
                    if first_difference(sub(nxt[r], gen[r]), d) is not None: self.peel_problems.append('loop state %s does not keep growing by %r' % (r, d))
                for i in phis:
                    if i.res not in self.generic_linear and gen[i.res] is init[i.res] and nxt[i.res] is not gen[i.res]: self.peel_problems.append('loop state %s does not stay %r' % (i.res, gen[i.res]))
                if g is not FALSE: step(nxt, g, 'B')
            res.clear(); res.update(save[0]); leaves[:] = save[1]
            self.event(('iteration', 'end'))
        self.cut = pc
        for d in defs:
            vs = [(c, e[d]) for c, e in leaves if d in e]
            if not vs: continue
            v = vs[-1][1]
            for c, x in reversed(vs[:-1]): v = ite(c, x, v)
            fr.env[d] = v
        tot = FALSE
        for c in res.values(): tot = cor(tot, c)
        self.pc = tot
        return res

    def latch_const(self, fr, latch):
        c = self.header_cmp(fr, latch)
        if c is None: return False
        if any(o.k == 'local' and o.v not in fr.env for o in c.ops[:2]): return False
        return self.const_diff(self.operand(fr, c.ops[0]), self.operand(fr, c.ops[1]))

    def const_diff(self, a, b):
        if isinstance(a, Num) and isinstance(b, Num): return cval(canon(sub(a, b))) is not None
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return a.root == b.root and a.idx == b.idx and cval(canon(sub(a.off, b.off))) is not None
        return False

    def phi_isint(self, i): return i.ty.k == 'int'

    def syntactic_step(self, fr, L, i, latch):
        """step operand of phi i if its latch value is phi +/- loop invariant, else None -> (kind, Op, sign)"""
        lv = next(v for v, p in i.x if p == latch)
        if lv.k != 'local': return None
        d = fr.info.defs.get(lv.v)
        if d is None or d[0] not in L['blocks']: return None
        b, ins = d
        def invariant(o):
            if o.k != 'local': return True
            dd = fr.info.defs.get(o.v)
            return dd is None or dd[0] not in L['blocks']
        if ins.op in ('add', 'sub') and ins.ops[0].k == 'local' and ins.ops[0].v == i.res and invariant(ins.ops[1]):
            s = self.operand(fr, ins.ops[1])
            return neg(s) if ins.op == 'sub' else s
        if ins.op == 'add' and ins.ops[1].k == 'local' and ins.ops[1].v == i.res and invariant(ins.ops[0]):
            return self.operand(fr, ins.ops[0])
        if ins.op == 'getelementptr' and ins.ops[0].k == 'local' and ins.ops[0].v == i.res and all(invariant(o) for o in ins.ops[1:]):
            base = Ptr(('stepbase',), (), ZERO)
            return self.gep(fr, ins, base).off
        return None

    def symbolic_loop(self, fr, h, L, phis, init, pc, top, latch, exits, rets):
        where = self.where(next((x for x in fr.f.blocks[h].insts if x.dbg is not None), fr.f.blocks[h].insts[0]))
        li = LoopInfo(h, where)
        ivname = None
        steps = {}
        unknown = []
        for i in phis:
            s = self.syntactic_step(fr, L, i, latch)
            if s is not None: steps[i.res] = s
            else: unknown.append(i)
        snap = self.snapshot()
        nrets = len(rets)
        def iterate(begin, facts):
            """one generic iteration, with what earlier iterations left in memory unknown; False: unsupported"""
            first_id = LoopInfo.count; asked = self.divreq; depth = len(self.loopstack)
            iv0, weak0 = li.iv, li.weak
            if li.iv is None: li.iv = atom('iv', ('w#%d' % li.id,), True); li.weak = True
            li.guard = pc; ok = False
            try:
                for attempt in range(6):
                    LoopInfo.count = first_id
                    self.restore(snap); del rets[nrets:]
                    li.pending = {}; li.before = self.log
                    self.enter_loop(li); li.start = self.log
                    begin()
                    with assume(*facts):
                        self.region(fr, h, h, {None: pc}, [])
                        ok = not self.check_carried(li)
                    self.leave_loop(li)
                    if ok: break
            except Unsupported:
                ok = False; del self.loopstack[depth:]
            finally:
                LoopInfo.count = first_id; self.divreq = asked
                self.restore(snap); del rets[nrets:]
                li.iv, li.weak = iv0, weak0; li.carried = {}; li.pending = {}
            return ok
        def detect(unknown, known=None, facts=()):
            """semantic detection of steps: one generic iteration with unknown header values"""
            probe = {}
            for i in phis:
                if known is not None and i not in unknown: continue
                if i.ty.k == 'ptr':
                    t = var(atom('iv', ('probe%d.%s' % (li.id, i.res),), True))
                    ini = init[i.res]
                    if not isinstance(ini, Ptr): probe[i.res] = Term('carried', (li.id, i.res)); continue
                    probe[i.res] = Ptr(ini.root, ini.idx, add(ini.off, t))
                elif i.ty.k == 'int' and i.ty.n == 1: probe[i.res] = boolatom(atom('iv', ('probe%d.%s' % (li.id, i.res),), True))
                else: probe[i.res] = var(atom('iv', ('probe%d.%s' % (li.id, i.res),), i.ty.k == 'int'))
            mine = set()
            for v in probe.values(): mine |= {a for a in deep_any(v) if ATOMS[a].kind == 'iv' and str(ATOMS[a].args[0]).startswith('probe%d.' % li.id)}
            if known is not None: mine |= {li.iv.id}
            def begin():
                if known is not None: known()
                for r, v in probe.items(): fr.env[r] = v
            if not iterate(begin, facts):
                if known is not None: return
                raise Unsupported('loop at ' + where)
            for i in unknown:
                lv = self.operand(fr, next(v for v, p in i.x if p == latch))
                pv = probe[i.res]
                st = None
                if isinstance(lv, Num) and isinstance(pv, Num): st = canon(sub(lv, pv))
                elif isinstance(lv, Ptr) and isinstance(pv, Ptr) and lv.root == pv.root and lv.idx == pv.idx: st = canon(sub(lv.off, pv.off))
                if st is not None and not (atoms_of(st) & mine) and not self.mentions_loop(st, li): steps[i.res] = st
            self.restore(snap)
        if unknown: detect(unknown)
        # --- primary induction variable: the one in the exit comparison
        ex_block = h if top else None
        if not top:
            exiting = {u for u, _ in exits}
            if len(exiting) == 1 and next(iter(exiting)) == latch: ex_block = latch
        prim = None
        cmp_ = self.header_cmp(fr, ex_block) if ex_block else None
        if cmp_ is not None:
            names = self.slice_phis(fr, L, cmp_, {i.res for i in phis})
            cands = [n for n in names if n in steps and cval(steps[n]) not in (None, 0)]
            if len(cands) >= 1: prim = cands[0]
        if prim is None and cmp_ is not None:
            # a counter kept in memory: a cell that every iteration advances by the same constant
            for key, (p0, st) in self.memory_counters(fr, li, h, phis, cmp_, pc, snap, rets, nrets).items():
                init[key] = p0; steps[key] = st
                if prim is None: prim = key
        if prim is None: li.weak = True
        iv = None
        if prim is not None:
            s = cval(steps[prim])
            p0 = init[prim]
            ivat = atom('iv', ('%s#%d' % (re.sub(r'(\.i+\d*)*(\.\d+)*$', '', prim) if isinstance(prim, str) else 'c', li.id),), True)
            iv = var(ivat); li.iv = ivat
            unit = isinstance(p0, Num) and s in (1, -1)
            if unit: t = mul(sub(iv, p0), const(s)); li.dir = s; first = p0
            else: t = iv; li.dir = 1; first = ZERO
            self.cur_dir = li.dir
            def at(res, tt):
                p = init[res]
                if isinstance(p, (Ptr, PIte)): return self.padd(p, mul(steps[res], tt))
                return add(p, mul(steps[res], tt))
        def carried_val(i):
            key = 'carried%d.%s' % (li.id, i.res)
            if i.ty.k == 'ptr': return Term('carried', (key,))
            a = atom('carried', (key,) + ((iv,) if iv is not None else ()), i.ty.k == 'int')
            if i.ty.k == 'int' and i.ty.n == 1: return boolatom(a)
            return var(a)
        def setphis(tt):
            if prim is not None:
                cells = {k: at(k, tt) for k in steps if not isinstance(k, str)}
                for l in nest: l.memiv = cells
            for i in phis:
                if prim is not None and i.res in steps: fr.env[i.res] = at(i.res, tt)
                else: fr.env[i.res] = carried_val(i)
        facts = []
        nest = [li]; split = None
        if not li.weak:
            setphis(t)
            if top:
                if li.memiv: self.enter_loop(li)
                out = self.block(fr, h, pc, [])
                if li.memiv: self.leave_loop(li)
                stay = FALSE
                for tb, c in out.items():
                    if tb in L['blocks']: stay = cor(stay, c)
                bound = self.bound_from(fr, cmp_, stay, pc, ivat)
                self.restore(snap)
            else:
                self.enter_loop(li)
                out = self.region(fr, h, h, {None: pc}, [])
                self.leave_loop(li)
                stay = FALSE
                for (u, v), c in out.items():
                    if v == h: stay = cor(stay, c)
                bound = self.bound_from(fr, cmp_, stay, pc, ivat)
                self.restore(snap)
            if bound is None: li.weak = True
            else:
                kind, val = bound
                if not top:
                    val = add(val, const(li.dir))   # the test decides about the next iteration
                if li.dir > 0:
                    if kind != 'hi': li.weak = True
                    li.lo, li.hi = first, val
                else:
                    if kind != 'lo': li.weak = True
                    li.lo, li.hi = val, first
                if not top and not li.weak:
                    with self.pcfacts(pc):
                        if not FACTS.prove_nonneg(sub(li.hi, li.lo)): li.weak = True
                if not li.weak:
                    facts = [(sub(iv, li.lo), False), (sub(li.hi, iv), False)]
        if not li.weak:
            # what the counter's range rules out may leave further values with a fixed step
            unknown = [i for i in phis if i.res not in steps and not (i.ty.k == 'int' and i.ty.n == 1)]
            if unknown: detect(unknown, lambda: setphis(t), facts)
            still = [i for i in unknown if i.res not in steps and isinstance(init[i.res], (Num, Ptr))]
            for _ in range(3):
                # optimistic: values that keep what they had before the loop, if every iteration preserves that
                if not still: break
                for i in still: steps[i.res] = ZERO
                bad = still
                if iterate(lambda: setphis(t), facts):
                    with assume(*facts): bad = [i for i in still if not self.operand(fr, next(v for v, p in i.x if p == latch)) == init[i.res]]
                for i in bad: del steps[i.res]
                if not bad: break
                still = [i for i in still if i not in bad]
            else:
                for i in still: steps.pop(i.res, None)
        if li.weak and prim is None:
            ivat = atom('iv', ('w#%d' % li.id,), True); li.iv = ivat; iv = var(ivat)
        # --- the generic iteration
        while True:
            for l in nest: l.guard = pc; l.carried = {}
            asked = self.divreq; self.divreq = set()
            try:
                first_id = LoopInfo.count
                for attempt in range(6):
                    LoopInfo.count = first_id      # inner loops keep their names, so that found dependences carry over
                    self.restore(snap); del rets[nrets:]
                    r2 = []
                    with assume(*facts):
                        for l in nest:
                            l.pending = {}
                            l.before = self.log
                            self.enter_loop(l)
                            l.start = self.log
                        setphis(t if prim is not None else None)
                        out = self.region(fr, h, h, {None: pc}, r2)
                        redo = False; cells = {}
                        for l in reversed(nest):
                            redo = self.check_carried(l) or redo
                            if l is li and not redo and prim is not None and split is None and not li.weak and not r2: cells = self.linear_cells(li, h, out)
                            self.leave_loop(l)
                            if l is not li or split: self.close_loop(l, pc)
                    if not redo: break
                else:
                    raise Unsupported('loop-carried memory dependences do not stabilise at ' + where)
                mine = self.divreq
            finally:
                self.divreq = asked if asked is None else asked | self.divreq
            if cells:
                # cells that every iteration advances by the same amount follow the counter
                mark = self.snapshot(); self.restore(snap)
                cells = {k: (self.load(q, n, Ty('int', n * 8), pc, self.log, None), st) for k, (q, n, st) in cells.items() if k not in steps}
                cells = {k: c for k, c in cells.items() if isinstance(c[0], Num) and not any(ATOMS[a].kind in ('opaque', 'undef') for a in deep_any(c[0]))}
                self.restore(mark)
                if cells:
                    for k, (q0, st) in cells.items(): init[k] = q0; steps[k] = st
                    continue
            if split is None and not li.weak and not r2:
                split = self.delinearise(li, mine, where)
                if split is not None:
                    # n = ((q1 * d1) + q2 * d2 + ...): the same iterations as a loop nest
                    nest, val, facts = split
                    flat = (li.lo, li.hi, li.iv)
                    iv = add(flat[0], val); t = mul(sub(iv, p0), const(s)) if unit else iv
                    continue
            break
        if r2: 
            li.weak = True
            rets.extend(r2)
        if split is None: self.close_loop(li, pc)
        # --- after the loop
        res = {}
        if li.weak:
            for b in L['blocks']:
                for i in fr.f.blocks[b].insts:
                    if i.res and i.res in fr.env and (deep_any(fr.env[i.res]) & {li.iv.id} or i.op == 'phi'):
                        fr.env[i.res] = self.opaque_of(i, 'afterloop%d.%s' % (li.id, i.res))
            # which of several exits is taken is not known
            left = pc; live = [e for e in exits if e[1] not in fr.info.dead]
            for n, e in enumerate(live):
                if n == len(live) - 1: res[e] = left
                else:
                    c = boolatom(atom('opaque', ('exit%d.%d' % (li.id, n),), True))
                    res[e] = cand(left, c); left = cand(left, cnot(c))
            self.pc = pc
            return res
        if top:
            if li.dir > 0: fin = add(li.hi, ONE); base = li.lo
            else: fin = sub(li.lo, ONE); base = li.hi
            with self.pcfacts(pc):
                slack = add(sub(li.hi, li.lo), ONE)
                if not FACTS.prove_nonneg(slack): fin = ite(le(li.lo, li.hi), fin, base)
            tt = mul(sub(fin, init[prim]), const(s)) if unit else fin
            for i in phis:
                if i.res in steps: fr.env[i.res] = at(i.res, tt)
                else: fr.env[i.res] = ite(le(li.lo, li.hi), self.opaque_of(i, 'final%d.%s' % (li.id, i.res)), init[i.res])
            self.block(fr, h, pc, [], stop_before_term=True)
            for u, v in exits: res[(u, v)] = pc
        else:
            last = li.hi if li.dir > 0 else li.lo
            S = Subst({l.iv.id: l.hi if l.dir > 0 else l.lo for l in nest} if split else {li.iv.id: last})
            for b in L['blocks']:
                for i in fr.f.blocks[b].insts:
                    if i.res and i.res in fr.env: fr.env[i.res] = S(fr.env[i.res])
            for u, v in exits:
                if v not in fr.info.dead: res[(u, v)] = pc
        self.pc = pc
        return res

    def memory_counters(self, fr, li, h, phis, cmp_, pc, snap, rets, nrets):
        """{(cell, size): (value before the loop, step)} for the integer cells the exit test reads and every iteration advances by a constant"""
        wl = list(cmp_.ops); seen = set(); loads = False
        L = fr.info.loops[h]
        while wl:
            o = wl.pop()
            if o.k != 'local' or o.v in seen: continue
            seen.add(o.v)
            d = fr.info.defs.get(o.v)
            if d and d[0] in L['blocks']:
                if d[1].op == 'load': loads = True
                elif d[1].op not in ('call', 'phi'): wl.extend(d[1].ops)
        if not loads: return {}
        first_id = LoopInfo.count; found = {}; depth = len(self.loopstack)
        li.iv = atom('iv', ('w#%d' % li.id,), True); li.weak = True; li.carried = {}; li.guard = pc
        asked = self.divreq
        try:
            for attempt in range(6):
                LoopInfo.count = first_id
                self.restore(snap); del rets[nrets:]
                li.pending = {}; li.before = self.log
                self.enter_loop(li)
                li.start = self.log
                for i in phis: fr.env[i.res] = self.opaque_of(i, 'probe%d.%s' % (li.id, i.res))
                r2 = []
                out = self.region(fr, h, h, {None: pc}, r2)
                redo = self.check_carried(li)
                if not redo and not r2:
                    back = FALSE
                    for (u, v), c in out.items():
                        if v == h: back = cor(back, c)
                    ops = [self.operand(fr, o) for o in cmp_.ops]
                    mine = set()
                    for v in ops: mine |= deep_any(v)
                    cells = [ATOMS[a] for a in mine if ATOMS[a].kind == 'carried' and ATOMS[a].args[0] == 'mem#%d' % li.id]
                    for a in cells:
                        ptr = a.args[1]
                        for k, (p, size) in li.carried.items():
                            if p == ptr and size in (4, 8):
                                v = self.load(ptr, size, Ty('int', size * 8), back, self.log, None)
                                st = canon(sub(v, var(a))) if isinstance(v, Num) else None
                                if st is not None and cval(st): found[k] = (ptr, size, st)
                self.leave_loop(li)
                if not redo: break
        except Unsupported:
            del self.loopstack[depth:]
            found = {}
        finally:
            self.divreq = asked
            LoopInfo.count = first_id
            self.restore(snap); del rets[nrets:]
            li.weak = False; li.carried = {}; li.pending = {}; li.iv = None
        res = {}
        for k, (ptr, size, st) in found.items():
            p0 = self.load(ptr, size, Ty('int', size * 8), pc, self.log, None)
            if isinstance(p0, Num) and not any(ATOMS[a].kind == 'opaque' for a in deep_any(p0)): res[k] = (p0, st)
        return res

    def linear_cells(self, li, h, out):
        """carried cells of a counted loop that hold an integer which every iteration changes by the same amount"""
        if not li.carried: return {}
        back = FALSE
        for (u, v), c in out.items():
            if v == h: back = cor(back, c)
        outer = {l.iv.id for l in self.loopstack if l is not li and l.iv is not None}
        found = {}
        for k, (p, size) in li.carried.items():
            if size not in (4, 8): continue
            a = atom('carried', ('mem#%d' % li.id, p, var(li.iv)), True)
            try: v = self.load(p, size, Ty('int', size * 8), back, self.log, None)
            except Unsupported: continue
            if not isinstance(v, Num): continue
            st = canon(sub(v, var(a)))
            if all(ATOMS[x].kind not in ('carried', 'opaque', 'undef') and (ATOMS[x].kind != 'iv' or x in outer) for x in deep_any(st)): found[k] = (p, size, st)
        return found

    def close_loop(self, l, pc):
        l.end = self.log
        self.log = Node(l.before, 'loop', val=l, guard=pc)
        # propagate loads that reach before the loop to the enclosing loops
        for o in self.loopstack:
            for k, a in l.pending.items():
                o.pending.setdefault(k, a)

    divreq = None
    def delinearise(self, li, asked, where):
        """a loop over n = lo .. hi whose body divides n - lo by factors of the trip count: the nest of loops it stands for"""
        if not asked: return None
        n = sub(var(li.iv), li.lo); T = canon(add(sub(li.hi, li.lo), ONE))
        if not full(T): return None
        ds = []
        depth = {n.id: ONE}
        for _ in range(4):
            for a, b in sorted(asked, key=lambda x: (x[0].id, x[1].id)):
                if canon(a).id in depth:
                    d = mul(depth[canon(a).id], b)
                    depth.setdefault(fn('intdiv', a, b, isint=True).id, d)
                    if not any(d is x for x in ds): ds.append(d)
        def quot(x, y):
            q = exact_div(full(x), full(y))
            return mk(q) if q is not None and all(isinstance(c, int) and all(e > 0 for _, e in m) for m, c in q.items()) else None
        ds = [d for d in ds if not cval(d) == 1 and not (atoms_of(d) & {li.iv.id}) and quot(T, d) is not None and quot(T, d) is not ONE]
        if not ds: return None
        # a chain of divisors, largest first
        ds = sorted(ds, key=lambda d: sum(1 for e in ds if quot(d, e) is not None), reverse=True)
        chain = [T]
        for d in ds:
            if quot(chain[-1], d) is not None: chain.append(d)
        chain.append(ONE)
        for d in chain[1:-1]:
            if not FACTS.prove_nonneg(d, strict=True): return None
        nest = []; val = ZERO; facts = []
        for big, small in zip(chain, chain[1:]):
            l = LoopInfo(li.name, where); l.dir = li.dir
            l.iv = atom('iv', ('%s.%d#%d' % (ATOMS[li.iv.id].args[0].split('#')[0], len(nest), l.id),), True)
            l.lo = ZERO; l.hi = sub(quot(big, small), ONE)
            v = var(l.iv)
            facts += [(v, False), (sub(l.hi, v), False)]
            val = add(val, mul(v, small))
            nest.append(l)
        return nest, val, facts

    def opaque_of(self, i, key):
        if i.ty is None: return UNDEF
        if i.ty.k == 'ptr': return Term('opaque', (key,))
        a = atom('opaque', (key,), i.ty.k == 'int')
        if i.ty.k == 'int' and i.ty.n == 1: return boolatom(a)
        if i.ty.k in ('int', 'double', 'float'): return var(a)
        return Term('opaque', (key,))

    def mentions_loop(self, n, li):
        return any(ATOMS[a].kind in ('carried', 'iv') and ATOMS[a].args and ('#%d' % li.id) in str(ATOMS[a].args[0]) for a in atoms_of(n))

    def enter_loop(self, li):
        self.loopstack.append(li)
        self.log = Node(self.log, 'loopstart', val=li)
    def leave_loop(self, li):
        assert self.loopstack.pop() is li

    def slice_phis(self, fr, L, ins, names):
        """header phis the comparison depends on through in-loop definitions (without memory)"""
        out = []; seen = set(); wl = [o for o in ins.ops]
        while wl:
            o = wl.pop(0)
            if o.k != 'local' or o.v in seen: continue
            seen.add(o.v)
            if o.v in names: out.append(o.v); continue
            d = fr.info.defs.get(o.v)
            if d and d[0] in L['blocks'] and d[1].op not in ('load', 'call', 'phi'): wl.extend(d[1].ops)
        return out

    def bound_from(self, fr, cmp_, stay, pc, ivat):
        """bound on the induction variable implied by staying in the loop: ('hi'|'lo', inclusive bound)"""
        a, b = self.operand(fr, cmp_.ops[0]), self.operand(fr, cmp_.ops[1])
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.root == b.root and a.idx == b.idx: a, b = a.off, b.off
        if not (isinstance(a, Num) and isinstance(b, Num)): return None
        d = sub(a, b)
        p = full(d)
        co = p.get(((ivat.id, 1),), 0)
        if not co or any(ivat.id in atom_deep(ATOMS[x]) for m in p for x, _ in m if m != ((ivat.id, 1),)): return None
        rest = mk({m: c for m, c in p.items() if m != ((ivat.id, 1),)})
        # zero of d in iv
        z = div(neg(rest), const(co))
        pred = cmp_.x
        t = self._branch_stays_on_true(fr, cmp_, stay)
        if t is None: return None
        if not t: pred = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}[pred]
        if pred == 'ne':
            # runs until the zero is hit
            li = self.cur_dir
            if not isint(z): return None
            return ('hi', sub(z, ONE)) if li > 0 else ('lo', add(z, ONE))
        pr = pred[1:]
        if pred == 'eq': return None
        strict = pr in ('lt', 'gt')
        less = pr in ('lt', 'le')
        if co < 0: less = not less
        if less:
            if isint(z): return ('hi', sub(z, ONE) if strict else z)
            fl = floor_(z)
            if strict: fl = neg(add(floor_(neg(z)), ONE))     # ceil(z) - 1
            return ('hi', fl)
        if isint(z): return ('lo', add(z, ONE) if strict else z)
        return None
    cur_dir = 1
    def _branch_stays_on_true(self, fr, cmp_, stay):
        # which branch of the terminator using cmp_ stays in the loop
        for b in fr.f.order:
            t = fr.f.blocks[b].insts[-1]
            if t.op == 'br' and len(t.x) == 2 and t.ops[0].k == 'local' and t.ops[0].v == cmp_.res:
                h = fr.info.inner.get(b)
                L = fr.info.loops[h]
                in0 = t.x[0] in L['blocks'] and t.x[0] not in fr.info.dead
                in1 = t.x[1] in L['blocks'] and t.x[1] not in fr.info.dead
                if in0 != in1: return in0
        return None

    def pcfacts(self, pc):
        fs = []
        for v, b in literals(pc):
            f = lit_fact(v, b)
            if f is not None: fs.append(f)
        return assume(*fs)

    # ---------------------------------------------------------------- loop-carried dependences through memory
    def check_carried(self, li):
        redo = False
        if not li.pending: return False
        stores = []
        self.collect_stores(self.log, li.start.prev if li.start.k == 'loopstart' else li.start, [], stores, li)
        byroot = {}
        for n, loops in stores: byroot.setdefault(n.ptr.root, []).append((n, loops))
        for key, (ptr, size) in list(li.pending.items()):
            if key in li.carried: continue
            for n, loops in byroot.get(ptr.root, ()):
                ren = {}
                unk = []
                for l in [li] + loops:
                    a = atom('iv', (ATOMS[l.iv.id].args[0] + "'",), True)
                    ren[l.iv.id] = var(a); unk.append(a)
                S = Subst(ren)
                def conflict(sol, conds, delta):
                    u0 = unk[0].id
                    for l, a in zip(loops, unk[1:]):
                        if a.id in sol and not l.weak and (FACTS.prove_nonneg(sub(sub(S(l.lo), sol[a.id]), ONE)) or FACTS.prove_nonneg(sub(sub(sol[a.id], S(l.hi)), ONE))): return False
                    if u0 in sol:
                        if not li.weak:
                            if FACTS.prove_nonneg(sub(sub(li.lo, sol[u0]), ONE)) or FACTS.prove_nonneg(sub(sub(sol[u0], li.hi), ONE)): return False
                        d = sub(sol[u0], var(li.iv))
                        dc = cval(canon(d))
                        if dc is not None:
                            if dc == 0: return None
                            if dc * li.dir > 0: return None        # written by a later iteration only
                    if not li.weak and cval(canon(li.lo)) is not None and canon(li.lo) is canon(li.hi): return False
                    return True
                # a solution inside the loops' ranges settles it (None: no dependence); one outside does not (False)
                hit = False
                for r in self.solutions(tuple(S(x) for x in n.ptr.idx) + (S(n.ptr.off),), ptr.idx + (ptr.off,), unk, n.size, size, {a.id: (S(l.lo), S(l.hi)) for l, a in zip([li] + loops, unk) if not l.weak}):
                    hit = conflict(*r)
                    if hit is not False: break
                if not hit: continue
                li.carried[key] = (ptr, size)
                redo = True
                break
        return redo

    def blind_stores(self):
        """stores through pointers the analysis could not resolve, in the final history"""
        out = []; todo = [self.log]; seen = set()
        while todo:
            n = todo.pop()
            while n is not None and id(n) not in seen:
                seen.add(id(n))
                if n.k == 'event' and n.val[0] == 'store' and n.guard is not FALSE: out.append(n)
                elif n.k == 'loop': todo.append(n.val.end)
                n = n.prev
        return out

    def collect_stores(self, node, stop, loops, out, li):
        while node is not None and node is not stop:
            if node.k in ('store', 'copy', 'fill', 'havoc', 'elems'): out.append((node, list(loops)))
            elif node.k == 'loop':
                self.collect_stores(node.val.end, node.val.start.prev, loops + [node.val], out, li)
            node = node.prev

    def collect_events(self, node, stop, out):
        """events in program order: ('event', what, guard, dbg) and ('loop', info, [events of one iteration], guard)"""
        acc = []
        while node is not None and node is not stop:
            if node.k == 'event': acc.append(('event', node.val, node.guard, node.dbg))
            elif node.k == 'loop':
                sub_ = []
                self.collect_events(node.val.end, node.val.start.prev, sub_)
                if sub_: acc.append(('loop', node.val, sub_, node.guard))
            node = node.prev
        out.extend(reversed(acc))
    def events(self, mark):
        out = []
        self.collect_events(self.log, mark, out)
        return out

    # ---------------------------------------------------------------- subscript matching
    def solutions(self, e_offs, q_offs, unknowns, esize, qsize, ranges=None):
        """the results of solve() for every choice of leading terms, and for a carry into the next subscript where one is
        provably outside its range: the decomposition of an address into subscripts is unique only within the ranges
        {unknown: (lowest, highest)} of the loops, and which choice finds that one depends on the address"""
        todo = [(0, ())]; done = set(); seen = []; alts = 1
        while todo and len(done) < 12:
            job = todo.pop(0)
            if job in done: continue
            done.add(job)
            pick, corr = job
            self.alts = 1; self.digits = []
            r = self.solve(e_offs, q_offs, unknowns, esize, qsize, pick, dict(corr))
            alts = max(alts, self.alts)
            digits = self.digits
            for k in range(1, alts): todo.append((k, ()))
            if r is None: continue
            if not any(r[0] == x[0] and r[1] is x[1] for x in seen):
                seen.append(r)
                yield r
            if not ranges or any(not isinstance(V.RS[v[0]], Num) for v in r[1].support()): continue
            S = Subst(r[0])
            unique = True
            for (u, cu), (w, cw) in zip(digits, digits[1:]):
                W = exact_div(cu, cw)
                if W is None or w not in ranges or w not in r[0]: unique = False; continue
                W = mk(W)
                x = r[0][w]; lo, hi = S(ranges[w][0]), S(ranges[w][1])
                # distinct addresses within one period: no other value of this subscript can be in the range
                if FACTS.prove_nonneg(sub(add(x, W), hi), strict=True) and FACTS.prove_nonneg(sub(lo, sub(x, W)), strict=True): continue
                unique = False
                if FACTS.prove_nonneg(sub(lo, x), strict=True): c = -1
                elif FACTS.prove_nonneg(sub(x, hi), strict=True): c = 1
                else: continue
                m = dict(corr); m[u] = m.get(u, 0) + c
                todo.insert(0, (pick, tuple(sorted((k, v) for k, v in m.items() if v))))
                break
            if unique: return

    def solve(self, e_offs, q_offs, unknowns, esize, qsize, pick=0, corr={}):
        """solve e(u) <= q <= e(u)+esize-qsize for the unknown induction variables.
        None: no solution.  else (solution {atom id: Num}, extra condition, constant byte offset inside the element or None)"""
        if len(e_offs) != len(q_offs): return None
        uids = {a.id for a in unknowns}
        sol = {}
        cond = TRUE
        delta = ZERO
        order = list(range(len(e_offs)))
        for k in order:
            last = k == len(e_offs) - 1
            d = sub(q_offs[k], e_offs[k])          # must be 0 (or in [0, esize-qsize] for the last)
            if sol: d = Subst(sol)(d)
            p = full(d)
            terms = {}; rest = {}
            weird = False
            for m, c in p.items():
                us = [a for a, _ in m if a in uids]
                if not us:
                    if any(atom_deep(ATOMS[a]) & uids for a, _ in m): weird = True
                    rest[m] = c
                elif len(us) == 1 and dict(m)[us[0]] == 1:
                    mm = tuple((a, x) for a, x in m if a != us[0])
                    if any(atom_deep(ATOMS[a]) & uids for a, _ in mm): weird = True
                    terms.setdefault(us[0], {})[mm] = c
                else: weird = True
            if weird:
                cond = cand(cond, boolatom(atom('opaque', ('subscript', d), False)))
                continue
            room = (cval(esize) if isinstance(esize, Num) else esize)
            if not terms:
                if not last:
                    if not rest: continue
                    c = eq(mk(rest), ZERO)
                    if c is FALSE: return None
                    cond = cand(cond, c)
                    continue
                r = mk(rest)
                cv = cval(r)
                if cv is not None:
                    if room is not None:
                        if cv < 0 or cv + qsize > room:
                            if cv > -qsize and cv < room: raise Unsupported('partial overlap of a %d byte access with a %d byte store (offset %s)' % (qsize, room, cv))
                            return None
                    else:
                        c = cand(le(ZERO, r), le(add(r, const(qsize)), esize))
                        if c is FALSE: return None
                        cond = cand(cond, c)
                    delta = r
                    continue
                # symbolic distance
                es = const(room) if room is not None else esize
                if room is not None and room <= 16 and self.never_zero_mod(rest, room): return None
                if FACTS.prove_nonneg(sub(r, es)) or FACTS.prove_nonneg(sub(neg(r), const(qsize))): return None
                if room is not None and room == qsize:
                    c = eq(r, ZERO)
                    delta = ZERO
                else:
                    c = cand(le(ZERO, r), le(add(r, const(qsize)), es))
                    delta = r
                if c is FALSE: return None
                cond = cand(cond, c)
                continue
            # d = rest + sum terms[u]*u = delta;   solve by graded division, largest coefficient first
            us = sorted(terms, key=lambda u: (max(sum(e for _, e in m) for m in terms[u]), max(abs(c) for c in terms[u].values()), u), reverse=True)
            r = dict(rest)
            for n, u in enumerate(us):
                co = terms[u]
                lm = max(co, key=V._grade)
                if lm != ():
                    ch = sorted((x for x in co if V._grade(x)[0] == V._grade(lm)[0]), key=V._grade, reverse=True)
                    self.alts = max(self.alts, len(ch))
                    lm = ch[min(pick, len(ch) - 1)]
                lc = co[lm]
                self.digits.append((u, co))
                q = {}
                final = n == len(us) - 1
                if lm == ():
                    # numeric coefficient: u = -(r)/lc, remainder is the byte offset
                    keep = {}
                    for m, c in r.items():
                        if m == (): continue
                        v = nrm(Fraction(c) / lc)
                        if isinstance(v, int) or any(not ATOMS[a].isint for a, _ in m): q[m] = v
                        elif final: keep[m] = c
                        else: keep[m] = c
                    c0 = r.get((), 0)
                    # r0 + lc*u in [0, |lc|)
                    k0 = -(c0 // abs(lc)) if lc > 0 else (c0 // abs(lc))
                    rem = c0 % abs(lc)
                    qq = {m: -v for m, v in q.items()}
                    if k0: qq[()] = k0
                    if keep:
                        if not final: pass
                        else:
                            cond = cand(cond, boolatom(atom('opaque', ('subscript', mk(keep)), False)))
                    sol[u] = mk(qq)
                    r = {(): rem} if rem else {}
                    if keep and not final: r.update(keep)
                else:
                    for _ in range(200):
                        cand_m = [m for m in r if self.divides(lm, m)]
                        if not cand_m: break
                        m = max(cand_m, key=V._grade)
                        dm = mono_mul(m, tuple((a, -e) for a, e in lm))
                        c = nrm(Fraction(r[m]) / lc)
                        q[dm] = nrm(q.get(dm, 0) + c)
                        r = padd(r, pmul(co, {dm: c}), -1)
                    if u in corr:
                        q[()] = nrm(q.get((), 0) - corr[u])
                        r = {m: c for m, c in padd(r, pmul(co, {(): corr[u]}), 1).items() if c}
                    sol[u] = mk({m: -v for m, v in q.items() if v})
                    if not all(isinstance(v, int) for v in q.values()):
                        cond = cand(cond, boolatom(atom('opaque', ('subscript', sol[u]), False)))
            # r is what is left: offset inside the element
            rr = mk({m: c for m, c in r.items() if c})
            cv = cval(rr)
            if not last:
                if cv == 0: continue
                c = eq(rr, ZERO)
                if c is FALSE: return None
                cond = cand(cond, c); continue
            if cv is not None and room is not None:
                if cv < 0 or cv + qsize > room:
                    if cv > -qsize and cv < room: raise Unsupported('partial overlap')
                    return None
                delta = rr
            else:
                es = const(room) if room is not None else esize
                c = cand(le(ZERO, rr), le(add(rr, const(qsize)), es))
                if c is FALSE: return None
                cond = cand(cond, c); delta = rr
        return sol, cond, delta

    def divides(self, lm, m):
        d = dict(m)
        return all(d.get(a, 0) >= e for a, e in lm)

    def never_zero_mod(self, rest, size):
        g = 0
        import math
        for m, c in rest.items():
            if m == (): continue
            if not isinstance(c, int) or any(not ATOMS[a].isint or e < 0 for a, e in m): return False
            g = math.gcd(g, c)
        c = rest.get((), 0)
        if g == 0 or not isinstance(c, int): return False
        r = c % g
        return r >= size and g - r >= size

    # ---------------------------------------------------------------- loads
    def load(self, ptr, size, ty, pc=None, node=None, inst=None):
        if pc is None: pc = self.pc
        if node is None: node = self.log
        if isinstance(ptr, PIte):
            return ite(ptr.c, self.load(ptr.a, size, ty, cand(pc, ptr.c), node, inst), self.load(ptr.b, size, ty, cand(pc, cnot(ptr.c)), node, inst))
        if not isinstance(ptr, Ptr): return self.load_term(ptr, size, ty, inst)
        if ptr.root == ('null',): return UNDEF
        q = ptr.idx + (ptr.off,)
        first = True
        while node is not None:
            k = node.k
            if k == 'store':
                e = node.ptr
                if e.root == ptr.root:
                    if e.off is ptr.off and e.idx == ptr.idx and node.size == size: c = TRUE
                    else:
                        r = self.solve(e.idx + (e.off,), q, (), node.size, size)
                        c = r[1] if r is not None else FALSE
                    if c is not FALSE:
                        g = cand(c, node.guard)
                        if cand(pc, g) is not FALSE:
                            v = self.retype(node.val, node.size, size, ty)
                            if implies(pc, g): return v
                            rest = self.load(ptr, size, ty, cand(pc, cnot(g)), node.prev, inst)
                            return ite(self.simp(g, pc) if implies(g, pc) else g, v, rest)
            elif k == 'loop':
                r = self.find_in_loop(node, ptr, size, ty, pc, inst)
                if r is not None:
                    for g, v in r:
                        if cand(pc, g) is FALSE: continue
                        if implies(pc, g): return v
                        rest_pc = cand(pc, cnot(g))
                        others = [(gg, vv) for gg, vv in r if (gg, vv) != (g, v)]
                        rest = self._rest_after(others, ptr, size, ty, rest_pc, node.prev, inst)
                        return ite(g, v, rest)
            elif k == 'loopstart':
                li = node.val
                key = (ptr.key(), size)
                if key in li.memiv and ty.k == 'int': return li.memiv[key]
                if key in li.carried:
                    return self.retype_atom(atom('carried', ('mem#%d' % li.id, ptr, var(li.iv)), ty.k == 'int'), ty)
                if li in self.loopstack: li.pending.setdefault(key, (ptr, size))
            elif k in ('fill', 'copy', 'elems', 'havoc'):
                r = self.match_range(node, ptr, size, ty, pc, inst)
                if r is not None:
                    g, v = r
                    if implies(pc, g): return v()
                    rest = self.load(ptr, size, ty, cand(pc, cnot(g)), node.prev, inst)
                    return ite(g, v(), rest)
            node = node.prev
        return self.initial(ptr, size, ty)

    def _rest_after(self, cands, ptr, size, ty, pc, prev, inst):
        for n, (g, v) in enumerate(cands):
            if cand(pc, g) is FALSE: continue
            if implies(pc, g): return v
            return ite(g, v, self._rest_after(cands[n + 1:], ptr, size, ty, cand(pc, cnot(g)), prev, inst))
        return self.load(ptr, size, ty, pc, prev, inst)

    def match_range(self, node, ptr, size, ty, pc, inst):
        e = node.ptr
        if node.k == 'elems':
            return self.match_elems(node, ptr, size, ty, pc, inst)
        if node.k == 'havoc':
            if node.x is not None:
                if not node.x(ptr): return None
            elif e.root != ptr.root: return None
            return (node.guard, lambda: self.fresh_content(node.val, ptr, size, ty))
        if e.root != ptr.root: return None
        r = self.solve(e.idx + (e.off,), ptr.idx + (ptr.off,), (), node.size, size)
        if r is None: return None
        g = cand(r[1], node.guard)
        if cand(pc, g) is FALSE: return None
        delta = r[2]
        if node.k == 'fill':
            return (g, lambda: node.val(delta, size, ty))
        if node.k == 'copy':
            src = node.val
            return (g, lambda: self.load(src.plus(delta), size, ty, pc, node.prev, inst))

    def match_elems(self, node, ptr, size, ty, pc, inst):
        return None

    def fresh_content(self, tag, ptr, size, ty):
        """contents after a havoc: an unknown, but fixed, function of the address"""
        if ty.k == 'ptr': return Ptr(('of', ptr.root, tag), ptr.idx + (ptr.off,), ZERO)
        return self.retype_atom(atom('init', (ptr, tag), ty.k == 'int'), ty)

    def find_in_loop(self, node, ptr, size, ty, pc, inst):
        """matches of a query address with the stores of a finished loop: list of (condition, value), latest write first"""
        cands = []
        self._collect(node, ptr, size, ty, [], cands, inst)
        if not cands: return None
        if len(cands) > 1: cands = self.order_cands(cands)
        return [(c[0], c[1]) for c in cands]

    def _collect(self, lnode, ptr, size, ty, outer, cands, inst):
        li = lnode.val
        loops = outer + [li]
        n = li.end
        stop = li.start.prev
        while n is not None and n is not stop:
            if n.k == 'loop': self._collect(n, ptr, size, ty, loops, cands, inst)
            elif n.k in ('store', 'copy', 'fill') and n.ptr.root == ptr.root:
                unk = [l.iv for l in loops]
                best = None
                for sol, cond, delta in self.solutions(n.ptr.idx + (n.ptr.off,), ptr.idx + (ptr.off,), unk, n.size, size, {l.iv.id: (l.lo, l.hi) for l in loops if not l.weak}):
                    g = cond
                    # iterations not determined by the address: the last one wins
                    m = {}
                    for l in reversed(loops):
                        if l.iv.id in sol: m[l.iv.id] = sol[l.iv.id]
                    for l in loops:
                        if l.iv.id not in m and not l.weak:
                            m[l.iv.id] = Subst(m)(l.hi if l.dir > 0 else l.lo)
                    for _ in range(3): m = {k: Subst({a: b for a, b in m.items() if a != k})(v) for k, v in m.items()}
                    S = Subst(m)
                    for l in loops:
                        if l.weak: continue
                        lo, hi = S(l.lo), S(l.hi)
                        if l.iv.id in sol:
                            x = m[l.iv.id]
                            g = cand(g, cand(le(lo, x), le(x, hi)))
                        else: g = cand(g, le(lo, hi))
                        if g is FALSE: break
                    if g is FALSE: continue
                    clear = not any(not isinstance(V.RS[v[0]], Num) for v in cond.support())
                    if best is None or clear: best = (g, m, S, delta); sol_of = sol
                    if clear: break
                if best is not None:
                    g, m, S, delta = best
                    weak = any(l.weak for l in loops)
                    fs = []
                    for v, b in literals(g):
                        f = lit_fact(v, b)
                        if f is not None: fs.append(f)
                    with assume(*fs):
                        for g2, S2, m2, known in self.last_writes(n.guard, g, m, S, sol_of, loops):
                            if g2 is FALSE: continue
                            if weak or not known:
                                v = self.retype_atom(atom('opaque', ('%s#%d' % ('earlyexit' if weak else 'someiteration', li.id), ptr), ty.k == 'int'), ty)
                                g2 = cand(g2, boolatom(atom('opaque', ('reached#%d.%d' % (li.id, n.n), ptr))))
                            elif n.k == 'store': v = S2(self.retype(n.val, n.size, size, ty))
                            elif n.k == 'fill': v = n.val(delta, size, ty)
                            else:
                                src = n.val
                                if cval(delta) is None: raise Unsupported('copy in a loop with a symbolic offset')
                                v = S2(self.load(src.plus(delta), size, ty, n.guard, n.prev, inst))
                            cands.append((g2, v, loops, m2, n))
            elif n.k == 'havoc' and (n.x(ptr) if n.x is not None else n.ptr.root == ptr.root):
                cands.append((TRUE, self.retype_atom(atom('opaque', ('havoc#%d' % n.n, ptr), ty.k == 'int'), ty), loops, {}, n))
            n = n.prev

    def last_writes(self, guard, g, m, S, sol, loops):
        """the last iteration in which a store guarded by `guard` happens, over the loops its address leaves open:
        (condition, substitution, iterations, known) per path of the guard; unknown iterations give one entry"""
        free = {l.iv.id: l for l in loops if l.iv.id not in sol and not l.weak}
        ids = {k for k in free if k in guard.atoms()} if free else ()
        if not ids: yield cand(g, S(guard)), S, m, True; return
        paths = []
        def walk(c, lits):
            if c is FALSE or len(paths) > 8: return
            if c is TRUE: paths.append(lits); return
            walk(c.hi, lits + [(c.v, True)]); walk(c.lo, lits + [(c.v, False)])
        walk(guard, [])
        out = []
        for lits in paths:
            upper = {k: [] for k in ids}; lower = {k: [] for k in ids}; rest = g; ok = True
            for v, b in lits:
                f = lit_fact(v, b)
                hit = [k for k in ids if k in V.var_atoms(v)]
                if not hit:
                    rest = cand(rest, S(V._mkc(v, TRUE, FALSE) if b else V._mkc(v, FALSE, TRUE))); continue
                if f is None or len(hit) > 1 or f[1] or not isint(f[0]): ok = False; break
                p = f[0]; k = hit[0]; at = ATOMS[k]
                q = sub(p, var(at)); r = add(p, var(at))
                if k not in atoms_of(q): lower[k].append(neg(q))
                elif k not in atoms_of(r): upper[k].append(r)
                else: ok = False; break
            if not ok:
                out = None; break
            mm = dict(m)
            for l in loops:
                k = l.iv.id
                if k in ids:
                    lo = Subst(mm)(l.lo); hi = Subst(mm)(l.hi)
                    for u in upper[k]: u = Subst(mm)(u); hi = ite(le(u, hi), u, hi)
                    for u in lower[k]: u = Subst(mm)(u); lo = ite(le(lo, u), u, lo)
                    mm[k] = hi if l.dir > 0 else lo
                    rest = cand(rest, le(lo, hi))
                elif k in mm: mm[k] = Subst({a: b for a, b in mm.items() if a != k})(mm[k])
            out.append((rest, Subst(mm), mm, True))
        if out is None or len(paths) > 8: yield g, S, m, False; return
        yield from out

    def order_cands(self, cands):
        """latest write first; the list comes in backward program order of one generic iteration"""
        import functools
        def later(a, b):
            # >0 when a is written after b
            for la, lb in zip(a[2], b[2]):
                if la is not lb: return 0
                x, y = a[3].get(la.iv.id), b[3].get(lb.iv.id)
                if x is None or y is None: return 0
                d = sub(x, y)
                cv = cval(canon(d))
                if cv == 0: continue
                if cv is not None: return (1 if cv > 0 else -1) * la.dir
                if FACTS.prove_nonneg(d): return la.dir
                if FACTS.prove_nonneg(neg(d)): return -la.dir
                raise Unsupported('order of two writes to one address is not decided')
            return 0
        # stable insertion sort with the partial order
        out = []
        for c in cands:
            k = len(out)
            while k > 0:
                r = later(c, out[k - 1])
                if r > 0: k -= 1
                else: break
            out.insert(k, c)
        return out

    def rebuild_init(self, args):
        ptr = args[0]
        tag = args[1] if len(args) > 1 else None
        a = atom('init', args, self._initint.get((ptr.root, tag), False))
        if self.hook_init is not None and tag is None:
            v = self.hook_init(ptr, None, None)
            if v is not None: return v
        return var(a)
    _initint = {}

    def retype_atom(self, a, ty):
        if a.kind == 'init': self._initint[(a.args[0].root, a.args[1] if len(a.args) > 1 else None)] = ty.k == 'int'
        if ty.k == 'int' and ty.n == 1: return boolatom(a)
        if ty.k == 'ptr': return Term('opaqueptr', (a,))
        return var(a)

    def retype(self, v, ssize, lsize, ty):
        if ssize != lsize: raise Unsupported('access of %d bytes to a %d byte store' % (lsize, ssize))
        return v

    def initial(self, ptr, size, ty):
        r = ptr.root
        if r[0] in ('alloca', 'new'): return UNDEF
        if r[0] == 'global':
            g = self.mod.globals.get(r[1])
            if g is not None and g.get('init') is not None:
                o = cval(ptr.off)
                if o is not None:
                    v = self.global_scalar(g['init'], o, size, ty)
                    if v is not None: return v
                elif g.get('const') or True:
                    return self.retype_atom(atom('init', (ptr,), ty.k == 'int'), ty)
        if self.hook_init is not None:
            v = self.hook_init(ptr, size, ty)
            if v is not None: return v
        if ty.k == 'ptr': return Ptr(('of',) + ((r,)), ptr.idx + (ptr.off,), ZERO)
        return self.retype_atom(atom('init', (ptr,), ty.k == 'int'), ty)

    def global_scalar(self, op, off, size, ty):
        """scalar at byte offset of a constant initialiser"""
        t = op.ty
        if op.k == 'zero':
            if ty.k == 'ptr': return NULL
            if ty.k == 'int' and ty.n == 1: return FALSE
            return ZERO
        if op.k == 'undef': return UNDEF
        if op.k == 'agg':
            rt = self.mod.resolve(t)
            for i, e in enumerate(op.v):
                o, et = self.mod.field(t, i)
                if o <= off < o + self.mod.sizeof(et): return self.global_scalar(e, off - o, size, ty)
            return None
        if op.k == 'str': return None
        if off == 0: return self.constop(op)
        return None

    def load_term(self, ptr, size, ty, inst):
        if ptr is UNDEF or isinstance(ptr, Undef): raise Unsupported('load through an undefined pointer at ' + self.where(inst))
        if ty.k == 'ptr': return Term('deref', (ptr,))
        return self.retype_atom(atom('deref', (ptr, size), ty.k == 'int'), ty)

    # ---------------------------------------------------------------- stores
    def store(self, ptr, size, val, guard=None, dbg=None):
        g = self.pc if guard is None else guard
        if isinstance(ptr, PIte):
            self.store(ptr.a, size, val, cand(g, ptr.c), dbg); self.store(ptr.b, size, val, cand(g, cnot(ptr.c)), dbg); return
        if not isinstance(ptr, Ptr):
            if isinstance(ptr, Term):
                self.log = Node(self.log, 'event', val=('store', ptr, val), guard=g, dbg=dbg); return
            raise Unsupported('store through %r' % (ptr,))
        self.stats['stores'] += 1
        self.log = Node(self.log, 'store', ptr, size, val, g, dbg=dbg)
    def fill(self, ptr, length, fnc, guard=None):
        self.log = Node(self.log, 'fill', ptr, length, fnc, self.pc if guard is None else guard)
    def copy(self, dst, src, length, guard=None):
        self.log = Node(self.log, 'copy', dst, length, src, self.pc if guard is None else guard)
    def havoc(self, root=None, tag=None, pred=None):
        self.log = Node(self.log, 'havoc', Ptr(root, (), ZERO) if root is not None else Ptr(('any',), (), ZERO), 0, tag, TRUE, x=pred)
    def event(self, what, dbg=None):
        self.stats['events'] += 1
        self.log = Node(self.log, 'event', val=what, guard=self.pc, dbg=dbg)
    def new(self, site, what='new'):
        self.nnew += 1
        idx = tuple(var(l.iv) for l in self.loopstack if l.iv is not None)
        return Ptr((what, site, self.nnew if not self.loopstack else self.site_id(site)), idx, ZERO)
    _sites = {}
    def site_id(self, site):
        # inside a loop the same site must name the same family in every pass over the body
        k = (site, tuple(l.id for l in self.loopstack), self.loopstack[-1].start.n if self.loopstack[-1].start else 0, self.log.n)
        return self._sites.setdefault(k, 'L%d' % len(self._sites))

    # ---------------------------------------------------------------- operands
    def operand(self, fr, o):
        k = o.k
        if k == 'local':
            try: return fr.env[o.v]
            except KeyError:
                return UNDEF
        return self.constop(o)
    def constop(self, o):
        k = o.k
        if k == 'int':
            if o.ty.k == 'int' and o.ty.n == 1: return TRUE if o.v else FALSE
            return const(o.v)
        if k == 'bool': return TRUE if o.v else FALSE
        if k == 'fp':
            if o.v is None: return Term('fpconst', ())
            return fconst(o.v)
        if k == 'null': return NULL
        if k == 'global': return Ptr(('global', o.v), (), ZERO)
        if k in ('undef', 'poison'): return UNDEF
        if k == 'zero':
            t = self.mod.resolve(o.ty) if o.ty.k == 'named' else o.ty
            if t.k == 'ptr': return NULL
            if t.k in ('struct', 'arr'):
                es = t.elts if t.k == 'struct' else t.elts * t.n
                from .ir import Op
                return Agg([self.constop(Op('zero', None, e)) for e in es])
            return ZERO
        if k == 'cexpr':
            return self.cexpr(o)
        if k == 'agg': return Agg([self.constop(x) for x in o.v])
        raise Unsupported('operand %r' % o)
    def cexpr(self, o):
        op, srcty, args = o.v[0], o.v[1], o.v[2]
        if op in ('gep', 'getelementptr'):
            base = self.constop(args[0])
            return self.gep_walk(srcty, base, [self.constop(a) for a in args[1:]])
        if op in ('bitcast', 'addrspacecast', 'inttoptr'): return self.constop(args[0])
        if op == 'ptrtoint':
            p = self.constop(args[0]); return self.ptrtoint(p)
        raise Unsupported('constant expression ' + op)

    def tobool(self, v):
        if isinstance(v, Cond): return v
        if isinstance(v, Num):
            c = cval(v)
            if c is not None: return TRUE if c else FALSE
            p = v.poly
            if p and len(p) == 1:
                (m, cc), = p.items()
                if cc == 1 and len(m) == 1 and m[0][1] == 1:
                    a = ATOMS[m[0][0]]
                    if a.kind == 'ite': return cite(a.args[0], self.tobool(a.args[1]), self.tobool(a.args[2]))
                    if a.isint is False or a.kind in ('sym', 'iv', 'floor', 'intdiv', 'strlen'): return cnot(eq(v, ZERO))
                    return boolatom(a)
            return cnot(eq(v, ZERO))
        if isinstance(v, Undef): return boolatom(atom('opaque', ('undefbool',)))
        if isinstance(v, Term): return boolatom(atom('bool', (v,)))
        raise Unsupported('boolean %r' % (v,))
    def tonum(self, v):
        if isinstance(v, Num): return v
        if isinstance(v, Cond): return ite(v, ONE, ZERO)
        if isinstance(v, (Ptr, PIte)): return self.ptrtoint(v)
        if isinstance(v, Undef): return var(atom('undef', ('undef',)))
        if isinstance(v, Term): return var(atom('term', (v,)))
        raise Unsupported('number from %r' % (v,))
    def ptrtoint(self, p):
        if isinstance(p, PIte): return ite(p.c, self.ptrtoint(p.a), self.ptrtoint(p.b))
        if isinstance(p, Term): return var(atom('addr', (p,), True))
        if p.root == ('null',): return p.off
        return add(var(atom('addr', (p.root, p.idx), True)), p.off)

    # ---------------------------------------------------------------- instructions
    def where(self, i):
        return self.mod.where(i.dbg) if i is not None and i.dbg is not None else '?'

    def gep(self, fr, i, base=None):
        if base is None: base = self.operand(fr, i.ops[0])
        idx = [self.operand(fr, o) for o in i.ops[1:]]
        return self.gep_walk(i.x, base, idx)
    def gep_walk(self, ty, base, idx):
        if isinstance(base, PIte):
            return ite(base.c, self.gep_walk(ty, base.a, idx), self.gep_walk(ty, base.b, idx))
        if isinstance(base, Term):
            if all(isinstance(x, Num) and cval(x) == 0 for x in idx): return base
            return Term('gep', (base, repr(ty)) + tuple(idx))
        if isinstance(base, Undef): return base
        idx = [self.tonum(x) for x in idx]
        off = mul(idx[0], const(self.mod.sizeof(ty)))
        t = ty
        for x in idx[1:]:
            t = self.mod.resolve(t)
            if t.k in ('arr', 'vec'):
                off = add(off, mul(x, const(self.mod.sizeof(t.elts[0])))); t = t.elts[0]
            else:
                o, t = self.mod.field(t, int(cval(x))); off = add(off, const(o))
        return Ptr(base.root, base.idx, add(base.off, off))

    def inst(self, fr, i):
        self.stats['instructions'] += 1
        op = i.op
        env = fr.env
        if op == 'load':
            p = self.operand(fr, i.ops[0])
            ty = i.ty
            size = self.mod.sizeof(ty)
            self.stats['loads'] += 1
            if self.hook_access is not None: self.hook_access('load', p, size, i)
            if ty.k in ('named', 'struct', 'arr'):
                env[i.res] = self.load_agg(p, ty, i)
            elif isinstance(p, Undef): env[i.res] = UNDEF
            else: env[i.res] = self.load(p, size, ty, inst=i)
            return
        if op == 'store':
            v, p = self.operand(fr, i.ops[0]), self.operand(fr, i.ops[1])
            ty = i.ops[0].ty
            if self.hook_access is not None: self.hook_access('store', p, self.mod.sizeof(ty), i)
            if isinstance(v, Agg): self.store_agg(p, ty, v, i)
            elif isinstance(p, Undef): raise Unsupported('store through an undefined pointer at ' + self.where(i))
            else: self.store(p, self.mod.sizeof(ty), v, dbg=i.dbg)
            return
        if op == 'getelementptr': env[i.res] = self.gep(fr, i); return
        if op in ('add', 'sub', 'mul', 'fadd', 'fsub', 'fmul'):
            a, b = self.tonum(self.operand(fr, i.ops[0])), self.tonum(self.operand(fr, i.ops[1]))
            if i.ty.k == 'int' and i.ty.n == 1:
                x, y = self.tobool(self.operand(fr, i.ops[0])), self.tobool(self.operand(fr, i.ops[1]))
                env[i.res] = cand(x, y) if op == 'mul' else cxor(x, y); return
            o = op[-3:]
            r = add(a, b) if o == 'add' else sub(a, b) if o == 'sub' else mul(a, b)
            if i.ty.k == 'float': r = self.rounded(r)
            if op in ('add', 'sub', 'mul') and i.ty.k == 'int' and i.ty.n == 32 and 'nsw' in i.text: self.overflow_check(r, a, b, i)
            env[i.res] = r; return
        if op == 'fdiv':
            a, b = self.tonum(self.operand(fr, i.ops[0])), self.tonum(self.operand(fr, i.ops[1]))
            if cval(canon(b)) == 0: env[i.res] = fn('fdiv', a, b); return
            env[i.res] = div(a, b); return
        if op == 'fneg': env[i.res] = neg(self.tonum(self.operand(fr, i.ops[0]))); return
        if op in ('sdiv', 'udiv'):
            a, b = self.tonum(self.operand(fr, i.ops[0])), self.tonum(self.operand(fr, i.ops[1]))
            env[i.res] = self.intdiv(a, b); return
        if op in ('srem', 'urem'):
            a, b = self.tonum(self.operand(fr, i.ops[0])), self.tonum(self.operand(fr, i.ops[1]))
            ca, cb = cval(a), cval(b)
            if ca is not None and cb: r = abs(ca) % abs(cb); env[i.res] = const(r if ca >= 0 else -r)
            elif cb == 1: env[i.res] = ZERO
            else:
                q = self.intdiv(a, b)
                env[i.res] = sub(a, mul(b, q))
            return
        if op in ('shl', 'lshr', 'ashr', 'and', 'or', 'xor'): env[i.res] = self.bitop(op, self.operand(fr, i.ops[0]), self.operand(fr, i.ops[1]), i); return
        if op in ('sext', 'zext', 'fpext', 'sitofp', 'uitofp', 'bitcast', 'freeze'):
            v = self.operand(fr, i.ops[0])
            if isinstance(v, Cond) and not (i.ty.k == 'int' and i.ty.n == 1):
                v = ite(v, const(-1) if op == 'sext' else ONE, ZERO)
            env[i.res] = v; return
        if op == 'fptrunc':
            env[i.res] = self.rounded(self.tonum(self.operand(fr, i.ops[0]))); return
        if op == 'trunc':
            v = self.operand(fr, i.ops[0])
            if i.ty.n == 1: env[i.res] = self.tobool(v)
            elif i.ty.n >= 32 or isinstance(v, (Undef, Cond)): env[i.res] = v
            else:
                v = self.tonum(v); c = cval(v)
                if c is not None: env[i.res] = const(((c + (1 << (i.ty.n - 1))) % (1 << i.ty.n)) - (1 << (i.ty.n - 1)))
                elif self.fits(v, i.ty.n): env[i.res] = v
                else: env[i.res] = fn('trunc%d' % i.ty.n, v, isint=True)
            return
        if op in ('fptosi', 'fptoui'):
            v = self.tonum(self.operand(fr, i.ops[0]))
            if i.ty.k == 'int' and i.ty.n <= 32 and (FACTS.prove_nonneg(sub(v, const(1 << i.ty.n - (op == 'fptosi')))) or FACTS.prove_nonneg(sub(const(-(1 << i.ty.n - 1) - 1 if op == 'fptosi' else -1), v))):
                self.overflows.append((self.where(i), v, self.pc))
            if isint(v): env[i.res] = v
            elif cval(v) is not None: env[i.res] = const(int(cval(v)))
            else: env[i.res] = self.truncz(v)
            return
        if op == 'ptrtoint': env[i.res] = self.tonum(self.operand(fr, i.ops[0])); return
        if op == 'inttoptr': env[i.res] = Term('inttoptr', (self.operand(fr, i.ops[0]),)); return
        if op == 'icmp': env[i.res] = self.icmp(i.x, self.operand(fr, i.ops[0]), self.operand(fr, i.ops[1])); return
        if op == 'fcmp': env[i.res] = self.fcmp(i.x, self.tonum(self.operand(fr, i.ops[0])), self.tonum(self.operand(fr, i.ops[1]))); return
        if op == 'select':
            c = self.tobool(self.operand(fr, i.ops[0]))
            a, b = self.operand(fr, i.ops[1]), self.operand(fr, i.ops[2])
            env[i.res] = ite(c, a, b); return
        if op == 'alloca':
            env[i.res] = Ptr(('alloca', fr.id, i.res), (), ZERO)
            n = self.tonum(self.operand(fr, i.ops[0])) if i.ops else ONE
            self.asizes[env[i.res].root] = mul(const(self.mod.sizeof(i.x)), n)
            return
        if op == 'extractvalue':
            v = self.operand(fr, i.ops[0])
            for k in i.x:
                v = v.v[k] if isinstance(v, Agg) else (UNDEF if isinstance(v, Undef) else Term('field', (v, k)))
            env[i.res] = v; return
        if op == 'insertvalue':
            v = self.operand(fr, i.ops[0]); x = self.operand(fr, i.ops[1])
            t = self.mod.resolve(i.ty) if i.ty.k == 'named' else i.ty
            def put(v, t, path):
                t = self.mod.resolve(t) if t.k == 'named' else t
                if not path: return x
                n = len(t.elts) if t.k == 'struct' else t.n
                vs = list(v.v) if isinstance(v, Agg) else [UNDEF] * n
                vs[path[0]] = put(vs[path[0]], t.elts[path[0]] if t.k == 'struct' else t.elts[0], path[1:])
                return Agg(vs)
            env[i.res] = put(v, t, i.x); return
        if op == 'call':
            v = self.do_call(fr, i)
            if i.res: env[i.res] = v
            return
        if op == 'landingpad':
            if i.res: env[i.res] = UNDEF
            return
        if op == 'fence': return
        raise Unsupported('instruction %s at %s' % (op, self.where(i)))

    def rounded(self, v):
        """value rounded to single precision: kept distinct from the exact value"""
        c = cval(v)
        if c is not None:
            import struct
            f = struct.unpack('f', struct.pack('f', float(c)))[0]
            return const(Fraction(f)) if Fraction(f) != c else v
        if isint(v): return v
        p = full(v)
        if len(p) == 1:
            (m, cc), = p.items()
            if len(m) == 1 and m[0][1] == 1 and cc == 1 and ATOMS[m[0][0]].kind == 'tofloat': return v
        return fn('tofloat', v)

    def truncz(self, v):
        """C conversion to integer truncates toward zero"""
        if FACTS.prove_nonneg(v): return floor_(v)
        return ite(le(ZERO, v), floor_(v), neg(floor_(neg(v))))

    def fits(self, v, n):
        return FACTS.prove_nonneg(v) and FACTS.prove_nonneg(sub(const((1 << (n - 1)) - 1), v))

    def overflow_check(self, r, a, b, i):
        p = r.poly
        if p is None: return
        c = p.get((), 0)
        if isinstance(c, int) and abs(c) > (1 << 30):
            if FACTS.prove_nonneg(sub(r, const(1 << 31))) or FACTS.prove_nonneg(sub(const(-(1 << 31) - 1), r)):
                self.overflows.append((self.where(i), r, self.pc))

    def intdiv(self, a, b):
        ca, cb = cval(a), cval(b)
        if ca is not None and cb:
            q = abs(ca) // abs(cb); return const(q if (ca >= 0) == (cb > 0) else -q)
        if cb == 1: return a
        q = exact_div(full(a), full(b)) if full(b) else None
        if q is not None and all(isinstance(c, int) and all(e > 0 for _, e in m) for m, c in q.items()): return mk(q)
        r = self.euclid(a, b)
        if r is not None: return r
        if cb and FACTS.prove_nonneg(a): return floor_(div(a, b))
        if self.divreq is not None: self.divreq.add((a, b))
        return fn('intdiv', a, b, isint=True)
    def euclid(self, a, b):
        """a = q b + r with 0 <= r < b known from the facts -> q (a >= 0)"""
        pb = full(b)
        if len(pb) != 1: return None
        (mb, cb), = pb.items()
        if not mb or cb != 1: return None
        db = dict(mb); q = {}; r = {}
        for m, c in full(a).items():
            dm = dict(m)
            if isinstance(c, int) and all(dm.get(x, 0) >= e for x, e in db.items()):
                q[tuple(sorted((x, e - db.get(x, 0)) for x, e in dm.items() if e - db.get(x, 0)))] = c
            else: r[m] = c
        if not q: 
            if FACTS.prove_nonneg(a) and FACTS.prove_nonneg(sub(sub(b, a), ONE)): return ZERO
            return None
        R = mk(r); Q = mk(q)
        for Q, R in ((Q, R), (sub(Q, ONE), add(R, b))):
            if FACTS.prove_nonneg(Q) and FACTS.prove_nonneg(R) and FACTS.prove_nonneg(sub(sub(b, R), ONE)): return Q
        return None

    def bitop(self, op, a, b, i):
        if isinstance(a, Cond) or isinstance(b, Cond):
            a, b = self.tobool(a), self.tobool(b)
            return {'and': cand, 'or': cor, 'xor': cxor}[op](a, b)
        a, b = self.tonum(a), self.tonum(b)
        ca, cb = cval(a), cval(b)
        if ca is not None and cb is not None and isinstance(ca, int) and isinstance(cb, int):
            f = {'shl': lambda x, y: x << y, 'lshr': lambda x, y: x >> y, 'ashr': lambda x, y: x >> y, 'and': lambda x, y: x & y, 'or': lambda x, y: x | y, 'xor': lambda x, y: x ^ y}[op]
            return const(f(ca, cb))
        if op == 'shl' and cb is not None: return mul(a, const(1 << cb))
        if op in ('lshr', 'ashr') and cb is not None:
            q = exact_div(full(a), {(): 1 << cb})
            if q is not None and all(isinstance(c, int) for c in q.values()): return mk(q)
            return floor_(div(a, const(1 << cb)))
        if op == 'and' and cb == 1: return sub(a, mul(const(2), floor_(div(a, const(2)))))
        if op == 'or' and 'disjoint' in i.text: return add(a, b)
        if op == 'xor' and cb == -1: return sub(neg(a), ONE)
        if cb == 0: return a if op in ('or', 'xor') else ZERO
        if op in ('and', 'or', 'xor') and a.id > b.id: a, b = b, a
        return fn('bit' + op, a, b, isint=True)

    def icmp(self, pred, a, b):
        if isinstance(a, Cond) or isinstance(b, Cond):
            a, b = self.tobool(a), self.tobool(b)
            x = cxor(a, b)
            return x if pred == 'ne' else cnot(x)
        if isinstance(a, PIte): return cite(a.c, self.icmp(pred, a.a, b), self.icmp(pred, a.b, b))
        if isinstance(b, PIte): return cite(b.c, self.icmp(pred, a, b.a), self.icmp(pred, a, b.b))
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.root == b.root and a.idx == b.idx: a, b = a.off, b.off
            elif pred in ('eq', 'ne'):
                if a.root != b.root: return FALSE if pred == 'eq' else TRUE
                c = eq(a.off, b.off)
                for x, y in zip(a.idx, b.idx): c = cand(c, eq(x, y))
                return c if pred == 'eq' else cnot(c)
            else: a, b = self.ptrtoint(a), self.ptrtoint(b)
        if isinstance(a, (Term, Undef)) or isinstance(b, (Term, Undef)):
            c = boolatom(atom('cmp', ('eq', a, b))) if pred in ('eq', 'ne') else boolatom(atom('cmp', (pred, a, b)))
            if a == b and pred in ('eq', 'ne'): c = TRUE
            return cnot(c) if pred == 'ne' else c
        a, b = self.tonum(a), self.tonum(b)
        if pred == 'eq': return eq(a, b)
        if pred == 'ne': return cnot(eq(a, b))
        p = pred[1:]
        if p == 'lt': return lt(a, b)
        if p == 'le': return le(a, b)
        if p == 'gt': return lt(b, a)
        return le(b, a)
    def fcmp(self, pred, a, b):
        if pred in ('true', 'false'): return TRUE if pred == 'true' else FALSE
        if pred in ('ord', 'uno'): return TRUE if pred == 'ord' else FALSE
        p = pred[1:]
        if p == 'eq': return eq(a, b)
        if p == 'ne': return cnot(eq(a, b))
        if p == 'lt': return lt(a, b)
        if p == 'le': return le(a, b)
        if p == 'gt': return lt(b, a)
        return le(b, a)

    def load_agg(self, p, ty, i):
        t = self.mod.resolve(ty) if ty.k == 'named' else ty
        n = len(t.elts) if t.k == 'struct' else t.n
        out = []
        for k in range(n):
            o, et = self.mod.field(t, k)
            q = p.plus(const(o))
            out.append(self.load_agg(q, et, i) if et.k in ('named', 'struct', 'arr') else self.load(q, self.mod.sizeof(et), et, inst=i))
        return Agg(out)
    def store_agg(self, p, ty, v, i):
        t = self.mod.resolve(ty) if ty.k == 'named' else ty
        for k, x in enumerate(v.v):
            o, et = self.mod.field(t, k)
            q = p.plus(const(o))
            if isinstance(x, Agg): self.store_agg(q, et, x, i)
            else: self.store(q, self.mod.sizeof(et), x, dbg=i.dbg)

    # ---------------------------------------------------------------- calls
    def do_call(self, fr, i):
        o = i.x
        self.stats['calls'] += 1
        if o.k != 'global':
            f = self.operand(fr, o)
            if isinstance(f, Ptr) and f.root[0] == 'global' and f.root[1] in self.mod.funcs and cval(f.off) == 0: name = f.root[1]
            else:
                args = [self.operand(fr, a) if a.k != 'meta' else None for a in i.ops]
                return self.unknown(i, 'indirect', args)
        else: name = o.v
        if name.startswith('llvm.'): return self.intrinsic(fr, i, name)
        args = [self.operand(fr, a) if a.k != 'meta' else None for a in i.ops]
        dem = self.sdem.get(name, name)
        if self.hook_call is not None:
            r = self.hook_call(self, name, dem, args, i)
            if r is not NotImplemented: return r
        from . import models
        r = models.call(self, name, dem, args, i)
        if r is not NotImplemented: return r
        if name in self.mod.funcs and not models.is_library(dem):
            return self.call(name, args)
        return self.unknown(i, dem, args)

    def unknown(self, i, dem, args):
        """a function without a transfer function: recorded, its result and everything reachable from its pointer arguments unknown"""
        self.unknown_calls.append((dem, self.where(i)))
        self.event((dem,) + tuple(args), i.dbg)
        tag = 'call%d' % self.log.n
        for a in args:
            for p in self.roots(a):
                if p.root[0] in ('alloca', 'new', 'arg', 'of'): self.havoc(p.root, tag)
        ty = i.ty
        if ty is None or ty.k == 'void': return None
        a = atom('opaque', ('result of ' + dem, tag), ty.k == 'int')
        if ty.k == 'int' and ty.n == 1: return boolatom(a)
        if ty.k in ('int', 'double', 'float'): return var(a)
        return Term('result', (dem, tag))
    def roots(self, a):
        if isinstance(a, Ptr): return [a]
        if isinstance(a, PIte): return self.roots(a.a) + self.roots(a.b)
        return []

    def intrinsic(self, fr, i, name):
        n = name[5:]
        b = n.split('.')[0]
        if b in ('lifetime', 'experimental', 'dbg', 'assume', 'donothing', 'stackrestore', 'invariant', 'prefetch', 'va_start', 'va_end'): return None
        if b == 'stacksave': return NULL
        args = [self.operand(fr, a) for a in i.ops]
        if b in ('memcpy', 'memmove'): return self.memcpy(args[0], args[1], args[2], i)
        if b == 'memset': return self.memset(args[0], args[1], args[2], i)
        if b == 'expect': return args[0]
        if b == 'floor': return floor_(self.tonum(args[0]))
        if b == 'ceil': return neg(floor_(neg(self.tonum(args[0]))))
        if b == 'trunc': return self.truncz(self.tonum(args[0]))
        if b == 'fabs': return fabs_(self.tonum(args[0]))
        if b == 'abs':
            return fabs_(self.tonum(args[0]))
        if b == 'sqrt': return sqrt_(self.tonum(args[0]))
        if b in ('fmuladd', 'fma'): return add(mul(self.tonum(args[0]), self.tonum(args[1])), self.tonum(args[2]))
        if b in ('smax', 'umax', 'maxnum', 'maximum'): x, y = map(self.tonum, args); return ite(lt(x, y), y, x)
        if b in ('smin', 'umin', 'minnum', 'minimum'): x, y = map(self.tonum, args); return ite(lt(y, x), y, x)
        if b == 'pow' or b == 'powi': return self.power(self.tonum(args[0]), self.tonum(args[1]))
        if b in ('sin', 'cos', 'exp', 'log', 'round', 'nearbyint', 'rint', 'copysign', 'log10', 'exp2', 'log2'): return fn(b, *map(self.tonum, args))
        if b in ('trap', 'ubsantrap'): self.pc = FALSE; return None
        if b == 'is': return TRUE if 'constant' not in n else FALSE
        if b == 'objectsize': return const(-1)
        if n.startswith('umul.with.overflow') or n.startswith('smul.with.overflow'): return Agg([mul(self.tonum(args[0]), self.tonum(args[1])), FALSE])
        if n.startswith('uadd.with.overflow') or n.startswith('sadd.with.overflow'): return Agg([add(self.tonum(args[0]), self.tonum(args[1])), FALSE])
        if b in ('eh', 'threadlocal'): return UNDEF
        raise Unsupported('intrinsic %s at %s' % (name, self.where(i)))

    def power(self, x, e):
        c = cval(e)
        if isinstance(c, int) and 0 <= c <= 12:
            r = ONE
            for _ in range(c): r = mul(r, x)
            return r
        if c == Fraction(1, 2): return sqrt_(x)
        if isinstance(c, int) and -6 <= c < 0: return div(ONE, self.power(x, const(-c)))
        return fn('pow', x, e)

    def granularity(self, i, n):
        """scalar layout of a struct copy: list of (offset, size, type)"""
        from .ir import Ty
        out = []
        s = self.mod.md.get(i.tbs) if i.tbs is not None else None
        if s:
            ent = re.findall(r'i64 (\d+), i64 (\d+), !(\d+)', s)
            for o, sz, tag in ent:
                o, sz = int(o), int(sz)
                t = self.mod.md.get(int(tag), '')
                tm = re.search(r'!(\d+)', t)
                nm = self.mod.md.get(int(tm.group(1)), '') if tm else ''
                q = re.search(r'"([^"]*)"', nm)
                kind = q.group(1) if q else ''
                el = {'double': (8, Ty('double')), 'int': (4, Ty('int', 32)), 'any pointer': (8, Ty('ptr')), 'long': (8, Ty('int', 64)),
                      'bool': (1, Ty('int', 8)), 'float': (4, Ty('float'))}.get(kind)
                if el is None or sz % el[0]: return None
                for k in range(sz // el[0]): out.append((o + k * el[0], el[0], el[1]))
            return out
        return None

    def memcpy(self, d, s, n, i):
        from .ir import Ty
        c = cval(self.tonum(n))
        if c == 0: return None
        if self.hook_access is not None and c is not None:
            self.hook_access('load', s, c, i); self.hook_access('store', d, c, i)
        if c is not None and c <= 4096 and isinstance(d, (Ptr, PIte)) and isinstance(s, (Ptr, PIte)):
            g = self.granularity(i, c)
            if g is None: g = self.guess_layout(s, c)
            vals = []
            for o, sz, t in g:
                vals.append((o, sz, self.load_at(s, o, sz, t, i)))
            for o, sz, v in vals:
                if isinstance(v, Undef): v = UNDEF
                self.store(self.padd(d, o), sz, v, dbg=i.dbg)
            return None
        if isinstance(d, Ptr) and isinstance(s, Ptr):
            self.copy(d, s, self.tonum(n)); return None
        if isinstance(d, Term) and isinstance(s, (Ptr, PIte, Term)):
            self.store(d, 1, Term('bytes', (s, self.tonum(n))), dbg=i.dbg); return None
        raise Unsupported('memcpy at ' + self.where(i))
    def padd(self, p, o):
        if isinstance(p, PIte): return PIte(p.c, self.padd(p.a, o), self.padd(p.b, o))
        if isinstance(p, Term): return Term('gep', (p, 'i8', o if isinstance(o, Num) else const(o)))
        return p.plus(o if isinstance(o, Num) else const(o))
    def load_at(self, s, o, sz, t, i):
        return self.load(self.padd(s, o), sz, t, inst=i)
    def guess_layout(self, s, c):
        """layout of the bytes at s from the stores that produced them; default: doubles"""
        from .ir import Ty
        n = self.log
        sizes = {}
        if isinstance(s, Ptr):
            base = s
            steps = 0
            while n is not None and steps < 4000:
                if n.k == 'store' and n.ptr.root == base.root and n.ptr.idx == base.idx:
                    dlt = cval(canon(sub(n.ptr.off, base.off)))
                    if dlt is not None and 0 <= dlt < c: sizes.setdefault(dlt, (n.size, n.val))
                n = n.prev; steps += 1
            if s.root[0] == 'global':
                g = self.mod.globals.get(s.root[1])
                if g and g.get('init') is not None:
                    self.flatten_init(g['init'], 0, sizes, cval(s.off) or 0, c)
        out = []; o = 0
        while o < c:
            if o in sizes:
                sz, v = sizes[o]
                t = Ty('ptr') if isinstance(v, (Ptr, PIte)) else Ty('int', sz * 8) if (sz != 8 or (isinstance(v, Num) and isint(v) and cval(v) is None)) else Ty('double')
                out.append((o, sz, t)); o += sz
            elif c - o >= 8 and o % 8 == 0 and not any(o < x < o + 8 for x in sizes): out.append((o, 8, Ty('double'))); o += 8
            elif c - o >= 4 and o % 4 == 0: out.append((o, 4, Ty('int', 32))); o += 4
            else: out.append((o, 1, Ty('int', 8))); o += 1
        return out
    def flatten_init(self, op, off, sizes, base, c):
        t = op.ty
        if op.k == 'agg':
            for k, e in enumerate(op.v):
                o, et = self.mod.field(t, k)
                self.flatten_init(e, off + o, sizes, base, c)
        elif t.k in ('int', 'double', 'ptr', 'float'):
            sizes.setdefault(off - base, (self.mod.sizeof(t), self.constop(op)))

    def memset(self, d, v, n, i):
        c = cval(self.tonum(n)); b = cval(self.tonum(v))
        if c == 0: return None
        if self.hook_access is not None and c is not None: self.hook_access('store', d, c, i)
        if b is None or not isinstance(d, Ptr): raise Unsupported('memset at ' + self.where(i))
        self.fill(d, const(c) if c is not None else self.tonum(n), zero_fill if b == 0 else byte_fill(b))
        return None

def zero_fill(delta, size, ty):
    if ty.k == 'ptr': return NULL
    if ty.k == 'int' and ty.n == 1: return FALSE
    return ZERO
def byte_fill(b):
    def f(delta, size, ty):
        if ty.k == 'int':
            x = 0
            for _ in range(size): x = x * 256 + (b & 255)
            if x >= 1 << (8 * size - 1): x -= 1 << (8 * size)
            return const(x)
        return var(atom('opaque', ('bytes', b)))
    return f
