"""Printed form of fields and small objects; file helpers."""
from .common import *
from ..models import strlit, flat_events, parts, text_of, cat_parts
I64 = Ty('int', 64)

class Shape(Exception): pass

def cases(evs, sub_=None):
    """the ways the conditions of a list of events can come out: (condition, {condition: bool})"""
    gs = []
    for e in evs:
        g = e[2] if e[0] != 'loop' else e[3]
        if sub_ is not None: g = sub_(g)
        if g is not TRUE and g not in gs: gs.append(g)
    if len(gs) > 5: raise Shape('too many conditions')
    out = [(TRUE, {})]
    for g in gs:
        out = [(cand(c, x), {**m, g: v}) for c, m in out for x, v in ((g, True), (cnot(g), False)) if cand(c, x) is not FALSE]
    return out

def line(ctx, evs, stream, sub_=None, case={}):
    """the text pieces written to `stream` by a straight-line list of events; values as ('d'|'i', value)"""
    out = []
    for e in evs:
        if e[0] == 'loop': raise Shape('a loop where a single line is written')
        w = e[1]
        if not w[0].startswith('out_'): continue
        g = e[2] if sub_ is None else sub_(e[2])
        if g is FALSE or not case.get(g, True): continue
        if w[0] in ('out_flush', 'out_fmt'): continue
        v = w[2] if sub_ is None else sub_(w[2])
        if w[1] != stream: out.append('<text on another stream>'); continue
        if w[0] == 'out_s':
            for p in parts(v):
                if isinstance(p, str): out.append(p)
                else:
                    k = call_of(p)
                    if k is None: raise Shape('text %r' % (p,))
                    out.append(k)
        elif w[0] == 'out_d': out.append(('d', v))
        elif w[0] == 'out_i': out.append(('i', v))
        else: raise Shape('output of %s' % (w,))
    return cat_parts(out)

def call_of(p):
    """('d', v) of text_d(v)"""
    if p.poly and len(p.poly) == 1:
        (m, c), = p.poly.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            a = ATOMS[m[0][0]]
            if a.kind in ('text_d', 'text_i'): return (a.kind[-1], a.args[0])
    return None

def trim(ps):
    """without the tab that may end a line"""
    ps = list(ps)
    if ps and isinstance(ps[-1], str):
        t = ps[-1]
        nl = t.endswith('\n')
        body = (t[:-1] if nl else t).rstrip('\t')
        t = body + ('\n' if nl else '')
        if t: ps[-1] = t
        else: ps.pop()
    return ps

def compare_text(ctx, rule, label, evs, stream, want, where, sub_=None):
    for cond, case in cases(evs, sub_):
        got = line(ctx, evs, stream, sub_, case)
        if cond is TRUE: same_text(ctx, rule, label, got, want, where)
        else: same_text(ctx, rule, label, [(p if isinstance(p, str) else (p[0], under(p[1], cond))) for p in got], [(p if isinstance(p, str) else (p[0], under(p[1], cond))) for p in want], where, cond)

def under(v, cond):
    for l, b in literals(cond): v = vrestrict(v, l, b)
    return v

def same_text(ctx, rule, label, got, want, where, cond=TRUE):
    got, want = trim(cat_parts(got)), trim(cat_parts(want))
    shape = lambda ps: [p if isinstance(p, str) else '<%s>' % ('number',) for p in ps]
    if shape(got) != shape(want):
        what = '%s: the text has the form %r, expected %r' % (label, ''.join(shape(got)), ''.join(shape(want)))
        if cond is TRUE: ctx.bad(rule, what, where)
        else: ctx.equal(rule, what, ite(cond, ONE, ZERO), ZERO, where)
        return
    k = 0
    for g, w in zip(got, want):
        if isinstance(g, str): continue
        ctx.equal(rule, '%s: number %d of the text' % (label, k), g[1], w[1], where); k += 1

def live(evs, stream):
    """events without loops that print nothing"""
    out = []
    for e in evs:
        if e[0] == 'loop':
            if live(e[2], stream): out.append(e)
        elif e[1][0].startswith('out_') and e[1][0] not in ('out_flush', 'out_fmt'): out.append(e)
    return out

def own_format(ctx, E, mark, label, where):
    """printing leaves the formatting (precision, width, flags) to the stream"""
    fm = [e for e in flat_events(E.events(mark)) if e[1][0] == 'out_fmt' and e[2] is not FALSE]
    for e in fm[:1]: ctx.bad('printing changes nothing', '%s: the formatting of the stream is changed' % label, E.mod.where(e[3]) if e[3] is not None else where)
    if not fm: ctx.ok('printing changes nothing', '%s: the formatting is the stream\'s own' % label)

def printed_array(ctx, w, evs, st, a, kind, mark, label, where):
    """the text written to `st` is one line per real node"""
    evs = live(evs, st)
    d = w.dim; subst = {}; I = [ZERO, ZERO, ZERO]; fs = []
    try:
        for ax in range(d):
            lp = [e for e in evs if e[0] == 'loop']; flat = [e for e in evs if e[0] != 'loop']
            if len(lp) == 1 and flat:
                with assume(*fs): compare_text(ctx, 'nothing between the lines', '%s around the loop along axis %d' % (label, ax), flat, st, [], where, Subst(dict(subst)))
                evs = lp
            if len(evs) != 1 or evs[0][0] != 'loop': raise Shape('not one loop nest: %d pieces at depth %d' % (len(evs), ax))
            _, li, inner, guard = evs[0]
            with assume(*fs):
                if li.weak: raise Shape('loop with an imprecise range')
                S = Subst(dict(subst))
                lo, hi = S(li.lo), S(li.hi)
                guard = S(guard)
                if guard is not TRUE: ctx.equal('one line per real node', '%s: lines along axis %d are printed' % (label, ax), ite(guard, ONE, ZERO), ONE, li.dbg)
                ctx.equal('one line per real node', '%s: lines along axis %d' % (label, ax), sub(hi, lo), sub(w.n[ax], ONE), li.dbg)
                t = sym('IJK'[ax], True)
                I[ax] = t
                fs += [(t, False), (sub(sub(w.n[ax], ONE), t), False)]
                subst[li.iv.id] = add(lo, t) if li.dir > 0 else sub(hi, t)
            evs = live(inner, st)
        with assume(*fs):
            want = []
            for c in range(3): want += [('d', w.pure('g_x', w.grid, *I, c)), '\t']
            for k, c in enumerate(w.comps(kind)):
                if k: want.append('\t')
                want.append(('d', w.value(kind, a, *I, *c, node=mark)))
            want.append('\n')
            compare_text(ctx, 'coordinates then value', '%s line of node (%s)' % (label, ','.join(map(repr, I))), evs, st, want, where, Subst(dict(subst)))
    except Shape as x:
        ctx.unsure('coordinates then value', '%s: %s' % (label, x), where)

def C25(ctx):
    where = 'include/gals/utilities/array.h'
    for cfg in ctx.configs:
        m = ctx.module(['world', 'print'], cfg)
        for nm, n, size, ty, sep in (('v3d', 3, 8, DBL, 0), ('v3i', 3, 4, I32, 0), ('m3d', 9, 8, DBL, 1), ('m3i', 9, 4, I32, 1), ('vn1', 1, 8, DBL, 1), ('vn4', 4, 8, DBL, 1)):
            FACTS.__init__()
            E = Engine(m); E.run_ctors()
            o = Ptr(('obj', 'value'), (), ZERO); st = Ptr(('obj', 'stream'), (), ZERO)
            E.call('mk_' + nm, [o])
            want = []
            for k in range(n):
                v = sym('c%d' % k, ty is I32)
                E.store(E.call('at_' + nm, [o, const(k)]), size, v, guard=TRUE)
                if k: want.append('\t')
                want.append(('d', v))
            w8 = 'include/gals/utilities/%s.h' % {'v': 'vec3', 'm': 'mat3'}[nm[0]] if nm[:2] != 'vn' else 'include/gals/utilities/vec_n.h'
            mark = E.log
            E.call('pr_' + nm, [st, o])
            ctx.check(E.pc is TRUE, 'printing returns', nm, w8)
            E.pc = TRUE
            label = '%s %s' % (cfg, nm)
            try: compare_text(ctx, 'components in order', label, live(E.events(mark), st), st, want, w8)
            except Shape as x: ctx.unsure('components in order', '%s: %s' % (label, x), w8)
            own_format(ctx, E, mark, label, w8)
            for k in range(n):
                ctx.equal('printing changes nothing', '%s component %d' % (label, k), E.load(E.call('at_' + nm, [o, const(k)]), size, ty, pc=TRUE), sym('c%d' % k, ty is I32), w8)
            ctx.stats(E)
        for d in DIMS:
            for kind in 'svmn':
                if kind == 'n' and d == 1: continue
                w = World(m, d)
                if kind == 'n':
                    w.levelset(); a = w.ls['mix'][0]
                else: a = w.array('field', kind)
                st = w.obj('stream')
                snapshot_roots(w)
                mark = w.mark()
                r = w.d('pr_' + kind, st, a)
                label = '%dD %s array of %s' % (d, cfg, {'s': 'numbers', 'v': 'vectors', 'm': 'matrices', 'n': 'mixed derivatives'}[kind])
                ctx.check(w.E.pc is TRUE, 'printing returns', label, where)
                w.E.pc = TRUE
                ctx.check(r == st, 'the stream is returned', label, where)
                printed_array(ctx, w, w.E.events(mark), st, a, kind, mark, label, where)
                own_format(ctx, w.E, mark, label, where)
                frame_fields(ctx, w, mark, {'field': (a, kind)}, 'printing changes nothing', where)
                frame_rest(ctx, w, mark, set(), 'printing changes nothing', where)
                ctx.stats(w.E)
    ctx.floor = 300

FUW = 'src/cpu/file-utils.cc'
QUERY = {'exists', 'is_directory', 'is_file'}
def truth(c): return ite(c, ONE, ZERO)

def acts(ctx, E, mark, P, op, label, guards):
    """the file system changes after `mark`: exactly one `op`, on P, under one of `guards`"""
    muts = []
    for e in flat_events(E.events(mark)):
        if e[1][0] == 'fs' and e[1][1] not in QUERY: muts.append(e)
        elif e[1][0] == 'fs': ctx.equal('only the given path', '%s: path asked about (%s)' % (label, e[1][1]), e[1][2], P, E.mod.where(e[3]))
        elif e[1][0] in ('file_open', 'noreturn'): ctx.bad('only the given operation', '%s: %s' % (label, e[1][0]), E.mod.where(e[3]))
    if any(x[0] == 'loop' and any(y[1][0] == 'fs' for y in flat_events(x[2])) for x in E.events(mark)):
        ctx.unsure('only the given operation', '%s: file operations in a loop' % label, FUW); return None
    if op is None:
        for e in muts: ctx.equal('only the given operation', '%s: %s is not reached' % (label, e[1][1]), truth(e[2]), ZERO, E.mod.where(e[3]))
        ctx.ok('only the given operation', label); return None
    if not muts: ctx.bad('only the given operation', '%s: %s is never called' % (label, op), FUW); return None
    for e in muts:
        if e[1][1] != op: ctx.equal('only the given operation', '%s: %s is not reached' % (label, e[1][1]), truth(e[2]), ZERO, E.mod.where(e[3]))
    mine = [e for e in muts if e[1][1] == op]
    if len(mine) != 1: ctx.check(False, 'only the given operation', '%s: %s is called at %d places' % (label, op, len(mine)), FUW); return None
    e = mine[0]
    ctx.equal('only the given path', '%s: path of %s' % (label, op), e[1][2], P, E.mod.where(e[3]))
    for g in guards:
        if e[2] is g: ctx.ok('only the given operation', '%s: %s' % (label, op)); return g
    ctx.equal('only the given operation', '%s: condition under which %s happens' % (label, op), truth(e[2]), truth(guards[0]), E.mod.where(e[3]))
    return guards[0]

def C27(ctx):
    for cfg in ctx.configs:
        m = ctx.module(['world', 'print', 'files'], cfg)
        fsx = lambda op, P: boolatom(atom('fs', (op, P)))
        def start():
            FACTS.__init__()
            E = Engine(m); E.run_ctors(); E.streams_open = True
            f = Ptr(('obj', 'helper'), (), ZERO); s = Ptr(('obj', 'name'), (), ZERO)
            E.call('fu_make', [f])
            r = Ptr(('obj', 'root'), (), ZERO)
            E.store(r, 8, sym('root_dir', True), guard=TRUE); E.call('fu_set', [f, r])
            P = sym('path', True)
            E.store(s, 8, P, guard=TRUE)
            return E, f, s, P
        for probe, op, label in (('exists', None, 'fileExists'), ('rmfile', 'remove_file', 'removeFile'), ('mkdir', 'create_directories', 'createDirectory'), ('rmdir', 'remove_directories', 'removeDirectory')):
            E, f, s, P = start()
            mark = E.log
            r = E.tobool(E.call('fu_' + probe, [f, s]))
            ctx.check(E.pc is TRUE, 'the helper returns', label, FUW)
            E.pc = TRUE
            ex = fsx('exists', P)
            if op is None:
                acts(ctx, E, mark, P, None, label, [])
                want = ex
            elif op == 'create_directories':
                acts(ctx, E, mark, P, op, label, [cnot(ex)])
                want = cor(ex, fsx(op, P))
            else:
                g = acts(ctx, E, mark, P, op, label, [TRUE, ex])
                want = fsx(op, P) if g is not ex else cand(ex, fsx(op, P))
            ctx.equal("reports the file system's answer", '%s %s' % (cfg, label), truth(r), truth(want), FUW)
            ctx.stats(E)
        # root directory
        E, f, s, P = start()
        out = Ptr(('obj', 'text'), (), ZERO)
        E.call('fu_get', [f, out])
        ctx.equal('the root directory is the one last set', cfg + ' after one call', E.load(out, 8, I64, pc=TRUE), sym('root_dir', True), FUW)
        E.call('fu_set', [f, s]); E.call('fu_get', [f, out])
        ctx.equal('the root directory is the one last set', cfg + ' after two calls', E.load(out, 8, I64, pc=TRUE), P, FUW)
        mark = E.log
        E.call('fu_set', [f, s]); E.call('fu_get', [f, out])
        acts(ctx, E, mark, P, None, 'set/getRootDirectory', [])
        ctx.stats(E)
        # writing
        for d in DIMS:
            for kind in 'sv':
                w = World(m, d); a = w.array('field', kind); E = w.E
                E.streams_open = True
                f = w.obj('helper'); s = w.obj('name'); r = w.obj('root')
                w.call('fu_make', f)
                E.store(r, 8, sym('root_dir', True), guard=TRUE); w.call('fu_set', f, r)
                P = sym('path', True); E.store(s, 8, P, guard=TRUE)
                snapshot_roots(w)
                mark = w.mark()
                w.d('fu_w' + kind, f, s, a)
                label = '%dD %s write of %s' % (d, cfg, {'s': 'numbers', 'v': 'vectors'}[kind])
                ctx.check(E.pc is TRUE, 'the helper returns', label, FUW)
                E.pc = TRUE
                evs = E.events(mark)
                opens = [e for e in evs if e[0] == 'event' and e[1][0] == 'file_open']
                if len(opens) != 1 or opens[0][2] is not TRUE:
                    ctx.bad('exactly the named file', '%s: %d files are opened unconditionally' % (label, len(opens)), FUW); continue
                st, name, mode = opens[0][1][1:4]
                at = E.mod.where(opens[0][3])
                ctx.equal('exactly the named file', label + ': name', name, P, at)
                mv = cval(mode)
                if mv is None: ctx.unsure('the file is truncated', label + ': open mode %r' % (mode,), at)
                else:
                    mv = int(mv)
                    ctx.check(not mv & 1 and not (mv & 8 and not mv & 32), 'the file is truncated', '%s: open mode %d' % (label, mv), at)
                pos = [k for k, e in enumerate(evs) if e[0] == 'event' and e[1][0] == 'file_open'][0]
                closes = [k for k, e in enumerate(evs) if e[0] == 'event' and e[1][0] == 'file_close' and e[1][1] == st and e[2] is TRUE]
                if not closes: ctx.bad('the file is closed', label, FUW); continue
                end = closes[0]
                text = live(evs, st)
                inside = live(evs[pos:end], st)
                ctx.check(len(text) == len(inside), 'text goes to the open file', label, FUW)
                for e in evs:
                    if e[0] == 'event' and e[1][0] == 'fs' and e[1][1] not in QUERY: ctx.equal('only the given operation', '%s: %s is not reached' % (label, e[1][1]), truth(e[2]), ZERO, E.mod.where(e[3]))
                printed_array(ctx, w, evs[pos:end], st, a, kind, mark, label, FUW)
                frame_fields(ctx, w, mark, {'field': (a, kind)}, 'writing changes nothing in memory', FUW)
                frame_rest(ctx, w, mark, set(), 'writing changes nothing in memory', FUW)
                ctx.stats(E)
    ctx.assumptions += ['a named file can be opened for writing; operations of the file system library do what their names say']
    ctx.floor = 100
