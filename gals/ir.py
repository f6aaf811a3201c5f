"""Parser for the textual LLVM IR that the front end produces (the subset clang emits for this code base)."""
import re, struct
from fractions import Fraction

class IRError(Exception):
    pass

# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'n', 'elts', 'name', 'packed')
    def __init__(self, k, n=0, elts=None, name=None, packed=False):
        self.k, self.n, self.elts, self.name, self.packed = k, n, elts, name, packed
    def __repr__(self):
        if self.k == 'int': return 'i%d' % self.n
        if self.k == 'arr': return '[%d x %r]' % (self.n, self.elts[0])
        if self.k == 'vec': return '<%d x %r>' % (self.n, self.elts[0])
        if self.k == 'named': return '%' + self.name
        if self.k == 'struct': return '{' + ', '.join(map(repr, self.elts)) + '}'
        return self.k

TOK = re.compile(r'''\s*(?:
  (?P<str>c?"(?:[^"\\]|\\.)*") |
  (?P<local>%(?:"[^"]+"|[-\w.$]+)) |
  (?P<glob>@(?:"[^"]+"|[-\w.$]+)) |
  (?P<meta>!(?:"[^"]*"|[-\w.$]+)?) |
  (?P<attr>\#\d+) |
  (?P<comdat>\$(?:"[^"]+"|[-\w.$]+)) |
  (?P<num>-?\d+\.\d+(?:e[-+]?\d+)?|0x[0-9A-FKLMHR]+|-?\d+) |
  (?P<dots>\.\.\.) |
  (?P<id>[A-Za-z_][\w.]*) |
  (?P<p>[(){}\[\]<>,=*:|])
)''', re.X)

def tokenize(line):
    out = []
    i = 0
    n = len(line)
    while i < n:
        m = TOK.match(line, i)
        if not m:
            if line[i:].strip() == '' or line[i:].lstrip().startswith(';'):
                break
            raise IRError('cannot tokenize: ' + line[i:i+60])
        k = m.lastgroup
        out.append((k, m.group(k)))
        i = m.end()
    return out

def unq(s):
    s = s[1:]
    if s.startswith('"'):
        s = s[1:-1]
    return s

class Toks:
    __slots__ = ('t', 'i', 'mod')
    def __init__(self, t, mod): self.t, self.i, self.mod = t, 0, mod
    def peek(self, k=0): return self.t[self.i + k] if self.i + k < len(self.t) else (None, None)
    def next(self):
        x = self.t[self.i]; self.i += 1; return x
    def eof(self): return self.i >= len(self.t)
    def accept(self, v):
        if self.i < len(self.t) and self.t[self.i][1] == v:
            self.i += 1; return True
        return False
    def expect(self, v):
        if not self.accept(v):
            raise IRError('expected %r at %r' % (v, self.t[self.i:self.i+6]))
    # -- types
    def type(self):
        k, v = self.next()
        if k == 'id':
            if v[0] == 'i' and v[1:].isdigit(): t = Ty('int', int(v[1:]))
            elif v in ('double', 'float', 'ptr', 'void', 'label', 'metadata', 'x86_fp80', 'half', 'token', 'opaque'): t = Ty(v)
            else: raise IRError('type? ' + v)
        elif k == 'local': t = Ty('named', name=unq(v))
        elif v == '[':
            n = int(self.next()[1]); self.expect('x'); e = self.type(); self.expect(']'); t = Ty('arr', n, [e])
        elif v == '{':
            es = []
            while not self.accept('}'):
                es.append(self.type()); self.accept(',')
            t = Ty('struct', elts=es)
        elif v == '<':
            if self.peek()[1] == '{':
                self.next(); es = []
                while not self.accept('}'):
                    es.append(self.type()); self.accept(',')
                self.expect('>'); t = Ty('struct', elts=es, packed=True)
            else:
                n = int(self.next()[1]); self.expect('x'); e = self.type(); self.expect('>'); t = Ty('vec', n, [e])
        else: raise IRError('type? %r' % (v,))
        # function type
        if self.peek()[1] == '(' and t.k != 'label':
            # only in call through explicit function type: ret (args)
            save = self.i
            try:
                self.next(); args = []
                while not self.accept(')'):
                    if self.accept('...'): pass
                    else: args.append(self.type())
                    self.accept(',')
                return Ty('fn', elts=[t] + args)
            except IRError:
                self.i = save
        return t

# ---------------------------------------------------------------- values in IR operands
class Op:
    """operand: kind in local, global, int, fp, null, undef, zero, cexpr, agg, str, bool"""
    __slots__ = ('k', 'v', 'ty')
    def __init__(self, k, v, ty): self.k, self.v, self.ty = k, v, ty
    def __repr__(self): return '%s:%s' % (self.k, self.v)

PARAM_ATTRS = {'noundef', 'nonnull', 'noalias', 'nocapture', 'readonly', 'readnone', 'writeonly', 'signext', 'zeroext', 'immarg', 'returned',
               'noreturn', 'nounwind', 'inreg', 'nofree', 'writable', 'dead_on_unwind', 'swiftself', 'allocptr', 'mustprogress', 'dso_local', 'nest', 'nosync'}

def fpconst(s, ty):
    if s.startswith('0x'):
        if s[2] in 'KLMHR': return None
        return struct.unpack('>d', bytes.fromhex(s[2:].rjust(16, '0')))[0]
    return float(s)

class Inst:
    __slots__ = ('op', 'res', 'ty', 'ops', 'x', 'dbg', 'fn', 'text', 'tbs')
    def __init__(self, op, res, ty, ops, x, dbg, fn, text):
        self.op, self.res, self.ty, self.ops, self.x, self.dbg, self.fn, self.text = op, res, ty, ops, x, dbg, fn, text

class Block:
    def __init__(self, name): self.name, self.insts, self.preds, self.succs = name, [], [], []

class Func:
    def __init__(self, name): self.name, self.args, self.blocks, self.order, self.dbg, self.rety = name, [], {}, [], None, None

class Module:
    def __init__(self, path):
        self.types, self.globals, self.funcs, self.md, self.decls, self.ctors = {}, {}, {}, {}, set(), []
        self._lay = {}
        self.load(path)

    # layout ------------------------------------------------------
    def size_align(self, t):
        if t.k == 'int':
            b = max(1, (t.n + 7) // 8)
            p = 1
            while p < b: p *= 2
            return (p, min(p, 16))
        if t.k in ('double', 'ptr'): return (8, 8)
        if t.k == 'float': return (4, 4)
        if t.k == 'x86_fp80': return (16, 16)
        if t.k == 'arr':
            s, a = self.size_align(t.elts[0]); return (s * t.n, a)
        if t.k == 'vec':
            s, a = self.size_align(t.elts[0]); return (s * t.n, s * t.n)
        if t.k == 'named':
            if t.name not in self._lay:
                self._lay[t.name] = self.size_align(self.types[t.name])
            return self._lay[t.name]
        if t.k == 'struct':
            off, al = 0, 1
            for e in t.elts:
                s, a = self.size_align(e)
                if t.packed: a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            return ((off + al - 1) // al * al, al)
        raise IRError('size of %r' % t)
    def sizeof(self, t): return self.size_align(t)[0]
    def resolve(self, t):
        while t.k == 'named': t = self.types[t.name]
        return t
    def field(self, t, i):
        t = self.resolve(t)
        if t.k in ('arr', 'vec'): return (i * self.sizeof(t.elts[0]), t.elts[0])
        off = 0
        for j, e in enumerate(t.elts):
            s, a = self.size_align(e)
            if t.packed: a = 1
            off = (off + a - 1) // a * a
            if j == i: return (off, e)
            off += s
        raise IRError('field')

    # loading -----------------------------------------------------
    def load(self, path):
        fn = None; blk = None
        pending = None
        for raw in open(path):
            line = raw.rstrip('\n')
            if fn is None:
                if line.startswith('define'):
                    fn = self.parse_define(line); blk = None; continue
                if line.startswith('@'):
                    self.parse_global(line); continue
                if line.startswith('%'):
                    m = re.match(r'^(%(?:"[^"]+"|[-\w.$]+)) = type (.*)$', line)
                    if m:
                        body = m.group(2)
                        if body.strip() != 'opaque':
                            self.types[unq(m.group(1))] = Toks(tokenize(body), self).type()
                    continue
                if line.startswith('declare'):
                    m = re.search(r'@("[^"]+"|[-\w.$]+)\(', line)
                    if m: self.decls.add(m.group(1).strip('"'))
                    continue
                if line.startswith('!'):
                    m = re.match(r'^!(\d+) = (?:distinct )?!?(.*)$', line)
                    if m: self.md[int(m.group(1))] = m.group(2)
                    continue
                continue
            if line == '}':
                self.finish(fn); fn = None; continue
            if pending is not None:
                pending += ' ' + line.strip()
                if line.strip() == ']' or line.strip().startswith('],') or re.match(r'^\s*\]', line):
                    line = pending; pending = None
                else: continue
            if not line.strip() or line.lstrip().startswith(';'): continue
            m = re.match(r'^("[^"]+"|[-\w.$]+):', line)
            if m and not line.startswith(' '):
                blk = Block(m.group(1).strip('"')); fn.blocks[blk.name] = blk; fn.order.append(blk.name); continue
            if blk is None:
                nm = str(sum(1 for a in fn.args if a[1].isdigit()))
                blk = Block(nm); fn.blocks[nm] = blk; fn.order.append(nm)
            if re.match(r'^\s*switch .*\[$', line):
                pending = line; continue
            if line.lstrip().startswith('cleanup') or line.lstrip().startswith('catch') or line.lstrip().startswith('filter'):
                continue
            inst = self.parse_inst(line, fn)
            if inst is not None: blk.insts.append(inst)

    def parse_define(self, line):
        m = re.search(r'@("[^"]+"|[-\w.$]+)\(', line)
        f = Func(m.group(1).strip('"'))
        depth = 0
        for pos in range(m.end() - 1, len(line)):
            if line[pos] == '(': depth += 1
            elif line[pos] == ')':
                depth -= 1
                if depth == 0: break
        args = line[m.end():pos]
        md = re.search(r'!dbg !(\d+)', line[pos:])
        f.dbg = int(md.group(1)) if md else None
        t = Toks(tokenize(args), self)
        while not t.eof():
            if t.accept('...'): break
            ty = t.type(); sret = False
            attrs = []
            while not t.eof() and t.peek()[0] != 'local' and t.peek()[1] != ',':
                k, v = t.next(); attrs.append(v)
                if t.peek()[1] == '(':
                    d = 0
                    while True:
                        k2, v2 = t.next()
                        if v2 == '(': d += 1
                        if v2 == ')':
                            d -= 1
                            if d == 0: break
            nm = unq(t.next()[1]) if t.peek()[0] == 'local' else str(len(f.args))
            f.args.append((ty, nm, attrs))
            t.accept(',')
        self.funcs[f.name] = f
        return f

    def parse_global(self, line):
        m = re.match(r'^@("[^"]+"|[-\w.$]+) = (.*)$', line)
        name = m.group(1).strip('"'); rest = m.group(2)
        if re.search(r'\balias\b', rest.split('"')[0]) and ' alias ' in rest: return
        mm = re.search(r'\b(global|constant) ', rest)
        if not mm: return
        const = mm.group(1) == 'constant'
        ext = bool(re.match(r'.*\bexternal\b', rest[:mm.start()]))
        if name in ('llvm.used', 'llvm.compiler.used'): return
        if name == 'llvm.global_ctors':
            self.ctors = re.findall(r'ptr @("[^"]+"|[-\w.$]+), ptr', rest)
            return
        t = Toks(tokenize(rest[mm.end():]), self)
        ty = t.type()
        init = None
        if not ext and not t.eof() and t.peek()[1] != ',':
            try: init = self.const(t, ty)
            except IRError: init = None
        self.globals[name] = dict(ty=ty, const=const, init=init, ext=ext)

    def const(self, t, ty):
        k, v = t.next()
        if k == 'num':
            if ty.k in ('double', 'float'):
                return Op('fp', fpconst(v, ty), ty)
            return Op('int', int(v), ty)
        if k == 'str':
            return Op('str', v, ty)
        if k == 'local': return Op('local', unq(v), ty)
        if k == 'glob': return Op('global', unq(v), ty)
        if v == 'true': return Op('bool', True, ty)
        if v == 'false': return Op('bool', False, ty)
        if v == 'null': return Op('null', None, ty)
        if v in ('undef', 'poison'): return Op('undef', None, ty)
        if v == 'zeroinitializer': return Op('zero', None, ty)
        if v in ('{', '[', '<'):
            if v == '<' and t.peek()[1] == '{':
                t.next(); close = ['}', '>']
            else: close = [{'{': '}', '[': ']', '<': '>'}[v]]
            es = []
            while not t.accept(close[0]):
                et = t.type(); es.append(self.const(t, et)); t.accept(',')
            for c in close[1:]: t.expect(c)
            return Op('agg', es, ty)
        if v in ('getelementptr', 'bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast', 'sub', 'add', 'trunc', 'icmp'):
            while t.peek()[1] in ('inbounds', 'nuw', 'nsw', 'nusw'): t.next()
            if t.peek()[0] == 'id' and v == 'icmp': raise IRError('cexpr icmp')
            t.expect('(')
            if v == 'getelementptr':
                bt = t.type(); t.expect(',')
                ops = []
                while not t.accept(')'):
                    t.accept('inrange')
                    et = t.type(); ops.append(self.const(t, et)); t.accept(',')
                return Op('cexpr', ('gep', bt, ops), ty)
            ops = []
            et = t.type(); ops.append(self.const(t, et))
            if t.accept('to'):
                tt = t.type(); t.expect(')'); return Op('cexpr', (v, tt, ops), ty)
            while t.accept(','):
                et = t.type(); ops.append(self.const(t, et))
            t.expect(')')
            return Op('cexpr', (v, ty, ops), ty)
        if v == 'metadata' or k == 'meta': return Op('meta', v, ty)
        if v == 'asm': raise IRError('asm')
        raise IRError('const? %r %r' % (k, v))

    def operand(self, t, ty):
        return self.const(t, ty)

    def typed(self, t):
        ty = t.type()
        self.skip_attrs(t)
        return self.operand(t, ty)

    def skip_attrs(self, t):
        while t.peek()[0] == 'id' and (t.peek()[1] in PARAM_ATTRS or t.peek()[1] in ('align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'elementtype', 'nofpclass', 'memory', 'captures', 'range', 'initializes')):
            w = t.next()[1]
            if t.peek()[1] == '(':
                d = 0
                while True:
                    v = t.next()[1]
                    if v == '(': d += 1
                    elif v == ')':
                        d -= 1
                        if d == 0: break
            elif w == 'align': t.next()

    def parse_inst(self, line, fn):
        dbg = None
        m = re.search(r', !dbg !(\d+)', line)
        if m: dbg = int(m.group(1))
        mm = re.search(r', !tbaa\.struct !(\d+)', line)
        tbs = int(mm.group(1)) if mm else None
        # cut trailing metadata
        body = re.sub(r'(, ![\w.]+ !\d+)+\s*$', '', line.strip())
        body = re.sub(r'(, ![\w.]+ !\d+)+\s*$', '', body)
        if body.startswith('#dbg') or '@llvm.dbg.' in body: return None
        t = Toks(tokenize(body), self)
        res = None
        if t.peek()[0] == 'local' and t.peek(1)[1] == '=':
            res = unq(t.next()[1]); t.next()
        op = t.next()[1]
        x = None; ops = []; ty = None
        FL = ('nsw', 'nuw', 'exact', 'inbounds', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'disjoint', 'nneg', 'samesign', 'nusw')
        if op in ('tail', 'musttail', 'notail'): op = t.next()[1]
        flags = []
        if op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            while t.peek()[1] in FL: flags.append(t.next()[1])
            ty = t.type(); a = self.operand(t, ty); t.expect(','); b = self.operand(t, ty); ops = [a, b]; x = flags
        elif op == 'fneg':
            while t.peek()[1] in FL: t.next()
            ty = t.type(); ops = [self.operand(t, ty)]
        elif op in ('icmp', 'fcmp'):
            while t.peek()[1] in FL: t.next()
            x = t.next()[1]
            oty = t.type(); a = self.operand(t, oty); t.expect(','); b = self.operand(t, oty); ops = [a, b]; ty = Ty('int', 1)
        elif op in ('sext', 'zext', 'trunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'ptrtoint', 'inttoptr', 'bitcast', 'freeze', 'addrspacecast'):
            while t.peek()[1] in FL: flags.append(t.next()[1])
            a = self.typed(t); ops = [a]; x = flags
            ty = a.ty if op == 'freeze' else (t.expect('to'), t.type())[1]
        elif op == 'getelementptr':
            while t.peek()[1] in FL: t.next()
            x = t.type(); t.expect(',')
            while True:
                ops.append(self.typed(t))
                if not t.accept(','): break
            ty = Ty('ptr')
        elif op == 'load':
            t.accept('volatile'); t.accept('atomic')
            ty = t.type(); t.expect(','); ops = [self.typed(t)]
        elif op == 'store':
            t.accept('volatile'); t.accept('atomic')
            a = self.typed(t); t.expect(','); b = self.typed(t); ops = [a, b]
        elif op == 'alloca':
            x = t.type(); ty = Ty('ptr')
            if t.accept(','):
                if t.peek()[1] not in ('align',):
                    ops = [self.typed(t)]
        elif op == 'phi':
            while t.peek()[1] in FL: t.next()
            ty = t.type(); x = []
            while t.accept('['):
                v = self.operand(t, ty); t.expect(','); b = unq(t.next()[1]); t.expect(']'); x.append((v, b)); t.accept(',')
        elif op == 'select':
            while t.peek()[1] in FL: t.next()
            c = self.typed(t); t.expect(','); a = self.typed(t); t.expect(','); b = self.typed(t); ops = [c, a, b]; ty = a.ty
        elif op == 'br':
            if t.peek()[1] == 'label':
                t.next(); x = [unq(t.next()[1])]
            else:
                c = self.typed(t); t.expect(','); t.expect('label'); l1 = unq(t.next()[1]); t.expect(','); t.expect('label'); l2 = unq(t.next()[1])
                ops = [c]; x = [l1, l2]
        elif op == 'switch':
            c = self.typed(t); t.expect(','); t.expect('label'); d = unq(t.next()[1]); t.expect('[')
            cases = []
            while not t.accept(']'):
                v = self.typed(t); t.expect(','); t.expect('label'); cases.append((v, unq(t.next()[1])))
            ops = [c]; x = (d, cases)
        elif op == 'ret':
            ty = t.type()
            if ty.k != 'void': ops = [self.operand(t, ty)]
        elif op in ('unreachable', 'resume', 'landingpad', 'fence'):
            x = None
        elif op in ('call', 'invoke'):
            while t.peek()[1] in FL or t.peek()[1] in ('fastcc', 'ccc', 'coldcc'): t.next()
            self.skip_attrs(t)
            while t.peek()[0] == 'id' and t.peek()[1] in PARAM_ATTRS: t.next()
            ty = t.type()
            if ty.k == 'fn': ty = ty.elts[0]
            callee = self.operand(t, Ty('ptr'))
            t.expect('(')
            while not t.accept(')'):
                aty = t.type()
                if aty.k == 'metadata':
                    d = 0
                    # skip metadata argument
                    while not (d == 0 and t.peek()[1] in (',', ')')):
                        v = t.next()[1]
                        if v == '(': d += 1
                        elif v == ')': d -= 1
                    t.accept(','); ops.append(Op('meta', None, aty)); continue
                self.skip_attrs(t)
                ops.append(self.operand(t, aty)); t.accept(',')
            x = callee
            op = 'call'
        elif op == 'extractvalue':
            a = self.typed(t); x = []
            while t.accept(','): x.append(int(t.next()[1]))
            ops = [a]
            ty = a.ty
            for i in x: ty = self.field(ty, i)[1]
        elif op == 'insertvalue':
            a = self.typed(t); t.expect(','); b = self.typed(t); x = []
            while t.accept(','): x.append(int(t.next()[1]))
            ops = [a, b]; ty = a.ty
        elif op in ('atomicrmw', 'cmpxchg', 'extractelement', 'insertelement', 'shufflevector', 'va_arg'):
            x = body
        else:
            raise IRError('instruction? ' + line)
        i = Inst(op, res, ty, ops, x, dbg, fn, body); i.tbs = tbs
        return i

    def finish(self, fn):
        for b in fn.blocks.values():
            term = b.insts[-1]
            if term.op == 'br': b.succs = list(dict.fromkeys(term.x))
            elif term.op == 'switch': b.succs = list(dict.fromkeys([term.x[0]] + [l for _, l in term.x[1]]))
        for b in fn.blocks.values():
            for s in b.succs: fn.blocks[s].preds.append(b.name)

    # debug locations ----------------------------------------------
    def loc(self, dbg, depth=0):
        """-> list of (file, line, function), innermost first"""
        out = []
        seen = 0
        while dbg is not None and seen < 12:
            seen += 1
            s = self.md.get(dbg)
            if not s or not s.startswith('DILocation'): break
            line = int(re.search(r'line: (\d+)', s).group(1)) if 'line:' in s else 0
            m = re.search(r'scope: !(\d+)', s)
            fnm, file = self.scope(int(m.group(1))) if m else ('?', '?')
            out.append((file, line, fnm))
            m = re.search(r'inlinedAt: !(\d+)', s)
            dbg = int(m.group(1)) if m else None
        return out
    def scope(self, sid):
        file = None
        for _ in range(20):
            s = self.md.get(sid, '')
            m = re.search(r'file: !(\d+)', s)
            if m and file is None:
                fs = self.md.get(int(m.group(1)), '')
                fm = re.search(r'filename: "([^"]*)"', fs)
                if fm: file = fm.group(1)
            if s.startswith('DISubprogram'):
                nm = re.search(r'\bname: "([^"]*)"', s) or re.search(r'linkageName: "([^"]*)"', s)
                return (nm.group(1) if nm else '?', file or '?')
            m = re.search(r'scope: !(\d+)', s)
            if not m: return ('?', file or '?')
            sid = int(m.group(1))
        return ('?', file or '?')
    def where(self, dbg):
        """innermost location inside the repository, else innermost"""
        ls = self.loc(dbg)
        for f, l, n in ls:
            if '/include/c++' in f or 'bits/' in f or f.startswith('/usr') or 'stubs/model' in f: continue
            return '%s:%d (%s)' % (f, l, n)
        return '%s:%d (%s)' % ls[0] if ls else '?'
