"""Front end: compile the current /repo sources (plus the probe file of a check) to LLVM IR with clang,
link, and bring the IR into a canonical dataflow form (everything inlined, promoted to SSA).
Nothing is executed; the IR text is the only input of the analyses."""
import os, re, subprocess, glob, hashlib, shutil, sys
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('GALS_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

class BuildError(Exception):
    pass

def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True, **kw)
    if r.returncode != 0:
        raise BuildError('%s\n%s' % (' '.join(cmd[:12]), r.stderr[-4000:]))
    return r.stdout

def sources(extra_unbuilt=False):
    """the library's translation units, as src/CMakeLists picks them up: every .cc below src/cpu"""
    out = []
    for root, dirs, files in os.walk(os.path.join(REPO, 'src', 'cpu')):
        for f in sorted(files):
            if f.endswith('.cc'):
                out.append(os.path.join(root, f))
    return sorted(out)

def cflags(config):
    fl = ['-std=c++14', '-I' + os.path.join(REPO, 'include'), '-I' + REPO, '-I' + os.path.join(HERE, 'harness'), '-isystem', os.path.join(HERE, 'stubs', 'model'),
          '-w', '-fno-access-control']
    if config == 'tests':
        fl.append('-DBUILD_TESTS')
    return fl

IRFLAGS = ['-O1', '-Xclang', '-disable-llvm-passes', '-fno-discard-value-names', '-gline-tables-only',
           '-fno-vectorize', '-fno-slp-vectorize', '-ffp-contract=off', '-emit-llvm', '-c']

def compile_units(units, outdir, config, extra=()):
    def one(u):
        o = os.path.join(outdir, re.sub(r'[^A-Za-z0-9]', '_', u) + '.bc')
        run(['clang++-18'] + list(extra) + cflags(config) + IRFLAGS + [u, '-o', o])
        return o
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, units))

# Library functions that are kept as calls and modelled by the engine instead of being inlined.
OPAQUE = re.compile(r'^(std::__shared|std::_Sp_|std::shared_ptr|std::__throw_|std::locale)')

def demangle(names):
    p = subprocess.run(['c++filt'], input='\n'.join(names) + '\n', stdout=subprocess.PIPE, universal_newlines=True)
    return dict(zip(names, p.stdout.split('\n')))

DEF = re.compile(r'^define\b.*?@("[^"]+"|[-\w.$]+)\(')

def strip_ret(dem):
    """'ret T::f(args)' -> 'T::f(args)': drop a leading return type that c++filt prints for templates."""
    depth = 0
    cut = 0
    for i, ch in enumerate(dem):
        if ch in '<(':
            if ch == '(' and depth == 0:
                break
            depth += 1
        elif ch in '>)':
            depth -= 1
        elif ch == ' ' and depth == 0:
            if dem[max(0, i-8):i].endswith('operator') or dem[i+1:i+9] == 'operator':
                pass
            cut = i + 1
            if dem[:i].endswith('operator'):
                cut = 0
    r = dem[cut:]
    return r

def prepare(bcs, probes, work, opaque_extra=None, keep=None):
    """link, mark everything but the modelled functions always-inline, internalise, optimise to SSA; return path of .ll"""
    linked = os.path.join(work, 'linked.bc')
    run(['llvm-link-18', '-o', linked] + bcs)
    pruned = os.path.join(work, 'pruned.ll')
    run(['opt-18', '-S', '-passes=internalize,globaldce', '-internalize-public-api-list=' + ','.join(probes + ['llvm.global_ctors', '_GLOBAL__*']),
         linked, '-o', pruned])
    text = open(pruned).read()
    lines = text.split('\n')
    names = []
    for l in lines:
        m = DEF.match(l)
        if m:
            names.append(m.group(1).strip('"'))
    dem = demangle(names)
    out = []
    keepfns = set()
    for l in lines:
        m = DEF.match(l)
        if m:
            n = m.group(1).strip('"')
            d = strip_ret(dem[n])
            opaque = bool(OPAQUE.match(d)) or (opaque_extra and opaque_extra(n, d))
            attr = 'noinline ' if (opaque or n in probes) else 'alwaysinline '
            # function attributes follow the closing parenthesis of the parameter list
            depth = 0
            for pos in range(m.end() - 1, len(l)):
                if l[pos] == '(':
                    depth += 1
                elif l[pos] == ')':
                    depth -= 1
                    if depth == 0:
                        break
            pos += 1
            mm = re.match(r' (local_unnamed_addr |unnamed_addr )?', l[pos:])
            pos += mm.end()
            l = l[:pos] + attr + l[pos:]
        out.append(l)
    marked = os.path.join(work, 'marked.ll')
    t = '\n'.join(out)
    # constructor aliases (C1 = C2): call the aliasee, so that it is inlined
    alias = dict(re.findall(r'^@("[^"]+"|[-\w.$]+) = .*?\balias .*?, ptr @("[^"]+"|[-\w.$]+)', t, re.M))
    if alias:
        t = re.sub(r'@("[^"]+"|[-\w.$]+)\(', lambda m: '@' + alias.get(m.group(1), m.group(1)) + '(', t)
    # an attribute group may carry noinline/optnone: not wanted together with alwaysinline
    t = re.sub(r'(attributes #\d+ = \{)([^}]*)\}', lambda m: m.group(1) + re.sub(r'\b(noinline|optnone|alwaysinline|mustprogress)\b', '', m.group(2)) + '}', t)
    open(marked, 'w').write(t)
    final = os.path.join(work, 'final.ll')
    run(['opt-18', '-S', '-passes=' + PASSES,
         '-simplifycfg-hoist-common=false', '-two-entry-phi-node-folding-threshold=0', '-speculate-one-expensive-inst=false',
         marked, '-o', final])
    return final

_CLEAN = 'sroa,early-cse,instsimplify,sccp,simplifycfg,adce,loop-simplify'
PASSES = ('function(lowerinvoke,simplifycfg),always-inline,globaldce,function(' + _CLEAN + ',' + _CLEAN + '),globaldce')
