"""Every public operation is defined by the library, and nothing else is."""
import json, os, re, subprocess
from .common import *
from .. import build
from ..build import HERE, REPO, cflags, demangle

def ast_classes(config):
    """(class, method, mangled name, public, has a body in the header, deleted, line) of every member function named by harness/types.cc"""
    cmd = ['clang++-18', *[f for f in cflags(config) if f != '-fno-access-control'], '-fsyntax-only', '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=GALS', os.path.join(HERE, 'harness', 'types.cc')]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True)
    if r.returncode != 0: return None, r.stderr
    dec = json.JSONDecoder(); s = r.stdout; p = 0
    found = []; bodies = set()
    def walk(x, cls, pattern):
        k = x.get('kind')
        if k in ('ClassTemplateDecl', 'NamespaceDecl', 'LinkageSpecDecl'):
            inner = x.get('inner', [])
            for c in inner: walk(c, cls, k == 'ClassTemplateDecl' and c.get('kind') == 'CXXRecordDecl')
            return
        if k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl', 'ClassTemplatePartialSpecializationDecl'):
            if not x.get('completeDefinition') and 'inner' not in x: return
            pat = pattern or k == 'ClassTemplatePartialSpecializationDecl'
            acc = 'public' if x.get('tagUsed') == 'struct' else 'private'
            for c in x.get('inner', []):
                ck = c.get('kind')
                if ck == 'AccessSpecDecl': acc = c.get('access', acc)
                elif ck in ('CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl'):
                    key = (x.get('name'), c.get('loc', {}).get('offset', c.get('loc', {}).get('expansionLoc', {}).get('offset')))
                    if any(i.get('kind') == 'CompoundStmt' for i in c.get('inner', [])) or c.get('explicitlyDefaulted'): bodies.add(key)
                    if not pat and 'mangledName' in c and not c.get('isImplicit'):
                        found.append((key, c['mangledName'], acc == 'public', bool(c.get('explicitlyDeleted'))))
                else: walk(c, x.get('name'), False)
    while p < len(s):
        while p < len(s) and s[p] != '{': p = s.find('\n', p) + 1 or len(s)
        if p >= len(s): break
        x, p = dec.raw_decode(s, p)
        walk(x, None, False)
    out = {}
    for key, mn, pub, dele in found: out[mn] = (key, pub, key in bodies, dele)
    return out, ''

def symbols(files):
    """(defined, undefined) symbol names"""
    d, u = set(), set()
    for f in files:
        for l in subprocess.run(['llvm-nm-18', f], stdout=subprocess.PIPE, universal_newlines=True).stdout.splitlines():
            m = re.match(r'\S*\s+(\w) (\S+)$', l.strip()) or re.match(r'(\w) (\S+)$', l.strip())
            if not m: continue
            if m.group(1) in 'Uwv': u.add(m.group(2))
            elif m.group(1) not in 'tdbr': d.add(m.group(2))
    return d, u

PRE = '''#include <new>
#include "gals/cpu/gradient.h"
#include "gals/cpu/interpolate.h"
#include "gals/cpu/levelset-velocity.h"
#include "gals/cpu/levelset.h"
#include "gals/cpu/temporal.h"
#include "gals/analytical-fields/levelset.h"
#include "gals/analytical-fields/velocity.h"
#include "gals/utilities/array.h"
#include "gals/utilities/file-utils.h"
#include "gals/utilities/grid.h"
using namespace GALS::CPU;
namespace I = GALS::INTERPOLATION;
namespace S = GALS::TEMPORAL_SCHEMES;
template <int D> using G = Grid<double, D>;
#define USE extern "C" __attribute__((used)) void use
'''
REJECTED = [
 ('linear interpolation on a 2D grid', 'USE(Array<G<2>, Vec3<double>>* x, Array<G<2>, double>* a) { I::Linear<double, G<2>> l; l.compute(*x, *a, *a); }'),
 ('linear interpolation on a 3D grid', 'USE(Array<G<3>, Vec3<double>>* x, Array<G<3>, double>* a) { I::Linear<double, G<3>> l; l.compute(*x, *a, *a); }'),
 ('single-point linear interpolation on a 2D grid', 'USE(G<2>* g, Array<G<2>, double>* a) { I::Linear<double, G<2>>().linearInterpolation(*g, Vec3<double>(), *a); }'),
 ('single-point linear interpolation on a 3D grid', 'USE(G<3>* g, Array<G<3>, double>* a) { I::Linear<double, G<3>>().linearInterpolation(*g, Vec3<double>(), *a); }'),
 ('linear front end on a 2D grid', 'USE(Array<G<2>, Vec3<double>>* x, Array<G<2>, double>* a) { Interpolate<double, G<2>>::compute(*x, *a, *a); }'),
 ('linear front end on a 3D grid', 'USE(Array<G<3>, Vec3<double>>* x, Array<G<3>, double>* a) { Interpolate<double, G<3>>::compute(*x, *a, *a); }'),
 ('linear level-set front end on a 2D grid', 'USE(Array<G<2>, Vec3<double>>* x, Levelset<G<2>, double>* l) { Interpolate<double, G<2>>::compute(*x, *l); }'),
 ('Hermite interpolation on a 4D grid', 'USE(G<4>* g, Levelset<G<4>, double>* l) { I::Hermite<double, G<4>>().interpolate(*g, Vec3<double>(), *l); }'),
 ('a 4D grid', 'USE(G<4>* g) { g->generate(0, 1, 0, 1, 0, 1); }'),
 ('construction of a 4D grid', 'USE(void* p) { new (p) G<4>(1, 1, 1); }'),
 ('a 0D grid', 'USE(G<0>* g) { g->generate(0, 1, 0, 1, 0, 1); }'),
 ('a 4D level set', 'USE(G<4>* g, void* p) { new (p) Levelset<G<4>, double>(*g); }'),
 ('a level set without a grid', 'USE(void* p) { new (p) Levelset<G<2>, double>(); }'),
 ('a velocity without a grid', 'USE(void* p) { new (p) LevelsetVelocity<G<2>, double>(); }'),
 ('an array without a grid', 'USE(void* p) { new (p) Array<G<2>, double>(); }'),
]
for d in DIMS: REJECTED.append(('a container of another dimension (%dD)' % d, 'USE(G<%d>* g, void* p) { new (p) Levelset<G<%d>, double>(*g); }' % (d, d % 3 + 1)))
for d in DIMS: REJECTED.append(('gradient of a %dD field into a field of another dimension' % d, 'USE(Array<G<%d>, double>* a, Array<G<%d>, Vec3<double>>* o) { Gradient<double, G<%d>>::compute(*a, *o); }' % (d, d % 3 + 1, d)))
CLIENTS = ['algebra', 'world', 'grid', 'cont', 'grad', 'interp', 'time', 'analytic', 'input', 'print', 'files', 'guard']

def C24(ctx):
    for cfg in ctx.configs:
        bcs = ctx.units(cfg)
        defined, _ = symbols(bcs)
        ours = lambda n: '4GALS' in n
        ctx.analysed['library_symbols'] = len([x for x in defined if ours(x)])
        # 1. every declared public member function
        ms, err = ast_classes(cfg)
        if ms is None:
            first = next((l for l in err.splitlines() if 'error' in l), err[:300])
            ctx.bad('every public class exists', '%s: a program naming the public classes does not compile: %s' % (cfg, first), 'include/gals'); continue
        dem = demangle(sorted(ms))
        n = 0
        for mn, (key, pub, body, dele) in sorted(ms.items()):
            if not pub or body or dele: continue
            n += 1
            ctx.check(mn in defined, 'every declared public operation is defined', '%s: %s' % (cfg, dem.get(mn, mn)), 'include/gals (class %s)' % key[0])
        ctx.analysed['declared_operations'] = n
        lost = {'Array', 'Levelset', 'Grid', 'VecN', 'Vec3', 'Mat3', 'LevelsetVelocity', 'Gradient', 'Euler', 'InputParserBase', 'Velocity', 'SecondOrderCentral', 'ThirdOrder', 'Hermite', 'Temporal', 'Interpolate', 'FileUtils', 'Linear', 'InputFields', 'General', 'Time', 'InputParser'} - {k[0][0] for k in ms.values()}
        if lost or n < 300: ctx.unsure('every declared public operation is defined', '%d declared operations were found, none of the classes %s' % (n, sorted(lost)))
        # 2. programs using the operations resolve
        d = os.path.join(ctx.work, cfg + '_clients'); os.makedirs(d, exist_ok=True)
        for c in CLIENTS:
            try: obj, = build.compile_units([os.path.join(HERE, 'harness', c + '.cc')], d, cfg)
            except build.BuildError as e:
                first = next((l for l in str(e).splitlines() if 'error' in l), str(e)[:300])
                ctx.bad('a client of the operations compiles', '%s client %s: %s' % (cfg, c, first), 'harness/%s.cc' % c); continue
            de, un = symbols([obj])
            for u in sorted(un):
                if ours(u) and u not in de: ctx.check(u in defined, 'every symbol a client needs is defined', '%s client %s: %s' % (cfg, c, demangle([u]).get(u, u)), 'src/cpu')
        # 3. what is not defined is rejected
        for k, (label, text) in enumerate(REJECTED):
            src = os.path.join(d, 'reject%d.cc' % k)
            with open(src, 'w') as f: f.write(PRE + text + '\n')
            o = src[:-3] + '.bc'
            r = subprocess.run(['clang++-18', *[f for f in cflags(cfg) if f != '-fno-access-control'], *build.IRFLAGS, '-o', o, src], stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True)
            if r.returncode != 0:
                ctx.ok('an undefined operation is rejected', '%s: %s does not compile: %s' % (cfg, label, next((l for l in r.stderr.splitlines() if 'error' in l), '')[-160:])); continue
            de, un = symbols([o])
            miss = [u for u in un if ours(u) and u not in defined and u not in de]
            ctx.check(bool(miss), 'an undefined operation is rejected', '%s: %s %s' % (cfg, label, ('needs ' + miss[0]) if miss else 'compiles and links'), 'include/gals')
        # the witnesses are sound: the same prologue with a defined operation is accepted
        src = os.path.join(d, 'accept.cc')
        with open(src, 'w') as f: f.write(PRE + 'USE(G<2>* g, void* p) { new (p) Levelset<G<2>, double>(*g); }\n')
        r = subprocess.run(['clang++-18', *[f for f in cflags(cfg) if f != '-fno-access-control'], *build.IRFLAGS, '-o', src[:-3] + '.bc', src], stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True)
        if r.returncode != 0: ctx.bad('a client of the operations compiles', '%s: prologue: %s' % (cfg, r.stderr[:300]), 'include/gals')
    ctx.floor = 1500
