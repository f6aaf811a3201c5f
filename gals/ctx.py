"""Shared driver of the checks: builds IR from the current tree, collects obligations, writes evidence, decides the exit."""
import os, sys, json, time, re, shutil, subprocess, tempfile, traceback
from . import build, ir, witness
from .vals import *
from . import vals as V

HERE = build.HERE

class Undecided(Exception):
    """the analysis could not decide an obligation (error exit, never an alarm)"""

def explain_assume():
    from .props import explain
    return list(explain.ASSUME)

class Ctx:
    def __init__(self, prop, tier, level='other'):
        self.prop = prop; self.tier = tier; self.t0 = time.time()
        self.obligations = 0; self.discharged = 0
        self.violations = []; self.undecided = []
        self.rules = {}; self.samples = []; self.analysed = {}; self.assumptions = []; self.known = []
        self.where = {}
        self.work = tempfile.mkdtemp(prefix='gals_verif_')
        self.mods = {}
        self.objs = {}
        self.engstats = {}
        from .props import explain
        self.explanation = explain.text(prop)
        self.floor = 0
        self.configs = ['tests', 'prod']

    # ---------------------------------------------------------- front end
    def units(self, config):
        if config not in self.objs:
            d = os.path.join(self.work, config); os.makedirs(d, exist_ok=True)
            us = build.sources()
            self.analysed['translation_units'] = len(us)
            self.objs[config] = build.compile_units(us, d, config)
        return self.objs[config]
    def module(self, harness, config='tests', opaque=None):
        key = (tuple(harness), config)
        if key in self.mods: return self.mods[key]
        return self._module(key, self.units(config), harness, config, opaque, ())
    def program(self, harness, tag, extra, opaque=None):
        """a program outside the library: the probe file includes its sources"""
        key = (harness, tag)
        if key not in self.mods: self._module(key, [], [harness], tag, opaque, extra)
        return self.mods[key]
    def _module(self, key, bcs, harness, config, opaque, extra):
        d = os.path.join(self.work, config + '_' + '_'.join(harness)); os.makedirs(d, exist_ok=True)
        hs = build.compile_units([os.path.join(HERE, 'harness', h + '.cc') for h in harness], d, config, extra)
        probes = []
        for h in hs:
            out = subprocess.run(['llvm-nm-18', h], stdout=subprocess.PIPE, universal_newlines=True).stdout
            probes += [x for x in re.findall(r' T (\S+)', out) if not x.startswith('_Z')]
        f = build.prepare(bcs + hs, probes, d, opaque)
        m = ir.Module(f)
        self.analysed['ir_functions'] = self.analysed.get('ir_functions', 0) + len(m.funcs)
        self.analysed['ir_instructions'] = self.analysed.get('ir_instructions', 0) + sum(len(b.insts) for fn_ in m.funcs.values() for b in fn_.blocks.values())
        self.mods[key] = m
        return m

    # ---------------------------------------------------------- obligations
    def note(self, rule, n=1): self.rules[rule] = self.rules.get(rule, 0) + n
    def ok(self, rule, what=None):
        self.obligations += 1; self.discharged += 1; self.note(rule)
        if what and len(self.samples) < 12 and self.rules[rule] <= 2: self.samples.append('%s: %s' % (rule, what))
    def bad(self, rule, what, where='', **kw):
        self.obligations += 1; self.note(rule)
        self.violations.append(dict(rule=rule, what=what, where=where, **kw))
    def unsure(self, rule, what, where=''):
        self.obligations += 1; self.note(rule)
        self.undecided.append('%s: %s %s' % (rule, what, where))
    def check(self, cond, rule, what, where='', **kw):
        if cond: self.ok(rule, what)
        else: self.bad(rule, what, where, **kw)
        return cond

    def current_facts(self):
        """facts active now, as (Num, strict)"""
        return [(mk(q), s) for q, s in FACTS.pos]

    def equal(self, rule, what, actual, expected, where='', extra=None, inner=None):
        """actual == expected for every assignment that satisfies the facts in force"""
        try:
            if isinstance(actual, (int, float)): actual = lift(actual)
            if isinstance(expected, (int, float)): expected = lift(expected)
            if isinstance(actual, Undef) and not isinstance(expected, Undef):
                self.bad(rule, what + ': value is uninitialised', where, expected=repr(expected)[:400]); return False
            d = None
            if actual is not expected and isinstance(actual, (Num, Cond)) and isinstance(expected, (Num, Cond)):
                # a point where the two summaries differ exactly settles it without comparing normal forms
                w = witness.find(actual, expected, self.current_facts(), tries=8, exact=True, extra=extra, inner=inner)
                if w is not None:
                    self.bad(rule, what, where, expected=repr(expected)[:600], actual=repr(actual)[:600], witness=w[0]); return False
            d = first_difference(actual, expected)
        except Unsupported as e:
            d = [str(e)]
        if d is None:
            self.ok(rule, what + ' = ' + repr(expected)[:160]); return True
        lits = [l for l in d if isinstance(l, tuple)]
        w = witness.find(actual, expected, self.current_facts(), extra=extra, lits=lits, inner=inner)
        if w is None:
            self.unsure(rule, '%s: normal forms differ but no distinguishing point was found: %s vs %s' % (what, repr(actual)[:300], repr(expected)[:300]), where)
            return False
        w, opaque = w
        if opaque:
            self.unsure(rule, '%s: the derived value is imprecise: %s' % (what, repr(actual)[:600]), where); return False
        self.bad(rule, what, where, expected=repr(expected)[:600], actual=repr(actual)[:600], witness=w)
        return False

    def nonneg(self, rule, what, p, where='', strict=False, guard=TRUE):
        """p >= 0 (p > 0) under the facts in force"""
        budget = [400]
        if V.prove_cases(p, strict=strict, budget=budget):
            self.ok(rule, what); return True
        w = witness.negative(p, self.current_facts(), strict=strict, guard=guard, lits=budget[1:])
        if w is not None:
            self.bad(rule, what, where, witness=w); return False
        self.unsure(rule, '%s: cannot prove %r >= 0' % (what, p), where)
        return False

    def stats(self, E):
        for k, v in E.stats.items(): self.engstats[k] = self.engstats.get(k, 0) + v
        for n in E.blind_stores()[:3]: self.undecided.append('store through a pointer that could not be resolved: %r  %s' % (n.val[1], E.mod.where(n.dbg)))

    # ---------------------------------------------------------- finish
    def finish(self):
        shutil.rmtree(self.work, ignore_errors=True)
        if self.rules and self.obligations < self.floor:
            self.undecided.append('only %d obligations were instantiated, at least %d are expected: the analysis lost its anchors' % (self.obligations, self.floor))
        if not self.obligations: self.undecided.append('no obligation was instantiated')
        ev = dict(property=self.prop, tier=self.tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='other',
                  coverage=dict(explanation=self.explanation, obligations=self.obligations, discharged=self.discharged,
                                instances_per_rule=self.rules, analysed=self.analysed, dataflow=self.engstats, samples=self.samples[:12],
                                undecided=self.undecided[:10]),
                  assumptions=explain_assume() + self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', self.prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
        rp = os.path.join(HERE, 'evidence', self.prop + '.violations.txt')
        if os.path.exists(rp): os.remove(rp)
        for k in self.known: print('KNOWN-FINDING: property=%s %s' % (self.prop, k))
        print('%s: %d obligations, %d discharged, %d violations, %d undecided, %.1f s' % (self.prop, self.obligations, self.discharged, len(self.violations), len(self.undecided), time.time() - self.t0))
        if self.violations:
            with open(rp, 'w') as f:
                for v in self.violations: f.write(json.dumps(v, indent=1) + '\n')
            for v in self.violations[:6]:
                print('  rule "%s" broken: %s  [%s]' % (v['rule'], v['what'], v['where']))
                for k in ('expected', 'actual', 'witness'):
                    if k in v: print('     %s: %s' % (k, str(v[k])[:700]))
            print('VIOLATION property=%s replay=%s' % (self.prop, rp))
            return 1
        if self.undecided:
            for u in self.undecided[:8]: print('  undecided: ' + u[:900], file=sys.stderr)
            return 2
        return 0
