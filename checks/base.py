"""Common parts of the checks: loading the program, reports, evidence, exit codes."""
import json
import os
import shutil
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'engine'))
sys.setrecursionlimit(20000)

import prog as progmod
from prog import AnalysisError, clean

REPO = progmod.REPO
_progs = {}


def load(variant=None, clients=('client.cpp',)):
    variant = variant or os.environ.get('VERIF_VARIANT', 'split')
    key = (variant, tuple(clients))
    if key not in _progs:
        d = tempfile.mkdtemp(prefix='verif_')
        try:
            _progs[key] = progmod.load(variant, d, list(clients))
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return _progs[key]


class Report(object):
    """what one check looked at and found"""

    def __init__(self, pid):
        self.pid = pid
        self.viol = []          # (key, text, trace)
        self.errors = []
        self.obl = 0
        self.done = 0
        self.samples = []
        self.counts = {}
        self.funcs = set()
        self.rules = {}
        self.notes = []
        self.per = {}           # property -> [obligations, discharged]
        self.partial = 0        # independent parts analysed to the end

    def rule(self, rid, text):
        self.rules[rid] = text

    def ok(self, rid, where, msg, ok, trace=(), key=None):
        """one obligation of rule rid"""
        self.obl += 1
        per = self.per.setdefault(rid.split('.')[0], [0, 0])
        per[0] += 1
        if ok:
            per[1] += 1
            self.done += 1
            if sum(1 for s in self.samples if s.startswith('[%s]' % rid)) < 2 and len(self.samples) < 24:
                self.samples.append('[%s] %s: %s' % (rid, short(where), msg))
        else:
            self.violation(rid, where, msg, trace, key)
        return ok

    def violation(self, rid, where, msg, trace=(), key=None):
        key = key or '%s|%s|%s' % (rid, short(where), msg)
        if all(v[0] != key for v in self.viol):
            self.viol.append((key, '[%s] %s: %s' % (rid, short(where), msg), tuple(trace)))

    def violation_text(self, key, text):
        if all(v[0] != key for v in self.viol):
            self.viol.append((key, text, ()))

    def error(self, msg):
        if msg not in self.errors:
            self.errors.append(msg)

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def need(self, what, minimum):
        """the analysis must have seen at least `minimum` instances"""
        n = self.counts.get(what, 0)
        if n < minimum:
            self.error('anchor lost: %s: %d found, at least %d expected' % (what, n, minimum))

    def take(self, I, rid='memory', kinds=None, where=None):
        """adopt the obligations and statistics of an interpreter run"""
        self.funcs |= set(I.stats['funcs'])
        self.count('calls interpreted', I.stats['calls'])
        self.count('loops summarised', I.stats['loops'])
        for o in I.obls.values():
            if kinds is not None and o.kind not in kinds:
                continue
            self.ok(rid, o.loc, o.msg, o.ok, o.tr)
        for why, w in I.imprecise:
            self.error('imprecise: %s at %s' % (why, short(w)))

    def merge(self, o):
        self.viol += [v for v in o.viol if all(v[0] != w[0] for w in self.viol)]
        for e in o.errors:
            self.error(e)
        self.obl += o.obl
        self.done += o.done
        for s in o.samples:
            if s not in self.samples and len(self.samples) < 40:
                self.samples.append(s)
        for k, n in o.counts.items():
            self.count(k, n)
        self.funcs |= o.funcs
        self.rules.update(o.rules)
        self.notes += [n for n in o.notes if n not in self.notes]


def short(w):
    w = str(w)
    return w[len(REPO) + 1:] if w.startswith(REPO + '/') else w


def findings(pid):
    out = {}
    p = os.path.join(ROOT, 'known_findings.txt')
    for l in open(p):
        if l.startswith('finding: property=%s ' % pid) or pid == 'ALL' and l.startswith('finding: '):
            rest = l.split(' ', 2)[2].strip()
            if rest.startswith('key='):
                k, _, text = rest[4:].partition(' :: ')
                out[k.strip()] = text.strip() or k
    return out


def finish(rep, t0, level, assumptions, trusted):
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    known = findings(rep.pid)
    if not rep.partial and any(e.startswith('imprecise') for e in rep.errors):
        # something was approximated: what looks like a violation may be none
        for v in rep.viol:
            print('  (not decided) %s' % v[1])
        rep.viol = []
    fresh = [v for v in rep.viol if v[0] not in known]
    seen = [v for v in rep.viol if v[0] in known]
    ev = {
        'property': rep.pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': level,
        'coverage': {
            'explanation': 'static analysis of the current sources of /repo; obligations are the instances of the rules below',
            'obligations': rep.obl, 'discharged': rep.done,
            'rules': rep.rules, 'functions_analysed': len(rep.funcs), 'functions': sorted(rep.funcs)[:80],
            'counts': rep.counts, 'samples': rep.samples[:24],
            'checker_cmd': 'bin/check %s' % rep.pid, 'trusted_base': trusted,
        },
        'assumptions': assumptions + rep.notes,
        'wall_s': round(time.time() - t0, 2),
        'violations': len(fresh),
    }
    d = os.environ.get('VERIF_EVIDENCE') or os.path.join(ROOT, 'evidence')
    os.makedirs(d, exist_ok=True)
    for v in seen:
        print('KNOWN-FINDING: property=%s %s' % (rep.pid, known[v[0]]))
    if rep.errors:
        for e in rep.errors[:20]:
            print('UNDECIDED property=%s %s' % (rep.pid, e))
    ev['coverage']['undecided'] = rep.errors[:20]
    with open(os.path.join(d, rep.pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')
    if fresh and os.environ.get('VERIF_EVIDENCE'):
        with open(os.path.join(d, rep.pid + '.viol.json'), 'w') as f:
            json.dump([(k, text) for k, text, tr in fresh], f)
    if fresh:
        rp = os.path.join(d, rep.pid + '.replay.txt')
        with open(rp, 'w') as f:
            for k, text, tr in fresh:
                f.write('%s\n  key: %s\n' % (text, k))
                for t in tr:
                    f.write('    via %s\n' % (t,))
        for k, text, tr in fresh[:12]:
            print('  %s' % text)
            for t in tr[-12:]:
                print('      via %s' % (t,))
        print('VIOLATION property=%s replay=%s' % (rep.pid, rp))
        return 1
    if rep.errors and not rep.partial:
        return 2
    if rep.errors:
        # the parts that could not be analysed are listed above and in the evidence; the others hold
        print('PARTLY-UNDECIDED property=%s: %d part(s) decided' % (rep.pid, rep.partial))
    print('OK property=%s obligations=%d discharged=%d functions=%d wall=%.1fs' % (rep.pid, rep.obl, rep.done, len(rep.funcs), time.time() - t0))
    return 0
