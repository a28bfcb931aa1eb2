"""The orderings used for sorting flags and arguments (C21)."""
import itertools
from base import *
from env import *
from values import *
from core import *
import lin
from c_parse import NS, ARG, F_TYPE, POSITIONAL

DASH = Lin(ord('-'))
F_NAMES, F_REQ = ARG + '::nameOrFlags_', ARG + '::isRequired_'
REL = {'<': '>', '>': '<', '=': '='}


def name_of(form, i):
    if form in ('low', 'high'):
        return ('S', (('l', '-'), ('c', lin.sym('letter%d' % i, 1, 127))))
    if form == 'long':
        b = ('flag', i)
        return ('S', (('l', '--'), ('s', b, ZERO, slen(b))))
    return whole(('name', i))


class OrderEnv(Env):
    """names of three elements; any order of two long flags (or two positional names) is possible"""

    def __init__(self, forms):
        Env.__init__(self)
        self.forms = forms

    def which(self, st, x):
        """(element, characters skipped)"""
        for i, f in enumerate(self.forms):
            if same(st, x, name_of(f, i)):
                return i, 0
            if f == 'long':
                b = ('flag', i)
                if same(st, x, ('S', (('s', b, ZERO, slen(b)),))):
                    return i, 2
                if same(st, x, ('S', (('l', '-'), ('s', b, ZERO, slen(b))))):
                    return i, 1
            if f in ('low', 'high') and same(st, x, ('S', (('c', lin.sym('letter%d' % i, 1, 127)),))):
                return i, 1
        return None

    def str_rel(self, st, x, y):
        a, b = self.which(st, x), self.which(st, y)
        if a is None or b is None or a[1] != b[1]:
            return None
        return self.rel(st, a[0], b[0])

    def rel(self, st, i, j):
        f, g = self.forms[i], self.forms[j]
        if i == j:
            return [(st, '=')]
        if f == g and f in ('long', 'pos'):
            return self.abstract(st, i, j)
        if 'pos' in (f, g):
            # a positional name does not start with '-'
            k = i if f == 'pos' else j
            lt, gt = self.I.fork_cmp(st, '<', ch(('name', k), ZERO), DASH)
            out = [(s, r) for s, r in ((lt, '<'), (gt, '>')) if s is not None]
            return out if k == i else [(s, REL[r]) for s, r in out]
        x = DASH if f == 'long' else lin.sym('letter%d' % i, 1, 127)
        y = DASH if g == 'long' else lin.sym('letter%d' % j, 1, 127)
        out = []
        lt, ge = self.I.fork_cmp(st, '<', x, y)
        if lt is not None:
            out.append((lt, '<'))
        if ge is not None:
            eq, gt = self.I.fork_cmp(ge, '==', x, y)
            out += [(s, r) for s, r in ((eq, '='), (gt, '>')) if s is not None]
        return out

    def abstract(self, st, i, j):
        """the ranks of the abstract names that are still possible"""
        rs = st.g('ranks')
        if rs is None:
            n = len(self.forms)
            rs = frozenset(t for t in itertools.product(range(n), repeat=n))
        out = []
        for r, ok in (('<', lambda a, b: a < b), ('=', lambda a, b: a == b), ('>', lambda a, b: a > b)):
            left = frozenset(t for t in rs if ok(t[i], t[j]))
            if left:
                s = st.fork()
                s.sg('ranks', left)
                out.append((s, r))
        return out


def comparators(P, rep):
    """the orderings given to sort: [(call site, callable or None, on arguments?)]"""
    out, seen = [], set()

    def walk(n, f):
        if isinstance(n, dict):
            if n.get('k') in ('Call', 'MCall') and str(n.get('f')) in P.funcs and P.funcs[n['f']]['n'] in ('sort', 'stable_sort'):
                args = n['args']
                skip = 0 if n['k'] == 'MCall' else 2
                t = n.get('ot') if n['k'] == 'MCall' else args[0].get('t') or ''
                on_args = ARG in t
                if on_args or 'basic_string<char>' in t:
                    out.append((n, args[skip] if len(args) > skip else None, on_args, f))
            for k, v in n.items():
                walk(v, f)
        elif isinstance(n, list):
            for v in n:
                walk(v, f)
    for f in P.funcs.values():
        if f.get('body') and f.get('blet'):
            walk(f['body'], f)
    return out


FORMS = {False: ('low', 'high', 'long'), True: ('low', 'high', 'long', 'pos')}


class Order(object):
    def __init__(self, P, rep, node, cmp, on_args, f):
        self.P, self.rep, self.node, self.cmp, self.on_args = P, rep, node, cmp, on_args
        self.kinds = enum_vals(P, ARG + '::Type')
        self.name = 'ordering of arguments' if on_args else 'ordering of flags'
        self.table = {}

    def start(self, forms, reqs):
        env = OrderEnv(forms)
        I = Engine(self.P, env)
        st = St()
        vs = []
        for i, f in enumerate(forms):
            nm = name_of(f, i)
            if f in ('low', 'high'):
                c = lin.sym('letter%d' % i, 1, 127)
                I.assume(st, '<' if f == 'low' else '>', c, DASH)
            if f == 'long':
                I.assume(st, '>=', slen(('flag', i)), ONE)
            if f == 'pos':
                I.assume(st, '>=', slen(('name', i)), ONE)
                I.assume(st, '!=', ch(('name', i), ZERO), DASH)
            if not self.on_args:
                loc = ('H', ('flag', i))
                st.h[loc] = nm
                vs.append(('ref', loc))
                continue
            a = ('H', ('arg', i))
            st.h[a] = ('obj', ARG)
            k = fresh('k')
            vec = ((nm, ONE),) if f == 'pos' else ((nm, ONE), run(whole(('other', i, k)), lin.sym('more%d' % i, 0, 1 << 40), k))
            st.h[('F', a, F_NAMES)] = ('V', vec)
            st.h[('F', a, F_REQ)] = Lin(reqs[i])
            t = lin.sym('kind%d' % i, 0, 100)
            pos = sorted(v for n, v in self.kinds.items() if n in POSITIONAL)
            opt = sorted(v for n, v in self.kinds.items() if n not in POSITIONAL and n != 'NONE')
            mine = pos if f == 'pos' else opt
            I.assume(st, '>=', t, Lin(mine[0]))
            I.assume(st, '<=', t, Lin(mine[-1]))
            for v in range(mine[0], mine[-1]):
                if v not in mine:
                    I.assume(st, '!=', t, Lin(v))
            st.h[('F', a, F_TYPE)] = t
            vs.append(('ptr', a))
        return env, I, st, vs

    def call(self, I, s, x, y):
        if self.cmp is None:
            if self.on_args:
                raise AnalysisError('arguments sorted by address')
            return I.std_compare(s, '<', x, y, self.node) if False else [(s2, r) for s2, r in I.std_compare(s, '<', [x, y], self.node)]
        I.depth = 0
        cs = I.ev(self.cmp, s)
        out = []
        for s2, cv in cs:
            if isinstance(cv, tuple) and cv[0] == 'ref' and s2.h.get(cv[1], (None,))[0] in ('lam', 'fn'):
                cv = s2.h[cv[1]]
            if isinstance(cv, tuple) and cv[0] in ('fn', 'lam', 'ofn'):
                out += I.call_value(s2, cv, [x, y], self.node)
            else:
                out += self.functor(I, s2, cv, [x, y])
        return out

    def functor(self, I, s, cv, vs):
        cls = None
        if isinstance(cv, tuple) and cv[0] == 'rec':
            cls = cv[1]
        f = [g for g in self.P.funcs.values() if g.get('cls') == cls and g['n'] == 'operator()' and g.get('body')]
        if len(f) != 1:
            raise AnalysisError('ordering of an unknown shape: %s' % (cv,))
        loc = ('H', ('functor',))
        I.store(s, loc, cv, self.node)
        return I.invoke(s, f[0], ('ptr', loc), vs, self.node)

    def pairs(self):
        """the outcome for every pair of elements"""
        rep, fs = self.rep, FORMS[self.on_args]
        for f in fs:
            for g in fs:
                for q in itertools.product((0, 1), repeat=2) if self.on_args else ((0, 0),):
                    env, I, st, vs = self.start((f, g), q)
                    for s, r in self.call(I, st, vs[0], vs[1]):
                        v = s.c.norm(I.val(s, r, self.node))
                        for s2, rel in env.rel(s.fork(), 0, 1):
                            self.judge(I, s2, f, g, q, rel, v)
                    self.finish(I)
        # an element against itself
        for f in fs:
            for q in ((0,), (1,)) if self.on_args else ((0,),):
                env, I, st, vs = self.start((f,), q)
                for s, r in self.call(I, st, vs[0], vs[0]):
                    rep.ok('C21.irreflexive', self.where(), '%s: nothing comes before itself' % self.name, s.c.is_eq(I.val(s, r, self.node)), s.tr)
                self.finish(I)

    def finish(self, I):
        self.rep.take(I, 'C21.memory')
        self.rep.count('pairs of elements')
        if I.exc or I.exits:
            self.rep.violation('C21.total', self.where(), '%s: comparing two elements fails' % self.name)

    def where(self):
        return self.node.get('l')

    def judge(self, I, s, f, g, q, rel, v):
        rep, c = self.rep, s.c
        rep.count('outcomes')
        key = (f, q[0], g, q[1], rel)
        one, zero = v.const and v.c == 1, v.const and v.c == 0
        self.table.setdefault(key, set()).add(1 if one else 0 if zero else None)
        want = None
        if not self.on_args:
            short_f, short_g = f != 'long', g != 'long'
            if short_f != short_g:
                want = 1 if short_f else 0
            else:
                want = 1 if rel == '<' else 0
            msg = 'short flags before long ones, alphabetical within'
        else:
            if (f == 'pos') != (g == 'pos'):
                want, msg = (1 if g == 'pos' else 0), 'options come before positional arguments'
            elif f == 'pos':
                want, msg = (1 if q == (1, 0) else 0), 'required positional arguments before optional ones, otherwise as declared'
        if want is not None:
            rep.ok('C21.layout', self.where(), '%s: %s' % (self.name, msg), (one if want else zero), s.tr)

    def laws(self):
        """strict weak order, on all triples"""
        rep = self.rep
        if any(len(x) != 1 or None in x for x in self.table.values()):
            raise AnalysisError('%s depends on more than names, kind and required' % self.name)
        R = {k: x.pop() for k, x in self.table.items()}
        fs = FORMS[self.on_args]
        els = [(f, q, r) for f in fs for q in ((0, 1) if self.on_args else (0,)) for r in range(3)]

        def rel(x, y):
            f, g = x[0], y[0]
            if f == g:
                return '<' if x[2] < y[2] else '>' if x[2] > y[2] else '='
            rank = {'low': 0, 'long': 1, 'high': 2}
            if 'pos' in (f, g):
                return None
            return '<' if rank[f] < rank[g] else '>'

        def lt(x, y):
            r = rel(x, y)
            if r is not None:
                return (R[(x[0], x[1], y[0], y[1], r)],)
            return tuple(set(R[k] for k in R if k[:4] == (x[0], x[1], y[0], y[1])))
        bad = set()
        n = 0
        for x in els:
            for y in els:
                for p in lt(x, y):
                    for b in lt(y, x):
                        n += 1
                        if p and b:
                            bad.add('both come before the other: %s and %s' % (desc(x), desc(y)))
                for z in els:
                    n += 1
                    xy, yz, xz, yx, zy, zx = (max(lt(*t)) for t in ((x, y), (y, z), (x, z), (y, x), (z, y), (z, x)))
                    if xy and yz and not xz:
                        bad.add('not transitive: %s, %s, %s' % (desc(x), desc(y), desc(z)))
                    if not (xy or yx or yz or zy) and (xz or zx):
                        bad.add('being of equal rank is not transitive: %s, %s, %s' % (desc(x), desc(y), desc(z)))
        rep.count('triples of elements', n)
        rep.ok('C21.laws', self.where(), '%s: strict weak order%s' % (self.name, ''.join('; ' + b for b in sorted(bad)[:2])), not bad)


def desc(x):
    return '%s%s#%d' % ('required ' if x[1] else '', {'low': 'short(below -)', 'high': 'short', 'long': 'long', 'pos': 'positional'}[x[0]], x[2])


def enum_vals(P, name):
    e = P.enums.get(name)
    if e is None:
        raise AnalysisError('anchor lost: ' + name)
    return {v['n']: v['v'] for v in e['vals']}


RULES = {
    'C21.layout': 'every outcome of a comparator on two elements (any kind, name and required mark) agrees with the documented layout',
    'C21.laws': 'the outcomes on all pairs form a strict weak order (all triples of short/long/positional, required or not, in every order of names)',
    'C21.irreflexive': 'nothing comes before itself', 'C21.total': 'comparing never fails', 'C21.memory': 'comparing reads only within names',
}
COMMON = ['flags and names are well formed (C16): "-" and a character, "--" and text, or a text not starting with "-"; letters are ASCII',
          'every argument has a name and its first name decides']
ASSUME = {'C21': COMMON}


def check(pid, rep):
    P = load()
    seen = {}
    for node, cmp, on_args, f in comparators(P, rep):
        rep.count('sort calls')
        key = (on_args, repr(strip_pos(cmp)))
        if key in seen:
            continue
        seen[key] = 1
        o = Order(P, rep, node, cmp, on_args, f)
        o.pairs()
        o.laws()
    rep.count('orderings', len(seen))
    rep.count('flag orderings', sum(1 for k in seen if not k[0]))
    rep.count('argument orderings', sum(1 for k in seen if k[0]))
    rep.need('flag orderings', 1)
    rep.need('argument orderings', 1)
    rep.rules.update(RULES)


def strip_pos(n):
    if isinstance(n, dict):
        return {k: strip_pos(v) for k, v in n.items() if k not in ('l', '#')}
    if isinstance(n, list):
        return [strip_pos(v) for v in n]
    return n
