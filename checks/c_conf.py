"""Configuration of one argument: action(), nargs() and defaults() (C15, C30)."""
import itertools
import math
import jobs
from base import *
from env import *
from values import *
from core import *
import lin
from c_parse import (NS, ARG, EL, ARGS, A, ROOT, F_TYPE, F_NARGS, F_TXT, F_DEF, F_DEFS, F_NAMES, FLAGS, SINGLE, GROUPS, POSITIONAL, TYPES, ACTION)
from c_obs import joined, joined_row, is_vec
import c_obs
from c_order import enum_vals

F_ACT = ARG + '::action_'
H_, V_ = ('F', ROOT, ARGS + '::helpOption_'), ('F', ROOT, ARGS + '::versionOption_')
OTHER = ('H', ('oth', 'X'))
CONF_EXC = NS + 'ArgumentException'
NUMBER = ('NUMBER_OPTION', 'NUMBER_POSITIONAL_ARGUMENT')
ANY = tuple(k for k in TYPES if k not in FLAGS and k not in SINGLE and k not in GROUPS and k not in NUMBER)


class ConfEnv(Env):
    def __init__(self):
        Env.__init__(self)
        self.sorted = False

    def may_forget(self, k):
        return False

    def class_of(self, st, root):
        if root == OTHER:
            return ARG

    def field_value(self, st, root, key, ft):
        if root == OTHER and key == ARG + '::args_':
            return ('ref', ROOT)
        v = self.sym(ft, (root[1], key))
        if key == F_NAMES:
            st.c = st.c.add_ge(vec_len(v) - 1)
        return v

    def on_sort(self, st, loc, v, a, b, name, cmpf, e):
        # the order of the arguments is no concern here
        if loc is not None and loc[0] == 'F' and loc[1] == ROOT:
            return [(st, ZERO)]
        return None

    def virtual_call(self, st, f, this, args, node):
        return None


def texts(base, n):
    """n texts; n: Lin"""
    d = lambda i: whole((base, i))
    if n == ZERO:
        return EMPTY_V
    if n.const:
        return ('V', tuple((d(Lin(i)), ONE) for i in range(n.c)))
    return ('V', (run(d(K[0]), n),))


def el(P, txt, dflt, inner=EMPTY_V):
    fs = []
    for key, t in P.fields(EL):
        fs.append((key, inner if key == '#vec' else txt if key == F_TXT else dflt if key == F_DEF else ('fl', 0.0) if P.kind(t) == 'float' else ZERO))
    return ('rec', EL, tuple(fs))


class Content(object):
    """what an absent argument of a kind holds for a list of defaults"""

    def __init__(self, P, kind, base, n, g):
        self.txt = None             # None: not observable
        self.dflt, self.flat, self.rows = EMPTY_S, EMPTY_V, None
        self.vec = EMPTY_V
        d = lambda i: whole((base, i))
        self.defs = texts(base, n)
        if n == ZERO:
            self.txt = EMPTY_S
            return
        if kind in SINGLE:
            self.txt = self.dflt = d(ZERO)
        elif kind in GROUPS:
            m = div(n, g)
            k = K[1] if False else fresh('k')
            row = lambda i: ('V', tuple((d(i * g + j), ONE) for j in range(g)))
            self.rows = seq(row, m)
            self.dflt = joined(self.rows, True)
        else:
            self.dflt = joined(self.defs, False)
            self.flat = self.defs


def div(n, g):
    if n.const:
        return Lin(n.c // g)
    return Lin(n.c // g, tuple((a, c // g) for a, c in n.t))


def seq(body, n):
    if n.const:
        return ('V', tuple((body(Lin(i)), ONE) for i in range(n.c)))
    k = fresh('k')
    return ('V', (run(body(k), n, k),))


def start(P, kind, n, g=2, help_=NULL, version=NULL, action=None):
    """an absent argument of the kind holding its n defaults (texts ('def', i))"""
    env = ConfEnv()
    I = Engine(P, env)
    st = St()
    kinds, actions = enum_vals(P, ARG + '::Type'), enum_vals(P, NS + 'Action::eAction')
    st.h[ROOT], st.h[A] = ('obj', ARGS), ('obj', ARG)
    st.h[('F', A, ARG + '::args_')] = ('ref', ROOT)
    st.h[('F', A, F_TYPE)] = Lin(kinds[kind])
    st.h[('F', A, F_ACT)] = Lin(actions[action or ACTION.get(kind, 'NONE')])
    nargs = ZERO if kind in FLAGS else Lin(g) if kind in GROUPS else n if kind in NUMBER and n is not ZERO else lin.sym('nargs', 2, 1 << 40) if kind in NUMBER else ONE
    st.h[('F', A, F_NARGS)] = nargs
    st.h[H_], st.h[V_] = help_, version
    k = fresh('k')
    st.h[('F', A, F_NAMES)] = ('V', ((whole(('first',)), ONE), run(whole(('other', k)), lin.sym('more_names', 0, 1 << 40), k)))
    c = Content(P, kind, 'def', n, g)
    st.h[('F', A, F_DEFS)] = c.defs
    st.h[('F', A, F_DEF)] = snorm(st, c.dflt)
    st.h[('F', A, F_TXT)] = c.txt if c.txt is not None else whole(('stale',))
    if c.rows is not None:
        k = fresh('k')
        vec = rows_vec(P, 'def', c, n, g)
    else:
        vec = seq(lambda i: el(P, whole(('def', i)), whole(('def', i))), vec_len(c.flat))
    st.h[('F', A, '#vec')] = vec
    return env, I, st


def rows_vec(P, base, c, n, g):
    d = lambda i: whole((base, i))

    def one(i):
        inner = ('V', tuple((el(P, d(i * g + j), d(i * g + j)), ONE) for j in range(g)))
        return el(P, EMPTY_S, joined(('V', tuple((d(i * g + j), ONE) for j in range(g))), False), inner)
    return seq(one, div(n, g))


def holds(P, I, s, kind, base, n, g):
    """the list of what is wrong with the contents of A"""
    bad = holds_n(P, I, s, kind, base, n, g)
    for m in [s.c.norm(n)] + [Lin(k) for k in range(1, 7)]:
        if bad and m != n and s.c.is_eq(n, m):
            bad = holds_n(P, I, s, kind, base, m, g, n)
    return bad


def holds_n(P, I, s, kind, base, n, g, n1=None):
    bad = []
    c = Content(P, kind, base, n, g)
    ld = lambda key: I.load(s, ('F', A, key))
    if not same(s, ld(F_DEFS), c.defs) and not (n1 is not None and same(s, ld(F_DEFS), texts(base, n1))):
        bad.append('getDefaults() is another list')
    if kind in FLAGS:
        return bad
    vec = fold_vec(s, s.h.get(('F', A, '#vec'), ('?',))) if is_vec(s.h.get(('F', A, '#vec'))) else None
    if vec is None:
        return bad + ['the values are unknown']
    if not same(s, ld(F_DEF), snorm(s, c.dflt)):
        bad.append('the default text is another one')
    if c.txt is not None and not same(s, ld(F_TXT), c.txt):
        bad.append('the value is another one')
    want = fold_vec(s, c.rows if c.rows is not None else c.flat)
    a, b = [x for x in vec[1] if not s.c.is_eq(x[1])], [x for x in want[1] if not s.c.is_eq(x[1])]
    if len(a) != len(b) or any(not s.c.is_eq(x[1], y[1]) for x, y in zip(a, b)):
        if os.environ.get('VERIF_DEBUG'):
            print('GOT', show_val(vec)[:300], 'WANT', show_val(want)[:300], s.c)
        return bad + ['the number of values is another one']
    for (x, _), (y, _) in zip(a, b):
        if not (isinstance(x, tuple) and x[0] == 'rec'):
            return bad + ['the values are others']
        f = dict(x[2])
        if c.rows is None:
            if not same(s, f[F_TXT], y) or not same(s, f[F_DEF], y) or f['#vec'] != EMPTY_V:
                bad.append('a value or its default text is another one')
        else:
            inner = f['#vec']
            ok = is_vec(inner) and len(inner[1]) == len(y[1])
            if ok:
                for (p, _), (q, _) in zip(inner[1], y[1]):
                    h = dict(p[2])
                    ok = ok and same(s, h[F_TXT], q) and same(s, h[F_DEF], q) and h['#vec'] == EMPTY_V
            if not ok:
                bad.append('a group holds other values')
            elif not same(s, f[F_DEF], snorm(s, joined(y, False))):
                bad.append('the default text of a group is another one')
    return bad


# what (action, nargs) mean for an option / a positional argument: (condition on nargs, kind or None, nargs, action)
def table(positional, action):
    eq, gt, any_ = '==', '>', None
    if positional:
        if action == 'NONE':
            return [((eq, 1), 'POSITIONAL_ARGUMENT', 1, 'NONE'), ((eq, 43), 'INFINITE_POSITIONAL_ARGUMENT', 1, 'INFINITE'),
                    ((gt, 1), 'NUMBER_POSITIONAL_ARGUMENT', None, 'NONE'), ((eq, 0), None, 0, None)]
        if action == 'INFINITE':
            return [((eq, 1), 'INFINITE_POSITIONAL_ARGUMENT', 1, 'INFINITE'), ((gt, 1), 'INFINITE_NUMBER_POSITIONAL_ARGUMENT', None, 'INFINITE'), ((eq, 0), None, 0, None)]
        return [(any_, None, 0, None)]
    if action == 'STORE_FALSE':
        return [(any_, 'REVERSE_BOOLEAN_OPTION', 0, action)]
    if action == 'STORE_TRUE':
        return [(any_, 'BOOLEAN_OPTION', 0, action)]
    if action in ('HELP', 'VERSION'):
        return [(any_, action + '_OPTION', 0, action)]
    if action == 'INFINITE':
        return [((eq, 0), 'BOOLEAN_OPTION', 0, action), ((gt, 0), 'INFINITE_OPTION', 1, action)]
    if action == 'NONE':
        return [((eq, 0), 'BOOLEAN_OPTION', 0, action), ((eq, 1), 'SIMPLE_OPTION', 1, action), ((eq, 43), 'INFINITE_OPTION', 1, 'INFINITE'), ((gt, 1), 'NUMBER_OPTION', None, action)]
    one, many = {'APPEND': ('MULTI_OPTION', 'MULTI_NUMBER_OPTION'), 'EXTEND': ('MULTI_INFINITE_OPTION', 'MULTI_NUMBER_INFINITE_OPTION')}[action]
    return [((eq, 0), 'BOOLEAN_OPTION', 0, action), ((eq, 1), one, 1, action), ((gt, 1), many, None, action)]


def cases(I, s, nargs, positional, action):
    """split the state by the rows of the table"""
    out = []
    left = s
    for cond, kind, n, act in table(positional, action):
        if left is None:
            break
        if cond is None:
            t, left = left, None
        else:
            t, left = I.fork_cmp(left, cond[0], nargs, Lin(cond[1]))
        if t is not None:
            out.append((t, kind, nargs if n is None else Lin(n), act))
    return out


class Conf(object):
    """action(a) or nargs(n) on an argument of a kind"""

    def __init__(self, P, rep, kind, how, value, n=ZERO, g=2, action=None):
        self.P, self.rep, self.kind, self.how, self.value, self.n, self.g, self.act0 = P, rep, kind, how, value, n, g, action
        self.actions, self.kinds = enum_vals(P, NS + 'Action::eAction'), enum_vals(P, ARG + '::Type')
        self.byvalue = {v: k for k, v in self.actions.items()}

    def run(self):
        P, rep, kind = self.P, self.rep, self.kind
        f = P.one(ARG + '::' + self.how)
        w = f.get('defloc', self.how)
        free = (NULL, ('ptr', OTHER))
        hs = (('ptr', A),) if kind == 'HELP_OPTION' else free
        vs = (('ptr', A),) if kind == 'VERSION_OPTION' else free
        for help_, version in itertools.product(hs, vs):
            if self.n != ZERO and (help_ == ('ptr', OTHER) or version == ('ptr', OTHER)):
                continue
            env, I, st = start(P, kind, self.n, self.g, help_, version, self.act0)
            nargs0, act0 = st.h[('F', A, F_NARGS)], st.h[('F', A, F_ACT)]
            frame = {k: v for k, v in st.h.items()}
            if self.how == 'action':
                arg, nargs, action = Lin(self.actions[self.value]), nargs0, self.value
            else:
                arg = nargs = self.value
                action = self.byvalue[act0.c]
            o = run_in(I, f, st, ('ptr', A), [arg])
            rep.take(I, 'C15.memory')
            rep.count('configurations')
            nm = '%s(%s) on %s' % (self.how, self.value, kind)
            for x in o.exits:
                rep.violation('C15.kind', I.where(x[3]), '%s ends the process' % nm)
            for s, r in o.returns:
                for t, want, wn, wa in cases(I, s.fork(), nargs, kind in POSITIONAL, action):
                    self.returned(I, t, r, w, nm, want, wn, wa, help_, version)
            for s, x, node in o.throws:
                named(rep, I, s, x, node, nm)
                rep.ok('C15.exception', I.where(node), '%s fails with ArgumentException only' % nm, P.derives(x[1], CONF_EXC) or x[1] == CONF_EXC, s.tr)
                for t, want, wn, wa in cases(I, s.fork(), nargs, kind in POSITIONAL, action):
                    self.failed(I, t, node, nm, want, wn, help_, version, frame)

    def fits(self, I, s, want, wn):
        """do the defaults fit the new kind? states in which they do / do not"""
        n = self.n
        if n == ZERO or want in FLAGS:
            return [s], []
        if want in SINGLE or want in NUMBER:
            a, b = I.fork_cmp(s, '==', n, wn)
            return [x for x in (a,) if x], [x for x in (b,) if x]
        if want in GROUPS:
            k = s.c.norm(wn)
            if not k.const:
                raise AnalysisError('group of unknown size')
            if k.c and all(c % k.c == 0 for _, c in n.t):
                return ([s], []) if n.c % k.c == 0 else ([], [s])
            raise AnalysisError('number of defaults and size of groups')
        return [s], []

    def returned(self, I, s, r, w, nm, want, wn, wa, help_, version):
        rep, c = self.rep, s.c
        if not rep.ok('C15.reject', w, '%s returns only if the combination is possible' % nm, want is not None, s.tr):
            return
        ld = lambda key: I.load(s, ('F', A, key))
        rep.ok('C15.kind', w, '%s: behaves as documented (%s)' % (nm, want), c.is_eq(ld(F_TYPE), Lin(self.kinds[want])), s.tr)
        rep.ok('C15.kind', w, '%s: takes the documented number of values' % nm, c.is_eq(ld(F_NARGS), wn), s.tr)
        rep.ok('C15.kind', w, '%s: reports the action' % nm, c.is_eq(ld(F_ACT), Lin(self.actions[wa])), s.tr)
        rep.ok('C15.self', w, '%s returns the argument' % nm, r == ('ref', A), s.tr)
        for loc, old, k in ((H_, help_, 'HELP'), (V_, version, 'VERSION')):
            me = ('ptr', A)
            if want == k + '_OPTION':
                rep.ok('C15.unique', w, '%s: there is no other %s option' % (nm, k.lower()), old in (NULL, me), s.tr)
                exp = me
            else:
                exp = NULL if old == me else old
            rep.ok('C15.role', w, '%s: is the %s option exactly if its action says so' % (nm, k.lower()), s.h.get(loc) == exp, s.tr)
        yes, no = self.fits(I, s, want, wn)
        for t in no:
            rep.violation('C30.number', w, '%s returns although the number of defaults does not fit %s' % (nm, want), t.tr)
        for t in yes:
            if want in FLAGS:
                continue
            g = t.c.norm(wn).c if want in GROUPS else 2
            bad = holds(self.P, I, t, want, 'def', self.n, g)
            rep.ok('C30.kept' if self.n != ZERO else 'C15.kind', w, '%s: the argument holds its defaults (now %s)%s' % (nm, want, ''.join('; ' + b for b in bad)), not bad, t.tr)

    def failed(self, I, s, node, nm, want, wn, help_, version, frame):
        rep, c = self.rep, s.c
        w = I.where(node)
        ok = want is None
        if not ok and want in ('HELP_OPTION', 'VERSION_OPTION'):
            ok = (help_ if want == 'HELP_OPTION' else version) == ('ptr', OTHER)
        if not ok:
            yes, no = self.fits(I, s.fork(), want, wn)
            if self.n == ZERO:
                rep.ok('C15.reject', w, '%s fails only for impossible combinations' % nm, False, s.tr)
            else:
                rep.ok('C30.number', w, '%s fails only if the number of defaults does not fit %s' % (nm, want), not yes, s.tr)
        ld = lambda key: I.load(s, ('F', A, key))
        same_ = c.is_eq(ld(F_TYPE), frame[('F', A, F_TYPE)]) and c.is_eq(ld(F_NARGS), frame[('F', A, F_NARGS)]) and c.is_eq(ld(F_ACT), frame[('F', A, F_ACT)])
        rep.ok('C15.restore', w, '%s: after a failure the argument behaves as before' % nm, same_, s.tr)
        rep.ok('C15.restore', w, '%s: after a failure the help and version options are as before' % nm, s.h.get(H_) == help_ and s.h.get(V_) == version, s.tr)
        bad = holds(self.P, I, s, self.kind, 'def', self.n, self.g)
        rep.ok('C30.restore', w, '%s: after a failure the defaults are as before%s' % (nm, ''.join('; ' + b for b in bad)), not bad, s.tr)


def defaults(P, rep, kind, n0, n, g, fit):
    """defaults(list of n) on an argument of a kind that holds n0 defaults"""
    f = [x for x in P.funcs.values() if x.get('cls') == ARG and x['n'] == 'defaults' and x.get('body')]
    if len(f) != 1:
        raise AnalysisError('anchor lost: Argument::defaults')
    f = f[0]
    w = f.get('defloc', 'defaults')
    env, I, st = start(P, kind, n0, g)
    if kind in NUMBER and n0 == ZERO:
        st.h[('F', A, F_NARGS)] = n if fit else lin.sym('nargs', 2, 1 << 40)
    if kind in NUMBER and n0 != ZERO and fit:
        n = n0
    L = ('H', ('list',))
    vcls = P.strip(f['params'][0]['t'])
    st.h[L] = ('obj', vcls)
    st.h[('F', L, '#vec')] = texts('new', n)
    before = {k: st.h[('F', A, k)] for k in (F_TYPE, F_NARGS, F_ACT)}
    help_, version = st.h[H_], st.h[V_]
    o = run_in(I, f, st, ('ptr', A), [('ref', L)])
    rep.take(I, 'C30.memory')
    rep.count('default lists')
    nm = 'defaults(%s) on %s' % ('none' if n == ZERO else 'a list', kind)
    nargs = before[F_NARGS]
    for x in o.exits:
        rep.violation('C30.values', I.where(x[3]), '%s ends the process' % nm)
    for s, r in o.returns:
        t = s
        if kind in SINGLE or kind in NUMBER:
            t, no = I.fork_cmp(s, '==', n, nargs) if n != ZERO else (s, None)
            rep.ok('C30.number', w, '%s is accepted only if the number fits' % nm, no is None, s.tr)
        elif kind in GROUPS:
            rep.ok('C30.number', w, '%s is accepted only if the number fits' % nm, fit, s.tr)
            t = s if fit else None
        if t is None:
            continue
        bad = holds(P, I, t, kind, 'new', n, g)
        rep.ok('C30.values', w, '%s: the argument reports exactly these values%s' % (nm, ''.join('; ' + b for b in bad)), not bad, t.tr)
        rep.ok('C30.frame', w, '%s changes nothing else' % nm, all(t.c.is_eq(I.load(t, ('F', A, k)), v) for k, v in before.items()) and t.h.get(H_) == help_ and t.h.get(V_) == version, t.tr)
        rep.ok('C30.frame', w, '%s returns the argument' % nm, r == ('ref', A), t.tr)
    for s, x, node in o.throws:
        wx = I.where(node)
        named(rep, I, s, x, node, nm)
        rep.ok('C30.number', wx, '%s fails with ArgumentException only' % nm, x[1] == CONF_EXC or P.derives(x[1], CONF_EXC), s.tr)
        yes = None
        if n == ZERO or kind in FLAGS or kind in ANY:
            yes = s
        elif kind in SINGLE or kind in NUMBER:
            yes, _ = I.fork_cmp(s.fork(), '==', n, nargs)
        elif kind in GROUPS and fit:
            yes = s
        rep.ok('C30.number', wx, '%s fails only if the number does not fit' % nm, yes is None, s.tr)
        bad = holds(P, I, s, kind, 'def', n0, g)
        rep.ok('C30.restore', wx, '%s: after a failure the argument is as before%s' % (nm, ''.join('; ' + b for b in bad)), not bad and all(s.c.is_eq(I.load(s, ('F', A, k)), v) for k, v in before.items()), s.tr)


def named(rep, I, s, x, node, nm):
    """the exception is an ArgumentException that names the argument"""
    rep.ok('C23.type', I.where(node), '%s fails with ArgumentException only' % nm, x[1] == CONF_EXC, s.tr)
    name = dict(x[2][2]).get(NS + 'ArgumentException::argument_') if isinstance(x[2], tuple) and x[2][0] == 'rec' else None
    other = isinstance(name, tuple) and name[0] == 'S' and len(name[1]) == 1 and name[1][0][0] == 's' and name[1][0][1][0] == 'other' and whole(name[1][0][1]) == name
    ok = isinstance(name, tuple) and name[0] == 'S' and (other or c_obs.same(s, name, whole(('first',))))
    rep.ok('C23.name', I.where(node), '%s: the exception names the argument' % nm, ok, s.tr)


D0 = lin.sym('n_old', 1, 1 << 40)
D1 = lin.sym('n_new', 1, 1 << 40)


REGROUP = ('MULTI_OPTION', 'MULTI_INFINITE_OPTION', 'INFINITE_POSITIONAL_ARGUMENT')


def old_sizes(kind):
    if kind in FLAGS:
        return (ZERO, D0)
    if kind in SINGLE:
        return (ZERO, ONE)
    if kind in NUMBER:
        return (ZERO, lin.sym('n_fit', 2, 1 << 40))
    return (ZERO, D0)


def tasks(pid, thorough):
    out = []
    GSZ = (2, 3, 4) if thorough else (2, 3)
    if pid == 'C23':
        return tasks('C15', thorough) + tasks('C30', thorough)
    if pid == 'C15':
        for kind in TYPES:
            for a in ('NONE', 'HELP', 'VERSION', 'STORE_TRUE', 'STORE_FALSE', 'APPEND', 'EXTEND', 'INFINITE'):
                out.append(('conf', kind, 'action', a, ZERO, 2, None))
            acts = [None]
            if kind == 'BOOLEAN_OPTION':
                acts = ['STORE_TRUE', 'NONE', 'APPEND', 'EXTEND', 'INFINITE']
            for act in acts:
                out.append(('conf', kind, 'nargs', lin.sym('count', 0, (1 << 64) - 1), ZERO, 2, act))
                if act:
                    for a in ('NONE', 'APPEND', 'INFINITE', 'STORE_FALSE', 'HELP'):
                        out.append(('conf', kind, 'action', a, ZERO, 2, act))
        return out
    for kind in TYPES:
        gs = GSZ if kind in GROUPS else (2,)
        for g in gs:
            olds = [ZERO] + ([D0 * g] if kind in GROUPS else [x for x in old_sizes(kind) if x != ZERO])
            for n0 in olds:
                news = [(ZERO, True)]
                if kind in GROUPS:
                    news += [(D1 * g, True)] + [(D1 * g + r - g, False) for r in range(1, g)]
                elif kind in NUMBER:
                    news += [(lin.sym('n_fit2', 2, 1 << 40), True), (D1, False)]
                else:
                    news += [(D1, True)]
                for n, fit in news:
                    out.append(('defaults', kind, n0, n, g, fit))
            for n0 in olds[1:]:
                for a in ('NONE', 'HELP', 'STORE_TRUE', 'STORE_FALSE', 'APPEND', 'EXTEND', 'INFINITE'):
                    if kind in NUMBER and (a in ('APPEND', 'EXTEND') and kind not in POSITIONAL or a == 'INFINITE' and kind in POSITIONAL):
                        continue        # below
                    # a following action() or nargs()
                    out.append(('conf', kind, 'action', a, n0, g, None))
                for c in (0, 1) + GSZ:
                    if kind in GROUPS and c and g % c:
                        m = c * g // math.gcd(c, g)
                        out += [('conf', kind, 'nargs', Lin(c), D0 * m + (r * g - m), g, None) for r in range(1, m // g + 1)]
                    elif c < 2 or kind not in REGROUP:
                        out.append(('conf', kind, 'nargs', Lin(c), n0, g, None))
    # numbers of defaults that do not depend on an earlier kind, for lists turned into groups
    for kind in REGROUP:
        for c in GSZ:
            for r in range(c):
                out.append(('conf', kind, 'nargs', Lin(c), D0 * c + r, 2, None))
    for kind in NUMBER:
        for c in GSZ:
            for a in ('APPEND', 'EXTEND', 'INFINITE'):
                out.append(('conf', kind, 'action', a, Lin(c), 2, None))
    return out


def one(P, rep, t):
    if t[0] == 'conf':
        Conf(P, rep, t[1], t[2], t[3], t[4], t[5], t[6]).run()
    else:
        defaults(P, rep, *t[1:])


RULES = {
    'C15.kind': 'after action() or nargs() on any kind, the resulting kind, nargs and action are those of the documented table', 'C15.reject': 'exactly the impossible combinations are refused',
    'C15.exception': 'refusals are ArgumentException', 'C15.unique': 'an argument becomes the help (version) option only if there is no other', 'C15.role': 'the object knows an argument as its help (version) option exactly if its action says so',
    'C15.restore': 'a refused call changes nothing', 'C15.self': 'the call returns the argument', 'C15.memory': 'no invalid access',
    'C30.values': 'after defaults(list) an absent argument reports exactly these values, texts and groups', 'C30.kept': 'a following action() or nargs() keeps the defaults, in the shape of the new kind',
    'C30.number': 'ArgumentException exactly if the number does not fit', 'C30.restore': 'a refused call changes nothing', 'C30.frame': 'defaults() changes nothing else', 'C30.memory': 'no invalid access',
}
COMMON = ['the argument was configured through the public interface and holds no values of a command line', 'groups of 2 and 3 (thorough: 4) values; everything else for any number']
ASSUME = {'C15': COMMON, 'C30': COMMON}


def check(pid, rep):
    P = load()
    ts = tasks(pid, os.environ.get('VERIF_TIER') == 'thorough')

    def chunk(i):
        rs = Report(pid)
        for t in ts[i::24]:
            r = c_obs.attempt(pid, '%s' % (t[:4],), lambda r: one(P, r, t))
            rs.merge(r)
            if not r.errors:
                rs.partial += 1
        return rs
    for i, r, err in jobs.run(chunk, range(24), time.time() + 600):
        if err:
            rep.error('part %d: %s' % (i, err))
            continue
        rep.merge(r)
        rep.partial += r.partial
    rep.count('tasks', len(ts))
    for rid, text in RULES.items():
        if rid.startswith(pid + '.'):
            rep.rule(rid, text)
    if pid == 'C23':
        return
    if pid == 'C15':
        rep.need('configurations', 100)
    else:
        rep.need('default lists', 40)
