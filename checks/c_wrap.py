"""How long texts are broken into lines (C35)."""
import os
import re
from base import *
from env import *
from values import *
from core import *
import lin
import c_obs
from c_parse import NS, load

W_ = lin.sym('W', 1, 1 << 20)
ROUNDS = 3 if os.environ.get('VERIF_TIER') == 'thorough' else 2


def par(k):
    return ('par', k)


class WrapEnv(Env):
    unroll_states = 5000
    unroll_entries = 5000
    unroll_rounds = 12

    def __init__(self, P, rep, pars, rounds):
        Env.__init__(self)
        self.P, self.rep, self.pars, self.rounds = P, rep, pars, rounds

    def unrollable(self, node):
        return 'force'

    def may_forget(self, k):
        return False

    def getline(self, st, vs, e):
        I = self.I
        if len(vs) > 2 and I.val(st, vs[2], e) != Lin(10):
            raise AnalysisError('getline with another separator')
        v = I.stream_val(st, vs[0], e)
        k = v[3].c if isinstance(v[3], Lin) else v[3]
        if k < self.pars:
            I.set_obj(st, vs[1], whole(par(k)), e)
            I.set_obj(st, vs[0], v[:3] + (Lin(k + 1), ONE) + v[5:], e)
        else:
            I.set_obj(st, vs[0], v[:4] + (ZERO,) + v[5:], e)
        return [(st, vs[0])]

    def moved(self, st, old, new):
        """is some number, position or text length known to differ from the round before?"""
        def sizes(v):
            if isinstance(v, Lin):
                return [v]
            if is_str(v):
                return [str_len(v)]
            if isinstance(v, tuple) and v and v[0] in ('it', 'cp', 'stream', 'ptr', 'ap'):
                return [x for x in v if isinstance(x, Lin)]
            return []
        for k, v in new.items():
            if k in old:
                a, b = sizes(old[k]), sizes(v)
                if len(a) == len(b) and any(st.c.is_ne(x, y) for x, y in zip(a, b)):
                    return True
        return False

    def loop_head(self, st, node, back):
        key = ('lc', node['#'])
        if not back:
            st.sg(key, 0)
            return [st]
        n = st.g(key) + 1
        now = tuple(sorted(((k, v) for k, v in st.h.items() if k[0] in ('v', 'H')), key=repr))
        if n > 1 and not self.moved(st, dict(st.g(('last', node['#']))), dict(now)):
            self.rep.ok('C35.progress', self.I.where(node), 'every round of a loop comes closer to its end', False, st.tr)
            return []
        if n > 1:
            self.rep.ok('C35.progress', self.I.where(node), 'every round of a loop comes closer to its end', True, ())
        st.sg(('last', node['#']), now)
        st.sg(key, n)
        return [st] if n <= self.rounds else []


def spaces(st, base, a, b):
    """are all characters of [a, b) known to be spaces?"""
    c = st.c

    def space(k):
        if c.is_eq(ch(base, c.norm(k)) - 32):
            return True
        # the same position under another name
        for x, e in c.eq.items():
            t = lin.ATOMS[x]
            if t[0] == 'ch' and t[1] == base and e == Lin(32) and c.is_eq(t[2], k):
                return True
        return False

    for _ in range(12):
        if c.is_eq(a, b):
            return True
        # runs found by find_first_not_of
        for s, e in st.g('runs') or ():
            if s[0] == base and c.is_eq(s[1], a) and not c.is_eq(e, a):
                a = e
                break
        else:
            if not space(a):
                return False
            a = a + 1
    return False


def judge(rep, I, st, v, w, pars):
    c = st.c
    ok = lambda rid, msg, x: rep.ok('C35.' + rid, w, msg, x, st.tr)
    if not is_vec(v):
        raise AnalysisError('the lines are not known')
    lines = []
    for x, n in v[1]:
        n = c.norm(n)
        if not (n.const and n.c <= 9):
            raise AnalysisError('the number of lines is not known')
        lines += [seg_at((x, n), Lin(i)) for i in range(n.c)]
    items = []
    for x in lines:
        if not is_str(x):
            raise AnalysisError('a line is not known')
        x = snorm(st, x)
        ps = list(x[1])
        if any(p[0] != 's' or p[1][0] != 'par' for p in ps):
            ok('lines', 'the lines are made from the text only', False)
            return
        items.append(ps)
    pos = dict((i, ZERO) for i in range(pars))
    last = {}
    at = 0
    for i, ps in enumerate(items):
        for j, p in enumerate(ps):
            k = p[1][1]
            if not ok('order', 'the lines are in the order of the text', k >= at):
                return
            at = k
            if not ok('words', 'only spaces are left out between lines', (j == 0 or c.is_eq(p[2], pos[k])) and spaces(st, p[1], pos[k], p[2])):
                return
            pos[k] = c.norm(p[2] + p[3])
        if ps:
            k = ps[0][1][1]
            if k in last:
                ok('width', 'a line that is broken off fits the width', c.is_ge(W_ - last[k]))
            n = ZERO
            for p in ps:
                n = n + piece_len(p)
            last[k] = c.norm(n)
    for k in range(pars):
        ok('words', 'the whole text is printed', spaces(st, par(k), pos[k], slen(par(k))))
    blank = sum(1 for ps in items if not ps)
    ok('blank', 'every line of the text has a line of its own', blank >= sum(1 for k in range(pars) if k not in last))


def wrapper(P):
    fs = [f for f in P.funcs.values() if f.get('internal') and f.get('body') and len(f['params']) == 2 and 'string' in (f.get('rt') or '')
          and re.search(r'\b(list|vector|deque)<', f.get('rt') or '') and 'basic_string' in f['params'][0]['t']]
    return fs


def one(P, r, f, pars, rounds):
    env = WrapEnv(P, r, pars, rounds)
    env.I = I = Engine(P, env)
    st = St()
    st.h[('H', ('text',))] = whole(('text',))
    o = run_in(I, f, st, None, [('ref', ('H', ('text',))), W_])
    r.take(I, 'C35.memory')
    w = f.get('defloc', f['n'])
    for s, x, node in o.throws:
        r.violation('C35.throw', I.where(node), 'breaking a text into lines throws', s.tr)
    for x in o.exits:
        r.violation('C35.throw', I.where(x[3]), 'breaking a text into lines ends the process')
    for s, v in o.returns:
        r.count('paths of the line wrapper')
        if isinstance(v, tuple) and v[0] in ('ref', 'ptr'):
            v = I.load(s, v[1])
        judge(r, I, s, v, w, pars)


def check(pid, rep):
    P = load()
    fs = wrapper(P)
    if len(fs) != 1:
        rep.error('anchor lost: %d functions break a text into lines' % len(fs))
        return
    for pars, rounds in ((0, 1), (1, ROUNDS), (2, 2)):
        r = c_obs.attempt('C35', '%d paragraphs' % pars, lambda r: one(P, r, fs[0], pars, rounds))
        rep.merge(r)
        if not r.errors:
            rep.partial += 1
    for rid, text in RULES.items():
        rep.rule(rid, text)
    rep.need('paths of the line wrapper', 5)


RULES = {
    'C35.words': 'the lines, in order, are the text, from which only spaces at the breaks are left out', 'C35.order': 'lines keep their order',
    'C35.width': 'every line that is broken off fits the width', 'C35.progress': 'no round of a loop leaves everything as it was',
    'C35.lines': 'lines consist of the text', 'C35.blank': 'a line of the text has a line of its own', 'C35.throw': 'no exception', 'C35.memory': 'no invalid access',
}
ASSUME = {'C35': ['texts of up to two lines of any length and content, each broken at most twice (thorough: three times) at up to two (three) spaces; any width from 1 to 2^20',
                  'the synopsis, which is broken between arguments, is not covered', 'no allocation failure']}
