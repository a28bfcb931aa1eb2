"""The usage text (C22)."""
import os
import re
import time
import jobs
from base import *
from env import *
from values import *
from core import *
import lin
from c_parse import (NS, ARG, EL, ARGS, A, ROOT, F_TYPE, F_NARGS, F_DEF, F_NAMES, F_REQ, FLAGS, GROUPS, POSITIONAL, TYPES, ACTION)
import c_obs
from c_order import enum_vals

USAGE = NS + 'Usage'
F_HELP, F_MV, F_ACT = ARG + '::help_', ARG + '::metavar_', ARG + '::action_'
B = ('H', ('B',))
C_ = ('H', ('C',))
NARGS = {'NUMBER_OPTION': 2, 'NUMBER_POSITIONAL_ARGUMENT': 3}


class UsageEnv(Env):
    unroll_states = 4000

    def __init__(self, P, lines, custom=True):
        Env.__init__(self)
        self.P = P
        self.lines = lines
        self.custom = custom
        self.wrapped = 0

    def may_forget(self, k):
        return False

    def unrollable(self, node):
        return 'force'

    def class_of(self, st, root):
        if root in (A, B, C_):
            return ARG

    def field_value(self, st, root, key, ft):
        return self.sym(ft, (root[1], key))

    def virtual_call(self, st, f, this, args, node):
        return None

    def intercept(self, st, f, this, args, node):
        if not f['qn'].startswith('blet::') and not f['qn'].startswith('blet'):
            return None
        rt = clean(f.get('rt') or '')
        if f.get('internal') and 'string' in rt and re.search(r'\b(list|vector|deque)<', rt) and len(args) == 2:
            # the line wrapper: some lines made from the text
            self.wrapped += 1
            out = []
            for s, t in self.I.text(st, args[0], node):
                t = snorm(s, t)
                out.append((s, ('V', tuple((whole(('line', t, i)), ONE) for i in range(self.lines)))))
            return out
        if f['kind'] == 'method' and rt.endswith('string') or 'basic_string' in rt:
            if f.get('cls') == ARG and f['n'].startswith('metavar') and not args and isinstance(this, tuple) and this[0] == 'ptr':
                return [(st, whole(('metavar of', this[1])))]
        return None


def options_of(P, kind):
    return kind not in POSITIONAL


def setup(P, kind, pos, others, nnames, lines, req, metavar, default):
    """the object with the argument A of the kind; others: list of 'o'/'p' for further arguments"""
    env = UsageEnv(P, lines)
    env.I = I = Engine(P, env)
    st = St()
    kinds, actions = enum_vals(P, ARG + '::Type'), enum_vals(P, NS + 'Action::eAction')
    st.h[ROOT] = ('obj', ARGS)
    st.h[('F', ROOT, USAGE + '::args_')] = ('ref', ROOT)
    st.h[('F', ROOT, USAGE + '::usage_')] = EMPTY_S
    for n in ('description_', 'epilog_'):
        st.h[('F', ROOT, USAGE + '::' + n)] = EMPTY_S
    st.h[('F', ROOT, ARGS + '::binaryName_')] = whole(('binary',))
    for key, t in P.fields(USAGE):
        if P.kind(t) == 'int':
            st.h[('F', ROOT, key)] = lin.sym(key, 0, 1 << 20)

    def arg(root, kind, n, req, metavar, default, tag):
        st.h[root] = ('obj', ARG)
        st.h[('F', root, ARG + '::args_')] = ('ref', ROOT)
        st.h[('F', root, F_TYPE)] = Lin(kinds[kind])
        st.h[('F', root, F_ACT)] = Lin(actions[ACTION.get(kind, 'NONE')])
        st.h[('F', root, F_NARGS)] = Lin(0 if kind in FLAGS else 2 if kind in GROUPS else NARGS.get(kind, 1))
        names = [whole(('name', tag, i)) for i in range(n)]
        st.h[('F', root, F_NAMES)] = ('V', tuple((x, ONE) for x in names))
        for i in range(n):
            st.c = st.c.add_ge(slen(('name', tag, i)) - 1)
        st.h[('F', root, F_REQ)] = Lin(1 if req else 0)
        st.h[('F', root, F_HELP)] = whole(('help', tag))
        st.h[('F', root, F_MV)] = whole(('given metavar', tag)) if metavar else EMPTY_S
        st.h[('F', root, F_DEF)] = whole(('default', tag)) if default else EMPTY_S
        if metavar:
            st.c = st.c.add_ge(slen(('given metavar', tag)) - 1)
        if default:
            st.c = st.c.add_ge(slen(('default', tag)) - 1)

    arg(A, kind, nnames, req, metavar, default, 'A')
    lst = [A]
    for o, root, tag in zip(others, (B, C_), 'BC'):
        arg(root, 'SIMPLE_OPTION' if o == 'o' else 'POSITIONAL_ARGUMENT', 1, False, False, False, tag)
        lst.append(root)
    lst.sort(key=lambda r: (0 if (r == A and kind not in POSITIONAL) or (r != A and others[(B, C_).index(r)] == 'o') else 1, (B, A, C_).index(r) if pos else (A, B, C_).index(r)))
    st.h[('F', ROOT, ARGS + '::arguments_')] = ('V', tuple((('ptr', r), ONE) for r in lst))
    return env, I, st, lst


class Text(object):
    """the usage as a Python string; each unknown text is one character of its own"""

    def __init__(self, st, v):
        self.map = {}
        out = []
        for p in snorm(st, v)[1]:
            if p[0] == 'l':
                out.append(p[1])
            elif p[0] == 'rep':
                out.append(' ')
            elif p[0] == 's' and st.c.is_eq(p[2]) and st.c.is_eq(p[3], slen(p[1])):
                out.append(self.char(p[1]))
            elif p[0] == 'c' and isinstance(p[1], Lin) and p[1].const:
                out.append(chr(p[1].c))
            else:
                out.append(self.char(('part', p)))
        self.s = ''.join(out)

    def char(self, base):
        if base not in self.map:
            self.map[base] = chr(0xE000 + len(self.map))
        return self.map[base]

    def of(self, base):
        return self.map.get(base, '\uF8FF')


BLANK = re.compile(r'\s+')


def judge(rep, P, env, I, st, o, kind, req, metavar, default, nnames, others, lst):
    w = P.one(USAGE + '::getUsage').get('defloc', 'getUsage')
    rep.count('usage texts')
    valued = kind not in FLAGS
    pos = kind in POSITIONAL
    what = '%s%s' % (kind, ' required' if req else '')
    for s, x, n in o.throws:
        rep.ok('C22.text', n, '%s: the usage text is made' % what, False)
    for s, x, c, n in o.exits:
        rep.ok('C22.text', n, '%s: the usage text is made' % what, False)
    for s, v in o.returns:
        rep.count('paths of getUsage')
        if not is_str(v):
            raise AnalysisError('the usage is no text')
        T = Text(s, v)
        full = T.s
        t = BLANK.sub(' ', full)
        ob = lambda rid, msg, ok: rep.ok('C22.' + rid, w, '%s: %s' % (what, msg), ok, (repr(t)[:300],))
        hp, ho = t.find(' positional arguments:'), t.find(' optional arguments:')
        heads = sorted(h for h in (hp, ho) if h >= 0)
        syn = t[:heads[0]] if heads else t
        def section(h):
            if h < 0:
                return ''
            nxt = [x for x in heads if x > h]
            return t[h:nxt[0] if nxt else len(t)]
        positional, optional = section(hp), section(ho)
        names = [T.of(('name', 'A', i)) for i in range(nnames)]
        mvs = [T.of(('given metavar', 'A')), T.of(('metavar of', A))]
        mv = mvs[0] if metavar else mvs[1]
        # the synopsis
        spans = [m.start() for m in re.finditer(re.escape(names[0]), syn)]
        ob('synopsis', 'the synopsis names it', bool(spans))
        if spans:
            a, z = spans[0], spans[-1] + 1
            before = syn[:a].rstrip('{(<')[-1:]
            tail = syn[z:]
            if not pos:
                shown = re.match(r'[ =]?' + re.escape(mv), tail)
                ob('metavar', 'the synopsis shows the metavar exactly if it takes values', bool(shown) == valued and not any(x in syn for x in mvs if x != mv or not valued))
                tail = tail[shown.end():] if shown else tail
                tail = tail.lstrip('})>.')
            else:
                tail = tail.lstrip('})>.')
            ob('brackets', 'it is in brackets in the synopsis exactly if it is not required', (before == '[' and tail[:1] == ']') == (not req) and (not req or before != '[' and tail[:1] != ']'))
        # the sections
        mine, other = (positional, optional) if pos else (optional, positional)
        ob('section', 'it is listed in the %s section only' % ('positional' if pos else 'optional'), names[0] in mine and not any(n in other for n in names))
        at = [mine.find(n) for n in names]
        ob('flags', 'every flag is listed, once and in order', all(x >= 0 for x in at) and at == sorted(at) and all(mine.count(n) == 1 for n in names))
        if min(at) < 0:
            continue
        rest = mine[max(at) + 1:]
        if not pos:
            shown = re.match(r'[ =]?' + re.escape(mv), rest)
            ob('metavar', 'the section shows the metavar exactly if it takes values', bool(shown) == valued and not any(x in mine for x in mvs if x != mv or not valued))
            rest = rest[shown.end():] if shown else rest
        # help and marks
        rest = rest.lstrip()
        lines = []
        text = None
        inv = dict((c, b) for b, c in T.map.items())
        for ch_ in rest:
            b = inv.get(ch_)
            if b is not None and b[0] == 'line':
                if text is None:
                    text = b[1]
                if b[1] != text or b[2] != len(lines):
                    break
                lines.append(b)
            elif ch_ != ' ':
                break
        if text is not None:
            ob('lines', 'all lines of the help follow', len(lines) == env.lines)
            h = Text(s, text)
        else:
            # not wrapped: the text itself follows
            h = Text(s, ('S', ()))
            h.s, h.map = rest, T.map
        hc, dc = h.of(('help', 'A')), h.of(('default', 'A'))
        i = h.s.find(hc)
        others_first = [h.s.find(h.of(('help', x))) for x in 'BC']
        ob('help', 'its help follows', i >= 0 and not any(0 <= x < i for x in others_first))
        if i < 0:
            continue
        end = h.s[i + 1:]
        m = re.match(r'\s*[(\[]?required[)\]]?', end)
        ob('required', '"(required)" follows exactly if it is required', bool(m) == req)
        d = re.match(r'\s*[(\[]default[:=]? ?"?' + re.escape(dc) + r'"?[)\]]', end)
        ob('default', 'the default follows exactly if there is one and it is not required', bool(d) == (default and not req) and (bool(d) or dc not in h.s))
        # the others
        for k, tag in zip(others, 'BC'):
            n = T.of(('name', tag, 0))
            ob('others', 'the other arguments are listed too', n in syn and n in (optional if k == 'o' else positional) and n not in (positional if k == 'o' else optional))
    if I.imprecise:
        raise AnalysisError('imprecise: %s at %s' % I.imprecise[0])


def custom(rep, P):
    """a custom usage text is what getUsage returns"""
    f = P.one(USAGE + '::getUsage')
    env, I, st, lst = setup(P, 'SIMPLE_OPTION', 0, 'p', 1, 1, False, True, True)
    st.h[('F', ROOT, USAGE + '::usage_')] = whole(('custom',))
    st.c = st.c.add_ge(slen(('custom',)) - 1)
    o = run_in(I, f, st, ('ptr', ROOT), [])
    for s, v in o.returns:
        rep.count('paths of getUsage')
        rep.ok('C22.custom', f['defloc'], 'a custom usage text is returned as it is', same(s, v, whole(('custom',))))
    rep.take(I, 'C22.memory')
    if o.throws or o.exits or not o.returns:
        rep.ok('C22.custom', f['defloc'], 'a custom usage text is returned', False)


def ujob(a):
    import gc
    gc.disable()
    kind = a[0]
    rep = Report('C22')
    P = load()
    f = P.one(USAGE + '::getUsage')
    thorough = os.environ.get('VERIF_TIER') == 'thorough'
    try:
        for others in ('', 'o', 'p') + (('op', 'pp', 'oo') if thorough else ()):
            for pos in (0, 1) if others else (0,):
                for req in (False, True):
                    for metavar in (False, True) if kind not in POSITIONAL else (False,):
                        for default in (False, True):
                            for nn in ((1,) if kind in POSITIONAL else (1, 3) if not thorough else (1, 2, 3, 4)):
                                if others and not thorough and (metavar != default and kind not in POSITIONAL or (nn == 1) != bool(pos) and kind not in POSITIONAL):
                                    continue
                                lines = 2 if default == metavar else 1
                                if kind in POSITIONAL:
                                    lines = 2 if req else 1
                                env, I, st, lst = setup(P, kind, pos, others, nn, lines, req, metavar, default)
                                o = run_in(I, f, st, ('ptr', ROOT), [])
                                judge(rep, P, env, I, st, o, kind, req, metavar, default, nn, others, lst)
                                rep.take(I, 'C22.memory')
                                rep.count('configurations')
    except AnalysisError as x:
        if os.environ.get('VERIF_DEBUG'):
            import traceback
            traceback.print_exc()
        rep.error('%s: %s' % (kind, x))
    return rep


def check(pid, rep):
    load()
    complete = 0
    todo = [(k,) for k in TYPES]
    r = c_obs.attempt('C22', 'custom usage', lambda r: custom(r, load()))
    rep.merge(r)
    for a, r, err in jobs.run(ujob, todo, time.time() + 600):
        if err:
            rep.error('%s: %s' % (a[0], err))
            continue
        rep.merge(r)
        if not r.errors:
            complete += 1
        if rep.viol and os.environ.get('VERIF_TIER') != 'thorough':
            rep.notes.append('stopped at the first kind with a violation')
            break
    rep.partial = complete
    for rid, text in RULES.items():
        rep.rule(rid, text)
    rep.need('paths of getUsage', 100)


RULES = {
    'C22.synopsis': 'the first name of every argument is in the part before the sections',
    'C22.brackets': 'with brackets around it exactly if it is not required',
    'C22.metavar': 'the metavar (given, else generated) stands behind the flags, in the synopsis and in the section, exactly for options taking values',
    'C22.section': 'options are listed under "optional arguments:", positional arguments under "positional arguments:"',
    'C22.flags': 'all flags, once, in order', 'C22.lines': 'every line of the wrapped help is printed', 'C22.help': 'the help of the argument follows its name',
    'C22.required': '"(required)" mark', 'C22.default': 'default text', 'C22.others': 'no other argument is lost', 'C22.custom': 'a custom text wins', 'C22.memory': 'no invalid access', 'C22.text': 'a text is made',
}
ASSUME = {'C22': ['up to three arguments (thorough: four) with up to three flags (thorough: four), every combination of kind, required, metavar, default and layout branch; widths up to 2^20',
                  'the line wrapper keeps the text (that is C35); the text of a generated metavar is not examined', 'no allocation failure']}
