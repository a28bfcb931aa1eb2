"""Observers of one argument: what is written to destinations and reported by the conversions (C10, C24, C25, C27, C31)."""
from base import *
from env import *
from values import *
from core import *
import lin
from c_parse import (NS, ARG, EL, F_EX, F_CNT, F_TYPE, F_NARGS, F_TXT, F_DEF, F_DEFS, F_VALID, FLAGS, SINGLE, GROUPS, TYPES,
                     el_rec)

SELF = ('H', ('self',))
DEST = ('H', ('dest',))
F_ISN, F_NUM = EL + '::isNumber_', EL + '::number_'
LISTS = tuple(k for k in TYPES if k not in FLAGS and k not in SINGLE)
FLAT = tuple(k for k in LISTS if k not in GROUPS)
EXC = NS + 'Exception'


class ObsEnv(Env):
    """one argument with arbitrary contents; destinations and custom functions are recorded"""

    def __init__(self, kind):
        Env.__init__(self)
        self.kind = kind
        self.writes = set()
        if SIZE is not None:
            self.unroll_states = 200

    def may_forget(self, k):
        return False

    def owner(self, loc):
        return root_of(loc) if loc is not None and root_of(loc) == SELF else loc

    # custom functions and destinations
    def opaque_call(self, st, cv, vs, e):
        calls = st.g('calls') or ()
        vals = []
        for v in vs:
            if isinstance(v, tuple) and v[0] == 'ref' and v[1] != DEST:
                v = self.I.load(st, v[1], e)
            elif isinstance(v, tuple) and v[0] == 'tmp':
                v = self.I.val(st, v, e)
            vals.append(v)
        st.sg('calls', calls + ((cv, tuple(vals)),))
        return [(st, ZERO)]

    def on_write(self, st, loc, v, node):
        root = loc
        while root[0] in ('F', 'I') and isinstance(root[1], tuple):
            root = root[1]
        if root == SELF:
            self.writes.add((loc[2] if loc[0] == 'F' else '#vec', self.I.where(node)))

    on_seq_write = on_write

    def head_facts(self, st):
        return []

    # character arrays: the text at their start and the range [lo, hi) that is known to be NUL
    def buf(self, st, loc):
        v = st.h.get(loc)
        if isinstance(v, tuple) and v[0] == 'arr':
            return (v[1], self.I.p.ty(v[1])['n'], EMPTY_S, ZERO, ZERO)
        if isinstance(v, tuple) and v[0] == 'buf':
            return v[1:]
        return None

    def put(self, st, loc, t, n, s, lo, hi, at, end):
        """characters [at, end) were written: s is the text from the start on"""
        c = st.c
        if c.is_ge(end - hi) and c.is_ge(lo - at):
            lo = hi = ZERO
        elif c.is_ge(lo - at) and c.is_ge(end - lo):
            lo = end
        elif not (c.is_ge(at - hi) or c.is_ge(lo - end)):
            if c.is_ge(at - lo):
                hi = at
            else:
                lo = hi = ZERO
        st.h[loc] = ('buf', t, n, snorm(st, s), lo, hi)

    def array_read(self, st, loc, v, node):
        t, n, s, lo, hi = self.buf(st, loc[1])
        i = st.c.norm(loc[2])
        self.I.oblige(st, 'mem', st.c.is_ge(i) and st.c.is_ge(Lin(n - 1) - i), node, 'the read stays within the character array')
        if st.c.is_ge(str_len(s) - i - 1):
            return self.I.read_char(st, s, i, node)
        if st.c.is_ge(i - lo) and st.c.is_ge(hi - i - 1):
            return [(st, ZERO)]
        return [(st, fresh('arr', -128, 127))]

    def array_write(self, st, loc, x, v, node):
        t, n, s, lo, hi = self.buf(st, loc[1])
        c = st.c
        i = c.norm(loc[2])
        self.I.oblige(st, 'mem', c.is_ge(i) and c.is_ge(Lin(n - 1) - i), node, 'the write stays within the character array')
        ln = str_len(s)
        v = c.norm(v)
        if v == ZERO:
            if c.is_ge(ln - i):
                for s2, x2 in self.I.substr(st, s, ZERO, i, node):
                    s = x2
                lo, hi = (i, hi) if c.is_eq(lo, i + 1) else (i, i + 1)
                st.h[loc[1]] = ('buf', t, n, snorm(st, s), lo, hi)
            else:
                lo, hi = (lo, i + 1) if c.is_eq(hi, i) else (i, i + 1)
                st.h[loc[1]] = ('buf', t, n, s, lo, hi)
        elif c.is_eq(i, ln):
            self.put(st, loc[1], t, n, cat_s(s, ('S', (('c', v),))), lo, hi, i, i + 1)
        else:
            self.I.top(st, 'character array written out of order', node)
            st.h[loc[1]] = ('buf', t, n, ('S', (('o', ('buf', i)),)), ZERO, ZERO)

    def memcopy(self, st, fn, d, src, cnt, e):
        if not (isinstance(d, tuple) and d[0] == 'ap' and self.buf(st, d[1])):
            self.I.err('%s into %s' % (fn, d), e)
        t, n, s, lo, hi = self.buf(st, d[1])
        c = st.c
        at = c.norm(d[2])
        if fn == 'memset':
            self.I.oblige(st, 'mem', c.is_ge(at) and c.is_ge(Lin(n) - at - cnt), e, '%s stays within the character array' % fn)
            if st.c.norm(src) != ZERO or not c.is_ge(str_len(s) - at):
                self.I.err('memset', e)
            out = []
            for s2, x in self.I.substr(st, s, ZERO, at, e):
                s2.h[d[1]] = ('buf', t, n, x, at, c.norm(at + cnt))
                out.append((s2, d))
            return out
        if isinstance(src, tuple) and src[0] == 'ap' and self.buf(st, src[1]):
            b = self.buf(st, src[1])
            if not c.is_eq(b[3], str_len(b[2])) or not c.is_ge(b[4] - b[3] - 1):
                self.I.err('%s from an unterminated array' % fn, e)
            src = ('cp', b[2], src[2], None)
        if not (isinstance(src, tuple) and src[0] == 'cp'):
            self.I.err('%s from %s' % (fn, src), e)
        if src[3] is not None:
            self.check_owner(st, src[3], e)
        out = []
        for s1, text in self.I.substr(st, src[1], src[2], None, e):
            ln = str_len(text)
            if fn == 'strcpy':
                parts = [(s1, ln, True, ln + 1)]
            else:
                k = s1.c.norm(cnt - 1 if fn == 'snprintf' else cnt)
                if fn == 'snprintf':
                    self.I.oblige(s1, 'mem', s1.c.is_ge(k), e, 'snprintf is given at least one character')
                a, b = self.I.fork_cmp(s1, '<=', k, ln)
                parts = []
                if a is not None:
                    parts.append((a, k, fn == 'snprintf', k + 1 if fn == 'snprintf' else k))
                if b is not None:
                    if fn in ('memcpy', 'memmove'):
                        self.I.oblige(b, 'mem', b.c.is_eq(k, ln + 1), e, '%s reads only up to the NUL' % fn)
                    if fn == 'copy':
                        parts.append((b, ln, False, ln))
                    else:
                        parts.append((b, ln, True, ln + 1 if fn != 'strncpy' else k))
            for s2, m, nul, used in parts:
                cc = s2.c
                self.I.oblige(s2, 'mem', cc.is_ge(at) and cc.is_ge(Lin(n) - at - used), e, '%s stays within the character array' % fn)
                for s3, x in self.I.substr(s2, text, ZERO, m, e):
                    if not s3.c.is_eq(at, str_len(s)) and not s3.c.is_eq(at):
                        self.I.err('%s into the middle of an array' % fn, e)
                    new = x if s3.c.is_eq(at) else cat_s(s, x)
                    self.put(s3, d[1], t, n, new, lo, hi, at, s3.c.norm(at + used))
                    if nul:
                        b = s3.h[d[1]]
                        s3.h[d[1]] = b[:4] + (s3.c.norm(at + m), s3.c.norm(at + used))
                    out.append((s3, d if fn not in ('snprintf', 'copy') else m))
        return out


def element(p, base, k, inner=EMPTY_V):
    return el_rec(p, whole(('fld', ('el', base, k))), inner)


ELTS = (('self',), '#vec')
N_ = lin.sym('n_elements', 1, 1 << 40)
FLATS = (('self',), '#flat')
G = 2                   # size of a group
GS = (2, 3, 4) if os.environ.get('VERIF_TIER') == 'thorough' else (2, 3)
SIZE = None             # number of elements (or groups), None: arbitrary
EX_ = lin.sym('present', 0, 1)


def seq_of(body, k, n=None, size=None):
    """the sequence body[k := 0..n-1]"""
    if SIZE is None:
        return ('V', (run(body, N_ if n is None else n, k),))
    return ('V', tuple((subst_atom(body, atom_of(k), Lin(i)), ONE) for i in range(SIZE if size is None else size)))


def atom_of(v):
    return v.t[0][0]


def setup(P, env, kind, empty=False):
    """a state in which self is an argument of the given kind with arbitrary values; the expected texts"""
    I = Engine(P, env)
    st = St()
    st.h[SELF] = ('obj', ARG)
    k = fresh('k')
    vec, flat, rows = EMPTY_V, EMPTY_V, EMPTY_V
    text = whole(('fld', (SELF[1], F_TXT)))
    if kind in FLAT and not empty:
        vec = seq_of(element(P, ELTS, k), k)
        flat = seq_of(whole(('fld', ('el', ELTS, k))), k)
        rows = seq_of(('V', ((whole(('fld', ('el', ELTS, k))), ONE),)), k)
    elif kind in GROUPS and not empty:
        # groups of G values each: value j of group k is value k*G+j of the argument
        items = [whole(('fld', ('el', FLATS, k * G + j))) for j in range(G)]
        inner = ('V', tuple((el_rec(P, x), ONE) for x in items))
        vec = seq_of(el_rec(P, EMPTY_S, inner), k)
        rows = seq_of(('V', tuple((x, ONE) for x in items)), k)
        j = fresh('j')
        flat = seq_of(whole(('fld', ('el', FLATS, j))), j, N_ * G, SIZE and SIZE * G)
    elif kind in SINGLE:
        flat = ('V', ((text, ONE),))
        rows = ('V', ((flat, ONE),))
    st.h[('F', SELF, '#vec')] = vec
    st.h[('F', SELF, F_TXT)] = text if kind in SINGLE or kind in LISTS and not empty else EMPTY_S
    st.h[('F', SELF, F_TYPE)] = Lin(env_enum(P, kind))
    st.h[('F', SELF, F_NARGS)] = Lin(G) if kind in GROUPS else (N_ if SIZE is None else Lin(SIZE)) if kind.startswith('NUMBER') else ZERO if kind in FLAGS else ONE
    st.h[('F', SELF, F_EX)] = EX_
    return I, st, text, flat, rows


def env_enum(P, name):
    for en, e in P.enums.items():
        if en == ARG + '::Type':
            for v in e['vals']:
                if v['n'] == name:
                    return v['v']
    raise AnalysisError('kind ' + name)


def insts(P, tmpl):
    """instances of a destination class: [(class, T, toDest_ function)]"""
    out = []
    for f in P.funcs.values():
        c = f.get('cls') or ''
        if f['n'] == 'toDest_' and f.get('body') and c.startswith(NS + tmpl + '<'):
            out.append((c, c[len(NS + tmpl) + 1:-1].strip(), f))
    return sorted(out, key=lambda x: x[0])


TRUE, FALSE = lit('true'), lit('false')


class Dest(object):
    """toDest_ of one destination class on one kind of argument"""

    def __init__(self, P, rep, c, T, f, level):
        self.P, self.rep, self.c, self.T, self.f, self.level = P, rep, c, T, f, level
        own = [(k, t) for k, t in P.fields(c) if k.startswith(c + '::')]
        dest = [(k, t) for k, t in own if P.is_ref(t)]
        cust = [(k, t) for k, t in own if P.kind(t) == 'ptr']
        if len(dest) != 1 or len(cust) != 1:
            raise AnalysisError('members of %s' % c)
        self.kdest, self.tdest = dest[0]
        self.kcust = cust[0][0]
        self.where = f.get('defloc', c)

    def name(self, kind):
        return 'destination of type %s%s, %s' % (('', 'vector of ', 'vector of vector of ')[self.level], self.T.replace('std::basic_string<char>', 'std::string'), kind)

    def run(self, kind, custom, empty=False):
        P, rep = self.P, self.rep
        env = ObsEnv(kind)
        I, st, text, flat, rows = setup(P, env, kind, empty)
        st.h[SELF] = ('obj', self.c)
        env.text, env.rows = text, rows
        t = P.strip(self.tdest)
        old = lin.sym('n_old', 0, 1 << 40)
        k = fresh('k')
        if self.level == 0:
            st.h[DEST] = env.sym(t, ('dest',)) if P.kind(t) != 'array' else ('arr', t, ('dest',))
            self.old = st.h[DEST]
        else:
            x = ('old', ('x', k))
            self.old = st.h[DEST] = ('V', (run(x, old, k),))
        st.h[('F', SELF, self.kdest)] = ('ref', DEST)
        st.h[('F', SELF, self.kcust)] = ('ofn', ('custom',)) if custom else NULL
        if custom:
            st.h[('NUL', ('custom',))] = 1
        o = run_in(I, self.f, st, ('ptr', SELF), [])
        rep.take(I, 'C24.memory')
        self.env, self.I, self.kind, self.text, self.flat, self.rows = env, I, kind, text, flat, rows
        rep.count('destination runs')
        nm = self.name(kind)
        for s, _ in o.returns:
            rep.count('destination returns')
            calls = s.g('calls') or ()
            w = env.writes
            rep.ok('C10.self', self.where, '%s: writing it leaves the argument alone' % nm, not w, s.tr)
            if custom:
                self.custom(s, calls, nm)
            else:
                rep.ok('C10.once', self.where, '%s: no function is called when none was given' % nm, not calls, s.tr)
                self.plain(s, nm)
        for s, x, node in o.throws:
            # only types without a conversion fail
            rep.ok('C10.value', I.where(node), '%s: writing it does not fail' % nm, self.T.startswith('verif_client::'), s.tr)
        for x in o.exits:
            rep.violation('C10.value', I.where(x[3]), '%s: writing it ends the process' % nm)

    # ---- a custom function
    def custom(self, s, calls, nm):
        rep = self.rep
        if not rep.ok('C10.once', self.where, '%s: the custom function is called exactly once' % nm, len(calls) == 1, s.tr):
            return
        fn, vs = calls[0]
        rep.ok('C10.once', self.where, '%s: the function called is the one given to dest()' % nm, fn == ('ofn', ('custom',)), s.tr)
        rep.ok('C10.once', self.where, '%s: the custom function gets the destination itself' % nm, vs[0] == ('ref', DEST), s.tr)
        rep.ok('C10.once', self.where, '%s: the destination is left to the custom function' % nm, s.h[DEST] == self.old, s.tr)
        rep.ok('C10.once', self.where, '%s: the custom function gets isExists()' % nm, isinstance(vs[1], Lin) and s.c.is_eq(vs[1], EX_), s.tr)
        if self.kind in FLAGS:
            return
        if self.level == 0:
            if self.kind in SINGLE:
                rep.ok('C10.once', self.where, '%s: the custom function gets the value' % nm, same(s, vs[2], self.text), s.tr)
        else:
            want = self.flat if self.level == 1 else self.rows
            rep.ok('C10.once', self.where, '%s: the custom function gets the values in order' % nm, self.vsame(s, vs[2], want), s.tr)

    def vsame(self, s, v, want):
        return is_vec(v) and same(s, v, want)

    # ---- no custom function
    def plain(self, s, nm):
        rep, kind = self.rep, self.kind
        v = s.h[DEST]
        if kind in ('HELP_OPTION', 'VERSION_OPTION'):
            return
        rule = 'C24.text' if self.T.startswith('char[') or self.T == 'const char *' else 'C10.value'
        if self.level == 0:
            if kind in ('BOOLEAN_OPTION', 'REVERSE_BOOLEAN_OPTION'):
                self.truth(s, v, nm)
            elif kind in SINGLE:
                rep.ok(rule, self.where, '%s: it receives the value' % nm, self.conv(s, v, self.text, True), s.tr)
            return
        if not is_vec(v):
            rep.violation(rule, self.where, '%s: it is replaced' % nm, s.tr)
            return
        if kind in ('BOOLEAN_OPTION', 'REVERSE_BOOLEAN_OPTION'):
            x = self.tail(s, v)
            ok = x is not None and len(x) == 1 and x[0][1] == ONE
            if self.level == 2 and ok:
                y = x[0][0]
                ok = is_vec(y) and len(y[1]) == 1 and y[1][0][1] == ONE
                x = y[1] if ok else None
            if rep.ok('C10.value', self.where, '%s: it receives one new entry' % nm, ok, s.tr):
                self.truth(s, x[0][0], nm)
            return
        want = self.rows if self.level == 2 else self.flat
        x = self.tail(s, v)
        ok = x is not None and self.seq(s, ('V', tuple(x)), want, self.level)
        rep.ok(rule, self.where, '%s: it receives one new entry per %s, in order, after what it held' % (nm, 'value or group' if self.level == 2 else 'value'), ok, s.tr)

    def tail(self, s, v):
        """what was added after the old contents"""
        v = fold_vec(s, v)
        if not self.old[1] or s.c.is_eq(self.old[1][0][1]):
            return list(v[1])
        if v[1] and v[1][0] == self.old[1][0]:
            return list(v[1][1:])
        return None

    def seq(self, s, got, want, depth):
        """the entries are the conversions of the texts wanted"""
        got, want = fold_vec(s, got), fold_vec(s, want)
        a, b = list(got[1]), list(want[1])
        if len(a) != len(b):
            a, b = [x for x in a if not s.c.is_eq(x[1])], [x for x in b if not s.c.is_eq(x[1])]
        if len(a) != len(b):
            return False
        for (x, n), (y, m) in zip(a, b):
            if not s.c.is_eq(n, m):
                return False
            if n != ONE and height(x) != height(y):
                return False
            if depth == 2:
                if not (is_vec(x) and is_vec(y) and self.seq(s, x, y, 1)):
                    return False
            elif not self.conv(s, x, y, False):
                return False
        return True

    def truth(self, s, v, nm):
        """flag-like: true exactly when present (absent for STORE_FALSE)"""
        c = s.c
        want = EX_ if self.kind == 'BOOLEAN_OPTION' else ONE - EX_
        k = self.P.kind(self.P.strip(self.tdest)) if self.level == 0 else None
        one = c.is_eq(want, ONE)
        zero = c.is_eq(want, ZERO)
        T = self.T
        if T.startswith('verif_client::'):
            self.rep.violation('C25.dest', self.where, '%s: a type without conversion is written' % nm, s.tr)
            return
        if T in ('std::basic_string<char>', 'const char *') or T.startswith('char['):
            ok = (one or zero) and self.conv(s, v, TRUE if one else FALSE, False)
            self.rep.ok('C24.text' if T.startswith('char[') else 'C25.dest', self.where, '%s: it says "true" or "false" as the option does' % nm, ok, s.tr)
            if T.startswith('char['):
                self.rep.ok('C25.dest', self.where, '%s: it says "true" or "false" as the option does' % nm, ok, s.tr)
            return
        if isinstance(v, tuple) and v[0] == 'fl':
            ok = v[1][0] == 'int' and c.is_eq(v[1][1], want)
        else:
            ok = isinstance(v, Lin) and c.is_eq(v, want)
        self.rep.ok('C25.dest', self.where, '%s: it is the truth of the option' % nm, ok, s.tr)

    def conv(self, s, v, text, own):
        """v is the text converted to T"""
        T, c = self.T, s.c
        if T == 'std::basic_string<char>':
            return is_str(v) and same(s, v, text)
        if T == 'const char *':
            if not (isinstance(v, tuple) and v[0] == 'cp' and c.is_eq(v[2]) and same(s, v[1], text)):
                return False
            return self.owned(v[3])
        if T.startswith('char['):
            n = int(T[5:-1])
            if not (isinstance(v, tuple) and v[0] == 'buf'):
                return False
            t, ln = v[3], str_len(v[3])
            if not (c.is_ge(ln - v[4]) and c.is_ge(v[5] - ln - 1) and c.is_ge(Lin(n - 1) - ln)):
                return False
            full = str_len(text)
            if same(s, t, text):
                return True
            if not (c.is_eq(ln, Lin(n - 1)) and c.is_ge(full - ln)):
                return False
            return any(same(x, t, y) for x, y in self.I.substr(s.fork(), text, ZERO, ln, {'l': 'entry', '#': 0}))
        num = ('strtod', snorm(s, text))
        if isinstance(v, tuple) and v[0] == 'fl':
            return v[1] == num
        if isinstance(v, Lin):
            if T == 'bool':
                return c.is_eq(v, lin.atom_lin(('fltrue', num), 0, 1))
            t = atom_term(v)
            return t is not None and t[0] == 'trunc' and t[1] == num
        return False

    def owned(self, owner):
        if owner == ('static',):
            return True
        return owner is not None and root_of(owner) == SELF


def root_of(loc):
    while isinstance(loc, tuple) and loc and loc[0] in ('F', 'I'):
        loc = loc[1]
    return loc


def atom_term(v):
    if len(v.t) == 1 and v.c == 0 and v.t[0][1] == 1:
        return lin.ATOMS[v.t[0][0]]
    return None


def dests(P, rep, types=None):
    for level, tmpl in enumerate(('ArgumentType', 'ArgumentVectorType', 'ArgumentVectorVectorType')):
        xs = insts(P, tmpl)
        rep.count('destination types', len(xs))
        for c, T, f in xs:
            if types and not types(T):
                continue
            for kind in TYPES:
                for custom in (False, True):
                    if level == 0 and kind in LISTS and not custom:
                        continue
                    for empty in ((False, True) if kind in LISTS else (False,)):
                        part(rep, 'destination %s on %s' % (T, kind), lambda r: Dest(P, r, c, T, f, level).run(kind, custom, empty), kind)


def member(P, cls, n, rt=None):
    fs = [f for f in P.funcs.values() if f.get('cls') == cls and f['n'] == n and f.get('body') and (rt is None or f.get('rt') == rt)]
    if len(fs) != 1:
        raise AnalysisError('anchor lost: %s::%s %s (%d found)' % (cls, n, rt or '', len(fs)))
    return fs[0]


STR = 'std::basic_string<char>'
VSTR = 'std::vector<%s>' % STR
VVSTR = 'std::vector<%s>' % VSTR


def joined(v, deep):
    """the text of getString(): values separated by ", ", groups in parentheses"""
    out = []
    for t, n in v[1]:
        body = list(joined_row(t)) if deep else list(t[1])
        sep = [('l', ', ')]
        if n == ONE:
            out += (sep if out else []) + body
            continue
        if not out:
            first = subst_atom(tuple(body), KID[height(tuple(body))], ZERO)
            rest = subst_atom(tuple(body), KID[height(tuple(body))], K[height(tuple(body))] + 1)
            out += list(first)
            out.append(('R', tuple(sep) + tuple(rest), n - 1))
        else:
            out.append(('R', tuple(sep) + tuple(body), n))
    return ('S', tuple(out))


def joined_row(row):
    out = [('l', '(')]
    for j, (t, n) in enumerate(row[1]):
        out += ([('l', ', ')] if j else []) + list(t[1])
    return out + [('l', ')')]


def observers(P, rep, only=None):
    todo = (('C25.bool', 'operator bool', 'bool', obs_bool, TYPES), ('C25.string', 'getString', STR, obs_string, TYPES),
            ('C25.string', 'operator basic_string', STR, obs_string, TYPES),
            ('C31.vector', 'operator vector', VSTR, obs_vector, TYPES), ('C31.rows', 'operator vector', VVSTR, obs_rows, TYPES),
            ('C27.number', 'toNumber_', None, obs_number, TYPES), ('C27.get', 'operator double', None, obs_get, SINGLE))
    for rid, n, rt, fn, kinds in todo:
        if only and not rid.startswith(only):
            continue
        for kind in kinds:
            part(rep, '%s of %s' % (n, kind), lambda r: one_obs(P, r, rid, n, rt, fn, (kind,)), kind)


def part(rep, what, f, kind=None):
    """an independent part of a check; f: report -> None. What cannot be analysed for lists of any length is reported as
    undecided, but looked at once more for lists of one, two and three values."""
    global G, SIZE
    for g in GS if kind in GROUPS else (2,):
        G, SIZE = g, None
        try:
            r = attempt(rep.pid, what, f)
            rep.merge(r)
            if not r.errors:
                rep.partial += 1
                continue
            if kind is None or kind not in LISTS:
                continue
            for SIZE in (1, 2, 3):
                x = attempt(rep.pid, what, f)
                if not x.errors:
                    rep.count('parts analysed for short lists only')
                    rep.merge(x)
        finally:
            G, SIZE = 2, None


def attempt(pid, what, f):
    r = Report(pid)
    try:
        f(r)
    except AnalysisError as x:
        if os.environ.get('VERIF_DEBUG'):
            traceback.print_exc()
        r.error('%s: %s' % (what, x))
    if any('imprecise' in e for e in r.errors):
        r.viol = []
    tags = (pid + '.',)
    r.viol = [v for v in r.viol if v[1][1:].startswith(tags)]
    r.samples = [x for x in r.samples if x[1:].startswith(tags)]
    r.obl, r.done = r.per.get(pid, (0, 0))
    return r


def one_obs(P, rep, rid, n, rt, fn, kinds):
    f = member(P, ARG, n, rt)
    for kind in kinds:
        for empty in ((False, True) if kind in LISTS else (False,)):
            env = ObsEnv(kind)
            I, st, text, flat, rows = setup(P, env, kind, empty)
            o = run_in(I, f, st, ('ptr', SELF), [])
            rep.take(I, rid.split('.')[0] + '.memory')
            rep.count('observer runs')
            w = f.get('defloc', n)
            nm = '%s of %s%s' % (n, kind, ' without values' if empty else '')
            for x in o.exits:
                rep.violation(rid, I.where(x[3]), '%s ends the process' % nm)
            fn(rep, rid, w, nm, kind, I, o, text, flat, rows)


def no_throw(rep, rid, nm, I, o):
    for s, x, node in o.throws:
        rep.violation(rid, I.where(node), '%s throws' % nm, s.tr)


def truth_of(s, kind):
    want = ONE - EX_ if kind == 'REVERSE_BOOLEAN_OPTION' else EX_
    return want


def obs_bool(rep, rid, w, nm, kind, I, o, text, flat, rows):
    no_throw(rep, rid, nm, I, o)
    for s, v in o.returns:
        rep.ok(rid, w, '%s says whether it is %s' % (nm, 'absent' if kind == 'REVERSE_BOOLEAN_OPTION' else 'present'),
               isinstance(v, Lin) and s.c.is_eq(v, truth_of(s, kind)), s.tr)


def obs_string(rep, rid, w, nm, kind, I, o, text, flat, rows):
    if kind in ('HELP_OPTION', 'VERSION_OPTION'):
        return
    flag = kind in FLAGS
    rid = 'C25.string' if flag else 'C31.string'
    no_throw(rep, rid, nm, I, o)
    for s, v in o.returns:
        v = I.val(s, v, None) if not is_str(v) else v
        if flag:
            want = truth_of(s, kind)
            ok = s.c.is_eq(want, ONE) and same(s, v, TRUE) or s.c.is_eq(want, ZERO) and same(s, v, FALSE)
            rep.ok(rid, w, '%s says "true" or "false" as the option does' % nm, ok, s.tr)
        elif kind in SINGLE:
            rep.ok(rid, w, '%s is the value' % nm, same(s, v, text), s.tr)
        else:
            want = joined(rows, True) if kind in GROUPS else joined(flat, False)
            rep.ok(rid, w, '%s joins all values in order' % nm, same(s, v, snorm(s, want)), s.tr)


def refuse(rep, rid, w, nm, P, I, o):
    for s, v in o.returns:
        rep.violation(rid, w, '%s returns instead of throwing' % nm, s.tr)
    for s, x, node in o.throws:
        rep.ok(rid, I.where(node), '%s throws Exception' % nm, x[1] == EXC or P.derives(x[1], EXC), s.tr)


def obs_vector(rep, rid, w, nm, kind, I, o, text, flat, rows):
    if kind in FLAGS:
        return refuse(rep, rid, w, nm, I.p, I, o)
    no_throw(rep, rid, nm, I, o)
    for s, v in o.returns:
        v = I.val(s, v, None) if not is_vec(v) else v
        rep.ok(rid, w, '%s gives every value once, in order' % nm, is_vec(v) and same(s, v, flat), s.tr)


def obs_rows(rep, rid, w, nm, kind, I, o, text, flat, rows):
    if kind not in GROUPS:
        return refuse(rep, rid, w, nm, I.p, I, o)
    no_throw(rep, rid, nm, I, o)
    for s, v in o.returns:
        v = I.val(s, v, None) if not is_vec(v) else v
        rep.ok(rid, w, '%s gives one row per group' % nm, is_vec(v) and same(s, v, rows), s.tr)


def num_of(s, text):
    t = snorm(s, text)
    return lin.atom_lin(('isnum', t, ZERO), 0, 1), ('fl', ('ext', 'isnum', t, ZERO))


def obs_get(rep, rid, w, nm, kind, I, o, text, flat, rows):
    isn = lin.atom_lin(('fld', (SELF[1], F_ISN)), 0, 1)
    for s, v in o.returns:
        rep.ok(rid, w, '%s returns only for a number' % nm, s.c.is_eq(isn, ONE), s.tr)
        rep.ok(rid, w, '%s returns the number' % nm, v == ('fl', ('fld', (SELF[1], F_NUM))), s.tr)
    for s, x, node in o.throws:
        rep.ok(rid, I.where(node), '%s throws Exception, and only if there is no number' % nm,
               s.c.is_eq(isn, ZERO) and (x[1] == EXC or I.p.derives(x[1], EXC)), s.tr)


def leaf_ok(s, rec, text):
    d = dict(rec[2])
    isn, num = num_of(s, text)
    v = d[F_ISN]
    if not (isinstance(v, Lin) and s.c.is_eq(v, isn) and same(s, d[F_TXT], text)):
        return False
    return d[F_NUM] == num or s.c.is_eq(isn, ZERO)


def obs_number(rep, rid, w, nm, kind, I, o, text, flat, rows):
    if kind in FLAGS:
        return
    no_throw(rep, rid, nm, I, o)
    for s, _ in o.returns:
        if kind in SINGLE:
            isn, num = num_of(s, text)
            rep.ok(rid, w, '%s: isNumber() says whether the value starts with a number' % nm, s.c.is_eq(I.load(s, ('F', SELF, F_ISN)), isn), s.tr)
            rep.ok(rid, w, '%s: the number is the one of the text' % nm, s.c.is_eq(isn, ZERO) or I.load(s, ('F', SELF, F_NUM)) == num, s.tr)
            continue
        v = fold_vec(s, s.h[('F', SELF, '#vec')])
        want = rows if kind in GROUPS else flat
        a, b = [x for x in v[1] if not s.c.is_eq(x[1])], [x for x in want[1] if not s.c.is_eq(x[1])]
        ok = len(a) == len(b)
        for (x, n), (y, m) in zip(a, b):
            ok = ok and s.c.is_eq(n, m) and isinstance(x, tuple) and x[0] == 'rec'
            if not ok:
                break
            if kind in GROUPS:
                inner = dict(x[2])['#vec'][1]
                ok = len(inner) == len(y[1]) and all(leaf_ok(s, p, q) for (p, _), (q, _) in zip(inner, y[1]))
            else:
                ok = leaf_ok(s, x, y)
        rep.ok(rid, w, '%s: every element says whether its text starts with a number, and which' % nm, ok, s.tr)


def elements(P, rep):
    """the conversions of one element of a list"""
    isn = lin.atom_lin(('fld', (SELF[1], F_ISN)), 0, 1)

    def start(kind, empty=False):
        env = ObsEnv(kind)
        I, st, text, flat, rows = setup(P, env, kind, empty)
        for k in [k for k in st.h if k[0] == 'F' and k[2].startswith(ARG + '::')]:
            del st.h[k]
        st.h[SELF] = ('obj', EL)
        return env, I, st, text, flat, rows

    def number(r):
        for n in ('getNumber', 'isNumber'):
            f = member(P, EL, n)
            env, I, st, text, flat, rows = start('SIMPLE_OPTION')
            o = run_in(I, f, st, ('ptr', SELF), [])
            r.take(I, 'C27.memory')
            w = f.get('defloc', n)
            if n == 'getNumber':
                obs_get(r, 'C27.get', w, 'getNumber of an element', None, I, o, text, flat, rows)
                continue
            no_throw(r, 'C27.get', 'isNumber', I, o)
            for s, v in o.returns:
                r.ok('C27.get', w, 'isNumber reports the mark', isinstance(v, Lin) and s.c.is_eq(v, isn), s.tr)

    def vector(r):
        f = member(P, EL, 'operator vector', VSTR)
        w = f.get('defloc', 'operator vector')
        for kind, empty in (('INFINITE_OPTION', False), ('INFINITE_OPTION', True), ('MULTI_NUMBER_OPTION', False)):
            env, I, st, text, flat, rows = start(kind, empty)
            o = run_in(I, f, st, ('ptr', SELF), [])
            r.take(I, 'C31.memory')
            nm = 'conversion to vector<string> of an element %s' % ('without values' if empty else 'with groups' if kind in GROUPS else 'with values')
            if empty or kind in GROUPS:
                refuse(r, 'C31.vector', w, nm, P, I, o)
            else:
                no_throw(r, 'C31.vector', nm, I, o)
                for s, v in o.returns:
                    v = I.val(s, v, None) if not is_vec(v) else v
                    r.ok('C31.vector', w, '%s gives every value once, in order' % nm, is_vec(v) and same(s, v, flat), s.tr)

    def text(r):
        f = member(P, EL, 'getString')
        env, I, st, text, flat, rows = start('SIMPLE_OPTION')
        o = run_in(I, f, st, ('ptr', SELF), [])
        no_throw(r, 'C31.string', 'getString of an element', I, o)
        for s, v in o.returns:
            if isinstance(v, tuple) and v[0] == 'ref':
                v = I.load(s, v[1])
            r.ok('C31.string', f.get('defloc', 'getString'), 'getString of an element is its text', same(s, v, text), s.tr)

    if rep.pid == 'C27':
        part(rep, 'numbers of an element', number)
    if rep.pid == 'C31':
        part(rep, 'vector of an element', vector, 'INFINITE_OPTION')
        part(rep, 'text of an element', text)


RULES = {
    'C10.self': 'writing a destination leaves the argument alone', 'C10.value': 'a destination receives the conversion of the value(s), in order, appended to a vector destination',
    'C10.once': 'a custom function is called once with the destination, isExists() and the values, and nothing else is written',
    'C24.memory': 'every access to a character array or string on a path of a destination writer is within bounds',
    'C24.text': 'a char[N] destination holds the longest prefix that fits, NUL-terminated; a const char* destination points into the storage of the argument (or a literal)',
    'C25.bool': 'conversion to bool is presence (absence for STORE_FALSE)', 'C25.string': 'getString() of a boolean option is "true" or "false" accordingly',
    'C25.dest': 'the destination of a boolean option receives the same truth',
    'C27.number': 'toNumber_ marks every value by whether its text starts with a number, and stores that number', 'C27.get': 'getNumber() returns the stored number iff marked, else throws Exception',
    'C31.vector': 'vector<string> delivers every value once, in order, or Exception is thrown', 'C31.rows': 'vector<vector<string>> delivers one row per group, or Exception is thrown',
    'C31.string': 'getString() joins all values in order',
}
COMMON = ['the values of an argument have the shape established by C03 and C30 (single: one text; list: one element per value; group: rows of nargs values, nargs = 2 and 3, thorough: also 4)',
          'argument texts contain no NUL character', 'strtod and stream extraction behave as documented by the C++ standard']
ASSUME = dict((p, COMMON) for p in ('C25', 'C31'))
for _p in ('C10', 'C24', 'C27'):
    ASSUME[_p] = COMMON


def check(pid, rep):
    import c_parse
    P = load()
    if pid in ('C10', 'C24'):
        dests(P, rep, (lambda T: T.startswith('char[') or T == 'const char *') if pid == 'C24' else None)
        rep.need('destination types', 30)
        rep.need('destination returns', 100)
    if pid == 'C25':
        dests(P, rep)
        rep.need('destination types', 30)
    if pid in ('C25', 'C27', 'C31'):
        observers(P, rep, pid if pid != 'C31' else ('C31', 'C25.string'))
        rep.need('observer runs', 20)
    elements(P, rep)
    if pid in ('C10', 'C24', 'C27') and not os.environ.get('VERIF_OBS_ONLY'):
        done = rep.partial
        c_parse.check(pid, rep)
        rep.partial += done
        rep.notes += [a for a in c_parse.ASSUME.get(pid, c_parse.COMMON) if a not in rep.notes]
    for rid, text in RULES.items():
        if rid.startswith(pid + '.'):
            rep.rule(rid, text)
