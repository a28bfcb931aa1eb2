"""C26: the built-in validators."""
from base import *
from env import *
from values import *
from core import *

NS = 'blet::args::'
EXC = NS + 'ParseArgumentValidException'
ASSUME = {'C26': ['strtod and stream extraction recognise numbers as documented by the C++ standard',
                  'floating-point comparisons involve no NaN', 'argument texts contain no NUL character']}


class ValidEnv(Env):
    """the list of values is arbitrary; ghost `clean`: the values before it are known to qualify"""

    def __init__(self, cls):
        Env.__init__(self)
        self.cls = cls

    def at(self, q):
        return whole(('fld', ('el', ('args',), q)))

    def loop_head(self, st, node, back):
        self.advance(st)
        return [st]

    def advance(self, st):
        n = st.g('clean')
        for _ in range(3):
            if not self.qual(st, n):
                break
            n = st.c.norm(n + 1)
            st.sg('miss', ZERO)
        st.sg('clean', n)
        if self.cls.endswith('ValidChoise'):
            m = st.g('miss')
            for _ in range(3):
                if not self.missed(st, n, m):
                    break
                m = st.c.norm(m + 1)
            st.sg('miss', m)

    def missed(self, st, q, j):
        base = (('self',), self.cls + '::choises_')
        x = whole(('fld', ('el', base, j)))
        text = self.at(q)
        for t, v in self.facts(st, ('streq',)):
            if v == 0 and (same(st, t[1], text) and same(st, t[2], x) or same(st, t[2], text) and same(st, t[1], x)):
                return True
        return st.c.is_ne(str_len(text), str_len(x))

    def choices(self, base, cn):
        k = fresh('k')
        return ('V', (run(whole(('fld', ('el', base, k))), cn, k),))

    def choice_index(self, st, y, base):
        y = snorm(st, y)
        if len(y[1]) == 1 and y[1][0][0] == 's':
            b = y[1][0][1]
            if b[0] == 'fld' and b[1][0] == 'el' and b[1][1] == base and same(st, y, whole(b)):
                return b[1][2]
        return None

    def enum(self, n):
        for name, e in self.I.p.enums.items():
            if name.startswith(self.cls):
                for v in e['vals']:
                    if v['n'] == n:
                        return Lin(v['v'])
        raise AnalysisError('enumerator %s of %s' % (n, self.cls))

    def fld(self, name):
        return ('fl', ('fld', (('self',), self.cls + '::' + name)))

    def same_text(self, st, x, q):
        return same(st, x, self.at(q))

    def facts(self, st, head):
        """atoms of the given kinds that have a known value"""
        for a, e in st.c.eq.items():
            t = lin.ATOMS[a]
            if t[0] in head and e.const:
                yield t, e.c

    def qual(self, st, q):
        """True: the value q is known to qualify"""
        return self.decide(st, q) is True

    def decide(self, st, q):
        c = st.c
        name = self.cls.split('::')[-1]
        text = self.at(q)
        n = snorm(st, text)
        if name == 'ValidNumber':
            end = lin.atom_lin(('numend', 'strtod', n), 0, None)
            if c.is_ge(end - 1) and c.is_eq(end, str_len(n)):
                return True
            if c.is_eq(end, ZERO) or c.is_ge(str_len(n) - end - 1):
                return False
            return None
        if name == 'ValidMinMax':
            num = ('fl', ('ext', 'isnum', n, ZERO))
            isnum = lin.atom_lin(('isnum', n, ZERO), 0, 1)
            end = lin.atom_lin(('numend', 'strtod', n), 0, None)
            if c.is_eq(isnum, ZERO) or c.is_eq(end, ZERO):
                return False
            res = None
            for num, ok in ((num, c.is_eq(isnum, ONE)), (('fl', ('strtod', n)), c.is_ge(end - 1))):
                lo = lin.atom_lin(('flcmp', '<', num, self.fld('min_')), 0, 1)
                hi = lin.atom_lin(('flcmp', '<', self.fld('max_'), num), 0, 1)
                if c.is_eq(lo, ONE) or c.is_eq(hi, ONE):
                    return False
                if ok and c.is_eq(lo, ZERO) and c.is_eq(hi, ZERO):
                    res = True
            return res
        if name == 'ValidChoise':
            base = (('self',), self.cls + '::choises_')
            cn = lin.atom_lin(('len', base), 0, 1 << 40)
            # equal to one of the choices
            for t, v in self.facts(st, ('streq', 'mem')):
                if t[0] == 'mem':
                    if same(st, t[3], text) and same(st, ('V', ((t[1], t[2]),)), self.choices(base, cn)):
                        return v != 0
                    continue
                for x, y in ((t[1], t[2]), (t[2], t[1])):
                    if v == 1 and same(st, x, text):
                        j = self.choice_index(st, y, base)
                        if j is not None and c.is_ge(j) and c.is_ge(cn - j - 1):
                            return True
            if c.is_eq(q, st.g('clean')) and c.is_ge(st.g('miss') - cn):
                return False
            return None
        if name == 'ValidPath':
            for fn in ('stat',):
                r = lin.atom_lin((fn, n), -1, 0)
                mode = lin.atom_lin(('fld', (('self',), self.cls + '::mode_')), 0, 0xffffffff)
                sm = lin.atom_lin(('stat::st_mode', fn, n), 0, 1 << 32)
                kind = lin.atom_lin(('and', sm, Lin(0o170000)), 0, None)
                if c.is_eq(r, Lin(-1)):
                    return False
                if not c.is_eq(r, ZERO):
                    continue
                dm, fm = self.enum('IS_DIR'), self.enum('IS_FILE')
                if c.is_eq(mode, dm):
                    return True if c.is_eq(kind, Lin(0o040000)) else False if c.is_ne(kind - 0o040000) else None
                if c.is_eq(mode, fm):
                    return True if c.is_eq(kind, Lin(0o100000)) else False if c.is_ne(kind - 0o100000) else None
                if c.is_ne(mode - dm) and c.is_ne(mode - fm):
                    return True
            return None
        raise AnalysisError('validator ' + name)


def check(pid, rep):
    P = load()
    rep.rule('all', 'isValid returns true only when the ghost prefix of qualifying values covers the whole list')
    rep.rule('reject', 'isValid ends otherwise only by throwing %s, and only when a value is known not to qualify' % EXC)
    rep.rule('keep', 'isValid leaves the list as it was')
    rep.rule('bounds', 'the constructor of ValidMinMax orders its bounds')
    rep.rule('memory', 'no out-of-bounds or null access in isValid')
    for cls in ('ValidNumber', 'ValidMinMax', 'ValidChoise', 'ValidPath'):
        one(P, rep, NS + cls)
    ctors(P, rep)
    rep.need('validators', 4)
    rep.need('returns', 4)
    rep.need('throws', 4)


def one(P, rep, cls):
    f = P.one(cls + '::isValid')
    env = ValidEnv(cls)
    I = Engine(P, env)
    st = St()
    this = ('H', ('self',))
    st.h[this] = ('obj', cls)
    a = ('H', ('args',))
    st.h[a] = env.sym_vec(P.strip(f['params'][0]['t']), ('args',), 0)
    st.sg('clean', ZERO)
    st.sg('miss', ZERO)
    v0 = st.h[a]
    n0 = vec_len(v0)
    o = run_in(I, f, st, ('ptr', this), [('ref', a)])
    rep.take(I)
    rep.count('validators')
    name = cls.split('::')[-1]
    for s, v in o.returns:
        rep.count('returns')
        env.advance(s)
        w = f.get('defloc', cls)
        rep.ok('all', w, '%s returns only true' % name, s.c.is_eq(v, ONE), s.tr)
        rep.ok('all', w, '%s has checked every value when it returns' % name, s.c.is_ge(s.g('clean') - n0), s.tr)
        rep.ok('keep', w, '%s leaves the values unchanged' % name, same(s, s.h[a], v0), s.tr)
    for s, x, node in o.throws:
        rep.count('throws')
        env.advance(s)
        w = I.where(node)
        rep.ok('reject', w, '%s throws ParseArgumentValidException' % name, EXC == x[1] or P.derives(x[1], EXC), s.tr)
        q = s.g('clean')
        rep.ok('reject', w, '%s throws only for a value that does not qualify' % name,
               env.decide(s, q) is False and s.c.is_ge(n0 - q - 1), s.tr)
    for x in o.exits:
        rep.violation('reject', I.where(x[3]), '%s must not end the process' % name)


def ctors(P, rep):
    cls = NS + 'ValidMinMax'
    fs = [f for f in P.funcs.values() if f.get('cls') == cls and f['kind'] == 'ctor' and len(f.get('params', ())) == 2 and f.get('body')]
    if not fs:
        raise AnalysisError('constructor of ValidMinMax')
    for f in fs:
        env = ValidEnv(cls)
        I = Engine(P, env)
        st = St()
        this = ('H', ('self',))
        st.h[this] = ('obj', cls)
        lo, hi = ('fl', ('arg', 'a')), ('fl', ('arg', 'b'))
        o = run_in(I, f, st, ('ptr', this), [lo, hi], ctor=True)
        rep.take(I)
        for s, _ in o.returns:
            mn, mx = I.load(s, ('F', this, cls + '::min_')), I.load(s, ('F', this, cls + '::max_'))
            rep.ok('bounds', f.get('defloc', cls), 'the bounds are the two given numbers', {mn, mx} == {lo, hi}, s.tr)
            gt = lin.atom_lin(('flcmp', '<', mx, mn), 0, 1)
            lt = lin.atom_lin(('flcmp', '<', mn, mx), 0, 1)
            rep.ok('bounds', f.get('defloc', cls), 'min_ is not above max_', s.c.is_eq(gt, ZERO) or s.c.is_eq(lt, ONE), s.tr)
