"""Symbolic integers: polynomials over interned atoms, and a store of linear facts.

Atoms are immutable logical symbols; a fact about an atom never expires.  Entailment is decided
by Fourier-Motzkin elimination over the rationals with integer tightening (sound, incomplete:
"don't know" is always allowed)."""
from math import gcd

ATOMS = []          # id -> tuple
ATOM_ID = {}        # tuple -> id
BOUNDS = {}         # id -> (lo or None, hi or None)
DEEP = set()        # ids whose tuple contains nested Lin/terms
GEN = set()         # ids whose tuple contains any Lin, constant ones too
_fresh = [0]
# hook: given an atom tuple rebuilt by substitution, may return a Lin that replaces it
REWRITE = []


def _any_lin(x):
    if isinstance(x, Lin):
        return True
    if isinstance(x, tuple):
        return any(_any_lin(y) for y in x)
    return False


def _contains_lin(x):
    if isinstance(x, Lin):
        return bool(x.t)
    if isinstance(x, tuple):
        return any(_contains_lin(y) for y in x)
    return False


def atom(tup, lo=None, hi=None):
    i = ATOM_ID.get(tup)
    if i is None:
        i = len(ATOMS)
        ATOMS.append(tup)
        ATOM_ID[tup] = i
        if lo is not None or hi is not None:
            BOUNDS[i] = (lo, hi)
        if tup[0] == 'mul' or any(_contains_lin(y) for y in tup):
            DEEP.add(i)
            GEN.add(i)
        elif any(_any_lin(y) for y in tup):
            GEN.add(i)
    return i


def fresh(name, lo=None, hi=None):
    _fresh[0] += 1
    return Lin(0, ((atom(('b', name, _fresh[0]), lo, hi), 1),))


def sym(name, lo=None, hi=None):
    return Lin(0, ((atom(('b', name, 0), lo, hi), 1),))


def atom_lin(tup, lo=None, hi=None):
    return Lin(0, ((atom(tup, lo, hi), 1),))


class Lin(object):
    __slots__ = ('c', 't', 'h')

    def __init__(self, c, t=()):
        self.c = c
        self.t = t
        self.h = hash((c, t))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.h == o.h and self.c == o.c and self.t == o.t

    def __ne__(self, o):
        return not self == o

    def __lt__(self, o):
        return (self.t, self.c) < (o.t, o.c)

    @property
    def const(self):
        return not self.t

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.c + o, self.t)
        if not o.t:
            return Lin(self.c + o.c, self.t)
        if not self.t:
            return Lin(self.c + o.c, o.t)
        d = dict(self.t)
        for a, k in o.t:
            v = d.get(a, 0) + k
            if v:
                d[a] = v
            else:
                d.pop(a, None)
        return Lin(self.c + o.c, tuple(sorted(d.items())))

    def __neg__(self):
        return Lin(-self.c, tuple((a, -k) for a, k in self.t))

    def __sub__(self, o):
        if isinstance(o, int):
            return Lin(self.c - o, self.t)
        return self + (-o)

    def __mul__(self, o):
        if isinstance(o, int):
            if o == 0:
                return ZERO
            return Lin(self.c * o, tuple((a, k * o) for a, k in self.t))
        if o.const:
            return self * o.c
        if self.const:
            return o * self.c
        r = Lin(self.c * o.c)
        r = r + Lin(0, self.t) * o.c + Lin(0, o.t) * self.c
        for a, k in self.t:
            for b, m in o.t:
                x, y = (a, b) if a <= b else (b, a)
                lo = 0 if (BOUNDS.get(x, (None,))[0] or -1) >= 0 and (BOUNDS.get(y, (None,))[0] or -1) >= 0 else None
                if _nonneg(x) and _nonneg(y):
                    lo = 0
                r = r + Lin(0, ((atom(('mul', x, y), lo, None), k * m),))
        return r

    def __repr__(self):
        if not self.t:
            return str(self.c)
        s = []
        for a, k in self.t:
            n = atom_name(a)
            s.append(n if k == 1 else ('-' + n if k == -1 else '%d*%s' % (k, n)))
        r = '+'.join(s).replace('+-', '-')
        if self.c:
            r += '%+d' % self.c
        return r


def _nonneg(i):
    b = BOUNDS.get(i)
    return b is not None and b[0] is not None and b[0] >= 0


ZERO = Lin(0)
ONE = Lin(1)


def L(x):
    return x if isinstance(x, Lin) else Lin(x)


def atom_name(i):
    t = ATOMS[i]
    if t[0] == 'b':
        return '%s' % t[1] if not t[2] else '%s_%d' % (t[1], t[2])
    if t[0] == 'mul':
        return '(%s*%s)' % (atom_name(t[1]), atom_name(t[2]))
    return show(t)


def show(x):
    if isinstance(x, tuple):
        if x and x[0] == 'lit':
            return repr(x[1])
        if x and isinstance(x[0], str):
            return '%s(%s)' % (x[0], ','.join(show(y) for y in x[1:]))
        return '(' + ','.join(show(y) for y in x) + ')'
    return str(x)


# ---------------------------------------------------------------- substitution
def subst_val(x, f):
    """apply f: Lin -> Lin to every Lin nested in x"""
    if isinstance(x, Lin):
        return f(x)
    if isinstance(x, tuple):
        r = None
        for i, y in enumerate(x):
            if isinstance(y, (tuple, Lin)):
                z = subst_val(y, f)
                if z is not y:
                    if r is None:
                        r = list(x)
                    r[i] = z
        if r is None:
            return x
        if FIXRUN and (x[0] == 'V' and len(x) == 2 or x[0] == 'R' and len(x) == 3):
            return FIXRUN[0](x, tuple(r))
        return tuple(r)
    return x


FIXRUN = []


def rebuild_atom(i, f):
    """Lin for atom i with nested Lins mapped by f"""
    t = ATOMS[i]
    if t[0] == 'mul':
        a = f(Lin(0, ((t[1], 1),)))
        b = f(Lin(0, ((t[2], 1),)))
        return a * b
    u = subst_val(t, f)
    if u is t or u == t:
        return Lin(0, ((i, 1),))
    for rw in REWRITE:
        r = rw(u)
        if r is not None:
            return r
    b = BOUNDS.get(i, (None, None))
    return Lin(0, ((atom(u, *b), 1),))


class Cons(object):
    """eq: atom -> Lin (solved form);  ge: frozenset of Lin (>=0);  ne: frozenset of Lin (!=0)"""
    __slots__ = ('eq', 'ge', 'ne', '_cache', '_ent', '_min')

    def __repr__(self):
        return "; ".join(["%s=%s" % (lin.atom_name(a) if False else atom_name(a), e) for a, e in self.eq.items()] + ["%s>=0" % g for g in self.ge] + ["%s!=0" % g for g in self.ne])

    def __init__(self, eq=None, ge=frozenset(), ne=frozenset()):
        self.eq = eq or {}
        self.ge = ge
        self.ne = ne
        self._cache = {}
        self._ent = {}
        self._min = None

    def norm(self, l):
        if not l.t:
            return l
        r = self._cache.get(l)
        if r is not None:
            return r
        eq = self.eq
        if not eq:
            return l
        for a, k in l.t:
            if a in eq or (a in DEEP and not eq.keys().isdisjoint(inner_atoms(a))):
                break
        else:
            self._cache[l] = l
            return l
        out = Lin(l.c)
        changed = False
        for a, k in l.t:
            e = eq.get(a)
            if e is not None:
                out = out + e * k
                changed = True
            elif a in DEEP:
                z = rebuild_atom(a, self.norm)
                if len(z.t) == 1 and z.c == 0 and z.t[0] == (a, 1):
                    out = out + Lin(0, ((a, k),))
                else:
                    out = out + z * k
                    changed = True
            else:
                out = out + Lin(0, ((a, k),))
        if changed:
            out = self.norm(out)
        else:
            out = l
        self._cache[l] = out
        return out

    def nval(self, x):
        return subst_val(x, self.norm)

    # -------------------------------------------------------------- queries
    def is_ge(self, l):
        """entailed l >= 0 ?"""
        l = self.norm(l)
        if not l.t:
            return l.c >= 0
        r = self._ent.get(l)
        if r is None:
            r = self._is_ge(l)
            self._ent[l] = r
        return r

    def _is_ge(self, l):
        lo = l.c
        for a, k in l.t:
            b = BOUNDS.get(a, (None, None))
            v = b[0] if k > 0 else b[1]
            if v is None:
                lo = None
                break
            lo += k * v
        if lo is not None and lo >= 0:
            return True
        m = self._min
        if m is None:
            m = self._min = {}
            for g in self.ge:
                o = m.get(g.t)
                if o is None or g.c < o:
                    m[g.t] = g.c
        o = m.get(l.t)
        if o is not None and l.c >= o:
            return True
        return infeasible(self.ge, -l - 1)

    def is_eq(self, a, b=ZERO):
        d = self.norm(a - b)
        if not d.t:
            return d.c == 0
        if d in self.ne or -d in self.ne:
            return False
        return self.is_ge(d) and self.is_ge(-d)

    def is_ne(self, a, b=ZERO):
        d = self.norm(a - b)
        if not d.t:
            return d.c != 0
        if d in self.ne or -d in self.ne:
            return True
        return self.is_ge(d - 1) or self.is_ge(-d - 1)

    # -------------------------------------------------------------- updates
    def add_ge(self, l):
        """returns new Cons or None (infeasible)"""
        l = tighten(self.norm(l))
        if not l.t:
            return self if l.c >= 0 else None
        if l in self.ge or self.is_ge(l):
            return self
        if self.is_ge(-l - 1):
            return None
        # equality?
        if self.is_ge(-l):
            return self.add_eq(l)
        if self.ne and (l in self.ne or -l in self.ne):
            return self.add_ge(l - 1)
        ge = {g for g in self.ge if not (g.t == l.t and g.c >= l.c)}
        ge.add(l)
        c = Cons(self.eq, frozenset(ge), self.ne)
        # disequalities that become strict
        ats = {a for a, _ in l.t}
        for d in self.ne:
            if any(a in ats for a, _ in d.t):
                if c.is_ge(d):
                    return Cons(c.eq, c.ge, c.ne - {d}).add_ge(d - 1)
                if c.is_ge(-d):
                    return Cons(c.eq, c.ge, c.ne - {d}).add_ge(-d - 1)
        return c

    def add_eq(self, a, b=ZERO):
        d = self.norm(a - b)
        if not d.t:
            return self if d.c == 0 else None
        if d in self.ne or -d in self.ne:
            return None
        if self.is_ge(d - 1) or self.is_ge(-d - 1):
            return None
        # choose a pivot
        piv = None
        nested = None
        for x, k in sorted(d.t, key=lambda p: -p[0]):
            if k in (1, -1) and ATOMS[x][0] != 'mul':
                if occurs_nested(x, d):
                    continue
                piv = (x, k)
                if x not in DEEP:
                    break
        if piv is None:
            ge = set(self.ge)
            ge.add(tighten(d))
            ge.add(tighten(-d))
            return Cons(self.eq, frozenset(ge), self.ne)
        x, k = piv
        rhs = Lin(d.c, tuple((y, c) for y, c in d.t if y != x)) * (-k)
        lo, hi = BOUNDS.get(x, (None, None))
        one = {x: rhs}
        tmp = Cons(one)
        eq = {}
        for y, e in self.eq.items():
            eq[y] = tmp.norm(e)
        eq[x] = rhs
        c = Cons(eq, frozenset(), frozenset())
        pend = []
        for g in self.ge:
            pend.append(tmp.norm(g))
        if lo is not None:
            pend.append(rhs - lo)
        if hi is not None:
            pend.append(Lin(hi) - rhs)
        nes = set()
        for n in self.ne:
            n2 = tmp.norm(n)
            if not n2.t:
                if n2.c == 0:
                    return None
                continue
            nes.add(n2)
        ge = set()
        for g in pend:
            g = tighten(g)
            if not g.t:
                if g.c < 0:
                    return None
                continue
            ge.add(g)
        ge = reduce_ge(ge)
        if ge is None:
            return None
        c = Cons(eq, frozenset(ge), frozenset(nes))
        for g in ge:
            if infeasible(c.ge, g, extra=False):
                return None
            break
        # equations whose left side is now syntactically reducible (nested atoms)
        for y in list(eq):
            if y in DEEP and y != x:
                z = rebuild_atom(y, c.norm)
                if not (len(z.t) == 1 and z.t[0] == (y, 1) and z.c == 0):
                    c = c.add_eq(z, eq[y])
                    if c is None:
                        return None
        for n in nes:
            if c.is_ge(n) :
                c = c.add_ge(n - 1)
            elif c.is_ge(-n):
                c = c.add_ge(-n - 1)
            if c is None:
                return None
        return c

    def add_ne(self, a, b=ZERO):
        d = self.norm(a - b)
        if not d.t:
            return self if d.c != 0 else None
        if d in self.ne or -d in self.ne:
            return self
        if self.is_ge(d):
            return self.add_ge(d - 1)
        if self.is_ge(-d):
            return self.add_ge(-d - 1)
        return Cons(self.eq, self.ge, self.ne | {d})

    def show(self):
        return '; '.join(['%s=%s' % (atom_name(a), e) for a, e in self.eq.items()] +
                         ['%s>=0' % g for g in self.ge] + ['%s!=0' % n for n in self.ne])


def occurs_nested(x, d):
    """does atom x occur inside another (deep) atom of d?"""
    for y, _ in d.t:
        if y != x and y in DEEP and atom_mentions(y, x):
            return True
    return False


_inner = {}


def inner_atoms(a):
    """atoms mentioned inside the deep atom a"""
    r = _inner.get(a)
    if r is None:
        t = ATOMS[a]
        acc = set()
        if t[0] == 'mul':
            for b in t[1:]:
                acc.add(b)
                if b in DEEP:
                    acc |= inner_atoms(b)
        else:
            atoms_of(t, acc)
        r = _inner[a] = frozenset(acc)
    return r


_mention = {}


def atom_mentions(y, x):
    k = (y, x)
    r = _mention.get(k)
    if r is None:
        r = _ment(ATOMS[y], x)
        _mention[k] = r
    return r


def _ment(t, x):
    if isinstance(t, Lin):
        return any(a == x or (a in DEEP and atom_mentions(a, x)) for a, _ in t.t)
    if isinstance(t, tuple):
        if t and t[0] == 'mul':
            return x in t[1:] or any(a in DEEP and atom_mentions(a, x) for a in t[1:])
        return any(_ment(y, x) for y in t)
    return False


def atoms_of(x, acc=None):
    """all atom ids in a value (deep)"""
    if acc is None:
        acc = set()
    if isinstance(x, Lin):
        for a, _ in x.t:
            if a not in acc:
                acc.add(a)
                if a in DEEP:
                    t = ATOMS[a]
                    if t[0] == 'mul':
                        for b in t[1:]:
                            acc.add(b)
                            if b in DEEP:
                                atoms_of(ATOMS[b], acc)
                    else:
                        atoms_of(t, acc)
    elif isinstance(x, tuple):
        for y in x:
            if isinstance(y, (tuple, Lin)):
                atoms_of(y, acc)
    return acc


def tighten(l):
    if not l.t:
        return l
    g = 0
    for _, k in l.t:
        g = gcd(g, abs(k))
        if g == 1:
            return l
    return Lin(l.c // g, tuple((a, k // g) for a, k in l.t))


def reduce_ge(ge):
    best = {}
    for g in ge:
        o = best.get(g.t)
        if o is None or g.c < o:
            best[g.t] = g.c
    out = set()
    for t, c in best.items():
        out.add(Lin(c, t))
    return out


_comps = {}


def components(ge):
    """atom -> frozenset of the inequalities connected with it"""
    r = _comps.get(ge)
    if r is None:
        grp = {}
        for g in ge:
            mine = None
            for a, _ in g.t:
                o = grp.get(a)
                if o is None or o is mine:
                    continue
                if mine is None:
                    mine = o
                    continue
                if len(o) > len(mine):
                    mine, o = o, mine
                mine.extend(o)
                for h in o:
                    for b, _ in h.t:
                        grp[b] = mine
            if mine is None:
                mine = []
            mine.append(g)
            for a, _ in g.t:
                grp[a] = mine
        done = {}
        r = {}
        for a, m in grp.items():
            f = done.get(id(m))
            if f is None:
                f = done[id(m)] = frozenset(m)
            r[a] = f
        if len(_comps) > 200000:
            _comps.clear()
        _comps[ge] = r
    return r


_inf_cache = {}


def infeasible(ge, extra_l, extra=True):
    """is ge /\\ extra_l >= 0 infeasible over the rationals (with integer tightening)?"""
    cm = components(ge)
    sets = frozenset([cm[a] for a, _ in extra_l.t if a in cm])
    key = (sets, extra_l)
    r = _inf_cache.get(key)
    if r is not None:
        return r
    sys_ = set()
    sys_.add(extra_l)
    for s in sets:
        sys_ |= s
    comp = {a for g in sys_ for a, _ in g.t}
    for a in comp:
        b = BOUNDS.get(a)
        if b is not None:
            lo, hi = b
            if lo is not None:
                sys_.add(Lin(-lo, ((a, 1),)))
            if hi is not None:
                sys_.add(Lin(hi, ((a, -1),)))
    r = _inf_cache[key] = _fm(sys_)
    return r


_fm_cache = {}


def _fm(sys_):
    key = frozenset(sys_)
    r = _fm_cache.get(key)
    if r is None:
        r = _fm_run(set(sys_))
        _fm_cache[key] = r
    return r


def _fm_run(cur):
    cur = _clean(cur)
    if cur is None:
        return True
    while True:
        cnt = {}
        for g in cur:
            for a, k in g.t:
                p = cnt.setdefault(a, [0, 0])
                p[0 if k > 0 else 1] += 1
        if not cnt:
            return False
        # drop unbounded variables first
        best = min(cnt.items(), key=lambda kv: (kv[1][0] * kv[1][1] - kv[1][0] - kv[1][1], kv[0]))
        a, (p, n) = best
        if p * n > 400:
            return False
        pos = []
        neg = []
        keep = set()
        for g in cur:
            k = 0
            for b, kk in g.t:
                if b == a:
                    k = kk
            if k > 0:
                pos.append((g, k))
            elif k < 0:
                neg.append((g, -k))
            else:
                keep.add(g)
        for g, k in pos:
            for h, m in neg:
                r = tighten(g * m + h * k)
                if not r.t:
                    if r.c < 0:
                        return True
                else:
                    keep.add(r)
        cur = _clean(keep)
        if cur is None:
            return True
        if len(cur) > 600:
            return False


def _clean(s):
    best = {}
    for g in s:
        g = tighten(g)
        if not g.t:
            if g.c < 0:
                return None
            continue
        o = best.get(g.t)
        if o is None or g.c < o:
            best[g.t] = g.c
    # contradictions between g and -g
    for t, c in best.items():
        nt = tuple((a, -k) for a, k in t)
        o = best.get(nt)
        if o is not None and c + o < 0:
            return None
    return {Lin(c, t) for t, c in best.items()}
