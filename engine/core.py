"""States, normalisation and the string / sequence algebra."""
from values import *
import values
from prog import AnalysisError


class St(object):
    __slots__ = ('h', 'c', 'tr')

    def __init__(self, h=None, c=None, tr=()):
        self.h = h if h is not None else {}
        self.c = c if c is not None else Cons()
        self.tr = tr

    def fork(self):
        return St(dict(self.h), self.c, self.tr)

    def note(self, s):
        tr = self.tr
        if len(tr) > 60:
            tr = tr[-40:]
        self.tr = tr + (s,)

    # ghosts
    def g(self, name, default=None):
        return self.h.get(('G', name), default)

    def sg(self, name, v):
        self.h[('G', name)] = v


# ------------------------------------------------------------------ normal forms
def vnorm(c, x):
    """normalise x under the equalities of c, keeping runs well formed"""
    if isinstance(x, Lin):
        return c.norm(x)
    if not isinstance(x, tuple) or not x:
        return x
    tag = x[0]
    if tag == 'V':
        segs = []
        for t, n in x[1]:
            s = _segnorm(c, t, n)
            if s is not None:
                segs.append(s)
        return ('V', tuple(segs))
    if tag == 'R' and len(x) == 3:
        s = _segnorm(c, x[1], x[2])
        if s is None:
            return None
        return ('R', s[0], s[1])
    if tag == 'S':
        out = []
        for p in x[1]:
            q = vnorm(c, p)
            if q is None:
                continue
            if q[0] == 'R' and q[2] == ONE:
                out.extend(q[1])
            else:
                out.append(q)
        return ('S', tuple(out))
    ch_ = False
    out = []
    for y in x:
        if isinstance(y, (tuple, Lin)):
            z = vnorm(c, y)
            if z is not y:
                ch_ = True
            out.append(z)
        else:
            out.append(y)
    if tag == 'R':
        raise AnalysisError('bad run')
    return tuple(out) if ch_ else x


def _pieces_norm(c, ps):
    return vnorm(c, ('S', ps))[1]


def _segnorm(c, t, n):
    n2 = c.norm(n)
    if n2 == ZERO:
        return None
    h = height(t) if n != ONE else None
    if t and isinstance(t, tuple) and t and isinstance(t[0], tuple):     # pieces of a string run
        t2 = _pieces_norm(c, t)
    else:
        t2 = vnorm(c, t)
    if n == ONE:
        return (t2, ONE)
    if n2 == ONE:
        return (subst_atom(t2, KID[h], ZERO), ONE)
    h2 = height(t2)
    if h2 != h:
        t2 = subst_atom(t2, KID[h], K[h2])
    return (t2, n2)


def snorm(st, s):
    """normal form of a string value"""
    s = vnorm(st.c, s)
    out = []
    for p in s[1]:
        k = p[0]
        if k == 'l':
            if not p[1]:
                continue
            if out and out[-1][0] == 'l':
                out[-1] = ('l', out[-1][1] + p[1])
                continue
        elif k == 's':
            if st.c.is_ge(-p[3]):
                continue
            if out and out[-1][0] == 's' and out[-1][1] == p[1] and st.c.is_eq(out[-1][2] + out[-1][3], p[2]):
                q = out[-1]
                out[-1] = ('s', p[1], q[2], st.c.norm(q[3] + p[3]))
                continue
        elif k == 'c':
            if p[1].const and 0 < p[1].c < 128:
                p = ('l', chr(p[1].c))
                if out and out[-1][0] == 'l':
                    out[-1] = ('l', out[-1][1] + p[1])
                    continue
        elif k in ('R', 'rep'):
            if st.c.is_ge(-p[2]):
                continue
            if k == 'R':
                emit_run(st, out, p)
                continue
        out.append(p)
        # literal text after a rotated run may continue it: keep literals merged
        if len(out) > 1 and out[-1][0] == 'l' and out[-2][0] == 'l':
            b = out.pop()
            out[-1] = ('l', out[-1][1] + b[1])
    return ('S', tuple(out))


def run_inst(pieces, k):
    """the pieces of a run for index k"""
    a = KID[height(pieces)]
    return [q if q[0] == 'l' else subst_atom(q, a, k) for q in pieces]


def run_shift(p, d, n):
    """iterations d .. d+n-1 of the run p"""
    h = height(p[1])
    return ('R', tuple(q if q[0] == 'l' else subst_atom(q, KID[h], K[h] + d) for q in p[1]), n)


def emit_run(st, out, p):
    """append run p to out in leftmost rotation"""
    tail = []
    ps = list(p[1])
    n = p[2]
    h = height(p[1])
    for _ in range(8):
        if not out:
            break
        prev = out[-1]
        last = ps[-1]
        if prev[0] == 'l' and last[0] == 'l':
            a, b = prev[1], last[1]
            m = 0
            while m < len(a) and m < len(b) and a[-1 - m] == b[-1 - m]:
                m += 1
            if m == 0:
                break
            t = b[len(b) - m:]
            if len(a) == m:
                out.pop()
            else:
                out[-1] = ('l', a[:-m])
            if len(b) == m:
                ps.pop()
            else:
                ps[-1] = ('l', b[:-m])
            ps.insert(0, ('l', t))
            if len(ps) > 1 and ps[1][0] == 'l':
                ps[0:2] = [('l', ps[0][1] + ps[1][1])]
            tail.insert(0, ('l', t))
            if len(ps) == 1:
                break
            continue
        if last[0] == 'l' or prev[0] == 'l':
            break
        if len(ps) == 1:
            break
        before = subst_atom(last, KID[h], Lin(-1))
        if not same(st, ('S', (prev,)), ('S', (before,))):
            break
        out.pop()
        ps.pop()
        ps.insert(0, subst_atom(last, KID[h], K[h] - 1))
        tail.insert(0, vnorm(st.c, subst_atom(last, KID[h], n - 1)))
    out.append(('R', tuple(ps), n))
    for t in tail:
        if t[0] == 'l' and out[-1][0] == 'l':
            out[-1] = ('l', out[-1][1] + t[1])
        else:
            out.append(t)


def fold_vec(st, v):
    """normal form of a sequence: no empty segments, adjacent segments merged"""
    v = vnorm(st.c, v)
    out = []
    for seg in v[1]:
        if seg[1] != ONE and st.c.is_ge(-seg[1]):
            continue
        while out:
            m = try_merge(st, out[-1], seg)
            if m is None:
                break
            out.pop()
            seg = m
        out.append(seg)
    return ('V', tuple(out))


def try_merge(st, a, b, delta=None):
    """one segment equal to a ++ b, or None"""
    (ta, ca), (tb, cb) = a, b
    ha, hb = height(ta), height(tb)
    if ha != hb:
        return None
    tot = ca + cb
    if ca != ONE:
        want = seg_shift(a, ca, cb)
        if same(st, want[0], tb):
            return (ta, st.c.norm(tot))
        return None
    # a single
    if cb != ONE:
        # a == b[-1] ?
        want = subst_atom(tb, KID[hb], Lin(-1))
        if same(st, want, ta):
            return (subst_atom(tb, KID[hb], K[hb] - 1), st.c.norm(tot))
        return None
    # two singles: merge when equal or when the differing numbers differ by 0/1 consistently
    if skel(ta) != skel(tb):
        return None
    la, lb = holes(ta, []), holes(tb, [])
    res = []
    for x, y in zip(la, lb):
        d = st.c.norm(y - x)
        if d == ZERO:
            res.append(x)
        elif d == ONE:
            res.append(x + K[ha])
        else:
            return None
    t = fill(ta, iter(res))
    if height(t) != ha:
        return None
    return (t, Lin(2))


def same(st, x, y):
    """equal under the facts of st (False: not known)"""
    if x == y:
        return True
    if isinstance(x, Lin):
        return isinstance(y, Lin) and st.c.is_eq(x, y)
    if not isinstance(x, tuple) or not isinstance(y, tuple) or not x or not y:
        return False
    if x[0] == 'S' and y[0] == 'S':
        return str_same(st, x, y)
    if x[0] == 'V' and y[0] == 'V':
        return vec_same(st, x, y)
    if x[0] == 'rec' and y[0] == 'rec':
        dx, dy = dict(x[2]), dict(y[2])
        return set(dx) == set(dy) and all(same(st, dx[k], dy[k]) for k in dx)
    if len(x) != len(y):
        return False
    for p, q in zip(x, y):
        if isinstance(p, (tuple, Lin)):
            if not same(st, p, q):
                return False
        elif p != q:
            return False
    return True


def vec_same(st, x, y):
    x, y = fold_vec(st, x), fold_vec(st, y)
    xs, ys = list(x[1]), list(y[1])
    while xs and ys:
        a, b = xs[0], ys[0]
        c = st.c
        if c.is_eq(a[1], b[1]):
            if not seg_same(st, a, b):
                return False
            xs.pop(0)
            ys.pop(0)
        elif c.is_ge(b[1] - a[1]):
            if not seg_same(st, a, seg_shift(b, ZERO, a[1])):
                return False
            xs.pop(0)
            ys[0] = seg_shift(b, a[1], c.norm(b[1] - a[1]))
        elif c.is_ge(a[1] - b[1]):
            if not seg_same(st, seg_shift(a, ZERO, b[1]), b):
                return False
            ys.pop(0)
            xs[0] = seg_shift(a, b[1], c.norm(a[1] - b[1]))
        else:
            return False
    rest = xs or ys
    return all(st.c.is_ge(-s[1]) for s in rest)


def seg_same(st, a, b):
    if a[0] == b[0]:
        return True
    ha, hb = height(a[0]), height(b[0])
    ta, tb = a[0], b[0]
    if ha != hb:
        return False
    return same(st, ta, tb)


def known_char(st, base, k):
    v = st.c.norm(ch(base, k))
    return v.c if v.const else None


def str_same(st, x, y):
    x, y = snorm(st, x), snorm(st, y)
    if x == y:
        return True
    xs, ys = list(x[1]), list(y[1])
    c = st.c
    budget = 24
    while xs and ys:
        a, b = xs[0], ys[0]
        if a == b:
            xs.pop(0)
            ys.pop(0)
            continue
        if a[0] == 'R' or b[0] == 'R':
            if not step_runs(st, xs, ys):
                return False
            budget -= 1
            if budget < 0:
                return False
            continue
        la, lb = piece_len(a), piece_len(b)
        # literal against part of an unknown string
        if a[0] == 'l' and b[0] == 's' or a[0] == 's' and b[0] == 'l':
            if a[0] == 's':
                a, b, xs, ys, la, lb = b, a, ys, xs, lb, la
            if not c.is_ge(lb - 1):
                return False
            kc = known_char(st, b[1], b[2])
            if kc is None or kc != ord(a[1][0]):
                return False
            if len(a[1]) > 1:
                xs[0] = ('l', a[1][1:])
            else:
                xs.pop(0)
            if c.is_eq(lb, ONE):
                ys.pop(0)
            else:
                ys[0] = ('s', b[1], c.norm(b[2] + 1), c.norm(b[3] - 1))
            continue
        if a[0] == 'c' and b[0] == 's' or a[0] == 's' and b[0] == 'c':
            if a[0] == 's':
                a, b, xs, ys, la, lb = b, a, ys, xs, lb, la
            if not c.is_ge(lb - 1) or not c.is_eq(ch(b[1], b[2]), a[1]):
                return False
            xs.pop(0)
            if c.is_eq(lb, ONE):
                ys.pop(0)
            else:
                ys[0] = ('s', b[1], c.norm(b[2] + 1), c.norm(b[3] - 1))
            continue
        if a[0] != b[0]:
            return False
        if a[0] == 'l':
            n = min(len(a[1]), len(b[1]))
            if a[1][:n] != b[1][:n]:
                return False
            if len(a[1]) > n:
                xs[0] = ('l', a[1][n:])
            else:
                xs.pop(0)
            if len(b[1]) > n:
                ys[0] = ('l', b[1][n:])
            else:
                ys.pop(0)
            continue
        if a[0] == 's':
            if not same(st, a[1], b[1]) or not c.is_eq(a[2], b[2]):
                return False
            if c.is_eq(la, lb):
                xs.pop(0)
                ys.pop(0)
            elif c.is_ge(lb - la):
                xs.pop(0)
                ys[0] = ('s', b[1], c.norm(b[2] + la), c.norm(lb - la))
            elif c.is_ge(la - lb):
                ys.pop(0)
                xs[0] = ('s', a[1], c.norm(a[2] + lb), c.norm(la - lb))
            else:
                return False
            continue
        if a[0] == 'R':
            if c.is_eq(a[2], b[2]) and str_same(st, ('S', a[1]), ('S', b[1])):
                xs.pop(0)
                ys.pop(0)
                continue
            return False
        if len(a) == len(b) and all((same(st, p, q) if isinstance(p, (tuple, Lin)) else p == q) for p, q in zip(a, b)):
            xs.pop(0)
            ys.pop(0)
            continue
        return False
    rest = xs or ys
    return all(st.c.is_ge(-piece_len(p)) for p in rest)


def step_runs(st, xs, ys):
    """advance the comparison when one side starts with a run"""
    a, b = xs[0], ys[0]
    c = st.c
    for p, zs in ((a, xs), (b, ys)):
        if p[0] == 'R':
            n = c.norm(p[2])
            if n.const and n.c <= 6:
                zs[0:1] = [q for i in range(max(n.c, 0)) for q in run_inst(p[1], Lin(i))]
                return True
    if a[0] == 'R' and b[0] == 'R' and height(a[1]) == height(b[1]) and str_same(st, ('S', a[1]), ('S', b[1])):
        n, m = a[2], b[2]
        if c.is_eq(n, m):
            xs.pop(0)
            ys.pop(0)
            return True
        if c.is_ge(m - n):
            xs.pop(0)
            ys[0] = run_shift(b, n, c.norm(m - n))
            return True
        if c.is_ge(n - m):
            ys.pop(0)
            xs[0] = run_shift(a, m, c.norm(n - m))
            return True
        return False
    for p, zs in ((a, xs), (b, ys)):
        if p[0] == 'R':
            if not c.is_ge(p[2] - 1):
                return False
            zs[0:1] = run_inst(p[1], ZERO) + [run_shift(p, ONE, c.norm(p[2] - 1))]
            return True
    return False


def vec_len(v):
    n = ZERO
    for t, c in v[1]:
        n = n + c
    return n


def cat_s(*ss):
    out = []
    for s in ss:
        for p in s[1]:
            if p[0] == 'l' and out and out[-1][0] == 'l':
                out[-1] = ('l', out[-1][1] + p[1])
            else:
                out.append(p)
    return ('S', tuple(out))


# ------------------------------------------------------------------ garbage collection of facts
def project(c, live):
    """facts of c about the live atoms only (over-approximation)"""
    eqs = []
    for a, e in c.eq.items():
        eqs.append(Lin(0, ((a, 1),)) - e)
    ges = list(c.ge)
    nes = list(c.ne)

    def dead_in(l):
        return [a for a, _ in l.t if a not in live]
    # eliminate dead atoms through equations
    keep = []
    changed = True
    while changed:
        changed = False
        for i, l in enumerate(eqs):
            d = [(a, k) for a, k in l.t if a not in live and k in (1, -1)]
            if not d:
                continue
            a, k = d[0]
            rhs = (Lin(0, ((a, k),)) - l) * k
            if any(b == a for b, _ in rhs.t):
                continue
            eqs.pop(i)

            def sub(m):
                for b, kk in m.t:
                    if b == a:
                        return m - Lin(0, ((a, kk),)) + rhs * kk
                return m
            eqs = [sub(m) for m in eqs]
            ges = [sub(m) for m in ges]
            nes = [sub(m) for m in nes]
            lo, hi = lin.BOUNDS.get(a, (None, None))
            if lo is not None:
                ges.append(rhs - lo)
            if hi is not None:
                ges.append(Lin(hi) - rhs)
            changed = True
            break
    keep = [l for l in eqs if l.t and not dead_in(l)]
    # Fourier-Motzkin on the inequalities
    cur = lin._clean(set(ges))
    if cur is None:
        return None
    cur = set(cur)
    dead = set()
    for g in cur:
        dead.update(dead_in(g))
    for a in sorted(dead):
        pos, neg, rest = [], [], set()
        for g in cur:
            k = 0
            for b, kk in g.t:
                if b == a:
                    k = kk
            if k > 0:
                pos.append((g, k))
            elif k < 0:
                neg.append((g, -k))
            else:
                rest.add(g)
        if len(pos) * len(neg) <= 60:
            lo, hi = lin.BOUNDS.get(a, (None, None))
            if lo is not None:
                pos.append((Lin(-lo, ((a, 1),)), 1))
            if hi is not None:
                neg.append((Lin(hi, ((a, -1),)), 1))
            for g, k in pos:
                for h, m in neg:
                    r = tighten(g * m + h * k)
                    if r.t:
                        rest.add(r)
                    elif r.c < 0:
                        return None
        cur = lin._clean(rest)
        if cur is None:
            return None
        cur = set(cur)
    out = Cons()
    for l in keep:
        out = out.add_eq(l)
        if out is None:
            return None
    for g in sorted(cur, key=lambda l: (len(l.t), l.t, l.c)):
        if not dead_in(g):
            out = out.add_ge(g)
            if out is None:
                return None
    for n in nes:
        if n.t and not dead_in(n):
            out = out.add_ne(n)
            if out is None:
                return None
    return out
