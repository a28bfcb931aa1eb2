"""Abstract values.

Lin                         integer / bool / enum / char / pointer difference
('S', pieces)               string: concatenation of pieces
    ('l', text)             literal text
    ('s', base, off, len)   part of an unknown NUL-free string `base`
    ('c', code)             one character
    ('rep', code, n)        n times one character
    ('R', pieces, n)        for k in 0..n-1: pieces[k]
('V', segs)                 sequence container; seg = (template, count): for k in 0..count-1: template[k]
('rec', type, ((field, value), ...))
('ptr', loc) ('null',) ('optr', name)  object pointers (optr: null or not, not yet decided)
('cp', S, off, owner)       pointer into the characters of a string value
('it', kind, loc, pos)      iterator
The bound index k of a template is the atom K[h], h the nesting height of the template."""
from lin import *
import lin

K = [sym('\u03ba%d' % i, 0, None) for i in range(8)]
KID = [k.t[0][0] for k in K]
KSET = set(KID)

EMPTY_S = ('S', ())
EMPTY_V = ('V', ())
NULL = ('null',)
UNINIT = ('uninit',)


def lit(s):
    return ('S', (('l', s),)) if s else EMPTY_S


def is_str(v):
    return isinstance(v, tuple) and v[0] == 'S'


def is_vec(v):
    return isinstance(v, tuple) and v[0] == 'V'


_hcache = {}


def height(x):
    """1 + highest index bound by a run inside x"""
    if not isinstance(x, tuple):
        return 0
    r = _hcache.get(x)
    if r is not None:
        return r
    h = 0
    if x and x[0] == 'V':
        for t, c in x[1]:
            ht = height(t)
            h = max(h, ht + 1 if c != ONE else ht)
    elif x and x[0] == 'R' and len(x) == 3:
        h = height(x[1]) + 1
    else:
        for y in x:
            if isinstance(y, tuple):
                hy = height(y)
                if hy > h:
                    h = hy
    _hcache[x] = h
    return h


def subst_atom(x, aid, val):
    """replace atom aid by Lin val everywhere in value x"""
    def f(l):
        if not l.t:
            return l
        out = None
        for a, k in l.t:
            if a == aid:
                z = val
            elif a in lin.DEEP and atom_mentions(a, aid):
                z = rebuild_atom(a, f)
            else:
                continue
            if out is None:
                out = l
            out = out - Lin(0, ((a, k),)) + z * k
        return l if out is None else out
    return subst_val(x, f)


def fix_run(x, y):
    """y: x after a substitution; runs that became single elements lose their index"""
    if x[0] == 'R':
        if y[2] == ONE and x[2] != ONE:
            return ('R', subst_atom(y[1], KID[height(y[1])], ZERO), ONE)
        return y
    if not isinstance(x[1], tuple):
        return y
    out = []
    for a, b in zip(x[1], y[1]):
        if b[1] == ONE and a[1] != ONE:
            b = (subst_atom(b[0], KID[height(b[0])], ZERO), ONE)
        out.append(b)
    return ('V', tuple(out))


lin.FIXRUN.append(fix_run)


def mentions(x, aid):
    return aid in atoms_of(x)


def run(tmpl, count, k=None):
    """segment: for k in 0..count-1: tmpl.  k: the Lin atom currently used as bound index"""
    if count == ONE:
        if k is not None:
            tmpl = subst_atom(tmpl, k.t[0][0], ZERO)
        return (tmpl, ONE)
    h = height(tmpl)
    if k is not None and k != K[h]:
        tmpl = subst_atom(tmpl, k.t[0][0], K[h])
    return (tmpl, count)


def seg_at(seg, i):
    t, c = seg
    if c == ONE:
        return t
    return subst_atom(t, KID[height(t)], i)


def seg_shift(seg, p, c2):
    """elements p .. p+c2-1 of the segment"""
    t, c = seg
    if c == ONE:
        return (t, c2)
    h = height(t)
    if c2 == ONE:
        return (subst_atom(t, KID[h], p), ONE)
    if p == ZERO:
        return (t, c2)
    return (subst_atom(t, KID[h], K[h] + p), c2)


# ------------------------------------------------------------------ generic walks
def holes(x, acc):
    """list the Lins of x in traversal order"""
    if isinstance(x, Lin):
        acc.append(x)
    elif isinstance(x, tuple):
        for y in x:
            if isinstance(y, (tuple, Lin)):
                holes(y, acc)
    return acc


def skel(x):
    if isinstance(x, Lin):
        return None
    if isinstance(x, tuple):
        return tuple(skel(y) if isinstance(y, (tuple, Lin)) else y for y in x)
    return x


def fill(x, it):
    if isinstance(x, Lin):
        return next(it)
    if isinstance(x, tuple):
        return tuple(fill(y, it) if isinstance(y, (tuple, Lin)) else y for y in x)
    return x


# ------------------------------------------------------------------ strings
def piece_len(p):
    k = p[0]
    if k == 'l':
        return Lin(len(p[1]))
    if k == 's':
        return p[3]
    if k == 'c':
        return ONE
    if k == 'rep':
        return p[2]
    if k == 'R':
        n = ZERO
        for q in p[1]:
            n = n + piece_len(q)
        h = height(p[1])
        if not mentions(n, KID[h]):
            return n * p[2]
        return atom_lin(('rlen', p), 0, None)
    if k == 'o':      # opaque text of unknown length (named)
        return atom_lin(('olen', p), 0, None)
    raise ValueError(p)


def str_len(s):
    n = ZERO
    for p in s[1]:
        n = n + piece_len(p)
    return n


def slen(base):
    return atom_lin(('slen', base), 0, (1 << 40))


def whole(base):
    """the string value consisting of the unknown string `base`"""
    return ('S', (('s', base, ZERO, slen(base)),))


def ch(base, k):
    return atom_lin(('ch', base, k), -128, 127)


def show_val(v):
    if isinstance(v, Lin):
        return repr(v)
    if not isinstance(v, tuple) or not v:
        return str(v)
    if v[0] == 'S':
        return '+'.join(show_piece(p) for p in v[1]) or '""'
    if v[0] == 'V':
        return '[' + ', '.join(show_seg(s) for s in v[1]) + ']'
    if v[0] == 'rec':
        return '{' + ', '.join('%s=%s' % (k.split('::')[-1], show_val(x)) for k, x in v[2]) + '}'
    return '%s(%s)' % (v[0], ','.join(show_val(y) if isinstance(y, (tuple, Lin)) else str(y) for y in v[1:]))


def show_base(b):
    if b[0] == 'tok':
        return 'argv[%s]' % b[1]
    return '%s(%s)' % (b[0], ','.join(show_val(y) if isinstance(y, (Lin, tuple)) else str(y) for y in b[1:]))


def show_piece(p):
    if p[0] == 'l':
        return '"%s"' % p[1]
    if p[0] == 's':
        if p[2] == ZERO and p[3] == slen(p[1]):
            return show_base(p[1])
        return '%s[%s..+%s]' % (show_base(p[1]), p[2], p[3])
    if p[0] == 'R':
        return 'rep%s{%s}' % (p[2], '+'.join(show_piece(q) for q in p[1]))
    return show_val(p)


def show_seg(s):
    if s[1] == ONE:
        return show_val(s[0])
    return '%s | k%d<%s' % (show_val(s[0]), height(s[0]), s[1])
