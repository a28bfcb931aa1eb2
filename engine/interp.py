"""Abstract interpreter over the exported, structured, type-checked program."""
import sys
from core import *
import core
from prog import AnalysisError

sys.setrecursionlimit(20000)

OPS = {'==', '!=', '<', '>', '<=', '>='}


def int_range(ty):
    k = ty.get('k')
    if k == 'bool':
        return 0, 1
    if k in ('int', 'enum'):
        n = ty['bits']
        if ty.get('signed'):
            return -(1 << (n - 1)), (1 << (n - 1)) - 1
        return 0, (1 << n) - 1
    return None


class Obl(object):
    __slots__ = ('kind', 'loc', 'msg', 'ok', 'tr', 'exact', 'func')

    def __init__(self, kind, loc, msg, ok, tr, exact, func):
        self.kind, self.loc, self.msg, self.ok, self.tr, self.exact, self.func = kind, loc, msg, ok, tr, exact, func


class Interp(object):
    MAXDEPTH = 40

    def __init__(self, prog, env=None):
        self.p = prog
        self.env = env
        if env is not None:
            env.I = self
        self.exc = []            # thrown: (st, excvalue, node)
        self.exits = []          # process exits
        self.depth = 0
        self.stack = []          # function ids
        self.quiet = 0           # >0: obligations are not recorded
        self.obls = {}
        self.nfresh = 0
        self.stats = {'calls': 0, 'loops': 0, 'funcs': set(), 'states': 0}
        self.plans = {}
        self._live = {}
        self.imprecise = []
        self.steps = 0
        self.max_steps = 4000000
        self.loop_memo = {}

    # ------------------------------------------------------------ helpers
    def fn(self):
        return self.stack[-1] if self.stack else None

    def fresh_id(self, n):
        self.nfresh += 1
        return '%s~%d' % (n, self.nfresh)

    def where(self, node):
        l = node.get('l', '?') if isinstance(node, dict) else '?'
        return l

    def oblige(self, st, kind, ok, node, msg):
        """record an obligation; returns st (the analysis continues as if it held)"""
        if self.quiet:
            return
        f = self.p.funcs.get(self.fn(), {}).get('qn', '?') if self.fn() else '?'
        key = (kind, self.where(node), msg)
        o = self.obls.get(key)
        if o is None or (o.ok and not ok):
            self.obls[key] = Obl(kind, self.where(node), msg, ok, st.tr if not ok else (), True, f)

    def top(self, st, why, node=None):
        key = (why, self.where(node) if node else '?')
        if not self.quiet and key not in self.imprecise:
            self.imprecise.append(key)
        return ('top', why)

    def err(self, msg, node=None):
        raise AnalysisError('%s at %s' % (msg, self.where(node) if node else '?'))

    # ------------------------------------------------------------ facts
    def assume(self, st, op, a, b):
        """add a op b (Lins) to st; False when impossible"""
        d = a - b
        if op == '==':
            c = st.c.add_eq(d)
        elif op == '!=':
            c = st.c.add_ne(d)
        elif op == '>=':
            c = st.c.add_ge(d)
        elif op == '>':
            c = st.c.add_ge(d - 1)
        elif op == '<=':
            c = st.c.add_ge(-d)
        elif op == '<':
            c = st.c.add_ge(-d - 1)
        if c is None:
            return False
        if c is st.c:
            return True
        st.c = c
        return self.propagate(st, d)

    def propagate(self, st, d):
        seen = set()
        for a in atoms_of(d):
            if a in seen:
                continue
            seen.add(a)
            t = lin.ATOMS[a]
            if t[0] == 'ch':
                if not self.char_fact(st, a, t):
                    return False
            elif t[0] == 'b' and self.env is not None:
                if not self.env.on_atom(st, a, t):
                    return False
        return True

    def char_fact(self, st, a, t):
        base, k = t[1], t[2]
        v = st.c.norm(Lin(0, ((a, 1),)))
        sl = slen(base)
        if v.const and v.c == 0:
            if st.c.is_ge(sl - k):
                c = st.c.add_eq(sl - k)
                if c is None:
                    return False
                st.c = c
        elif (v.const and v.c != 0) or st.c.is_ne(v):
            c = st.c.add_ge(sl - k - 1)
            if c is None:
                return False
            st.c = c
        if self.env is not None:
            return self.env.on_char(st, base)
        return True

    def fork_cmp(self, st, op, a, b):
        """-> (state where a op b or None, state where not or None)"""
        d = st.c.norm(a - b)
        NEG = {'==': '!=', '!=': '==', '<': '>=', '>=': '<', '>': '<=', '<=': '>'}
        if d.const:
            v = d.c
            r = {'==': v == 0, '!=': v != 0, '<': v < 0, '<=': v <= 0, '>': v > 0, '>=': v >= 0}[op]
            return (st, None) if r else (None, st)
        s2 = st.fork()
        t = st if self.assume(st, op, a, b) else None
        f = s2 if self.assume(s2, NEG[op], a, b) else None
        return t, f

    def bool_vals(self, t, f):
        out = []
        if t is not None:
            out.append((t, ONE))
        if f is not None:
            out.append((f, ZERO))
        return out

    # ------------------------------------------------------------ memory
    def is_rec_type(self, t):
        return self.p.is_blet_rec(t) or (self.p.ty(self.p.strip(t)).get('lambda', False))

    def load(self, st, loc, node=None):
        """value stored at loc"""
        h = st.h
        v = h.get(loc)
        if v is not None:
            if v[0] == 'obj' if isinstance(v, tuple) else False:
                return self.load_rec(st, loc, v[1])
            if isinstance(v, tuple) and v[0] == 'lazy':
                v = self.env.resolve_lazy(st, loc, v)
                h[loc] = v
            return v
        k = loc[0]
        if k == 'F':
            base = loc[1]
            if base[0] in ('I', 'F', 'IT') :
                r = self.load(st, base, node)
                if isinstance(r, tuple) and r[0] == 'rec':
                    for kk, vv in r[2]:
                        if kk == loc[2]:
                            return vv
                if isinstance(r, tuple) and r[0] == 'top':
                    return r
            if self.env is not None:
                v = self.env.missing(st, loc)
                if v is not None:
                    if loc[1][0] == 'H':
                        h[loc] = v
                    return v
        elif k == 'I':
            vec = self.load(st, loc[1], node)
            if isinstance(vec, tuple) and vec[0] == 'V':
                r = self.locate(st, vec, loc[2])
                if r is None:
                    return self.top(st, 'ambiguous element', node)
                j, rel = r
                return vnorm(st.c, seg_at(vec[1][j], rel))
            if isinstance(vec, tuple) and vec[0] == 'S':
                return self.top(st, 'string element', node)
            if isinstance(vec, tuple) and vec[0] == 'top':
                return vec
        elif k == 'STR':
            return lit(loc[1])
        elif self.env is not None:
            v = self.env.missing(st, loc)
            if v is not None:
                if v[0] == 'obj':
                    return self.load_rec(st, loc, v[1])
                h[loc] = v
                return v
        if k == 'v':
            return UNINIT
        return self.top(st, 'unknown location %s' % (loc,), node)

    def load_rec(self, st, loc, tname):
        fs = []
        for key, t in (self.p.fields(tname) if tname != '#pair' else (('first', None), ('second', None))):
            fl = ('F', loc, key)
            v = st.h.get(fl)
            if isinstance(v, tuple) and v[0] == 'obj':
                v = self.load_rec(st, fl, v[1])
            elif v is None or v[0] == 'lazy' if isinstance(v, tuple) or v is None else False:
                v = self.load(st, fl)
            fs.append((key, v))
        return ('rec', tname, tuple(fs))

    def store(self, st, loc, v, node=None):
        h = st.h
        k = loc[0]
        if isinstance(v, tuple) and v[0] == 'rec' and not self.inner(loc):
            h[loc] = ('obj', v[1])
            for key, x in v[2]:
                self.store(st, ('F', loc, key), x, node)
            return
        if self.env is not None:
            self.env.on_write(st, loc, v, node)
        if k == 'I':
            vec = self.load(st, loc[1], node)
            if isinstance(vec, tuple) and vec[0] == 'V':
                r = self.locate(st, vec, loc[2])
                if r is None:
                    self.store(st, loc[1], self.top(st, 'ambiguous element write', node), node)
                    return
                j, rel = r
                seg = vec[1][j]
                n = seg[1]
                new = list(vec[1][:j])
                if not st.c.is_eq(rel):
                    new.append(seg_shift(seg, ZERO, st.c.norm(rel)))
                new.append((v, ONE))
                rest = st.c.norm(n - rel - 1)
                if rest != ZERO:
                    new.append(seg_shift(seg, st.c.norm(rel + 1), rest))
                new += list(vec[1][j + 1:])
                self.store(st, loc[1], fold_vec(st, ('V', tuple(new))), node)
                return
            if isinstance(vec, tuple) and vec[0] == 'S':
                s = self.str_set(st, vec, loc[2], v)
                self.store(st, loc[1], s, node)
                return
            if isinstance(vec, tuple) and vec[0] == 'top':
                return
            self.err('element write to %s' % (vec,), node)
        if k == 'F' and self.inner(loc[1]):
            r = self.load(st, loc[1], node)
            if isinstance(r, tuple) and r[0] == 'rec':
                fs = tuple((kk, v if kk == loc[2] else vv) for kk, vv in r[2])
                self.store(st, loc[1], ('rec', r[1], fs), node)
                return
            if isinstance(r, tuple) and r[0] == 'top':
                return
            self.err('field write to %s' % (r,), node)
        h[loc] = v

    def inner(self, loc):
        while loc[0] == 'F':
            loc = loc[1]
        return loc[0] == 'I'

    def locate(self, st, vec, idx):
        """(segment number, relative index) of element idx when determined"""
        acc = ZERO
        c = st.c
        for j, (t, n) in enumerate(vec[1]):
            rel = idx - acc
            if n == ONE:
                if c.is_eq(rel):
                    return j, ZERO
                if c.is_ge(rel - 1):
                    acc = acc + n
                    continue
                if c.is_ne(rel):
                    acc = acc + n
                    continue
                return None
            if c.is_ge(rel) and c.is_ge(n - rel - 1):
                return j, c.norm(rel)
            if c.is_ge(rel - n):
                acc = acc + n
                continue
            return None
        return None

    def elem_locs(self, st, vloc, idx, node, what='element access', check=True):
        """fork until the element is determined; obligation idx < size"""
        vec = self.load(st, vloc, node)
        if isinstance(vec, tuple) and vec[0] == 'V':
            vec = fold_vec(st, vec)
            self.rawset(st, vloc, vec)
            n = vec_len(vec)
            idx = st.c.norm(idx)
            ok = st.c.is_ge(idx) and st.c.is_ge(n - idx - 1)
            self.oblige(st, 'mem', ok, node, '%s within bounds' % what)
            if not ok:
                if not (self.assume(st, '>=', idx, ZERO) and self.assume(st, '<', idx, n)):
                    return []
            out = []
            acc = ZERO
            cur = st
            for j, (t, cnt) in enumerate(vec[1]):
                if cur is None:
                    break
                prev = acc
                acc = acc + cnt
                a, b = self.fork_cmp(cur, '<', idx, acc)
                if a is not None:
                    if isinstance(t, tuple) and t[0] == 'slot':       # a list node with an identity of its own
                        out.append((a, ('H', vnorm(a.c, seg_at((t, cnt), a.c.norm(idx - prev))))))
                    else:
                        out.append((a, ('I', vloc, a.c.norm(idx))))
                cur = b
            return out
        if isinstance(vec, tuple) and vec[0] == 'top':
            return [(st, ('I', vloc, idx))]
        self.err('element of %s' % (vec,), node)

    def rawset(self, st, loc, v):
        if self.inner(loc) or loc[0] == 'I':
            return
        st.h[loc] = v

    # ------------------------------------------------------------ strings
    def as_str(self, st, v, node):
        """string value of a C string pointer / string value -> [(st, S)]"""
        if is_str(v):
            return [(st, v)]
        if isinstance(v, tuple) and v[0] == 'cp':
            return self.substr(st, v[1], v[2], None, node)
        if isinstance(v, tuple) and v[0] == 'ref':
            return self.as_str(st, self.load(st, v[1], node), node)
        if isinstance(v, tuple) and v[0] == 'rec' :
            for k, x in v[2]:
                if k == '#str':
                    return [(st, x)]
        if v == NULL:
            self.oblige(st, 'mem', False, node, 'C string pointer is not null')
            return []
        if isinstance(v, tuple) and v[0] in ('top', 'uninit'):
            return [(st, ('S', (('o', 'unknown', self.fresh_id('?')),)))]
        self.err('not a string: %s' % (v,), node)

    def split(self, st, s, pos, node=None):
        """[(st, left, right)] cutting the string at pos (0 <= pos <= len assumed known)"""
        s = snorm(st, s)
        out = []
        acc = ZERO
        left = []
        ps = list(s[1])
        cur = st
        pos = st.c.norm(pos)
        i = 0
        if pos == ZERO:
            return [(st, EMPTY_S, s)]
        while True:
            if i == len(ps):
                out.append((cur, ('S', tuple(left)), EMPTY_S))
                break
            p = ps[i]
            n = piece_len(p)
            # cut inside or at the end of this piece?
            a, b = self.fork_cmp(cur, '<', pos, acc + n)
            if a is not None:
                rel = a.c.norm(pos - acc)
                if rel == ZERO:
                    out.append((a, ('S', tuple(left)), ('S', tuple(ps[i:]))))
                else:
                    r = self.cut_piece(a, p, rel)
                    if r is None:
                        w = ('o', 'part', self.fresh_id('?'))
                        out.append((a, ('S', tuple(left) + (w,)), ('S', (('o', 'part', self.fresh_id('?')),))))
                    else:
                        out.append((a, ('S', tuple(left + r[0])), ('S', tuple(r[1] + ps[i + 1:]))))
            if b is None:
                break
            cur = b
            acc = acc + n
            left.append(p)
            i += 1
        return out

    def cut_piece(self, st, p, rel):
        k = p[0]
        if k == 'l':
            if not rel.const:
                return None
            return [('l', p[1][:rel.c])], [('l', p[1][rel.c:])]
        if k == 's':
            return [('s', p[1], p[2], rel)], [('s', p[1], st.c.norm(p[2] + rel), st.c.norm(p[3] - rel))]
        if k == 'rep':
            return [('rep', p[1], rel)], [('rep', p[1], st.c.norm(p[2] - rel))]
        if k == 'c':
            return [], [p]
        return None

    def substr(self, st, s, pos, n, node=None, throwing=False):
        """[(st, S)]: s[pos, pos+n) (n None: to the end; n is clamped)"""
        ln = str_len(s)
        ok = st.c.is_ge(pos) and st.c.is_ge(ln - pos)
        self.oblige(st, 'mem', ok, node, 'string position within bounds')
        if not ok:
            if not (self.assume(st, '>=', pos, ZERO) and self.assume(st, '<=', pos, ln)):
                return []
        out = []
        for s1, l, r in self.split(st, s, pos, node):
            if n is None:
                out.append((s1, snorm(s1, r)))
                continue
            rl = str_len(r)
            a, b = self.fork_cmp(s1, '<', n, rl)
            if b is not None:
                out.append((b, snorm(b, r)))
            if a is not None:
                for s2, l2, r2 in self.split(a, r, n, node):
                    out.append((s2, snorm(s2, l2)))
        return out

    def read_char(self, st, s, k, node, limit=True):
        """[(st, code)] character k of the string value s (NUL at its end)"""
        s = snorm(st, s)
        ln = str_len(s)
        if limit:
            # a lone unknown string: reading up to its NUL is fine, the NUL decides its length
            ok = st.c.is_ge(k) and st.c.is_ge(ln - k)
            self.oblige(st, 'mem', ok, node, 'character read within the string')
            if not ok:
                if not (self.assume(st, '>=', k, ZERO) and self.assume(st, '<=', k, ln)):
                    return []
        if not s[1]:
            return [(st, ZERO)]
        if len(s[1]) == 1 and s[1][0][0] == 's':
            p = s[1][0]
            if st.c.is_eq(p[2] + p[3], slen(p[1])):
                out = []
                for st2 in (self.env.char_access(st, p[1]) if self.env else [st]):
                    a = ch(p[1], st2.c.norm(p[2] + k))
                    if st2.c.is_ge(ln - k - 1):
                        c = st2.c.add_ne(a)
                        if c is None:
                            continue
                        st2.c = c
                    elif st2.c.is_ge(k - ln):
                        c = st2.c.add_eq(a)
                        if c is None:
                            continue
                        st2.c = c
                    out.append((st2, a))
                return out
        out = []
        acc = ZERO
        cur = st
        for p in s[1]:
            n = piece_len(p)
            a, b = self.fork_cmp(cur, '<', k, acc + n)
            if a is not None:
                out += self.piece_char(a, p, a.c.norm(k - acc), node)
            cur = b
            if cur is None:
                break
            acc = acc + n
        if cur is not None:
            out.append((cur, ZERO))
        return out

    def piece_char(self, st, p, rel, node):
        if p[0] == 'l':
            if rel.const:
                return [(st, Lin(ord(p[1][rel.c])))]
            return [(st, fresh('litch', 1, 255))]
        if p[0] == 's':
            out = []
            for st2 in (self.env.char_access(st, p[1]) if self.env else [st]):
                a = ch(p[1], st2.c.norm(p[2] + rel))
                c = st2.c.add_ne(a)
                if c is None:
                    continue
                st2.c = c
                if self.char_fact(st2, a.t[0][0], lin.ATOMS[a.t[0][0]]):
                    out.append((st2, a))
            return out
        if p[0] in ('c', 'rep'):
            return [(st, p[1])]
        x = fresh('anych', -128, 127)
        c = st.c.add_ne(x)
        st.c = c
        return [(st, x)]

    def str_set(self, st, s, idx, v):
        """s with character idx replaced (idx determined to lie inside)"""
        s = snorm(st, s)
        acc = ZERO
        out = []
        done = False
        for p in s[1]:
            n = piece_len(p)
            if not done and st.c.is_ge(idx - acc) and st.c.is_ge(acc + n - idx - 1):
                r = self.cut_piece(st, p, st.c.norm(idx - acc)) if not st.c.is_eq(idx - acc) else ([], [p])
                if r is None:
                    return ('S', (('o', 'edited', self.fresh_id('?')),))
                l, rr = r
                q = rr[0]
                r2 = self.cut_piece(st, q, ONE) if piece_len(q) != ONE else ([q], [])
                if r2 is None:
                    return ('S', (('o', 'edited', self.fresh_id('?')),))
                out += l + [('c', v)] + r2[1]
                done = True
            else:
                out.append(p)
            acc = acc + n
        if not done:
            return ('S', (('o', 'edited', self.fresh_id('?')),))
        return snorm(st, ('S', tuple(out)))

    def str_eq(self, st, a, b, node=None):
        """fork on equality of two string values -> (st_eq, st_ne) lists"""
        a, b = snorm(st, a), snorm(st, b)
        if str_same(st, a, b):
            return [st], []
        if self.env is not None:
            r = self.env.str_rel(st, a, b)
            if r is not None:
                return [s for s, x in r if x == '='], [s for s, x in r if x != '=']
        la, lb = str_len(a), str_len(b)
        if st.c.is_ne(la, lb):
            return [], [st]
        # literal against unknown text: decide character by character
        for x, y in ((a, b), (b, a)):
            if all(p[0] == 'l' for p in x[1]):
                text = ''.join(p[1] for p in x[1])
                return self.str_eq_lit(st, y, text, node)
        s2 = st.fork()
        eqs, nes = [], [s2]
        if self.assume(st, '==', la, lb):
            eqs = [st]
        # remember the equality of two plain unknown strings through their identity
        if len(a[1]) == 1 and len(b[1]) == 1 and a[1][0][0] == 's' and b[1][0][0] == 's':
            t = atom_lin(('streq',) + tuple(sorted([a, b], key=repr)), 0, 1)
            if eqs and not self.assume(st, '==', t, ONE):
                eqs = []
            if not self.assume(s2, '==', t, ZERO):
                nes = []
        return eqs, nes

    def str_eq_lit(self, st, y, text, node):
        if self.env is not None and len(y[1]) == 1 and y[1][0][0] == 's':
            # what is known about the string's characters also decides its length
            parts = self.env.char_access(st, y[1][0][1])
            if len(parts) != 1 or parts[0] is not st:
                eqs, nes = [], []
                for s in parts:
                    a, b = self.str_eq_lit1(s, snorm(s, y), text, node)
                    eqs += a
                    nes += b
                return eqs, nes
        return self.str_eq_lit1(st, y, text, node)

    def str_eq_lit1(self, st, y, text, node):
        eqs, nes = [], []
        cur = [st]
        # lengths
        a, b = self.fork_cmp(st, '==', str_len(y), Lin(len(text)))
        if b is not None:
            nes.append(b)
        cur = [a] if a is not None else []
        for i, chh in enumerate(text):
            nxt = []
            for s in cur:
                for s1, c in self.read_char(s, y, Lin(i), node, limit=False):
                    t, f = self.fork_cmp(s1, '==', c, Lin(ord(chh)))
                    if t is not None:
                        nxt.append(t)
                    if f is not None:
                        nes.append(f)
            cur = nxt
        eqs = cur
        return eqs, nes

    # ------------------------------------------------------------ integer conversions
    def convert_int(self, st, v, t, node=None):
        ty = self.p.ty(t)
        r = int_range(ty)
        if not isinstance(v, Lin):
            if isinstance(v, tuple) and v[0] in ('top', 'uninit', 'fl'):
                return [(st, fresh('conv', *(r or (None, None))))]
            self.err('integer conversion of %s' % (v,), node)
        if r is None:
            return [(st, v)]
        lo, hi = r
        if ty.get('k') == 'bool':
            a, b = self.fork_cmp(st, '!=', v, ZERO)
            return self.bool_vals(a, b)
        c = st.c
        if c.is_ge(v - lo) and c.is_ge(Lin(hi) - v):
            return [(st, v)]
        out = []
        span = hi - lo + 1
        a, below = self.fork_cmp(st, '>=', v, Lin(lo))
        if below is not None:
            if below.c.is_ge(v + span - lo):
                out.append((below, v + span))
            else:
                out.append((below, fresh('wrap', lo, hi)))
        if a is not None:
            b, above = self.fork_cmp(a, '<=', v, Lin(hi))
            if b is not None:
                out.append((b, v))
            if above is not None:
                if above.c.is_ge(Lin(hi + span) - v):
                    out.append((above, v - span))
                else:
                    out.append((above, fresh('wrap', lo, hi)))
        return out

    def no_overflow(self, st, a, d, t):
        """a 64-bit counter does not wrap by counting upwards"""
        r = int_range(self.p.ty(self.p.strip(t)))
        if r and r[1] >= (1 << 63) - 1 and isinstance(a, Lin) and isinstance(d, Lin) and d.const and 0 < d.c < 16:
            c = st.c.add_ge(Lin(r[1]) - a - d)
            if c is not None:
                st.c = c

    def arith(self, st, op, a, b, t, node):
        if not isinstance(a, Lin) or not isinstance(b, Lin):
            return self.arith_other(st, op, a, b, t, node)
        ty = self.p.ty(t)
        if op == '+':
            r = a + b
        elif op == '-':
            r = a - b
        elif op == '*':
            r = a * b
        elif op in ('/', '%'):
            return self.divmod(st, op, a, b, t, node)
        elif op in ('<<', '>>', '&', '|', '^'):
            a, b = st.c.norm(a), st.c.norm(b)
            if a.const and b.const:
                v = {'<<': lambda: a.c << b.c, '>>': lambda: a.c >> b.c, '&': lambda: a.c & b.c, '|': lambda: a.c | b.c, '^': lambda: a.c ^ b.c}[op]()
                return self.convert_int(st, Lin(v), t, node)
            if op == '&' and ty.get('k') in ('int', 'enum'):
                return [(st, atom_lin(('and', a, b), *(int_range(ty))))]
            rr = int_range(ty)
            return [(st, fresh('bit', *(rr or (None, None))))]
        else:
            self.err('operator ' + op, node)
        r = st.c.norm(r)
        rg = int_range(ty)
        if rg is None:
            return [(st, r)]
        lo, hi = rg
        if st.c.is_ge(r - lo) and st.c.is_ge(Lin(hi) - r):
            return [(st, r)]
        if ty.get('signed'):
            self.oblige(st, 'ovf', False, node, 'no signed overflow in %s' % op)
            return [(st, r)]
        return self.convert_int(st, r, t, node)

    def divmod(self, st, op, a, b, t, node):
        a, b = st.c.norm(a), st.c.norm(b)
        z, nz = self.fork_cmp(st, '==', b, ZERO)
        out = []
        if z is not None:
            self.oblige(z, 'mem', False, node, 'no division by zero')
        if nz is not None:
            st = nz
            if a.const and b.const and a.c >= 0 and b.c > 0:
                return [(st, Lin(a.c // b.c if op == '/' else a.c % b.c))]
            if st.c.is_ge(a) and st.c.is_ge(b - 1):
                q = atom_lin(('div', a, b), 0, None)
                r = atom_lin(('mod', a, b), 0, None)
                c = st.c.add_eq(a - q * b - r)
                if c is None:
                    return []
                c = c.add_ge(b - r - 1)
                if c is None:
                    return []
                c = c.add_ge(a - q)
                if c is None:
                    return []
                st.c = c
                out.append((st, q if op == '/' else r))
            else:
                rg = int_range(self.p.ty(t))
                out.append((st, fresh('div', *(rg or (None, None)))))
        return out

    def arith_other(self, st, op, a, b, t, node):
        for x, y, sgn in ((a, b, 1), (b, a, 1)):
            if isinstance(x, tuple) and isinstance(y, Lin):
                if x[0] == 'cp' and op in '+-':
                    off = x[2] + (y if op == '+' else -y)
                    off = st.c.norm(off)
                    ok = st.c.is_ge(off) and st.c.is_ge(str_len(x[1]) - off)
                    self.oblige(st, 'mem', ok, node, 'character pointer stays inside its string')
                    if not ok:
                        if not (self.assume(st, '>=', off, ZERO) and self.assume(st, '<=', off, str_len(x[1]))):
                            return []
                    return [(st, ('cp', x[1], off, x[3]))]
                if x[0] == 'argv' and op in '+-':
                    return [(st, ('argv', st.c.norm(x[1] + (y if op == '+' else -y))))]
                if x[0] == 'ap' and op in '+-':
                    return [(st, ('ap', x[1], st.c.norm(x[2] + (y if op == '+' else -y))))]
                if x[0] == 'it' and op in '+-':
                    return [(st, ('it', x[1], x[2], st.c.norm(x[3] + (y if op == '+' else -y))))]
        if isinstance(a, tuple) and isinstance(b, tuple):
            if a[0] == 'cp' and b[0] == 'cp' and op == '-':
                return [(st, st.c.norm(a[2] - b[2]))]
            if a[0] == 'argv' and b[0] == 'argv' and op == '-':
                return [(st, st.c.norm(a[1] - b[1]))]
            if a[0] == 'it' and b[0] == 'it' and op == '-' and isinstance(a[3], Lin) and isinstance(b[3], Lin):
                return [(st, st.c.norm(a[3] - b[3]))]
        if self.p.kind(t) == 'float':
            return [(st, ('fl', ('op', op, a, b)))]
        rg = int_range(self.p.ty(t))
        return [(st, fresh('arith', *(rg or (None, None))))]

    # ------------------------------------------------------------ truth of conditions
    def truth(self, st, v, node):
        """[(st, bool)]"""
        if isinstance(v, Lin):
            a, b = self.fork_cmp(st, '!=', v, ZERO)
            return ([(a, True)] if a is not None else []) + ([(b, False)] if b is not None else [])
        if isinstance(v, tuple):
            if v == NULL:
                return [(st, False)]
            if v[0] in ('ptr', 'cp', 'argv', 'fn', 'ap'):
                return [(st, True)]
            if v[0] in ('optr', 'ofn'):
                return [(s, r != NULL) for s, r in self.resolve_ptr(st, v)]
            if v[0] == 'stream':
                return [(st, True), (st.fork(), False)]
            if v[0] == 'nb':          # outcome of a numeric extraction
                a, b = self.fork_cmp(st, '==', v[1], ONE)
                return ([(a, True)] if a is not None else []) + ([(b, False)] if b is not None else [])
        if isinstance(v, tuple) and v[0] == 'fl':
            t = atom_lin(('fltrue', v[1]), 0, 1)
            a, b = self.fork_cmp(st, '!=', t, ZERO)
            return ([(a, True)] if a is not None else []) + ([(b, False)] if b is not None else [])
        s2 = st.fork()
        return [(st, True), (s2, False)]

    def resolve_ptr(self, st, v):
        """decide whether an opaque pointer is null"""
        key = ('NUL', v[1])
        r = st.h.get(key)
        if r is None:
            s2 = st.fork()
            st.h[key] = 1
            s2.h[key] = 0
            out = []
            for s, nn in ((st, 1), (s2, 0)):
                if self.env is None or self.env.on_resolve(s, v, nn):
                    out.append((s, self.deref_optr(s, v) if nn else NULL))
            return out
        return [(st, self.deref_optr(st, v) if r else NULL)]

    def deref_optr(self, st, v):
        if v[0] == 'ofn':
            return v
        return ('ptr', ('H', v[1]))

    # ------------------------------------------------------------ expressions
    def cond(self, e, st):
        """[(st, bool)]"""
        self.steps += 1
        k = e['k']
        if k == 'Bin' and e['op'] in ('&&', '||'):
            out = []
            for s, b in self.cond(e['a'], st):
                if e['op'] == '&&' and not b:
                    out.append((s, False))
                elif e['op'] == '||' and b:
                    out.append((s, True))
                else:
                    out += self.cond(e['b'], s)
            return out
        if k == 'Un' and e['op'] == '!':
            return [(s, not b) for s, b in self.cond(e['a'], st)]
        if k in ('Full',):
            return self.cond(e['e'], st)
        if k == 'Cast' and e['ck'] in ('NoOp', 'IntegralToBoolean', 'PointerToBoolean', 'UserDefinedConversion') and not e.get('lv'):
            out = []
            for s, v in self.ev(e['e'], st):
                out += self.truth(s, v, e)
            return out
        out = []
        for s, v in self.ev(e, st):
            out += self.truth(s, v, e)
        return out

    def ev(self, e, st):
        self.steps += 1
        if self.steps > self.max_steps:
            raise AnalysisError('analysis budget exceeded at %s' % self.where(e))
        m = getattr(self, 'e_' + e['k'], None)
        if m is None:
            self.err('unsupported expression ' + e['k'] + ' ' + str(e.get('cls', '')), e)
        return m(e, st)

    def evs(self, es, st):
        """evaluate a list of expressions left to right -> [(st, [values])]"""
        out = [(st, [])]
        for e in es:
            nxt = []
            for s, vs in out:
                for s2, v in self.ev(e, s):
                    nxt.append((s2, vs + [v]))
            out = nxt
        return out

    def e_Int(self, e, st):
        return [(st, Lin(int(e['v'])))]

    def e_Float(self, e, st):
        return [(st, ('fl', ('const', repr(e['v']))))]

    def e_Str(self, e, st):
        return [(st, ('ref', ('STR', e['v'])))]

    def e_Null(self, e, st):
        return [(st, NULL)]

    def e_This(self, e, st):
        return [(st, st.h[('v', self.depth, 'this')])]

    def e_Zero(self, e, st):
        t = e['t']
        k = self.p.kind(t)
        if k == 'ptr':
            return [(st, NULL)]
        if k == 'float':
            return [(st, ('fl', ('const', '0.0')))]
        return [(st, ZERO)]

    def e_Full(self, e, st):
        return self.ev(e['e'], st)

    def e_Temp(self, e, st):
        return self.ev(e['e'], st)

    def e_Mat(self, e, st):
        out = []
        loc = ('T', self.depth, e['#'])
        for s in self.construct(e['e'], loc, st):
            out.append((s, ('ref', loc)))
        return out

    def e_Ref(self, e, st):
        if 'global' in e:
            return [(st, ('ref', ('GLOB', e['global'])))]
        loc = ('v', self.depth, e['id'])
        v = st.h.get(loc)
        if v is None:
            cap = st.h.get(('v', self.depth, '#caps'))
            if cap is not None:
                for k, x in cap[1]:
                    if k == e['id']:
                        return [(st, x)]
        if isinstance(v, tuple) and v[0] == 'ref':
            return [(st, v)]
        return [(st, ('ref', loc))]

    def e_FuncRef(self, e, st):
        return [(st, ('fn', e['f']))]

    def deref(self, st, v, node, what='pointer'):
        """[(st, loc)]"""
        if isinstance(v, tuple):
            if v[0] == 'ptr':
                if self.env is not None:
                    self.env.check_alive(st, v[1], node)
                return [(st, v[1])]
            if v == NULL:
                self.oblige(st, 'mem', False, node, 'null %s is not dereferenced' % what)
                return []
            if v[0] == 'optr':
                out = []
                for s, r in self.resolve_ptr(st, v):
                    if r == NULL:
                        self.oblige(s, 'mem', False, node, 'null %s is not dereferenced' % what)
                    else:
                        out.append((s, r[1]))
                return out
            if v[0] == 'cp':
                return [(st, ('CP', v[1], v[2], v[3]))]
            if v[0] == 'argv':
                return self.argv_loc(st, v[1], node)
            if v[0] == 'ap':
                return [(st, ('I', v[1], v[2]))]
            if v[0] == 'uninit':
                self.oblige(st, 'mem', False, node, 'uninitialised %s is not dereferenced' % what)
                return []
            if v[0] == 'top':
                return [(st, ('TOP', self.fresh_id('t')))]
        self.err('dereference of %s' % (v,), node)

    def argv_loc(self, st, off, node):
        argc = self.env.argc
        off = st.c.norm(off)
        ok = st.c.is_ge(off) and st.c.is_ge(argc - off - 1)
        self.oblige(st, 'argv', ok, node, 'argv is only read at 0..argc-1')
        if not ok:
            if not (self.assume(st, '>=', off, ZERO) and self.assume(st, '<', off, argc)):
                return []
        return [(st, ('ARGV', off))]

    def lv(self, st, v, node):
        """location of a glvalue result"""
        if isinstance(v, tuple) and v[0] == 'ref':
            return v[1]
        # prvalue used as an object: materialise
        loc = ('T', self.depth, node.get('#', 0), 'm')
        self.store(st, loc, v, node)
        return loc

    def e_Mem(self, e, st):
        out = []
        for s, v in self.ev(e['o'], st):
            if e.get('arrow'):
                locs = self.deref(s, v, e)
            else:
                locs = [(s, self.lv(s, v, e))]
            for s2, loc in locs:
                fl = self.field_loc(s2, loc, e['f'])
                x = s2.h.get(fl)
                if x is None and not self.inner(fl) and self.env is not None:
                    x = self.env.missing(s2, fl)
                    if x is not None:
                        s2.h[fl] = x
                if isinstance(x, tuple) and x[0] == 'ref':
                    out.append((s2, x))
                else:
                    out.append((s2, ('ref', fl)))
        return out

    def field_loc(self, st, loc, key):
        return ('F', loc, key)

    def e_Index(self, e, st):
        out = []
        for s, (a, b) in self.evs([e['a'], e['b']], st):
            if isinstance(a, Lin):
                a, b = b, a
            if isinstance(a, tuple) and a[0] == 'argv':
                for s2, loc in self.argv_loc(s, a[1] + b, e):
                    out.append((s2, ('ref', loc)))
            elif isinstance(a, tuple) and a[0] == 'cp':
                out.append((s, ('ref', ('CP', a[1], s.c.norm(a[2] + b), a[3]))))
            elif isinstance(a, tuple) and a[0] == 'ap':
                out.append((s, ('ref', ('I', a[1], s.c.norm(a[2] + b)))))
            elif isinstance(a, tuple) and a[0] == 'top':
                out.append((s, ('ref', ('TOP', self.fresh_id('t')))))
            elif a == NULL:
                self.oblige(s, 'mem', False, e, 'null array is not indexed')
            else:
                self.err('index of %s' % (a,), e)
        return out

    def read_loc(self, st, loc, e):
        """[(st, value)] lvalue-to-rvalue"""
        k = loc[0]
        if k == 'CP':
            if loc[3] is not None and self.env is not None:
                self.env.check_owner(st, loc, e)
            return self.read_char(st, loc[1], loc[2], e)
        if k == 'ARGV':
            return [(st, ('cp', whole(('tok', st.c.norm(loc[1]))), ZERO, None))]
        if k == 'GLOB':
            return [(st, self.env.global_value(st, loc, e))]
        if k == 'TOP':
            r = int_range(self.p.ty(self.p.strip(e['t'])))
            if r:
                return [(st, fresh('top', *r))]
            return [(st, ('top', 'unknown memory'))]
        if k == 'SC':      # character of a std::string object
            s = self.load(st, loc[1], e)
            if is_str(s):
                return self.read_char(st, s, loc[2], e)
            return [(st, fresh('anych', -128, 127))]
        if k == 'I':
            v = self.load(st, loc[1], e)
            if isinstance(v, tuple) and v[0] in ('arr', 'buf'):
                return self.env.array_read(st, loc, v, e) if self.env else [(st, fresh('arr'))]
        v = self.load(st, loc, e)
        if v == UNINIT or (isinstance(v, tuple) and v[0] == 'uninit'):
            self.oblige(st, 'uninit', False, e, 'no uninitialised value is read')
            r = int_range(self.p.ty(self.p.strip(e['t'])))
            if r:
                return [(st, fresh('uninit', *r))]
        if isinstance(v, tuple) and v[0] == 'top':
            r = int_range(self.p.ty(self.p.strip(e['t'])))
            if r:
                return [(st, fresh('top', *r))]
        if isinstance(v, Lin):
            v = st.c.norm(v)
        return [(st, v)]

    def e_Cast(self, e, st):
        ck = e['ck']
        sub = e['e']
        if ck == 'LValueToRValue':
            out = []
            for s, v in self.ev(sub, st):
                out += self.read_loc(s, self.lv(s, v, e), e)
            return out
        if ck in ('NoOp', 'UserDefinedConversion', 'ConstructorConversion', 'FunctionToPointerDecay', 'BuiltinFnToFnPtr', 'BitCast', 'LValueBitCast', 'Dependent', 'ToVoid'):
            return self.ev(sub, st)
        if ck == 'ArrayToPointerDecay':
            out = []
            for s, v in self.ev(sub, st):
                loc = self.lv(s, v, e)
                if loc[0] == 'STR':
                    out.append((s, ('cp', lit(loc[1]), ZERO, ('static',))))
                else:
                    x = s.h.get(loc)
                    if isinstance(x, tuple) and x[0] == 'S':
                        out.append((s, ('cp', x, ZERO, None)))
                    else:
                        out.append((s, ('ap', loc, ZERO)))
            return out
        if ck == 'NullToPointer' or ck == 'NullToMemberPointer':
            return [(st, NULL)]
        if ck in ('IntegralCast', 'IntegralToBoolean', 'BooleanToSignedIntegral'):
            out = []
            for s, v in self.ev(sub, st):
                out += self.convert_int(s, v, e['t'], e)
            return out
        if ck in ('PointerToBoolean', 'FloatingToBoolean', 'MemberPointerToBoolean'):
            out = []
            for s, v in self.ev(sub, st):
                out += [(s2, ONE if b else ZERO) for s2, b in self.truth(s, v, e)]
            return out
        if ck in ('IntegralToFloating', 'FloatingCast'):
            out = []
            for s, v in self.ev(sub, st):
                if isinstance(v, Lin):
                    v = ('fl', ('int', v))
                elif isinstance(v, tuple) and v[0] == 'fl' and ck == 'FloatingCast':
                    pass
                out.append((s, v))
            return out
        if ck == 'FloatingToIntegral':
            out = []
            r = int_range(self.p.ty(e['t']))
            for s, v in self.ev(sub, st):
                if isinstance(v, tuple) and v[0] == 'fl':
                    if v[1][0] == 'int':
                        out += self.convert_int(s, v[1][1], e['t'], e)
                    else:
                        out.append((s, atom_lin(('trunc', v[1], e['t']), *r)))
                else:
                    out.append((s, fresh('trunc', *r)))
            return out
        if ck in ('DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'Dynamic'):
            out = []
            for s, v in self.ev(sub, st):
                out.append((s, self.base_cast(s, v, e, ck)))
            return out
        self.err('cast ' + ck, e)

    def base_cast(self, st, v, e, ck):
        t = e['t']
        ty = self.p.ty(t)
        to = self.p.ty(ty['to']) if ty.get('k') in ('ptr', 'ref') else ty
        std_vec = to.get('qn', '').replace('__cxx11::', '') == 'std::vector'

        def conv(loc):
            if ck in ('BaseToDerived', 'Dynamic'):
                if loc[0] == 'F' and loc[2] == '#vec':
                    return loc[1]
                return loc
            if std_vec and not (loc[0] == 'F' and loc[2] == '#vec'):
                return ('F', loc, '#vec')
            return loc
        if isinstance(v, tuple):
            if v[0] == 'ref':
                return ('ref', conv(v[1]))
            if v[0] == 'ptr':
                return ('ptr', conv(v[1]))
            if v[0] == 'rec' and std_vec:
                for k, x in v[2]:
                    if k == '#vec':
                        return x
        return v

    def e_Bin(self, e, st):
        op = e['op']
        if op in ('&&', '||'):
            return [(s, ONE if b else ZERO) for s, b in self.cond(e, st)]
        if op == ',':
            out = []
            for s, _ in self.ev(e['a'], st):
                out += self.ev(e['b'], s)
            return out
        if op == '=':
            out = []
            for s, v in self.ev(e['b'], st):
                for s2, l in self.ev(e['a'], s):
                    loc = self.lv(s2, l, e)
                    self.assign(s2, loc, v, e)
                    out.append((s2, l))
            return out
        out = []
        for s, (a, b) in self.evs([e['a'], e['b']], st):
            if op in OPS:
                out += self.compare(s, op, a, b, e)
            else:
                out += self.arith(s, op, a, b, e['t'], e)
        return out

    def assign(self, st, loc, v, node):
        if loc[0] == 'CP':
            self.env.char_write(st, loc, v, node)
            return
        if loc[0] == 'SC':
            s = self.load(st, loc[1], node)
            if is_str(s):
                self.store(st, loc[1], self.str_set(st, s, loc[2], v), node)
            return
        if loc[0] == 'I':
            x = self.load(st, loc[1], node)
            if isinstance(x, tuple) and x[0] in ('arr', 'buf'):
                self.env.array_write(st, loc, x, v, node)
                return
        if loc[0] == 'GLOB':
            self.env.global_write(st, loc, v, node)
            return
        if loc[0] in ('TOP', 'STR'):
            return
        self.store(st, loc, v, node)

    def compare(self, st, op, a, b, node):
        """[(st, Lin 0/1)]"""
        if isinstance(a, Lin) and isinstance(b, Lin):
            return self.bool_vals(*self.fork_cmp(st, op, a, b))
        ka = a[0] if isinstance(a, tuple) else None
        kb = b[0] if isinstance(b, tuple) else None
        if ka == 'fl' or kb == 'fl':
            # ordered comparisons are expressed by '<' (no NaNs), so that equivalent tests agree
            neg = op in ('<=', '>=', '!=')
            if op in ('>', '<='):
                a, b = b, a
            if op in ('==', '!='):
                a, b = sorted((a, b), key=repr)
            t = atom_lin(('flcmp', '==' if op in ('==', '!=') else '<', a, b), 0, 1)
            t, f = self.fork_cmp(st, '==', t, ZERO if neg else ONE)
            return self.bool_vals(t, f)
        if op in ('==', '!='):
            res = []
            for s, eq in self.ptr_eq(st, a, b, node):
                res.append((s, ONE if eq == (op == '==') else ZERO))
            return res
        if ka == 'cp' and kb == 'cp':
            return self.bool_vals(*self.fork_cmp(st, op, a[2], b[2]))
        if ka == 'argv' and kb == 'argv':
            return self.bool_vals(*self.fork_cmp(st, op, a[1], b[1]))
        if ka == 'it' and kb == 'it' and isinstance(a[3], Lin):
            return self.bool_vals(*self.fork_cmp(st, op, a[3], b[3]))
        self.top(st, 'comparison of %s and %s' % (a, b), node)
        return [(st, ONE), (st.fork(), ZERO)]

    def ptr_eq(self, st, a, b, node):
        """[(st, equal?)]"""
        if b == NULL or (isinstance(b, tuple) and b[0] in ('optr', 'ofn') and not (isinstance(a, tuple) and a[0] in ('optr', 'ofn'))):
            a, b = b, a
        ka = a[0] if isinstance(a, tuple) else None
        kb = b[0] if isinstance(b, tuple) else None
        if a == b and ka not in ('top', 'uninit'):
            return [(st, True)]
        if a == NULL:
            if kb in ('optr', 'ofn'):
                return [(s, r == NULL) for s, r in self.resolve_ptr(st, b)]
            if kb in ('ptr', 'cp', 'argv', 'fn', 'ap'):
                return [(st, False)]
        if ka == 'optr' and kb in ('ptr', 'optr'):
            out = []
            for s, r in self.resolve_ptr(st, a):
                if r == NULL:
                    if kb == 'ptr':
                        out.append((s, False))
                    else:
                        out += [(s2, r2 == NULL) for s2, r2 in self.resolve_ptr(s, b)]
                else:
                    if kb == 'optr':
                        for s2, r2 in self.resolve_ptr(s, b):
                            if r2 == NULL:
                                out.append((s2, False))
                            else:
                                out += self.env.obj_eq(s2, r[1], r2[1], node)
                    else:
                        out += self.env.obj_eq(s, r[1], b[1], node)
            return out
        if ka == 'ptr' and kb == 'ptr':
            if self.env is not None:
                return self.env.obj_eq(st, a[1], b[1], node)
            return [(st, a[1] == b[1])]
        if ka == 'cp' and kb == 'cp':
            if a[3] is not None and b[3] is not None and a[3] == b[3] or same(st, a[1], b[1]):
                r = self.fork_cmp(st, '==', a[2], b[2])
                return ([(r[0], True)] if r[0] is not None else []) + ([(r[1], False)] if r[1] is not None else [])
        if ka == 'argv' and kb == 'argv':
            r = self.fork_cmp(st, '==', a[1], b[1])
            return ([(r[0], True)] if r[0] is not None else []) + ([(r[1], False)] if r[1] is not None else [])
        if ka == 'it' and kb == 'it':
            return self.it_eq(st, a, b, node)
        if ka == 'fn' and kb == 'fn':
            return [(st, a[1] == b[1])]
        self.top(st, 'pointer comparison %s %s' % (ka, kb), node)
        return [(st, True), (st.fork(), False)]

    def it_eq(self, st, a, b, node):
        if isinstance(a[3], Lin) and isinstance(b[3], Lin):
            r = self.fork_cmp(st, '==', a[3], b[3])
            return ([(r[0], True)] if r[0] is not None else []) + ([(r[1], False)] if r[1] is not None else [])
        return self.env.it_eq(st, a, b, node)

    def e_OpAssign(self, e, st):
        op = e['op'][:-1]
        out = []
        for s, l in self.ev(e['a'], st):
            loc = self.lv(s, l, e)
            for s1, b in self.ev(e['b'], s):
                for s2, a in self.read_loc(s1, loc, e['a']):
                    if isinstance(a, Lin) and isinstance(b, Lin):
                        for s3, a2 in self.convert_int(s2, a, e['lt'], e):
                            for s4, r in self.arith(s3, op, a2, b, e['ct'], e):
                                for s5, r2 in self.convert_int(s4, r, e['t'], e):
                                    self.assign(s5, loc, r2, e)
                                    out.append((s5, l))
                    else:
                        for s4, r in self.arith(s2, op, a, b, e['t'], e):
                            self.assign(s4, loc, r, e)
                            out.append((s4, l))
        return out

    def e_Un(self, e, st):
        op = e['op']
        if op == '!':
            out = []
            for s, v in self.ev(e['a'], st):
                if isinstance(v, Lin) and s.c.is_ge(v) and s.c.is_ge(ONE - v):
                    out.append((s, s.c.norm(ONE - v)))
                else:
                    out += [(x, ZERO if b else ONE) for x, b in self.truth(s, v, e)]
            return out
        out = []
        if op == '&':
            for s, v in self.ev(e['a'], st):
                if isinstance(v, tuple) and v[0] == 'fn':
                    out.append((s, v))
                    continue
                loc = self.lv(s, v, e)
                if loc[0] == 'ARGV':
                    out.append((s, ('argv', loc[1])))
                elif loc[0] == 'CP':
                    out.append((s, ('cp', loc[1], loc[2], loc[3])))
                elif loc[0] == 'SC':
                    x = self.load(s, loc[1], e)
                    out.append((s, ('cp', x if is_str(x) else lit(''), loc[2], self.env.owner(loc[1]))))
                else:
                    out.append((s, ('ptr', loc)))
            return out
        if op == '*':
            for s, v in self.ev(e['a'], st):
                if isinstance(v, tuple) and v[0] in ('fn', 'ofn'):
                    out.append((s, v))
                    continue
                for s2, loc in self.deref(s, v, e):
                    out.append((s2, ('ref', loc)))
            return out
        if op in ('++', '--'):
            d = ONE if op == '++' else Lin(-1)
            for s, l in self.ev(e['a'], st):
                loc = self.lv(s, l, e)
                for s2, a in self.read_loc(s, loc, e['a']):
                    self.no_overflow(s2, a, d, e['t'])
                    for s3, r in self.arith(s2, '+' if isinstance(a, tuple) else '+', a, d, e['t'], e):
                        self.assign(s3, loc, r, e)
                        out.append((s3, a if e.get('post') else l))
            return out
        if op == '-':
            for s, a in self.ev(e['a'], st):
                if isinstance(a, Lin):
                    out += self.arith(s, '-', ZERO, a, e['t'], e)
                else:
                    out.append((s, ('fl', ('neg', a))))
            return out
        if op == '+':
            return self.ev(e['a'], st)
        if op == '~':
            for s, a in self.ev(e['a'], st):
                out += self.arith(s, '-', Lin(-1), a, e['t'], e)
            return out
        self.err('unary ' + op, e)

    def e_Cond(self, e, st):
        out = []
        for s, b in self.cond(e['c'], st):
            out += self.ev(e['a'] if b else e['b'], s)
        return out

    def e_InitList(self, e, st):
        out = []
        for s, vs in self.evs(e['c'], st):
            if self.p.kind(e['t']) == 'array' or len(vs) != 1:
                out.append((s, ('agg', tuple(vs))))
            else:
                out.append((s, vs[0]))
        return out

    def e_StdInitList(self, e, st):
        out = []
        for s, v in self.ev(e['e'], st):
            if isinstance(v, tuple) and v[0] == 'ref':
                v = self.load(s, v[1], e)
            if isinstance(v, tuple) and v[0] == 'agg':
                v = ('V', tuple((x, ONE) for x in v[1]))
            out.append((s, v))
        return out

    def e_Lambda(self, e, st):
        caps = []
        for c in e['caps']:
            if c.get('this'):
                caps.append(('this', st.h[('v', self.depth, 'this')]))
            elif c.get('ref'):
                v = st.h.get(('v', self.depth, c['id']))
                if isinstance(v, tuple) and v[0] == 'ref':
                    caps.append((c['id'], v))
                else:
                    caps.append((c['id'], ('ref', ('v', self.depth, c['id']))))
            else:
                v = st.h.get(('v', self.depth, c['id']))
                if isinstance(v, tuple) and v[0] == 'ref':
                    v = self.load(st, v[1], e)
                loc = ('L', self.depth, e['#'], c['id'])
                self.store(st, loc, v if v is not None else self.load(st, ('v', self.depth, c['id']), e), e)
                caps.append((c['id'], ('ref', loc)))
        return [(st, ('lam', e['f'], tuple(caps)))]

    def e_MethodRef(self, e, st):
        self.err('method reference', e)

    # ------------------------------------------------------------ construction
    def construct(self, e, loc, st):
        """evaluate prvalue e into loc -> [st]"""
        k = e['k']
        if k in ('Full', 'Temp'):
            return self.construct(e['e'], loc, st)
        if k == 'Cast' and e['ck'] in ('NoOp', 'ConstructorConversion', 'UserDefinedConversion') and not e.get('lv'):
            return self.construct(e['e'], loc, st)
        if k == 'Ctor':
            if e.get('elidable') and e['args'] and e['args'][0]['k'] == 'Mat':
                return self.construct(e['args'][0]['e'], loc, st)
            return self.ctor(e, loc, st)
        if k == 'Cond' and self.is_rec_type(e['t']):
            out = []
            for s, b in self.cond(e['c'], st):
                out += self.construct(e['a'] if b else e['b'], loc, s)
            return out
        out = []
        for s, v in self.ev(e, st):
            if isinstance(v, tuple) and v[0] == 'ref' and not e.get('lv') and not e.get('xv'):
                v = self.load(s, v[1], e)
            self.store(s, loc, v, e)
            out.append(s)
        return out

    def e_Ctor(self, e, st):
        loc = ('T', self.depth, e['#'], 'c')
        out = []
        for s in self.construct(e, loc, st):
            v = self.load(s, loc, e)
            self.drop(s, loc)
            out.append((s, v))
        return out

    def drop(self, st, loc):
        v = st.h.pop(loc, None)
        if isinstance(v, tuple) and v[0] == 'obj':
            for key, t in self.p.fields(v[1]):
                self.drop(st, ('F', loc, key))

    def ctor(self, e, loc, st):
        f = self.p.funcs[e['f']]
        if f.get('blet') and f.get('cls') in self.p.records or (f.get('cls') in self.p.records):
            cls = f['cls']
            # implicit / trivial copy
            if (f.get('copy') or f.get('move')) and not f.get('body'):
                out = []
                for s, vs in self.evs(e['args'], st):
                    v = vs[0]
                    if isinstance(v, tuple) and v[0] == 'ref':
                        v = self.load(s, v[1], e)
                    self.store(s, loc, v, e)
                    out.append(s)
                return out
            out = []
            for s, vs in self.eval_args(e['args'], f, st, e):
                out += self.construct_with(s, f, loc, vs, e, e.get('zero'))
            return out
        out = []
        for s, vs in self.evs(e['args'], st):
            for s2, v in self.std_ctor(s, f, vs, e):
                self.store(s2, loc, v, e)
                out.append(s2)
        return out

    def init_object(self, st, cls, loc, zero=False):
        st.h[loc] = ('obj', cls)
        for key, t in self.p.fields(cls):
            fl = ('F', loc, key)
            st.h[fl] = self.default_value(t) if not zero else self.zero_value(t)
            rec = self.p.rec_of(t)
            if rec in self.p.records and self.p.kind(t) == 'record':
                self.init_object(st, rec, fl, zero)

    def default_value(self, t):
        ty = self.p.ty(t)
        if ty.get('k') == 'record':
            qn = ty.get('qn', '').replace('__cxx11::', '').replace('__gnu_cxx::', 'std::')
            return self.std_default(qn, t)
        if ty.get('k') == 'array':
            return ('arr', t, self.fresh_id('arr'))
        return UNINIT

    def zero_value(self, t):
        k = self.p.kind(t)
        if k in ('int', 'bool', 'enum'):
            return ZERO
        if k == 'ptr':
            return NULL
        if k == 'float':
            return ('fl', ('const', '0.0'))
        return self.default_value(t)

    def construct_with(self, st, f, loc, args, node, zero=False):
        """run constructor f on loc -> [st]"""
        cls = f['cls']
        if not f.get('body'):
            if not args:
                self.init_object(st, cls, loc, zero)
                if self.env is not None:
                    self.env.on_construct(st, loc, cls, node)
                return [st]
            self.err('constructor without body %s' % f['qn'], node)
        fresh_obj = st.h.get(loc) is None or st.h.get(loc)[0] != 'obj' or True
        if not getattr(self, '_base_ctor', False):
            self.init_object(st, cls, loc, zero)
        self._base_ctor = False
        out = []
        for s, _ in self.invoke(st, f, ('ptr', loc), args, node, ctor=True):
            if self.env is not None and not self.env.in_base_ctor:
                self.env.on_construct(s, loc, cls, node)
            out.append(s)
        return out

    def run_inits(self, st, f, this, node):
        """constructor initialisers -> [st]"""
        loc = this[1]
        states = [st]
        for i in f.get('inits', []):
            nxt = []
            for s in states:
                if 'deleg' in i:
                    e = i['e']
                    while e['k'] in ('Full', 'Temp'):
                        e = e['e']
                    nxt += self.base_construct(s, e, loc)
                elif 'base' in i:
                    bt = self.p.ty(i['base'])
                    qn = bt.get('qn', '').replace('__cxx11::', '')
                    if bt.get('name') in self.p.records:
                        e = i['e']
                        while e['k'] in ('Full', 'Temp'):
                            e = e['e']
                        nxt += self.base_construct(s, e, loc)
                    elif qn == 'std::vector':
                        nxt += self.construct(i['e'], ('F', loc, '#vec'), s)
                    elif qn == 'std::exception':
                        nxt.append(s)
                    else:
                        self.err('base ' + qn, node)
                else:
                    fl = ('F', loc, i['field'])
                    if self.p.is_ref(i['ft']):
                        for s2, v in self.ev(i['e'], s):
                            s2.h[fl] = ('ref', self.lv(s2, v, i['e'])) if not (isinstance(v, tuple) and v[0] == 'ref') else v
                            nxt.append(s2)
                    elif self.p.kind(i['ft']) == 'array':
                        nxt.append(s)
                    else:
                        nxt += self.construct(i['e'], fl, s)
            states = nxt
        return states

    def base_construct(self, st, e, loc):
        if e['k'] != 'Ctor':
            self.err('base initialiser ' + e['k'], e)
        f = self.p.funcs[e['f']]
        out = []
        if (f.get('copy') or f.get('move')) and not f.get('body'):
            # implicit copy of a base
            for s, vs in self.evs(e['args'], st):
                src = self.lv(s, vs[0], e)
                for key, t in self.p.fields(f['cls']):
                    s.h[('F', loc, key)] = self.load(s, ('F', src, key), e)
                out.append(s)
            return out
        for s, vs in self.eval_args(e['args'], f, st, e):
            if not f.get('body'):
                out.append(s)
                continue
            if self.env is not None:
                self.env.in_base_ctor += 1
            for s2, _ in self.invoke(s, f, ('ptr', loc), vs, e, ctor=True):
                out.append(s2)
            if self.env is not None:
                self.env.in_base_ctor -= 1
        return out

    def e_NewE(self, e, st):
        if e.get('array') or e.get('placement'):
            self.err('array/placement new', e)
        oid = ('H', self.fresh_id('new'))
        t = e['at']
        out = []
        if 'init' in e and e['init'] is not None:
            sts = self.construct(e['init'], oid, st)
        else:
            st.h[oid] = self.default_value(t)
            sts = [st]
        for s in sts:
            if self.env is not None:
                self.env.on_new(s, oid, t, e)
            out.append((s, ('ptr', oid)))
        return out

    def e_Delete(self, e, st):
        out = []
        for s, v in self.ev(e['e'], st):
            if v == NULL:
                out.append((s, ZERO))
                continue
            if isinstance(v, tuple) and v[0] == 'optr':
                for s2, r in self.resolve_ptr(s, v):
                    if r == NULL:
                        out.append((s2, ZERO))
                    else:
                        out += [(s3, ZERO) for s3 in self.delete_obj(s2, r[1], e)]
                continue
            if isinstance(v, tuple) and v[0] == 'ptr':
                out += [(s2, ZERO) for s2 in self.delete_obj(s, v[1], e)]
                continue
            if isinstance(v, tuple) and v[0] == 'uninit':
                self.oblige(s, 'mem', False, e, 'delete of an initialised pointer')
                continue
            self.top(s, 'delete of unknown pointer', e)
            out.append((s, ZERO))
        return out

    def delete_obj(self, st, loc, e):
        if self.env is not None:
            return self.env.on_delete(st, loc, e)
        return [st]

    def e_Throw(self, e, st):
        if 'e' not in e or e['e'] is None:
            exc = st.h.get(('CUREXC',))
            if exc is None:
                self.err('rethrow outside handler', e)
            self.exc.append((st, exc, e))
            return []
        loc = ('T', self.depth, e['#'], 'x')
        for s in self.construct(e['e'], loc, st):
            v = self.load(s, loc, e)
            self.drop(s, loc)
            tn = self.p.rec_of(e['tt']) or e['tt']
            self.exc.append((s, ('exc', tn, v, self.where(e)), e))
        return []

    # ------------------------------------------------------------ calls
    def eval_args(self, args, f, st, node):
        """evaluate arguments for a blet function; by-value class arguments are evaluated to values"""
        out = [(st, [])]
        for a in args:
            nxt = []
            for s, vs in out:
                for s2, v in self.ev(a, s):
                    nxt.append((s2, vs + [v]))
            out = nxt
        return out

    def e_MCall(self, e, st):
        f = self.p.funcs[e['f']]
        out = []
        o = e['o']
        for s, ov in self.ev(o, st):
            if e.get('arrow'):
                locs = [(s2, ('ref', l)) for s2, l in self.deref(s, ov, e)]
            else:
                locs = [(s, ov)]
            for s2, obj in locs:
                if f.get('cls') in self.p.records and (f.get('body') or f.get('blet')):
                    if isinstance(obj, tuple) and obj[0] == 'lam':
                        for s3, vs in self.eval_args(e['args'], f, s2, e):
                            out += self.call_lambda(s3, obj, vs, e)
                        continue
                    loc = self.lv(s2, obj, e)
                    for s3, vs in self.eval_args(e['args'], f, s2, e):
                        out += self.method(s3, f, loc, vs, e, virt=e.get('virt'))
                elif isinstance(obj, tuple) and obj[0] == 'lam' or (isinstance(obj, tuple) and obj[0] == 'ref' and isinstance(s2.h.get(obj[1]), tuple) and s2.h[obj[1]][0] == 'lam'):
                    lam = obj if obj[0] == 'lam' else s2.h[obj[1]]
                    for s3, vs in self.evs(e['args'], s2):
                        out += self.call_lambda(s3, lam, vs, e)
                else:
                    for s3, vs in self.evs(e['args'], s2):
                        out += self.std_method(s3, f, obj, vs, e)
        return out

    def call_lambda(self, st, lam, vs, e):
        f = self.p.funcs[lam[1]]
        return self.invoke(st, f, None, vs, e, lam=lam)

    def method(self, st, f, loc, vs, e, virt=False):
        # assignment of a record without body (implicit)
        if not f.get('body') and (f.get('copyassign') or f.get('moveassign') or f['n'] == 'operator='):
            v = vs[0]
            if isinstance(v, tuple) and v[0] == 'ref':
                v = self.load(st, v[1], e)
            self.store(st, loc, v, e)
            return [(st, ('ref', loc))]
        if virt and self.env is not None:
            r = self.env.virtual_call(st, f, loc, vs, e)
            if r is not None:
                return r
            dyn = st.h.get(loc)
            if isinstance(dyn, tuple) and dyn[0] == 'obj':
                g = self.p.method_override(dyn[1], f['id'])
                if g:
                    f = self.p.funcs[g]
        if not f.get('body'):
            r = self.env.extern_call(st, f, ('ref', loc), vs, e) if self.env else None
            if r is not None:
                return r
            self.err('call of %s without body' % f['qn'], e)
        return self.invoke(st, f, ('ptr', loc), vs, e)

    def e_Call(self, e, st):
        if 'f' not in e:
            out = []
            for s, cv in self.ev(e['callee'], st):
                if isinstance(cv, tuple) and cv[0] == 'ref':
                    cv = self.load(s, cv[1], e)
                for s2, vs in self.evs(e['args'], s):
                    out += self.call_value(s2, cv, vs, e)
            return out
        f = self.p.funcs[e['f']]
        out = []
        if f.get('blet') and f.get('body'):
            for s, vs in self.eval_args(e['args'], f, st, e):
                out += self.invoke(s, f, None, vs, e)
            return out
        for s, vs in self.evs(e['args'], st):
            out += self.std_call(s, f, vs, e)
        return out

    def call_value(self, st, cv, vs, e):
        if cv[0] == 'fn':
            f = self.p.funcs[cv[1]]
            if f.get('body'):
                return self.invoke(st, f, None, vs, e)
            return self.std_call(st, f, vs, e)
        if cv[0] == 'lam':
            return self.call_lambda(st, cv, vs, e)
        if cv[0] == 'ofn':
            return self.env.opaque_call(st, cv, vs, e)
        if cv == NULL:
            self.oblige(st, 'mem', False, e, 'null function is not called')
            return []
        self.err('call of %s' % (cv,), e)

    def invoke(self, st, f, this, args, node, ctor=False, lam=None):
        """inline call -> [(st, value)]"""
        self.stats['calls'] += 1
        self.stats['funcs'].add(f['id'])
        if self.depth > self.MAXDEPTH or self.stack.count(f['id']) > 2:
            self.err('recursion in %s' % f['qn'], node)
        if self.env is not None:
            r = self.env.intercept(st, f, this, args, node)
            if r is not None:
                return r
        caller = self.depth
        self.depth += 1
        d = self.depth
        self.stack.append(f['id'])
        try:
            if this is not None:
                st.h[('v', d, 'this')] = this
            if lam is not None:
                caps = []
                for k, v in lam[2]:
                    if k == 'this':
                        st.h[('v', d, 'this')] = v
                    else:
                        caps.append((k, v))
                st.h[('v', d, '#caps')] = ('caps', tuple(caps))
            params = f.get('params', [])
            for p, v in zip(params, args):
                loc = ('v', d, p['id'])
                if self.p.is_ref(p['t']):
                    if not (isinstance(v, tuple) and v[0] == 'ref'):
                        tl = ('T', d, 'arg', p['id'])
                        self.store(st, tl, v, node)
                        v = ('ref', tl)
                    st.h[loc] = v
                else:
                    if isinstance(v, tuple) and v[0] == 'ref':
                        v = self.load(st, v[1], node)
                    self.store(st, loc, v, node)
            exc0 = self.exc
            self.exc = []
            states = [st]
            if ctor:
                states = self.run_inits(st, f, this, node)
            outs = []
            for s in states:
                outs += self.ex(f['body'], s)
            thrown = self.exc
            self.exc = exc0
            res = []
            seen = {}
            for kind, s, v in outs:
                if kind == 'next':
                    v = ZERO
                elif kind != 'return':
                    self.err('stray ' + kind, node)
                self.pop_frame(s, d)
                key = None
                res.append((s, v))
            for s, x, n in thrown:
                self.pop_frame(s, d)
                self.exc.append((s, x, n))
            return self.dedupe(res)
        finally:
            self.stack.pop()
            self.depth = caller

    def dedupe(self, res):
        if len(res) < 2:
            return res
        out = []
        seen = {}
        for s, v in res:
            key = (v if not isinstance(v, list) else None, frozenset(s.h.items()))
            o = seen.get(key)
            if o is not None:
                c1, c2 = o.c, s.c
                if c1.eq == c2.eq and c1.ge == c2.ge and c1.ne == c2.ne:
                    continue
            seen[key] = s
            out.append((s, v))
        return out

    def pop_frame(self, st, d):
        h = st.h
        dead = [k for k in h if (k[0] in ('v', 'T', 'L') and k[1] >= d) or (k[0] == 'F' and self.root_frame(k) >= d)]
        for k in dead:
            del h[k]

    def root_frame(self, k):
        while k[0] in ('F', 'I'):
            k = k[1]
        if k[0] in ('v', 'T', 'L'):
            return k[1]
        return -1

    # ------------------------------------------------------------ statements
    def ex(self, n, st):
        if n is None:
            return [('next', st, None)]
        self.steps += 1
        return getattr(self, 's_' + n['k'])(n, st)

    def s_Unsupported(self, n, st):
        self.err('unsupported statement ' + n.get('cls', ''), n)

    def s_Null(self, n, st):
        return [('next', st, None)]

    def s_Block(self, n, st):
        cur = [st]
        out = []
        for c in n['c']:
            nxt = []
            for s in cur:
                for o in self.ex(c, s):
                    if o[0] == 'next':
                        nxt.append(o[1])
                    else:
                        out.append(o)
            cur = nxt
            if not cur:
                break
            if len(cur) > 200:
                cur = self.prune(cur)
        return [('next', s, None) for s in cur] + out

    def prune(self, states):
        return states

    def s_Decl(self, n, st):
        cur = [st]
        for v in n['d']:
            nxt = []
            for s in cur:
                nxt += self.declare(v, s)
            cur = nxt
        return [('next', s, None) for s in cur]

    def declare(self, v, st):
        loc = ('v', self.depth, v['id'])
        if v.get('static'):
            init = v.get('init')
            if init is not None and init['k'] == 'Ctor' and not init['args'] or init is None:
                pass
            gl = ('GLOBV', v['id'])
            if st.h.get(gl) is None:
                self.top(st, 'static local variable', v)
                st.h[gl] = ('top', 'static')
            st.h[loc] = ('ref', gl)
            return [st]
        self.drop(st, loc)
        init = v.get('init')
        if self.p.is_ref(v['t']):
            out = []
            for s, x in self.ev(init, st):
                if not (isinstance(x, tuple) and x[0] == 'ref'):
                    tl = ('T', self.depth, 'decl', v['id'])
                    self.store(s, tl, x, v)
                    x = ('ref', tl)
                s.h[loc] = x
                out.append(s)
            return out
        if init is None:
            st.h[loc] = self.default_value(v['t'])
            return [st]
        if self.p.kind(v['t']) == 'array':
            return self.declare_array(v, loc, st)
        return self.construct(init, loc, st)

    def declare_array(self, v, loc, st):
        out = []
        init = v.get('init')
        if init['k'] == 'Str':
            st.h[loc] = lit(init['v'])
            return [st]
        if init['k'] == 'InitList':
            for s, vs in self.evs(init['c'], st):
                xs = []
                for x in vs:
                    if isinstance(x, tuple) and x[0] == 'ref':
                        x = self.load(s, x[1], v)
                    xs.append((x, ONE))
                s.h[loc] = ('V', tuple(xs))
                out.append(s)
            return out
        st.h[loc] = self.default_value(v['t'])
        return [st]

    def s_Expr(self, n, st):
        return [('next', s, None) for s, _ in self.ev(n['e'], st)]

    def s_Return(self, n, st):
        e = n.get('e')
        if e is None:
            return [('return', st, ZERO)]
        f = self.p.funcs[self.fn()]
        rt = f['rt']
        out = []
        if self.p.is_ref(rt):
            for s, v in self.ev(e, st):
                out.append(('return', s, v))
            return out
        if self.is_rec_type(rt) and not e.get('lv'):
            loc = ('T', self.depth, 'ret')
            for s in self.construct(e, loc, st):
                out.append(('return', s, self.load(s, loc, n)))
            return out
        for s, v in self.ev(e, st):
            if isinstance(v, tuple) and v[0] == 'ref':
                v = self.load(s, v[1], n)
            out.append(('return', s, v))
        return out

    def s_If(self, n, st):
        out = []
        states = [st]
        if n.get('init'):
            states = [o[1] for o in self.ex(n['init'], st)]
        if n.get('cv'):
            states = [s2 for s in states for s2 in self.declare(n['cv'], s)]
        for s0 in states:
            cs = self.cond(n['c'], s0)
            for s, b in cs:
                if len(cs) > 1:
                    s.note('%s:%s' % (self.short(n['l']), 'true' if b else 'false'))
                if b:
                    out += self.ex(n['t'], s)
                elif n.get('e'):
                    out += self.ex(n['e'], s)
                else:
                    out.append(('next', s, None))
        return out

    def short(self, l):
        return l.split('/')[-1]

    def s_Switch(self, n, st):
        out = []
        body = n['b']
        stmts = body['c'] if body['k'] == 'Block' else [body]
        # flatten the labels
        flat = []        # (labels, stmt)
        for s in stmts:
            labels = []
            while s is not None and s['k'] in ('Case', 'Default'):
                labels.append(('default',) if s['k'] == 'Default' else ('case', s))
                s = s.get('s') if 's' in s else s.get('b')
            flat.append((labels, s))
        states = [st]
        if n.get('init'):
            states = [o[1] for o in self.ex(n['init'], st)]
        if n.get('cv'):
            states = [s2 for s in states for s2 in self.declare(n['cv'], s)]
        for s0 in states:
            for s, v in self.ev(n['c'], s0):
                if not isinstance(v, Lin):
                    if isinstance(v, tuple) and v[0] in ('top', 'uninit'):
                        v = fresh('sw')
                    else:
                        self.err('switch on %s' % (v,), n)
                out += self.run_switch(s, v, flat, n)
        return out

    def run_switch(self, st, v, flat, n):
        starts = []
        cur = st
        dflt = None
        for i, (labels, _) in enumerate(flat):
            for lb in labels:
                if lb[0] == 'default':
                    dflt = i
                    continue
                c = lb[1]
                val = c.get('v')
                if val is None or isinstance(val, dict):
                    self.err('case label', n)
                if cur is None:
                    continue
                if c.get('v2') is not None:
                    self.err('case range', n)
                t, f = self.fork_cmp(cur, '==', v, Lin(int(val)))
                if t is not None:
                    t.note('%s:case %s' % (self.short(n['l']), val))
                    starts.append((i, t))
                cur = f
        if cur is not None:
            cur.note('%s:default' % self.short(n['l']))
            starts.append((dflt if dflt is not None else len(flat), cur))
        out = []
        for i, s in starts:
            sts = [s]
            for j in range(i, len(flat)):
                nxt = []
                for s1 in sts:
                    for o in self.ex(flat[j][1], s1):
                        if o[0] == 'next':
                            nxt.append(o[1])
                        elif o[0] == 'break':
                            out.append(('next', o[1], None))
                        else:
                            out.append(o)
                sts = nxt
                if not sts:
                    break
            out += [('next', s1, None) for s1 in sts]
        return out

    def s_Case(self, n, st):
        return self.ex(n.get('s') or n.get('b'), st)

    s_Default = s_Case

    def s_Break(self, n, st):
        return [('break', st, None)]

    def s_Continue(self, n, st):
        return [('continue', st, None)]

    def s_Try(self, n, st):
        exc0 = self.exc
        self.exc = []
        out = self.ex(n['b'], st)
        thrown = self.exc
        self.exc = exc0
        for s, x, node in thrown:
            caught = False
            for h in n['h']:
                if self.catches(h, x):
                    caught = True
                    # locals of inner frames were popped when the calls unwound
                    old = s.h.get(('CUREXC',))
                    s.h[('CUREXC',)] = x
                    if 'var' in h and h['var'] is not None:
                        loc = ('v', self.depth, h['var']['id'])
                        xl = ('T', self.depth, 'exc', h['var']['id'])
                        if isinstance(x[2], tuple) and x[2][0] == 'rec':
                            self.store(s, xl, x[2], n)
                        else:
                            s.h[xl] = x[2]
                        if self.p.is_ref(h['var']['t']):
                            s.h[loc] = ('ref', xl)
                        else:
                            self.store(s, loc, self.load(s, xl, n), n)
                    for o in self.ex(h['b'], s):
                        if old is None:
                            o[1].h.pop(('CUREXC',), None)
                        else:
                            o[1].h[('CUREXC',)] = old
                        out.append(o)
                    break
            if not caught:
                self.exc.append((s, x, node))
        return out

    def catches(self, h, x):
        if 'var' not in h or h.get('var') is None:
            return True
        t = self.p.strip(h['t']) if 't' in h else None
        ty = self.p.ty(h['t'])
        if ty.get('k') == 'ref':
            ty = self.p.ty(ty['to'])
        name = ty.get('name') or t
        if name == x[1]:
            return True
        if x[1] in self.p.records:
            return self.p.derives(x[1], name) or name == 'std::exception'
        return self.std_exc_derives(x[1], name)

    STD_EXC = {'std::out_of_range': ['std::logic_error', 'std::exception'], 'std::length_error': ['std::logic_error', 'std::exception'],
               'std::bad_alloc': ['std::exception'], 'std::exception': [], 'other': []}

    def std_exc_derives(self, a, b):
        return b in self.STD_EXC.get(a, [])

    # loops are in loops.py
