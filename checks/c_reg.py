"""The registry of names: addArgument, flag, removeArguments, dest, clear and look-ups (C16-C20, C28, C36).

One argument A is tracked exactly; the other arguments and their names are unknown ones. The map of names is a fixed
virtual sequence: the names of A (positions 0..m-1), names inserted by the call (m..m+7), the n names of the others;
erased entries are skipped."""
import time
import jobs
from base import *
from env import *
from values import *
from core import *
import lin
from c_parse import NS, ARG, EL, ARGS, A, ROOT, F_TYPE, F_NAMES, F_NARGS, F_REQ, F_VALID, FLAGS, POSITIONAL, TYPES, is_oth
from c_obs import is_vec, attempt, member
from c_order import enum_vals

CONF_EXC, ACCESS_EXC = NS + 'ArgumentException', NS + 'AccessDeniedException'
NOTHER = lin.sym('other_names', 0, 1 << 40)
ROOM = 8
SLOT_A = ('slot', ('A',))
F_THIS, F_ARGS, F_OWN = ARG + '::this_', ARG + '::args_', ARG + '::validDeletable_'
H_, V_ = ('F', ROOT, ARGS + '::helpOption_'), ('F', ROOT, ARGS + '::versionOption_')
LIST, MAP = ('F', ROOT, ARGS + '::arguments_'), ('F', ROOT, ARGS + '::argumentFromName_')
VALIDATOR = ('H', (('A',), F_VALID))
PRE, POST = lin.sym('args_before', 0, 1 << 40), lin.sym('args_after', 0, 1 << 40)


def name_of_A(i):
    return whole(('name', i))


class RegEnv(Env):
    discrete = frozenset(['rewired', 'walked', 'gone', 'ins', 'dead', 'made', 'dirty', 'wiped', 'region'])

    def __init__(self, m, rep, pid):
        Env.__init__(self)
        self.m = m
        self.rep = rep
        self.others = True
        self.erasing = None
        self.pid = pid
        self.unroll_states = 1000

    def may_forget(self, k):
        return False

    # ------------------------------------------------------------ objects
    def class_of(self, st, root):
        if root[0] == 'H' and isinstance(root[1], tuple) and root[1] and root[1][0] == 'oth':
            return ARG
        return Env.class_of(self, st, root)

    def missing(self, st, loc):
        if loc[0] == 'H' and isinstance(loc[1], tuple) and loc[1]:
            n = loc[1]
            if n[0] == 'slot' and isinstance(n[1], tuple):
                return ('ptr', ('H', n[1]))
            if n[0] == 'oth':
                return ('obj', ARG)
        if loc[0] == 'F' and isinstance(loc[1], tuple) and loc[1][0] == 'H' and isinstance(loc[1][1], tuple) and loc[1][1][0] == 'ent':
            text, slot = self.entry(st, loc[1][1][1])
            if loc[2].endswith('first'):
                return text
            if loc[2].endswith('second'):
                return ('ptr', ('H', slot)) if slot[0] == 'slot' else slot
        return Env.missing(self, st, loc)

    def field_value(self, st, root, key, ft):
        if key == F_ARGS:
            return ('ref', ROOT)
        if key == F_NAMES and root != A:
            k = fresh('k')
            pre, post = (lin.atom_lin(('names', root[1], i), 0, 1 << 40) for i in (0, 1))
            nm = lambda i: (whole(('othername', root[1], i, k)))
            mid = ()
            if root[1][0] == 'oth' and root[1][1][0] == 'by':
                mid = ((self.entry(st, ('O', root[1][1][1]))[0], ONE),)
            else:
                st.c = st.c.add_ge(pre - 1)
            return ('V', (run(nm(0), pre, k),) + mid + (run(nm(1), post, k),))
        if key == F_THIS and root[0] == 'H' and root[1][0] == 'oth':
            return ('ptr', ('H', ('slot', root[1])))
        v = self.sym(ft, (root[1], key))
        return v

    def on_write(self, st, loc, v, node):
        if loc[0] == 'F' and loc[1][0] == 'H' and isinstance(loc[1][1], tuple) and loc[1][1] and loc[1][1][0] == 'ent' and loc[2].endswith('second'):
            x = loc[1][1][1]
            slot = v[1][1] if isinstance(v, tuple) and v[0] == 'ptr' and v[1][0] == 'H' else v
            if x[0] == 'N':
                ins = list(st.g('ins'))
                ins[x[1]] = (ins[x[1]][0], slot)
                st.sg('ins', tuple(ins))
            elif slot != self.entry(st, x)[1]:
                st.sg('rewired', True)
        if loc[0] == 'F' and is_oth(loc):
            for k in [k for k in st.h if k[0] == 'F' and k[2] == loc[2] and k != loc and is_oth(k)]:
                del st.h[k]
        self.dirty(st, loc, v)
        self.erasing = None

    def on_erase(self, st, loc, removed, node):
        self.erasing = loc

    def on_seq_write(self, st, loc, v, node):
        self.dirty(st, loc, v)

    def dirty(self, st, loc, v):
        f = loc[2] if loc[0] == 'F' else None
        if loc[0] == 'F' and loc[1] not in (A, ROOT) and not is_oth(loc) and st.h.get(('F', A, f)) == v:
            return      # a copy of A
        if self.erasing == loc:     # what is left stays in order
            if f == F_NAMES:
                st.sg('dirty', tuple(sorted(set(st.g('dirty') or ()) | {'args'})))
            return
        d = set(st.g('dirty') or ())
        if loc == LIST:
            d.add('placed' if self.placed(st, loc, v) else 'args')
        elif f in (F_TYPE, F_REQ) and st.h.get(loc) != v:
            d.add('args')
        elif f == F_NAMES:
            d.add('args')
            if not (is_vec(v) and (vec_len(v).const and vec_len(v).c < 2 or v in (st.g('sorted') or ()))):
                d.add('placed' if self.placed(st, loc, v) else repr(loc[1]))
        st.sg('dirty', tuple(sorted(d)))

    def placed(self, st, loc, v):
        """is something put into the middle (perhaps where it belongs)?"""
        old = st.h.get(loc)
        return is_vec(old) and is_vec(v) and bool(old[1]) and old != v and v[1][:len(old[1])] != old[1]

    def on_sort(self, st, loc, v, a, b, name, cmpf, e):
        whole_ = is_vec(v) and st.c.is_eq(a) and st.c.is_eq(b, vec_len(v))
        d = set(st.g('dirty') or ())
        if whole_:
            st.sg('sorted', (st.g('sorted') or ()) + (v,))
        if loc == LIST and whole_:
            if any(x not in ('args', 'placed') for x in d):
                self.rep.ok('C36.flags', self.I.where(e), 'the flags of an argument are in order when the arguments are sorted', False, st.tr)
            d -= {'args', 'placed'}
        elif loc[0] == 'F' and loc[2] == F_NAMES and whole_:
            d.discard(repr(loc[1]))
            d.add('args')
        st.sg('dirty', tuple(sorted(d)))
        return [(st, ZERO)]

    def is_slots(self, st, loc):
        return loc == LIST

    def obj_eq(self, st, a, b, node):
        if a == b:
            return [(st, True)]
        sa, sb = [x[1][0] == 'slot' if x[0] == 'H' and isinstance(x[1], tuple) and x[1] else False for x in (a, b)]
        if sa != sb:
            return [(st, False)]
        if is_o(a) and is_o(b):
            if {x[1][1][0] for x in (a, b) if x[1][0] == 'oth'} == {'at', 'by'}:
                raise AnalysisError('search for another argument at %s' % self.I.where(node))
            return [(st, True), (st.fork(), False)]
        return [(st, False)]

    def slot_search(self, st, t, cnt, x, e):
        """an argument pointer among the other arguments"""
        if not (isinstance(x, tuple) and x[0] == 'ptr' and is_o(x[1])):
            if isinstance(x, tuple) and x[0] == 'ptr':
                return [(st, False, None)]
            return [(st, False, None)]
        s = st.fork()
        q = lin.atom_lin(('at', t, x[1]), 0, None)
        out = [(s, False, None)]
        if self.I.assume(st, '<', q, cnt):
            out.append((st, True, q))
        return out

    def algo_find(self, st, n, a, b, x, e):
        """another argument is listed once, and lists the name it was found with once"""
        if n != 'find' or not (isinstance(a, tuple) and a[0] == 'it' and a[1] == 'v' and isinstance(a[3], Lin)):
            return None
        loc = a[2]
        if loc == LIST and isinstance(x, tuple) and x[0] == 'ptr' and is_o(x[1]) and x[1] not in self.lost(st):
            v = st.h[LIST]
            if not (st.c.is_eq(a[3]) and st.c.is_eq(b[3], vec_len(v))):
                return None
            acc = ZERO
            for t, cnt in v[1]:
                if t[0] == 'slot' and is_o(('H', t)) and cnt != ONE:
                    q = lin.atom_lin(('at', t, x[1]), 0, None)
                    s = st.fork()
                    if self.I.assume(s, '<', q, cnt):
                        return [(s, ('it', 'v', LIST, s.c.norm(acc + q)))]
                acc = acc + cnt
            raise AnalysisError('no place for %s in %s' % (x, v))
        if loc[0] == 'F' and loc[2] == F_NAMES and is_oth(loc) and is_str(x) and loc in st.h:
            v = st.h[loc]
            if is_vec(v) and st.c.is_eq(a[3]) and st.c.is_eq(b[3], vec_len(v)):
                acc = ZERO
                for t, cnt in v[1]:
                    if cnt == ONE and same(st, t, x):
                        return [(st, ('it', 'v', loc, st.c.norm(acc)))]
                    acc = acc + cnt
        return None

    def lost(self, st):
        return ()

    def str_rel(self, st, x, y):
        """the names of A differ from each other and from the names of the others"""
        kinds = []
        for s in (x, y):
            p = s[1]
            if len(p) != 1 or p[0][0] != 's' or s != whole(p[0][1]) or p[0][1][0] not in ('name', 'on', 'param'):
                return None
            kinds.append(p[0][1])
        a, b = kinds
        if (a[0] == 'param') != (b[0] == 'param'):
            # a given name whose look-up is known
            k, z = (x, b) if a[0] == 'param' else (y, a)
            v = looked(st, k)
            if v is None:
                return None
            if z[0] == 'name' and v == z[1] + 1:
                return [(st, '=')]
            if z[0] == 'on' and v == self.m + 1:
                return [(s, '=' if q else '<') for q, s in zip((True, False), self.I.fork_cmp(st, '==', lin.atom_lin(('lookat', snorm(st, k)), 0, None), z[1])) if s is not None]
        elif a[0] == 'param':
            return None
        if a[0] == b[0] == 'on' or a == b:
            return None
        r = lin.atom_lin(('order',) + tuple(sorted(kinds, key=repr)), 0, 1)
        y_, z = self.I.fork_cmp(st, '==', r, ONE)
        up = repr(a) < repr(b)
        return [(s, '<' if (s is y_) == up else '>') for s in (y_, z) if s is not None]

    # ------------------------------------------------------------ life of objects
    def on_new(self, st, loc, t, node):
        st.sg('made', (st.g('made') or ()) + (loc,))

    def on_delete(self, st, loc, node):
        dead = dict(st.g('dead') or ())
        who = 'A' if loc == A else 'validator' if loc == VALIDATOR else 'other' if is_oth(('F', loc)) else repr(loc)
        sts = [st]
        if loc == A or loc in (st.g('made') or ()) and st.h.get(loc, ('?',))[0] == 'obj' and self.I.p.derives(st.h[loc][1], ARG):
            cls = st.h[loc][1]
            self.rep.ok('C19.once', self.I.where(node), 'an argument is destroyed once', not dead.get(repr(loc)), st.tr)
            for c in ([cls] if cls != ARG else []) + [ARG]:
                for d in [f for f in self.I.p.funcs.values() if f.get('cls') == c and f['kind'] == 'dtor' and f.get('body')][:1]:
                    sts = [s2 for s in sts for s2, _ in self.I.invoke(s, d, ('ptr', loc), [], node)]
        elif loc == VALIDATOR or loc in (('H', ('newvalid',)),) or is_oth(('F', loc)):
            if not is_oth(('F', loc)):
                self.rep.ok('C19.once', self.I.where(node), 'a validator is destroyed once', not dead.get(repr(loc)), st.tr)
        for s in sts:
            d = dict(s.g('dead') or ())
            if not is_oth(('F', loc)):
                d[repr(loc)] = 1
            s.sg('dead', tuple(sorted(d.items())))
        return sts

    def check_alive(self, st, loc, node):
        d = st.g('dead')
        if not d:
            return
        r = loc
        while r[0] in ('F', 'I') and isinstance(r[1], tuple):
            r = r[1]
        if dict(d).get(repr(r)):
            self.rep.ok('C19.use', self.I.where(node), 'an argument or validator is not used after it was destroyed', False, st.tr)

    # ------------------------------------------------------------ the map of names
    def entry(self, st, x):
        """text, slot of an entry"""
        if x[0] == 'A':
            return name_of_A(x[1]), SLOT_A
        if x[0] == 'N':
            return st.g('ins')[x[1]]
        return whole(('on', x[1])), ('slot', ('oth', ('by', x[1])))

    def position(self, x):
        if x is None:
            return NOTHER + self.m + ROOM
        return Lin(x[1]) if x[0] == 'A' else Lin(self.m + x[1]) if x[0] == 'N' else x[1] + self.m + ROOM

    def where_is(self, st, pos):
        """[(st, entry or None for the end)] of a position"""
        pos = st.c.norm(pos)
        if pos.const and pos.c < self.m:
            return [(st, ('A', pos.c))]
        if pos.const and pos.c < self.m + ROOM:
            return [(st, ('N', pos.c - self.m))]
        x = st.c.norm(pos - self.m - ROOM)
        if not st.c.is_ge(x):
            raise AnalysisError('position in the map of names')
        a, b = self.I.fork_cmp(st, '<', x, NOTHER)
        return ([(a, ('O', x))] if a is not None else []) + ([(b, None)] if b is not None else [])

    def skip(self, st, pos):
        """the first entry at or behind pos -> [(st, pos)]"""
        pos = st.c.norm(pos)
        while pos.const and pos.c < self.m + ROOM:
            x = ('A', pos.c) if pos.c < self.m else ('N', pos.c - self.m)
            if x not in (st.g('gone') or ()) and (x[0] == 'A' or x[1] < len(st.g('ins') or ())) and not st.g('wiped'):
                return [(st, pos)]
            pos = pos + 1
        if st.g('wiped'):
            return [(st, self.position(None))]
        # (removed names of the others are not skipped: more than what can happen)
        return [(st, pos)]

    def find(self, st, key, e):
        """[(st, entry or None)] of a name"""
        I = self.I
        key = snorm(st, key)
        if st.g('wiped') and not st.g('ins'):
            return [(st, None)]
        out = []
        cur = [st]
        for j, (text, slot) in enumerate(st.g('ins') or ()):
            if ('N', j) in (st.g('gone') or ()):
                continue
            nxt = []
            for s in cur:
                eqs, nes = I.str_eq(s, key, text, e)
                out += [(x, ('N', j)) for x in eqs]
                nxt += nes
            cur = nxt
        look = lin.atom_lin(('look', key), 0, self.m + 1)
        mine = key[1][0][1] if len(key[1]) == 1 and key[1][0][0] == 's' else None
        for s0 in cur:
            if s0.g('wiped'):
                out.append((s0, None))
                continue
            for v in range(self.m + (2 if self.others else 1)):
                s = s0.fork()
                c = s.c.add_eq(look - v)
                if c is None:
                    continue
                if mine is not None and mine[0] == 'name' and key == name_of_A(mine[1]) and v != mine[1] + 1:
                    continue
                if mine is not None and mine[0] == 'on' and v != self.m + 1:
                    continue
                s.c = c
                s.sg('looks', tuple(sorted(set(s.g('looks') or ()) | {(key, v)}, key=repr)))
                if v == 0:
                    out.append((s, None))
                elif v <= self.m:
                    if self.fits(s, key, e):
                        out.append((s, None if ('A', v - 1) in (s.g('gone') or ()) else ('A', v - 1)))
                else:
                    q = mine[1] if mine is not None and mine[0] == 'on' else lin.atom_lin(('lookat', key), 0, None)
                    if not I.assume(s, '<', q, NOTHER) or not self.fits(s, key, e):
                        continue
                    nxt = [s]
                    for x in s.g('gone') or ():
                        if x[0] == 'O':
                            cur2 = []
                            for s2 in nxt:
                                a, b = I.fork_cmp(s2, '==', q, x[1])
                                if a is not None:
                                    out.append((a, None))
                                if b is not None:
                                    cur2.append(b)
                            nxt = cur2
                    out += [(s2, ('O', q)) for s2 in nxt]
        return out

    def fits(self, st, key, e):
        """a registered name is well formed"""
        if not self.I.assume(st, '>=', str_len(key), ONE):
            return False
        return True

    def map_method(self, st, n, obj, vs, e, f):
        I = self.I
        if obj != ('ref', MAP):
            raise AnalysisError('another map at %s' % I.where(e))
        it = lambda p: ('it', 'm', MAP, p)
        if n in ('end', 'cend'):
            return [(st, it(self.position(None)))]
        if n in ('begin', 'cbegin'):
            st.sg('walked', True)
            return [(s, it(p)) for s, p in self.skip(st, ZERO)]
        if n in ('find', 'count', 'at', 'operator[]'):
            out = []
            for s, key in I.as_str(st, vs[0], e):
                for s2, x in self.find(s, key, e):
                    if n == 'find':
                        out.append((s2, it(self.position(x))))
                    elif n == 'count':
                        out.append((s2, ZERO if x is None else ONE))
                    elif x is not None:
                        out.append((s2, ('ref', ('F', ('H', ('ent', x)), 'second'))))
                    elif n == 'at':
                        I.std_throw(s2, 'std::out_of_range', e)
                    else:
                        self.insert(s2, key, NULL)
                        out.append((s2, ('ref', ('F', ('H', ('ent', ('N', len(s2.g('ins')) - 1))), 'second'))))
            return out
        if n == 'lower_bound':
            # the name itself, or some other registered name, or the end
            out = []
            for s, key in I.as_str(st, vs[0], e):
                for s2, x in self.find(s, key, e):
                    if x is not None:
                        out.append((s2, it(self.position(x))))
                        continue
                    for y in [None] + [('A', i) for i in range(self.m)] + [('N', j) for j in range(len(s2.g('ins') or ()))]:
                        if y not in (s2.g('gone') or ()) and not (s2.g('wiped') and y and y[0] == 'A'):
                            out.append((s2.fork(), it(self.position(y))))
                    if not s2.g('wiped'):
                        q = lin.atom_lin(('nextname', I.fresh_id('n')), 0, None)
                        if I.assume(s2, '<', q, NOTHER):
                            out.append((s2, it(self.position(('O', q)))))
            return out
        if n in ('insert', 'emplace'):
            x = I.val(st, vs[0], e)
            if isinstance(x, tuple) and x[0] == 'rec' and 'first' in dict(x[2]):
                d = dict(x[2])
                key, p = d['first'], d['second']
            elif len(vs) == 2:
                key, p = x, I.val(st, vs[1], e)
            else:
                raise AnalysisError('map insert at %s' % I.where(e))
            out = []
            for s, t in ([(st, key)] if is_str(key) else I.as_str(st, key, e)):
                for s2, y in self.find(s, t, e):
                    if y is None:
                        self.insert(s2, snorm(s2, t), p)
                    out.append((s2, ('top', 'insert result')))
            return out
        if n == 'erase':
            x = I.val(st, vs[0], e)
            out = []
            if isinstance(x, tuple) and x[0] == 'it':
                if len(vs) > 1:
                    raise AnalysisError('map erase of a range at %s' % I.where(e))
                for s, y in self.where_is(st, x[3]):
                    ok = y is not None and y not in (s.g('gone') or ()) and (y[0] != 'N' or y[1] < len(s.g('ins') or ()))
                    I.oblige(s, 'mem', ok, e, 'only an existing entry of the names is erased')
                    if ok:
                        s.sg('gone', (s.g('gone') or ()) + (y,))
                        out += [(s2, it(p)) for s2, p in self.skip(s, s.c.norm(x[3] + 1))]
                return out
            for s, key in I.as_str(st, vs[0], e):
                for s2, y in self.find(s, key, e):
                    if y is not None:
                        s2.sg('gone', (s2.g('gone') or ()) + (y,))
                    out.append((s2, ZERO if y is None else ONE))
            return out
        if n == 'clear':
            st.sg('wiped', 1)
            st.sg('ins', ())
            st.sg('gone', ())
            return [(st, ZERO)]
        if n in ('size', 'empty') and st.g('wiped'):
            return [(st, ZERO if n == 'size' else ONE)]
        raise AnalysisError('map method %s at %s' % (n, I.where(e)))

    def insert(self, st, key, p):
        ins = st.g('ins') or ()
        if len(ins) >= ROOM:
            raise AnalysisError('too many names')
        slot = p[1][1] if isinstance(p, tuple) and p[0] == 'ptr' and p[1][0] == 'H' else p
        st.sg('ins', ins + ((key, slot),))

    def map_its(self, st):
        return sorted((k for k, v in st.h.items() if k[0] == 'v' and isinstance(v, tuple) and len(v) == 4 and v[:2] == ('it', 'm') and isinstance(v[3], Lin)), key=repr)

    def loop_head(self, st, node, back):
        # an iterator of the names stands at a name of A, at a new one, or among the others
        reg = []
        for k in [k for k in st.h if k[0] == 'F' and k[1][0] == 'H' and isinstance(k[1][1], tuple) and k[1][1] and k[1][1][0] == 'ent' or k[0] == 'H' and isinstance(k[1], tuple) and k[1][0] == 'slot' and is_o(k)]:
            del st.h[k]
        for k in self.map_its(st):
            pos = st.c.norm(st.h[k][3])
            reg.append((k[2], pos.c if pos.const and pos.c < self.m + ROOM else 'O'))
        st.sg('region', tuple(reg))
        return [st]

    def head_facts(self, st):
        out = []
        for k in self.map_its(st):
            pos = st.h[k][3]
            if dict(st.g('region') or ()).get(k[2]) == 'O':
                out += [pos - self.m - ROOM, self.position(None) - pos]
        return out

    def it_eq(self, st, a, b, node):
        raise AnalysisError('iterator comparison')

    def it_deref(self, st, it, node):
        out = []
        for s, x in self.where_is(st, it[3]):
            ok = x is not None and (x[0] == 'O' or x not in (s.g('gone') or ())) and not s.g('wiped')
            self.I.oblige(s, 'mem', ok, node, 'an iterator of the names is dereferenced at an existing entry')
            if ok:
                out.append((s, ('H', ('ent', x))))
        return out

    def it_step(self, st, it, d, node):
        if d != 1:
            raise AnalysisError('map iterated backwards')
        p = st.c.norm(it[3] + 1)
        return [(s, it[:3] + (q,)) for s, q in self.skip(st, p)]


def is_o(loc):
    """(the slot of) another argument"""
    if loc[0] != 'H' or not isinstance(loc[1], tuple) or not loc[1]:
        return False
    n = loc[1]
    if n[0] == 'slot' and isinstance(n[1], tuple):
        n = n[1]
    return n[0] == 'oth'


def in_order(s, but=()):
    d = [x for x in s.g('dirty') or () if x not in but and "'oth'" not in x]
    if d == ['placed']:
        raise AnalysisError('something is put into the middle of a sorted list')
    return not d


class Reg(object):
    """the registry with A"""

    def __init__(self, P, rep, pid, m, role=None, kind=None):
        self.P, self.rep, self.pid, self.m = P, rep, pid, m
        self.env = env = RegEnv(m, rep, pid)
        self.I = env.I = Engine(P, env)
        self.st = st = St()
        st.h[ROOT], st.h[A] = ('obj', ARGS), ('obj', ARG)
        k = K[0]
        st.h[LIST] = ('V', ((('slot', ('oth', ('at', k))), PRE), (SLOT_A, ONE), (('slot', ('oth', ('at', k + PRE + 1))), POST)))
        st.h[MAP] = ('map', 'names')
        st.h[('F', ROOT, NS + 'Usage::args_')] = ('ref', ROOT)
        st.h[('H', SLOT_A)] = ('ptr', A)
        st.h[('F', A, F_ARGS)] = ('ref', ROOT)
        st.h[('F', A, F_THIS)] = ('ptr', ('H', SLOT_A))
        st.h[('F', A, F_NAMES)] = ('V', tuple((name_of_A(i), ONE) for i in range(m)))
        for h, n in ((H_, 'help'), (V_, 'version')):
            st.h[h] = ('ptr', A) if role == n else ('ptr', ('H', ('oth', 'HELP' if n == 'help' else 'VERSION'))) if role == 'other' else NULL
        if kind is not None:
            st.h[('F', A, F_TYPE)] = Lin(enum_vals(P, ARG + '::Type')[kind])
        st.sg('ins', ())
        st.sg('gone', ())
        st.sg('dead', ())
        st.sg('made', ())
        st.sg('dirty', ())
        self.before = {key: self.I.load(st, ('F', A, key)) for key, t in P.fields(ARG) if key != F_ARGS}
        # field values of A are named by now: remember them
        for key, v in self.before.items():
            st.h[('F', A, key)] = v

    def few(self):
        """one other argument in front of A and one behind it"""
        o = lambda n: (('slot', ('oth', n)), ONE)
        self.st.h[LIST] = ('V', (o('before'), (SLOT_A, ONE), o('behind')))

    def names(self, n):
        L = ('H', ('list',))
        self.st.h[L] = ('obj', NS + 'Vector')
        self.st.h[('F', L, '#vec')] = ('V', tuple((whole(('param', i)), ONE) for i in range(n)))
        return ('ref', L)

    def run(self, f, this, args, ctor=False):
        o = run_in(self.I, f, self.st, this, args, ctor=ctor)
        self.rep.take(self.I, self.pid + '.memory')
        self.rep.count('paths', len(o.returns) + len(o.throws))
        return o

    def map_same(self, s):
        return not s.g('ins') and not s.g('gone') and not s.g('wiped') and not s.g('rewired')

    def registry_same(self, s):
        return self.map_same(s) and s.h[LIST] == self.st0_list and s.h[H_] == self.h0 and s.h[V_] == self.v0

    def freeze(self):
        self.st0_list, self.h0, self.v0 = self.st.h[LIST], self.st.h[H_], self.st.h[V_]

    def a_same(self, s, but=()):
        """the fields of A that changed"""
        out = []
        for key, v in self.before.items():
            if key in but:
                continue
            if not self.val_same(s, self.I.load(s, ('F', A, key)), v):
                out.append(key.split('::')[-1])
        return out

    def val_same(self, s, a, b):
        if a == b:
            return True
        if isinstance(a, Lin) and isinstance(b, Lin):
            return s.c.is_eq(a, b)
        if is_str(a) and is_str(b):
            return same(s, a, b)
        if is_vec(a) and is_vec(b):
            return same(s, fold_vec(s, a), fold_vec(s, b))
        if isinstance(b, tuple) and b[0] == 'optr':
            nl = s.h.get(('NUL', b[1]))
            return nl == 0 and a == NULL or nl == 1 and a == ('ptr', ('H', b[1]))
        return False


# ---------------------------------------------------------------- well-formed names
class Text(object):
    """what is known about the characters of a text (the one behind the last is NUL)"""

    def __init__(self, st, key):
        self.c, self.key = st.c, key
        self.n = st.c.norm(str_len(key))
        p = self.key[1]
        self.base = p[0] if len(p) == 1 and p[0][0] == 's' else None

    def at(self, i):
        if self.base is None:
            raise AnalysisError('form of a composed text')
        return ch(self.base[1], self.c.norm(self.base[2] + i))

    def ends(self, i):
        """is the text i characters long, given that it is no shorter?"""
        if self.c.is_ge(self.n - i - 1) or self.c.is_ne(self.at(i)):
            return False
        if self.c.is_ge(Lin(i) - self.n) or self.c.is_eq(self.at(i)):
            return True
        return None

    def dash(self, i):
        x = self.at(i) - 45
        return True if self.c.is_eq(x) else False if self.c.is_ne(x) or self.c.is_eq(self.at(i)) or self.c.is_ge(Lin(i) - self.n) else None


def either(form):
    def f(env, st, key):
        r = form(env, st, key)
        return form(env, st, snorm(st, key)) if r is None and len(snorm(st, key)[1]) == 1 and snorm(st, key)[1][0][0] == 's' else r
    return f


@either
def flag_form(env, st, key):
    """is the text a well-formed flag? True / False / None"""
    t = Text(st, key)
    if t.dash(0) is False:
        return False
    if t.dash(0) is None:
        return None
    e1 = t.ends(1)
    if e1 is not False:
        return None if e1 is None else False
    d, e2 = t.dash(1), t.ends(2)
    if d is None or e2 is None:
        return None
    return d != e2


@either
def positional_form(env, st, key):
    t = Text(st, key)
    e0 = t.ends(0)
    if e0 is not False:
        return None if e0 is None else False
    return None if t.dash(0) is None else not t.dash(0)


def equal(I, s, a, b):
    return same(s, a, b) or not I.str_eq(s.fork(), a, b, {'l': '', '#': 0})[1]


def looked(st, key, must=False):
    """what is known about a name: None unknown, 0 free, i > 0 registered"""
    v = st.c.norm(lin.atom_lin(('look', snorm(st, key)), 0, None))
    if not v.const and must and st.g('walked'):
        raise AnalysisError('a name is searched by a walk over the names')
    return v.c if v.const else None


def exc_name(x, cls=NS + 'ArgumentException'):
    return dict(x[2][2]).get(cls + '::argument_') if isinstance(x[2], tuple) and x[2][0] == 'rec' else None


# ---------------------------------------------------------------- addArgument and flag
def c16_add(P, rep, n):
    R = Reg(P, rep, 'C16', 2)
    f = member(P, ARGS, 'addArgument')
    R.freeze()
    keys = [whole(('param', i)) for i in range(n)]
    o = R.run(f, ('ptr', ROOT), [R.names(n)])
    rep.count('ways to register')
    w = f['defloc']
    I, env = R.I, R.env
    nm = 'addArgument with %d name(s)' % n
    for x in o.exits:
        rep.violation('C16.exception', I.where(x[3]), '%s ends the process' % nm)
    for s, r in o.returns:
        ob = lambda rid, msg, ok: rep.ok(rid, w, '%s: %s' % (nm, msg), ok, s.tr)
        made = s.g('made') or ()
        new = r[1] if isinstance(r, tuple) and r[0] == 'ref' else None
        ob('C16.result', 'the new argument is returned', new in made)
        if new not in made:
            continue
        pos = n == 1 and positional_form(env, s, keys[0]) is True
        ob('C16.form', 'only well-formed names are accepted', pos or n > 0 and all(flag_form(env, s, k) is True for k in keys))
        ob('C16.free', 'only names not in use are accepted', all(looked(s, k, True) == 0 for k in keys))
        kind = I.load(s, ('F', new, F_TYPE))
        kinds = enum_vals(P, ARG + '::Type')
        ob('C16.kind', 'a single name makes a positional argument, flags an option', s.c.is_eq(kind - kinds['POSITIONAL_ARGUMENT']) if pos else any(s.c.is_eq(kind - v) for q, v in kinds.items() if q not in POSITIONAL and q != 'NONE'))
        ins = s.g('ins') or ()
        ob('C16.resolve', 'every name resolves to the new argument, and no other name changes its meaning', not s.g('gone') and not s.g('wiped') and not s.g('rewired') and all(any(equal(I, s, t, k) for t, _ in ins) for k in keys) and all(any(equal(I, s, t, k) for k in keys) and s.h.get(('H', sl)) == ('ptr', new) for t, sl in ins))
        names = I.load(s, ('F', new, F_NAMES))
        ts = [t for t, c in names[1]] if is_vec(names) and all(c == ONE for _, c in names[1]) else None
        ok = ts is not None and all(any(equal(I, s, t, k) for t in ts) for k in keys) and all(any(equal(I, s, t, k) for k in keys) for t in ts)
        ob('C16.names', 'the argument lists every name', ok)
        if ok:
            once = all(not I.str_eq(s.fork(), ts[i], ts[j], {'l': w, '#': 0})[0] for i in range(len(ts)) for j in range(i))
            ob('C16.names', 'the argument lists every name once', once)
        ob('C16.listed', 'the argument is listed once, behind the others before sorting', is_vec(s.h[LIST]) and s.h[LIST][1][:-1] == R.st0_list[1] and s.h[LIST][1][-1][1] == ONE and s.h.get(('H', s.h[LIST][1][-1][0])) == ('ptr', new))
        th = I.load(s, ('F', new, F_THIS))
        ob('C16.listed', 'the argument knows its place in the list', isinstance(th, tuple) and th[0] == 'ptr' and th[1] == ('H', s.h[LIST][1][-1][0]))
        ob('C16.frame', 'other arguments and the help and version options are unchanged', not R.a_same(s) and s.h[H_] == R.h0 and s.h[V_] == R.v0)
        ob('C19.leak', 'exactly the new argument was created', len(made) == 1 and not s.g('dead'))
        ob('C36.sorted', 'arguments and flags are in order afterwards', in_order(s))
    for s, x, node in o.throws:
        why = lambda k: flag_form(env, s, k) is False and (n > 1 or positional_form(env, s, k) is False) or looked(s, k, True)
        refused(R, s, x, node, nm, keys, n == 0 or any(why(k) for k in keys), why)


def refused(R, s, x, node, nm, keys, reason, why=None):
    P, rep = R.P, R.rep
    w = R.I.where(node)
    ob = lambda rid, msg, ok: rep.ok(rid, w, '%s: %s' % (nm, msg), ok, s.tr)
    ob('%s.exception' % R.pid, 'a refusal is an ArgumentException', x[1] == CONF_EXC or P.derives(x[1], CONF_EXC))
    ob('C23.type', 'a refusal is an ArgumentException', x[1] == CONF_EXC)
    ob('%s.reject' % R.pid, 'refused only for a reason', bool(reason))
    ob('%s.unchanged' % R.pid, 'a refused call registers and removes nothing', R.registry_same(s) and not R.a_same(s))
    dead = dict(s.g('dead') or ())
    ob('C19.leak', 'a refused call leaks and destroys nothing', all(dead.get(repr(l)) for l in s.g('made') or ()) and repr(A) not in dead and repr(VALIDATOR) not in dead)
    ob('C36.sorted', 'arguments and flags are in order afterwards', in_order(s))
    name = exc_name(x)
    if keys:
        bad = [k for k in keys if why is None or why(k)]
        ob('C23.name', 'the refusal names the refused one of the given names', is_str(name) and (any(same(s, name, k) for k in bad) or str_len(name) == ZERO and any(s.c.is_eq(str_len(k)) for k in bad)))


def c16_flag(P, rep, kind):
    R = Reg(P, rep, 'C16', 2, kind=kind)
    f = member(P, ARG, 'flag')
    R.freeze()
    key = whole(('param', 0))
    o = R.run(f, ('ptr', A), [('cp', key, ZERO, ('ext', 'flag'))])
    rep.count('ways to register')
    w = f['defloc']
    I, env = R.I, R.env
    nm = 'flag() on %s' % kind
    for x in o.exits:
        rep.violation('C16.exception', I.where(x[3]), '%s ends the process' % nm)
    for s, r in o.returns:
        ob = lambda rid, msg, ok: rep.ok(rid, w, '%s: %s' % (nm, msg), ok, s.tr)
        ob('C16.result', 'the argument is returned', r == ('ref', A))
        ob('C16.kind', 'only options get flags', kind not in POSITIONAL)
        ob('C16.form', 'only well-formed flags are accepted', flag_form(env, s, key) is True)
        ob('C16.free', 'only flags not in use are accepted', looked(s, key, True) == 0)
        ins = s.g('ins') or ()
        ob('C16.resolve', 'the flag resolves to the argument, and no other name changes its meaning', not s.g('gone') and not s.g('wiped') and not s.g('rewired') and len(ins) == 1 and same(s, ins[0][0], key) and ins[0][1] == SLOT_A)
        names = I.load(s, ('F', A, F_NAMES))
        want = [name_of_A(0), name_of_A(1), key]
        ts = [t for t, c in names[1]] if is_vec(names) and all(c == ONE for _, c in names[1]) else []
        ob('C16.names', 'the argument lists its old names and the flag', len(ts) == 3 and all(any(same(s, t, k) for t in ts) for k in want))
        ob('C16.frame', 'nothing else changes', not R.a_same(s, (F_NAMES,)) and s.h[H_] == R.h0 and s.h[V_] == R.v0 and s.h[LIST] == R.st0_list)
        ob('C36.sorted', 'arguments and flags are in order afterwards', in_order(s))
    for s, x, node in o.throws:
        refused(R, s, x, node, nm, [key], kind in POSITIONAL or flag_form(env, s, key) is False or looked(s, key, True))


def c36_required(P, rep, kind):
    R = Reg(P, rep, 'C36', 2, kind=kind)
    f = member(P, ARG, 'required')
    R.freeze()
    o = R.run(f, ('ptr', A), [lin.sym('required', 0, 1)])
    for s, r in o.returns:
        ob = lambda rid, msg, ok: rep.ok(rid, f['defloc'], 'required() on %s: %s' % (kind, msg), ok, s.tr)
        ob('C36.sorted', 'arguments and flags are in order afterwards', in_order(s))
        ob('C36.value', 'the mark is set as given', s.c.is_eq(R.I.load(s, ('F', A, F_REQ)) - lin.sym('required', 0, 1)) and not R.a_same(s, (F_REQ,)) and r == ('ref', A) and R.registry_same(s))


# ---------------------------------------------------------------- removeArguments
def c17(P, rep, m, n, role, others):
    R = Reg(P, rep, 'C17', m, role)
    R.env.others = others
    f = member(P, ARGS, 'removeArguments')
    R.freeze()
    keys = [whole(('param', i)) for i in range(n)]
    o = R.run(f, ('ptr', ROOT), [R.names(n)])
    rep.count('removals')
    w = f['defloc']
    I, env = R.I, R.env
    nm = 'removeArguments of %d name(s), argument with %d name(s)%s' % (n, m, ', %s option' % role if role else '')
    for x in o.exits:
        rep.violation('C17.exception', I.where(x[3]), '%s ends the process' % nm)
    for s, r in o.returns:
        ob = lambda rid, msg, ok: rep.ok(rid, w, '%s: %s' % (nm, msg), ok, s.tr)
        look = [looked(s, k, True) for k in keys]
        ob('C17.known', 'returns only if every name is registered', n > 0 and all(look))
        if not all(look):
            continue
        mine = set(v - 1 for v in look if v <= m)
        gone = s.g('gone') or ()
        ob('C17.names', 'exactly the given names of the argument are removed', set(x[1] for x in gone if x[0] == 'A') == mine and not s.g('ins') and not s.g('wiped') and not s.g('rewired'))
        qs = [lin.atom_lin(('lookat', k), 0, None) for k, v in zip(keys, look) if v == m + 1]
        og = [x[1] for x in gone if x[0] == 'O']
        ob('C17.others', 'exactly the given names of other arguments are removed', all(any(s.c.is_eq(q, g) for g in og) for q in qs) and all(any(s.c.is_eq(q, g) for q in qs) for g in og))
        dead = dict(s.g('dead') or ())
        listed = sum(1 for t, c in s.h[LIST][1] if t == SLOT_A) if is_vec(s.h[LIST]) else None
        if len(mine) == m:
            ob('C17.removed', 'an argument without names is no longer listed', listed == 0)
            ob('C17.role', 'a removed argument is not the help or version option', s.h[H_] != ('ptr', A) and s.h[V_] != ('ptr', A))
            released(R, s, ob, 'removal')
            if role == 'other' and not qs:
                ob('C17.role', 'another help or version option stays it', s.h[H_] == R.h0 and s.h[V_] == R.v0)
        else:
            ob('C17.kept', 'an argument with a name left is kept', listed == 1 and not dead.get(repr(A)) and s.h.get(('H', SLOT_A)) == ('ptr', A))
            untouched(R, s, ob, 'removal of a part of the names')
            if role in ('help', 'version'):
                ob('C17.role', 'a kept help or version option stays it', s.h[H_] == R.h0 and s.h[V_] == R.v0)
            names = I.load(s, ('F', A, F_NAMES))
            want = [name_of_A(i) for i in range(m) if i not in mine]
            ts = [t for t, c in names[1]] if is_vec(names) and all(c == ONE for _, c in names[1]) else None
            ob('C17.listed', 'the argument lists the names left', ts is not None and sorted(map(repr, ts)) == sorted(map(repr, want)))
            ob('C17.frame', 'nothing else of the argument changes', not R.a_same(s, (F_NAMES,)))
        ob('C36.sorted', 'arguments and flags are in order afterwards', in_order(s, () if len(mine) < m else (repr(A),)))
    for s, x, node in o.throws:
        refused(R, s, x, node, nm, keys, n == 0 or any(looked(s, k, True) == 0 for k in keys), lambda k: looked(s, k, True) == 0)


# ---------------------------------------------------------------- destruction and ownership
def truth(s, v):
    return True if s.c.is_eq(v - 1) else False if s.c.is_eq(v) else None


def owned(R, s, valid, own):
    """does the argument own a validator (None: not known on this path)?"""
    if valid == NULL:
        return False
    if isinstance(valid, tuple) and valid[0] == 'optr':
        nl = s.h.get(('NUL', valid[1]))
        o = truth(s, own)
        return False if nl == 0 or o is False else True if nl == 1 and o else None
    return truth(s, own)


def released(R, s, ob, what):
    """A and its validator after A was destroyed"""
    dead = dict(s.g('dead') or ())
    ob('C19.released', what + ' destroys the argument', bool(dead.get(repr(A))))
    o = owned(R, s, R.before[F_VALID], R.before[F_OWN])
    v = bool(dead.get(repr(VALIDATOR)))
    ob('C19.validator', what + ' destroys a validator exactly if the argument owns one', o is not None and o == v)


def untouched(R, s, ob, what):
    dead = dict(s.g('dead') or ())
    ob('C19.kept', what + ' destroys neither the argument nor its validator', not dead.get(repr(A)) and not dead.get(repr(VALIDATOR)))


def ctor_of(P, cls, n, copy=False):
    fs = [f for f in P.funcs.values() if f.get('cls') == cls and f['kind'] == 'ctor' and f.get('body') and len(f['params']) == n and (n == 0 or ('const ' + cls in f['params'][0]['t']) == copy)]
    if len(fs) != 1:
        raise AnalysisError('anchor lost: constructor of %s (%d found)' % (cls, len(fs)))
    return fs[0]


def c19_end(P, rep, role, few=False):
    """~Args"""
    R = Reg(P, rep, 'C19', 2, role)
    if few:
        R.few()
    f = [x for x in P.funcs.values() if x.get('cls') == ARGS and x['kind'] == 'dtor' and x.get('body')]
    if not f:
        raise AnalysisError('anchor lost: destructor of Args')
    o = R.run(f[0], ('ptr', ROOT), [])
    rep.count('ways to release')
    for s, r in o.returns:
        released(R, s, lambda rid, msg, ok: rep.ok(rid, f[0]['defloc'], msg, ok, s.tr), 'the end of the Args object')


def c19_arg(P, rep):
    """~Argument, and the copy constructor"""
    R = Reg(P, rep, 'C19', 2)
    f = [x for x in P.funcs.values() if x.get('cls') == ARG and x['kind'] == 'dtor' and x.get('body')]
    s0 = R.st.fork()
    s0.h[('H', SLOT_A)] = ('ptr', A)
    for s in R.env.on_delete(s0, A, {'l': f[0]['defloc'] if f else '', '#': 0}):
        released(R, s, lambda rid, msg, ok: rep.ok(rid, f[0]['defloc'] if f else '', msg, ok, s.tr), 'deleting an argument')
    c = ctor_of(P, ARG, 1, True)
    C = ('H', ('copy',))
    R.st.h[C] = ('obj', ARG)
    rep.count('ways to release')
    o = run_in(R.I, c, R.st, ('ptr', C), [('ref', A)], ctor=True)
    for s, r in o.returns:
        ob = lambda rid, msg, ok: rep.ok(rid, c['defloc'], msg, ok, s.tr)
        untouched(R, s, ob, 'copying an argument')
        ob('C19.frame', 'copying an argument leaves it unchanged', not R.a_same(s) and s.h.get(('H', SLOT_A)) == ('ptr', A))
        s.sg('made', (C,))
        for s2 in R.env.on_delete(s, C, {'l': c['defloc'], '#': 0}):
            ob2 = lambda rid, msg, ok: rep.ok(rid, c['defloc'], msg, ok, s2.tr)
            untouched(R, s2, ob2, 'the end of a copy')
            ob2('C19.copy', 'the end of a copy leaves the registry alone', s2.h.get(('H', SLOT_A)) == ('ptr', A) and s2.h[H_] == NULL and s2.h[V_] == NULL)
    rep.take(R.I, 'C19.memory')


def c19_valid(P, rep, new):
    """valid(p, deletable)"""
    R = Reg(P, rep, 'C19', 2)
    f = member(P, ARG, 'valid')
    own = lin.sym('deletable', 0, 1)
    old = R.before[F_VALID]
    N = ('ptr', ('H', ('newvalid',)))
    if new == 'same':
        R.st.h[('NUL', old[1])] = 1
        N = ('ptr', VALIDATOR) if VALIDATOR[1] == old[1] else old
    elif new == 'null':
        N = NULL
    o = R.run(f, ('ptr', A), [N, own])
    rep.count('ways to release')
    nm = 'valid() with %s' % {'new': 'another validator', 'same': 'the same validator', 'null': 'NULL'}[new]
    for s, r in o.returns:
        ob = lambda rid, msg, ok: rep.ok(rid, f['defloc'], '%s %s' % (nm, msg), ok, s.tr)
        dead = dict(s.g('dead') or ())
        v = I_load(R, s, F_VALID)
        if new == 'same':
            ob('C19.kept', 'destroys nothing', not dead)
            ob('C19.set', 'keeps the validator', v in (N, old))
        else:
            ow = owned(R, s, old, R.before[F_OWN])
            ob('C19.validator', 'destroys the previous validator exactly if it was owned', ow is not None and ow == bool(dead.get(repr(VALIDATOR))) and not dead.get(repr(('H', ('newvalid',)))))
            ob('C19.set', 'sets the validator', v == N)
        if new != 'null':
            ob('C19.set', 'owns the validator exactly if it is deletable', s.c.is_eq(I_load(R, s, F_OWN) - own))
        ob('C19.frame', 'leaves the rest of the argument unchanged', r == ('ref', A) and not R.a_same(s, (F_VALID, F_OWN)) and R.map_same(s))


def I_load(R, s, key, obj=A):
    return R.I.load(s, ('F', obj, key))


def c19_sites(P, rep):
    """destruction happens only in the analysed entry points"""
    G = calls(P)
    sites = {}
    for f in P.funcs.values():
        if f.get('body') and not f['qn'].startswith('verif_client'):
            ds = [e for e in nodes(f['body']) if e.get('k') == 'Delete']
            if ds:
                sites[f['id']] = ds
    known = {'~Args', 'clear', 'removeArguments', 'addArgument', 'valid', 'dest', '~Argument'}
    for f in P.funcs.values():
        if f.get('cls') in (ARGS, ARG) and f.get('access') in ('public', None) and f.get('body') and f['n'] not in known and f['kind'] not in ('ctor', 'dtor'):
            cut = set(g['id'] for g in P.funcs.values() if g.get('cls') in (ARGS, ARG) and g['n'] in ('clear', 'addArgument', 'removeArguments', 'valid', 'dest') and g.get('access') == 'public' and g is not f)
            seen, todo = set(), [f['id']]
            while todo:
                x = todo.pop()
                if x not in seen and x not in cut:
                    seen.add(x)
                    todo += G.get(x, ())
            bad = [d for x in sorted(seen) for d in sites.get(x, ())]
            rep.ok('C19.sites', short(f['defloc']), '%s does not destroy arguments or validators itself' % f['qn'], not bad, tuple(short(b.get('l', '')) for b in bad))
    rep.count('delete expressions', sum(len(x) for x in sites.values()))


def nodes(e):
    if isinstance(e, dict):
        yield e
        for v in e.values():
            for x in nodes(v):
                yield x
    elif isinstance(e, list):
        for v in e:
            for x in nodes(v):
                yield x


def calls(P):
    G = {}
    for f in P.funcs.values():
        if f.get('body'):
            G[f['id']] = set(e['f'] for e in nodes([f.get('body'), f.get('inits')]) if isinstance(e.get('f'), str) and e['f'] in P.funcs)
    return G


# ---------------------------------------------------------------- clear() and the constructor
def c18(P, rep, role, few=False):
    R = Reg(P, rep, 'C18', 2, role)
    if few:
        R.few()
    f = member(P, ARGS, 'clear')
    for key, t in P.fields(ARGS):
        R.st.h.setdefault(('F', ROOT, key), R.I.load(R.st, ('F', ROOT, key)))
    o = R.run(f, ('ptr', ROOT), [])
    F = Reg(P, rep, 'C18', 0)
    c = ctor_of(P, ARGS, 0)
    for k in [k for k in F.st.h if k[0] == 'F' and k[1] == ROOT]:
        del F.st.h[k]
    fo = F.run(c, ('ptr', ROOT), [], ctor=True)
    if len(fo.returns) != 1:
        raise AnalysisError('constructor of Args: %d ends' % len(fo.returns))
    fs, _ = fo.returns[0]
    w = f['defloc']
    for s, x, node in o.throws:
        rep.violation('C18.throw', R.I.where(node), 'clear() throws')
    for s, r in o.returns:
        ob = lambda rid, msg, ok: rep.ok(rid, w, msg, ok, s.tr)
        for key, t in P.fields(ARGS):
            loc = ('F', ROOT, key)
            a, b = R.I.load(s, loc), F.I.load(fs, loc)
            rep.count('members compared')
            if loc == MAP:
                ok = bool(s.g('wiped')) and all(('N', j) in (s.g('gone') or ()) for j in range(len(s.g('ins') or ())))
            else:
                ok = fresh_same(a, b) or R.val_same(s, a, b)
            ob('C18.member', 'after clear() %s is as in a new object' % key, ok)
        released(R, s, ob, 'clear()')


def fresh_same(a, b):
    return a == b


# ---------------------------------------------------------------- dest()
def c20(P, rep, fid, role, custom):
    R = Reg(P, rep, 'C20', 2, role)
    f = P.funcs[fid]
    D = ('H', ('target',))
    fn = ('ofn', 'custom') if custom else NULL
    h0, v0 = R.st.h[H_], R.st.h[V_]
    R.freeze()
    o = R.run(f, ('ptr', A), [('ref', D), fn])
    rep.count('destinations')
    w = f['defloc']
    nm = 'dest(%s)%s' % (f['params'][0]['t'].replace('std::basic_string<char>', 'std::string'), ', %s option' % role if role else '')
    for s, x, node in o.throws:
        rep.violation('C20.throw', R.I.where(node), '%s throws' % nm)
    for s, r in o.returns:
        ob = lambda rid, msg, ok: rep.ok(rid, w, '%s: %s' % (nm, msg), ok, s.tr)
        made = s.g('made') or ()
        dead = dict(s.g('dead') or ())
        slot = s.h.get(('H', SLOT_A))
        ob('C20.result', 'the returned argument is the one look-ups return', isinstance(r, tuple) and r[0] == 'ref' and slot == ('ptr', r[1]) and (r[1] == A or r[1] in made) and not dead.get(repr(r[1])))
        if not (isinstance(r, tuple) and r[0] == 'ref' and (r[1] == A or r[1] in made)):
            continue
        new = r[1]
        for key, v in R.before.items():
            if key in (F_VALID, F_OWN):
                continue
            a = R.I.load(s, ('F', new, key))
            ob('C20.state', '%s is unchanged' % key.split('::')[-1], R.val_same(s, a, v))
        cls = s.h.get(new, ('?', ARG))[1]
        own = [R.I.load(s, ('F', new, k)) for k, _ in P.fields(cls) if k not in R.before and k != F_ARGS] if cls in P.records else []
        ob('C20.target', 'the given object is the destination', ('ref', D) in own or ('ptr', D) in own)
        if custom:
            ob('C20.target', 'the given function is used', fn in own)
        ob('C20.valid', 'the validator is unchanged', R.val_same(s, I_load(R, s, F_VALID, new), R.before[F_VALID]))
        ob('C20.valid', 'the ownership of the validator is unchanged', s.c.is_eq(I_load(R, s, F_OWN, new) - R.before[F_OWN]) or owned(R, s, R.before[F_VALID], R.before[F_OWN]) is False)
        sub = lambda x: ('ptr', new) if x == ('ptr', A) else x
        ob('C20.role', 'it is help or version option as before', s.h[H_] == sub(h0) and s.h[V_] == sub(v0))
        ob('C20.registry', 'no name and no other argument changes', R.map_same(s) and s.h[LIST] == R.st0_list)
        ob('C19.replaced', 'the replaced argument is destroyed, the new one is not', bool(dead.get(repr(A))) == (new != A) and all(dead.get(repr(l)) for l in made if l != new))
        ob('C19.kept', 'dest() destroys no validator', not dead.get(repr(VALIDATOR)))
        ob('C36.sorted', 'arguments and flags are in order afterwards', in_order(s))


# ---------------------------------------------------------------- look-ups
def c28(P, rep, n, rt):
    R = Reg(P, rep, 'C28', 2)
    f = member(P, ARGS, n, rt)
    key = whole(('param', 0))
    R.st.h[('H', ('key',))] = key
    R.freeze()
    o = R.run(f, ('ptr', ROOT), [('ref', ('H', ('key',)))])
    rep.count('look-ups')
    w = f['defloc']
    bool_ = n == 'argumentExists'
    for x in o.exits:
        rep.violation('C28.exception', R.I.where(x[3]), '%s ends the process' % n)
    for s, r in o.returns:
        ob = lambda rid, msg, ok: rep.ok(rid, w, '%s: %s' % (n, msg), ok, s.tr)
        v = looked(s, key, True)
        if bool_:
            ob('C28.result', 'true exactly for registered names', v is not None and isinstance(r, Lin) and truth(s, r) == (v > 0))
        else:
            t = R.I.load(s, ('H', ('slot', ('oth', ('by', lin.atom_lin(('lookat', key), 0, None)))))) if v == R.m + 1 else ('ptr', A)
            ob('C28.result', 'the argument registered under the name is returned', bool(v) and isinstance(r, tuple) and r[0] == 'ref' and ('ptr', r[1]) == t)
        ob('C28.pure', 'a look-up registers, removes and changes nothing', R.registry_same(s) and not R.a_same(s) and not s.g('made') and not s.g('dead'))
    for s, x, node in o.throws:
        ob = lambda rid, msg, ok: rep.ok(rid, R.I.where(node), '%s: %s' % (n, msg), ok, s.tr)
        ob('C23.type', 'an unknown name is refused with AccessDeniedException', x[1] == ACCESS_EXC)
        ob('C28.refuse', 'an unknown name is refused with AccessDeniedException', not bool_ and x[1] == ACCESS_EXC and looked(s, key, True) == 0)
        ob('C28.pure', 'a refused look-up registers, removes and changes nothing', R.registry_same(s) and not R.a_same(s) and not s.g('made') and not s.g('dead'))
        nm = exc_name(x)
        ob('C23.name', 'the refusal names the name', is_str(nm) and same(s, nm, key))


def c28_types(P, rep):
    """compile-time witnesses"""
    import subprocess
    src = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'client', 'witness.cpp')
    lines = open(src).read().split('\n')
    claims = {i + 1: l.split('"')[1] for i, l in enumerate(lines) if l.strip().startswith('static_assert(')}
    r = subprocess.run(['clang++', '-std=gnu++17', '-fsyntax-only', '-ferror-limit=0', '-fno-color-diagnostics', '-I', os.path.join(REPO, 'include'), src], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    bad = {}
    for l in r.stdout.split('\n'):
        if ' error: ' in l:
            p = l.split(':')
            if 'witness.cpp' not in p[0] or int(p[1]) not in claims or 'static assertion failed' not in l:
                rep.error('witness: ' + l[:200])
            else:
                bad[int(p[1])] = l
    if r.returncode and not bad and not rep.errors:
        rep.error('witness: clang++ failed')
    for i, text in sorted(claims.items()):
        rep.count('compile-time witnesses')
        rep.ok('C28.types', 'include/blet/args/args.h', text, i not in bad, ())


RULES = {
    'C16.form': 'addArgument and flag return normally only for well-formed names', 'C16.free': 'addArgument and flag return normally only for names not in use',
    'C16.reject': 'a refusal has a reason: an ill-formed name, a name in use, an empty list, or a flag for a positional argument',
    'C16.unchanged': 'a refused call leaves every name, argument and role as it was', 'C16.resolve': 'every given name resolves to the argument and no other name changes its meaning',
    'C16.names': 'the argument lists every given name once', 'C16.listed': 'the new argument is listed once and knows its place', 'C16.kind': 'a positional name makes a positional argument, flags an option',
    'C16.frame': 'nothing else changes', 'C16.result': 'the argument is returned', 'C16.exception': 'refusals are ArgumentExceptions', 'C16.memory': 'no invalid access',
    'C17.known': 'removal succeeds only if every name is registered', 'C17.names': 'exactly the given names are removed', 'C17.others': 'exactly the given names of other arguments are removed',
    'C17.removed': 'an argument that lost its last name is not listed', 'C17.kept': 'an argument with a name left stays registered', 'C17.listed': 'it lists exactly the names left',
    'C17.role': 'the help and version roles end exactly with the removal of their argument', 'C17.frame': 'nothing else of a kept argument changes', 'C17.reject': 'a refusal has a reason',
    'C17.unchanged': 'a refused removal removes nothing', 'C17.exception': 'refusals are ArgumentExceptions', 'C17.memory': 'no invalid access or iterator',
    'C18.member': 'every data member has the value the constructor gives it', 'C18.throw': 'clear() does not throw', 'C18.memory': 'no invalid access',
    'C19.once': 'no argument or validator is destroyed twice', 'C19.use': 'none is used after it was destroyed', 'C19.released': 'removal, clear() and the end of Args destroy the argument',
    'C19.validator': 'a validator is destroyed exactly when it is owned and its argument ends or gets another one', 'C19.kept': 'copies, dest() and partial removal destroy no validator',
    'C19.copy': 'the end of a copy has no effect on the registry', 'C19.set': 'valid() sets validator and ownership', 'C19.frame': 'nothing else changes', 'C19.leak': 'refused calls leak nothing',
    'C19.replaced': 'dest() destroys the replaced argument', 'C19.sites': 'no other public function reaches a delete expression except through the analysed ones', 'C19.memory': 'no invalid access',
    'C20.result': 'dest() returns the argument look-ups return', 'C20.state': 'every data member is unchanged', 'C20.valid': 'validator and ownership are unchanged', 'C20.role': 'help and version roles follow the argument',
    'C20.registry': 'no name and no other argument changes', 'C20.throw': 'dest() does not throw', 'C20.target': 'the given object is the destination', 'C20.memory': 'no invalid access',
    'C28.result': 'a look-up reaches exactly the registered argument', 'C28.refuse': 'an unknown name is refused with AccessDeniedException', 'C28.pure': 'a look-up changes nothing',
    'C28.types': 'copies, assignments and writing through read access do not compile', 'C28.exception': 'a look-up does not end the process', 'C28.memory': 'no invalid access',
    'C36.sorted': 'the list of arguments and the flags of every changed argument are sorted when the call ends', 'C36.flags': 'flags are sorted before the arguments are', 'C36.value': 'required() sets the mark and nothing else', 'C36.memory': 'no invalid access',
}
_REG = 'name lists of up to 3 (thorough: 4) names; the tracked argument has 2 names (removal: 1 to 3); names are NUL-free; other arguments and names are unknown and any number'
ASSUME = {'C16': [_REG], 'C17': [_REG, 'up to 2 of the given names belong to other arguments'], 'C18': ['allocation does not fail'],
          'C19': [_REG, 'allocation does not fail; validators do not throw when destroyed; a validator is handed to one argument only'],
          'C20': ['allocation does not fail; destination types are the 33 instantiated in client/client.cpp'], 'C28': ['names are NUL-free'], 'C36': [_REG, 'the order itself is decided under C21']}
NEED = {'C16': {'ways to register': 15}, 'C17': {'removals': 40}, 'C18': {'members compared': 40}, 'C19': {'ways to release': 8, 'destinations': 60, 'delete expressions': 5},
        'C20': {'destinations': 60}, 'C28': {'look-ups': 4, 'compile-time witnesses': 25}, 'C36': {'ways to register': 15, 'removals': 40, 'destinations': 60}}


def tasks(pid, thorough, P):
    N = 4 if thorough else 3
    add = [(c16_add, n) for n in range(N + 1)]
    flag = [(c16_flag, k) for k in TYPES]
    roles = (None, 'help', 'version', 'other')
    rem = [(c17, m, n, r, False) for m in (1, 2, 3) for n in range(N + 1) for r in roles] + [(c17, m, n, r, True) for m in (1, 2) for n in (1, 2) for r in (roles if thorough or n == 1 else (None, 'other'))]
    rem += [(c17, 3, 2, r, True) for r in (roles if thorough else ())]
    dests = [f for f in sorted(P.funcs.values(), key=lambda f: f['id']) if f.get('cls') == ARG and f['n'] == 'dest' and f.get('body')]
    dest = [(c20, f['id'], r, c) for f in dests for r in roles[:3] + (('other',) if thorough else ()) for c in (False, True)]
    look = [(c28, n, None) for n in ('argumentExists', 'getArgument', 'operator[]', 'updateArgument')]
    end = [(c19_end, r, few) for r in roles for few in (False, True)]
    clr = [(c18, r, few) for r in roles for few in (False, True)]
    return {'C16': add + flag, 'C17': rem, 'C36': add + flag + rem + dest + [(c36_required, k) for k in TYPES],
            'C18': clr, 'C19': end + [(c19_arg,), (c19_sites,)] + [(c19_valid, n) for n in ('new', 'same', 'null')] + clr + add + flag + rem + dest,
            'C20': dest, 'C23': add + flag + rem + look, 'C28': look + [(c28_types,)]}[pid]


def check(pid, rep):
    P = load()
    ts = tasks(pid, os.environ.get('VERIF_TIER') == 'thorough', P)
    for i, r, err in jobs.run(lambda t: attempt(pid, '%s%s' % (t[0].__name__, t[1:]), lambda r: t[0](P, r, *t[1:])), ts, time.time() + 600):
        if err:
            rep.error('%s%s: %s' % (i[0].__name__, i[1:], err))
            continue
        rep.merge(r)
        if not r.errors:
            rep.partial += 1
    if not rep.errors:
        for k, n in NEED.get(pid, {}).items():
            rep.need(k, n)
    for rid, text in RULES.items():
        if rid.startswith(pid + '.'):
            rep.rule(rid, text)
