"""C01-C11, C13, C14, C33: parseArguments.

One arbitrary argument A of the object is kept precisely (one scenario per kind of argument); every other
argument is only known to be some other argument.  The loop over the command line is cut at its head: the
environment compares what one round did to A with what the current token allows ("settle"), then forgets the
round ("canon").  What holds for an arbitrary A holds for every argument."""
import jobs
import os
import sys
import time
from base import *
from env import *
from values import *
from core import *
from live import Live
import lin

NS = 'blet::args::'
ARG = NS + 'Argument'
EL = NS + 'ArgumentElement'
ARGS = NS + 'Args'
A = ('H', ('A',))
ROOT = ('H', ('args',))
F_EX, F_CNT, F_TYPE, F_NARGS = ARG + '::isExist_', ARG + '::count_', ARG + '::type_', ARG + '::nargs_'
F_TXT, F_DEF, F_DEFS, F_REQ, F_VALID = EL + '::argument_', EL + '::default_', ARG + '::defaults_', ARG + '::isRequired_', ARG + '::valid_'
F_NAMES = ARG + '::nameOrFlags_'
MUT = {F_EX, F_CNT, F_TXT, '#vec', EL + '::isNumber_', EL + '::number_'}
PARSE_EXC = NS + 'ParseArgumentException'
REQ_EXC = NS + 'ParseArgumentRequiredException'
VALID_EXC = NS + 'ParseArgumentValidException'

FLAGS = ('HELP_OPTION', 'VERSION_OPTION', 'BOOLEAN_OPTION', 'REVERSE_BOOLEAN_OPTION')
SINGLE = ('SIMPLE_OPTION', 'POSITIONAL_ARGUMENT')
GROUPS = ('MULTI_NUMBER_OPTION', 'MULTI_NUMBER_INFINITE_OPTION', 'INFINITE_NUMBER_POSITIONAL_ARGUMENT')
POSITIONAL = ('POSITIONAL_ARGUMENT', 'NUMBER_POSITIONAL_ARGUMENT', 'INFINITE_POSITIONAL_ARGUMENT', 'INFINITE_NUMBER_POSITIONAL_ARGUMENT')
ACCUM = ('MULTI_OPTION', 'MULTI_INFINITE_OPTION', 'MULTI_NUMBER_OPTION', 'MULTI_NUMBER_INFINITE_OPTION')
ATTACH = ('SIMPLE_OPTION', 'INFINITE_OPTION', 'MULTI_OPTION', 'MULTI_INFINITE_OPTION')
TYPES = FLAGS + ('SIMPLE_OPTION', 'NUMBER_OPTION', 'INFINITE_OPTION') + ACCUM + POSITIONAL
ACTION = {'HELP_OPTION': 'HELP', 'VERSION_OPTION': 'VERSION', 'REVERSE_BOOLEAN_OPTION': 'STORE_FALSE', 'INFINITE_OPTION': 'INFINITE',
          'MULTI_OPTION': 'APPEND', 'MULTI_NUMBER_OPTION': 'APPEND', 'MULTI_INFINITE_OPTION': 'EXTEND', 'MULTI_NUMBER_INFINITE_OPTION': 'EXTEND',
          'INFINITE_POSITIONAL_ARGUMENT': 'INFINITE', 'INFINITE_NUMBER_POSITIONAL_ARGUMENT': 'INFINITE'}
P_, N_, L_, A2_, D_ = (lin.sym(n, 0, None) for n in ('P*', 'N*', 'L*', 'ADD*', 'DV*'))
END = lin.sym('END', 0, None)
ARGC = lin.sym('argc', 0, (1 << 31) - 2)


def is_oth(loc):
    while loc[0] in ('F', 'I'):
        loc = loc[1]
    return loc[0] == 'H' and isinstance(loc[1], tuple) and loc[1][0] in ('oth', 'pair') or \
        loc[0] == 'H' and isinstance(loc[1], tuple) and loc[1][0] == 'slot' and isinstance(loc[1][1], tuple) and loc[1][1][0] == 'oth'


def tok(i, o=None, n=None):
    b = ('tok', i)
    if o is None:
        return whole(b)
    return ('S', (('s', b, o, n),))


def tok_of(t):
    """indices of the tokens an atom is about"""
    out = []
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] == 'tok' and isinstance(t[1], Lin):
            return [t[1]]
        for x in t:
            if isinstance(x, tuple):
                out += tok_of(x)
    return out


def full_texts(c, v, P):
    """whole tokens are written as such even when their length is known"""
    if not isinstance(v, tuple):
        return v
    if len(v) == 4 and v[0] == 's' and isinstance(v[1], tuple) and v[1][0] == 'tok':
        if v[2] == ZERO and v[3] != slen(v[1]) and not c.is_eq(v[1][1], P) and c.is_eq(v[3], slen(v[1])):
            return v[:3] + (slen(v[1]),)
        return v
    out = None
    for i, x in enumerate(v):
        if isinstance(x, tuple):
            y = full_texts(c, x, P)
            if y is not x:
                out = out or list(v)
                out[i] = y
    return tuple(out) if out else v


def text_of(t, deep):
    """the text(s) of one stored element"""
    if not (isinstance(t, tuple) and t[0] == 'rec'):
        return t
    d = dict(t[2])
    return texts(d['#vec'], False) if deep else d[F_TXT]


def texts(v, deep):
    if not is_vec(v):
        return v
    out = []
    for t, n in v[1]:
        x = text_of(t, deep)
        out.append((x, n) if n == ONE else run(x, n, K[height(t)]))
    return ('V', tuple(out))


def el_rec(p, txt, inner=EMPTY_V):
    fs = []
    for key, t in p.fields(EL):
        if key == '#vec':
            fs.append((key, inner))
        elif key == F_TXT:
            fs.append((key, txt))
        elif key == F_DEF:
            fs.append((key, EMPTY_S))
        elif p.kind(t) == 'float':
            fs.append((key, ('fl', ('any',))))
        else:
            fs.append((key, ZERO))
    return ('rec', EL, tuple(fs))


SHORT = int(os.environ.get('VERIF_SHORT', '4'))


class ParseEnv(Env):
    discrete = frozenset(['ex', 'phase', 'hit', 'wl', 'side', 'valid', 'dest', 'who', 'pos', 'stage', 'addk', 'xs', 'lettmiss', 'fin'])

    def __init__(self, P, kind, rep, mode):
        Env.__init__(self)
        self.P = P
        self.kind = kind
        self.rep = rep
        self.mode = mode                     # 'O': a help option exists; 'N': none; 'Z': argc == 0
        self.argc = ARGC
        self.loops = []
        self.tokloop = {}
        self.types = {v['n']: v['v'] for v in P.enums[ARG + '::Type']['vals']}
        self.actions = {v['n']: v['v'] for v in P.enums[NS + 'Action::eAction']['vals']}
        for t in TYPES:
            if t not in self.types:
                raise AnalysisError('anchor lost: argument kind ' + t)
        self.sums = {}
        self.adders = None
        self.keep0 = None
        self.positional = kind in POSITIONAL

    # ------------------------------------------------------------ reporting
    def ob(self, st, rids, node, msg, ok, key=None):
        if self.I.quiet:
            return ok
        w = self.I.where(node) if isinstance(node, dict) else node
        for r in rids.split():
            self.rep.ok(r, w, '%s: %s' % (self.kind, msg), ok, st.tr, key and '%s|%s' % (r.split('.')[0], key))
        return ok

    def dbg(self, st, *xs):
        if os.environ.get('VERIF_DEBUG') == '2' and not self.I.quiet:
            print('DBG', [show_val(x) if isinstance(x, (tuple, Lin)) else x for x in xs], {k[1]: show_val(v) for k, v in st.h.items() if k[0] == 'G'}, [str(g) for g in st.c.ge], {lin.atom_name(k): str(v) for k, v in st.c.eq.items()}, st.tr[-12:])

    # ------------------------------------------------------------ the initial object
    def start(self):
        P = self.P
        st = St()
        st.h[ROOT] = ('obj', ARGS)
        st.h[A] = ('obj', ARG)
        c = st.c
        n_oth1, n_oth2 = lin.sym('pA', 0, 1 << 40), lin.sym('after', 0, 1 << 40)
        self.pA = n_oth1
        k = K[0]
        st.h[('F', ROOT, ARGS + '::arguments_')] = ('V', ((('slot', ('oth', ('at', k))), n_oth1), (('slot', ('A',)), ONE), (('slot', ('oth', ('at', k + n_oth1 + 1))), n_oth2)))
        self.list = ('F', ROOT, ARGS + '::arguments_')
        self.list0 = st.h[self.list]
        st.h[('F', A, F_TYPE)] = Lin(self.types[self.kind])
        st.h[('F', A, ARG + '::args_')] = ('ref', ROOT)
        st.h[('F', A, ARG + '::this_')] = ('ptr', ('H', ('slot', ('A',))))
        st.h[('H', ('slot', ('A',)))] = ('ptr', A)
        st.h[('F', A, ARG + '::action_')] = Lin(self.actions[ACTION.get(self.kind, 'NONE')])
        nargs = lin.sym('nargs', 0, (1 << 64) - 1)
        ge = []
        if self.kind in FLAGS:
            nargs = ZERO
        elif 'NUMBER' not in self.kind:
            nargs = ONE
        elif self.kind in GROUPS:
            nargs = Lin(int(os.environ.get('VERIF_GROUP', 2)))      # groups of a fixed size keep everything linear
        else:
            ge.append(nargs - 2)
        self.nargs = nargs
        st.h[('F', A, F_NARGS)] = nargs
        if self.kind == 'BOOLEAN_OPTION':
            del st.h[('F', A, ARG + '::action_')]
        D = lin.sym('D', 0, 1 << 40)
        sts = []
        for d in (0, 1):
            s = st.fork()
            for g in ge:
                s.c = s.c.add_ge(g)
            n = ZERO
            if d == 1:
                if self.kind in FLAGS:
                    continue
                if self.kind in SINGLE:
                    n = ONE
                elif self.kind in ('NUMBER_OPTION', 'NUMBER_POSITIONAL_ARGUMENT'):
                    n = nargs
                elif self.kind in GROUPS:
                    n = lin.sym('DG', 1, 1 << 40) * nargs.c
                else:
                    n = D
                    s.c = s.c.add_ge(D - 1)
            dv = lambda i: whole(('def', i))
            s.h[('F', A, F_DEFS)] = EMPTY_V if n == ZERO else ('V', ((dv(ZERO), ONE),)) if n == ONE else ('V', (run(dv(K[0]), n),))
            if self.kind in SINGLE:
                s.h[('F', A, F_DEF)] = dv(ZERO) if d else EMPTY_S
            sts.append(s)
        out = []
        for s in sts:
            c = s.c
            if self.mode == 'Z':
                c = c.add_eq(ARGC)
            else:
                if self.mode == 'B':
                    # a short command line: its loops are followed round by round
                    c = c.add_eq(ARGC - SHORT)
                    self.unroll_states = 400
                c = c.add_ge(ARGC - 1)
                c = c.add_ge(END - 1)
                c = c.add_ge(ARGC - END)
            s.c = c
            h = ('F', ROOT, ARGS + '::helpOption_')
            v = ('F', ROOT, ARGS + '::versionOption_')
            s.h[h] = NULL if self.mode == 'N' else ('ptr', A) if self.kind == 'HELP_OPTION' else ('ptr', ('H', ('oth', 'HELP')))
            if self.kind == 'VERSION_OPTION':
                s.h[v] = ('ptr', A)
            else:
                s.h[v] = ('optr', ('oth', 'VERSION'))
            s.sg('stage', 0)
            s.sg('ex', 0)
            s.sg('valid', 0)
            s.sg('dest', 0)
            s.sg('num', 0)
            s.sg('fin', 0)
            out.append(s)
        return out

    def field_value(self, st, root, key, ft):
        if root == ROOT and key == ARGS + '::argumentFromName_':
            return ('map', 'names')
        if root[1][0] == 'oth' and key == F_TYPE:
            v = lin.atom_lin(('fld', (root[1], key)), 1, 15)
            ok = FLAGS if root[1][1] != 'HELP' and root[1][1][0] == 'key' else ('HELP_OPTION',) if root[1][1] == 'HELP' else ('BOOLEAN_OPTION', 'POSITIONAL_ARGUMENT')
            for k, n in self.types.items():
                if k not in ok:
                    st.c = st.c.add_ne(v - n)
            return v
        if key == F_NAMES:
            v = self.sym(ft, (root[1], key))
            st.c = st.c.add_ge(vec_len(v) - 1)
            return v
        if root[1][0] == 'oth' and key == ARG + '::args_':
            return ('ref', ROOT)
        return self.sym(ft, (root[1], key))

    def class_of(self, st, root):
        if root[0] == 'H' and isinstance(root[1], tuple) and root[1][0] == 'oth':
            return ARG
        if root[0] == 'H' and isinstance(root[1], tuple) and root[1] == ('oth', 'VERSION'):
            return ARG
        return Env.class_of(self, st, root)

    def missing(self, st, loc):
        if loc[0] == 'H' and isinstance(loc[1], tuple):
            n = loc[1]
            if n[0] == 'slot' and isinstance(n[1], tuple):
                return ('ptr', ('H', n[1]))
            if n[0] == 'oth':
                return ('obj', ARG)
        if loc[0] == 'F' and loc[1][0] == 'H' and isinstance(loc[1][1], tuple) and loc[1][1][0] == 'pair':
            key, who = loc[1][1][1:]
            if loc[2].endswith('first'):
                return key
            if loc[2].endswith('second'):
                return ('ptr', ('H', ('slot', who)))
        if loc[0] == 'F' and is_oth(loc) and loc[1][0] == 'H' and loc[2] in MUT:
            # what the others hold is unknown and may change
            for key, ft in self.I.p.fields(ARG):
                if key == loc[2]:
                    return self.sym(ft, (loc[1][1], key, self.I.fresh_id('m')))
        return Env.missing(self, st, loc)

    def is_slots(self, st, loc):
        return loc == self.list

    def obj_eq(self, st, a, b, node):
        if a == b:
            return [(st, True)]
        if A in (a, b) or ('H', ('slot', ('A',))) in (a, b):
            return [(st, False)]
        if is_oth(a) and is_oth(b):
            return [(st, True), (st.fork(), False)]
        return [(st, False)]

    def slot_search(self, st, t, cnt, x, e):
        return [(st, False, None)]

    # ------------------------------------------------------------ writes
    def on_write(self, st, loc, v, node):
        if loc[0] == 'F' and is_oth(loc):
            # another argument is used
            if loc[2] == F_EX and loc[1][0] == 'H' and st.g('stage') == 1 and st.g('pos') is not None:
                self.other_used(st, loc[1], v, node)
            for k in [k for k in st.h if k[0] == 'F' and k[2] == loc[2] and k != loc and is_oth(k)]:
                del st.h[k]
        self.changed(st, loc, node)

    def on_seq_write(self, st, loc, v, node):
        self.changed(st, loc, node)

    def changed(self, st, loc, node):
        """the values of the argument change"""
        f = None
        while loc[0] in ('F', 'I') and isinstance(loc[1], tuple):
            f = loc[2] if loc[0] == 'F' else '#vec'
            loc = loc[1]
        if loc != A or f not in (F_TXT, '#vec', F_DEF):
            return
        if st.g('num') == 1:
            st.sg('num', 0)
        if st.g('dest') == 1 and f != F_DEF:
            self.ob(st, 'C24.keep', node, 'the values are not touched after the destination was written (it may point to them)', False)

    def other_used(self, st, root, v, node):
        if st.g('wl') in ('A', 'O'):
            return
        if isinstance(v, Lin) and st.c.is_eq(v):
            return
        key = root[1][1]
        if isinstance(key, tuple) and key[0] == 'at' and st.g('pos') == 0:
            st.sg('pos', 1)
            if self.positional and st.g('ex') == 0:
                self.ob(st, 'C02.order', node, 'a later positional argument is not filled before this one',
                        st.c.is_ge(self.pA - key[1] - 1))

    # ------------------------------------------------------------ calls on the other arguments
    def intercept(self, st, f, this, args, node):
        n = f['n']
        if this == ('ptr', ROOT) and st.g('stage') == 1 and n == 'clear':
            md = self.modes(st)
            self.final(st, node)
            st.sg('modes', md)
        if this == ('ptr', ROOT) and st.g('stage') == 1 and not self.in_summary and len(args) == 1 and f['kind'] == 'method' and f.get('rt') == 'bool':
            a = args[0]
            t = a[1] if isinstance(a, tuple) and a[0] == 'cp' and is_str(a[1]) and len(a[1][1]) == 1 and st.c.is_eq(a[2]) else None
            q = t[1][0] if t else None
            j = q[1][1] if q and q[0] == 's' and q[1][0] == 'tok' and st.c.is_eq(q[2]) and st.c.is_eq(q[3], slen(q[1])) else None
            if j is not None and st.c.is_ge(st.c.norm(j - st.g('P') - 1)):
                r = self.only_looks(f, node)
                if r:
                    out = []
                    for b in r:
                        out.append((st if b == r[-1] else st.fork(), b))
                    return out
        if this is not None and this[0] == 'ptr' and this[1] == ROOT and n == 'getUsage':
            return [(st, whole(('usage',)))]
        if this == ('ptr', ROOT) and n == 'addArgument' and st.g('stage') == 0:
            v = args[0]
            v = self.I.load(st, v[1]) if isinstance(v, tuple) and v[0] == 'ref' else v
            vec = v if is_vec(v) else dict(v[2])['#vec'] if isinstance(v, tuple) and v[0] == 'rec' else self.I.load(st, ('F', args[0][1], '#vec'))
            free = set(show_val(k) for k, x in st.g('hn') or () if x == 0)
            took = [show_val(t) for t, m in vec[1]]
            self.ob(st, 'C11.auto', node, 'the help flags added are the free ones of -h and --help', bool(took) and set(took) == free & set(('"-h"', '"--help"')) and all(x in [show_val(k) for k, _ in st.g('hn')] for x in ('"-h"', '"--help"')))
            return [(st, ('ref', ('H', ('oth', 'HELP'))))]
        if this == ('ptr', ('H', ('oth', 'HELP'))) and st.g('stage') == 0 and f['kind'] == 'method':
            if n == 'action' and args and isinstance(args[0], Lin) and st.c.is_eq(args[0], Lin(self.actions['HELP'])):
                st.h[('F', ROOT, ARGS + '::helpOption_')] = ('ptr', this[1])
            if 'Argument &' in (f.get('rt') or ''):
                return [(st, ('ref', this[1]))]
        if this is not None and this[0] == 'ptr' and this[1][0] == 'H' and is_oth(this[1]) and f['kind'] == 'method':
            t = f.get('ret') or f.get('rt')
            k = self.I.p.kind(t) if t else 'void'
            if k == 'void':
                return [(st, ZERO)]
            if k == 'record':
                return [(st, self.sym(t, ('ret', f['id'], this[1][1], self.I.fresh_id('r'))))]
        if this is not None and this == ('ptr', A) and n == 'toNumber_':
            st.sg('num', 1)
            return [(st, ZERO)]
        return None

    in_summary = False

    def only_looks(self, f, node):
        """possible results of a member function that looks at one token and changes nothing; None when it does more"""
        if f['id'] in self.sums:
            return self.sums[f['id']]
        self.sums[f['id']] = None
        I = self.I
        s = self.start()[0]
        J = lin.sym('J*', 1, (1 << 31) - 2)
        for g in (J - 2, ARGC - J - 1, P_ - 1, J - P_ - 1):
            s.c = s.c.add_ge(g)
        self.begin0(s)
        s.sg('P', P_)
        s.sg('xs', ())
        self.canon(s)
        keep = dict((k, v) for k, v in s.h.items() if k[0] in ('F', 'H') and not is_oth(k))
        save = (I.exc, I.exits, I.quiet, self.loops, I.weak, I.stack)
        I.exc, I.exits, I.quiet, self.loops, I.weak, I.stack = [], [], 0, [], False, []
        self.in_summary = True
        try:
            rets = I.invoke(s, f, ('ptr', ROOT), [('cp', tok(J), ZERO, None)], node)
            ok = not I.exc and not I.exits
            vals = set()
            for r, v in rets:
                if not (isinstance(v, Lin) and v.const):
                    ok = False
                vals.add(v)
                for k, x in r.h.items():
                    if k[0] in ('F', 'H') and not is_oth(k):
                        if k in keep:
                            y = keep[k]
                        elif k[0] == 'F' and k[1] in (A, ROOT):
                            continue        # a setting read for the first time
                        else:
                            continue
                        if x != y and not (isinstance(x, Lin) and isinstance(y, Lin) and r.c.is_eq(x, y)) and vnorm(r.c, x) != vnorm(r.c, y):
                            ok = False
        except AnalysisError:
            ok = False
        finally:
            I.exc, I.exits, I.quiet, self.loops, I.weak, I.stack = save
            self.in_summary = False
        self.sums[f['id']] = sorted(vals, key=repr) if ok else None
        return self.sums[f['id']]

    def begin0(self, st):
        st.h[('F', A, F_EX)] = ZERO
        st.h[('F', A, F_CNT)] = ZERO
        st.sg('stage', 1)
        st.sg('ex', 0)

    def virtual_call(self, st, f, loc, vs, e):
        p = self.I.p
        if f['kind'] == 'dtor':
            return None
        cls = f.get('cls') or ''
        if loc[0] == 'H' and (loc == A or is_oth(loc)) and (cls == ARG or p.derives(cls, ARG)):
            return self.dest_call(st, f, loc, e)
        if cls == NS + 'IValid' or p.derives(cls, NS + 'IValid'):
            return self.valid_call(st, f, loc, vs, e)
        return None

    def dest_call(self, st, f, loc, e):
        if loc == A:
            self.final(st, e)
            self.ob(st, 'C10.once', e, 'the destination is written once', st.g('dest') == 0)
            st.sg('dest', 1)
            st.h.setdefault(('NUL', (('A',), F_VALID)), None)
            if st.h[('NUL', (('A',), F_VALID))] is None:
                del st.h[('NUL', (('A',), F_VALID))]
            self.ob(st, 'C10.after-valid C09.gate', e, 'the destination is written after the validator accepted',
                    st.g('valid') == 2 or not self.must_validate(st))
            self.ob(st, 'C09.report C10.values', e, 'the validated values are in place when the destination is written', self.final_values(st))
        else:
            self.final(st, e)
        self.ob(st, 'C10.late C11.first', e, 'no destination is written while a help request is pending',
                not (st.g('ex') == 1 and self.kind in ('HELP_OPTION', 'VERSION_OPTION')))
        self.ob(st, 'C10.late C08.first', e, 'no destination is written while a required argument is missing', self.required_ok(st))
        s2 = st.fork()
        self.I.exc.append((s2, ('exc', '#dest', ('rec', '#dest', ()), self.I.where(e)), e))
        return [(st, ZERO)]

    def required_ok(self, st):
        if st.g('ex') == 1:
            return True
        return st.c.is_eq(self.I.load(st, ('F', A, F_REQ)))

    def valued(self):
        return self.kind not in FLAGS

    def has_valid(self, st):
        return st.h.get(('NUL', (('A',), F_VALID)))

    def must_validate(self, st):
        if st.g('ex') == 0 or not self.valued():
            return False
        return self.has_valid(st) != 0

    def valid_call(self, st, f, loc, vs, e):
        self.final(st, e)
        mine = loc == ('H', (('A',), F_VALID))
        a = vs[0]
        V = self.I.load(st, a[1]) if isinstance(a, tuple) and a[0] == 'ref' else a
        if mine:
            self.ob(st, 'C09.once', e, 'the validator is called once', st.g('valid') == 0)
            self.ob(st, 'C09.present', e, 'the validator of an absent argument is not called', st.g('ex') == 1)
            self.ob(st, 'C11.first', e, 'no validator runs while a help request is pending', self.kind not in ('HELP_OPTION', 'VERSION_OPTION') or st.g('ex') == 0)
            self.ob(st, 'C10.late', e, 'no destination was written before validation', st.g('dest') == 0)
            if self.valued():
                self.ob(st, 'C09.exact', e, 'the validator gets exactly the values of the argument', same(st, V, self.flat(st)))
        self.ob(st, 'C08.first', e, 'no validator runs while a required argument is missing', self.required_ok(st))
        m = lin.atom_lin(('len', ('vout',) if mine else ('voth', self.I.fresh_id('v'))), 0, 1 << 40)
        if mine and self.kind in GROUPS:
            # decided for validators that keep the number of values
            st.c = st.c.add_eq(m - L_ * self.nargs.c)
        out = []
        for res in (ONE, ZERO, 'throw', 'user'):
            s = st.fork()
            if isinstance(a, tuple) and a[0] == 'ref':
                s.h[a[1]] = ('V', (run(whole(('vout', K[0]) if mine else ('voth', K[0])), m),))
            if res == 'throw' or res == 'user':
                n = VALID_EXC if res == 'throw' else '#user'
                if mine:
                    s.sg('valid', 3 if res == 'throw' else 4)
                rec = tuple((k, whole(('vmsg', k))) for k, t in self.P.fields(VALID_EXC)) if res == 'throw' else ()
                self.I.exc.append((s, ('exc', n, ('rec', n, rec), self.I.where(e)), e))
                continue
            if mine:
                s.sg('valid', 2 if res == ONE else 3)
            out.append((s, res))
        return out

    def vals(self, st):
        if self.kind in FLAGS:
            return EMPTY_V
        if self.kind in SINGLE:
            return self.I.load(st, ('F', A, F_TXT))
        return texts(self.I.load(st, ('F', A, '#vec')), self.kind in GROUPS)

    def accn(self, st):
        return L_

    def acc(self, st):
        """the canonical values of the argument while it is present"""
        if self.kind in SINGLE:
            return whole(('acc1',))
        if self.kind in GROUPS:
            return self.groups(lambda k: whole(('acc', k)), L_)
        return ('V', (run(whole(('acc', K[0])), L_),))

    def groups(self, f, n):
        """n groups of nargs texts, f(index of the text)"""
        g = self.nargs.c
        t = lambda j: ('V', tuple((f(j * g + i), ONE) for i in range(g)))
        if n.const and n.c <= 4:
            return ('V', tuple((t(Lin(j)), ONE) for j in range(n.c)))
        return ('V', (run(t(K[0]), n, K[0]),))

    def flat(self, st):
        if self.kind in SINGLE:
            return ('V', ((whole(('acc1',)), ONE),))
        if self.kind in GROUPS:
            return ('V', (run(whole(('acc', K[0])), L_ * self.nargs.c),))
        return ('V', (run(whole(('acc', K[0])), L_),))

    def absent(self, st):
        if self.kind in SINGLE:
            return whole(('dv1',))
        if self.kind in GROUPS:
            return self.groups(lambda k: whole(('dv', k)), D_)
        return ('V', (run(whole(('dv', K[0])), D_),))

    def final_values(self, st):
        """values reported after validation"""
        if not self.valued():
            return True
        v = self.vals(st)
        if st.g('ex') == 0:
            return same(st, v, self.absent(st))
        if st.g('valid') == 0:
            return same(st, v, self.acc(st))
        m = lin.atom_lin(('len', ('vout',)), 0, 1 << 40)
        if self.kind in SINGLE:
            return same(st, v, whole(('vout', ZERO))) if st.c.is_ge(m - 1) else st.c.is_eq(m) and same(st, v, self.acc(st)) or self.split(st, m, v)
        n = L_ * self.nargs.c if self.kind in GROUPS else L_
        out = whole(('vout', K[0]))
        if self.kind in GROUPS:
            g = self.groups(lambda k: whole(('vout', k)), L_)
            if st.c.is_ge(m - n):
                return same(st, v, g)
            return None
        if st.c.is_ge(m - n):
            return same(st, v, ('V', (run(out, n),)))
        if st.c.is_ge(n - m):
            return same(st, v, ('V', (run(out, m), run(whole(('acc', K[0] + m)), n - m))))
        return None

    def split(self, st, m, v):
        return False

    # ------------------------------------------------------------ the map of names
    def map_method(self, st, n, obj, vs, e, f):
        I = self.I
        m = obj[1] if isinstance(obj, tuple) and obj[0] == 'ref' else None
        if n in ('find', 'count'):
            out = []
            for s, key in I.as_str(st, vs[0], e):
                for s2, who in self.lookup(s, key, e):
                    if n == 'count':
                        out.append((s2, ZERO if who is None else ONE))
                    else:
                        out.append((s2, ('it', 'm', m, ('end',) if who is None else ('key', snorm(s2, key), who))))
            return out
        if n == 'lower_bound':
            # the name itself, or the next registered name, or the end
            out = []
            for s, key in I.as_str(st, vs[0], e):
                for s2, who in self.lookup(s, key, e):
                    if who is not None:
                        out.append((s2, ('it', 'm', m, ('key', snorm(s2, key), who))))
                        continue
                    out.append((s2.fork(), ('it', 'm', m, ('end',))))
                    nxt = whole(('nextname', I.fresh_id('n')))
                    look = lin.atom_lin(('look', nxt), 0, 2)
                    for v, w in ((1, ('A',)), (2, ('oth', ('key', nxt)))):
                        s3 = s2.fork()
                        s3.c = s3.c.add_eq(look - v)
                        if v == 2 or self.key_of_A(s3, nxt):
                            out.append((s3, ('it', 'm', m, ('key', nxt, w))))
            return out
        if n in ('end', 'cend'):
            return [(st, ('it', 'm', m, ('end',)))]
        if n in ('at', 'operator[]'):
            out = []
            for s, key in I.as_str(st, vs[0], e):
                for s2, who in self.lookup(s, key, e):
                    if who is None:
                        if n == 'at':
                            I.std_throw(s2, 'std::out_of_range', e)
                        else:
                            self.ob(s2, 'C06.match', e, 'looking up a name does not register it', False)
                    else:
                        out.append((s2, ('ref', ('F', ('H', ('pair', snorm(s2, key), who)), 'second'))))
            return out
        if n in ('insert', 'emplace'):
            x = I.val(st, vs[0], e)
            if isinstance(x, tuple) and x[0] == 'rec':
                d = dict(x[2])
                ks = d['first']
                if not is_str(ks):
                    ks = I.as_str(st, ks, e)[0][1]
                st.h[('F', ROOT, '#ins')] = st.h.get(('F', ROOT, '#ins'), ()) + ((snorm(st, ks), d['second']),)
                return [(st, ('top', 'insert result'))]
        if n == 'clear':
            return [(st, ZERO)]
        raise AnalysisError('map method %s at %s' % (n, I.where(e)))

    def it_eq(self, st, a, b, node):
        if a[3] == ('end',) or b[3] == ('end',):
            return [(st, a[3] == b[3])]
        if a[3] == b[3]:
            return [(st, True)]
        return [(st, True), (st.fork(), False)]

    def it_deref(self, st, it, node):
        if it[3] == ('end',):
            self.I.oblige(st, 'mem', False, node, 'the end iterator of the names is not dereferenced')
            return []
        return [(st, ('H', ('pair',) + it[3][1:]))]

    def lookup(self, st, key, e):
        """[(st, None / ('A',) / ('oth', key))] of a name"""
        key = snorm(st, key)
        ps = key[1]
        if st.g('stage') == 1 and len(ps) == 2 and ps[0] == ('l', '-') and ps[1][0] == 's' and ps[1][3] == ONE and ps[1][1][0] == 'tok' and not ps[1][2].const:
            # a letter: the next one, an earlier or a later one
            o, out = ps[1][2], []
            a, b = self.I.fork_cmp(st, '<', o, st.g('lett'))
            if a is not None:
                out += self.lookup1(a, key, e)
            if b is not None:
                b1, b2 = self.I.fork_cmp(b, '==', o, st.g('lett'))
                for s in (b1, b2):
                    if s is not None:
                        out += self.lookup1(s, key, e)
            return out
        return self.lookup1(st, key, e)

    def lookup1(self, st, key, e):
        I = self.I
        key = snorm(st, key)
        out = []
        look = lin.atom_lin(('look', key), 0, 2)
        for v in (0, 1, 2):
            s = st.fork()
            c = s.c.add_eq(look - v)
            if c is None:
                continue
            s.c = c
            if v == 1 and not self.key_of_A(s, key):
                continue
            self.note_lookup(s, key, (None, 'A', 'O')[v], e)
            out.append((s, (None, ('A',), ('oth', ('key', key)))[v]))
        return out

    def key_of_A(self, st, key):
        """may A have this name? adds what its being a well-formed name implies"""
        n = str_len(key)
        if not self.I.assume(st, '>=', n, ONE):
            return False
        c0 = self.char_at(st, key, 0)
        if self.positional:
            if c0 is not None:
                c = st.c.add_ne(c0 - 45)
                if c is None:
                    return False
                st.c = c
            return True
        if not self.I.assume(st, '>=', n, Lin(2)):
            return False
        if c0 is not None:
            c = st.c.add_eq(c0 - 45)
            if c is None:
                return False
            st.c = c
        c1 = self.char_at(st, key, 1)
        if c1 is not None:
            if st.c.is_eq(c1 - 45):
                if not self.I.assume(st, '>=', n, Lin(3)):
                    return False
            elif st.c.is_ne(c1 - 45):
                if not self.I.assume(st, '==', n, Lin(2)):
                    return False
            elif st.c.is_eq(n - 2):
                c = st.c.add_ne(c1 - 45)
                if c is None:
                    return False
                st.c = c
        return True

    def char_at(self, st, key, i):
        acc = 0
        for p in key[1]:
            if p[0] == 'l':
                if i < acc + len(p[1]):
                    return Lin(ord(p[1][i - acc]))
                acc += len(p[1])
            elif p[0] == 's':
                return ch(p[1], st.c.norm(p[2] + (i - acc)))
            else:
                return None
        return None

    def note_lookup(self, st, key, who, e):
        """record what a look-up says about the current token"""
        if st.g('stage') == 0:
            st.sg('hn', tuple(st.g('hn') or ()) + ((key, 0 if who is None else 1),))
        if st.g('stage') != 1:
            return
        P = st.g('P')
        ps = key[1]
        c = st.c
        if len(ps) == 1 and ps[0][0] == 's' and ps[0][1][0] == 'tok':
            p, pre = ps[0], ''
        elif len(ps) == 2 and ps[0] == ('l', '-') and ps[1][0] == 's' and ps[1][1][0] == 'tok':
            p, pre = ps[1], '-'
        else:
            return
        if not c.is_eq(p[1][1], P):
            return
        o, n = p[2], p[3]
        end = c.norm(o + n)
        if pre == '' and c.is_eq(o):
            kind = 'L'
        elif pre == '-' and c.is_eq(o):
            kind = 'X'
        elif pre == '-' and c.is_eq(n - 1):
            kind = 'S'
        else:
            return
        if kind == 'S':
            lett = st.g('lett')
            if c.is_eq(o - lett):
                if who is None:
                    st.sg('lettmiss', 1)
                    return
                st.sg('lett', c.norm(lett + 1))
                st.sg('who', who)
                st.sg('wl', who)
                if who == 'A':
                    st.sg('occ', c.norm(st.g('occ') + 1))
                    st.sg('hit', 1)
                st.sg('kind', 'S')
                st.sg('lookend', end)
                self.need_alt_miss(st, P)
            return
        # the whole flag
        if kind == 'X':
            st.sg('altlook', 1)
        if who is None:
            return
        if st.g('wl') in ('A', 'O') and st.g('kind') == kind:
            return
        st.sg('wl', who)
        st.sg('who', who)
        st.sg('kind', kind)
        st.sg('lookend', end)
        if who == 'A':
            st.sg('occ', c.norm(st.g('occ') + 1))
            st.sg('hit', 1)

    def need_alt_miss(self, st, P):
        pass

    # ------------------------------------------------------------ tokens
    def char_access(self, st, base):
        """three-way split of a token's position against the first "--" """
        if base[0] != 'tok' or self.mode == 'Z':
            return [st]
        j = st.c.norm(base[1])
        c = st.c
        if c.is_ge(END - j - 1) or c.is_ge(j - END - 1) or c.is_eq(j, END) or c.is_eq(j):
            return self.end_chars(st, base, j)
        out = []
        s1, s2, s3 = st, st.fork(), st.fork()
        if self.I.assume(s1, '<', j, END):
            out += self.end_chars(s1, base, j)
        if self.I.assume(s2, '==', j, END):
            out += self.end_chars(s2, base, s2.c.norm(j))
        if self.I.assume(s3, '>', j, END):
            out.append(s3)
        return out

    def end_chars(self, st, base, j):
        if st.c.is_eq(j, END) and st.c.is_ge(ARGC - j - 1):
            base = ('tok', st.c.norm(j))
            c = st.c.add_eq(slen(base) - 2)
            for k, v in ((0, 45), (1, 45), (2, 0)):
                c = c and c.add_eq(ch(base, Lin(k)) - v)
            if c is None:
                return []
            st.c = c
        return [st] if self.on_char(st, base) else []

    def on_char(self, st, base):
        if base[0] != 'tok' or self.mode == 'Z':
            return True
        c = st.c
        j = c.norm(base[1])
        if c.is_ge(END - j - 1) and c.is_ge(j - 1):
            b = ('tok', j)
            if c.is_eq(ch(b, ZERO) - 45) and c.is_eq(ch(b, ONE) - 45) and (c.is_eq(ch(b, Lin(2))) or c.is_eq(slen(b) - 2)):
                return False
        return True

    # ------------------------------------------------------------ loops
    def may_forget(self, k):
        if k[0] == 'F' and (k[1] == A or k[1] == ROOT):
            return False
        if k[0] == 'G':
            return False
        return True

    def live_atoms(self, st):
        out = set()
        for l in (END, ARGC, self.nargs, self.pA, P_):
            out |= set(atoms_of(l))
        return out

    def is_token_loop(self, node):
        r = self.tokloop.get(node['#'])
        if r is None:
            r = self.tokloop[node['#']] = self.mentions_adder(node)
        return r

    def mentions_adder(self, node):
        if self.adders is None:
            self.adders = {}
        return self.reaches(node, set())

    def reaches(self, n, seen):
        """does this code (calls included) append to the additional arguments?"""
        if isinstance(n, dict):
            if n.get('k') == 'MCall' and self.I.p.funcs[n['f']]['n'] in ('push_back', 'emplace_back', 'insert'):
                o = n['o']
                while isinstance(o, dict) and o.get('k') in ('Cast', 'Full'):
                    o = o.get('e')
                if isinstance(o, dict) and o.get('k') == 'Mem' and o.get('f') == ARGS + '::additionalArguments_':
                    return True
            f = n.get('f')
            if n.get('k') in ('MCall', 'Call') and isinstance(f, str) and f not in seen:
                seen.add(f)
                g = self.I.p.funcs.get(f)
                if g and g.get('blet') and g.get('body') and self.reaches(g['body'], seen):
                    return True
            return any(self.reaches(v, seen) for k, v in n.items() if isinstance(v, (dict, list)))
        if isinstance(n, list):
            return any(self.reaches(v, seen) for v in n)
        return False

    def loop_head(self, st, node, back):
        if self.in_summary:
            self.drop_others(st)
            return [st]
        tl = self.is_token_loop(node)
        if tl and st.g('stage') in (0, 1):
            if st.g('stage') == 0:
                self.begin(st, node)
                if self.mode == 'N':
                    return []
            else:
                if not self.settle(st, node):
                    return []
            self.canon(st)
            return [st]
        if not any(self.is_token_loop(n) for n in self.loops):
            if st.g('stage') == 1:
                self.final(st, node)
                if st.g('stage') == 2 and ('NUL', (('A',), F_VALID)) not in st.h:
                    # has the argument a validator?
                    s2 = st.fork()
                    st.h[('NUL', (('A',), F_VALID))] = 0
                    s2.h[('NUL', (('A',), F_VALID))] = 1
                    return self.at_head(st, node) + self.at_head(s2, node)
        return self.at_head(st, node)

    def unrollable(self, node):
        return not self.is_token_loop(node) and ('force' if self.mode == 'B' else True)

    def list_its(self, st):
        return sorted((k for k, v in st.h.items() if k[0] == 'v' and isinstance(v, tuple) and len(v) == 4 and v[0] == 'it' and v[2] == self.list and isinstance(v[3], Lin)), key=repr)

    def head_facts(self, st):
        out = []
        side = dict(st.g('side') or ())
        for k in self.list_its(st):
            d = side.get(k[2])
            pos = st.h[k][3]
            if d == -1:
                out.append(self.pA - pos - 1)
            elif d == 1:
                out.append(pos - self.pA - 1)
        return out

    def at_head(self, st, node):
        if st.g('dest') == 1 and st.g('fin') == 0:
            st.sg('fin', show_val(vnorm(st.c, self.vals(st))))
        if st.g('stage') == 1:
            self.forget_tokens(st)
        # in front of, at or behind A in the list
        sts = [st]
        self.drop_others(st)
        for k in self.list_its(st):
            nxt = []
            for s in sts:
                pos = s.h[k][3]
                a, b = self.I.fork_cmp(s, '<', pos, self.pA)
                nxt += [x for x in (a,) if x is not None]
                if b is not None:
                    a, b = self.I.fork_cmp(b, '==', pos, self.pA)
                    nxt += [x for x in (a, b) if x is not None]
            sts = nxt
        for s in sts:
            side = []
            for k in self.list_its(s):
                pos = s.h[k][3]
                d = 0 if s.c.is_eq(self.pA, pos) else 1 if s.c.is_ge(pos - self.pA) else -1
                side.append((k[2], d))
                if d == 0:
                    s.h[k] = s.h[k][:3] + (self.pA,)
            s.sg('side', tuple(side))
            a = self.pA.t[0][0]
            if a in s.c.eq:
                # where exactly A stands is not kept
                eq = dict(s.c.eq)
                del eq[a]
                s.c = lin.Cons(eq, s.c.ge, s.c.ne)
                s.h[self.list] = self.list0
                for g in self.head_facts(s):
                    s.c = s.c.add_ge(g)
                s.c = s.c.add_ge(self.pA)
        return sts

    def forget_tokens(self, st):
        """what is known about the text of a token that was only compared is not kept (the current one apart)"""
        P = st.g('P')
        c = st.c
        bad = {}
        ats = set()
        for a, e in c.eq.items():
            ats.add(a)
            ats |= set(atoms_of(e))
        for g in list(c.ge) + list(c.ne):
            ats |= set(atoms_of(g))
        for a in ats:
            for j in tok_of(lin.ATOMS[a]):
                if not c.is_eq(j, P):
                    bad[a] = j
        if not bad:
            return
        h = st.h
        sub = {}
        for k, v in h.items():
            if isinstance(v, tuple) and v and v[0] in ('S', 'V', 'rec') and k[0] != 'G':
                w = full_texts(c, v, P)
                if w is not v:
                    h[k] = w
        live = set()
        for k, v in h.items():
            if isinstance(v, (tuple, Lin)):
                live |= set(atoms_of(v))
        live |= ats
        st.c = project(c, live - set(bad))

    def drop_others(self, st):
        for k in [k for k in st.h if k[0] in ('F', 'H', 'NUL') and self.droppable(k)]:
            del st.h[k]

    def droppable(self, k):
        if k[0] == 'NUL':
            return isinstance(k[1], tuple) and isinstance(k[1][0], tuple) and k[1][0][0] == 'oth' and k[1] != ('oth', 'VERSION')
        if is_oth(k):
            return True
        return False

    # ------------------------------------------------------------ stages of a parse
    def begin(self, st, node):
        """the first time the token loop is reached"""
        I = self.I
        e = I.load(st, ('F', A, F_EX))
        self.ob(st, 'C13.fresh C07.absent', node, 'no presence is left over from an earlier parse', st.c.is_eq(e))
        self.ob(st, 'C13.fresh C07.absent', node, 'no count is left over from an earlier parse', st.c.is_eq(I.load(st, ('F', A, F_CNT))))
        if self.valued():
            self.ob(st, 'C13.fresh C03.default', node, 'the values start as the configured defaults', same(st, self.vals(st), self.defaults(st)))
        add = I.load(st, ('F', ROOT, ARGS + '::additionalArguments_'))
        self.ob(st, 'C13.fresh C14.fresh', node, 'no additional argument is left over from an earlier parse', is_vec(add) and st.c.is_eq(vec_len(add)))
        v = I.load(st, ('F', ROOT, ARGS + '::helpOption_'))
        self.ob(st, 'C11.auto', node, 'a help option exists when tokens are read', v != NULL)
        st.h[('F', A, F_EX)] = ZERO
        st.h[('F', A, F_CNT)] = ZERO
        b = ('F', ROOT, ARGS + '::binaryName_')
        if b in st.h:
            st.h[b] = whole(('binary',))
        st.sg('stage', 1)
        st.sg('hn', 0)
        st.sg('P', ONE)
        st.sg('xs', self.counters(st))
        st.sg('ex', 0)

    def defaults(self, st):
        d = self.I.load(st, ('F', A, F_DEFS))
        if self.kind in SINGLE:
            return whole(('def', ZERO)) if d[1] else EMPTY_S
        if self.kind in GROUPS:
            if not d[1]:
                return EMPTY_V
            return self.groups(lambda k: whole(('def', k)), lin.sym('DG', 1, 1 << 40))
        return d

    def counters(self, st):
        """local variables that run over the command line: (location, distance to the token index)"""
        out = []
        for k, v in st.h.items():
            if k[0] == 'v' and isinstance(v, Lin) and v.const and v.c in (0, 1) and len(k) == 3:
                t = self.P.vartypes.get(k[2])
                if t is not None and self.P.kind(self.P.strip(t)) == 'int' and self.P.ty(self.P.strip(t)).get('bits', 0) >= 32:
                    out.append((('x',) + k[1:], 1 - v.c))
            if k[0] == 'v' and isinstance(v, tuple) and v[0] == 'argv' and len(k) == 3:
                out.append((('x',) + k[1:], None))
        return tuple(sorted(out, key=repr))

    def xval(self, st, x):
        v = st.h.get(('v',) + x[0][1:])
        if isinstance(v, Lin):
            return st.c.norm(v + x[1])
        if isinstance(v, tuple) and v[0] == 'argv':
            return st.c.norm(v[1])
        return None

    def read_round(self, st):
        I = self.I
        ex = I.load(st, ('F', A, F_EX))
        cnt = I.load(st, ('F', A, F_CNT))
        add = I.load(st, ('F', ROOT, ARGS + '::additionalArguments_'))
        return ex, cnt, self.vals(st), add

    def looks_like_flag(self, st, P):
        """True / False / None: does token P look like an option"""
        b = ('tok', P)
        c = st.c
        if c.is_ne(ch(b, ZERO) - 45) or c.is_eq(slen(b)) or c.is_eq(ch(b, ONE)) or c.is_eq(slen(b) - 1):
            return False
        if c.is_eq(ch(b, ZERO) - 45) and (c.is_ne(ch(b, ONE)) or c.is_ge(slen(b) - 2)):
            return True
        return None

    def settle(self, st, node, final=False):
        """what did the code do with the current token?"""
        c = st.c
        P = c.norm(st.g('P'))
        ex0 = st.g('ex')
        ex1, cnt, vals, add = self.read_round(st)
        old_vals = self.acc(st) if ex0 else self.absent(st)
        old_cnt = N_ if ex0 else ZERO
        old_add = ('V', (run(whole(('add', K[0])), A2_),))
        same_vals = not self.valued() or same(st, vals, old_vals)
        same_ex = c.is_eq(ex1, Lin(ex0))
        same_cnt = c.is_eq(cnt, old_cnt)
        same_add = same(st, add, old_add)
        before = c.is_ge(END - P - 1)
        behind = c.is_ge(P - END - 1)
        flag = self.looks_like_flag(st, P)
        xs = st.g('xs')
        vs = [(x, self.xval(st, x)) for x in xs]
        Pn = None
        hit = st.g('hit') == 1
        matched = st.g('wl') in ('A', 'O')
        ob = lambda rids, msg, ok: self.ob(st, rids, node, msg, ok)
        if matched:
            self.check_match(st, node, P, before)
        if hit:
            st.sg('ex', 1)
            ob('C07.exist', 'an argument whose flag is read is present', c.is_eq(ex1, ONE))
            if not ob('C07.count', 'each occurrence counts once', c.is_eq(cnt, old_cnt + st.g('occ'))):
                self.dbg(st, 'count', cnt, 'old', old_cnt, 'occ', st.g('occ'))
            ob('C14.only', 'an option is no additional argument', same_add)
            if self.valued():
                Pn = self.option_values(st, node, P, ex0, vals, old_vals)
            else:
                Pn = c.norm(P + 1)
                ob('C04.none', 'a flag-like option is given no value', not self.attached(st, P))
            ob('C05.before', 'values are not taken from beyond the first "--"', Pn is None or c.is_ge(END - Pn))
        elif not (same_ex and same_cnt and same_vals):
            if self.positional and ex0 == 0 and not matched:
                st.sg('ex', 1)
                ob('C06.option', 'a token that looks like an option is not used as a positional argument', behind or flag is False)
                ob('C07.exist', 'a positional argument that gets a value is present', c.is_eq(ex1, ONE))
                ob('C07.count', 'a used positional argument counts once', c.is_eq(cnt, ONE))
                ob('C14.only', 'the value of a positional argument is no additional argument', same_add)
                ob('C02.once', 'no other positional argument is filled with the same token', st.g('pos') in (0, None))
                Pn = self.positional_values(st, node, P, vals)
                ob('C05.before', 'values are not taken from beyond the first "--"', Pn is None or behind or c.is_ge(END - Pn))
                ob('C01.argc', 'no value is taken from beyond the command line', Pn is None or c.is_ge(ARGC - Pn))
                if behind is False and not c.is_ge(END - P - 1):
                    ob('C05.dropped', 'the first "--" is not a value', False)
            else:
                ob('C06.own C02.once', 'an argument is only changed by its own flag, a positional one only once', False)
                self.dbg(st, 'own', ex0, ex1, cnt, old_cnt, vals, old_vals, same_ex, same_cnt, same_vals)
                if ex1 is not None and c.is_eq(ex1, ONE):
                    st.sg('ex', 1)
        elif not same_add:
            ob('C14.append C02.extra', 'a surplus token is appended to the additional arguments as it is',
               same(st, add, ('V', old_add[1] + ((tok(P), ONE),))))
            ob('C14.strict', 'additional arguments are only collected when strict mode is off', c.is_eq(self.I.load(st, ('F', ROOT, ARGS + '::isStrict_'))))
            ob('C06.option C14.only', 'a token that looks like an option is no additional argument', behind or flag is False)
            ob('C02.order C14.order', 'no token is surplus while this positional argument is unused', not self.positional or ex0 == 1)
            ob('C02.once', 'a surplus token is not used otherwise', not matched and st.g('pos') in (0, None))
            ob('C05.dropped', 'the first "--" is no additional argument', behind or before)
            Pn = c.norm(P + 1)
        elif matched or st.g('pos') == 1:
            if st.g('pos') == 1 and not matched:
                ob('C06.option', 'a token that looks like an option is not used as a positional argument', behind or flag is False)
                ob('C05.dropped', 'the first "--" is not a value', behind or before)
            good = [v for x, v in vs if v is not None and c.is_ge(v - P - 1)]
            ob('C33.advance', 'a round that uses an option consumes its token', bool(good) or final)
            Pn = good[0] if good else None
            xs = tuple(x for x, v in vs if v is not None and Pn is not None and c.is_eq(v, Pn))
        elif c.is_eq(P, END) and c.is_ge(ARGC - P - 1):
            Pn = c.norm(P + 1)
        else:
            # nothing happened: the token has to be still there
            ok = final or any(v is not None and c.is_eq(v, P) for x, v in vs)
            ob('C02.lost', 'no token is skipped', ok)
            Pn = P
        if Pn is not None and not final:
            xs2 = tuple(x for x in xs if self.xval(st, x) is not None and c.is_eq(self.xval(st, x), Pn))
            ob('C02.next', 'the next token read is the first one not used yet', bool(xs2))
            if xs2:
                xs = xs2
            else:
                Pn = None
        if Pn is None:
            # reported above: go on where the code goes on, if that is known
            g = [x for x in xs if self.xval(st, x) is not None and c.is_ge(self.xval(st, x) - P - 1)]
            if not g and not final:
                return False
            Pn = self.xval(st, g[0]) if g else c.norm(P + 1)
            xs = tuple(x for x in g if c.is_eq(self.xval(st, x), Pn)) or xs
        if matched:
            ob('C05.before', 'options are only recognised before the first "--"', before)
        st.sg('xs', xs)
        st.sg('P', Pn)
        return True

    def eqpos(self, st, P):
        """(has '=': True/False/None, position)"""
        b = ('tok', P)
        n = slen(b)
        has = lin.atom_lin(('hasch', b, ZERO, st.c.norm(n), Lin(61)), 0, 1)
        pos = lin.atom_lin(('chpos', b, ZERO, st.c.norm(n), Lin(61)), 0, None)
        if st.c.is_eq(has, ONE):
            return True, pos
        if st.c.is_eq(has):
            return False, None
        return None, None

    def check_match(self, st, node, P, before):
        """the flag that was looked up is the one the token spells"""
        c = st.c
        b = ('tok', P)
        has, pos = self.eqpos(st, P)
        stop = pos if has else slen(b)
        kind = st.g('kind')
        ob = lambda rids, msg, ok: self.ob(st, rids, node, msg, ok)
        dash2 = c.is_eq(ch(b, ZERO) - 45) and c.is_eq(ch(b, ONE) - 45)
        dash1 = c.is_eq(ch(b, ZERO) - 45) and c.is_ne(ch(b, ONE) - 45)
        alt = self.I.load(st, ('F', ROOT, ARGS + '::isAlternative_'))
        if kind == 'L':
            ob('C06.match', 'a long flag is the token up to its first "="', has is not None and c.is_eq(st.g('lookend'), stop) and dash2)
        elif kind == 'X':
            ob('C06.match', 'a long flag is the token up to its first "="', has is not None and c.is_eq(st.g('lookend'), stop) and dash1)
            ob('C06.alternative', 'a single dash introduces a long flag only in alternative mode', c.is_ne(alt))
        else:
            ob('C06.match', 'letters are only looked up in a token with a single dash', dash1)
            ob('C06.alternative', 'in alternative mode a long flag goes first', c.is_eq(alt) or st.g('altlook') == 1)
            # every letter is known, or the rest is the value of the last one
            done = has is not None and c.is_eq(st.g('lookend'), stop)
            if not done:
                done = has is False and st.g('valtype') is not False and self.takes_rest(st)
            ob('C06.match', 'every letter of a combined option is a registered flag', done)

    def names_option(self, st, P, name):
        """is name the flag that is being looked up or handled, as spelled in the token?"""
        ps = name[1]
        if not ps:
            has, pos = self.eqpos(st, P)
            return bool(has) and st.c.is_ge(Lin(2) - pos)       # "--=text": the flag has no name
        if ps[0][0] == 'l' and ps[0][1] in ('-', '--'):
            ps = ps[1:]
        if len(ps) == 1 and ps[0][0] == 'c' and isinstance(ps[0][1], Lin):
            k = st.g('lett') if st.g('lettmiss') else st.g('lett') - 1
            return st.c.is_eq(ps[0][1] - ch(('tok', P), st.c.norm(k)))
        if len(ps) != 1 or ps[0][0] != 's' or ps[0][1][0] != 'tok' or not st.c.is_eq(ps[0][1][1], P):
            return not text_from_tokens(name) and str_len(name) != ZERO
        c = st.c
        off, end = ps[0][2], c.norm(ps[0][2] + ps[0][3])
        has, pos = self.eqpos(st, P)
        stop = pos if has else slen(('tok', P))
        if c.is_eq(off) and c.is_eq(end, slen(('tok', P))):
            return True
        if st.g('kind') == 'S' or st.g('lettmiss'):
            k = st.g('lett') if st.g('lettmiss') else st.g('lett') - 1
            if c.is_eq(off, k) and c.is_eq(end, c.norm(k + 1)):
                return True
        return has is not None and c.is_eq(end, stop) and c.is_ge(Lin(2) - off)

    def takes_rest(self, st):
        """the last letter looked up belongs to an option whose value may be attached"""
        if st.g('who') == 'A':
            return self.kind in ATTACH + ('NUMBER_OPTION', 'MULTI_NUMBER_OPTION')
        return True

    def attached(self, st, P):
        has, pos = self.eqpos(st, P)
        c = st.c
        if has:
            return True
        return not c.is_eq(st.g('lookend'), slen(('tok', P)))

    def attached_text(self, st, P):
        """the attached value of the current token, None when there is none, False when unclear"""
        c = st.c
        has, pos = self.eqpos(st, P)
        b = ('tok', P)
        le = st.g('lookend')
        if has:
            return tok(P, c.norm(le + 1), c.norm(slen(b) - le - 1)) if c.is_eq(le, pos) else False
        if has is False:
            if c.is_eq(le, slen(b)):
                return None
            if st.g('kind') == 'S' and c.is_ge(slen(b) - le - 1):
                return tok(P, le, c.norm(slen(b) - le))
        return False

    def tokens(self, at, n):
        return ('V', (run(tok(at + K[0]), n, K[0]),))

    def option_values(self, st, node, P, ex0, vals, old_vals):
        """the values an occurrence of the option brings -> index of the next token"""
        c = st.c
        kind = self.kind
        ob = lambda rids, msg, ok: self.ob(st, rids, node, msg, ok)
        at = self.attached_text(st, P)
        if not ob('C06.match C03.spelling', 'the extent of an attached value is known', at is not False):
            return None
        if at is not None:
            ob('C04.attached', 'a value is only attached to an option that takes single values', kind in ATTACH)
            if kind not in ATTACH:
                return c.norm(P + 1)
        old = old_vals if kind in ACCUM and ex0 else EMPTY_V
        if kind == 'SIMPLE_OPTION':
            want = at if at is not None else tok(P + 1)
            ob('C03.values C02.values', 'the option holds the value given with it', same(st, vals, want))
            return c.norm(P + (1 if at is not None else 2))
        n = c.norm(vec_len(vals) - vec_len(old)) if is_vec(vals) else None
        if n is None:
            ob('C03.values', 'the values are known', False)
            return None
        ob('C03.values', 'values of earlier occurrences are kept or replaced as documented', c.is_ge(n))
        if at is not None:
            ob('C04.number', 'an attached value is one value', c.is_eq(n, ONE))
            if not ob('C03.values C02.values', 'the option holds the attached value', same(st, vals, ('V', old[1] + ((at, ONE),)))):
                self.dbg(st, 'attached', vals, old, at)
            return c.norm(P + 1)
        if kind in GROUPS:
            if kind == 'MULTI_NUMBER_OPTION':
                ob('C04.number', 'one group of values per occurrence', c.is_eq(n, ONE))
            grp = self.groups(lambda k: tok(P + 1 + k), n)
            ob('C03.values C02.values C04.number', 'the groups are the tokens behind the option', same(st, vals, ('V', old[1] + grp[1])))
            return c.norm(P + 1 + n * self.nargs.c)
        if kind == 'NUMBER_OPTION':
            ob('C04.number', 'the option holds as many values as declared', c.is_eq(n, self.nargs))
        if kind == 'MULTI_OPTION':
            ob('C04.number', 'one value per occurrence', c.is_eq(n, ONE))
        if not ob('C03.values C02.values', 'the values are the tokens behind the option', same(st, vals, ('V', old[1] + self.tokens(P + 1, n)[1]))):
            self.dbg(st, 'values', vals, old, n)
        return c.norm(P + 1 + n)

    def positional_values(self, st, node, P, vals):
        c = st.c
        kind = self.kind
        ob = lambda rids, msg, ok: self.ob(st, rids, node, msg, ok)
        if kind == 'POSITIONAL_ARGUMENT':
            ob('C03.values C02.values', 'the positional argument holds its token', same(st, vals, tok(P)))
            return c.norm(P + 1)
        if not is_vec(vals):
            ob('C03.values', 'the values are known', False)
            return None
        n = c.norm(vec_len(vals))
        ob('C04.number C33.advance', 'a used positional argument gets at least one value', c.is_ge(n - 1))
        if kind in GROUPS:
            grp = self.groups(lambda k: tok(P + k), n)
            ob('C03.values C02.values C04.number', 'the groups are the tokens in order', same(st, vals, grp))
            return c.norm(P + n * self.nargs.c)
        if kind == 'NUMBER_POSITIONAL_ARGUMENT':
            ob('C04.number', 'the positional argument holds as many values as declared', c.is_eq(n, self.nargs))
        ob('C03.values C02.values', 'the values are the tokens in order', same(st, vals, self.tokens(P, n)))
        return c.norm(P + n)

    def final(self, st, node):
        """all tokens are read"""
        if st.g('stage') != 1:
            if st.g('stage') == 0:
                # no token loop at all
                self.ob(st, 'C02.all', node, 'the tokens are read', False)
                st.sg('stage', 2)
            return
        self.settle(st, node, True)
        self.ob(st, 'C02.all', node, 'every token is used when parsing goes on', st.c.is_ge(st.g('P') - ARGC))
        self.canon(st)
        st.sg('stage', 2)
        # the tokens do not matter any more
        st.sg('phase', 0)
        st.sg('xs', ())
        st.sg('P', ZERO)
        drop = set(atoms_of(P_)) | set(atoms_of(END)) | set(atoms_of(ARGC))
        live = set()
        for k, v in st.h.items():
            if isinstance(v, (tuple, Lin)):
                live |= set(atoms_of(v))
        live |= set(atoms_of(self.nargs)) | set(atoms_of(N_)) | set(atoms_of(L_)) | set(atoms_of(D_)) | set(atoms_of(lin.sym('DG', 1, 1 << 40))) | set(atoms_of(lin.sym('D', 0, 1 << 40)))
        st.c = project(st.c, live - drop)

    # ------------------------------------------------------------ forgetting a round
    def canon(self, st):
        h = st.h
        self.drop_others(st)
        I = self.I
        ex = st.g('ex')
        c = st.c
        P = c.norm(st.g('P'))
        # facts about the position that survive
        facts = [('P1', P - 1)]
        for f in (P - 1, ARGC - P, END - P, P - END - 1, P - END):
            pass
        keepf = [g for g in (lambda p: p - 1, lambda p: ARGC - p, lambda p: END - p, lambda p: p - END - 1) if c.is_ge(g(P))]
        phase = 2 if c.is_ge(P - END - 1) else 1 if c.is_ge(END - P) else 0
        atend = c.is_eq(P, END) and False
        pl = []
        for x in st.g('xs') or ():
            v = self.xval(st, x)
            if v is not None and c.is_eq(v, P):
                pl.append(x)
        # the argument
        h[('F', A, F_EX)] = ONE if ex else ZERO
        h[('F', A, F_CNT)] = N_ if ex else ZERO
        if self.kind in SINGLE:
            h[('F', A, F_TXT)] = whole(('acc1',)) if ex else whole(('dv1',))
        elif self.valued():
            v = self.acc(st) if ex else self.absent(st)
            h[('F', A, '#vec')] = self.as_elements(v)
        h[('F', ROOT, ARGS + '::additionalArguments_')] = ('V', (run(whole(('add', K[0])), A2_),))
        for x in pl:
            h[('v',) + x[0][1:]] = P_ - x[1] if x[1] is not None else ('argv', P_)
        old = frozenset().union(*(set(atoms_of(x)) for x in (P_, N_, L_, A2_, D_)))
        for k, v in list(h.items()):
            # values written in terms of the position of the round that ends
            if k[0] in ('v', 'F', 'H') and isinstance(v, Lin) and k not in (('F', A, F_CNT),) and all(k != ('v',) + x[0][1:] for x in pl) and old & set(atoms_of(v)):
                for w in (self.nargs, END, ARGC):
                    if c.is_eq(v, w):
                        h[k] = w
                        break
                else:
                    w = c.norm(v)
                    if old & set(atoms_of(w)):
                        raise AnalysisError('%s depends on the position in the command line' % (k,))
                    h[k] = w
        st.sg('P', P_)
        st.sg('phase', phase)
        for g, v in (('occ', ZERO), ('hit', 0), ('wl', 0), ('who', 0), ('kind', 0), ('lett', ONE), ('lookend', ZERO), ('lettmiss', 0), ('altlook', 0), ('pos', 0), ('side', ())):
            st.sg(g, v)
        # facts: the configuration, the position, and those on values still in use
        vol = set(atoms_of(P_)) | set(atoms_of(N_)) | set(atoms_of(L_)) | set(atoms_of(A2_)) | set(atoms_of(D_))
        live = set()
        self.forget_config(st)
        for k, v in h.items():
            if k[0] == 'G' or isinstance(v, (tuple, Lin)):
                if isinstance(v, (tuple, Lin)):
                    live |= set(atoms_of(v))
        live |= self.live_atoms(st)
        live -= vol
        live |= set(atoms_of(self.nargs)) | set(atoms_of(lin.sym('DG', 1, 1 << 40))) | set(atoms_of(lin.sym('D', 0, 1 << 40)))
        live -= set(atoms_of(P_)) | set(atoms_of(self.pA)) | set(atoms_of(lin.sym('after', 0, 1 << 40))) | self.config_atoms
        c2 = project(c, live)
        for g in keepf:
            c2 = c2.add_ge(g(P_))
        if ex:
            c2 = c2.add_ge(N_ - 1)
        st.c = c2
        I.renorm(st)

    config_atoms = frozenset()

    def forget_config(self, st):
        """what a round found out about the settings of the object is not kept"""
        for key, t in self.P.fields(ARGS):
            k = ('F', ROOT, key)
            v = st.h.get(k)
            if isinstance(v, Lin) and self.P.kind(t) in ('bool', 'int', 'enum'):
                x = self.sym(t, (ROOT[1], key))
                if st.c.is_eq(v, x):
                    st.h[k] = x
                    self.config_atoms = self.config_atoms | set(atoms_of(x))

    def as_elements(self, v):
        """list of texts -> list of stored elements"""
        out = []
        for t, n in v[1]:
            if is_vec(t):
                x = el_rec(self.P, EMPTY_S, self.as_elements(t))
            else:
                x = el_rec(self.P, t)
            out.append((x, n))
        return ('V', tuple(out))

    def modes(self, st):
        """(name of an exception mode, known to be on/off)"""
        out = []
        for n in ('isHelpException_', 'isVersionException_'):
            v = self.I.load(st, ('F', ROOT, ARGS + '::' + n))
            out.append((n, 'on' if st.c.is_ne(v) else 'off' if st.c.is_eq(v) else None))
        return tuple(out)

    def output(self, st, loc, s, node):
        if st.g('stage') == 1:
            md = self.modes(st)
            self.final(st, node)
            st.sg('modes', md)
        st.sg('out', tuple(st.g('out') or ()) + ((loc[1], snorm(st, s)),))

    def on_delete(self, st, loc, node):
        return [st]


def scenarios():
    out = [('O', k) for k in TYPES]
    out += [('N', k) for k in ('SIMPLE_OPTION', 'INFINITE_POSITIONAL_ARGUMENT')]
    out += [('Z', k) for k in ('SIMPLE_OPTION', 'POSITIONAL_ARGUMENT')]
    return out


def analyse(mode, kind, variant='split'):
    P = load(variant)
    rep = Report('parse')
    try:
        f = P.one(ARGS + '::parseArguments')
        for ini in range(2):
            env = ParseEnv(P, kind, rep, mode)
            sts = env.start()
            if ini >= len(sts):
                continue
            env.I = I = Engine(P, env)
            if os.environ.get('VERIF_TIER') != 'thorough':
                I.max_steps = 3000000 if mode == 'B' else 2200000
            o = run_in(I, f, sts[ini], ('ptr', ROOT), [ARGC, ('argv', ZERO)])
            outcome(env, P, rep, o, f)
            rep.take(I, 'C01.memory')
    except AnalysisError as x:
        if os.environ.get('VERIF_DEBUG'):
            import traceback
            traceback.print_exc()
        rep.error('%s/%s: %s' % (mode, kind, x))
    return rep


EXC = NS + 'Exception'
HELP_EXC, VERSION_EXC = NS + 'HelpException', NS + 'VersionException'
EARLY = 'parseArguments returns only after reading the command line'


def outcome(env, P, rep, o, f):
    w = f.get('defloc', 'parseArguments')
    I = env.I
    help_, vers = env.kind == 'HELP_OPTION', env.kind == 'VERSION_OPTION'

    def setting(s, n):
        return I.load(s, ('F', ROOT, ARGS + '::' + n))

    for s, v in o.returns:
        rep.count('returns')
        if s.g('stage') == 0:
            key = None
            look = dict((show_val(k), v) for k, v in (s.g('hn') or ()))
            if env.mode == 'N' and look.get('"-h"') == look.get('"--help"') == 1:
                key = 'early-return|-h and --help are other options'
            for r in 'C02.all C03.all C07.exist C08.required C09.gate C10.once C11.auto C14.append C06.match'.split():
                env.ob(s, r, w, EARLY, False, key)
            continue
        env.final(s, w)
        env.ob(s, 'C08.required', w, 'a required argument is present when parseArguments returns', env.required_ok(s))
        env.ob(s, 'C09.gate', w, 'the validator has accepted when parseArguments returns', not env.must_validate(s) or s.g('valid') == 2)
        env.ob(s, 'C09.report C03.final', w, 'the argument reports the validated values', env.final_values(s))
        env.ob(s, 'C10.once', w, 'the destination is written once', s.g('dest') == 1)
        env.ob(s, 'C27.final', w, 'the numbers were read from the values reported at the end', env.kind in FLAGS or s.g('num') == 1)
        env.ob(s, 'C24.keep', w, 'the destination was written from the values reported at the end', s.g('dest') == 1)
        env.ob(s, 'C11.help', w, 'a help or version request does not return', not (s.g('ex') == 1 and (help_ or vers)))
        env.ob(s, 'C07.final', w, 'presence and count are those of the command line', s.c.is_eq(I.load(s, ('F', A, F_EX)), Lin(s.g('ex'))) and s.c.is_eq(I.load(s, ('F', A, F_CNT)), N_ if s.g('ex') else ZERO))
        env.ob(s, 'C14.final', w, 'the additional arguments are not changed after the tokens', same(s, setting(s, 'additionalArguments_'), ('V', (run(whole(('add', K[0])), A2_),))))
        env.ob(s, 'C11.silent C12.output', w, 'nothing is printed when parseArguments returns', not s.g('out'))
    usage = whole(('usage',))
    for s, x, n in o.throws:
        rep.count('exceptions')
        t, rec, at = x[1], dict(x[2][2]) if x[2][0] == 'rec' else {}, x[3]
        ob = lambda rids, msg, ok, key=None: env.ob(s, rids, at, msg, ok, key)
        if t in ('#dest', '#user'):
            ob('C23.own', 'exceptions of the user pass through', True)
            continue
        lib = t == HELP_EXC or t == VERSION_EXC or t == PARSE_EXC or P.derives(t, PARSE_EXC)
        ob('C23.type C06.reject C04.reject C11.type', 'only the documented exceptions leave parseArguments', lib)
        if not lib:
            continue
        ob('C11.silent', 'nothing is printed when parseArguments throws', not s.g('out'))
        modes = dict(env.modes(s))
        if s.g('stage') == 1 and t in (HELP_EXC, VERSION_EXC, REQ_EXC, VALID_EXC):
            env.final(s, at)
        stage = s.g('stage')
        if t == HELP_EXC:
            ob('C11.help', 'the help exception follows the tokens', stage == 2)
            ob('C11.request', 'the help exception follows a request', not help_ or s.g('ex') == 1)
            ob('C11.mode', 'the help exception is thrown only when enabled', modes['isHelpException_'] == 'on')
            ob('C11.text', 'the help exception carries the usage text', same(s, rec[EXC + '::str_'], usage))
            continue
        if t == VERSION_EXC:
            ob('C11.help', 'the version exception follows the tokens', stage == 2)
            ob('C11.request', 'the version exception follows a request', not vers or s.g('ex') == 1)
            ob('C11.first', 'a help request goes before a version request', not (help_ and s.g('ex') == 1))
            ob('C11.mode', 'the version exception is thrown only when enabled', modes['isVersionException_'] == 'on')
            ob('C11.text', 'the version exception carries the version text', same(s, rec[EXC + '::str_'], setting(s, 'version_')))
            continue
        name = rec.get(NS + 'ArgumentException::argument_', EMPTY_S)
        names = I.load(s, ('F', A, F_NAMES))
        front = seg_at(names[1][0], ZERO) if is_vec(names) and names[1] else None
        mine = front is not None and same(s, name, front)
        if t == REQ_EXC:
            ob('C08.stage', 'a missing required argument is reported after the tokens', stage == 2)
            if mine:
                ob('C08.exact', 'only an absent required argument is reported as missing', s.g('ex') == 0 and s.c.is_ne(I.load(s, ('F', A, F_REQ))))
            ob('C08.named C23.name', 'the missing argument is named', name != EMPTY_S)
        elif t == VALID_EXC:
            ob('C09.stage', 'values are validated after the tokens', stage == 2)
            if s.g('valid') == 3:
                ob('C09.named C23.name', 'a refused value is reported with the name of its argument', mine)
            elif mine:
                # (a validator on a flag-like option is refused whenever the option is used)
                ob('C09.named', 'only a refused argument is reported', not env.valued() and s.g('ex') == 1 and env.has_valid(s) != 0)
            ob('C08.first', 'a missing required argument is reported before validation', env.required_ok(s))
        elif stage == 1:
            ok = not s.g('out')
            P_i = s.c.norm(s.g('P'))
            flag = env.looks_like_flag(s, P_i)
            behind = s.c.is_ge(P_i - END - 1)
            if flag is False or behind:
                tokn = same(s, name, tok(P_i))
                ob('C14.name C23.name', 'the refused token or the positional argument is named', tokn or not text_from_tokens(name))
                if tokn:
                    ob('C14.strict', 'a surplus token is only refused in strict mode', s.c.is_ne(setting(s, 'isStrict_')))
            if behind:
                ob('C05.option', 'a token behind "--" is not treated as an option', s.g('wl') == 0)
            if flag is True and not behind:
                ob('C23.name', 'the refused option is named', mine or env.names_option(s, P_i, name))
        else:
            ob('C09.stage C04.reject', 'the command line is refused while its tokens are read', False)
        if stage == 2 and s.g('ex') == 1 and (help_ or vers):
            ob('C11.first', 'a help or version request goes before other reports', False)
        if stage == 2 and s.g('valid') == 3:
            ob('C09.named C23.type', 'a refused value is reported as such', t == VALID_EXC)
    for s, n_, code, n in o.exits:
        rep.count('exits')
        ob = lambda rids, msg, ok: env.ob(s, rids, n, msg, ok)
        ob('C11.status C12.exit', 'the exit status is 0', isinstance(code, Lin) and s.c.is_eq(code))
        ob('C11.request C12.exit', 'parseArguments only exits after the tokens', s.g('stage') == 2)
        out = s.g('out') or ()
        text = EMPTY_S
        std = True
        for where, t in out:
            std = std and where == 'std::cout'
            text = snorm(s, ('S', text[1] + t[1]))
        ob('C11.stream', 'help and version are printed to standard output', std and bool(out))
        printed = lambda t: same(s, text, t) or same(s, text, ('S', t[1] + lit('\n')[1]))
        u = printed(usage)
        v = printed(setting0(env, s, 'version_'))
        ob('C11.text', 'the usage or the version is printed', u or v)
        if u:
            ob('C11.request', 'the usage is printed on request', not help_ or s.g('ex') == 1)
            ob('C11.mode', 'the usage is printed when help exceptions are off', dict(s.g('modes') or ()).get('isHelpException_') == 'off')
        elif v:
            ob('C11.request', 'the version is printed on request', not vers or s.g('ex') == 1)
            ob('C11.first', 'a help request goes before a version request', not (help_ and s.g('ex') == 1))
            ob('C11.mode', 'the version is printed when version exceptions are off', dict(s.g('modes') or ()).get('isVersionException_') == 'off')


def text_from_tokens(name):
    return any(p[0] == 's' and p[1][0] == 'tok' for p in name[1])


def setting0(env, st, n):
    """a setting of the object as it was before the call"""
    for key, t in env.P.fields(ARGS):
        if key == ARGS + '::' + n:
            return env.sym(t, (ROOT[1], key))


def lin_setting(env, n):
    return setting0(env, None, n)


def job(a):
    t0 = time.time()
    try:
        r = analyse(*a)
    except Exception as x:
        import traceback
        traceback.print_exc()
        r = Report('parse')
        r.error('internal %s: %r' % (a, x))
    r.counts['seconds'] = int(time.time() - t0)
    return r


ALL = tuple('O.' + k for k in TYPES)
ZN = ('Z.SIMPLE_OPTION', 'Z.POSITIONAL_ARGUMENT', 'N.SIMPLE_OPTION', 'N.INFINITE_POSITIONAL_ARGUMENT')
OPTIONS = tuple('O.' + k for k in TYPES if k not in POSITIONAL)
POSITIONALS = tuple('O.' + k for k in TYPES if k in POSITIONAL)
CALM = tuple('O.' + k for k in TYPES if k not in FLAGS)
# the argument kinds a property is decided for (the others have nothing to say about it)
KINDS = {
    'C01': ALL + ZN[:2], 'C02': ALL + ZN, 'C03': ALL + ZN, 'C04': ALL, 'C05': ALL, 'C06': ALL + ZN[2:],
    'C07': ALL + ZN, 'C08': ALL + ZN, 'C09': ALL + ZN, 'C10': ALL + ZN, 'C11': ALL + ZN, 'C13': ALL + ZN,
    'C14': ALL + ZN, 'C12': ALL + ZN, 'C23': ALL + ZN, 'ALL': ALL + ZN, 'C33': ALL, 'C24': ALL, 'C27': ALL,
}
# slow scenarios first
SLOW = ('MULTI_NUMBER_INFINITE_OPTION', 'INFINITE_NUMBER_POSITIONAL_ARGUMENT', 'MULTI_NUMBER_OPTION', 'NUMBER_OPTION',
        'INFINITE_OPTION', 'INFINITE_POSITIONAL_ARGUMENT', 'NUMBER_POSITIONAL_ARGUMENT', 'MULTI_INFINITE_OPTION')


def pjob(a):
    import gc
    gc.disable()
    pid, mode, kind, group, until = a
    os.environ['VERIF_GROUP'] = str(group)
    rep = job((mode, kind))
    if mode == 'O' and rep.errors and time.time() < until and not any(e.startswith('internal') for e in rep.errors):
        # a loop could not be summarised: look for a violation among the short command lines
        more = job(('B', kind))
        rep.counts['scenarios repeated with short command lines'] = 1
        if not any(e.startswith('imprecise') for e in more.errors):
            if any(e.startswith('imprecise') for e in rep.errors):
                rep.viol = []
            rep.errors = ['undecided ' + e for e in rep.errors]
            rep.viol += more.viol
    out = Report(pid)
    tags = (pid + '.',) if pid != 'ALL' else ('C',)
    for k, text, tr in rep.viol:
        if text[1:].startswith(tags):
            out.viol.append((k, text, tr))
    out.errors = list(rep.errors)
    if any(e.startswith('imprecise') for e in rep.errors):
        out.viol = []
    n = rep.per.get(pid, [0, 0]) if pid != 'ALL' else [rep.obl, rep.done]
    out.obl, out.done = n
    out.samples = [x for x in rep.samples if x[1:].startswith(tags)]
    out.counts = dict(rep.counts)
    out.counts['scenarios'] = 1
    out.funcs = rep.funcs
    return out


def check(pid, rep):
    thorough = os.environ.get('VERIF_TIER') == 'thorough'
    load()
    todo = []
    until = time.time() + (3000 if thorough else 360)
    for x in KINDS[pid]:
        mode, kind = x.split('.')
        todo.append((pid, mode, kind, 2, until))
        if thorough and kind in GROUPS and mode == 'O':
            todo.append((pid, mode, kind, 3, until))
    todo.sort(key=lambda j: (j[1] != 'O', SLOW.index(j[2]) if j[2] in SLOW else 99))
    complete = 0
    known = findings(pid)
    for a, r, err in jobs.run(pjob, todo, time.time() + (6000 if thorough else 720)):
        if err:
            rep.error('scenario %s.%s: %s' % (a[1], a[2], err))
            continue
        rep.merge(r)
        if not r.errors:
            complete += 1
        if not thorough and any(v[0] not in known for v in rep.viol):
            rep.notes.append('stopped at the first scenario with a violation')
            break
    for rid, text in RULES.items():
        if rid.startswith(pid + '.'):
            rep.rule(rid, text)
    rep.count('scenarios analysed to the end', complete)
    rep.partial = complete
    rep.need('returns', 8)
    rep.need('loops summarised', 5)


RULES = {
    'C01.memory': 'every read of argv, of a token, and every container or string access on a path of parseArguments is within bounds (argv index in [0,argc), character index at most the length of the token)',
    'C01.argc': 'a positional argument never takes a token at or behind argc',
    'C02.all': 'parseArguments returns only after every token was used',
    'C02.extra': 'a surplus token is appended unchanged to the additional arguments',
    'C02.lost': 'a round of the token loop that uses nothing leaves the read position where it was (except for the first "--")',
    'C02.next': 'after each round the read position is the first token not used yet',
    'C02.once': 'a token is used for one thing only, a positional argument is filled once',
    'C02.order': 'positional arguments are filled in listing order, and before the additional arguments',
    'C02.values': 'values are consecutive tokens behind the flag (or at the read position), in order',
    'C03.all': 'see C02.all', 'C03.default': 'an absent argument holds exactly its defaults',
    'C03.final': 'the values at the end are those read (or left by the validator), or the defaults',
    'C03.spelling': 'the attached value is the text behind "=" or behind the letter',
    'C03.values': 'the values after an occurrence are the earlier ones (APPEND, EXTEND) or nothing, followed by the tokens of the occurrence; no default among them',
    'C04.attached': 'a value is attached only to options taking single values', 'C04.none': 'a flag-like option takes no value',
    'C04.number': 'the number of values taken by an occurrence is the declared one', 'C04.reject': 'what cannot be satisfied is a ParseArgumentException',
    'C05.before': 'options are recognised and option values taken only before the first "--"', 'C05.dropped': 'the first "--" is used for nothing',
    'C05.option': 'a token behind "--" is never refused as an option',
    'C06.alternative': 'single-dash long flags exactly in alternative mode', 'C06.match': 'the looked-up flag is the text up to "=" or a letter; every letter up to the value is registered',
    'C06.option': 'a token looking like an option is used neither as positional nor as additional argument', 'C06.own': 'an argument changes only when its own flag was read',
    'C06.reject': 'everything else is a ParseArgumentException',
    'C07.absent': 'presence and count are reset before tokens are read', 'C07.count': 'each occurrence adds one', 'C07.exist': 'present exactly when used', 'C07.final': 'presence and count are not changed after the tokens',
    'C08.exact': 'only an absent required argument is reported as missing', 'C08.first': 'requirements are checked before validators and destinations', 'C08.named': 'the missing argument is named',
    'C08.required': 'parseArguments returns only if the argument is present or not required', 'C08.stage': 'requirements are checked after all tokens',
    'C09.exact': 'the validator gets exactly the values, in order', 'C09.gate': 'parseArguments returns only after the validator of a present argument accepted', 'C09.named': 'a refusal names the argument',
    'C09.once': 'one call per parse', 'C09.present': 'absent arguments are not validated', 'C09.report': 'the values left by the validator are stored', 'C09.stage': 'validators run after all tokens',
    'C10.after-valid': 'a destination is written after the validator accepted', 'C10.late': 'a destination is written after tokens, help, version and required handling', 'C10.once': 'one write per parse', 'C10.values': 'the final values are in place when the destination is written',
    'C11.auto': 'without a help option the free ones of -h and --help become one', 'C11.first': 'help before version before required, validators and destinations', 'C11.help': 'a request never returns; the exception comes after the tokens',
    'C11.mode': 'exception or print-and-exit according to the mode', 'C11.request': 'only on request', 'C11.silent': 'nothing else is printed', 'C11.status': 'exit status 0', 'C11.stream': 'to standard output', 'C11.text': 'the usage or the version text', 'C11.type': 'only documented exceptions',
    'C13.fresh': 'no presence, count, value or additional argument of an earlier parse is left when the tokens are read',
    'C14.append': 'surplus tokens are appended in order', 'C14.final': 'additional arguments are not changed afterwards', 'C14.fresh': 'they start empty', 'C14.name': 'the refused token is named', 'C14.only': 'nothing else is appended', 'C14.order': 'no token is surplus while a positional argument is unused', 'C14.strict': 'refused exactly in strict mode',
    'C24.keep': 'after its destination was written, the values of an argument are not touched before parseArguments returns',
    'C27.final': 'toNumber_ is the last thing that happens to the values of an argument',
    'C33.advance': 'every round of the token loop and of the value loops moves the read position forward',
}

COMMON = [
    'one argument of each kind is tracked exactly; the others are unknown arguments reached through the name map and the list (kinds reachable by name: flag-like; by position: flag-like or single positional), so an effect of another value-taking argument on the tracked one is decided when the other one is tracked',
    'every argument has at least one name; option texts and tokens are NUL-free; counts and sizes stay below 2^62',
    'groups (nargs >= 2 with APPEND, EXTEND or INFINITE) are analysed for nargs = 2 (thorough: also 3); validators of grouped arguments keep the number of values',
    'getUsage() and addArgument() are taken as summaries here (decided by other properties)',
    'no allocation failure; the configuration was made through the public interface and is not changed during the parse except by the parse itself',
]
ASSUME = {p: COMMON for p in KINDS}
