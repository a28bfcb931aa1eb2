"""Name lists, look-ups and clear() (C29, C28, C18)."""
import time
import jobs
from base import *
from env import *
from values import *
from core import *
import lin
from c_parse import NS, ARG, ARGS, A, ROOT
import c_obs

VEC = NS + 'Vector'
LITS = {'list_lit0': [''], 'list_lit1': ['a'], 'list_lit': ['--lit'], 'list_size3': ['', '', '']}
PLUS = {'list_plus_lit': ['--lit'], 'list_plus_lit1': ['a'], 'list_plus_cstr': [1], 'list_plus_str': [1]}
CHAIN = {'list_chain': [0, 1, '--lit', 2]}


class ListEnv(Env):
    def may_forget(self, k):
        return False


def vec_rec(P, v):
    return ('rec', VEC, tuple((key, v) for key, t in P.fields(VEC)))


def lists(P, rep, f):
    """one way of building a list: the result is the given texts in order"""
    env = ListEnv()
    I = Engine(P, env)
    st = St()
    args, want = [], []
    name = f['n']
    base = None
    for i, p in enumerate(f['params']):
        t = p['t']
        txt = whole(('param', i))
        if 'basic_string' in t:
            loc = ('H', ('param', i))
            st.h[loc] = txt
            args.append(('ref', loc))
            want.append(txt)
        elif 'char' in t:
            args.append(('cp', txt, ZERO, ('ext', ('param', i))))
            want.append(txt)
        else:
            k = fresh('k')
            base = ('V', (run(whole(('old', k)), lin.sym('olds', 0, 1 << 40), k),))
            args.append(vec_rec(P, base))
            want.append(None)
    spec = LITS.get(name) or PLUS.get(name) or CHAIN.get(name)
    if spec is not None:
        want = [want[x] if isinstance(x, int) else ('S', lit(x)[1]) for x in spec]
    w = ('V', (base[1] if base else ()) + tuple((snorm(st, x), ONE) for x in want))
    o = run_in(I, f, st, None, args)
    rep.take(I, 'C29.memory')
    rep.count('ways to build a list')
    rep.count('paths', len(o.returns))
    rep.ok('C29.total', f['defloc'], '%s: building a list of names does not fail' % name, not o.throws and not o.exits and bool(o.returns))
    for s, v in o.returns:
        v = I.val(s, v, {'l': f['defloc'], '#': 0})
        got = dict(v[2]).get('#vec') if isinstance(v, tuple) and v[0] == 'rec' else v
        if not c_obs.is_vec(got):
            raise AnalysisError('%s: the list is unknown' % name)
        rep.ok('C29.items', f['defloc'], '%s: the list is the given texts in order' % name, same(s, got, fold_vec(s, w)), s.tr)


def check29(rep):
    P = load()
    fs = sorted((f for f in P.funcs.values() if f['qn'].startswith('verif_client::list_')), key=lambda f: f['n'])
    for f in fs:
        r = c_obs.attempt('C29', f['n'], lambda r: lists(P, r, f))
        rep.merge(r)
        if not r.errors:
            rep.partial += 1
    rep.need('ways to build a list', 44)


RULES = {
    'C29.items': 'every constructor of Vector, every operator+ and every overload of Args::vector yields exactly the given texts in the given order', 'C29.total': 'none of them throws', 'C29.memory': 'no invalid access',
}
ASSUME = {'C29': ['array parameters are decided for 1, 2, 3 and 5 elements; texts are NUL-free']}


def check(pid, rep):
    {'C29': check29}[pid](rep)
    for rid, text in RULES.items():
        if rid.startswith(pid + '.'):
            rep.rule(rid, text)
