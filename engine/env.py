"""Environment: how the unknown world looks (symbolic objects) and what is observed."""
from core import *
import lin
from prog import AnalysisError, clean
from interp import Interp, int_range
from loops import LoopMixin
from stdlib import StdMixin, base_name


class Engine(StdMixin, LoopMixin, Interp):
    pass


class Env(object):
    discrete = frozenset()

    def __init__(self):
        self.in_base_ctor = 0
        self.events = []
        self.argc = None
        self.loops = []

    # ------------------------------------------------------------ symbolic values
    def sym(self, t, name, depth=0, rec=None):
        """symbolic value of type t called name (a hashable, possibly with Lins)"""
        p = self.I.p
        ty = p.ty(t)
        k = ty.get('k')
        if k in ('int', 'bool', 'enum'):
            return atom_lin(('fld', name), *int_range(ty))
        if k == 'float':
            return ('fl', ('fld', name))
        if k == 'ptr':
            to = p.ty(ty['to'])
            if to.get('k') == 'func' or ty.get('fn'):
                return ('ofn', name)
            if to.get('k') == 'int' and to.get('bits') == 8:
                return ('cp', whole(('fld', name)), ZERO, ('ext', name))
            return ('optr', name)
        if k == 'ref':
            return ('ref', ('H', name))
        if k == 'record':
            qn = base_name(clean(ty.get('qn', '')))
            if qn == 'std::basic_string':
                return whole(('fld', name))
            if qn in ('std::vector', 'std::list'):
                return self.sym_vec(t, name, depth)
            if ty.get('name') in p.records:
                return ('rec', ty['name'], tuple((key, self.sym_field(ty['name'], key, ft, name, depth)) for key, ft in p.fields(ty['name'])))
            if qn == 'std::map':
                return ('map', name)
        if k == 'array':
            return ('arr', t, name)
        if k == 'func':
            return ('ofn', name)
        raise AnalysisError('symbolic value of type %s' % t)

    def sym_field(self, rec, key, ft, name, depth):
        return self.sym(ft, (name, key), depth)

    MAXNEST = 2

    def sym_vec(self, t, name, depth):
        el = self.elem_type(t)
        if el is None:
            raise AnalysisError('element type of %s' % t)
        if depth >= self.MAXNEST:
            return EMPTY_V
        k = fresh('k%d' % depth)
        x = self.sym(el, ('el', name, k), depth + 1)
        n = atom_lin(('len', name), 0, 1 << 40)
        from values import run
        return ('V', (run(x, n, k),))

    def elem_type(self, t):
        ty = self.I.p.ty(t)
        for key in ('el', 'elem', 'args', 'targs'):
            v = ty.get(key)
            if isinstance(v, list) and v:
                return v[0]
            if isinstance(v, str):
                return v
        return None

    # ------------------------------------------------------------ memory
    def missing(self, st, loc):
        """value of a location never written so far"""
        if loc[0] == 'F':
            root = loc[1]
            sv = st.h.get(('F', root, '#stat'))
            if sv is not None:
                return atom_lin((loc[2],) + sv[1:], 0, 1 << 32)
            if root[0] == 'H':
                cls = self.class_of(st, root)
                if cls is not None:
                    for key, ft in self.I.p.fields(cls):
                        if key == loc[2]:
                            return self.field_value(st, root, key, ft)
        if loc[0] == 'H':
            cls = self.class_of(st, loc)
            if cls is not None:
                return ('obj', cls)
        return None

    def field_value(self, st, root, key, ft):
        return self.sym(ft, (root[1], key))

    def class_of(self, st, loc):
        v = st.h.get(loc)
        if isinstance(v, tuple) and v[0] == 'obj':
            return v[1]
        return None

    def resolve_lazy(self, st, loc, v):
        raise AnalysisError('lazy')

    def on_atom(self, st, a, t):
        return True

    def on_char(self, st, base):
        return True

    def char_access(self, st, base):
        return [st]

    def on_write(self, st, loc, v, node):
        pass

    def on_seq_write(self, st, loc, v, node):
        pass

    def on_erase(self, st, loc, removed, node):
        pass

    def on_resolve(self, st, v, nn):
        return True

    def obj_eq(self, st, a, b, node):
        if a == b:
            return [(st, True)]
        return [(st, False)]

    def it_eq(self, st, a, b, node):
        raise AnalysisError('iterator comparison')

    def it_step(self, st, it, d, node):
        raise AnalysisError('iterator step')

    def it_deref(self, st, it, node):
        raise AnalysisError('iterator dereference')

    def map_method(self, st, n, obj, vs, e, f):
        raise AnalysisError('map method %s at %s' % (n, self.I.where(e)))

    def check_alive(self, st, loc, node):
        pass

    def owner(self, loc):
        return loc

    def check_owner(self, st, loc, node):
        pass

    def global_value(self, st, loc, e):
        return ('top', 'global')

    def global_write(self, st, loc, v, node):
        self.event(st, 'global-write', loc[1], node)

    def event(self, st, kind, what, node):
        if not self.I.quiet:
            self.events.append((kind, what, self.I.where(node), self.I.fn()))

    def char_write(self, st, loc, v, node):
        self.I.err('write through a character pointer', node)

    def array_read(self, st, loc, v, node):
        return [(st, fresh('arr', -128, 127))]

    def array_write(self, st, loc, x, v, node):
        self.I.err('array write', node)

    def memcopy(self, st, n, d, s, cnt, e):
        self.I.err('memory copy', e)

    def output(self, st, loc, s, node):
        self.event(st, 'output', (loc[1], s), node)

    def on_construct(self, st, loc, cls, node):
        pass

    def on_new(self, st, oid, t, node):
        pass

    def on_delete(self, st, loc, node):
        return [st]

    def virtual_call(self, st, f, loc, vs, e):
        return None

    def extern_call(self, st, f, obj, vs, e):
        return None

    def opaque_call(self, st, cv, vs, e):
        raise AnalysisError('call of an unknown function')

    def intercept(self, st, f, this, args, node):
        return None

    def on_sort(self, st, loc, v, a, b, name, cmpf, e):
        return None

    def str_rel(self, st, x, y):
        """how two strings are ordered: [(state, '<' | '=' | '>')], or None when nothing special is known"""
        return None

    def str_order(self, st, op, x, y, e):
        return None

    def algo_find(self, st, n, a, b, x, e):
        return None

    def getline(self, st, vs, e):
        raise AnalysisError('getline')

    def is_slots(self, st, loc):
        return False

    def slot_search(self, st, t, cnt, x, e):
        raise AnalysisError('search in a list of objects')

    # ------------------------------------------------------------ loops
    def loop_head(self, st, node, back):
        return [st]

    unroll_states = 12      # most states followed side by side when a loop is unrolled
    unroll_entries = 6
    unroll_rounds = 6

    def unrollable(self, node):
        return True

    def head_facts(self, st):
        return []

    def loop_enter(self, node):
        self.loops.append(node)

    def loop_leave(self, node):
        self.loops.pop()

    def may_forget(self, k):
        return True

    def live_atoms(self, st):
        return ()


class Outcome(object):
    """results of running one function"""

    def __init__(self, returns, throws, exits):
        self.returns, self.throws, self.exits = returns, throws, exits


def run(prog, env, f, st, this=None, args=(), ctor=False):
    I = Engine(prog, env)
    return run_in(I, f, st, this, args, ctor)


def run_in(I, f, st, this=None, args=(), ctor=False):
    I.exc, I.exits = [], []
    node = {'l': 'entry', '#': 0}
    if ctor:
        I.init_object(st, f['cls'], this[1])
    rets = I.invoke(st, f, this, list(args), node, ctor=ctor)
    return Outcome(rets, I.exc, I.exits)
