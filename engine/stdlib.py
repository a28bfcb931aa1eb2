"""Models of the standard library operations used by the analysed code."""
from core import *
import lin
from prog import AnalysisError, clean

NPOS = Lin((1 << 64) - 1)
SEQ = ('std::vector', 'std::list', 'std::deque', 'std::initializer_list')
ITER = ('std::__normal_iterator', 'std::_List_iterator', 'std::_List_const_iterator', 'std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator', 'std::_Deque_iterator')
STREAMS = ('std::basic_ostringstream', 'std::basic_istringstream', 'std::basic_stringstream', 'std::basic_ostream', 'std::basic_istream', 'std::basic_ios', 'std::ios_base', 'std::basic_iostream')


def base_name(qn):
    """qualified name without template arguments"""
    out = []
    d = 0
    i = 0
    n = len(qn)
    while i < n:
        c = qn[i]
        if c == '<' and not qn[:i].endswith('operator') and not qn[:i].endswith('operator<'):
            d += 1
        elif c == '>' and d > 0 and qn[i - 1] != '-':
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    return ''.join(out)


class StdMixin(object):
    # ------------------------------------------------------------ helpers
    def val(self, st, v, node=None):
        """load a glvalue result"""
        if isinstance(v, tuple) and v[0] == 'ref':
            if v[1][0] in ('CP', 'ARGV', 'SC', 'GLOB', 'TOP'):
                r = self.read_loc(st, v[1], dict(node or {}, t='char'))
                if len(r) == 1:
                    return r[0][1]
                return fresh('anych', -128, 127)
            return self.load(st, v[1], node)
        return v

    def seq(self, st, v, node):
        """(location or None, sequence value) of a sequence object"""
        loc = None
        if isinstance(v, tuple) and v[0] == 'ref':
            loc = v[1]
            v = self.load(st, loc, node)
        if isinstance(v, tuple) and v[0] == 'rec':
            d = dict(v[2])
            if '#vec' in d:
                return (('F', loc, '#vec') if loc is not None else None), d['#vec']
        return loc, v

    def std_default(self, qn, t):
        qn = base_name(clean(qn))
        if qn == 'std::basic_string':
            return EMPTY_S
        if qn in SEQ:
            return EMPTY_V
        if qn in STREAMS:
            return ('stream', EMPTY_S, EMPTY_S, ZERO, ONE)
        if qn in ITER:
            return UNINIT
        if qn == 'std::map':
            return ('map', 'empty')
        if qn == 'stat':
            return ('statbuf', UNINIT)
        return ('top', 'default ' + qn)

    def std_call_name(self, f):
        return base_name(f['qn'])

    def cname(self, f):
        return base_name(f.get('cqn') or f['qn'].rsplit('::', 1)[0])

    def text(self, st, v, node):
        """[(st, S)] text of a string-like or char argument"""
        if isinstance(v, tuple) and v[0] == 'ref':
            v = self.val(st, v, node)
        if isinstance(v, Lin):
            v = st.c.norm(v)
            if v.const and 0 < v.c < 128:
                return [(st, lit(chr(v.c)))]
            return [(st, ('S', (('c', v),)))]
        return self.as_str(st, v, node)

    # ------------------------------------------------------------ constructors
    def std_ctor(self, st, f, vs, e):
        c = self.cname(f)
        ps = f.get('ps') or [p['t'] for p in f.get('params', [])]
        if c == 'std::basic_string':
            if not vs:
                return [(st, EMPTY_S)]
            a = self.val(st, vs[0], e)
            if isinstance(a, Lin) and len(vs) >= 2:
                ch_ = self.val(st, vs[1], e)
                if isinstance(ch_, Lin):      # (n, c)
                    n, cc = st.c.norm(a), st.c.norm(ch_)
                    if n.const and cc.const and 0 <= n.c < 64 and 0 < cc.c < 128:
                        return [(st, lit(chr(cc.c) * n.c))]
                    return [(st, ('S', (('rep', cc, n),)))]
            if isinstance(a, tuple) and a[0] == 'it':
                b = self.val(st, vs[1], e)
                s = self.load(st, a[2], e)
                return self.substr(st, s, a[3], b[3] - a[3], e)
            rest = [self.val(st, v, e) for v in vs[1:]]
            nums = [v for v in rest if isinstance(v, Lin)]
            out = []
            for s, t in self.as_str(st, a, e):
                if isinstance(a, tuple) and a[0] == 'cp' and len(nums) == 1:     # (const char*, n)
                    out += self.substr(s, t, ZERO, nums[0], e)
                elif isinstance(a, tuple) and a[0] == 'cp' and rest and isinstance(rest[0], tuple) and rest[0][0] == 'cp':
                    out += self.substr(s, t, ZERO, rest[0][2] - a[2], e)
                elif not nums:
                    out.append((s, t))
                else:
                    n = nums[1] if len(nums) > 1 else None
                    if n is not None and (n.const and n.c >= (1 << 62)):
                        n = None
                    out += self.substr_throw(s, t, nums[0], n, e)
            return out
        if c in ('std::vector', 'std::list', 'std::deque'):
            if not vs:
                return [(st, EMPTY_V)]
            a = self.val(st, vs[0], e)
            if isinstance(a, Lin):
                n = st.c.norm(a)
                if len(vs) >= 2 and not (isinstance(vs[1], tuple) and vs[1][0] == 'alloc'):
                    x = self.val(st, vs[1], e)
                    if isinstance(x, tuple) and x[0] == 'alloc':
                        x = None
                else:
                    x = None
                if x is None:
                    x = self.elem_default(f, e)
                if n.const and n.c <= 64:
                    return [(st, ('V', tuple((x, ONE) for _ in range(n.c))))]
                return [(st, fold_vec(st, ('V', ((x, n),))))]
            if isinstance(a, tuple) and a[0] in ('it', 'ap', 'ptr') and len(vs) >= 2:
                return self.range_value(st, a, self.val(st, vs[1], e), e)
            loc, v = self.seq(st, vs[0], e)
            if is_vec(v):
                return [(st, v)]
            if isinstance(v, tuple) and v[0] == 'alloc':
                return [(st, EMPTY_V)]
            return [(st, self.top(st, 'sequence from %s' % (v,), e))]
        if c == 'std::allocator':
            return [(st, ('alloc',))]
        if c == 'std::initializer_list':
            return [(st, self.val(st, vs[0], e))]
        if c == 'std::pair':
            if len(vs) == 1:
                return [(st, self.val(st, vs[0], e))]
            if not vs:
                return [(st, ('rec', '#pair', (('first', UNINIT), ('second', UNINIT))))]
            a, b = self.val(st, vs[0], e), self.val(st, vs[1], e)
            out = []
            if ps and isinstance(a, tuple) and a[0] == 'cp':
                return [(s, ('rec', '#pair', (('first', t), ('second', b)))) for s, t in self.as_str(st, a, e)]
            return [(st, ('rec', '#pair', (('first', a), ('second', b))))]
        if c in STREAMS:
            if not vs:
                return [(st, ('stream', EMPTY_S, EMPTY_S, ZERO, ONE))]
            a = self.val(st, vs[0], e)
            if isinstance(a, Lin):
                return [(st, ('stream', EMPTY_S, EMPTY_S, ZERO, ONE))]
            ostr = c == 'std::basic_ostringstream' or c == 'std::basic_stringstream'
            out = []
            for s, t in self.as_str(st, a, e):
                t = snorm(s, t)
                # without ios::ate the write position is at the start: output overwrites
                out.append((s, ('stream', EMPTY_S if c != 'std::basic_istringstream' and t == EMPTY_S else t, t, ZERO, ONE)))
            return out
        if c in ITER:
            if not vs:
                return [(st, UNINIT)]
            return [(st, self.val(st, vs[0], e))]
        if c == 'std::map':
            if vs:
                return [(st, self.val(st, vs[0], e))]
            return [(st, ('map', 'empty'))]
        if c == 'std::exception':
            return [(st, ('stdexc',))]
        if c == 'stat':
            return [(st, ('statbuf', UNINIT))]
        if c in ('std::runtime_error', 'std::logic_error', 'std::out_of_range', 'std::invalid_argument', 'std::length_error'):
            return [(st, ('stdexc', c))]
        self.err('constructor %s' % f['qn'], e)

    def elem_default(self, f, e):
        t = e.get('t')
        ty = self.p.ty(self.p.strip(t)) if t else {}
        el = ty.get('el') or ty.get('elem')
        if el is None:
            a = ty.get('args') or []
            el = a[0] if a else None
        if el is not None:
            k = self.p.kind(el)
            if k in ('int', 'bool', 'enum', 'ptr', 'float'):
                return self.zero_value(el)
            if k == 'record':
                return self.std_default(self.p.ty(el).get('qn', ''), el)
        return EMPTY_S

    def substr_throw(self, st, t, pos, n, e):
        """std::string::substr semantics: std::out_of_range when pos > size"""
        ln = str_len(t)
        ok, bad = self.fork_cmp(st, '<=', pos, ln)
        if bad is not None:
            self.std_throw(bad, 'std::out_of_range', e)
        if ok is None:
            return []
        return self.substr(ok, t, pos, n, e)

    def std_throw(self, st, name, e):
        self.exc.append((st, ('exc', name, ('stdexc', name), self.where(e)), e))

    def range_value(self, st, a, b, e):
        """elements [a, b) -> [(st, V)]"""
        if a[0] == 'it' and isinstance(b, tuple) and b[0] == 'it' and isinstance(a[3], Lin) and isinstance(b[3], Lin):
            loc, v = self.seq(st, ('ref', a[2]), e)
            if is_vec(v):
                return self.vec_slice(st, v, a[3], b[3], e)
            if is_str(v):
                return [(s, x) for s, x in self.substr(st, v, a[3], b[3] - a[3], e)]
        if a[0] == 'ap' and isinstance(b, tuple) and b[0] == 'ap':
            v = self.load(st, a[1], e)
            if is_vec(v):
                return self.vec_slice(st, v, a[2], b[2], e)
        if a[0] == 'ptr' and isinstance(b, tuple) and b[0] in ('ptr',) and a[1][0] == 'I' and b[1][0] == 'I':
            v = self.load(st, a[1][1], e)
            if is_vec(v):
                return self.vec_slice(st, v, a[1][2], b[1][2], e)
        if a[0] == 'argv' and isinstance(b, tuple) and b[0] == 'argv':
            n = st.c.norm(b[1] - a[1])
            return [(st, ('V', ((('cp', whole(('tok', a[1] + K[0])), ZERO, None), n),)))]
        return [(st, self.top(st, 'range', e))]

    def vec_split(self, st, v, pos, e):
        """[(st, left segs, right segs)] cut at pos (0 <= pos <= size)"""
        v = fold_vec(st, v)
        out = []
        acc = ZERO
        left = []
        cur = st
        pos = st.c.norm(pos)
        segs = list(v[1])
        for i, seg in enumerate(segs):
            a, b = self.fork_cmp(cur, '<', pos, acc + seg[1])
            if a is not None:
                rel = a.c.norm(pos - acc)
                if seg[1] == ONE:
                    out.append((a, tuple(left), tuple(segs[i:])))
                elif rel == ZERO:
                    out.append((a, tuple(left), tuple(segs[i:])))
                else:
                    z, nz = self.fork_cmp(a, '==', rel, ZERO)
                    if z is not None:
                        out.append((z, tuple(left), tuple(segs[i:])))
                    if nz is not None:
                        l = left + [seg_shift(seg, ZERO, nz.c.norm(rel))]
                        r = [seg_shift(seg, nz.c.norm(rel), nz.c.norm(seg[1] - rel))] + segs[i + 1:]
                        out.append((nz, tuple(l), tuple(r)))
            cur = b
            if cur is None:
                break
            acc = acc + seg[1]
            left.append(seg)
        if cur is not None:
            out.append((cur, tuple(left), ()))
        return out

    def vec_slice(self, st, v, a, b, e):
        ok = st.c.is_ge(a) and st.c.is_ge(b - a) and st.c.is_ge(vec_len(v) - b)
        self.oblige(st, 'mem', ok, e, 'range within the sequence')
        out = []
        for s, l, r in self.vec_split(st, v, a, e):
            for s2, l2, r2 in self.vec_split(s, ('V', r), b - a, e):
                out.append((s2, fold_vec(s2, ('V', l2))))
        return out

    # ------------------------------------------------------------ methods
    def std_method(self, st, f, obj, vs, e):
        c = self.cname(f)
        n = f['n']
        if isinstance(obj, tuple) and obj[0] == 'ref' and obj[1][0] == 'GLOB' and c in STREAMS:
            return self.global_stream(st, obj, n, vs, e)
        if c in STREAMS:
            return self.stream_method(st, n, obj, vs, e, f)
        if c in ITER:
            return self.iter_method(st, n, obj, vs, e)
        v = self.val(st, obj, e)
        if c == 'std::map' or (isinstance(v, tuple) and v[0] == 'map'):
            return self.env.map_method(st, n, obj, vs, e, f)
        if c == 'std::basic_string':
            return self.str_method(st, n, obj, v, vs, e, f)
        if c in SEQ or c.startswith('std::_Vector_base') or c.startswith('std::_List_base'):
            return self.seq_method(st, n, obj, vs, e, f)
        if c == 'std::pair' and n == 'operator=':
            x = self.val(st, vs[0], e)
            self.store(st, obj[1], x, e)
            return [(st, obj)]
        r = self.env.extern_call(st, f, obj, vs, e) if self.env else None
        if r is not None:
            return r
        self.err('method %s' % f['qn'], e)

    def set_obj(self, st, obj, v, e):
        if isinstance(obj, tuple) and obj[0] == 'ref':
            self.assign(st, obj[1], v, e)

    def str_method(self, st, n, obj, v, vs, e, f):
        if isinstance(v, tuple) and v[0] == 'top':
            v = ('S', (('o', 'unknown', self.fresh_id('?')),))
        if v == UNINIT and n in ('operator=', 'assign'):
            v = EMPTY_S
        if isinstance(v, tuple) and v[0] == 'uninit' or not is_str(v):
            self.err('string method %s on %s' % (n, v), e)
        owner = obj[1] if isinstance(obj, tuple) and obj[0] == 'ref' else ('T', self.depth, 'tmpstr')
        if n in ('c_str', 'data'):
            return [(st, ('cp', snorm(st, v), ZERO, self.env.owner(owner)))]
        if n in ('size', 'length'):
            return [(st, st.c.norm(str_len(v)))]
        if n == 'empty':
            return self.bool_vals(*self.fork_cmp(st, '==', str_len(v), ZERO))
        if n == 'clear':
            self.set_obj(st, obj, EMPTY_S, e)
            return [(st, ZERO)]
        if n in ('reserve', 'shrink_to_fit'):
            return [(st, ZERO)]
        if n in ('operator=', 'assign'):
            if len(vs) == 1:
                out = []
                for s, t in self.text(st, vs[0], e):
                    self.set_obj(s, obj, snorm(s, t), e)
                    out.append((s, obj))
                return out
            out = []
            for s, t in self.std_ctor(st, dict(f, cqn='std::basic_string'), vs, e):
                self.set_obj(s, obj, t, e)
                out.append((s, obj))
            return out
        if n in ('operator+=', 'append', 'push_back'):
            out = []
            if len(vs) == 1:
                for s, t in self.text(st, vs[0], e):
                    self.set_obj(s, obj, snorm(s, cat_s(v, t)), e)
                    out.append((s, obj))
                return out
            for s, t in self.std_ctor(st, dict(f, cqn='std::basic_string'), vs, e):
                self.set_obj(s, obj, snorm(s, cat_s(v, t)), e)
                out.append((s, obj))
            return out
        if n in ('operator[]', 'at'):
            k = self.val(st, vs[0], e)
            ln = str_len(v)
            if n == 'at':
                a, b = self.fork_cmp(st, '<', k, ln)
                if b is not None:
                    self.std_throw(b, 'std::out_of_range', e)
                if a is None:
                    return []
                st = a
            else:
                ok = st.c.is_ge(k) and st.c.is_ge(ln - k)
                self.oblige(st, 'mem', ok, e, 'string index within bounds')
                if not ok and not (self.assume(st, '>=', k, ZERO) and self.assume(st, '<=', k, ln)):
                    return []
            if not (isinstance(obj, tuple) and obj[0] == 'ref'):
                loc = ('T', self.depth, e.get('#', 0), 'so')
                st.h[loc] = v
                return [(st, ('ref', ('SC', loc, k)))]
            return [(st, ('ref', ('SC', obj[1], k)))]
        if n == 'front':
            return [(st, ('ref', ('SC', owner, ZERO)))]
        if n == 'back':
            ok = st.c.is_ge(str_len(v) - 1)
            self.oblige(st, 'mem', ok, e, 'back() of a non-empty string')
            return [(st, ('ref', ('SC', owner, st.c.norm(str_len(v) - 1))))]
        if n == 'substr':
            pos = self.val(st, vs[0], e) if vs else ZERO
            cnt = self.val(st, vs[1], e) if len(vs) > 1 else NPOS
            if cnt.const and cnt.c >= (1 << 62):
                cnt = None
            return self.substr_throw(st, snorm(st, v), pos, cnt, e)
        if n in ('begin', 'cbegin'):
            return [(st, ('it', 's', owner, ZERO))]
        if n in ('end', 'cend'):
            return [(st, ('it', 's', owner, st.c.norm(str_len(v))))]
        if n == 'compare':
            if len(vs) == 1:
                out = []
                for s, t in self.text(st, vs[0], e):
                    r = self.env.str_rel(s, snorm(s, v), snorm(s, t)) if self.env is not None else None
                    if r is not None:
                        out += [(x, Lin({'<': -1, '=': 0, '>': 1}[q])) for x, q in r]
                        continue
                    eqs, nes = self.str_eq(s, v, t, e)
                    out += [(x, ZERO) for x in eqs]
                    for x in nes:
                        r = atom_lin(('strcmp', snorm(x, v), snorm(x, t)), None, None)
                        c = x.c.add_ne(r)
                        if c is not None:
                            x.c = c
                            out.append((x, r))
                return out
            pos, cnt = self.val(st, vs[0], e), self.val(st, vs[1], e)
            out = []
            for s, t in self.substr_throw(st, snorm(st, v), pos, cnt, e):
                for s2, u in self.text(s, vs[2], e):
                    eqs, nes = self.str_eq(s2, t, u, e)
                    out += [(x, ZERO) for x in eqs]
                    out += [(x, ONE) for x in nes]
            return out
        if n in ('find', 'rfind', 'find_first_of', 'find_last_of', 'find_first_not_of', 'find_last_not_of'):
            return self.str_find(st, n, v, vs, e)
        if n in ('erase', 'insert', 'replace', 'resize', 'pop_back', 'swap'):
            return self.str_edit(st, n, obj, v, vs, e)
        self.err('string method ' + n, e)

    def str_edit(self, st, n, obj, v, vs, e):
        a = [self.val(st, x, e) for x in vs]
        ln = str_len(v)
        out = []
        if n == 'pop_back':
            self.oblige(st, 'mem', st.c.is_ge(ln - 1), e, 'pop_back of a non-empty string')
            for s, l, r in self.split(st, v, ln - 1, e):
                self.set_obj(s, obj, snorm(s, l), e)
                out.append((s, ZERO))
            return out
        if n == 'swap':
            o = vs[0]
            self.set_obj(st, obj, a[0], e)
            self.set_obj(st, o, v, e)
            return [(st, ZERO)]
        if n == 'erase' and (not a or isinstance(a[0], Lin)):
            pos = a[0] if a else ZERO
            cnt = a[1] if len(a) > 1 else None
            ok, bad = self.fork_cmp(st, '<=', pos, ln)
            if bad is not None:
                self.std_throw(bad, 'std::out_of_range', e)
            if ok is None:
                return []
            for s, l, r in self.split(ok, v, pos, e):
                if cnt is None or (cnt.const and cnt.c >= (1 << 62)):
                    self.set_obj(s, obj, snorm(s, l), e)
                    out.append((s, obj))
                    continue
                x, y = self.fork_cmp(s, '<', cnt, str_len(r))
                if y is not None:
                    self.set_obj(y, obj, snorm(y, l), e)
                    out.append((y, obj))
                if x is not None:
                    for s2, l2, r2 in self.split(x, r, cnt, e):
                        self.set_obj(s2, obj, snorm(s2, cat_s(l, r2)), e)
                        out.append((s2, obj))
            return out
        if n == 'insert' and isinstance(a[0], Lin):
            if len(a) == 3 and isinstance(a[1], Lin) and isinstance(a[2], Lin):
                t = ('S', (('rep', a[2], a[1]),))
                ts = [(st, t)]
            else:
                ts = self.text(st, a[1], e)
            for s, t in ts:
                for s2, l, r in self.split(s, v, a[0], e):
                    self.set_obj(s2, obj, snorm(s2, cat_s(l, t, r)), e)
                    out.append((s2, obj))
            return out
        if n == 'resize':
            x, y = self.fork_cmp(st, '<=', a[0], ln)
            if x is not None:
                for s, l, r in self.split(x, v, a[0], e):
                    self.set_obj(s, obj, snorm(s, l), e)
                    out.append((s, ZERO))
            if y is not None:
                cc = a[1] if len(a) > 1 else ZERO
                self.set_obj(y, obj, snorm(y, cat_s(v, ('S', (('rep', cc, y.c.norm(a[0] - ln)),)))), e)
                out.append((y, ZERO))
            return out
        self.set_obj(st, obj, ('S', (('o', 'edited', self.fresh_id('?')),)), e)
        return [(st, obj)]

    def eq_char_search(self, st, s, code, e):
        """first occurrence of a character in s -> [(st, position Lin or None)]"""
        s = snorm(st, s)
        # literal text: decided
        acc = ZERO
        cur = [st]
        out = []
        for p in s[1]:
            nxt = []
            for x in cur:
                if p[0] == 'l':
                    i = p[1].find(chr(code.c)) if code.const and 0 < code.c < 128 else -1
                    if i >= 0:
                        out.append((x, x.c.norm(acc + i)))
                        continue
                    nxt.append(x)
                elif p[0] == 's':
                    for x2 in (self.env.char_access(x, p[1]) if self.env else [x]):
                        h = atom_lin(('hasch', p[1], p[2], p[3], code), 0, 1)
                        t, f = self.fork_cmp(x2, '==', h, ONE)
                        if t is not None:
                            q = atom_lin(('chpos', p[1], p[2], p[3], code), 0, None)
                            if self.assume(t, '<', q, p[3]):
                                c = t.c.add_eq(ch(p[1], t.c.norm(p[2] + q)) - code)
                                if c is not None:
                                    t.c = c
                                    ok = self.chpos_facts(t, p, q, code)
                                    if ok:
                                        out.append((t, t.c.norm(acc + q)))
                        if f is not None and self.chpos_none(f, p, code):
                            nxt.append(f)
                elif p[0] == 'c':
                    t, f = self.fork_cmp(x, '==', p[1], code)
                    if t is not None:
                        out.append((t, t.c.norm(acc)))
                    if f is not None:
                        nxt.append(f)
                else:
                    x2 = x.fork()
                    q = fresh('pos', 0, None)
                    if self.assume(x2, '<', q, piece_len(p)):
                        out.append((x2, x2.c.norm(acc + q)))
                    nxt.append(x)
            acc = acc + piece_len(p)
            cur = nxt
        return out + [(x, None) for x in cur]

    def eq_char_last(self, st, s, code, e):
        """last occurrence of a character in s -> [(st, position Lin or None)]"""
        s = snorm(st, s)
        acc = str_len(s)
        cur, out = [st], []
        for p in reversed(s[1]):
            acc = acc - piece_len(p)
            nxt = []
            for x in cur:
                if p[0] == 'l':
                    i = p[1].rfind(chr(code.c)) if code.const and 0 < code.c < 128 else -1
                    if i >= 0:
                        out.append((x, x.c.norm(acc + i)))
                        continue
                    nxt.append(x)
                elif p[0] == 's':
                    for x2 in (self.env.char_access(x, p[1]) if self.env else [x]):
                        h = atom_lin(('hasch', p[1], p[2], p[3], code), 0, 1)
                        t, f = self.fork_cmp(x2, '==', h, ONE)
                        if t is not None:
                            q = atom_lin(('chpos', p[1], p[2], p[3], code), 0, None)
                            r = atom_lin(('chlast', p[1], p[2], p[3], code), 0, None)
                            if self.assume(t, '<', r, p[3]) and self.assume(t, '<=', q, r):
                                c = t.c.add_eq(ch(p[1], t.c.norm(p[2] + q)) - code)
                                c = c and c.add_eq(ch(p[1], t.c.norm(p[2] + r)) - code)
                                if c is not None:
                                    t.c = c
                                    if self.chpos_facts(t, p, q, code):
                                        out.append((t, t.c.norm(acc + r)))
                        if f is not None and self.chpos_none(f, p, code):
                            nxt.append(f)
                elif p[0] == 'c':
                    t, f = self.fork_cmp(x, '==', p[1], code)
                    if t is not None:
                        out.append((t, t.c.norm(acc)))
                    if f is not None:
                        nxt.append(f)
                else:
                    x2 = x.fork()
                    q = fresh('pos', 0, None)
                    if self.assume(x2, '<', q, piece_len(p)):
                        out.append((x2, x2.c.norm(acc + q)))
                    nxt.append(x)
            cur = nxt
        return out + [(x, None) for x in cur]

    def chpos_facts(self, st, p, q, code):
        """characters before the first occurrence differ from code; known equal characters bound it"""
        base, off, ln = p[1], p[2], p[3]
        for a, t in self.chars_of(st, base):
            k = t[2]
            v = st.c.norm(Lin(0, ((a, 1),)))
            rel = k - off
            if st.c.is_eq(v, code):
                if st.c.is_ge(rel) and st.c.is_ge(ln - rel - 1):
                    if not self.assume(st, '<=', q, rel):
                        return False
            elif st.c.is_ne(v, code):
                c = st.c.add_ne(q - rel)
                if c is None:
                    return False
                st.c = c
        return True

    def chpos_none(self, st, p, code):
        base, off, ln = p[1], p[2], p[3]
        for a, t in self.chars_of(st, base):
            rel = t[2] - off
            if st.c.is_ge(rel) and st.c.is_ge(ln - rel - 1):
                c = st.c.add_ne(Lin(0, ((a, 1),)) - code)
                if c is None:
                    return False
                st.c = c
        return True

    def chars_of(self, st, base):
        out = []
        seen = set()
        for a in list(st.c.eq):
            seen.add(a)
        for g in list(st.c.ge) + list(st.c.ne):
            for a, _ in g.t:
                seen.add(a)
        for e in st.c.eq.values():
            for a, _ in e.t:
                seen.add(a)
        for a in seen:
            t = lin.ATOMS[a]
            if t[0] == 'ch' and t[1] == base:
                out.append((a, t))
        return out

    def str_find(self, st, n, v, vs, e):
        x = self.val(st, vs[0], e)
        start = self.val(st, vs[1], e) if len(vs) > 1 else None
        code = None
        if isinstance(x, Lin):
            code = st.c.norm(x)
        else:
            ts = self.as_str(st, x, e)
            if len(ts) == 1 and len(ts[0][1][1]) == 1 and ts[0][1][1][0][0] == 'l' and len(ts[0][1][1][0][1]) == 1:
                code = Lin(ord(ts[0][1][1][0][1]))
        if code is not None and n in ('find', 'find_first_of'):
            if start is None or start == ZERO:
                return [(s, p if p is not None else NPOS) for s, p in self.eq_char_search(st, v, code, e)]
            out = []
            a, b = self.fork_cmp(st, '<=', start, str_len(v))
            if b is not None:
                out.append((b, NPOS))
            if a is not None:
                for s, r in self.substr(a, snorm(a, v), start, None, e):
                    out += [(s2, s2.c.norm(p + start) if p is not None else NPOS) for s2, p in self.eq_char_search(s, r, code, e)]
            return out
        if code is not None and n in ('rfind', 'find_last_of') and (start is None or start.const and start.c >= 1 << 62):
            return [(s, p if p is not None else NPOS) for s, p in self.eq_char_last(st, v, code, e)]
        if code is not None and n in ('rfind', 'find_last_of'):
            out = []
            a, b = self.fork_cmp(st, '<', start, str_len(v))
            if b is not None:
                out += [(s, p if p is not None else NPOS) for s, p in self.eq_char_last(b, v, code, e)]
            if a is not None:
                for s, r in self.substr(a, snorm(a, v), ZERO, a.c.norm(start + 1), e):
                    out += [(s2, s2.c.norm(p) if p is not None else NPOS) for s2, p in self.eq_char_last(s, r, code, e)]
            return out
        if code is not None and n == 'find_first_not_of':
            r = self.first_other(st, snorm(st, v), code, ZERO if start is None else start, e)
            if r is not None:
                return r
        # unknown position
        q = fresh('found', 0, None)
        s2 = st.fork()
        out = [(s2, NPOS)]
        if self.assume(st, '<', q, str_len(v)):
            out.append((st, q))
        return out

    def first_other(self, st, v, code, start, e):
        """first character at or behind start that is not the given one; remembers the run of equal characters"""
        ln = str_len(v)
        if len(v[1]) != 1 or v[1][0][0] != 's' or not st.c.is_ge(start) or code != Lin(32):
            return None
        base, off = v[1][0][1], v[1][0][2]
        out = []
        a, b = self.fork_cmp(st, '<', start, ln)
        if b is not None:
            out.append((b, NPOS))
        if a is None:
            return out
        n = a.fork()
        head = a.c.is_eq(ch(base, a.c.norm(off + start)) - code)
        note = lambda s, q: s.sg('runs', (s.g('runs') or ()) + (((base, s.c.norm(off + start)), s.c.norm(off + q)),))
        note(n, ln)
        out.append((n, NPOS))
        q = fresh('other', 0, None)
        if self.assume(a, '>=', q, start + 1 if head else start) and self.assume(a, '<', q, ln):
            c = a.c.add_ne(ch(base, a.c.norm(off + q)) - code)
            if c is not None:
                a.c = c
                note(a, q)
                out.append((a, q))
        return out

    # ------------------------------------------------------------ sequences
    def seq_method(self, st, n, obj, vs, e, f):
        loc, v = self.seq(st, obj, e)
        if isinstance(v, tuple) and v[0] == 'top':
            return self.top_seq(st, n, loc, e, f)
        if not is_vec(v):
            self.err('sequence method %s on %s' % (n, v), e)
        ln = vec_len(v)
        if n in ('size',):
            return [(st, st.c.norm(ln))]
        if n == 'empty':
            return self.bool_vals(*self.fork_cmp(st, '==', ln, ZERO))
        if n in ('reserve', 'shrink_to_fit', 'capacity'):
            return [(st, ZERO)]
        if n == 'clear':
            self.seq_set(st, loc, EMPTY_V, e)
            return [(st, ZERO)]
        if n in ('push_back', 'emplace_back'):
            if len(vs) == 0:
                x = self.elem_default(f, e)
            else:
                x = self.val(st, vs[0], e)
            x = self.elem_conv(st, f, x, e)
            if self.env is not None and self.env.is_slots(st, loc):
                x = self.new_slot(st, x, e)
            self.seq_set(st, loc, fold_vec(st, ('V', v[1] + ((x, ONE),))), e)
            return [(st, ('ref', ('I', loc, st.c.norm(ln)) if not (isinstance(x, tuple) and x[0] == 'slot') else ('H', x)))]
        if n == 'push_front':
            x = self.val(st, vs[0], e)
            self.seq_set(st, loc, fold_vec(st, ('V', ((x, ONE),) + v[1])), e)
            return [(st, ZERO)]
        if n in ('operator[]', 'at', 'front', 'back'):
            if n == 'front':
                k = ZERO
            elif n == 'back':
                k = st.c.norm(ln - 1)
            else:
                k = self.val(st, vs[0], e)
            if n == 'at':
                a, b = self.fork_cmp(st, '<', k, ln)
                if b is not None:
                    self.std_throw(b, 'std::out_of_range', e)
                if a is None:
                    return []
                st = a
            if loc is None:
                loc = ('T', self.depth, e.get('#', 0), 'sv')
                st.h[loc] = v
            return [(s, ('ref', l)) for s, l in self.elem_locs(st, loc, k, e, '%s()' % n if n in ('front', 'back', 'at') else 'element access')]
        if n in ('begin', 'cbegin'):
            return [(st, ('it', 'v', loc, ZERO))]
        if n in ('end', 'cend'):
            return [(st, ('it', 'v', loc, st.c.norm(ln)))]
        if n == 'data':
            return [(st, ('ap', loc, ZERO))]
        if n in ('operator=', 'assign'):
            if len(vs) == 1:
                _, x = self.seq(st, vs[0], e)
                self.seq_set(st, loc, x, e)
                return [(st, obj)]
            out = []
            for s, x in self.std_ctor(st, dict(f, cqn='std::vector'), vs, e):
                self.seq_set(s, loc, x, e)
                out.append((s, obj))
            return out
        if n == 'swap':
            l2, x = self.seq(st, vs[0], e)
            self.seq_set(st, loc, x, e)
            self.seq_set(st, l2, v, e)
            return [(st, ZERO)]
        if n == 'pop_back':
            self.oblige(st, 'mem', st.c.is_ge(ln - 1), e, 'pop_back of a non-empty sequence')
            out = []
            for s, l, r in self.vec_split(st, v, ln - 1, e):
                if self.env is not None:
                    self.env.on_erase(s, loc, r, e)
                self.seq_set(s, loc, fold_vec(s, ('V', l)), e)
                out.append((s, ZERO))
            return out
        if n == 'pop_front':
            self.oblige(st, 'mem', st.c.is_ge(ln - 1), e, 'pop_front of a non-empty sequence')
            out = []
            for s, l, r in self.vec_split(st, v, ONE, e):
                if self.env is not None:
                    self.env.on_erase(s, loc, l, e)
                self.seq_set(s, loc, fold_vec(s, ('V', r)), e)
                out.append((s, ZERO))
            return out
        if n == 'resize':
            k = self.val(st, vs[0], e)
            out = []
            a, b = self.fork_cmp(st, '<=', k, ln)
            if a is not None:
                for s, l, r in self.vec_split(a, v, k, e):
                    self.seq_set(s, loc, fold_vec(s, ('V', l)), e)
                    out.append((s, ZERO))
            if b is not None:
                x = self.val(b, vs[1], e) if len(vs) > 1 else self.elem_default(f, e)
                self.seq_set(b, loc, fold_vec(b, ('V', v[1] + ((x, b.c.norm(k - ln)),))), e)
                out.append((b, ZERO))
            return out
        if n == 'erase':
            a = self.val(st, vs[0], e)
            if not (isinstance(a, tuple) and a[0] == 'it' and isinstance(a[3], Lin)):
                self.err('erase of %s' % (a,), e)
            to = self.val(st, vs[1], e)[3] if len(vs) > 1 else a[3] + 1
            ok = st.c.is_ge(a[3]) and st.c.is_ge(ln - to)
            self.oblige(st, 'mem', ok, e, 'erase within the sequence')
            if not ok and not (self.assume(st, '>=', a[3], ZERO) and self.assume(st, '<=', to, ln)):
                return []
            out = []
            for s, l, r in self.vec_split(st, v, a[3], e):
                for s2, l2, r2 in self.vec_split(s, ('V', r), s.c.norm(to - a[3]), e):
                    if self.env is not None:
                        self.env.on_erase(s2, loc, l2, e)
                    self.seq_set(s2, loc, fold_vec(s2, ('V', l + r2)), e)
                    out.append((s2, ('it', 'v', loc, s2.c.norm(a[3]))))
            return out
        if n == 'insert':
            a = self.val(st, vs[0], e)
            if not (isinstance(a, tuple) and a[0] == 'it' and isinstance(a[3], Lin)):
                self.err('insert at %s' % (a,), e)
            if len(vs) == 3:
                b, c = self.val(st, vs[1], e), self.val(st, vs[2], e)
                if isinstance(b, tuple) and b[0] in ('it', 'ap', 'argv', 'ptr'):
                    ins = self.range_value(st, b, c, e)
                else:
                    ins = [(st, ('V', ((c, b),)))]
            else:
                x = self.val(st, vs[1], e)
                ins = [(st, x if is_vec(x) and self.is_init_list(f) else ('V', ((self.elem_conv(st, f, x, e), ONE),)))]
            out = []
            for s, iv in ins:
                if not is_vec(iv):
                    self.seq_set(s, loc, self.top(s, 'insert', e), e)
                    out.append((s, ('it', 'v', loc, a[3])))
                    continue
                iv = self.elem_conv_vec(s, f, iv, e)
                for s2, l, r in self.vec_split(s, v, a[3], e):
                    self.seq_set(s2, loc, fold_vec(s2, ('V', l + iv[1] + r)), e)
                    out.append((s2, ('it', 'v', loc, s2.c.norm(a[3]))))
            return out
        if n == 'sort':
            cmpf = self.val(st, vs[0], e) if vs else None
            return self.do_sort(st, loc, v, ZERO, ln, cmpf, e)
        if n == 'remove' and self.env is not None and self.env.is_slots(st, loc):
            # (the objects of such a list are different ones)
            x = self.val(st, vs[0], e)
            out = []
            for s, it in self.algo_find(st, 'find', [('it', 'v', loc, ZERO), ('it', 'v', loc, ln), x], e):
                if s.c.is_eq(it[3] - ln):
                    out.append((s, ZERO))
                    continue
                for s2, l, r in self.vec_split(s, v, it[3], e):
                    for s3, l2, r2 in self.vec_split(s2, ('V', r), ONE, e):
                        self.env.on_erase(s3, loc, l2, e)
                        self.seq_set(s3, loc, fold_vec(s3, ('V', l + r2)), e)
                        out.append((s3, ZERO))
            return out
        if n in ('remove', 'remove_if', 'unique', 'splice', 'merge', 'reverse'):
            self.seq_set(st, loc, self.top(st, 'list ' + n, e), e)
            return [(st, ZERO)]
        self.err('sequence method ' + n, e)

    def new_slot(self, st, x, e):
        s = ('slot', self.fresh_id('node'))
        self.store(st, ('H', s), x, e)
        return s

    def is_init_list(self, f):
        return any('initializer_list' in str(t) for t in f.get('ps', []))

    def elem_kind(self, f):
        c = f.get('cls') or f['qn']
        return c

    def elem_conv(self, st, f, x, e):
        """emplace_back / pair conversions: a C string stored in a container of strings"""
        if isinstance(x, tuple) and x[0] == 'cp':
            c = str(f['qn'])
            if 'basic_string<char>>' in c or '<std::basic_string<char>>' in c:
                r = self.as_str(st, x, e)
                if len(r) == 1:
                    return r[0][1]
            if 'ArgumentElement>' in c:
                r = self.as_str(st, x, e)
                if len(r) == 1 and r[0][0] is st:
                    rec = [k for k in self.p.records if k.endswith('ArgumentElement')]
                    g = [m for m in self.p.funcs.values() if m.get('cls') == rec[0] and m['kind'] == 'ctor' and len(m['ps']) == 1 and 'char' in str(m['ps'][0])]
                    if g:
                        loc = ('T', self.depth, e.get('#', 0), 'emp')
                        outs = self.construct_with(st, g[0], loc, [x], e)
                        if len(outs) == 1 and outs[0] is st:
                            v = self.load(st, loc, e)
                            self.drop(st, loc)
                            return v
        return x

    def elem_conv_vec(self, st, f, v, e):
        return ('V', tuple((self.elem_conv(st, f, t, e) if c == ONE else self.conv_tmpl(t, f), c) for t, c in v[1]))

    def conv_tmpl(self, t, f):
        if isinstance(t, tuple) and t[0] == 'cp' and 'basic_string<char>>' in str(f['qn']) and t[2] == ZERO:
            return t[1]
        return t

    def seq_set(self, st, loc, v, e):
        if loc is None:
            return
        if self.env is not None:
            self.env.on_seq_write(st, loc, v, e)
        self.store(st, loc, v, e)

    def top_seq(self, st, n, loc, e, f):
        if n == 'size':
            return [(st, fresh('size', 0, 1 << 62))]
        if n == 'empty':
            return self.bool_vals(st, st.fork())
        if n in ('operator[]', 'at', 'front', 'back'):
            l = ('TOP', self.fresh_id('t'))
            st.h[l] = ('top', 'element of unknown sequence')
            return [(st, ('ref', l))]
        if n in ('begin', 'cbegin'):
            return [(st, ('it', 'v', loc, ZERO))]
        if n in ('end', 'cend'):
            return [(st, ('it', 'v', loc, fresh('size', 0, 1 << 62)))]
        if n == 'clear':
            self.seq_set(st, loc, EMPTY_V, e)
        return [(st, ('top', 'unknown sequence'))]

    # canonical sorted content -------------------------------------------------
    def do_sort(self, st, loc, v, a, b, cmpf, e):
        name = 'less'
        if isinstance(cmpf, tuple) and cmpf[0] == 'fn':
            name = self.p.funcs[cmpf[1]]['qn']
        elif isinstance(cmpf, tuple) and cmpf[0] == 'lam':
            name = 'lambda ' + str(cmpf[1])
        if self.env is not None:
            r = self.env.on_sort(st, loc, v, a, b, name, cmpf, e)
            if r is not None:
                return r
        whole_ = st.c.is_eq(a) and st.c.is_eq(b, vec_len(v))
        if not whole_:
            self.seq_set(st, loc, self.top(st, 'partial sort', e), e)
            return [(st, ZERO)]
        w = sorted_value(st, v, name)
        self.seq_set(st, loc, w, e)
        return [(st, ZERO)]

    # ------------------------------------------------------------ iterators
    def iter_method(self, st, n, obj, vs, e):
        it = self.val(st, obj, e)
        if n == 'operator=':
            x = self.val(st, vs[0], e)
            self.set_obj(st, obj, x, e)
            return [(st, obj)]
        if isinstance(it, tuple) and it[0] in ('uninit',):
            self.oblige(st, 'mem', False, e, 'uninitialised iterator is not used')
            return []
        if not (isinstance(it, tuple) and it[0] == 'it'):
            if isinstance(it, tuple) and it[0] == 'top':
                if n in ('operator*', 'operator->'):
                    l = ('TOP', self.fresh_id('t'))
                    return [(st, ('ref', l) if n == 'operator*' else ('ptr', l))]
                return [(st, it)]
            self.err('iterator method %s on %s' % (n, it), e)
        if n in ('operator*', 'operator->', 'operator[]'):
            off = self.val(st, vs[0], e) if n == 'operator[]' else ZERO
            out = []
            for s, l in self.it_deref(st, it, e, off):
                out.append((s, ('ptr', l) if n == 'operator->' else ('ref', l)))
            return out
        if n in ('operator++', 'operator--'):
            d = 1 if n == 'operator++' else -1
            if isinstance(it[3], Lin) and it[1] != 'm':
                p = st.c.norm(it[3] + d)
                loc, v = self.seq(st, ('ref', it[2]), e)
                if is_vec(v):
                    bound = vec_len(v)
                    ok = st.c.is_ge(bound - p) if d == 1 else st.c.is_ge(p)
                    self.oblige(st, 'mem', ok, e, 'iterator stays within its sequence')
                    if not ok and not self.assume(st, '<=' if d == 1 else '>=', p, bound if d == 1 else ZERO):
                        return []
                new = it[:3] + (p,)
                sts = [(st, new)]
            else:
                sts = self.env.it_step(st, it, d, e)
            out = []
            for s, new in sts:
                self.set_obj(s, obj, new, e)
                out.append((s, it if vs else obj))
            return out
        if n in ('operator+', 'operator-') and vs:
            k = self.val(st, vs[0], e)
            if isinstance(k, Lin):
                return [(st, it[:3] + (st.c.norm(it[3] + k if n == 'operator+' else it[3] - k),))]
            return [(st, st.c.norm(it[3] - k[3]))]
        if n in ('operator+=', 'operator-='):
            k = self.val(st, vs[0], e)
            self.set_obj(st, obj, it[:3] + (st.c.norm(it[3] + k if n == 'operator+=' else it[3] - k),), e)
            return [(st, obj)]
        if n in ('operator==', 'operator!='):
            b = self.val(st, vs[0], e)
            return [(s, ONE if q == (n == 'operator==') else ZERO) for s, q in self.it_eq(st, it, b, e)]
        if n == 'base':
            return [(st, it)]
        self.err('iterator method ' + n, e)

    def it_deref(self, st, it, e, off=ZERO):
        """[(st, loc)]"""
        if it[1] == 's':
            v = self.load(st, it[2], e)
            p = st.c.norm(it[3] + off)
            if is_str(v):
                ok = st.c.is_ge(p) and st.c.is_ge(str_len(v) - p - 1)
                self.oblige(st, 'mem', ok, e, 'string iterator dereferenced within the string')
            return [(st, ('SC', it[2], p))]
        if it[1] == 'm' or not isinstance(it[3], Lin):
            return self.env.it_deref(st, it, e)
        loc, v = self.seq(st, ('ref', it[2]), e)
        if is_vec(v):
            return self.elem_locs(st, loc, st.c.norm(it[3] + off), e, 'iterator dereference')
        return [(st, ('TOP', self.fresh_id('t')))]

    # ------------------------------------------------------------ streams
    def stream_val(self, st, obj, e):
        if isinstance(obj, tuple) and obj[0] == 'ref':
            v = self.load(st, obj[1], e)
        else:
            v = obj
        if isinstance(v, tuple) and v[0] == 'stream':
            return v
        return ('stream', ('S', (('o', 'unknown', self.fresh_id('?')),)), ('S', (('o', 'unknown', self.fresh_id('?')),)), ZERO, ONE)

    def stream_method(self, st, n, obj, vs, e, f):
        v = self.stream_val(st, obj, e)
        _, out_, in_, nx, ok = v[:5]
        if n == 'str':
            if not vs:
                return [(st, snorm(st, out_))]
            res = []
            for s, t in self.text(st, vs[0], e):
                t = snorm(s, t)
                self.set_obj(s, obj, ('stream', t, t, ZERO, ok) + v[5:], e)
                res.append((s, ZERO))
            return res
        if n == 'operator<<':
            x = vs[0]
            x = self.val(st, x, e) if not (isinstance(x, tuple) and x[0] == 'fn') else x
            if isinstance(x, tuple) and x[0] == 'fn':
                nm = self.p.funcs.get(x[1], {}).get('n', '')
                if nm == 'endl':
                    return self.emit(st, obj, lit('\n'), e)
                return [(st, obj)]
            return self.emit(st, obj, self.format(st, x, f, e), e)
        if n == 'operator>>':
            return self.extract(st, obj, v, vs, e, f)
        if n in ('operator bool', 'operator void *'):
            return [(st, st.c.norm(ok))]
        if n == 'good':
            a, b = self.fork_cmp(st, '==', atom_lin(('eof', snorm(st, in_), nx), 0, 1), ONE)
            return ([(a, ZERO)] if a is not None else []) + ([(b, b.c.norm(ok))] if b is not None else [])
        if n == 'bad':
            return [(st, ZERO)]
        if n in ('operator!', 'fail'):
            return [(st, st.c.norm(ONE - ok))]
        if n == 'eof':
            return [(st, atom_lin(('eof', snorm(st, in_), nx), 0, 1))]
        if n == 'get' or n == 'peek':
            return [(st, fresh('getc', -1, 255))]
        if n == 'clear':
            self.set_obj(st, obj, ('stream', out_, in_, nx, ONE) + v[5:], e)
            return [(st, ZERO)]
        if n in ('flags', 'width', 'precision', 'setf', 'unsetf', 'fill', 'flush'):
            if n == 'width' and vs:
                self.set_obj(st, obj, ('stream', out_, in_, nx, ok, ('w', self.val(st, vs[0], e))), e)
            return [(st, fresh('fmt', 0, 1 << 20))]
        if n in ('operator=', 'swap'):
            self.set_obj(st, obj, self.stream_val(st, vs[0], e), e)
            return [(st, obj)]
        self.err('stream method ' + n, e)

    def format(self, st, x, f, e):
        if is_str(x):
            return x
        if isinstance(x, tuple) and x[0] == 'cp':
            r = self.as_str(st, x, e)
            return r[0][1] if len(r) == 1 else ('S', (('o', 'text', self.fresh_id('?')),))
        if isinstance(x, Lin):
            x = st.c.norm(x)
            t = str((f.get('ps') or ['int'])[-1])
            if 'char' in t:
                if x.const and 0 < x.c < 128:
                    return lit(chr(x.c))
                return ('S', (('c', x),))
            if x.const:
                return lit(str(x.c))
            return ('S', (('o', 'int', x),))
        if isinstance(x, tuple) and x[0] == 'fl':
            return ('S', (('o', 'num', x[1]),))
        if isinstance(x, tuple) and x[0] == 'strm':
            return x
        return ('S', (('o', 'fmt', self.fresh_id('?')),))

    def emit(self, st, obj, s, e):
        if isinstance(obj, tuple) and obj[0] == 'ref' and obj[1][0] == 'GLOB':
            self.env.output(st, obj[1], s, e)
            return [(st, obj)]
        v = self.stream_val(st, obj, e)
        extra = v[5:]
        if extra and extra[0][0] == 'w':
            w = extra[0][1]
            res = []
            a, b = self.fork_cmp(st, '<', str_len(s), w)
            for x, pad in ((a, True), (b, False)):
                if x is None:
                    continue
                t = cat_s(v[1], s)
                if pad:
                    t = ('S', t[1] + (('rep', Lin(32), x.c.norm(w - str_len(s))),))
                self.set_obj(x, obj, ('stream', snorm(x, t)) + v[2:5], e)
                res.append((x, obj))
            return res
        new = snorm(st, cat_s(v[1], s))
        self.set_obj(st, obj, ('stream', new, v[2], v[3], v[4]), e)
        return [(st, obj)]

    def extract(self, st, obj, v, vs, e, f):
        _, out_, in_, nx, ok = v[:5]
        # a string stream filled by << : the text to read is what was written
        src = snorm(st, in_ if in_ != EMPTY_S else out_)
        dst = vs[0]
        if not (isinstance(dst, tuple) and dst[0] == 'ref'):
            self.err('extraction target', e)
        t = str((f.get('ps') or ['?'])[-1])
        if 'double' in t or 'float' in t:
            key = 'isnum' if 'double' in t and 'long' not in t else 'isnum ' + t
            o = atom_lin((key, src, nx), 0, 1)
            self.assign(st, dst[1], ('fl', ('ext', key, src, nx)), e)
        elif 'basic_string' in t or 'string' in t:
            o = atom_lin(('word', src, nx), 0, 1)
            self.assign(st, dst[1], ('S', (('o', 'word', src, nx),)), e)
        else:
            o = atom_lin(('isint', t, src, nx), 0, 1)
            try:
                self.assign(st, dst[1], fresh('ext', -(1 << 63), (1 << 64)), e)
            except AnalysisError:
                pass
        if ok == ONE:
            ok2 = o
        else:
            ok2 = atom_lin(('both', st.c.norm(ok), o), 0, 1)
        self.set_obj(st, obj, ('stream', out_, in_, nx + 1, ok2) + v[5:], e)
        return [(st, obj)]

    def global_stream(self, st, obj, n, vs, e):
        if n == 'operator<<':
            x = vs[0]
            x = self.val(st, x, e) if not (isinstance(x, tuple) and x[0] == 'fn') else x
            if isinstance(x, tuple) and x[0] == 'fn':
                return [(st, obj)]
            self.env.output(st, obj[1], self.format(st, x, {}, e), e)
            return [(st, obj)]
        return [(st, obj)]

    # ------------------------------------------------------------ free functions
    def std_call(self, st, f, vs, e):
        qn = base_name(f['qn'])
        n = f['n']
        if self.env is not None:
            r = self.env.extern_call(st, f, None, vs, e)
            if r is not None:
                return r
        if n in ('operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>=') and len(vs) == 2:
            return self.std_compare(st, n[8:], vs, e)
        if n in ('operator+',) and len(vs) == 2:
            a, b = self.val(st, vs[0], e), self.val(st, vs[1], e)
            if isinstance(a, tuple) and a[0] == 'it':
                return [(st, a[:3] + (st.c.norm(a[3] + b),))]
            out = []
            for s, x in self.text(st, a, e):
                for s2, y in self.text(s, b, e):
                    out.append((s2, snorm(s2, cat_s(x, y))))
            return out
        if n == 'operator-' and len(vs) == 2:
            a, b = self.val(st, vs[0], e), self.val(st, vs[1], e)
            return [(st, st.c.norm(a[3] - b[3]))]
        if n == 'operator<<' and len(vs) == 2:
            x = self.val(st, vs[1], e)
            return self.emit(st, vs[0], self.format(st, x, f, e), e)
        if n == 'operator>>' and len(vs) == 2:
            return self.extract(st, vs[0], self.stream_val(st, vs[0], e), vs[1:], e, f)
        if n == 'endl':
            return self.emit(st, vs[0], lit('\n'), e)
        if n in ('strchr', 'strrchr'):
            p = self.val(st, vs[0], e)
            code = self.val(st, vs[1], e)
            if p[0] != 'cp':
                self.err('strchr', e)
            out = []
            for s, t in self.as_str(st, p, e):
                for s2, q in (self.eq_char_search if n == 'strchr' else self.eq_char_last)(s, t, s.c.norm(code), e):
                    out.append((s2, NULL if q is None else ('cp', p[1], s2.c.norm(p[2] + q), p[3])))
            return out
        if n == 'strlen':
            p = self.val(st, vs[0], e)
            return [(s, s.c.norm(str_len(t))) for s, t in self.as_str(st, p, e)]
        if n in ('strcmp', 'strncmp'):
            a, b = self.val(st, vs[0], e), self.val(st, vs[1], e)
            out = []
            for s, x in self.as_str(st, a, e):
                for s2, y in self.as_str(s, b, e):
                    if n == 'strncmp':
                        k = self.val(s2, vs[2], e)
                        out += self.strncmp(s2, x, y, k, e)
                        continue
                    r = self.env.str_rel(s2, snorm(s2, x), snorm(s2, y)) if self.env is not None else None
                    if r is not None:
                        out += [(z, Lin({'<': -1, '=': 0, '>': 1}[q])) for z, q in r]
                        continue
                    eqs, nes = self.str_eq(s2, x, y, e)
                    out += [(z, ZERO) for z in eqs]
                    for z in nes:
                        r = atom_lin(('strcmp', snorm(z, x), snorm(z, y)), -1, 1)
                        c = z.c.add_ne(r)
                        if c is not None:
                            z.c = c
                            out.append((z, r))
            return out
        if n in ('strtod', 'strtof', 'strtold', 'strtol', 'strtoul', 'strtoll', 'strtoull', 'atof', 'atoi'):
            return self.strto(st, n, f, vs, e)
        if n in ('toupper', 'tolower'):
            c = self.val(st, vs[0], e)
            if isinstance(c, Lin):
                c = st.c.norm(c)
                if c.const and 0 < c.c < 128:
                    return [(st, Lin(ord(getattr(chr(c.c), 'upper' if n == 'toupper' else 'lower')())))]
                r = atom_lin((n, c), -128, 255)
                if st.c.is_ne(c):
                    cc = st.c.add_ne(r)
                    if cc is None:
                        return []
                    st.c = cc
                return [(st, r)]
            return [(st, fresh(n, -128, 255))]
        if n in ('isalpha', 'isdigit', 'isspace', 'isalnum', 'isupper', 'islower', 'ispunct'):
            c = self.val(st, vs[0], e)
            return [(st, atom_lin((n, st.c.norm(c)), 0, 1024))]
        if n in ('memcpy', 'memmove', 'strcpy', 'strncpy', 'memset'):
            return self.memcopy(st, n, vs, e)
        if n == 'stat' or n == 'lstat':
            p = self.val(st, vs[0], e)
            out = []
            for s, t in self.as_str(st, p, e):
                t = snorm(s, t)
                r = atom_lin((n, t), -1, 0)
                if isinstance(vs[1], tuple) and vs[1][0] == 'ptr':
                    for k in [k for k in s.h if k[0] == 'F' and k[1] == vs[1][1]]:
                        del s.h[k]
                    s.h[('F', vs[1][1], '#stat')] = ('statres', n, t)
                    s.h[vs[1][1]] = ('statbuf', ('of', n, t))
                out.append((s, r))
            return out
        if n in ('exit', '_exit', 'abort', 'quick_exit', '_Exit', 'terminate'):
            code = self.val(st, vs[0], e) if vs else ONE
            self.exits.append((st, n, code, e))
            return []
        if n in ('find', 'find_if', 'find_if_not', 'any_of', 'all_of', 'none_of', 'count', 'count_if'):
            return self.algo_find(st, n, vs, e)
        if n in ('sort', 'stable_sort'):
            a, b = self.val(st, vs[0], e), self.val(st, vs[1], e)
            cmpf = self.val(st, vs[2], e) if len(vs) > 2 else None
            loc, v = self.seq(st, ('ref', a[2]), e)
            if not is_vec(v):
                return [(st, ZERO)]
            return self.do_sort(st, loc, v, a[3], b[3], cmpf, e)
        if n in ('min', 'max') and len(vs) == 2:
            a, b = self.val(st, vs[0], e), self.val(st, vs[1], e)
            if isinstance(a, Lin) and isinstance(b, Lin):
                lt, ge = self.fork_cmp(st, '<', a, b)
                out = []
                if lt is not None:
                    out.append((lt, a if n == 'min' else b))
                if ge is not None:
                    out.append((ge, b if n == 'min' else a))
                return out
            return [(st, ('fl', ('op', n, a, b)))]
        if n in ('move', 'forward', 'addressof', '__addressof'):
            return [(st, vs[0])]
        if n == 'swap' and len(vs) == 2:
            a, b = self.val(st, vs[0], e), self.val(st, vs[1], e)
            self.set_obj(st, vs[0], b, e)
            self.set_obj(st, vs[1], a, e)
            return [(st, ZERO)]
        if n in ('distance',):
            a, b = self.val(st, vs[0], e), self.val(st, vs[1], e)
            return [(st, st.c.norm(b[3] - a[3]))]
        if n in ('begin', 'end', 'cbegin', 'cend'):
            loc, v = self.seq(st, vs[0], e)
            if is_vec(v):
                return [(st, ('it', 'v', loc, ZERO if 'begin' in n else st.c.norm(vec_len(v))))]
        if n in ('next', 'prev'):
            a = self.val(st, vs[0], e)
            k = self.val(st, vs[1], e) if len(vs) > 1 else ONE
            return [(st, a[:3] + (st.c.norm(a[3] + (k if n == 'next' else -k)),))]
        if n == 'advance':
            a = self.val(st, vs[0], e)
            k = self.val(st, vs[1], e)
            self.set_obj(st, vs[0], a[:3] + (st.c.norm(a[3] + k),), e)
            return [(st, ZERO)]
        if n == 'getline':
            return self.env.getline(st, vs, e)
        if n in ('make_pair',):
            return [(st, ('rec', '#pair', (('first', self.val(st, vs[0], e)), ('second', self.val(st, vs[1], e)))))]
        if n == 'back_inserter':
            return [(st, ('backins', vs[0]))]
        if n == 'copy' and len(vs) == 3:
            d = self.val(st, vs[2], e)
            out = []
            for s, r in self.range_value(st, self.val(st, vs[0], e), self.val(st, vs[1], e), e):
                if isinstance(d, tuple) and d[0] == 'backins' and is_vec(r):
                    loc, v = self.seq(s, d[1], e)
                    self.seq_set(s, loc, fold_vec(s, ('V', v[1] + r[1])), e)
                    out.append((s, d))
                else:
                    self.err('copy', e)
            return out
        if n in ('fabs', 'abs', 'floor', 'ceil', 'isnan', 'isinf'):
            x = self.val(st, vs[0], e)
            if isinstance(x, Lin):
                return [(st, fresh(n, 0, 1 << 62))]
            return [(st, ('fl', ('op', n, x)))]
        if n in ('printf', 'fprintf', 'puts', 'putchar', 'fputs', 'perror', 'fwrite', 'write'):
            self.env.output(st, ('GLOB', n), ('S', (('o', 'out', self.fresh_id('?')),)), e)
            return [(st, fresh('io', -1, 1 << 30))]
        self.err('call of %s' % f['qn'], e)

    def strncmp(self, st, x, y, k, e):
        k = st.c.norm(k)
        if not k.const or k.c > 16:
            return [(st, ZERO), (st.fork(), ONE)]
        cur = [st]
        out = []
        for i in range(k.c):
            nxt = []
            for s in cur:
                for s1, a in self.read_char(s, x, Lin(i), e, limit=False):
                    for s2, b in self.read_char(s1, y, Lin(i), e, limit=False):
                        t, f = self.fork_cmp(s2, '==', a, b)
                        if f is not None:
                            out.append((f, ONE))
                        if t is not None:
                            z, nz = self.fork_cmp(t, '==', a, ZERO)
                            if z is not None:
                                out.append((z, ZERO))
                            if nz is not None:
                                nxt.append(nz)
            cur = nxt
        return out + [(s, ZERO) for s in cur]

    def strto(self, st, n, f, vs, e):
        p = self.val(st, vs[0], e)
        out = []
        for s, t in self.as_str(st, p, e):
            t = snorm(s, t)
            if len(vs) > 1:
                d = vs[1]
                if isinstance(d, tuple) and d[0] == 'ptr':
                    pos = atom_lin(('numend', n, t), 0, None)
                    if not self.assume(s, '<=', pos, str_len(t)):
                        continue
                    self.store(s, d[1], ('cp', p[1], s.c.norm(p[2] + pos), p[3]), e)
            if n in ('strtod', 'strtof', 'strtold', 'atof'):
                out.append((s, ('fl', (n, t))))
            else:
                out.append((s, atom_lin((n, t), -(1 << 63), (1 << 64) - 1)))
        return out

    def std_compare(self, st, op, vs, e):
        a, b = self.val(st, vs[0], e), self.val(st, vs[1], e)
        for x in (a, b):
            if isinstance(x, tuple) and x[0] == 'uninit':
                self.oblige(st, 'mem', False, e, 'uninitialised value is not compared')
                return []
        if isinstance(a, tuple) and a[0] == 'it' and isinstance(b, tuple) and b[0] == 'it':
            if op in ('==', '!='):
                return [(s, ONE if q == (op == '==') else ZERO) for s, q in self.it_eq(st, a, b, e)]
            return self.bool_vals(*self.fork_cmp(st, op, a[3], b[3]))
        strs = [is_str(x) or (isinstance(x, tuple) and x[0] == 'cp') for x in (a, b)]
        if all(strs):
            out = []
            for s, x in self.as_str(st, a, e):
                for s2, y in self.as_str(s, b, e):
                    if op in ('==', '!='):
                        eqs, nes = self.str_eq(s2, x, y, e)
                        out += [(z, ONE if op == '==' else ZERO) for z in eqs]
                        out += [(z, ZERO if op == '==' else ONE) for z in nes]
                    else:
                        out += self.str_order(s2, op, x, y, e)
            return out
        if is_vec(a) and is_vec(b) and op in ('==', '!='):
            if vec_same(st, a, b):
                return [(st, ONE if op == '==' else ZERO)]
            return [(st, ONE), (st.fork(), ZERO)]
        if isinstance(a, Lin) and isinstance(b, Lin):
            return self.bool_vals(*self.fork_cmp(st, op, a, b))
        if isinstance(a, tuple) and isinstance(b, tuple) and (a[0] == 'stream' or b[0] == 'stream'):
            return [(st, ONE), (st.fork(), ZERO)]
        return self.compare(st, op, a, b, e)

    def str_order(self, st, op, x, y, e):
        """lexicographic order through an uninterpreted total order"""
        if self.env is not None:
            r = self.env.str_order(st, op, x, y, e)
            if r is not None:
                return r
        x, y = snorm(st, x), snorm(st, y)
        if self.env is not None:
            r = self.env.str_rel(st, x, y)
            if r is not None:
                return [(s, ONE if q in {'<': '<', '>': '>', '<=': '<=', '>=': '>='}[op] else ZERO) for s, q in r]
        if op == '>':
            return self.str_order(st, '<', y, x, e)
        if op in ('<=', '>='):
            return [(s, ONE - v) for s, v in self.str_order(st, '<' if op == '>=' else '<', x if op == '>=' else y, y if op == '>=' else x, e)]
        if str_same(st, x, y):
            return [(st, ZERO)]
        return [(st, atom_lin(('strlt', x, y), 0, 1))]

    # algorithms -----------------------------------------------------------
    def algo_find(self, st, n, vs, e):
        a, b = self.val(st, vs[0], e), self.val(st, vs[1], e)
        x = self.val(st, vs[2], e) if n in ('find', 'count') else vs[2]
        if self.env is not None:
            r = self.env.algo_find(st, n, a, b, x, e)
            if r is not None:
                return r
        if not (isinstance(a, tuple) and a[0] == 'it' and isinstance(a[3], Lin) and isinstance(b[3], Lin)):
            self.err('%s on %s' % (n, a), e)
        loc, v = self.seq(st, ('ref', a[2]), e)
        if n != 'find' or not is_vec(v):
            self.err('algorithm ' + n, e)
        return self.find_value(st, loc, v, a, b, x, e)

    def find_value(self, st, loc, v, a, b, x, e):
        v = fold_vec(st, v)
        out = []
        acc = ZERO
        cur = [st]
        whole_ = st.c.is_eq(a[3]) and st.c.is_eq(b[3], vec_len(v))
        if not whole_:
            self.err('find in a part of a sequence', e)
        segs = []
        for t, cnt in v[1]:
            if cnt.const and 1 < cnt.c <= 16 and isinstance(t, tuple) and t[0] == 'it':
                segs += [(seg_at((t, cnt), Lin(i)), ONE) for i in range(cnt.c)]
            else:
                segs.append((t, cnt))
        for t, cnt in segs:
            nxt = []
            for s in cur:
                if isinstance(t, tuple) and t[0] == 'slot':
                    for s2, q, i in self.find_slot(s, t, cnt, x, e):
                        if q:
                            out.append((s2, ('it', 'v', loc, s2.c.norm(acc + i))))
                        else:
                            nxt.append(s2)
                    continue
                if cnt == ONE:
                    for s2, q in self.value_eq(s, t, x, e):
                        if q:
                            out.append((s2, ('it', 'v', loc, s2.c.norm(acc))))
                        else:
                            nxt.append(s2)
                else:
                    xx = snorm(s, x) if is_str(x) else x
                    mem = atom_lin(('mem', t, cnt, xx), 0, 1)
                    y, z = self.fork_cmp(s, '==', mem, ONE)
                    if y is not None:
                        pos = atom_lin(('mempos', t, cnt, xx), 0, None)
                        if self.assume(y, '<', pos, cnt):
                            el = seg_at((t, cnt), pos)
                            for s2, q in self.value_eq(y, el, x, e):
                                if q:
                                    out.append((s2, ('it', 'v', loc, s2.c.norm(acc + pos))))
                    if z is not None:
                        nxt.append(z)
            acc = acc + cnt
            cur = nxt
        out += [(s, ('it', 'v', loc, s.c.norm(acc))) for s in cur]
        return out

    def find_slot(self, st, t, cnt, x, e):
        """look for value x in the list nodes of one segment -> [(st, found, index)]"""
        if cnt == ONE:
            return [(s2, q, ZERO) for s2, q in self.value_eq(st, self.load(st, ('H', t), e), x, e)]
        return self.env.slot_search(st, t, cnt, x, e)

    def value_eq(self, st, a, b, e):
        """[(st, equal?)]"""
        if is_str(a) and is_str(b):
            eqs, nes = self.str_eq(st, a, b, e)
            return [(s, True) for s in eqs] + [(s, False) for s in nes]
        if isinstance(a, Lin) and isinstance(b, Lin):
            t, f = self.fork_cmp(st, '==', a, b)
            return ([(t, True)] if t is not None else []) + ([(f, False)] if f is not None else [])
        return self.ptr_eq(st, a, b, e)

    # raw memory -------------------------------------------------------------
    def memcopy(self, st, n, vs, e):
        """copies into a character array of known size: content kept as a string over the array"""
        d, s = self.val(st, vs[0], e), self.val(st, vs[1], e)
        cnt = self.val(st, vs[2], e) if len(vs) > 2 else None
        return self.env.memcopy(st, n, d, s, cnt, e)


def sorted_value(st, v, name):
    """canonical value of sorting v: depends on the multiset of elements only"""
    v = fold_vec(st, v)
    flat = []
    for t, c in v[1]:
        if is_str(t) and len(t[1]) == 1 and t[1][0][0] == 's' and t[1][0][1][0] == 'srt' and t[1][0][1][2] == name:
            b = t[1][0][1]
            # a complete run of an earlier sort: take its elements back
            if c == vec_len(b[1]) and b[3] == K[height(b[1])] and t == whole(b):
                flat += list(b[1][1])
                continue
        flat.append((t, c))
    flat.sort(key=repr)
    if len(flat) == 0:
        return EMPTY_V
    if len(flat) == 1 and flat[0][1] == ONE:
        return ('V', (flat[0],))
    inner = ('V', tuple(flat))
    h = height(inner)
    return ('V', ((whole(('srt', inner, name, K[h])), vec_len(inner)),))
