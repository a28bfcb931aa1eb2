"""Loops: invariants over induction parameters.

Every loop is replaced by a finite set of abstract heads.  A head is a state in which the values that
change are functions of parameters (the iteration counter t and further symbols); sequences and texts
that grow become runs.  Heads are guessed from the first iterations and accepted only when every
incoming state (entry and back edges) is an instance of one of them, so the result covers any number
of iterations."""
import os
from interp import *
import interp
from live import Live


class LoopFail(Exception):
    pass


class Head(object):
    def __init__(self, st):
        self.st = st            # with parameters
        self.c0 = st.c          # facts without the inferred ones
        self.params = []        # atom ids
        self.entry = {}         # param -> entry value
        self.facts = []
        self.samples = [st]     # states known to arrive here
        self.inc = []           # (source head, state)
        self.harvested = False
        self.exact = True
        self.nrefit = 0


def tkey(node):
    return ('G', '#t%d' % node['#'])


class LoopMixin(object):
    MAXHEADS = 14
    weak = False

    # ------------------------------------------------------------ statements
    def s_For(self, n, st):
        states = [st]
        out = []
        if n.get('init'):
            res = self.ex(n['init'], st)
            states = [o[1] for o in res if o[0] == 'next']

        def step(s0):
            outs = []
            pre = [s0]
            if n.get('cv'):
                pre = self.declare(n['cv'], s0)
            for s1 in pre:
                cs = self.cond(n['c'], s1) if n.get('c') else [(s1, True)]
                for s, b in cs:
                    if not b:
                        outs.append(('exit', s, None))
                        continue
                    for k, s2, v in self.ex(n['b'], s):
                        if k in ('next', 'continue'):
                            if n.get('inc'):
                                for s3, _ in self.ev(n['inc'], s2):
                                    outs.append(('back', s3, None))
                            else:
                                outs.append(('back', s2, None))
                        elif k == 'break':
                            outs.append(('exit', s2, None))
                        else:
                            outs.append((k, s2, v))
            return outs
        return self.run_loop(states, step, n)

    def s_Do(self, n, st):
        def step(s0):
            outs = []
            for k, s2, v in self.ex(n['b'], s0):
                if k in ('next', 'continue'):
                    for s, b in self.cond(n['c'], s2):
                        outs.append(('back' if b else 'exit', s, None))
                elif k == 'break':
                    outs.append(('exit', s2, None))
                else:
                    outs.append((k, s2, v))
            return outs
        return self.run_loop([st], step, n)

    def s_RangeFor(self, n, st):
        states = [st]
        for d in ('range', 'begin', 'end'):
            nxt = []
            for s in states:
                nxt += [o[1] for o in self.ex(n[d], s) if o[0] == 'next']
            states = nxt

        def step(s0):
            outs = []
            for s, b in self.cond(n['c'], s0):
                if not b:
                    outs.append(('exit', s, None))
                    continue
                for o in self.ex(n['var'], s):
                    for k, s2, v in self.ex(n['b'], o[1]):
                        if k in ('next', 'continue'):
                            for s3, _ in self.ev(n['inc'], s2):
                                outs.append(('back', s3, None))
                        elif k == 'break':
                            outs.append(('exit', s2, None))
                        else:
                            outs.append((k, s2, v))
            return outs
        return self.run_loop(states, step, n)

    # ------------------------------------------------------------ preparation of head states
    def live_at(self, node):
        r = self._live.get(node['#'])
        if r is None:
            f = self.p.funcs.get(node.get('fn')) if node.get('fn') else None
            if f is None:
                return None
            if not hasattr(self, '_liveness'):
                self._liveness = Live(self.p)
            self._liveness.func(f)
            r = self._liveness.heads.get(node['#'])
            self._live[node['#']] = r
        return r

    def head_prep(self, st, node, back):
        lv = self.live_at(node)
        d = self.depth
        h = st.h
        if lv is not None:
            for k in [k for k in h if k[0] == 'v' and k[1] == d and k[2] not in ('this', '#caps') and k[2] not in lv]:
                self.drop(st, k)
        self.gc(st, d)
        if self.env is not None:
            sts = self.env.loop_head(st, node, back)
        else:
            sts = [st]
        for s in sts:
            self.renorm(s)
        return sts

    def gc(self, st, d):
        """drop temporaries that nothing refers to"""
        h = st.h
        temps = {}
        for k in h:
            r = k
            while r[0] in ('F', 'I'):
                r = r[1]
            if r[0] in ('T', 'L') or (r[0] == 'v' and r[1] > d):
                temps.setdefault(r, []).append(k)
        if not temps:
            return
        keep = set()
        work = []

        def scan(x):
            if isinstance(x, tuple):
                if x in temps and x not in keep:
                    keep.add(x)
                    work.append(x)
                for y in x:
                    if isinstance(y, tuple):
                        scan(y)
        for k, v in h.items():
            r = k
            while r[0] in ('F', 'I'):
                r = r[1]
            if r not in temps:
                scan(v)
        while work:
            r = work.pop()
            for k in temps[r]:
                scan(h[k])
        for r, ks in temps.items():
            if r not in keep and r[1] >= d:
                for k in ks:
                    h.pop(k, None)

    def renorm(self, st):
        for k, v in list(st.h.items()):
            if isinstance(v, Lin):
                st.h[k] = st.c.norm(v)
            elif isinstance(v, tuple) and v:
                if v[0] == 'S':
                    st.h[k] = snorm(st, v)
                elif v[0] == 'V':
                    st.h[k] = fold_vec(st, v)
                else:
                    st.h[k] = vnorm(st.c, v)

    # ------------------------------------------------------------ driver
    def run_loop(self, states, step, node):
        self.stats['loops'] += 1
        entries = []
        weak0 = self.weak
        tk = tkey(node)
        if self.env is not None:
            self.env.loop_enter(node)
        try:
            for s in states:
                s.h[tk] = ZERO
                entries += self.head_prep(s, node, False)
            entries = self.dedupe_states(entries)
            if self.env is not None and self.depth == 1 and len(self.env.loops) == 1:
                # the same state reached on another path: already followed to the end
                fresh_ = []
                for s in entries:
                    key = (node['#'], frozenset(s.h.items()))
                    done = self.loop_memo.setdefault(key, [])
                    if any(o.eq == s.c.eq and o.ge == s.c.ge and o.ne == s.c.ne for o in done):
                        continue
                    done.append(s.c)
                    fresh_.append(s)
                entries = fresh_
            if not entries:
                return []
            why = None
            x0 = len(self.exc)
            outs = self.unroll(entries, step, node, tk)
            if outs is not None:
                res = []
                for k, s, v in outs:
                    s.h.pop(tk, None)
                    res.append(('next' if k == 'exit' else k, s, v))
                return self.dedupe_outs(res)
            plan = [(0, False), (1, False), (2, False), (3, False), (0, True), (1, True), (2, True)]
            hint = self.plans.get(node['#'])
            if hint is not None:
                plan.remove(hint)
                plan.insert(0, hint)
            for peel, weak in plan:
                if weak0 and not weak:
                    continue
                self.weak = weak
                try:
                    outs = self.solve_loop([e.fork() for e in entries], step, node, peel, tk)
                    if not weak0:
                        self.plans[node['#']] = (peel, weak)
                    break
                except LoopFail as x:
                    why = why or x
                    if os.environ.get('VERIF_LOOPS'):
                        print('LOOPFAIL', self.where(node), peel, weak, x)
                    del self.exc[x0:]
            else:
                raise AnalysisError('loop at %s: no invariant found (%s)' % (self.where(node), why))
        finally:
            self.weak = weak0
            if self.env is not None:
                self.env.loop_leave(node)
        res = []
        for k, s, v in outs:
            s.h.pop(tk, None)
            res.append(('next' if k == 'exit' else k, s, v))
        return self.dedupe_outs(res)

    def guard(self, s, node):
        """is the loop entered from this state? None: either way"""
        x0, e0 = self.exc, self.exits
        self.exc, self.exits = [], []
        self.quiet += 1
        try:
            cs = self.cond(node['c'], s.fork())
        finally:
            self.quiet -= 1
            self.exc, self.exits = x0, e0
        r = set(b for _, b in cs)
        return r.pop() if len(r) == 1 and len(cs) == 1 else None

    def unroll(self, entries, step, node, tk):
        """loops whose few rounds are known in advance are followed round by round"""
        if node['k'] not in ('For', 'While', 'RangeFor') or node.get('cv') or not node.get('c') or len(entries) > (self.env.unroll_entries if self.env is not None else 6):
            return None
        how = self.env.unrollable(node) if self.env is not None else True
        if not how:
            return None
        x0, y0 = len(self.exc), len(self.exits)
        cur, outs = [e.fork() for e in entries], []
        for _ in range(self.env.unroll_rounds if self.env is not None else 6):
            if how != 'force' and any(self.guard(s, node) is None for s in cur):
                break
            nxt = []
            for s in cur:
                o, b = self.do_step(s, step, node, tk)
                outs += o
                nxt += b
            cur = self.dedupe_states(nxt)
            if not cur:
                return outs
            if len(cur) > (self.env.unroll_states if self.env is not None else 12):
                break
        del self.exc[x0:]
        del self.exits[y0:]
        return None

    def dedupe_states(self, sts):
        out, seen = [], {}
        for s in sts:
            key = frozenset(s.h.items())
            dup = False
            for o in seen.get(key, ()):
                if o.c.eq == s.c.eq and o.c.ge == s.c.ge and o.c.ne == s.c.ne:
                    dup = True
                    break
            if not dup:
                seen.setdefault(key, []).append(s)
                out.append(s)
        return out

    def dedupe_outs(self, outs):
        out, seen = [], {}
        for k, s, v in outs:
            key = (k, v, frozenset(s.h.items()))
            dup = False
            for o in seen.get(key, ()):
                if o.c.eq == s.c.eq and o.c.ge == s.c.ge and o.c.ne == s.c.ne:
                    dup = True
                    break
            if not dup:
                seen.setdefault(key, []).append(s)
                out.append((k, s, v))
        return out

    def do_step(self, st, step, node, tk):
        """-> (other outcomes, back states)"""
        s0 = st.fork()
        other, backs = [], []
        for k, s, v in step(s0):
            if k == 'back':
                s.h[tk] = s.c.norm(s.h.get(tk, ZERO) + 1)
                backs += self.head_prep(s, node, True)
            else:
                other.append((k, s, v))
        return other, self.dedupe_states(backs)

    def quiet_step(self, st, step, node, tk):
        x0, e0 = self.exc, self.exits
        self.exc, self.exits = [], []
        self.quiet += 1
        try:
            return self.do_step(st, step, node, tk)[1]
        finally:
            self.quiet -= 1
            self.exc, self.exits = x0, e0

    def solve_loop(self, cur, step, node, peel, tk):
        outs = []
        for _ in range(peel):
            nxt = []
            for s in cur:
                o, b = self.do_step(s, step, node, tk)
                outs += o
                nxt += b
            cur = self.dedupe_states(nxt)
            if not cur:
                return outs
        heads = []
        queue = []
        for s in cur:
            self.absorb(heads, s, queue, None, step, node, tk)
        n = 0
        while queue:
            n += 1
            if n > 60:
                raise LoopFail('no convergence')
            H = queue.pop(0)
            if os.environ.get('VERIF_LOOPS') == '4':
                print('  ' * len(self.env.loops), 'ROUND', self.where(node), n, 'heads', len(heads), 'queue', len(queue), flush=True)
            for G in heads:
                G.inc = [(h, s) for h, s in G.inc if h is not H]
            backs = self.quiet_step(H.st, step, node, tk)
            if H.params and not H.harvested:
                H.harvested = True
                if self.harvest(H, backs):
                    self.rebuild(H)
                    queue.insert(0, H)
                    continue
            for B in backs:
                if self.absorb(heads, B, queue, H, step, node, tk):
                    # H itself changed: rerun it
                    if H in queue:
                        break
        for H in heads:
            o, b = self.do_step(H.st, step, node, tk)
            outs += o
            for B in b:
                if not any(self.match(G, B, tk)[0] == 'ok' for G in heads):
                    raise LoopFail('unstable')
        if not self.quiet:
            self.stats['heads'] = self.stats.get('heads', 0) + len(heads)
        return outs

    # ------------------------------------------------------------ heads
    def absorb(self, heads, B, queue, src, step, node, tk):
        """make B an instance of some head; True when a head changed"""
        best = None
        for H in heads:
            r = self.match(H, B, tk)
            if r[0] == 'ok':
                H.inc.append((src, B))
                return False
            if r[0] == 'facts':
                if best is None or best[0] != 'facts' or len(r[1]) < len(best[1]):
                    best = ('facts', r[1], H)
            elif r[0] == 'base' and self.weak:
                if best is None or best[0] != 'facts' and (best[0] != 'base' or len(r[1]) < len(best[1])):
                    best = ('base', r[1], H)
            elif r[0] == 'holes' and best is None:
                best = ('holes', None, H)
        if best is not None and best[0] == 'base':
            H = best[2]
            self.weaken_base(H, set(best[1]))
            H.inc.append((src, B))
            H.samples.append(B)
            self.rebuild(H)
            self.recheck(H, tk)
            if H not in queue:
                queue.append(H)
            return True
        if best is not None and best[0] == 'facts':
            H = best[2]
            bad = set(best[1])
            H.facts = [f for f in H.facts if f not in bad]
            H.inc.append((src, B))
            H.samples.append(B)
            self.rebuild(H)
            if H not in queue:
                queue.append(H)
            return True
        if best is not None:
            H = best[2]
            if self.widen(H, B, step, node, tk):
                H.inc.append((src, B))
                self.recheck(H, tk)
                if H not in queue:
                    queue.append(H)
                return True
        if len(heads) >= self.MAXHEADS:
            raise LoopFail('too many heads')
        H = Head(B)
        B.h[tk] = ZERO
        H.inc.append((src, B))
        heads.append(H)
        queue.append(H)
        return True

    def recheck(self, H, tk):
        """drop facts that a known incoming state violates"""
        for s in list(H.samples) + [x for _, x in H.inc]:
            while True:
                r = self.match(H, s, tk)
                if r[0] == 'ok':
                    break
                if r[0] == 'facts':
                    bad = set(r[1])
                    H.facts = [f for f in H.facts if f not in bad]
                    self.rebuild(H)
                    continue
                if r[0] == 'base' and self.weak:
                    self.weaken_base(H, set(r[1]))
                    self.rebuild(H)
                    continue
                if os.environ.get('VERIF_LOOPS') == '2' and r[0] == 'holes':
                    for k in r[1]:
                        print('  MISS', k, '\n   head ', show_val(H.st.h[k]), '\n   state', show_val(s.h[k]))
                    print('   tk', s.h.get(tk), [str(x) for x in s.c.ge][:60], s.c.eq)
                raise LoopFail('widened head misses a known state: %s' % (r[1],))

    def rebuild(self, H):
        c = H.c0
        for f in H.facts:
            c2 = c.add_ge(f)
            if c2 is None:
                raise LoopFail('contradictory invariant')
            c = c2
        H.st.c = c

    # ------------------------------------------------------------ matching
    def match(self, H, B, tk):
        """is B an instance of H?  ('ok',) / ('facts', failing) / ('holes', where) / ('none', why)"""
        hh, bh = H.st.h, B.h
        if hh.keys() != bh.keys():
            self.level_keys(H.st, B)
            if hh.keys() != bh.keys():
                return ('none', 'keys %s' % (set(hh) ^ set(bh)))
        bind = {}
        unb = set(H.params)
        pend = []
        defer = []
        for k, a in hh.items():
            if k == tk:
                continue
            b = bh[k]
            if a == b and not (unb and self.has_params(a, unb)):
                continue
            if isinstance(a, tuple) and a and a[0] in ('S', 'V') or (isinstance(a, tuple) and isinstance(b, tuple) and a and a[0] == 'rec'):
                if not (isinstance(b, tuple) and b and b[0] == a[0]):
                    return ('none', 'kind %s' % (k,))
                defer.append((k, a, b))
                continue
            if not self.munify(a, b, pend):
                return ('none', 'shape %s: %s / %s' % (k, show_val(a), show_val(b)))
            if pend and self.discrete(k):
                x, y = pend[-1][:2]
                if isinstance(a, Lin) and not self.has_params(a, unb) and not B.c.is_eq(a, b):
                    return ('none', 'discrete %s' % (k,))
            defer += [(k, p[0], p[1]) for p in pend if not isinstance(p[0], Lin)]
            pend = [(p if len(p) == 3 else (p[0], p[1], k)) for p in pend if isinstance(p[0], Lin)]
        bad = self.solve_eqs(pend, bind, unb, B)
        # containers: bind what is still unbound from their counts, then compare
        if unb - set(bind):
            for k, a, b in defer:
                ps = []
                if skel(a) == skel(b):
                    la, lb = holes(a, []), holes(b, [])
                    ps = [(x, y, k) for x, y in zip(la, lb)]
                    self.solve_eqs(ps, bind, unb, B, only_bind=True)
                else:
                    self.bind_counts(a, b, bind, unb, B)
        if H.params and H.params[0] not in bind:
            if tk in bh:
                bind[H.params[0]] = bh[tk]
        left = unb - set(bind)
        if left:
            return ('none', 'unbound %s' % [lin.atom_name(x) for x in left])
        sub = lambda x: self.apply_bind(x, bind)
        holes_bad = list(bad)
        for k, a, b in defer:
            a2 = sub(a) if bind else a
            a2 = unwild(a2, b)
            if not same(B, a2, b):
                if os.environ.get('VERIF_LOOPS') == '3':
                    print('  NOTSAME', k, '\n     ', show_val(a2), '\n     ', show_val(b), '\n', a2, '\n', b)
                if a[0] == 'S' and self.discrete(k):
                    return ('none', 'discrete text %s' % (k,))
                holes_bad.append(k)
        if holes_bad:
            return ('holes', holes_bad)
        fails = []
        for f in H.facts:
            if not B.c.is_ge(sub(f)):
                fails.append(f)
        if fails:
            return ('facts', fails)
        # facts the head inherited from its first entry
        lost = [('ge', g) for g in self.base_facts(H) if not B.c.is_ge(sub(g) if bind else g)]
        lost += [('ne', d) for d in H.c0.ne if not B.c.is_ne(sub(d))]
        lost += [('eq', x) for x, e in H.c0.eq.items() if not B.c.is_eq(sub(Lin(0, ((x, 1),))), sub(e))]
        if lost:
            return ('base', lost)
        return ('ok',)

    def level_keys(self, A, B):
        """load the fields that only one of the states has looked at so far"""
        for x, y in ((A, B), (B, A)):
            for k in [k for k in x.h if k not in y.h and k[0] == 'F']:
                if ('F', k[1], '#stat') in x.h and k[2] != '#stat':
                    del x.h[k]
                    continue
                v = self.env.missing(y, k)
                if v is not None:
                    y.h[k] = v

    def base_facts(self, H):
        return H.c0.ge

    def weaken_base(self, H, lost):
        """forget entry facts of H"""
        c0 = H.c0
        c = Cons()
        for x, e in c0.eq.items():
            if ('eq', x) not in lost:
                c = c.add_eq(Lin(0, ((x, 1),)) - e) if c is not None else None
        for g in c0.ge:
            if ('ge', g) not in lost:
                c = c.add_ge(g) if c is not None else None
        for d in c0.ne:
            if ('ne', d) not in lost:
                c = c.add_ne(d) if c is not None else None
        if c is None:
            raise LoopFail('contradictory entry facts')
        H.c0 = c

    def has_params(self, x, ps):
        if not ps:
            return False
        return not ps.isdisjoint(atoms_of(x))

    def apply_bind(self, x, bind):
        """simultaneous substitution"""
        if not bind:
            return x
        tmp = {}
        for p in bind:
            tmp[p] = fresh('tmp')
        for p, t in tmp.items():
            x = subst_atom(x, p, t)
        for p, t in tmp.items():
            x = subst_atom(x, t.t[0][0], bind[p])
        return x

    def discrete(self, k):
        if k[0] == 'v':
            t = self.p.vartypes.get(k[2])
            return t is not None and self.p.kind(self.p.strip(t)) in ('bool', 'enum')
        if k[0] == 'G':
            return self.env is not None and k[1] in self.env.discrete
        if k[0] == 'NUL':
            return True
        if k[0] == 'F':
            t = self.field_type(k[2])
            return t is not None and self.p.kind(self.p.strip(t)) in ('bool', 'enum')
        return False

    def field_type(self, key):
        if not hasattr(self, '_ftypes'):
            self._ftypes = {}
            for r in self.p.records:
                for f, t in self.p.fields(r):
                    self._ftypes[f] = t
        return self._ftypes.get(key)

    def munify(self, a, b, pend):
        if isinstance(a, Lin):
            if not isinstance(b, Lin):
                return False
            pend.append((a, b))
            return True
        if isinstance(a, tuple):
            if is_wild(a):
                return is_str(b)
            if a and a[0] in ('S', 'V') and isinstance(b, tuple) and b and b[0] == a[0]:
                if a != b:
                    pend.append((a, b))
                return True
            if not isinstance(b, tuple) or len(a) != len(b):
                return False
            for x, y in zip(a, b):
                if isinstance(x, (tuple, Lin)):
                    if not self.munify(x, y, pend):
                        return False
                elif x != y:
                    return False
            return True
        return a == b

    def solve_eqs(self, eqs, bind, unb, B, only_bind=False):
        todo = list(eqs)
        progress = True
        while progress and todo:
            progress = False
            rest = []
            for e in todo:
                a, b, k = e
                free = [x for x in atoms_of(a) if x in unb and x not in bind]
                if not free:
                    rest.append(e)
                    continue
                done = False
                if len(free) == 1:
                    p = free[0]
                    a2 = self.apply_bind(a, {q: v for q, v in bind.items()})
                    coef = dict(a2.t).get(p)
                    if coef in (1, -1) and not any(y != p and y in lin.DEEP and atom_mentions(y, p) for y, _ in a2.t):
                        rest_l = a2 - Lin(0, ((p, coef),))
                        bind[p] = B.c.norm((b - rest_l) * coef)
                        progress = done = True
                    elif coef and not any(y != p and y in lin.DEEP and atom_mentions(y, p) for y, _ in a2.t):
                        d = B.c.norm(b - (a2 - Lin(0, ((p, coef),))))
                        if d.c % coef == 0 and all(x % coef == 0 for _, x in d.t):
                            bind[p] = Lin(d.c // coef, tuple((y, x // coef) for y, x in d.t))
                            progress = done = True
                if not done:
                    # same deep structure on both sides
                    sub = self.deep_pairs(a, b)
                    if sub:
                        before = len(bind)
                        self.solve_eqs([(x, y, k) for x, y in sub], bind, unb, B, True)
                        if len(bind) > before:
                            progress = True
                    rest.append(e)
            todo = rest
        bad = []
        if only_bind:
            return bad
        for a, b, k in todo:
            a2 = self.apply_bind(a, bind)
            if not B.c.is_eq(a2, b):
                bad.append(k)
        return bad

    def deep_pairs(self, a, b):
        ta = [(x, k) for x, k in a.t if x in lin.GEN]
        tb = [(x, k) for x, k in b.t if x in lin.GEN]
        out = []
        if len(ta) == len(tb):
            for (x, k), (y, m) in zip(ta, tb):
                if k == m and lin.ATOMS[x][0] == lin.ATOMS[y][0] != 'mul':
                    p = []
                    if self.munify(lin.ATOMS[x], lin.ATOMS[y], p):
                        out += [q[:2] for q in p if isinstance(q[0], Lin)]
        return out

    def bind_counts(self, a, b, bind, unb, B):
        """bind unbound counts of runs from the total lengths"""
        if a[0] == 'V':
            la, lb = vec_len(a), vec_len(b)
        elif a[0] == 'S':
            la, lb = str_len(a), str_len(b)
        else:
            return
        self.solve_eqs([(la, lb, None)], bind, unb, B, True)

    # ------------------------------------------------------------ generalisation
    def widen(self, H, B, step, node, tk):
        if H.nrefit > 6:
            raise LoopFail('widening does not settle')
        H.nrefit += 1
        E = H.samples[0]
        if H.exact:
            cands = self.quiet_step(B, step, node, tk)
            trials = [[E, B, C] for C in cands if C.h.keys() == E.h.keys()]
            trials.append([E, B])
        else:
            trials = [H.samples + [B]]
        why = None
        for tr in trials:
            g = self.generalise(H, tr, tk)
            if g is not None:
                st, params, entry = g
                H.st = st
                H.params = params
                H.entry = entry
                H.samples = tr
                H.exact = False
                H.harvested = False
                H.c0 = self.base_cons(H, tr)
                H.facts = self.initial_facts(H, tr)
                self.rebuild(H)
                return True
        return False

    def base_cons(self, H, samples):
        """facts true in all samples over the symbols of the first"""
        E = samples[0]
        c = E.c
        return c

    def initial_facts(self, H, samples):
        fs = []
        for p in H.params:
            e = H.entry.get(p)
            pl = Lin(0, ((p, 1),))
            if e is not None:
                fs.append(pl - e)
                if p != H.params[0]:
                    fs.append(e - pl)
        if self.env is not None:
            fs += [f for f in self.env.head_facts(H.st) if f.t]
        return fs

    def generalise(self, H, samples, tk):
        """common generalisation of the samples, or None"""
        E = samples[0]
        keys = E.h.keys()
        for s in samples[1:]:
            if s.h.keys() != keys:
                self.level_keys(E, s)
        for s in samples[1:]:
            if s.h.keys() != E.h.keys():
                return None
        t = fresh('t', 0, None)
        ctx = Fit(self, samples, t, [s.h.get(tk, ZERO) for s in samples])
        newh = {}
        late = []
        for k in E.h:
            vals = [s.h[k] for s in samples]
            if k == tk:
                newh[k] = t
                continue
            if all(v == vals[0] for v in vals[1:]):
                newh[k] = vals[0]
                continue
            if isinstance(vals[0], tuple) and vals[0] and vals[0][0] in ('S', 'V'):
                newh[k] = None
                late.append(k)
                continue
            if self.discrete(k):
                if all(same(samples[i], vals[0], vals[i]) for i in range(1, len(vals))):
                    newh[k] = vals[0]
                    continue
                return None
            ctx.range = self.key_range(k)
            ctx.allow_wild = self.env is None or self.env.may_forget(k)
            g = ctx.gen(vals)
            if g is None:
                return None
            newh[k] = g
        ctx.allow_wild = False
        for k in late:
            vals = [s.h[k] for s in samples]
            ctx.range = (0, None)
            g = ctx.container(vals)
            if g is None:
                g = self.opaque(k, vals, ctx)
            if g is None:
                return None
            newh[k] = g
        st = St(newh, E.c, E.tr)
        return st, [t.t[0][0]] + ctx.params, ctx.entry

    def opaque(self, k, vals, ctx):
        if vals[0][0] == 'S' and all(isinstance(v, tuple) and v[0] == 'S' for v in vals):
            if self.env is not None and not self.env.may_forget(k):
                return None
            # a text about which nothing is known any more
            return wild_text()
        return None

    def key_range(self, k):
        t = None
        if k[0] == 'v':
            t = self.p.vartypes.get(k[2])
        elif k[0] == 'F':
            t = self.field_type(k[2])
        if t is not None:
            r = interp.int_range(self.p.ty(self.p.strip(t)))
            if r:
                return r
        return (None, None)

    # ------------------------------------------------------------ candidate invariants
    def harvest(self, H, backs):
        """facts about the new parameter values that hold after an iteration"""
        cands = []
        tk = None
        live = set(atoms_of(tuple(v for v in H.samples[0].h.values() if isinstance(v, (tuple, Lin)))))
        for d in (self.env.live_atoms(H.st) if self.env is not None else ()):
            live.add(d)
        leafs = set(live)
        inv = self.inv_atoms(H)
        for B in backs[:6]:
            r = self.bindings(H, B)
            if r is None:
                continue
            c = B.c
            new = {}
            ok = True
            for p, v in r.items():
                n = fresh('new')
                c2 = c.add_eq(n, v)
                if c2 is None:
                    ok = False
                    break
                c = c2
                new[p] = n
            if not ok:
                continue
            nid = {n.t[0][0]: p for p, n in new.items()}
            keep = set(inv) | set(nid)
            pc = project(c, self.close_live(c, keep))
            if pc is None:
                continue
            facts = list(pc.ge)
            for x, e in pc.eq.items():
                l = Lin(0, ((x, 1),)) - e
                facts += [l, -l]
            for f in facts:
                if not any(a in nid for a in atoms_of(f)):
                    continue
                g = f
                for n, p in nid.items():
                    g = subst_atom(g, n, Lin(0, ((p, 1),)))
                cands.append(g)
        # sign combinations of pairs of parameters at entry
        cands = [g for g in dict.fromkeys(cands) if g.t and g not in H.facts]
        added = False
        for g in cands[:60]:
            if self.holds_in_samples(H, g):
                H.facts.append(g)
                added = True
        return added

    def close_live(self, c, keep):
        """atoms of c that only depend on keep"""
        out = set(keep)
        seen = set()

        def ok(a):
            if a in out:
                return True
            if a in lin.DEEP:
                t = lin.ATOMS[a]
                if t[0] == 'mul':
                    return ok(t[1]) and ok(t[2])
                inner = set()
                lin.atoms_of(t[1:], inner)
                base = [x for x in inner if x not in lin.DEEP]
                return all(x in out for x in base)
            return lin.ATOMS[a][0] != 'b'
        ats = set()
        for l in list(c.ge) + list(c.ne):
            ats.update(x for x, _ in l.t)
        for x, e in c.eq.items():
            ats.add(x)
            ats.update(y for y, _ in e.t)
        for a in ats:
            if ok(a):
                seen.add(a)
        return out | seen

    def inv_atoms(self, H):
        """symbols that mean the same in every iteration"""
        E = H.samples[0]
        acc = set()
        for v in E.h.values():
            if isinstance(v, (tuple, Lin)):
                atoms_of(v, acc)
        for l in list(E.c.ge) + list(E.c.ne):
            atoms_of(l, acc)
        for x, e in E.c.eq.items():
            acc.add(x)
            atoms_of(e, acc)
        if self.env is not None:
            acc.update(self.env.live_atoms(H.st))
        return acc - set(H.params)

    def bindings(self, H, B):
        bind = {}
        unb = set(H.params)
        pend = []
        for k, a in H.st.h.items():
            b = B.h.get(k)
            if b is None:
                return None
            if isinstance(a, tuple) and a and a[0] in ('S', 'V', 'rec'):
                continue
            p2 = []
            if self.munify(a, b, p2):
                pend += [(x, y, k) for x, y in p2 if isinstance(x, Lin)]
        self.solve_eqs(pend, bind, unb, B, True)
        return bind

    def holds_in_samples(self, H, g):
        for s in H.samples:
            b = self.bindings(H, s)
            if b is None:
                return False
            if not s.c.is_ge(self.apply_bind(g, b)):
                return False
        return True


def wild_text():
    lin_ = fresh('w', 0, None)
    return ('S', (('o', 'wild', lin_.t[0][0]),))


def is_wild(a):
    return isinstance(a, tuple) and len(a) == 2 and a[0] == 'S' and len(a[1]) == 1 and a[1][0][0] == 'o' and a[1][0][1] == 'wild'


def unwild(a, b):
    """a with its arbitrary texts replaced by the corresponding texts of b"""
    if is_wild(a):
        return b if is_str(b) else a
    if not isinstance(a, tuple) or not isinstance(b, tuple) or len(a) != len(b):
        return a
    return tuple(unwild(x, y) if isinstance(x, tuple) else x for x, y in zip(a, b))


class Fit(object):
    """expresses the values of several samples through common parameters"""

    def __init__(self, I, samples, t, tvals):
        self.I = I
        self.samples = samples
        self.basis = [(t, tvals)]
        self.params = []
        self.entry = {t.t[0][0]: ZERO}
        self.range = (None, None)
        self.allow_wild = False

    def norm(self, vals):
        return [s.c.norm(v) for s, v in zip(self.samples, vals)]

    def gen(self, vals):
        v0 = vals[0]
        if isinstance(v0, Lin):
            if not all(isinstance(v, Lin) for v in vals):
                return None
            return self.lin(self.norm(vals))
        if isinstance(v0, tuple):
            if not all(isinstance(v, tuple) and len(v) == len(v0) for v in vals):
                return None
            if v0 and v0[0] in ('S', 'V'):
                if all(v[0] == v0[0] for v in vals):
                    return self.text(vals) if v0[0] == 'S' else self.container(vals)
                return None
            out = []
            for i, x in enumerate(v0):
                xs = [v[i] for v in vals]
                if isinstance(x, (tuple, Lin)):
                    g = self.gen(xs)
                    if g is None:
                        return None
                    out.append(g)
                else:
                    if not all(y == x for y in xs):
                        return None
                    out.append(x)
            return tuple(out)
        return v0 if all(v == v0 for v in vals) else None

    def lin(self, vals):
        if all(v == vals[0] for v in vals):
            return vals[0]
        if all(s.c.is_eq(vals[0], v) for s, v in zip(self.samples, vals)):
            return vals[0]
        # the same function of something that changes
        if not all(v.const for v in vals):
            n = len(self.params)
            g = self.deep(vals)
            if g is not None and len(self.params) == n:
                return g
            while len(self.params) > n:
                q = self.params.pop()
                self.entry.pop(q)
                self.basis = [b for b in self.basis if b[0].t[0][0] != q]
        # affine in an existing parameter
        for p, pv in self.basis:
            k = None
            for i in range(1, len(vals)):
                dp = pv[i] - pv[0]
                dv = self.samples[i].c.norm(vals[i] - vals[0])
                if dp.const and dp.c != 0:
                    if dp.c in (1, -1):
                        k = dv * dp.c
                    elif dv.c % dp.c == 0 and all(x % dp.c == 0 for _, x in dv.t):
                        k = Lin(dv.c // dp.c, tuple((a, x // dp.c) for a, x in dv.t))
                    break
                if dp.t and dv.t:
                    for kk in (1, -1):
                        if self.samples[i].c.is_eq(dv, dp * kk):
                            k = Lin(kk)
                    if k is not None:
                        break
            if k is None:
                continue
            base = vals[0] - pv[0] * k
            if len(vals) == 2 and not (p is self.basis[0][0]):
                pass
            if all(s.c.is_eq(v, base + q * k) for s, v, q in zip(self.samples, vals, pv)):
                return base + p * k
        # the same function of something that changes
        g = self.deep(vals)
        if g is not None:
            return g
        p = fresh('i', *self.range)
        self.params.append(p.t[0][0])
        self.entry[p.t[0][0]] = vals[0]
        self.basis.append((p, vals))
        return p

    def deep(self, vals):
        shapes = [tuple((k, lin.ATOMS[a][0]) for a, k in v.t) for v in vals]
        if not vals[0].t or any(s != shapes[0] for s in shapes) or any(v.c != vals[0].c for v in vals):
            return None
        out = Lin(vals[0].c)
        for j, (a, k) in enumerate(vals[0].t):
            as_ = [v.t[j][0] for v in vals]
            if all(x == a for x in as_):
                out = out + Lin(0, ((a, k),))
                continue
            if not all(x in lin.GEN for x in as_) or any(lin.ATOMS[x][0] == 'mul' for x in as_):
                return None
            g = self.gen([lin.ATOMS[x] for x in as_])
            if g is None:
                return None
            b = lin.BOUNDS.get(a, (None, None))
            out = out + Lin(0, ((lin.atom(g, *b), k),))
        return out

    # sequences and texts
    def container(self, vals):
        if vals[0][0] == 'V':
            return self.seq(vals, 'V')
        if is_wild(vals[0]):
            return vals[0]
        np, nb = len(self.params), len(self.basis)
        r = self.seq(vals, 'S')
        if r is None:
            del self.params[np:]
            del self.basis[nb:]
        return r

    def text(self, vals):
        r = self.container(vals)
        if r is None and self.allow_wild:
            return wild_text()
        return r

    def explode(self, s, v):
        if v[0] == 'V':
            out = []
            for t, c in fold_vec(s, v)[1]:
                if c.const and c != ONE and c.c <= 4:
                    for i in range(c.c):
                        out.append((vnorm(s.c, seg_at((t, c), Lin(i))), ONE))
                else:
                    out.append((t, c))
            return out
        out = []
        for p in snorm(s, v)[1]:
            if p[0] == 'l':
                out += [('l', ch) for ch in p[1]]
            elif p[0] == 'R' and p[2].const and p[2].c <= 4:
                for i in range(p[2].c):
                    for q in p[1]:
                        q2 = subst_atom(q, KID[height(p[1])], Lin(i))
                        out += [('l', ch) for ch in q2[1]] if q2[0] == 'l' else [vnorm(s.c, q2)]
            else:
                out.append(p)
        return out

    def seq(self, vals, kind):
        S = self.samples
        xs = [self.explode(s, v) for s, v in zip(S, vals)]
        eq = lambda i, a, b: a == b or same(S[i], a, b)
        # common prefix
        pre = 0
        while all(len(x) > pre for x in xs) and all(eq(i, xs[0][pre], xs[i][pre]) for i in range(1, len(xs))):
            pre += 1
        mids = [x[pre:] for x in xs]
        suf = 0
        while all(len(x) > suf for x in mids) and all(eq(i, mids[0][-1 - suf], mids[i][-1 - suf]) for i in range(1, len(xs))):
            suf += 1
        prefix = xs[0][:pre]
        suffix = mids[0][len(mids[0]) - suf:] if suf else []
        mids = [m[:len(m) - suf] if suf else m for m in mids]
        mk = lambda mid: (kind, tuple(prefix + mid + suffix))
        if all(not m for m in mids):
            return mk([])
        # equally long middles: piecewise
        if all(len(m) == len(mids[0]) for m in mids):
            out = []
            for j in range(len(mids[0])):
                g = self.piece([m[j] for m in mids], kind)
                if g is None:
                    break
                out.append(g)
            else:
                return mk(out)
        n0 = len(mids[0])
        if len(vals) < 3:
            return None
        # a front that grows before a rest of n0 pieces
        if n0 and all(len(m) >= n0 for m in mids) and len(mids[1]) > n0:
            np, nb = len(self.params), len(self.basis)
            rest = []
            for j in range(n0):
                g = self.piece([m[len(m) - n0 + j] for m in mids], kind)
                if g is None:
                    break
                rest.append(g)
            else:
                suffix = rest + suffix
                mids = [m[:len(m) - n0] for m in mids]
                n0 = 0
            if n0:
                del self.params[np:]
                del self.basis[nb:]
        # growth by one group per iteration: samples 0, 1, 2
        if n0 != 0 and not all(len(m) >= n0 for m in mids):
            return None
        if n0:
            return None
        m = len(mids[1])
        if m == 0:
            return None
        if kind == 'V':
            if m != 1:
                # m elements per round that follow one rule
                if not all(n == ONE for x in mids[1:3] for _, n in x) or len(mids[2]) != 2 * m:
                    return None
                g = self.interp([mids[2][0][0], mids[2][1][0]], S[2])
                if g is None or any(vnorm(S[2].c, seg_at((g, Lin(2 * m)), Lin(i))) != vnorm(S[2].c, mids[2][i][0]) for i in range(2 * m)):
                    return None
                cnt = self.lin([ZERO, Lin(m), Lin(2 * m)] + [self.count_of(i, g, mids[i]) for i in range(3, len(vals))])
                return None if cnt is None else mk([(g, cnt)])
            s1 = mids[1][0]
            if s1[1] == ONE:
                if len(mids[2]) != 2 or mids[2][1][1] != ONE:
                    return None
                g = self.interp([mids[2][0][0], mids[2][1][0]], S[2])
                if g is None:
                    return None
                cnt = self.lin([ZERO, ONE, Lin(2)] + [self.count_of(i, g, mids[i]) for i in range(3, len(vals))])
                if cnt is None:
                    return None
                return mk([(g, cnt)])
            if len(mids[2]) == 1 and mids[2][0][0] == s1[0]:
                cnt = self.lin([ZERO, s1[1], mids[2][0][1]] + [self.count_of(i, s1[0], mids[i]) for i in range(3, len(vals))])
                return mk([(s1[0], cnt)])
            if len(mids[2]) == 2:
                a, b = mids[2]
                if S[2].c.is_eq(a[1], b[1]):
                    return None
            return None
        if len(mids[2]) != 2 * m:
            return None
        tm = []
        pat = []
        for j in range(m):
            g = self.interp([mids[2][j], mids[2][m + j]], S[2], hint=None)
            if g is None:
                return None
            pat.append((mids[2][j], mids[2][m + j]))
        # one common height for the whole group
        h = max(height(a) for a, _ in pat)
        tm = []
        for a, b in pat:
            g = self.interp([a, b], S[2], h)
            if g is None:
                return None
            tm.append(g)
        # merge literal characters
        merged = []
        for p in tm:
            if p[0] == 'l' and merged and merged[-1][0] == 'l':
                merged[-1] = ('l', merged[-1][1] + p[1])
            else:
                merged.append(p)
        if len(vals) > 3:
            return None
        cnt = self.lin([ZERO, ONE, Lin(2)])
        return mk([('R', tuple(merged), cnt)])

    def count_of(self, i, tmpl, mid):
        n = ZERO
        for t, c in mid:
            n = n + c
        return n

    def piece(self, ps, kind):
        if kind == 'V':
            ts = [p[0] for p in ps]
            cs = self.norm([p[1] for p in ps])
            if all(t == ts[0] for t in ts):
                g = ts[0]
            else:
                g = self.gen(ts)
            if g is None:
                return None
            old = self.range
            self.range = (0, None)
            c = self.lin(cs)
            self.range = old
            return (g, c)
        return self.gen(list(ps))

    def interp(self, two, s, hint=None):
        a, b = vnorm(s.c, two[0]), vnorm(s.c, two[1])
        h = height(a) if hint is None else hint
        return self.interp_v(a, b, K[h], s)

    def interp_v(self, a, b, k, s):
        if isinstance(a, Lin):
            if not isinstance(b, Lin):
                return None
            if a == b:
                return a
            d = b - a
            if d.const:
                return a + k * d
            # pair up differing deep atoms
            sa = dict(a.t)
            sb = dict(b.t)
            da = [(x, c) for x, c in a.t if sb.get(x) != c]
            db = [(x, c) for x, c in b.t if sa.get(x) != c]
            if a.c == b.c and len(da) == len(db) and all(x in lin.GEN for x, _ in da + db):
                out = a
                ok = True
                for (x, c), (y, e) in zip(da, db):
                    tx, ty = lin.ATOMS[x], lin.ATOMS[y]
                    if c != e or tx[0] != ty[0] or tx[0] == 'mul':
                        ok = False
                        break
                    g = self.interp_v(tx, ty, k, s)
                    if g is None:
                        ok = False
                        break
                    bnd = lin.BOUNDS.get(x, (None, None))
                    out = out - Lin(0, ((x, c),)) + Lin(0, ((lin.atom(g, *bnd), c),))
                if ok:
                    return out
            return a + k * d
        if isinstance(a, tuple):
            if not isinstance(b, tuple) or len(a) != len(b):
                return None
            out = []
            for x, y in zip(a, b):
                if isinstance(x, (tuple, Lin)):
                    g = self.interp_v(x, y, k, s)
                    if g is None:
                        return None
                    out.append(g)
                else:
                    if x != y:
                        return None
                    out.append(x)
            return tuple(out)
        return a if a == b else None
