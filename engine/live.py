"""Liveness of local variables at loop heads (structured backward analysis)."""


class Live(object):
    def __init__(self, prog):
        self.p = prog
        self.heads = {}        # loop node -> frozenset(live ids)
        self.done = set()

    def func(self, f):
        if f['id'] in self.done:
            return
        self.done.add(f['id'])
        self.always = set()
        self.alias_scan(f['body'])
        self.stmt(f['body'], set(), None, None)
        for i in f.get('inits', []):
            pass

    # variables bound to references / whose address escapes into a variable stay live
    def alias_scan(self, n):
        if isinstance(n, dict):
            if n.get('k') == 'Decl':
                for v in n['d']:
                    if v.get('init') is not None and (self.p.is_ref(v['t']) or self.p.kind(v['t']) == 'ptr'):
                        self.refs(v['init'], self.always)
            if n.get('k') == 'Lambda':
                for c in n['caps']:
                    if 'id' in c:
                        self.always.add(c['id'])
            if n.get('k') == 'Bin' and n['op'] == '=' and self.p.kind(n['a'].get('t', '')) == 'ptr' if n.get('k') == 'Bin' and n.get('a', {}).get('t') in self.p.types else False:
                self.addr(n['b'], self.always)
            for v in n.values():
                if isinstance(v, (dict, list)):
                    self.alias_scan(v)
        elif isinstance(n, list):
            for v in n:
                self.alias_scan(v)

    def addr(self, n, acc):
        if isinstance(n, dict):
            if n.get('k') == 'Un' and n.get('op') == '&':
                self.refs(n['a'], acc)
            if n.get('k') == 'Cast' and n.get('ck') == 'ArrayToPointerDecay':
                self.refs(n['e'], acc)
            if n.get('k') == 'MCall':
                self.refs(n['o'], acc)
            for v in n.values():
                if isinstance(v, (dict, list)):
                    self.addr(v, acc)
        elif isinstance(n, list):
            for v in n:
                self.addr(v, acc)

    def refs(self, n, acc):
        if isinstance(n, dict):
            if n.get('k') == 'Ref' and 'id' in n:
                acc.add(n['id'])
            if n.get('k') == 'Lambda':
                for c in n['caps']:
                    if 'id' in c:
                        acc.add(c['id'])
            for v in n.values():
                if isinstance(v, (dict, list)):
                    self.refs(v, acc)
        elif isinstance(n, list):
            for v in n:
                self.refs(v, acc)

    def uses(self, e):
        acc = set()
        self.refs(e, acc)
        return acc

    def target(self, e):
        while e is not None and e['k'] in ('Full', 'Cast') and e.get('ck', 'NoOp') == 'NoOp':
            e = e['e']
        if e is not None and e['k'] == 'Ref' and 'id' in e:
            return e['id']
        return None

    def expr(self, e, out):
        """live before e given live after"""
        if e is None:
            return out
        x = e
        while x['k'] == 'Full':
            x = x['e']
        if x['k'] == 'Bin' and x['op'] == '=':
            t = self.target(x['a'])
            if t is not None:
                return self.expr(x['b'], out - {t})
        if x['k'] == 'MCall' and self.p.funcs[x['f']]['n'] == 'operator=' and not x.get('arrow'):
            t = self.target(x['o'])
            if t is not None:
                u = set()
                for a in x['args']:
                    u |= self.uses(a)
                return (out - {t}) | u
        if x['k'] == 'Bin' and x['op'] == ',':
            return self.expr(x['a'], self.expr(x['b'], out))
        return out | self.uses(x)

    def var(self, v, out):
        o = out - {v['id']}
        if v.get('init') is not None:
            o = self.expr(v['init'], o)
        return o

    def stmt(self, n, out, brk, cont):
        if n is None:
            return out
        k = n['k']
        if k == 'Block':
            for c in reversed(n['c']):
                out = self.stmt(c, out, brk, cont)
            return out
        if k == 'Decl':
            for v in reversed(n['d']):
                out = self.var(v, out)
            return out
        if k == 'Expr':
            return self.expr(n['e'], out)
        if k == 'Return':
            return self.uses(n['e']) if n.get('e') else set()
        if k == 'If':
            o = self.stmt(n['t'], out, brk, cont) | (self.stmt(n['e'], out, brk, cont) if n.get('e') else out)
            o = self.expr(n['c'], o)
            if n.get('cv'):
                o = self.var(n['cv'], o)
            if n.get('init'):
                o = self.stmt(n['init'], o, brk, cont)
            return o
        if k == 'Switch':
            b = n['b']
            stmts = b['c'] if b['k'] == 'Block' else [b]
            cur = out
            tot = set(out)
            for s in reversed(stmts):
                cur = self.stmt(s, cur, out, cont)
                tot |= cur
            o = self.expr(n['c'], tot)
            if n.get('cv'):
                o = self.var(n['cv'], o)
            if n.get('init'):
                o = self.stmt(n['init'], o, brk, cont)
            return o
        if k in ('Case', 'Default'):
            return self.stmt(n.get('s') or n.get('b'), out, brk, cont)
        if k == 'Break':
            return brk if brk is not None else out
        if k == 'Continue':
            return cont if cont is not None else out
        if k == 'Try':
            o = set(out)
            for h in n['h']:
                o |= self.uses(h['b'])
            return self.stmt(n['b'], o, brk, cont) | o
        if k == 'For':
            head = set()
            while True:
                inc = self.expr(n.get('inc'), head) if n.get('inc') else set(head)
                body = self.stmt(n['b'], inc, out, inc)
                h = body | out
                if n.get('c'):
                    h = self.expr(n['c'], h)
                if n.get('cv'):
                    h = self.var(n['cv'], h)
                h |= head
                if h == head:
                    break
                head = h
            self.heads[n['#']] = frozenset(head | self.always)
            o = head
            if n.get('init'):
                o = self.stmt(n['init'], o, brk, cont)
            return o
        if k == 'Do':
            head = set()
            while True:
                c = self.expr(n['c'], head | out)
                h = self.stmt(n['b'], c, out, c) | head
                if h == head:
                    break
                head = h
            self.heads[n['#']] = frozenset(head | self.always)
            return head
        if k == 'RangeFor':
            head = set()
            while True:
                inc = self.expr(n['inc'], head)
                body = self.stmt(n['b'], inc, out, inc)
                body = self.stmt(n['var'], body, out, inc)
                h = self.expr(n['c'], body | out) | head
                if h == head:
                    break
                head = h
            al = set(self.always)
            self.refs(n['range'], al)
            self.heads[n['#']] = frozenset(head | al)
            o = head
            for d in ('end', 'begin', 'range'):
                o = self.stmt(n[d], o, brk, cont)
            return o
        return out | self.uses(n)
