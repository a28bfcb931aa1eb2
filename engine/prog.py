"""The exported, type-checked program."""
import json, os, subprocess, sys, hashlib
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')


class AnalysisError(Exception):
    """the analysis cannot give an answer (error exit)"""


def clean(qn):
    return qn.replace('__cxx11::', '').replace('__gnu_cxx::', 'std::')


class Prog(object):
    def __init__(self, docs):
        self.types = {}
        self.funcs = {}
        self.records = {}
        self.enums = {}
        self.globals = []
        self.typedefs = []
        self.tmplFuncs = []
        self.vartypes = {}
        self.nnodes = 0
        for d in docs:
            self.types.update(d['types'])
            for k, f in d['funcs'].items():
                o = self.funcs.get(k)
                if o is None or (not o.get('body') and f.get('body')):
                    self.funcs[k] = f
            for k, r in d['records'].items():
                o = self.records.get(k)
                if o is None or len(r['methods']) > len(o['methods']):
                    self.records[k] = r
            self.enums.update(d['enums'])
            self.globals += d['globals']
            self.typedefs += d['typedefs']
            self.tmplFuncs += d['tmplFuncs']
        for k, f in self.funcs.items():
            f['id'] = k
            f['qn'] = clean(f['qn'])
            f['name'] = f['n']
            if 'cqn' in f:
                f['cqn'] = clean(f['cqn'])
            for p in f.get('params', []):
                self.vartypes[p['id']] = p['t']
            if f.get('body'):
                self._number(f['body'], k)
                for i in f.get('inits', []):
                    self._number(i['e'], k)
        self._fields = {}
        self._sub = {}

    def _number(self, x, fn):
        if isinstance(x, dict):
            if 'k' in x:
                self.nnodes += 1
                x['#'] = self.nnodes
                if x['k'] in ('For', 'Do', 'RangeFor'):
                    x['fn'] = fn
            if 'id' in x and 't' in x and 'k' not in x:
                self.vartypes[x['id']] = x['t']
            for y in x.values():
                if isinstance(y, (dict, list)):
                    self._number(y, fn)
        elif isinstance(x, list):
            for y in x:
                if isinstance(y, (dict, list)):
                    self._number(y, fn)

    # ------------------------------------------------------------- types
    def ty(self, t):
        r = self.types.get(t)
        if r is None:
            raise AnalysisError('unknown type ' + str(t))
        return r

    def strip(self, t):
        """without reference and const"""
        ty = self.ty(t)
        if ty.get('k') == 'ref':
            t = ty['to']
        if t.startswith('const ') and t[6:] in self.types and self.types[t[6:]].get('k') == self.types[t].get('k'):
            return t[6:]
        return t

    def is_ref(self, t):
        return self.ty(t).get('k') == 'ref'

    def kind(self, t):
        return self.ty(t).get('k')

    def rec_of(self, t):
        ty = self.ty(t)
        if ty.get('k') == 'ref':
            ty = self.ty(ty['to'])
        return ty.get('name') if ty.get('k') == 'record' else None

    def is_blet_rec(self, t):
        n = self.rec_of(t)
        return n is not None and n in self.records

    def bases(self, rec):
        return [(self.ty(b['t']).get('name'), clean(self.ty(b['t']).get('qn', '')), b['t']) for b in self.records[rec]['bases']]

    def fields(self, rec):
        """[(key, type)] including base classes; the std::vector base is '#vec'"""
        r = self._fields.get(rec)
        if r is None:
            r = []
            for name, qn, t in self.bases(rec):
                if name in self.records:
                    r += self.fields(name)
                elif qn == 'std::vector':
                    r.append(('#vec', t))
                elif qn in ('std::exception',):
                    pass
                else:
                    r.append(('#base:' + str(qn), t))
            for f in self.records[rec]['fields']:
                r.append((rec + '::' + f['n'], f['t']))
            self._fields[rec] = r
        return r

    def has_vec(self, rec):
        return any(k == '#vec' for k, _ in self.fields(rec))

    def derives(self, a, b):
        """does record a derive from (or equal) b ? names are canonical type names"""
        if a == b:
            return True
        k = (a, b)
        if k not in self._sub:
            r = False
            if a in self.records:
                for name, qn, t in self.bases(a):
                    if name == b or qn == b or self.derives(name, b):
                        r = True
            self._sub[k] = r
        return self._sub[k]

    def find(self, qn, nparams=None, pred=None):
        out = []
        for f in self.funcs.values():
            if f['qn'] == qn and f.get('body') and (nparams is None or len(f['ps']) == nparams) and (pred is None or pred(f)):
                out.append(f)
        return out

    def one(self, qn, nparams=None, pred=None):
        r = self.find(qn, nparams, pred)
        if len(r) != 1:
            raise AnalysisError('expected one function %s, found %d' % (qn, len(r)))
        return r[0]

    def method_override(self, dyn, fid):
        """the function that a virtual call of fid reaches on dynamic type dyn"""
        f = self.funcs[fid]
        cur = dyn
        seen = []

        def search(rec):
            r = self.records.get(rec)
            if r is None:
                return None
            for m in r['methods']:
                if m['f'] == fid or self._overrides(m, fid):
                    return m['f']
            for name, qn, t in self.bases(rec):
                x = search(name)
                if x:
                    return x
            return None
        if f['kind'] == 'dtor':
            r = self.records.get(dyn)
            if r:
                for m in r['methods']:
                    if self.funcs[m['f']]['kind'] == 'dtor':
                        return m['f']
            return None
        return search(dyn)

    def _overrides(self, m, fid):
        for o in m.get('overrides', []):
            if o == fid:
                return True
            of = self.funcs.get(o)
            if of:
                for r in self.records.get(of.get('cls'), {}).get('methods', []):
                    if r['f'] == o and self._overrides(r, fid):
                        return True
        return False


# ------------------------------------------------------------------ export
def exporter_bin():
    p = os.path.join(ROOT, 'build', 'exporter')
    if not os.path.exists(p):
        subprocess.check_call([os.path.join(ROOT, 'setup.sh')], stdout=sys.stderr)
    return p


CXXFLAGS = ['-std=gnu++11', '-resource-dir', '/usr/lib/llvm-18/lib/clang/18']


def export(path, incs, outdir, tag):
    out = os.path.join(outdir, tag + '.json')
    cmd = [exporter_bin(), path, '-o', out, '--'] + CXXFLAGS + sum([['-I', i] for i in incs], [])
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
    if p.returncode != 0 or not os.path.exists(out):
        raise AnalysisError('cannot analyse %s:\n%s' % (path, p.stdout[-2000:]))
    with open(out) as f:
        return json.load(f)


def load(variant, outdir, clients=()):
    """variant: 'split' (include/ + src/) or 'single' (single_include/)"""
    srcs = []
    if variant == 'split':
        inc = os.path.join(REPO, 'include')
        sd = os.path.join(REPO, 'src')
        for n in sorted(os.listdir(sd)):
            if n.endswith('.cpp'):
                srcs.append(os.path.join(sd, n))
    else:
        inc = os.path.join(REPO, 'single_include')
    for c in clients:
        srcs.append(os.path.join(ROOT, 'client', c))
    if not srcs:
        raise AnalysisError('no sources')
    with ThreadPoolExecutor(8) as ex:
        docs = list(ex.map(lambda p: export(p, [inc], outdir, variant + '_' + os.path.basename(p)), srcs))
    return Prog(docs)
