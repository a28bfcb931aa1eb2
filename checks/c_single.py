"""The single header against the split headers (C32), and whether the two differ in what functions do."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor
import base
from base import *

STDS = ('gnu++98', 'gnu++11', 'gnu++17')
ONE = '#include "blet/args.h"\n#include "blet/args.h"\n'


# ------------------------------------------------------------------ bodies
def norm(f):
    """a function up to the names of its variables, locations and the names of internal functions"""
    ids = {}

    def go(x):
        if isinstance(x, dict):
            o = {}
            for k, v in x.items():
                if k in ('l', '#', 'fn'):
                    continue
                if k == 'id':
                    o[k] = ids.setdefault(v, len(ids))
                elif k == 'n' and 'id' in x:
                    continue
                elif k == 'f' and isinstance(v, str):
                    o[k] = plain(v)
                else:
                    o[k] = go(v)
            return o
        if isinstance(x, list):
            return [go(y) for y in x]
        return x
    return go([[{'id': p['id'], 't': p['t']} for p in f.get('params', [])], f.get('inits'), f['body']])


def plain(i):
    """internal functions of the sources may be inline ones in the single header"""
    i = i.split('@')[0]
    return i.replace('_ZN4blet4argsL', '_ZN4blet4args')


def lib_bodies(P):
    return {plain(k): (k, f) for k, f in P.funcs.items() if f.get('body') and f['qn'].startswith('blet::') and not k.startswith('lambda@')}


def body_diff(P, S):
    """ids (in P) of library functions that are not the same in S"""
    a, b = lib_bodies(P), lib_bodies(S)
    out = set()
    for k in set(a) | set(b):
        if k not in a or k not in b:
            out.add((a.get(k) or b[k])[0])
            continue
        if norm(a[k][1]) != norm(b[k][1]):
            out.add(a[k][0])
    return out


def again(pid, rep, t0):
    """the same check on the single header, where that differs from what was analysed"""
    if os.environ.get('VERIF_VARIANT') or pid == 'C32' or any(v[0] not in findings(pid) for v in rep.viol):
        return
    thorough = os.environ.get('VERIF_TIER') == 'thorough'
    try:
        P, S = load('split'), load('single')
        d = body_diff(P, S)
    except AnalysisError as x:
        rep.notes.append('the single header could not be compared: %s' % str(x)[:200])
        return
    if not d & rep.funcs:
        rep.notes.append('every analysed function has the same body in single_include/, so the result holds for it too')
        return
    left = (7000 if thorough else 840) - (time.time() - t0)
    if left < 60:
        rep.notes.append('single_include/ differs and was not analysed (no time left)')
        return
    viol, ok = other(pid, left)
    for key, text in viol:
        rep.violation_text('single|' + key, '(single_include) ' + text)
    rep.notes.append('single_include/ differs (%d functions) and was analysed as well%s' % (len(d), '' if ok else ', not completely'))


def other(pid, left, variant='single', **more):
    d = tempfile.mkdtemp(prefix='verif_')
    try:
        env = dict(os.environ, VERIF_VARIANT=variant, VERIF_EVIDENCE=d, VERIF_DEADLINE=str(time.time() + left - 20), **more)
        try:
            r = subprocess.run([sys.executable, os.path.join(ROOT, 'bin', 'check'), pid], env=env, timeout=left,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
        except subprocess.TimeoutExpired:
            return [], False
        p = os.path.join(d, pid + '.viol.json')
        if r.returncode != 1 or not os.path.exists(p):
            return [], r.returncode == 0
        with open(p) as f:
            return json.load(f), True
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------ declarations
def run_export(variant, std, d):
    inc = os.path.join(REPO, 'include' if variant == 'split' else 'single_include')
    src = os.path.join(d, 'twice.cpp')
    out = os.path.join(d, '%s_%s.json' % (variant, std))
    cmd = [progmod.exporter_bin(), src, '-o', out, '--', '-std=' + std, '-resource-dir', '/usr/lib/llvm-18/lib/clang/18', '-I', inc]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
    if p.returncode or not os.path.exists(out):
        return None, p.stdout
    with open(out) as f:
        return json.load(f), ''


def base_name(k):
    """'function blet::args::strTo<type>(...)' -> ('function', 'blet::args::', 'strTo')"""
    kind, _, rest = k.partition(' ')
    head = rest
    i = head.find('(')
    if kind == 'function' and i >= 0:
        j = head.find('operator')
        head = head[:i] if j < 0 or j > i else head
    # template parameters of the function itself
    depth, cut = 0, []
    for c in head:
        if c == '<':
            depth += 1
        if depth == 0:
            cut.append(c)
        if c == '>':
            depth = max(0, depth - 1)
    head = ''.join(cut)
    if 'operator' in head:
        i = head.find('operator')
        return kind, head[:i], 'operator' + head[i + 8:]
    i = head.rfind('::')
    return kind, head[:i + 2], head[i + 2:]


def compare(rep, std, A, B):
    """A: split headers, B: single header; {declaration: {is, l, prot}}"""
    classes = set(k[6:] for k in list(A) + list(B) if k.startswith('class '))
    namesA = set(base_name(k)[1:] for k in A)
    namesB = set(base_name(k)[1:] for k in B)
    rep.count('declarations compared (%s)' % std, len(A))
    for k in sorted(set(A) | set(B)):
        a, b = A.get(k), B.get(k)
        kind, sc, nm = base_name(k)
        x = a or b
        if x['prot']:
            continue                # the protected members are internal to the library
        member = sc not in ('blet::', 'blet::args::', 'blet::args::utils::') and (sc[:-2] in classes or kind in ('field', 'enumerator') or any(c.startswith(sc[:-2] + '<') for c in classes))
        if not member and kind in ('function', 'class', 'variable') and ((sc, nm) not in namesA or (sc, nm) not in namesB):
            # a helper that only one of them has
            if b is not None or kind != 'class' or '<' in k or nm.endswith('_') or 'utils::' in k or 'detail' in k:
                continue
        if member and nm.endswith('_') and (a is None or b is None):
            continue
        if a is None and 'utils::' in k:
            continue
        if a is not None and b is not None:
            rep.ok('C32.same', b['l'], '%s means the same in both (%s)' % (k, std) if a['is'] == b['is'] else '%s: "%s", in the split headers "%s"' % (k, b['is'], a['is']),
                   a['is'] == b['is'], key='C32.same|%s' % k)
        elif b is None:
            rep.ok('C32.missing', a['l'], '%s is not in the single header' % k, False, key='C32.missing|%s' % k)
        else:
            rep.ok('C32.extra', b['l'], '%s is only in the single header' % k, False, key='C32.extra|%s' % k)


def check(pid, rep):
    for rid, text in RULES.items():
        rep.rule(rid, text)
    t0 = time.time()
    thorough = os.environ.get('VERIF_TIER') == 'thorough'
    d = tempfile.mkdtemp(prefix='verif_')
    try:
        with open(os.path.join(d, 'twice.cpp'), 'w') as f:
            f.write(ONE)
        jobs_ = [(v, s) for v in ('split', 'single') for s in STDS]
        with ThreadPoolExecutor(6) as ex:
            docs = dict(zip(jobs_, ex.map(lambda j: run_export(j[0], j[1], d), jobs_)))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    seen = 0
    for s in STDS:
        a, ea = docs[('split', s)]
        b, eb = docs[('single', s)]
        if a is None:
            if s == 'gnu++11':
                raise AnalysisError('the split headers do not compile (%s): %s' % (s, ea[-400:]))
            rep.notes.append('the split headers do not compile as %s' % s)
            continue
        err = [l for l in eb.splitlines() if ': error:' in l][:1]
        rep.ok('C32.compiles', err[0].split(': error:')[0] if err else 'single_include/blet/args.h',
               'the single header compiles (%s), also when it is included twice%s' % (s, ': ' + err[0].split(': error:')[1] if err else ''), b is not None, key='C32.compiles')
        if b is None:
            continue
        seen += 1
        compare(rep, s, a['api'], b['api'])
        for m in b['multi']:
            rep.ok('C32.inline', m['l'], 'the single header defines the %s %s, which cannot be in two translation units of one program' % (m['what'], m['n']), False, key='C32.inline|%s' % m['n'])
        rep.ok('C32.inline', 'single_include/blet/args.h', 'no definition with external linkage is left that only one translation unit may contain (%s)' % s, not b['multi'], key='C32.inline|any')
        rep.count('functions of the single header (%s)' % s, len(b['funcs']))
    if not seen:
        return
    rep.partial = 1
    P, S = load('split'), None
    try:
        S = load('single')
    except AnalysisError as x:
        rep.ok('C32.client', 'client/client.cpp', 'a client of the whole interface compiles against the single header: %s' % str(x)[-300:], False, key='C32.client')
        return
    for k, f in P.funcs.items():
        if not f.get('body') or not f['qn'].startswith('blet::') or f.get('internal') or f.get('access') in ('private', 'protected') or f['n'].endswith('_'):
            continue
        g = S.funcs.get(k)
        if g is None:
            continue
        rep.funcs.add(k)
        rep.ok('C32.defined', g['loc'], '%s is defined in the single header' % f['qn'], bool(g.get('body')), key='C32.defined|%s' % k)
    rep.need('declarations compared (gnu++11)', 200)
    diff = body_diff(P, S)
    rep.count('functions with the same body', len(lib_bodies(P)) - len(diff))
    rep.count('functions with different bodies', len(diff))
    if diff and not rep.viol:
        deeper(rep, P, S, diff, (7000 if thorough else 830) - (time.time() - t0))


def reach(P, roots):
    """functions called from roots, transitively"""
    out, work = set(), list(roots)
    while work:
        i = work.pop()
        if i in out:
            continue
        out.add(i)
        f = P.funcs.get(i)

        def go(x):
            if isinstance(x, dict):
                if isinstance(x.get('f'), str) and x['f'] in P.funcs:
                    work.append(x['f'])
                for y in x.values():
                    go(y)
            elif isinstance(x, list):
                for y in x:
                    go(y)
        if f is not None and f.get('body'):
            go([f.get('inits'), f['body']])
    return out


def deeper(rep, P, S, diff, left):
    """where bodies differ, the other properties are decided for the single header too"""
    end = time.time() + left
    import main
    parse = [f['id'] for f in P.funcs.values() if f['qn'] == 'blet::args::Args::parseArguments']
    inparse = bool(reach(P, parse) & diff)
    todo = [p for p in sorted(main.MODULES) if main.MODULES[p] not in ('c_parse', 'c_single')] + (['ALL'] if inparse else [])
    for p in todo:
        left = end - time.time()
        if left < 30:
            rep.notes.append('no time left for %s of the single header' % p)
            break
        viol, ok = other(p, left, VERIF_OBS_ONLY='1')
        if viol:
            # the same in the split sources: then both mean the same
            both, _ = other(p, max(30, end - time.time()), 'split', VERIF_OBS_ONLY='1')
            same_ = set(k for k, t in both)
            viol = [v for v in viol if v[0] not in same_]
        for key, text in viol:
            rep.violation_text('C32.meaning|' + key, '[C32.meaning] the single header does not do what the split headers do: ' + text)
        rep.notes.append('%s was decided for the single header%s' % (p, '' if ok else ', not completely'))
        if viol:
            break


RULES = {
    'C32.same': 'every public declaration has the same kind, type, default arguments, base classes and special members in both, as gnu++98, gnu++11 and gnu++17',
    'C32.missing': 'no public declaration is missing in the single header', 'C32.extra': 'no overload or public member is only in the single header',
    'C32.compiles': 'the single header compiles, also when it is included twice', 'C32.client': 'the client of the whole interface compiles against both',
    'C32.inline': 'no function or variable of the single header has strong external linkage (linkage computed by clang)',
    'C32.defined': 'every public function defined by the split sources is defined in the single header',
    'C32.meaning': 'functions have the same bodies; where they do not, the single header satisfies the other properties too',
}
