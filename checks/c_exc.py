"""Exceptions (C23) and hidden effects (C12)."""
import time
from base import *
from env import *
from values import *
from core import *
import lin
from c_parse import NS, ARGS
import c_obs
import c_parse

# class -> base class, as documented
CLASSES = {
    'Exception': 'std::exception', 'HelpException': 'Exception', 'VersionException': 'Exception', 'ArgumentException': 'Exception',
    'AccessDeniedException': 'ArgumentException', 'ParseArgumentException': 'ArgumentException',
    'ParseArgumentRequiredException': 'ParseArgumentException', 'ParseArgumentValidException': 'ParseArgumentException',
}
EXC = NS + 'Exception'


class ExcEnv(Env):
    def may_forget(self, k):
        return False


def nodes(x):
    """all expression and statement nodes below x"""
    todo = [x]
    while todo:
        x = todo.pop()
        if isinstance(x, dict):
            if 'k' in x:
                yield x
            todo += x.values()
        elif isinstance(x, list):
            todo += x


def library(P):
    """the functions of the library (not of the client) with a body"""
    return [f for k, f in sorted(P.funcs.items()) if f.get('body') and not f['qn'].startswith('verif_client') and not str(f.get('defloc', '')).startswith(ROOT_CLIENT)]


ROOT_CLIENT = os.path.join(ROOT, 'client')


# ------------------------------------------------------------------ C23
def hierarchy(P, rep):
    for n, b in CLASSES.items():
        rep.count('exception classes')
        r = P.records.get(NS + n)
        if r is None:
            rep.violation('C23.base', 'include/blet/args/exception.h', 'there is no class %s' % n)
            continue
        want = b if '::' in b else NS + b
        rep.ok('C23.base', r['loc'], '%s is a %s' % (n, b), P.derives(NS + n, want), ())
        # publicly, and only once, so that a handler for a base class matches
        cur, seen = [NS + n], []
        pub = True
        while cur:
            c = cur.pop()
            for x in P.records.get(c, {}).get('bases', []):
                nm = P.ty(x['t']).get('name')
                pub = pub and x['access'] == 'public'
                seen.append(nm)
                cur.append(nm)
        rep.ok('C23.base', r['loc'], '%s has its base classes publicly and once' % n, pub and len(seen) == len(set(seen)), ())


def objects(P, rep):
    """what() and argument() give back what the constructor got"""
    what = [f for f in P.funcs.values() if f['n'] == 'what' and f.get('cls', '').startswith(NS) and f.get('body')]
    arg = [f for f in P.funcs.values() if f['n'] == 'argument' and f.get('cls') == NS + 'ArgumentException' and f.get('body')]
    for n in CLASSES:
        cls = NS + n
        for c in sorted((f for f in P.funcs.values() if f.get('cls') == cls and f['kind'] == 'ctor' and not f.get('copy') and not f.get('move') and f.get('body')), key=lambda f: f['id']):
            rep.count('constructors of exceptions')
            I = Engine(P, ExcEnv())
            st = St()
            loc = ('H', ('exc',))
            st.h[loc] = ('obj', cls)
            args = []
            for i, p in enumerate(c['params']):
                t = whole(('param', i))
                if 'basic_string' in p['t']:
                    st.h[('H', ('param', i))] = t
                    args.append(('ref', ('H', ('param', i))))
                elif 'char' in p['t']:
                    args.append(('cp', t, ZERO, ('ext', ('param', i))))
                else:
                    raise AnalysisError('%s: parameter of type %s' % (n, p['t']))
            o = run_in(I, c, st, ('ptr', loc), args, ctor=True)
            rep.take(I, 'C23.memory')
            w = c['defloc']
            rep.ok('C23.object', w, 'making a %s does not fail' % n, not o.throws and not o.exits, ())
            msg, name = whole(('param', len(args) - 1)), whole(('param', 0)) if len(args) > 1 else EMPTY_S
            fs = [(f, msg) for f in what if P.derives(cls, f['cls'])]
            # the override nearest to the class
            fs = [(f, m) for f, m in fs if not any(g is not f and P.derives(g['cls'], f['cls']) for g, _ in fs)]
            if P.derives(cls, NS + 'ArgumentException'):
                fs += [(f, name) for f in arg]
            for s, _ in o.returns:
                for f, want in fs:
                    J = Engine(P, ExcEnv())
                    q = run_in(J, f, s.fork(), ('ptr', loc), [])
                    rep.take(J, 'C23.memory')
                    rep.ok('C23.object', f['defloc'], '%s of a %s does not fail' % (f['n'], n), not q.throws and not q.exits and bool(q.returns), ())
                    for t, v in q.returns:
                        v = J.val(t, v, {'l': f['defloc'], '#': 0})
                        ok = isinstance(v, tuple) and v[0] == 'cp' and t.c.is_eq(v[2]) and same(t, v[1], want)
                        rep.ok('C23.object', f['defloc'], '%s of a %s gives the %s it was made with' % (f['n'], n, 'message' if want is msg else 'name'), ok, t.tr)
                        own = v[3] if isinstance(v, tuple) and v[0] == 'cp' else None
                        rep.ok('C23.lives', f['defloc'], '%s of a %s points to text the exception owns' % (f['n'], n), own is not None and rooted(own, loc), t.tr)


def rooted(own, loc):
    while isinstance(own, tuple):
        if own == loc:
            return True
        if own[0] in ('F', 'I') or own[0] in ('str', 'own'):
            own = own[1]
        else:
            return False
    return False


def sites(P, rep):
    """every throw expression of the library"""
    for f in library(P):
        for x in nodes([f.get('inits'), f['body']]):
            if x['k'] != 'Throw':
                continue
            rep.count('throw expressions')
            rep.funcs.add(f['id'])
            if 'e' not in x:
                continue            # passes on what was caught
            t = P.strip(x['tt'])
            rep.ok('C23.sites', x.get('l', f['defloc']), 'what is thrown derives from blet::args::Exception', P.derives(P.rec_of(t) or t, EXC), (), key='C23.sites|%s|%s' % (f['qn'], t))


def quiet_sites(P, rep):
    """functions that promise not to throw do not"""
    for f in library(P):
        if f['kind'] != 'dtor' and not f.get('nothrow'):
            continue
        bad = [x for x in uncaught(f['body'])]
        rep.count('functions that must not throw')
        rep.ok('C12.nothrow', f['defloc'], '%s throws nothing, which would end the process' % f['qn'], not bad, (), key='C12.nothrow|%s' % f['qn'])


def uncaught(x):
    if isinstance(x, dict):
        if x.get('k') == 'Throw':
            yield x
        if x.get('k') == 'Lambda':
            return
        if x.get('k') == 'Try':
            if not any('t' not in h for h in x.get('h', [])):
                for y in uncaught(x['b']):
                    yield y
            for h in x.get('h', []):
                for y in uncaught(h['b']):
                    yield y
            return
        for y in x.values():
            for z in uncaught(y):
                yield z
    elif isinstance(x, list):
        for y in x:
            for z in uncaught(y):
                yield z


def check23(rep):
    import c_conf
    import c_reg
    P = load()
    for what, f in (('classes', hierarchy), ('objects', objects), ('sites', sites)):
        r = c_obs.attempt('C23', what, lambda r: f(P, r))
        rep.merge(r)
        if not r.errors:
            rep.partial += 1
    rep.need('exception classes', 8)
    rep.need('constructors of exceptions', 10)
    rep.need('throw expressions', 30)
    done = rep.partial
    if not any(v[0] not in findings('C23') for v in rep.viol):
        c_conf.check('C23', rep)
        c_reg.check('C23', rep)
        done = rep.partial
    if not os.environ.get('VERIF_OBS_ONLY') and not any(v[0] not in findings('C23') for v in rep.viol):
        c_parse.check('C23', rep)
        rep.partial += done


# ------------------------------------------------------------------ C12
ENDS = set('exit _exit _Exit abort quick_exit terminate unexpected raise kill longjmp siglongjmp __builtin_trap __builtin_abort __builtin_unreachable execv execve execvp execl execlp fork vfork system popen pthread_exit pthread_kill thrd_exit'.split())
PRINTS = set('printf vprintf puts putchar putc fputs fputc fprintf vfprintf fwrite write dprintf vdprintf perror psignal puts_unlocked putchar_unlocked fputs_unlocked fwrite_unlocked syslog __printf_chk __fprintf_chk __builtin_printf __builtin_puts __builtin_putchar fputwc putwchar wprintf fwprintf fflush writev pwrite send sendto'.split())
STATE = set('strtok setlocale srand rand srandom random drand48 putenv setenv unsetenv clearenv getopt getopt_long getopt_long_only signal sigaction atexit at_quick_exit set_terminate set_unexpected set_new_handler chdir fchdir umask tmpnam asctime ctime localtime gmtime strsignal freopen setvbuf setbuf dup dup2 close open fopen creat remove unlink rename mkdir rmdir setrlimit alarm chroot'.split())
STREAMS = ('std::cout', 'std::cerr', 'std::clog', 'std::cin', 'std::wcout', 'std::wcerr', 'std::wclog', 'std::wcin', 'stdout', 'stderr', 'stdin')


def short_qn(q):
    return q.split('::')[-1]


def calls(P, f):
    for x in nodes([f.get('inits'), f['body']]):
        i = x.get('f')
        if isinstance(i, str) and i in P.funcs:
            yield x, P.funcs[i]


def effects(P, rep):
    """every call and every reference to a global object in every function of the library"""
    parse = [f['id'] for f in P.funcs.values() if f['qn'] == ARGS + '::parseArguments']
    import c_single
    inparse = c_single.reach(P, parse)
    others = set()
    lib = library(P)
    for f in lib:
        if f.get('access') != 'private' and f['id'] not in parse and not f.get('internal'):
            others.add(f['id'])
    # what can be reached without parseArguments
    elsewhere = reach_without(P, others - set(parse), set(parse))
    for f in lib:
        rep.funcs.add(f['id'])
        rep.count('functions searched for effects')
        for x, g in calls(P, f):
            n = short_qn(g['qn'])
            w = x.get('l', f['defloc'])
            if g['qn'].startswith('blet::'):
                continue
            rep.count('calls out of the library')
            std = not g.get('cls')
            if std and n in ENDS or g.get('noreturn'):
                site(rep, f, x, w, 'ends the process', f['id'] in inparse, f['id'] in elsewhere, n)
            elif std and n in PRINTS:
                site(rep, f, x, w, 'writes to a stream or file descriptor', f['id'] in inparse, f['id'] in elsewhere, n)
            elif (std or 'locale' in g['qn']) and n in STATE or g['qn'] == 'std::locale::global':
                rep.ok('C12.state', w, '%s uses no process-wide state (%s)' % (f['qn'], g['qn']), False, (), key='C12.state|%s|%s' % (f['qn'], n))
        for x in nodes([f.get('inits'), f['body']]):
            if x['k'] == 'Ref' and x.get('global') in STREAMS:
                if x['global'] in ('std::cout', 'stdout'):
                    site(rep, f, x, x.get('l', f['defloc']), 'uses a standard stream', f['id'] in inparse, f['id'] in elsewhere, x['global'])
                else:
                    rep.count('uses of other standard streams')
                    rep.ok('C12.sites', x.get('l', f['defloc']), 'the standard output is the only stream the library uses (%s: %s)' % (f['qn'], x['global']), False, (), key='C12.sites|%s|%s' % (f['qn'], x['global']))


def reach_without(P, roots, stop):
    import c_single
    out, work = set(), list(roots)
    while work:
        i = work.pop()
        if i in out or i in stop:
            continue
        out.add(i)
        f = P.funcs.get(i)
        if f is not None and f.get('body'):
            for x, g in calls(P, f):
                work.append(g['id'])
    return out


def site(rep, f, x, w, what, inparse, elsewhere, n):
    """the process may only end, and text may only be printed, on the paths of parseArguments, where they are followed one by one"""
    rep.count('calls that end the process or print')
    rep.ok('C12.sites', w, '%s (%s: %s) only as part of parseArguments' % (what, f['qn'], n), inparse and not elsewhere, (), key='C12.sites|%s|%s' % (f['qn'], n))


def statics(P, rep):
    """no mutable object with static storage duration"""
    lib = set(f['id'] for f in library(P))
    for g in P.globals:
        if str(g['loc']).startswith(ROOT_CLIENT):
            continue
        rep.count('objects with static storage duration')
        first = [x for x in nodes(g.get('init')) if x['k'] == 'This' or x['k'] == 'Ref' and not x.get('global')]
        if g.get('staticLocal') and first:
            rep.ok('C12.static', g['loc'], '%s keeps what the first call gave it' % g['qn'], False, (), key='C12.static|%s' % g['qn'])
        if g['const'] and not points_to_mutable(P, g['t']):
            continue
        uses = [(f, x) for f in library(P) for x, ok in reads(f['body']) if x.get('global') and clean(x['global']) == clean(g['qn']) and not ok]
        uses += [(f, x) for f in library(P) for x, ok in reads(f.get('inits')) if x.get('global') and clean(x['global']) == clean(g['qn']) and not ok]
        rep.ok('C12.static', g['loc'], '%s is static and can change: objects and threads share it' % g['qn'], not uses and not g.get('thread'), (), key='C12.static|%s' % g['qn'])


def points_to_mutable(P, t):
    ty = P.ty(t)
    if ty.get('k') == 'array':
        return points_to_mutable(P, ty['of'])
    if ty.get('k') in ('ptr', 'ref'):
        to = ty['to']
        u = P.ty(to)
        if u.get('k') in ('func', 'void'):
            return False
        return not to.startswith('const ') and not to.endswith(' const') and not u.get('const') or points_to_mutable(P, to)
    return False


READ_CASTS = ('LValueToRValue',)


def reads(x, up=()):
    """(reference to a global object, is it only read) for every one below x"""
    if isinstance(x, dict):
        if x.get('k') == 'Ref' and x.get('global'):
            ok = False
            for p in reversed(up):
                if p.get('k') == 'Index' or p.get('k') == 'Mem' or p.get('k') == 'Cast' and p.get('ck') == 'ArrayToPointerDecay':
                    continue
                ok = p.get('k') == 'Cast' and p.get('ck') in READ_CASTS or p.get('k') == 'SizeOf'
                break
            yield x, ok
        for y in x.values():
            for z in reads(y, up + ((x,) if 'k' in x else ())):
                yield z
    elif isinstance(x, list):
        for y in x:
            for z in reads(y, up):
                yield z


def members(P, rep):
    """static data members and objects hidden behind references in the classes are found through P.globals; mutable members of constants"""
    for n, r in P.records.items():
        if not n.startswith('blet::'):
            continue
        for f in r['fields']:
            rep.count('data members')


def check12(rep):
    P = load()
    for what, f in (('effects', effects), ('statics', statics), ('nothrow', quiet_sites)):
        r = c_obs.attempt('C12', what, lambda r: f(P, r))
        rep.merge(r)
        if not r.errors:
            rep.partial += 1
    rep.need('functions searched for effects', 150)
    rep.need('calls out of the library', 200)
    rep.need('calls that end the process or print', 1)
    if not os.environ.get('VERIF_OBS_ONLY') and not any(v[0] not in findings('C12') for v in rep.viol):
        done = rep.partial
        c_parse.check('C12', rep)
        rep.partial += done


RULES = {
    'C23.base': 'each exception class derives, publicly and once, from the documented one, Exception from std::exception',
    'C23.object': 'every constructor keeps message and name, what() and argument() give them back', 'C23.lives': 'the text belongs to the exception',
    'C23.sites': 'every throw expression of the library throws a type derived from Exception or passes on what it caught',
    'C23.type': 'every exception leaving addArgument, flag, action, nargs, defaults, removeArguments, the look-ups and parseArguments has the documented type', 'C23.name': 'and names the argument, flag or token it is about',
    'C23.own': 'exceptions of user callbacks pass', 'C23.memory': 'no invalid access',
    'C12.sites': 'calls that end the process or print, and uses of the standard streams, are only reached through parseArguments',
    'C12.exit': 'parseArguments exits only with status 0 and after the tokens (the conditions are decided under C11)', 'C12.output': 'nothing is printed when parseArguments returns',
    'C12.state': 'no function with process-wide state is called', 'C12.static': 'no object with static storage duration can change', 'C12.nothrow': 'no destructor or nothrow function throws',
}
ASSUME = {
    'C23': ['names and messages are NUL-free; allocation does not fail; ' + a for a in ['what user callbacks throw is theirs']] + c_parse.COMMON,
    'C12': ['functions of the C and C++ library other than those listed in c_exc.py have no process-wide effect; user callbacks are not the library'] + c_parse.COMMON,
}


def check(pid, rep):
    {'C23': check23, 'C12': check12}[pid](rep)
    for rid, text in RULES.items():
        if rid.startswith(pid + '.'):
            rep.rule(rid, text)
