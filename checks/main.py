import importlib
import os
import time
import traceback
import base
from base import Report, AnalysisError, finish

# property -> module
MODULES = {
    'C21': 'c_order', 'C15': 'c_conf', 'C30': 'c_conf',
    'C26': 'c_valid', 'C29': 'c_api', 'C32': 'c_single', 'C12': 'c_exc', 'C23': 'c_exc', 'C22': 'c_usage', 'C35': 'c_wrap',
}
for _p in 'C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C13 C14 C33'.split():
    MODULES[_p] = 'c_parse'
for _p in 'C16 C17 C18 C19 C20 C28 C36'.split():
    MODULES[_p] = 'c_reg'
for _p in 'C10 C24 C25 C27 C31'.split():
    MODULES[_p] = 'c_obs'

AI = 'abstract interpretation (numeric, text and sequence domains with inferred loop invariants) of the exported AST'
# property -> (technique, level, note)
CLAIMS = {
    'C01': (AI, 'proof', 'every path of parseArguments for every argc, argv and argument kind, with inferred loop invariants'),
    'C02': (AI, 'proof', 'token accounting on every path of parseArguments: a ghost read position is compared with the code after every round of its loop'),
    'C03': (AI, 'proof', 'the values held after every round and at the end are compared with the ones the command line prescribes'),
    'C04': (AI, 'proof', 'number of values per occurrence, for every kind of argument; groups for nargs 2 (thorough: 3)'),
    'C05': (AI, 'proof', 'every use of a token is compared with the position of the first "--"'),
    'C06': (AI, 'proof', 'every look-up of a flag is compared with the spelling in the token'),
    'C07': (AI, 'proof', 'presence and count compared with the occurrences after every round'),
    'C08': (AI, 'proof', 'every return and every ParseArgumentRequiredException of parseArguments'),
    'C09': (AI, 'proof', 'typestate of the validator calls and sequence equality of what goes in and out'),
    'C10': (AI, 'proof', 'typestate of the destination writes in parseArguments'),
    'C11': (AI, 'proof', 'every throw, exit, output and return of parseArguments'),
    'C13': (AI, 'proof', 'state of every mutable field when the first token is read'),
    'C14': (AI, 'proof', 'sequence equality of the additional arguments after every round'),
    'C33': (AI, 'other', 'progress of the read position in every round of the token loop; the loops inside a round are covered as far as they move it'),
    'C24': (AI, 'proof', 'every path of every destination writer for char[1,2,4,5,6,64] and const char*; texts are not touched after the write on any path of parseArguments'),
    'C25': (AI, 'proof', 'every path of the conversions and destination writers for every kind of argument'),
    'C27': (AI, 'proof', 'every path of toNumber_ and getNumber for lists of any length; on every path of parseArguments numbers are read after the last change of the values'),
    'C31': (AI, 'proof', 'every path of the conversions, for lists of any length'),
    'C15': (AI, 'proof', 'every path of action() and nargs() for every kind, every action and any count, with and without another help or version option'),
    'C21': (AI, 'proof', 'every path of every comparator given to sort, for every pair of forms of names, kinds and required marks; the laws on the resulting table'),
    'C30': (AI, 'proof', 'every path of defaults(), action() and nargs() with default lists of any length; groups of 2 and 3 (thorough: 4)'),
    'C16': (AI, 'proof', 'every path of addArgument for lists of 0 to 3 (thorough: 4) names and of flag() for every kind, over a registry with any other names'),
    'C17': (AI, 'proof', 'every path of removeArguments for lists of 0 to 3 (thorough: 4) names, an argument with 1 to 3 names and any others, with and without help and version roles'),
    'C18': (AI, 'proof', 'every data member after clear() is compared with its value after the constructor'),
    'C19': ('ownership and typestate analysis by ' + AI, 'proof', 'every path of the functions that create, replace or destroy arguments and validators; call-graph rule for all other public functions'),
    'C20': (AI, 'proof', 'every path of dest() for every instantiated destination type; all data members of the replacing object'),
    'C28': (AI + '; compile-fail witnesses', 'proof', 'every path of the four look-ups; 25 static assertions about what does not compile'),
    'C29': (AI, 'proof', 'every overload of Args::vector and every constructor and operator+ of Vector on symbolic texts'),
    'C36': ('typestate (sorted / changed) by ' + AI, 'proof', 'every path of addArgument, flag, required, removeArguments and dest'),
    'C12': ('effect analysis over every function of the library (calls, streams, static storage) with ' + AI + ' of parseArguments', 'proof', 'every call and reference in every function; every exit and output on the paths of parseArguments'),
    'C23': (AI + '; query over all throw expressions', 'proof', 'every throw expression; type and name of every exception leaving the analysed entry points'),
    'C32': ('comparison of the type-checked declarations, linkage analysis', 'proof', 'every public declaration of both variants as gnu++98, gnu++11 and gnu++17; where function bodies differ the other checks are run on the single header'),
    'C22': (AI, 'proof', 'every path of getUsage for every kind of argument with up to two (thorough: three) others; the pieces of the resulting text are compared with what has to be listed'),
    'C35': (AI, 'bounded', 'every path of the line wrapper through up to two breaks (thorough: three), for texts of any content; the lines are compared with the text'),
    'C26': (AI, 'proof', 'every path of the four isValid functions and the bounds constructor, for lists of any length; trusts the model of strtod, stream extraction and stat'),
}

TRUSTED = ["clang 18's parser and type checker (the exporter reads its AST)",
           'the abstract interpreter in engine/ and its model of the C++ standard library',
           'the rules in checks/']


def run(pid):
    t0 = time.time()
    rep = Report(pid)
    level, assume = 'proof', []
    try:
        m = importlib.import_module(MODULES.get(pid) or 'c_parse')
        level = getattr(m, 'LEVEL', {}).get(pid, 'proof')
        assume = list(getattr(m, 'ASSUME', {}).get(pid, []))
        m.check(pid, rep)
    except AnalysisError as x:
        if os.environ.get('VERIF_DEBUG'):
            traceback.print_exc()
        rep.error(str(x))
    except Exception as x:
        traceback.print_exc()
        rep.error('internal: %r' % (x,))
    try:
        import c_single
        c_single.again(pid, rep, t0)
    except Exception as x:
        traceback.print_exc()
        rep.notes.append('the single header was not compared: %r' % (x,))
    return finish(rep, t0, level, assume, TRUSTED)
