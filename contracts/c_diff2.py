"""Comparing: how values are dispatched to the comparisons, what is iterated
for each kind of collection, and the options of the top-level functions."""
import itertools
import z3
import normalize.diff as ND
import normalize.exc as exc
from normalize.coll import Collection
from normalize.record import Record
from pv.contract import contract
from pv.terms import *      # noqa
from pv.values import *     # noqa
from .world import *        # noqa
from .world import B_ as B
from .c_json import sel, q, k_      # noqa
from .c_sel import j
from .c_sel2 import invariant
from .c_diff import (diff_world, deeper, SUB, LEN, ITEM, INFO, NOT, DO, DT,
                     EMPTYFS)

APPLIES = ((list, ND.compare_list_iter), (tuple, ND.compare_list_iter),
           (dict, ND.compare_dict_iter), (Collection,
                                          ND.compare_collection_iter),
           (Record, ND.compare_record_iter))


def collected(E, r):
    """what an iterator gives, as a list"""
    R = E.list_new()
    E.iterate(r, lambda x: E.list_append(R, x), ('drain',))
    return R


def is_seq(E, what, R, s):
    """the list R holds exactly the differences of s"""
    E.prove(what + ': as many', E.list_n(R) == LEN(s) if hasattr(
        E, 'list_n') else R.n == LEN(s))
    E.prove(what, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < LEN(
        s)), z3.Select(R.arr, j) == ITEM(s, j))))


def operands(E):
    a = NOT if E.case(True, False) else SV(E.ext('A').e)
    b = NOT if E.case(True, False) else SV(E.ext('B').e)
    N = E.lift(NOT)
    for x in (a, b):
        if x is not NOT:
            E.assume(x.e != N)
    return a, b, SV(E.ext('FA').e, E.fst), SV(E.ext('FB').e, E.fst)


@contract('C26,C28'.split(','), 'two items of a collection', covers=(
    'of two types', 'compared further'))
def two_items(E):
    o = diff_world(E)
    a, b, fa, fb = operands(E)
    E.sh.summaries[ND._diff_iter] = deeper(E, o)
    E.sh.summaries[type] = lambda E, args, kw: SV(TYPE(E.lift(args[0])))
    tag, r = E.run(ND._item_diff_iter, a, b, fa, fb, o)
    E.prove('answers', B(tag == 'ok'))
    if tag != 'ok':
        return
    R = collected(E, r)
    ae, be = E.lift(a), E.lift(b)
    apart = B(False) if NOT in (a, b) else z3.And(z3.Not(
        E.on['duck_type']), z3.Not(peq(TYPE(ae), TYPE(be))))
    one = INFO(E.MODIFIED, fa.e, fb.e)
    s = SUB(ae, be, fa.e, fb.e)
    E.assume(LEN(s) >= 0)
    if E.branch(apart):
        E.cover('of two types')
        E.prove('reported as modified, not compared further', z3.And(
            R.n == 1, z3.Select(R.arr, 0) == one))
    else:
        E.cover('compared further')
        is_seq(E, 'exactly the differences found below', R, s)


@contract('C25,C26,C28'.split(','), 'which comparisons apply', covers=(
    'one', 'several', 'none'))
def dispatch(E):
    o = diff_world(E)
    a, b, fa, fb = operands(E)
    IS = {}

    def isi(E, args, kw):
        x = E.lift(args[0])
        ts = args[1] if isinstance(args[1], tuple) else (args[1],)
        fs = []
        for t in ts:
            if t not in IS:
                IS[t] = z3.Function('IS_' + t.__name__, V, BoolS)
            fs.append(IS[t](x))
        return E.sbool(z3.Or(fs))
    E.sh.summaries[isinstance] = isi
    for t, _ in APPLIES:
        IS[t] = z3.Function('IS_' + t.__name__, V, BoolS)
    N = E.lift(NOT)
    # two different built-in types have no common values
    for x in (E.lift(a), E.lift(b)):
        E.assume(z3.And([z3.Not(z3.And(IS[s](x), IS[t](x))) for s in (
            list, tuple, dict) for t in (list, tuple, dict) if s is not t]))
    done = []

    def sub(f):
        def run(E, args, kw):
            names = ('propval_a', 'propval_b', 'fs_a', 'fs_b', 'options')
            if f is ND.compare_record_iter:
                names = ('a', 'b') + names[2:]
            got = dict(zip(names, args))
            got.update(kw)
            E.prove('the same values, positions and options', B(set(
                got) == set(names) and got[names[4]] is o) if set(
                    got) != set(names) or got[names[4]] is not o else z3.And([
                        E.lift(got[n]) == E.lift(x) for n, x in zip(
                            names, (a, b, fa, fb))]))
            done.append(f)
            s = strf('FOUND_' + f.__name__, V, IntS)(V.i(vint(0)) if False
                                                     else E.lift(len(done)))
            E.assume(s >= 0)
            return SSeq(s, lambda i: SV(ITEM(vint(z3.IntVal(len(
                done))), i), E.dt))
        return run
    for _, f in APPLIES:
        E.sh.summaries[f] = sub(f)
    E.sh.summaries[itertools.chain] = lambda E, args, kw: tuple(args)
    tag, r = E.run(ND._diff_iter, a, b, fa, fb, o)
    E.prove('answers', B(tag == 'ok'))
    if tag != 'ok':
        return
    x = E.lift(b if a is NOT else a)
    for f in sorted({f for _, f in APPLIES}, key=lambda f: f.__name__):
        due = z3.Or([IS[t](x) for t, g in APPLIES if g is f])
        E.prove('done iff it applies: ' + f.__name__,
                due if f in done else z3.Not(due))
        E.prove('done once: ' + f.__name__, B(done.count(f) <= 1))
    n = len(r) if isinstance(r, tuple) else 1
    E.prove('nothing of it is left out', B(n == len(done)))
    E.cover('none' if not done else 'one' if len(done) == 1 else 'several')


@contract('C25,C26,C35'.split(','), 'options of a comparison', covers=(
    'given', 'made', 'both'))
def top(E):
    o = diff_world(E)
    a, b, _, _ = operands(E)
    kw = {'ignore_ws': E.val('ws')} if E.case(True, False) else {}
    given = {'options': o} if E.case(True, False) else {
        'options': None} if E.case(True, False) else {}
    made = []

    def opts(E, args, kws):
        E.prove('of what was given', B(not args and set(kws) == set(
            kw) and all(kws[x] is kw[x] for x in kws)))
        made.append(1)
        return o
    E.sh.summaries[DO] = opts
    s = deeper(E, o)
    asked = []

    def sub(E, args, kws):
        asked.append([E.lift(x) for x in args[:4]])
        return s(E, args, kws)
    E.sh.summaries[ND._diff_iter] = sub
    tag, r = E.run(ND.diff_iter, a, b, **given, **kw)
    if given.get('options') is o and kw:
        E.cover('both')
        E.prove('options and keywords: refused', B(
            tag == 'raise' and E.is_exc(r, exc.DiffOptionsException)))
        E.prove('nothing compared', B(not asked))
        return
    E.prove('accepted', B(tag == 'ok'))
    if tag != 'ok':
        return
    R = collected(E, r)
    E.cover('given' if given.get('options') is o else 'made')
    E.prove('options are made only when none are given', B(
        len(made) == (0 if given.get('options') is o else 1)))
    is_seq(E, 'exactly the differences found from the top', R, SUB(
        E.lift(a), E.lift(b), EMPTYFS, EMPTYFS))


@contract('C26,C28'.split(','), 'items of things to compare', covers=(
    'nothing', 'own tuples', 'a mapping', 'a sequence', 'a set'))
def items(E):
    how = E.case('nothing', 'own tuples', 'a mapping', 'a sequence', 'a set')
    n = z3.Int('n')
    E.assume(n >= 0)
    key, val = z3.Function('KEY', IntS, V), z3.Function('VAL', IntS, V)
    item = z3.Function('ITEM_OF', V, V)
    has = {'own tuples': {'itertuples'}, 'a mapping': {
        'keys', 'items', '__getitem__'}, 'a sequence': {'__getitem__'}}.get(
            how, set())
    pairs = SSeq(n, lambda i: (SV(key(i)), SV(val(i))))
    c = NOT if how == 'nothing' else SV(E.ext('C').e, Tag('coll', methods={
        'itertuples': lambda E, s, a, kw: pairs,
        'keys': lambda E, s, a, kw: SSeq(n, lambda i: SV(key(i))),
        'items': lambda E, s, a, kw: SSeq(n, lambda i: (SV(key(i)), SV(item(
            key(i))))),
        '__getitem__': lambda E, s, a, kw: SV(item(E.lift(a[0]))),
        '__iter__': lambda E, s, a, kw: SSeq(n, lambda i: SV(val(i)))}))

    def hasa(E, args, kw):
        return args[1] in has or how == 'own tuples'
    E.sh.summaries[hasattr] = hasa
    tag, r = E.run(ND.collection_generator, c)
    E.prove('answers', B(tag == 'ok'))
    if tag != 'ok':
        return
    ks, vs = E.list_new(), E.list_new()

    def counting(E, ctx, i, base):
        return [z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < i), z3.Select(
            ks.arr, j) == vint(j)))] if ('heap', ks.uid) in base else None
    invariant(E.sh.loop_cands, 'counting', counting)

    def got(x):
        x = E.conc_seq(x) if not isinstance(x, tuple) else x
        E.prove('pairs of an index and a value', B(len(x) == 2))
        E.list_append(ks, x[0])
        E.list_append(vs, x[1])
    E.iterate(r, got, ('drain',))
    E.cover(how)
    if how == 'nothing':
        E.prove('nothing has no items', z3.And(ks.n == 0, vs.n == 0))
        return
    E.prove('every item, once', z3.And(ks.n == n, vs.n == n))
    K, Vv = z3.Select(ks.arr, j), z3.Select(vs.arr, j)
    E.prove(how + ': in order, with its index', z3.ForAll([
        j], z3.Implies(z3.And(0 <= j, j < n), {
            'own tuples': z3.And(K == key(j), Vv == val(j)),
            'a mapping': z3.And(K == key(j), Vv == item(key(j))),
            'a sequence': z3.And(K == vint(j), Vv == val(j)),
            'a set': z3.And(K == val(j), Vv == val(j))}[how])))
