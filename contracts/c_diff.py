"""Comparing records: what the options do to values, and which differences
are reported for the slots of two records, the items of plain collections and
the items of collections of records.

Options are an arbitrary `DiffOptions` (or subclass) object when they are
passed to a comparison: their hooks are given by pure functions.  Differences
are the terms INFO(type, base, other); SUB(a, b, fa, fb) is the sequence of
differences found between two values below the given positions."""
import unicodedata
import z3
import normalize.diff as ND
import normalize.exc as exc
from normalize.coll import Collection, ListCollection, DictCollection
from normalize.record import Record
from normalize.selector import FieldSelector, MultiFieldSelector
from pv.contract import contract
from pv.terms import *      # noqa
from pv.values import *     # noqa
from .world import *        # noqa
from .world import B_ as B
from .c_json import sel, q, k_      # noqa
from .c_sel import j
from .c_sel2 import invariant, is_a
from pv.interp import HEAP_BASE as HB      # noqa

DO, DT, FS = ND.DiffOptions, ND.DiffTypes, FieldSelector
NOT = ND._nothing
WS = z3.Function('WHITESPACE', V, V)
CASE = z3.Function('CASEFOLD', V, V)
NFC = z3.Function('NFC', V, V)
i_ = z3.Int('ii')
FLAGS = ('ignore_ws', 'ignore_case', 'unicode_normal', 'unchanged',
         'ignore_empty_slots', 'ignore_empty_items', 'duck_type',
         'extraneous', 'fuzzy_match', 'moved', 'recurse')


def some_options(E):
    at = {f: E.val('opt_' + f) for f in FLAGS}
    o = E.new(HInst(DO, dict(at)))
    o.was = at
    return o


def kept(E, o):
    E.prove('the options are unchanged', B(all(
        o.attrs.get(f) is o.was[f] for f in o.was)))


def some_text(E, name):
    return E.text(name)


def fns(E):
    """the text hooks as pure functions of text"""
    def hook(f):
        def run(E, args, kw):
            E.prove('given the text', B(len(args) == 2 and not kw))
            E.prove('of text', is_str(E.lift(args[1])))
            r = f(E.lift(args[1]))
            E.assume(is_str(r))
            return SV(r)
        return run
    E.sh.summaries[DO.normalize_whitespace] = hook(WS)
    E.sh.summaries[DO.normalize_case] = hook(CASE)
    E.sh.summaries[DO.normalize_unf] = hook(NFC)


def text_of(o, v):
    t = lambda f: truth(o.was[f].e)      # noqa
    v = z3.If(t('ignore_ws'), WS(v), v)
    v = z3.If(t('ignore_case'), CASE(v), v)
    return z3.If(t('unicode_normal'), NFC(v), v)


def no_value(E, e):
    return z3.And(e != E.lift(NOT), z3.Not(truth(e)), z3.Or(
        E.truth_inst(SV(e), type(None)), E.truth_inst(SV(e), str)))


def no_text(E):
    for f in (DO.normalize_whitespace, DO.normalize_case, DO.normalize_unf,
              DO.normalize_text, DO.normalize_val, DO.normalize_slot,
              DO.value_is_empty):
        E.sh.summaries.pop(f, None)


@contract('C27', 'options')
def options(E):
    asked = E.case(None, *FLAGS)
    kw = {}
    if asked:
        kw[asked] = E.val('ARG')
    filt = E.case('none', 'selector', 'list', 'left out')
    made = []
    if filt == 'none':
        kw['compare_filter'] = None
    elif filt == 'selector':
        kw['compare_filter'] = E.new(HInst(MultiFieldSelector, {}))
    elif filt == 'list':
        a, b = E.val('FSA'), E.val('FSB')
        kw['compare_filter'] = [a, b]

        def make(E, args, k):
            made.append((args, k))
            return E.new(HInst(MultiFieldSelector, {}))
        E.sh.summaries[MultiFieldSelector] = make
    o = E.new(HInst(DO, {}))
    E.sh.summaries.pop(DO, None)
    tag, r = E.run(DO.__init__, o, **kw)
    E.prove('never fails', B(tag == 'ok'))
    if tag != 'ok':
        return
    on = ('ignore_ws', 'unicode_normal', 'fuzzy_match')
    for f in FLAGS:
        if f == asked:
            E.prove('each option is the one given', B(
                f in o.attrs) if f not in o.attrs else
                E.lift(o.attrs[f]) == kw[f].e)
        else:
            E.prove('options left out have their documented defaults', B(
                o.attrs.get(f, 0) is (f in on)))
    c = o.attrs.get('compare_filter', 0)
    if filt == 'list':
        E.prove('a filter of all selectors given', B(
            len(made) == 1 and not made[0][1] and len(made[0][0]) == 2 and
            isinstance(c, HInst)))
        if made and len(made[0][0]) == 2:
            E.prove('a filter of all selectors given', z3.And(
                E.lift(made[0][0][0]) == a.e, E.lift(made[0][0][1]) == b.e))
    else:
        E.prove('the filter is the one given', B(c is kw.get(
            'compare_filter')))


@contract('C27', 'text folding', covers=('folded',))
def text(E):
    no_text(E)
    fns(E)
    o = some_options(E)
    v = some_text(E, 'VALUE')
    tag, r = E.run(DO.normalize_text, o, v)
    E.prove('never fails', B(tag == 'ok'))
    if tag != 'ok':
        return
    E.cover('folded')
    E.prove('whitespace, then case, then Unicode form, as asked',
            E.lift(r) == text_of(o, v.e))
    kept(E, o)


@contract('C27', 'text hooks')
def hooks(E):
    no_text(E)
    o = some_options(E)
    v = some_text(E, 'VALUE')
    tag, r = E.run(DO.normalize_case, o, v)
    E.prove('upper case', B(tag == 'ok') if tag != 'ok' else E.lift(
        r) == vstr(strf('upper', IntS, IntS)(V.s(v.e))))
    E.sh.summaries[unicodedata.normalize] = lambda E, a, kw: SV(
        strf('form', V, V, V)(*[E.lift(x) for x in a]))
    tag, r = E.run(DO.normalize_unf, o, v)
    E.prove('composed form', B(tag == 'ok'))
    if tag == 'ok':
        E.prove('composed form', E.lift(r) == strf('form', V, V, V)(
            E.lift('NFC'), v.e))
    w = E.val('OTHER')
    E.assume(z3.Not(E.truth_inst(w, str)))
    tag, r = E.run(DO.normalize_unf, o, w)
    E.prove('other values as they are', B(tag == 'ok') if tag != 'ok' else
            E.lift(r) == w.e)


@contract('C27', 'empty values', covers=('empty', 'not'))
def empty(E):
    no_text(E)
    o = some_options(E)
    v = E.case(lambda: E.val('VALUE'), lambda: NOT)()
    tag, r = E.run(DO.value_is_empty, o, v)
    E.prove('never fails', B(tag == 'ok'))
    if tag != 'ok':
        return
    e = E.lift(v)
    t = E.truth(r)
    t = B(t) if isinstance(t, bool) else t
    E.cover('empty')
    E.cover('not')
    E.prove('only no text and None are empty', t == no_value(E, e))


@contract('C27', 'values before comparison', covers=(
    'text', 'empty', 'as it is'))
def value(E):
    no_text(E)

    def txt(E, args, kw):
        E.prove('text is folded', E.truth_inst(SV(E.lift(args[1])), str))
        r = strf('folded', V, V)(E.lift(args[1]))
        E.assume(is_str(r))
        return SV(r)
    E.sh.summaries[DO.normalize_text] = txt
    how = E.case('value', 'nothing', 'left out')
    o = some_options(E)
    v = E.val('VALUE') if how == 'value' else NOT
    e = E.lift(v)
    if how == 'value':
        E.assume(e != E.lift(NOT))
    E.sh.summaries[DO.value_is_empty] = lambda E, a, k: E.sbool(
        no_value(E, E.lift(a[1])))
    which = E.case(DO.normalize_val, DO.normalize_slot)
    if how == 'left out':
        tag, r = E.run(which, o)
    elif which is DO.normalize_slot and E.case(True, False):
        tag, r = E.run(which, o, v, E.val('PROP'))
    else:
        tag, r = E.run(which, o, v)
    E.prove('never fails', B(tag == 'ok'))
    if tag != 'ok':
        return
    E.cover('text')
    E.cover('empty')
    E.cover('as it is')
    f = z3.If(z3.And(e != E.lift(NOT), E.truth_inst(SV(e), str)), strf(
        'folded', V, V)(e), e)
    E.prove('folded text, nothing for what is empty, or as it is',
            E.lift(r) == z3.If(z3.And(
                truth(o.was['ignore_empty_slots'].e), no_value(E, f)),
                E.lift(NOT), f))
    kept(E, o)


@contract('C27', 'slots before comparison', covers=(
    'converted', 'with the record', 'as it is', 'failed'))
def slot(E):
    no_text(E)
    o = some_options(E)
    slots = strf('slot', V, V, V)

    def norm(E, args, kw):
        E.prove('the value and its property', B(
            len(args) == 3 and not kw))
        return SV(slots(E.lift(args[1]), E.lift(args[2])))
    E.sh.summaries[DO.normalize_slot] = norm
    calls = []

    def compare(E, s, args, kw):
        calls.append([E.lift(a) for a in args])
        if E.branch(z3.Bool('CONVERTS')):
            return SV(z3.Const('CONVERTED', V))
        raise PyRaise(SV(obj(z3.IntVal(7))))
    has = E.case('no', 'yes')
    info = E.case('none', (False, 1), (True, 0), (True, 1), (False, 0))
    if has == 'no':
        info = 'none'

    class Plain(object):
        """a property as far as this method is concerned"""
    at = {}
    if info != 'none':
        at['compare_as_info'] = lambda E, e: info
    if has == 'yes':
        at['compare_as'] = lambda E, e: E.asfn
    E.asfn = SV(E.ext('COMPARE_AS').e, Tag('fn', call=compare))
    p = SV(E.ext('PROP').e, Tag('prop', real=Plain, attrs=at, strict=True))
    how = E.case('value', 'nothing')
    v = E.val('VALUE') if how == 'value' else NOT
    if how == 'value':
        E.assume(v.e != E.lift(NOT))
    rec = E.val('RECORD')
    tag, r = E.run(DO.normalize_object_slot, o, v, p, rec)
    if has == 'no' or how == 'nothing':
        E.cover('as it is')
        E.prove('no conversion', z3.And(B(tag == 'ok' and not calls), E.lift(
            r) == slots(E.lift(v), p.e)))
        return
    m, n = (False, 1) if info == 'none' else info
    want = ([rec.e] if m else []) + ([v.e] if n else [])
    E.prove('converted once', B(len(calls) == 1 and len(calls[0]) == len(
        want)))
    if len(calls) == 1 and len(calls[0]) == len(want):
        E.prove('from the value or record, as declared', z3.And(
            B(True), *[a == b for a, b in zip(calls[0], want)]))
    if tag == 'ok':
        E.cover('converted')
        if m:
            E.cover('with the record')
        E.prove('then like any other value', E.lift(r) == slots(
            z3.Const('CONVERTED', V), p.e))
    else:
        E.cover('failed')
        E.prove('the error of the conversion', E.lift(r) == obj(
            z3.IntVal(7)))


@contract('C27', 'items before comparison', covers=('converted', 'as it is'))
def item(E):
    no_text(E)
    o = some_options(E)
    val = strf('val', V, V)
    E.sh.summaries[DO.normalize_val] = lambda E, a, kw: SV(
        val(E.lift(a[1])))
    calls = []

    def compare(E, s, args, kw):
        calls.append([E.lift(a) for a in args])
        return SV(strf('itemas', V, V)(E.lift(args[0])))
    has = E.case(False, True)

    class Plain(object):
        """a collection as far as this method is concerned"""
    c = SV(E.ext('COLL').e, Tag('coll', real=Plain, strict=True, methods={
        'compare_item_as': compare} if has else {}))
    how = E.case('value', 'nothing')
    v = E.val('VALUE') if how == 'value' else NOT
    if how == 'value':
        E.assume(v.e != E.lift(NOT))
    tag, r = E.run(DO.normalize_item, o, v, c)
    e = E.lift(v)
    if has and how == 'value':
        E.cover('converted')
        e = strf('itemas', V, V)(e)
    else:
        E.cover('as it is')
    E.prove('never fails', B(tag == 'ok'))
    E.prove('converted once, if declared', z3.And(B(len(calls) == int(
        has and how == 'value')), E.lift(r) == val(e)))


@contract('C27', 'filtered slots', covers=('extraneous', 'outside', 'no'))
def filtered(E):
    o = some_options(E)
    x = E.val('EXTRANEOUS')
    p = SV(E.ext('PROP').e, Tag('prop', attrs={
        'extraneous': lambda E, e: x}))
    fs = E.val('POS')
    got = []

    def getitem(E, s, args, kw):
        got.append(E.lift(args[0]))
        return SV(z3.Const('BELOW', V))
    has = E.case(False, True)
    f = SV(E.ext('FILTER').e, Tag('mfs', methods={
        '__getitem__': getitem})) if has else None
    o.attrs['compare_filter'] = f
    tag, r = E.run(DO.is_filtered, o, p, fs)
    E.prove('never fails', B(tag == 'ok'))
    if tag != 'ok':
        return
    t = E.truth(r)
    t = B(t) if isinstance(t, bool) else t
    E.cover('extraneous')
    E.cover('outside')
    E.cover('no')
    ex = z3.And(truth(x.e), z3.Not(truth(o.was['extraneous'].e)))
    E.prove('extraneous slots unless asked, and what is outside the filter',
            t == (z3.Or(ex, z3.And(truth(f.e), z3.Not(truth(
                z3.Const('BELOW', V))))) if has else ex))
    E.prove('the filter is asked for its position', z3.And(
        B(True), *[g == fs.e for g in got]))


# ------------------------------------------------------------- two records
NOS = z3.Function('COMPARED_AS', V, V, V, V)      # value, property, record
FILT = z3.Function('FILTERED_OUT', V, V, BoolS)
IEQ = z3.Function('ITEMS_EQUAL', V, V, BoolS)
INFO = z3.Function('INFO', V, V, V, V)
SUB = z3.Function('SUBDIFF', V, V, V, V, V)
DTY = z3.Function('DIFFTYPE', V, V)
FSP = z3.Function('FS+', V, V, V)
PERM = z3.Function('PERMP', IntS, IntS)
CNT = z3.Function('EMITTED', IntS, IntS)
EMIT = z3.Function('EMIT', IntS, IntS)
WHICH = z3.Function('WHICH', IntS, IntS, V)
ODD = z3.Function('FIRST_CHANGE', V, IntS)
EMPTYFS = V.obj(z3.IntVal(950))


def diff_world(E):
    """positions, differences and an arbitrary options object"""
    for t in ('NO_CHANGE', 'ADDED', 'REMOVED', 'MODIFIED', 'MOVED'):
        setattr(E, t, E.lift(getattr(DT, t)))
    kinds = [E.NO_CHANGE, E.ADDED, E.REMOVED, E.MODIFIED, E.MOVED]
    # the kind of a difference is one of the five, compared by identity
    x, y = z3.Consts('dx dy', V)
    E.assume(z3.ForAll([x], z3.Or([DTY(x) == t for t in kinds]),
                       patterns=[DTY(x)]))
    E.assume(z3.And([z3.Not(EQ(s, t)) for s in kinds for t in kinds
                     if s is not t]))

    def add(E, s, args, kw):
        v = args[0]
        if isinstance(v, (tuple, list)) and len(v) == 1:
            v = v[0]
        elif isinstance(v, HList):
            E.prove('one step', v.n == 1)
            v = SV(sel(v.arr, 0))
        elif not (isinstance(v, str) or isinstance(v, int) or (
                isinstance(v, SV) and E.valid(z3.Or(
                    is_str(v.e), is_int(v.e))))):
            # added as one step, if it is one
            E.prove('a name, an index or a list', B(False) if not isinstance(
                v, SV) else z3.Or(is_str(v.e), is_int(v.e), is_none(v.e)))
        return SV(FSP(s.e, E.lift(v)), E.fst)
    E.fst = Tag('fs', real=FS, methods={'__add__': add}, sticky=True)
    E.sh.summaries[FS] = lambda E, a, kw: SV(EMPTYFS, E.fst) if (
        len(a) == 1 and not kw and a[0] == ()) else E.throw(
            TypeError, 'another selector')

    def info(E, args, kw):
        ok = not args and set(kw) == {'diff_type', 'base', 'other'}
        E.prove('a kind and two positions', B(ok))
        if not ok:
            raise PathEnd()
        return SV(INFO(*[E.lift(kw[x]) for x in (
            'diff_type', 'base', 'other')]), E.dt)
    E.dt = Tag('diff', real=ND.DiffInfo, attrs={
        'diff_type': lambda E, e: SV(DTY(e))}, sticky=True)
    E.sh.summaries[ND.DiffInfo] = info
    a, b, c = z3.Consts('da db dc', V)
    E.assume(z3.ForAll([a, b, c], z3.Implies(
        z3.Or([a == t for t in kinds]), DTY(INFO(a, b, c)) == a),
        patterns=[INFO(a, b, c)]))
    at = {f: E.flag('opt_' + f) for f in FLAGS}

    def nos(E, s, args, kw):
        E.prove('a slot with its property and record', B(
            len(args) == 3 and not kw))
        return SV(NOS(*[E.lift(x) for x in args]))

    def filt(E, s, args, kw):
        return E.sbool(FILT(E.lift(args[0]), E.lift(args[1])))

    def ieq(E, s, args, kw):
        return E.sbool(IEQ(E.lift(args[0]), E.lift(args[1])))
    o = SV(E.ext('OPTIONS').e, Tag('options', real=DO, attrs={
        f: (lambda E, e, f=f: at[f]) for f in FLAGS}, methods={
            'normalize_object_slot': nos, 'is_filtered': filt,
            'items_equal': ieq}))
    E.assume(truth(o.e))
    E.on = {f: V.b(at[f].e) for f in FLAGS}
    E.sh.summaries[DO] = lambda E, a, kw: o if not a and not kw else E.throw(
        TypeError, 'other options')
    return o


def deeper(E, o):
    def sub(E, args, kw):
        args = list(args) + [kw[x] for x in ('options',) if x in kw]
        ok = len(args) == 5 and args[4] is o
        E.prove('compared with the same options', B(ok))
        if not ok:
            raise PathEnd()
        s = SUB(*[E.lift(x) for x in args[:4]])
        E.assume(LEN(s) >= 0)
        return SSeq(LEN(s), lambda i: SV(ITEM(s, i), E.dt))
    return sub


def once(E, key):
    """a function of terms whose results are kept, by the terms given"""
    def deco(f):
        def g(*ts):
            k = (key, f.__name__) + tuple(x if isinstance(
                x, int) else x.get_id() for x in ts)
            r = E.sh.memo.get(k)
            if r is None:
                r = E.sh.memo[k] = (ts, f(*ts))
            return r[1]
        return g
    return deco


@contract('C25,C26,C27'.split(','), 'two records slot by slot', covers=(
    'slots', 'other type', 'below'), limit=200)
def records_both(E):
    records(E, 'both', 'positions')


@contract('C25,C26,C27'.split(','), 'two records, from the top', covers=(
    'slots', 'other type', 'below'), limit=200)
def records_top(E):
    records(E, 'both', 'none')


@contract('C25,C26,C27'.split(','), 'a record removed, slot by slot', covers=(
    'slots', 'below'), limit=200)
def records_a(E):
    records(E, 'only a', 'positions')


@contract('C25,C26,C27'.split(','), 'a record added, slot by slot', covers=(
    'slots', 'below'), limit=200)
def records_b(E):
    records(E, 'only b', 'positions')


def records(E, how, given):
    o = diff_world(E)
    E.sh.merge = E.sh.light = True
    E.sh.templates = False
    N = E.lift(NOT)
    E.sh.summaries[ND._diff_iter] = deeper(E, o)
    sides = []
    props = E.some_dict('P')
    props.valtag = Tag('prop')
    # the slots of the base, if there is one; those of the other are others
    otherp = E.some_dict('Q')
    ct = Tag('cls', attrs={'properties': lambda E, e: props if E.valid(
        e == TYPE(ae if how != 'only b' else be)) else otherp, '__name__':
                           lambda E, e: SV(strf('cname', V, V)(e))})
    for nm in 'AB':
        if how == 'only a' and nm == 'B' or how == 'only b' and nm == 'A':
            sides.append(NOT)
        else:
            s = SV(E.ext(nm).e, Tag('rec' + nm, real=Record))
            E.assume(s.e != N)
            sides.append(s)
    a, b = sides
    ae, be = E.lift(a), E.lift(b)
    E.assume(z3.ForAll([q], z3.Implies(z3.Select(props.dom, q), z3.And(
        is_str(q), z3.Not(HASATTR(N, q)))), patterns=[
            z3.Select(props.dom, q)]))
    ic = z3.Function('IS_COMPARABLE', V, BoolS)

    def isi(E, args, kw):
        E.prove('values that can be compared in detail', B(
            args[1] == ND.COMPARABLE))
        return E.sbool(ic(E.lift(args[0])))
    E.sh.summaries[isinstance] = isi

    def typ(E, args, kw):
        return SV(TYPE(E.lift(args[0])), ct)
    E.sh.summaries[type] = typ

    def gat(E, args, kw):
        x, k = E.lift(args[0]), E.lift(args[1])
        E.prove('an unset slot is nothing', B(
            len(args) == 3 and args[2] is NOT))
        return SV(z3.If(HASATTR(x, k), GETATTR(x, k), N))
    E.sh.summaries[getattr] = gat
    n, K, X = E.enum(props.dom)
    E.trusted('sorted(): a permutation')
    E.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(
        0 <= PERM(j), PERM(j) < n)), patterns=[PERM(j)]))

    def srt(E, args, kw):
        E.prove('the properties', B(args[0] is props))
        return SSeq(n, lambda i: E.mkkey(K(PERM(i)), None))
    E.sh.summaries[sorted] = srt
    args = [o]
    if given == 'positions':
        fa, fb = SV(E.ext('FA').e, E.fst), SV(E.ext('FB').e, E.fst)
        kw = {'fs_a': fa, 'fs_b': fb, 'options': o}
    else:
        fa = fb = SV(EMPTYFS, E.fst)
        kw = {'options': o} if E.case(True, False) else {}
    # what is to be reported for the i-th slot
    memo = once(E, (how, given, str(K(0)), str(fa.e)))

    @memo
    def name(i):
        return K(PERM(i))

    @memo
    def prop(i):
        return z3.Select(props.val, name(i))

    def att(x, i):
        return z3.If(HASATTR(x, name(i)), GETATTR(x, name(i)), N)

    @memo
    def va(i):
        return NOS(att(ae, i), prop(i), ae)

    @memo
    def vb(i):
        return NOS(att(be, i), prop(i), be)

    @memo
    def pa(i):
        return FSP(fa.e, name(i))

    @memo
    def pb(i):
        return FSP(fb.e, name(i))

    @memo
    def one(i):
        return (va(i) == N) != (vb(i) == N)

    @memo
    def out(i):
        return z3.Or(FILT(prop(i), pa(i)), z3.And(va(i) == N, vb(i) == N))

    @memo
    def comp(i):
        return z3.And(z3.Or(ic(va(i)), ic(vb(i))), z3.Or(
            peq(TYPE(va(i)), TYPE(vb(i))), E.on['duck_type'], z3.And(
                E.on['ignore_empty_slots'], one(i))))

    @memo
    def sub(i):
        return SUB(va(i), vb(i), pa(i), pb(i))

    # the first change of a sequence of differences; the first of a kind
    s_ = z3.Const('s_', V)

    @memo
    def chg(s):
        return z3.And(0 <= ODD(s), ODD(s) < LEN(s))

    @memo
    def net(i):
        return z3.If(chg(sub(i)), DTY(ITEM(
            sub(i), ODD(sub(i)))), E.NO_CHANGE)

    @memo
    def emit0(i):
        return z3.If(out(i), 0, z3.If(comp(i), z3.If(
            one(i), z3.If(z3.Or(chg(sub(i)), E.on['unchanged']), 1, 0),
            LEN(sub(i))), z3.If(z3.Or(one(i), z3.Not(IEQ(
                va(i), vb(i))), E.on['unchanged']), 1, 0)))

    @memo
    def kind(i):
        return z3.If(comp(i), net(i), z3.If(
            one(i), z3.If(va(i) == N, E.ADDED, E.REMOVED),
            z3.If(IEQ(va(i), vb(i)), E.NO_CHANGE, E.MODIFIED)))

    # EMIT(i) of them, WHICH(i, p) the p-th: named, and defined slot by slot
    emit, which = EMIT, WHICH

    @memo
    def world():
        return [
            z3.ForAll([s_, j], z3.Implies(z3.And(
                0 <= j, j < LEN(s_), DTY(ITEM(s_, j)) != E.NO_CHANGE),
                z3.And(0 <= ODD(s_), ODD(s_) <= j, DTY(ITEM(s_, ODD(
                    s_))) != E.NO_CHANGE)), patterns=[ITEM(s_, j)]),
            z3.ForAll([s_], z3.Implies(chg(s_), DTY(ITEM(
                s_, ODD(s_))) != E.NO_CHANGE), patterns=[ODD(s_)]),
            CNT(0) == 0,
            z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(
                LEN(sub(j)) >= 0, CNT(j) >= 0, EMIT(j) == emit0(j),
                CNT(j + 1) == CNT(j) + EMIT(j),
                z3.Implies(z3.And(EMIT(j) > 0, z3.Or(one(j), z3.Not(
                    comp(j)))), WHICH(j, 0) == INFO(
                        kind(j), pa(j), pb(j))),
                )), patterns=[PERM(j)]),
            z3.ForAll([j, i_], z3.Implies(z3.And(
                0 <= j, j < n, comp(j), z3.Not(one(j)), 0 <= i_,
                i_ < EMIT(j)), WHICH(j, i_) == ITEM(sub(j), i_)),
                patterns=[WHICH(j, i_)])]
    for f in world():
        E.assume(f)
    log = E.list_new()
    log.ghost = True
    reported = lambda i: z3.ForAll([i_, j], z3.Implies(z3.And(   # noqa
        0 <= i_, i_ < i, 0 <= j, j < emit(i_)), z3.And(
            CNT(i_) + j < CNT(i), sel(log.arr, CNT(i_) + j) == which(
                i_, j))))

    def outer(E, ctx, i, base):
        if E.loops:
            return None
        return [z3.And(log.n == CNT(i), CNT(i) >= 0), reported(i)]

    def inner(E, ctx, i, base):
        if len(E.loops) != 1 or 'For' not in ctx.info.note:
            return None
        h = E.loops[0].i
        d = None
        for loc in base:
            if loc[0] == 'heap' and isinstance(
                    E.heap.get(HB + loc[1]), HSet):
                d = E.heap[HB + loc[1]]
        seen = z3.And(chg(sub(h)), ODD(sub(h)) < i)
        o = [log.n == z3.If(one(h), CNT(h), CNT(h) + i), z3.Or(
            one(h), z3.ForAll([j], z3.Implies(
                z3.And(0 <= j, j < i), sel(log.arr, CNT(h) + j) == ITEM(
                    sub(h), j)))), reported(h)]
        if d is None:
            return o
        return o + [z3.And(
            z3.ForAll([q], z3.Implies(z3.Select(d.dom, q), z3.And(
                q != E.NO_CHANGE, seen))),
            z3.Implies(seen, z3.Select(d.dom, DTY(ITEM(sub(h), ODD(
                sub(h)))))))]
    invariant(E.sh.loop_cands, 'outer', outer)
    invariant(E.sh.loop_cands, 'inner', inner)
    tag, g = E.run(ND.compare_record_iter, a, b, **kw)
    E.prove('a generator', B(tag == 'ok'))
    try:
        E.iterate(g, lambda f: E.list_append(log, f), ('drain',))
    except PyRaise as x:
        E.cover('other type')
        r = x.value
        if is_a(E, r, TypeError):
            E.prove('refused only if of another class', z3.And(
                B(how == 'both'), z3.Not(E.on['duck_type']), z3.Not(peq(
                    TYPE(ae), TYPE(be)))))
        else:
            E.prove('otherwise only for mixed kinds below an unset slot', B(
                is_a(E, r, AssertionError)))
            if not E.loops:
                return
            h = E.loops[0].i
            E.prove('mixed kinds below an unset slot', z3.And(
                comp(h), one(h), chg(sub(h))))
        return
    E.cover('slots')
    E.cover('below')
    E.prove('another class is refused', z3.Or(
        B(how != 'both'), E.on['duck_type'], peq(TYPE(ae), TYPE(be))))
    E.prove('as many differences as there are to report', log.n == CNT(n))
    E.prove('each slot is reported as it compares', reported(n))


# --------------------------------------------- plain lists and dictionaries
NI = z3.Function('NORMAL_ITEM', V, V, V)
HASH = z3.Function('STAND_IN', V, V)
PAIR = z3.Function('PAIR', V, IntS, V)
FST = z3.Function('FIRST', V, V)
SND = z3.Function('SECOND', V, IntS)
ISPAIR = z3.Function('IS_PAIR', V, BoolS)
BASE = z3.Function('BASEFS', V, V)
OTHER = z3.Function('OTHERFS', V, V)
LASTK = z3.Function('LASTSTEP', V, V)
ps, vs = z3.Consts('ps vs', V)
si = z3.Int('si')


def pairs(E):
    """pairs of a value and a number, as values"""
    def pair(E, t):
        if len(t) == 2 and (type(t[1]) is int or isinstance(
                t[1], SV) and con(t[1].e) == 'vint'):
            n = E.lift(t[1]).arg(0)
            return PAIR(E.lift(t[0]), n)

    def unpair(E, e):
        if z3.is_app(e) and e.decl().name() == 'PAIR':
            return SV(e.arg(0)), E.sint(e.arg(1))
        if E.valid(ISPAIR(e)):
            return SV(FST(e)), SV(vint(SND(e)))
    E.sh.pair, E.sh.unpair = pair, unpair
    E.assume(z3.ForAll([ps], z3.Implies(ISPAIR(ps), ps == PAIR(
        FST(ps), SND(ps))), patterns=[ISPAIR(ps)]))
    E.assume(z3.ForAll([vs, si], z3.And(ISPAIR(PAIR(vs, si)), FST(PAIR(
        vs, si)) == vs, SND(PAIR(vs, si)) == si), patterns=[PAIR(vs, si)]))


def FA(vs, body, patterns=()):
    """for all; with patterns only where they are stated of a state given by
    constants (and not of one being proved)"""
    for p in patterns:
        if z3.is_app(p) and p.decl().kind() == z3.Z3_OP_SELECT and \
                not z3.is_const(p.arg(0)):
            return z3.ForAll(vs, body)
    return z3.ForAll(vs, body, patterns=patterns) if patterns else \
        z3.ForAll(vs, body)


class Side:
    """one of the two things compared: its items, which of them count, and
    the how-manieth of its value each one is"""
    def __init__(self, E, nm, v, of, drop):
        self.v = v
        self.missing = v is NOT
        self.n = z3.IntVal(0) if self.missing else z3.Int('n' + nm)
        F = lambda n, *s: z3.Function(n + nm, *s)      # noqa
        self.key = F('KEY_', IntS, V)
        self.val = F('VAL_', IntS, V)
        self.h = F('H_', IntS, V)
        self.kept = F('KEPT_', IntS, BoolS)
        self.cnt = F('COUNT_', V, IntS, IntS)
        self.pos = F('POS_', V, IntS, IntS)
        self.idx = F('INDEX_', V, IntS)
        self.rank = lambda i: self.cnt(self.h(i), i)      # noqa
        self.p = lambda i: PAIR(self.h(i), self.rank(i))      # noqa
        N = E.lift(NOT)
        E.assume(self.n >= 0)
        inr = lambda i: z3.And(0 <= i, i < self.n)      # noqa
        self.inr = inr
        E.assume(z3.ForAll([j], z3.Implies(inr(j), z3.And(
            self.idx(self.key(j)) == j,
            self.kept(j) == z3.Or(z3.Not(drop), self.h(j) != N))),
            patterns=[self.key(j), self.h(j)]))
        E.assume(z3.ForAll([j], z3.Implies(inr(j), self.h(j) == HASH(NI(
            self.val(j), of))), patterns=[self.val(j)]))
        # those of one value are told apart by their rank
        at = z3.Implies(z3.And(inr(j), self.kept(j)), self.pos(
            self.h(j), self.rank(j)) == j)
        E.assume(z3.ForAll([j], at, patterns=[self.p(j)]))
        E.assume(z3.ForAll([j], at, patterns=[self.val(j)]))
        E.assume(z3.ForAll([vs], self.cnt(vs, 0) == 0, patterns=[
            self.cnt(vs, 0)]))
        step = z3.Implies(inr(j), self.cnt(vs, j + 1) == self.cnt(
            vs, j) + z3.If(z3.And(self.kept(j), vs == self.h(j)), 1, 0))
        for t in (j, j + 1):
            E.assume(z3.ForAll([vs, j], step, patterns=[z3.MultiPattern(
                self.cnt(vs, t), self.h(j))]))

    def seq(self, E):
        return SSeq(self.n, lambda i: (SV(self.key(i)), SV(self.val(i))))

    def counted(self, E, i):
        """what is known of the ranks among the first i items"""
        c = self.cnt
        return [
            FA([vs], c(vs, i) >= 0, patterns=[c(vs, i)]),
            FA([vs, si], z3.Implies(z3.And(
                0 <= si, si < c(vs, i)), z3.And(
                    0 <= self.pos(vs, si), self.pos(vs, si) < i,
                    self.kept(self.pos(vs, si)),
                    self.h(self.pos(vs, si)) == vs,
                    c(vs, self.pos(vs, si)) == si,
                    self.idx(self.key(self.pos(vs, si))) == self.pos(
                        vs, si))), patterns=[self.pos(vs, si)]),
            FA([j], z3.Implies(z3.And(
                0 <= j, j < i, self.kept(j)), z3.And(
                    0 <= self.rank(j), self.rank(j) < c(self.h(j), i))),
                patterns=[self.key(j), self.h(j)])]


def built(E, ctx, i, base, sides):
    """values and positions after i items of one side"""
    if len(E.loops):
        return None
    for s in sides:
        if not s.missing and ctx.n.eq(s.n):
            break
    else:
        return None
    if 'For' not in ctx.info.note:
        return None
    out = s.counted(E, i)
    for loc in base:
        o = E.heap.get(HB + loc[1]) if loc[0] == 'heap' else None
        if isinstance(o, HSet):
            out.append(FA([ps], z3.Select(o.dom, ps) == z3.And(
                ISPAIR(ps), 0 <= SND(ps), SND(ps) < s.cnt(FST(
                    ps), i)), patterns=[z3.Select(o.dom, ps)]))
        elif isinstance(o, HDict) and o.factory == 'counter':
            out.append(FA([vs], z3.If(z3.Select(o.dom, vs), V.i(
                z3.Select(o.val, vs)), 0) == s.cnt(vs, i), patterns=[
                    z3.Select(o.dom, vs)]))
        elif isinstance(o, HDict):
            out.append(FA([ps], z3.And(
                z3.Select(o.dom, ps) == z3.And(
                    ISPAIR(ps), 0 <= SND(ps), SND(ps) < s.cnt(FST(
                        ps), i)),
                z3.Implies(z3.Select(o.dom, ps), z3.Select(
                    o.val, ps) == s.key(s.pos(FST(ps), SND(ps))))),
                patterns=[z3.Select(o.dom, ps)]))
    return out


def plain(E, f, how):
    E.sh.merge = E.sh.light = E.sh.ematch = True
    E.sh.templates = False
    o = diff_world(E)
    pairs(E)
    a = NOT if how == 'only b' else SV(E.ext('A').e)
    b = NOT if how == 'only a' else SV(E.ext('B').e)
    N = E.lift(NOT)
    E.assume(z3.And(z3.Const('A', V) != N, z3.Const('B', V) != N))
    ae, be = E.lift(a), E.lift(b)
    A = Side(E, 'A', a, ae, E.on['ignore_empty_slots'])
    Bs = Side(E, 'B', b, z3.If(E.on['duck_type'], ae, be),
              E.on['ignore_empty_slots'])
    fa, fb = SV(E.ext('FA').e, E.fst), SV(E.ext('FB').e, E.fst)

    def gen(E, args, kw):
        for s in (A, Bs):
            if len(args) == 1 and not kw and (args[0] is s.v or isinstance(
                    args[0], SV) and isinstance(s.v, SV) and args[0].e.eq(
                        s.v.e)):
                return s.seq(E)
        E.prove('the items of one of the two', B(False))
        raise PathEnd()
    E.sh.summaries[ND.collection_generator] = gen

    def item(E, s, args, kw):
        return SV(NI(E.lift(args[0]), E.lift(args[1])))
    o.tag.methods['normalize_item'] = item
    E.sh.summaries[ND._hashable] = lambda E, args, kw: SV(HASH(
        E.lift(args[0])))
    # what a difference is made of
    x, y, z = z3.Consts('dx dy dz', V)
    E.assume(z3.ForAll([x, y, z], z3.And(
        BASE(INFO(x, y, z)) == y, OTHER(INFO(x, y, z)) == z),
        patterns=[INFO(x, y, z)]))
    E.assume(FA([x, y], LASTK(FSP(x, y)) == y, patterns=[FSP(x, y)]))
    pa = lambda k: FSP(fa.e, k)      # noqa
    pb = lambda k: FSP(fb.e, k)      # noqa

    def paired(s, t, i):
        return s.rank(i) < t.cnt(s.h(i), t.n)

    def partner(s, t, i):
        return t.pos(s.h(i), s.rank(i))

    def alone(s, t, k):
        """is k the key of an item of s without a partner in t?"""
        i = s.idx(k)
        return z3.And(s.inr(i), s.key(i) == k, s.kept(i), z3.Not(
            paired(s, t, i)))
    apart = lambda i: z3.And(E.on['moved'], z3.Not(peq(    # noqa
        A.key(i), Bs.key(partner(A, Bs, i)))))

    def right(t, f, ka, kb):
        """f, of kind t, at these keys, is a difference to be reported"""
        i = A.idx(ka)
        mates = [A.inr(i), A.key(i) == ka, A.kept(i), paired(A, Bs, i),
                 f == INFO(t, pa(ka), pb(Bs.key(partner(A, Bs, i))))]
        if t is E.MOVED:
            return mates + [apart(i)]
        if t is E.NO_CHANGE:
            return mates + [E.on['unchanged'], z3.Not(apart(i))]
        if t is E.REMOVED:
            return [alone(A, Bs, ka), z3.Not(alone(Bs, A, ka)),
                    f == INFO(t, pa(ka), fb.e)]
        if t is E.ADDED:
            return [alone(Bs, A, kb), z3.Not(alone(A, Bs, kb)),
                    f == INFO(t, fa.e, pb(kb))]
        return [alone(A, Bs, ka), alone(Bs, A, ka),
                f == INFO(t, pa(ka), pb(ka))]

    def step(e):
        return e.arg(1) if e.decl().name() == 'FS+' else LASTK(e)
    kinds = [E.MOVED, E.NO_CHANGE, E.REMOVED, E.ADDED, E.MODIFIED]
    # what is to be reported for an item
    G = E.new(HSet(z3.K(V, z3.BoolVal(False)), []))
    said = lambda g: z3.Select(G.dom, g)      # noqa
    g_ = z3.Const('g_', V)
    outs = {
        'paired': (A, lambda i: z3.And(paired(A, Bs, i), z3.Or(apart(
            i), E.on['unchanged'])), lambda i: z3.If(apart(i), INFO(
                E.MOVED, pa(A.key(i)), pb(Bs.key(partner(A, Bs, i)))), INFO(
                E.NO_CHANGE, pa(A.key(i)), pb(Bs.key(partner(A, Bs, i)))))),
        'removed': (A, lambda i: z3.And(z3.Not(paired(A, Bs, i)), z3.Not(
            alone(Bs, A, A.key(i)))), lambda i: INFO(
                E.REMOVED, pa(A.key(i)), fb.e)),
        'added': (Bs, lambda i: z3.And(z3.Not(paired(Bs, A, i)), z3.Not(
            alone(A, Bs, Bs.key(i)))), lambda i: INFO(
                E.ADDED, fa.e, pb(Bs.key(i)))),
        'modified': (A, lambda i: z3.And(z3.Not(paired(A, Bs, i)), alone(
            Bs, A, A.key(i))), lambda i: INFO(
                E.MODIFIED, pa(A.key(i)), pb(A.key(i))))}
    OUT, DUE = {}, {}
    for what, (s, c, d) in outs.items():
        OUT[what] = z3.Function('OUT_' + what, IntS, V)
        DUE[what] = z3.Function('DUE_' + what, IntS, BoolS)
        E.assume(z3.ForAll([j], z3.Implies(z3.And(s.inr(j), s.kept(
            j)), z3.And(OUT[what](j) == d(j), DUE[what](j) == c(j))),
            patterns=[OUT[what](j), DUE[what](j)]))

    def complete(what, cond=None):
        s = outs[what][0]
        c = [s.inr(j), s.kept(j), DUE[what](j)]
        if cond is not None:
            c.append(cond(s, j))
        return FA([j], z3.Implies(z3.And(c), said(OUT[what](j))),
                  patterns=[OUT[what](j)])

    def reporting(E, ctx, i, base):
        """the loops over sets of pairs, or of keys"""
        if len(E.loops) or not base:
            return None
        for n, K, X, key in E.enum_cache.values():
            if n.eq(ctx.n):
                break
        else:
            return None
        D = key
        out = []
        at = {'pair': lambda s, j: z3.And(z3.Select(
            D, s.p(j)), X(s.p(j)) < i),
              'key': lambda s, j: z3.And(z3.Select(
                  D, s.key(j)), X(s.key(j)) < i)}
        for loc in base:
            o = E.heap.get(HB + loc[1]) if loc[0] == 'heap' else None
            if o is G:
                for t in (E.MOVED, E.NO_CHANGE, E.REMOVED, E.ADDED,
                          E.MODIFIED):
                    out.append(FA([g_], z3.Implies(said(
                        g_), DTY(g_) != t), patterns=[said(g_)]))
                    # those of this kind were reported in this loop
                    s, k = (Bs, OTHER) if t is E.ADDED else (A, BASE)
                    w = at['key' if t is E.MODIFIED else 'pair']
                    out.append(FA([g_], z3.Implies(z3.And(
                        said(g_), DTY(g_) == t), w(s, s.idx(LASTK(k(g_))))),
                        patterns=[said(g_)]))
                for what in OUT:
                    out.append(complete(what, at[
                        'key' if what == 'modified' else 'pair']))
            elif isinstance(o, HSet):
                # keys of the pairs seen so far
                for s in (A, Bs):
                    k = s.idx(q)
                    out.append(FA([q], z3.Select(o.dom, q) == z3.And(
                        s.inr(k), s.key(k) == q, s.kept(k), at['pair'](
                            s, k)), patterns=[z3.Select(o.dom, q)]))
        return out
    invariant(E.sh.loop_cands, 'built', lambda E, ctx, i, base: built(
        E, ctx, i, base, (A, Bs)))
    invariant(E.sh.loop_cands, 'reporting', reporting)
    tag, g = E.run(f, a, b, fa, fb, options=o)
    E.prove('a generator', B(tag == 'ok'))

    def got(d):
        e = E.lift(d)
        t = [x for x in kinds if e.decl().name() == 'INFO' and
             x.eq(e.arg(0))]
        E.prove('a difference of one of the kinds', B(len(t) == 1))
        parts = right(t[0], e, step(e.arg(1)), step(e.arg(2)))
        for g in parts:
            E.prove('each reported difference is one', g)
        E.prove('none is reported twice', z3.Not(said(e)))
        E.set_add(G, d)
    try:
        E.iterate(g, got, ('drain',))
    except PyRaise:
        E.prove('never fails', B(False))
        return
    E.cover('all')
    for what in OUT:
        E.prove('every difference is reported: ' + what, complete(what))


for _f, _n in ((ND.compare_list_iter, 'list'), (
        ND.compare_dict_iter, 'dict')):
    for _h, _d in (('both', 'two plain %ss'), ('only a', 'a plain %s removed'),
                   ('only b', 'a plain %s added')):
        @contract('C26,C28'.split(','), _d % _n, covers=('all',), limit=200,
                  timeout=15)
        def plain_contract(E, f=_f, h=_h):
            plain(E, f, h)
