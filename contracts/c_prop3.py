"""Declarations: names, companions and the arguments of the traits."""
import z3
import normalize.property as NP
import normalize.property.json as NPJ
import normalize.coll as NC
import normalize.empty as NE
import normalize.exc as exc
import normalize.record.json as NJ
from pv.contract import contract
from pv.execute import EXTRA as EXTRA_
from pv.terms import *      # noqa
from pv.values import *     # noqa
from .world import *        # noqa
from .world import B_ as B
from .c_json import sel, q, k_      # noqa
from .c_record import runx
from .c_sel2 import is_a
from .c_visit import same
from .c_exc import same_dict

HOLDER = z3.Const('PLACEHOLDER', V)


@contract(('C32',), 'the companion of a slot', covers=('set', 'unset',
                                                       'other error'))
def companion(E):
    val = E.val('HELD')
    obj = E.ext('OBJ')
    asked, made = [], []

    def get(E, s, args, kw):
        asked.append(args)
        how = E.case('set', 'unset', 'other')
        E.how = how
        if how == 'unset':
            E.throw(AttributeError, 'unset')
        if how == 'other':
            E.throw(KeyError, 'other')
        return val
    vt = E.val('VT')
    p = SV(E.ext('PROP').e, Tag('prop', attrs={
        'valuetype': lambda E, e: vt}, methods={'__get__': get}))
    ex = E.new(HInst(NP.EmptyAuxProp))
    tag, r = E.run(NP.EmptyAuxProp.__init__, ex, p)
    E.prove('made', B(tag == 'ok'))

    def ph(E, args, kw):
        made.append(args)
        return SV(HOLDER)
    E.sh.summaries[NE.placeholder] = ph
    cls = E.case(True, False)
    tag, r = E.run(NP.EmptyAuxProp.__get__, ex, SV(obj.e),
                   *([E.val('TYPE')] if cls else []))
    E.prove('the slot is read, of the same record, once', z3.And(
        B(len(asked) == 1), same(E, asked[0][0], SV(obj.e))
        if asked else B(False)))
    E.cover({'set': 'set', 'unset': 'unset', 'other': 'other error'}[E.how])
    if E.how == 'set':
        E.prove('what is held', z3.And(B(tag == 'ok'), same(
            E, r, val) if tag == 'ok' else B(False)))
        E.prove('no placeholder made', B(not made))
    elif E.how == 'unset':
        E.prove('a placeholder if unset', B(tag == 'ok' and len(made) == 1))
        if tag == 'ok' and made:
            E.prove('which is given', E.lift(r) == HOLDER)
            a = E.lift(made[0][0])
            E.prove('for what the slot is declared to hold', z3.Implies(
                truth(vt.e), a == vt.e))
            E.prove('for anything if it is not', z3.Implies(z3.Not(truth(
                vt.e)), B(made[0][0] is any) if not isinstance(
                    made[0][0], SV) else B(False)))
    else:
        E.prove('other errors are passed on', B(tag == 'raise' and is_a(
            E, r, KeyError)))


@contract(('C09', 'C32'), 'a slot gets its name', covers=(
    'given', 'made up', 'none'))
def naming(E):
    nm = E.text('NAME')
    given = E.case(True, False)
    ea = E.case(None, 'text') if given else NP._none
    if ea == 'text':
        ea = E.text('COMPANION')
    o = E.new(HInst(NP.Property, {
        'name': None, 'empty_attr': ea, 'valuetype': E.val('VT')}))
    names = E.case('name', 'p2q', '_', *['name%d' % i for i in range(
        10)]) if not given else 'name'
    tag, r = E.run(NP.Property.set_name, o, names if not given else nm)
    E.prove('done', B(tag == 'ok'))
    E.prove('named', E.lift(o.attrs['name']) == E.lift(
        names if not given else nm))
    got = o.attrs['empty_attr']
    if given:
        E.cover('given')
        E.prove('a declared companion stays', B(got is ea))
        aux = E.run(NP.Property.aux_props, o)
        E.prove('companions', B(aux[0] == 'ok'))
        if aux[0] == 'ok':
            a = aux[1]
            if ea is None:
                E.prove('none if none is wanted', B(
                    isinstance(a, tuple) and len(a) == 0))
            else:
                ok = isinstance(a, tuple) and len(a) == 1 and isinstance(
                    a[0], tuple) and len(a[0]) == 2
                E.prove('one, by its name, of this slot', B(
                    ok and a[0][0] is ea and isinstance(a[0][1], HInst) and
                    a[0][1].cls is NP.EmptyAuxProp and
                    a[0][1].attrs.get('prop') is o))
    elif not names[-1].isdigit():
        E.cover('made up')
        E.prove('the name and 0', B(got == names + '0'))
    else:
        E.cover('none')
        E.prove('none for names which end in a digit', B(got is None))


TRAITS = [
    (NP.LazyProperty, 'lazy', (True,)),
    (NP.DiffasProperty, 'compare_as', ()),
    (NPJ.JsonProperty, 'json', ()),
]


@contract(('C08',), 'arguments of the traits', covers=(
    'LazyProperty', 'JsonProperty', 'refused'))
def trait_arguments(E):
    which = E.case('LazyProperty', 'JsonProperty')
    cls = {'LazyProperty': NP.LazyProperty,
           'JsonProperty': NPJ.JsonProperty}[which]
    kw = E.some_dict('KW', keytag='str')
    own = {'LazyProperty': ['lazy'], 'JsonProperty': [
        'json_name', 'json_in', 'json_out']}[which]
    for k in own + ['self']:
        E.assume(z3.Not(sel(kw.dom, E.lift(k))))
    given = {k: E.val('A_' + k) for k in own if E.case(True, False)}
    log = []

    def init(E, args, kws):
        log.append((args, kws))
        return None
    E.sh.summaries[NP.Property.__init__] = init
    o = E.new(HInst(cls))
    try:
        k2 = dict(given)
        k2[EXTRA_] = kw
        E.call(cls.__dict__['__init__'], [o], k2)
        tag, r = 'ok', None
    except PyRaise as ex:
        tag, r = 'raise', ex.value
    if which == 'LazyProperty':
        lz = truth(given['lazy'].e) if 'lazy' in given else B(True)
        if tag == 'raise':
            E.cover('refused')
            E.prove('lazy= is not to be false', z3.And(z3.Not(lz), B(
                is_a(E, r, exc.LazyIsFalse))))
            return
        E.prove('lazy', lz)
    E.prove('declared', B(tag == 'ok'))
    if tag != 'ok':
        return
    E.cover(which)
    E.prove('the rest is for the trait below', B(len(log) == 1))
    if len(log) == 1:
        args, kws = log[0]
        E.prove('this property', B(args[0] is o and len(args) == 1))
        x = kws.get(EXTRA_)
        E.prove('all other arguments', same_dict(E, x, kw) if x is not None
                and set(kws) == {EXTRA_} else B(False))
    if which == 'JsonProperty':
        for k, at, d in (('json_name', '_json_name', NPJ._default),
                         ('json_in', 'json_in', None),
                         ('json_out', 'json_out', None)):
            E.prove('%s is kept' % k, same(E, o.attrs.get(at), given[k])
                    if k in given else B(o.attrs.get(at, 1) is d))
