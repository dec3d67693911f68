"""Errors: made from a format and its arguments, and what can be read of
them."""
import z3
import normalize.exc as exc
from pv.contract import contract
from pv.terms import *      # noqa
from pv.values import *     # noqa
from .world import *        # noqa
from .world import B_ as B
from .c_record import runx
from pv.execute import EXTRA as EXTRA_
from .c_json import sel, q      # noqa

FILLED = z3.Const('FILLED', V)
SX = exc.StringFormatException


class PV_Error(exc.StringFormatException):
    """any class of structured errors"""
    message = 'x'


PV_Error.__module__ = 'normalize.exc'


def some_error(E):
    n = E.case(0, 1, 2, 3)
    args = [SV(E.ext('ARG%d' % i).e) for i in range(n)]
    kw = E.some_dict('KW', keytag='str')
    E.assume(z3.Not(sel(kw.dom, E.lift('self'))))
    return args, kw


@contract(('C35',), 'making an error', covers=(
    'made', 'a position missing', 'a name missing', 'other'), trusted=(
        'str.format: the text, or what it raises',))
def making(E):
    args, kw = some_error(E)
    E.assume(is_str(FILLED))
    asked = []
    missing = E.ext('MISSING')

    def fmt(E, s, a, k):
        asked.append((list(a), k.get(EXTRA_)))
        how = E.case('text', 'index', 'key', 'other')
        E.how = how
        if how == 'index':
            E.throw(IndexError, 'no such position')
        if how == 'key':
            E.throw(KeyError, SV(missing.e))
        if how == 'other':
            E.throw(ValueError, 'format')
        return SV(FILLED)
    E.how = None
    msg = SV(E.ext('MESSAGE').e, Tag('message', methods={'format': fmt},
                                     sticky=True))
    o = E.new(HInst(PV_Error, {'message': msg}))
    tag, r = runx(E, SX.__dict__['__init__'], o, kw, args)
    E.prove('the format is filled once, with exactly the arguments', B(
        len(asked) == 1 and len(asked[0][0]) == len(args) and
        all(x is y for x, y in zip(asked[0][0], args))))
    x = asked[0][1] if asked else None
    E.prove('... by name as well', same_dict(E, x, kw))
    if E.how == 'text':
        E.prove('made', B(tag == 'ok'))
        if tag != 'ok':
            return
        E.cover('made')
        E.prove('the message is the filled format', E.lift(
            o.attrs['formatted']) == FILLED)
        a = o.attrs.get('args')
        E.prove('the arguments are kept', B(
            isinstance(a, tuple) and len(a) == len(args) and
            all(p is s for p, s in zip(a, args))))
        E.prove('... by name as well', same_dict(E, o.attrs.get('kwargs'),
                                                 kw))
        return
    E.prove('not made', B(tag == 'raise'))
    if tag != 'raise':
        return
    if E.how == 'other':
        E.cover('other')
        E.prove('any other failure is passed on', B(
            isinstance(r, HInst) and r.cls is ValueError))
        return
    ok = isinstance(r, HInst)
    if E.how == 'index':
        E.cover('a position missing')
        E.prove('a missing position is reported as such', B(
            ok and r.cls is exc.PositionalExceptionFormatError))
    else:
        E.cover('a name missing')
        E.prove('a missing name is reported as such', B(
            ok and r.cls is exc.KeywordExceptionFormatError))
        if ok and r.cls is exc.KeywordExceptionFormatError:
            E.prove('the report names what is missing', E.lift(
                r.attrs['missing']) == missing.e)
    if ok and 'typename' in r.attrs:
        E.prove('the report names the class', B(
            r.attrs['typename'] == 'PV_Error'))


def same_dict(E, d, w):
    if d is w:
        return B(True)
    if not isinstance(d, HDict):
        return B(False)
    return z3.And(z3.ForAll([q], sel(d.dom, q) == sel(w.dom, q)),
                  z3.ForAll([q], z3.Implies(sel(w.dom, q), sel(
                      d.val, q) == sel(w.val, q))))


@contract(('C35',), 'reading an error', covers=(
    'text', 'repr', 'item', 'no item', 'attribute', 'no attribute'))
def reading(E):
    args, kw = some_error(E)
    o = E.new(HInst(PV_Error, {
        'formatted': SV(FILLED), 'args': tuple(args), 'kwargs': kw}))
    what = E.case('text', 'item', 'attribute', 'repr')
    if what == 'text':
        tag, r = E.run(SX.__str__, o)
        E.cover('text')
        E.prove('the text is the message', z3.And(B(tag == 'ok'), E.lift(
            r) == FILLED if tag == 'ok' else B(False)))
    elif what == 'repr':
        tag, r = E.run(SX.__repr__, o)
        E.cover('repr')
        E.prove('any error can be printed', B(tag == 'ok'))
    elif what == 'item':
        i = E.case(0, 1, 2, 3)
        tag, r = E.run(SX.__getitem__, o, i)
        if i < len(args):
            E.cover('item')
            E.prove('items are the arguments', B(tag == 'ok' and r is args[
                i]))
        else:
            E.cover('no item')
            E.prove('no such item', B(tag == 'raise' and isinstance(
                r, HInst) and r.cls is IndexError))
    else:
        k = E.text('NAME')
        tag, r = E.run(SX.__getattr__, o, k)
        if tag == 'ok':
            E.cover('attribute')
            E.prove('attributes are the arguments given by name', z3.And(
                sel(kw.dom, k.e), E.lift(r) == sel(kw.val, k.e)))
        else:
            E.cover('no attribute')
            E.prove('no such attribute', z3.And(B(isinstance(
                r, HInst) and r.cls is AttributeError), z3.Not(
                    sel(kw.dom, k.e))))
    E.prove('reading changes nothing', B(
        o.attrs['args'] == tuple(args) and o.attrs['kwargs'] is kw))


def raise_sites():
    """(where, class, positional arguments given, names given, open) for
    every call in the library which makes a structured error"""
    import ast
    import glob
    import importlib
    import os
    import normalize
    top = os.path.dirname(normalize.__file__)
    for p in sorted(glob.glob(os.path.join(top, '**', '*.py'),
                              recursive=True)):
        m = os.path.relpath(p, os.path.dirname(top))[:-3].replace(os.sep, '.')
        if m.endswith('.__init__'):
            m = m[:-9]
        mod = importlib.import_module(m)
        with open(p) as f:
            tree = ast.parse(f.read())

        def resolve(e):
            if isinstance(e, ast.Name):
                return getattr(mod, e.id, None)
            if isinstance(e, ast.Attribute):
                o = resolve(e.value)
                return getattr(o, e.attr, None) if o is not None else None

        def walk(n, where):
            for c in ast.iter_child_nodes(n):
                w = where
                if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                    w = where + '.' + c.name
                if isinstance(c, ast.Call):
                    k = resolve(c.func)
                    if isinstance(k, type) and issubclass(k, SX):
                        yield (w, k, len(c.args), {
                            x.arg for x in c.keywords}, any(isinstance(
                                x, ast.Starred) for x in c.args) or any(
                                    x.arg is None for x in c.keywords))
                yield from walk(c, w)
        yield from walk(tree, m)


@contract(('C35',), 'every raise site gives what its format needs', covers=(
    'sites',))
def sites(E):
    import inspect
    import re
    import string
    seen = {}
    for where, k, n, names, open_ in raise_sites():
        E.cover('sites')
        i = seen[where, k] = seen.get((where, k), 0) + 1
        what = '%s: %s%s' % (where, k.__name__, ' (%d)' % i if i > 1 else '')
        init = k.__init__
        if open_:
            raise Unsupported('%s: arguments not written out' % what)
        if init is not SX.__init__:
            try:
                inspect.signature(init).bind(None, *range(n),
                                             **dict.fromkeys(names))
                ok = True
            except TypeError:
                ok = False
            E.prove(what, B(ok))
            continue
        need = [re.split(r'[.\[]', f)[0] for _, f, _, _ in
                string.Formatter().parse(k.message) if f is not None]
        at, auto = [], 0
        for f in need:
            if f == '':
                at.append(auto)
                auto += 1
            elif f.isdigit():
                at.append(int(f))
        E.prove(what, B(all(x < n for x in at) and all(
            f in names for f in need if f and not f.isdigit())))
