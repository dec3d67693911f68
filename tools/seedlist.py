seed("c03-falsy-swallow", "C03", "property/__init__.py",
     "if _none_ok and new_value is None and not self.required:",
     "if _none_ok and not new_value and not self.required:",
     "a coerce function which returns a false value other than None that is not of the declared type, during construction, for an optional slot",
     "a failed coercion is swallowed silently instead of raising a coercion error",
     '''
from normalize import Record, Property, exc
class R(Record):
    a = Property(isa=int, coerce=lambda x: "")
try:
    r = R(a="x")
except exc.CoercionError:
    pass
else:
    raise SystemExit("not refused: %r" % r)
''')
seed("c06-lazy-store-first", "C06", "property/__init__.py",
     "            value = self.get_default(obj)\n            obj.__dict__[self.name] = self.type_safe_value(value)",
     "            value = obj.__dict__[self.name] = self.get_default(obj)\n            obj.__dict__[self.name] = self.type_safe_value(value)",
     "a lazy slot whose computed default is refused by its check or type, read twice",
     "the refused value is stored, and the second read returns it",
     '''
from normalize import Record, Property
class R(Record):
    a = Property(lazy=True, default=lambda: -1, check=lambda x: x > 0)
r = R()
for i in range(2):
    try:
        v = r.a
    except Exception:
        pass
    else:
        raise SystemExit("read %r" % v)
assert r.__dict__ == {}
''')
seed("c10-unset-is-none", "C10", "record/__init__.py",
     "if getattr(self, propname, _Unset) != getattr(\n                    other, propname, _Unset\n                ):",
     "if getattr(self, propname, None) != getattr(\n                    other, propname, None\n                ):",
     "two records one of which has a slot set to None, which is unset in the other",
     "an unset slot compares equal to one set to None",
     '''
from normalize import Record, Property
class R(Record):
    a = Property()
    b = Property(isa=int)
assert R(a=None, b=1) != R(b=1)
assert R(a=None, b=1) == R(a=None, b=1)
''')
seed("c27-nfc-before-case", "C27", "diff.py",
     "        if self.ignore_case:\n            value = self.normalize_case(value)\n        if self.unicode_normal:\n            value = self.normalize_unf(value)",
     "        if self.unicode_normal:\n            value = self.normalize_unf(value)\n        if self.ignore_case:\n            value = self.normalize_case(value)",
     "ignore_case with a character whose upper case form is longer and not in composed normal form",
     "texts equal up to case and normal form are reported as different",
     '''
from normalize import Record, Property
class R(Record):
    a = Property(isa=str)
d = R(a=u"\\u0390").diff(R(a=u"\\u03aa\\u0301"), ignore_case=True)
assert len(d) == 0, d
''')
seed("c16-iterator-pairs", "C16", "coll.py",
     "                if isinstance(v, tuple) and len(v) == 2:\n                    yield v\n                else:\n                    yield (i, v)\n                i += 1",
     "                if isinstance(v, tuple) and len(v) == 2:\n                    yield v\n                else:\n                    yield (i, v)\n                    i += 1",
     "an iterator giving both pairs and plain items to a mapping collection",
     "plain items get other keys than their position",
     '''
from normalize.coll import dict_of
c = dict_of(int)(iter([("a", 1), 2, ("b", 3), 4]))
assert dict(c.items()) == {"a": 1, 1: 2, "b": 3, 3: 4}, dict(c.items())
''')
seed("c24-complete-get-shares", "C24", "selector.py",
     "        if tail is all:\n            return deepcopy(obj)\n        else:\n            return tail.get(obj)",
     "        if tail is all:\n            return deepcopy(obj) if hasattr(obj, \"__dict__\") else obj\n        else:\n            return tail.get(obj)",
     "a selected location which holds a plain list or dict, changed after the filtered copy was made",
     "the filtered copy shares containers with the original",
     '''
from normalize import Record, Property, MultiFieldSelector
class R(Record):
    a = Property(isa=list)
    b = Property()
r = R(a=[[1]], b=2)
got = MultiFieldSelector(["a"]).get(r)
got.a.append(2)
assert r.a == [[1]] and got.a == [[1], 2]
''')
seed("c07-v1-none-only", "C07", "property/__init__.py",
     "            if value is None or value == self.v1_none:",
     "            if value == self.v1_none:",
     "a version-1 slot with a none value other than None, set, then assigned None",
     "None is refused instead of emptying the slot",
     """
from normalize import Record, Property
class R(Record):
    a = Property(isa=int, default="", traits=["v1"])
class S(Record):
    a = Property(isa=int, v1_none="")
for C in R, S:
    r = C(a=1)
    r.a = None
    assert r.a == "", r.a
    assert "a" not in r.__dict__
""")
seed("c02-delete-before-check", "C02", "property/__init__.py",
     "        if self.required:\n            raise exc.PropertyRequired(prop=self)\n        if self.name not in obj.__dict__:",
     "        if self.required:\n            obj.__dict__.pop(self.name, None)\n            raise exc.PropertyRequired(prop=self)\n        if self.name not in obj.__dict__:",
     "the deletion of a required slot, refused, followed by a read of the record",
     "a refused deletion removes the value all the same",
     """
from normalize import Record, Property
class R(Record):
    a = Property(isa=int, required=True)
r = R(a=1)
try:
    del r.a
except Exception:
    pass
assert r.__dict__ == {"a": 1}, r.__dict__
""")
seed("c01-check-false-only", "C01", "property/__init__.py",
     "        if self.check and not self.check(value):",
     "        if self.check and self.check(value) in (False, None):",
     "a check function which returns a false value other than False, 0 or None, such as an empty match list",
     "values which do not satisfy the check are stored",
     """
from normalize import Record, Property
class R(Record):
    a = Property(isa=str, check=lambda x: [c for c in x if c == "y"])
R(a="xy")
try:
    r = R(a="x")
except Exception:
    pass
else:
    raise SystemExit("stored %r" % r)
""")
seed("c08-check-not-safe", "C08", "property/meta.py",
     'x in kwargs for x in ("required", "isa", "check")',
     'x in kwargs for x in ("required", "isa")',
     "a declaration with check= and neither isa= nor required=",
     "the declared property is not type-safe: assignments are not checked",
     """
from normalize import Record, Property
class R(Record):
    a = Property(check=lambda x: x > 0)
r = R(a=1)
try:
    r.a = -1
except Exception:
    pass
assert r.a == 1, r.a
""")
seed("c12-repr-drops-none", "C12", "record/__init__.py",
     "            if propname not in self.__dict__:",
     "            if self.__dict__.get(propname) is None:",
     "a slot which is set to None",
     "the repr leaves the slot out, so evaluating it gives a different record",
     """
from normalize import Record, Property
class R(Record):
    a = Property()
    b = Property(isa=int)
r = R(a=None, b=1)
assert eval(repr(r)).__dict__ == r.__dict__, repr(r)
""")
seed("c14-index-stop", "C14", "coll.py",
     "            j += len_\n            if j < 0:\n                j = 0",
     "            j += len_\n            if j < 0:\n                j = len_",
     "index() with a negative stop before the start of the list",
     "an item is found in an empty range",
     """
from normalize.coll import list_of
c = list_of(int)([1, 2, 3])
try:
    c.index(1, 0, -5)
except ValueError:
    pass
else:
    raise SystemExit("found in an empty range")
assert c.index(2, -2, -1) == 1
""")
seed("c15-update-order", "C15", "coll.py",
     "            for k in list(iterable.keys()):",
     "            for k in sorted(iterable.keys(), key=str):",
     "update() from a mapping with several new keys which are not in order",
     "the new keys are added in the order of their texts, not the mapping's",
     """
from normalize.coll import dict_of
c = dict_of(int)({"m": 0})
c.update({"z": 1, "b": 2, "m": 5})
assert list(c.items()) == [("m", 5), ("z", 1), ("b", 2)], list(c.items())
""")
seed("c19-json-in-falsy", "C19", "property/json.py",
     "return self.json_in(json_data) if self.json_in else json_data",
     "return self.json_in(json_data) if self.json_in and json_data else json_data",
     "a json_in function and a false JSON value (0, empty text, null, false)",
     "the input conversion is not applied",
     """
from normalize import JsonRecord, Property
class R(JsonRecord):
    a = Property(isa=str, json_in=lambda x: "<%r>" % (x,))
assert R({"a": 0}).a == "<0>", R({"a": 0}).a
""")
seed("c23-merge-order", "C23", "selector.py",
     "                for head, tail in other.heads.items():\n                    heads[head].add(tail)",
     "                for head, tail in other.heads.items():\n                    if all in heads[head]:\n                        heads[head].clear()\n                    heads[head].add(tail)",
     "two multiple field selectors combined, the first covering all of a field, the second a part of it",
     "the union loses locations depending on the order of the arguments",
     """
from normalize import MultiFieldSelector as M
a, b = M(["x"]), M(["x", "y"], ["z"])
for m in M(a, b), M(b, a):
    assert ("x", "q") in m and ("z",) in m, m
""")
seed("c26-dict-equal-values", "C26", "diff.py",
     "                rev_key[(v, seen[v])] = k\n                seen[v] += 1",
     "                rev_key[(v, seen[v])] = k\n                seen[v] = 1",
     "plain dict slots holding an equal value under three or more keys",
     "differences among the equal values are missed or wrong",
     """
from normalize import Record, Property
class R(Record):
    a = Property(isa=dict)
d = R(a=dict(x=1, y=1, z=1)).diff(R(a=dict(x=1, y=1)))
assert len(d) == 1, d
""")
seed("c32-any-of-union", "C32", "empty.py",
     "    if any in typetuple:\n        typetuple = any",
     "    if typetuple == (any,):\n        typetuple = any",
     "a placeholder of a type union in which one member does not declare its slot's type",
     "the placeholder raises errors though the type is not known",
     """
from normalize import Record, Property
class A(Record):
    x = Property(isa=int)
class B(Record):
    x = Property()
class R(Record):
    u = Property(isa=(A, B))
p = R().u0.x
assert not p and not p.whatever.more
""")
seed("c34-digit-camel", "C34", "record/json.py",
     "            r'([a-z\\d])([A-Z])',\n            lambda m: \"%s_%s\"",
     "            r'([a-z])([A-Z])',\n            lambda m: \"%s_%s\"",
     "a camel case key in which a digit comes before the capital",
     "the key is not exposed in snake case",
     """
from normalize.record.json import AutoJsonRecord
r = AutoJsonRecord({"item2Name": 1})
assert r.item2_name == 1
assert r.json_data() == {"item2Name": 1}
""")
seed("c18-json-cache-by-name", "C18", [
     ("record/json.py", "        if json_data_takes_extraneous[type(x)]:", "        if json_data_takes_extraneous[type(x).__name__]:"),
     ("record/json.py", "            json_data_takes_extraneous[type(x)] = tjte", "            json_data_takes_extraneous[type(x).__name__] = tjte")],
     None, None,
     "two classes of the same name, of which one overrides json_data without the extraneous argument, both converted",
     "converting the second raises, or loses the extraneous option",
     """
from normalize import JsonRecord, Record, Property
from normalize.record.json import to_json
def mk(over):
    class Item(JsonRecord):
        a = Property(isa=int)
        b = Property(isa=int, extraneous=True)
    if over:
        Item.json_data = lambda self: {"c": 1}
    class R(JsonRecord):
        i = Property(isa=Item)
    return R, Item
R1, I1 = mk(False)
R2, I2 = mk(True)
for i in range(2):
    assert R2(i=I2(a=1, b=2)).json_data(extraneous=True) == {"i": {"c": 1}}
    assert R1(i=I1(a=1, b=2)).json_data(extraneous=True) == {"i": {"a": 1, "b": 2}}
""")
seed("c29-copy-loses-empty", "C29", "visitor.py",
     "            ignore_empty_string=self.ignore_empty_string,\n            ignore_none",
     "            ignore_none",
     "ignore_empty_string=True",
     "slots for which the function returned the empty string are kept although the options say to leave them out",
     """
from normalize import Record, Property
from normalize.visitor import VisitorPattern
class R(Record):
    a = Property()
    b = Property()
got = VisitorPattern.visit(R(a="", b=1), ignore_empty_string=True)
assert got == {"b": 1}, got
""")
seed("c33-date-subclass", "C33", "property/types.py",
     "    where=lambda x: not isinstance(x, datetime.datetime),",
     "    where=lambda x: type(x) is datetime.date,",
     "an instance of a subclass of datetime.date",
     "a date is refused by a date property",
     """
import datetime
from normalize import Record
from normalize.property.types import DateProperty
class D(datetime.date):
    pass
class R(Record):
    d = DateProperty()
d = D(2020, 1, 2)
assert R(d=d).d == d
""")
seed("c09-shared-property-lost", "C09", "record/meta.py",
     "                if not attrval.bound:\n",
     "                if not attrval.bound or attrname not in (\n"
     "                        bases[0].properties if bases and\n"
     "                        hasattr(bases[0], 'properties') else {}):\n",
     "an already declared property of one class listed in the body of a class which inherits it from nowhere",
     "declaring the second class steals the property: it is renamed or refused",
     """
from normalize import Record, Property
class A(Record):
    x = Property(isa=int)
class B(Record):
    y = A.properties["x"]
assert A.properties["x"].name == "x", A.properties["x"].name
assert A(x=1).x == 1
""")
seed("c11-state-none", "C11", "record/__init__.py",
     "        return self.__dict__\n",
     "        return dict(\n"
     "            (k, v) for k, v in self.__dict__.items() if v is not None or\n"
     "            type(self).properties[k].eager_init()\n        )\n",
     "a slot of a value whose default is not set, which was set to None, and a copy or pickle",
     "the copy has the slot unset",
     """
import pickle
from normalize import Record, Property
class R(Record):
    a = Property()
    b = Property(default=1)
import __main__
__main__.R = R
r = R(a=None)
c = pickle.loads(pickle.dumps(r))
assert c.a is None
assert c.__dict__ == {"a": None, "b": 1}, c.__dict__
""")
seed("c17-negative-big-ints", "C17", "record/json.py",
     "        return str(record) if abs(record) > 2**50 else record",
     "        return str(record) if record > 2**50 else record",
     "an integer below -2**50", "it is written as a number, which other JSON readers round",
     """
from normalize.record.json import to_json
assert to_json(2 ** 60) == str(2 ** 60)
assert to_json(-2 ** 60) == str(-2 ** 60), to_json(-2 ** 60)
""")
seed("c20-delete-wild-none", "C20", "selector.py",
     "                        sub_field_selector.delete(r)\n                        all_exc = False",
     "                        sub_field_selector.delete(r)\n                        all_exc = None",
     "a wildcard delete where the value is there in an earlier item and missing from a later one",
     "the delete reports failure although it removed something",
     """
from normalize import Record, Property, ListProperty
from normalize.selector import FieldSelector
class I(Record):
    a = Property()
class R(Record):
    xs = ListProperty(of=I)
class J(Record):
    i = Property(isa=I)
class R(Record):
    xs = ListProperty(of=J)
r = R(xs=[J(i=I(a=1)), J()])
FieldSelector(["xs", None, "i", "a"]).delete(r)
assert not hasattr(r.xs[0].i, "a")
""")
seed("c22-path-index-zero", "C22", "selector.py",
     "            if idx_item:\n                fs.append(int(idx_item))\n            elif m.group('wild'):\n                fs.append(None)\n\n    if not popping",
     "            if idx_item and int(idx_item):\n                fs.append(int(idx_item))\n            elif m.group('wild') or idx_item:\n                fs.append(None if m.group('wild') or stack else 0)\n\n    if not popping",
     "a path with the index 0 inside a bracketed branch of a multi-selector path",
     "the index is read as a wildcard",
     """
from normalize.selector import MultiFieldSelector
m = MultiFieldSelector(["a", 0, "x"], ["a", 1, "y"], ["b"])
n = MultiFieldSelector.from_path(m.path)
assert n.path == m.path, (m.path, n.path)
""")
seed("c25-both-identical", "C25", "diff.py",
     "        if propval_a is _nothing and propval_b is _nothing:\n",
     "        if propval_a is propval_b:\n",
     "two records sharing one and the same value object, and unchanged=True",
     "slots which hold the same object are not reported as unchanged",
     """
from normalize import Record, Property
class R(Record):
    a = Property()
v = object()
types = [str(d.diff_type) for d in R(a="x").diff_iter(R(a="x"), unchanged=True)]
assert len(types) == 1, types
""")
seed("c28-fuzzy-one-side", "C28", "diff.py",
     "        if a_pk_seq in remaining_a and b_pk_seq in remaining_b:",
     "        if a_pk_seq in remaining_a or b_pk_seq in remaining_b:",
     "records without a primary key, two of which on each side resemble each other",
     "one record is matched twice, or the comparison fails",
     """
from normalize import Record, Property, ListProperty
class I(Record):
    x = Property(isa=int)
    y = Property(isa=int)
class R(Record):
    xs = ListProperty(of=I)
a = R(xs=[I(x=1, y=1), I(x=1, y=2)])
b = R(xs=[I(x=1, y=3), I(x=1, y=4)])
d = sorted(str(x.diff_type) for x in a.diff_iter(b))
assert len(d) == 2, d
""")
seed("c30-empty-values", "C30", "visitor.py",
     "                if \"values\" in value:\n                    values = value['values']",
     "                if value.get(\"values\"):\n                    values = value['values']",
     "an empty typed collection with slots of its own, visited and cast back",
     "the cast collection has a value of its own named 'values'",
     """
from normalize import Record, Property, ListProperty
from normalize.coll import ListCollection
from normalize.visitor import VisitorPattern
class L(ListCollection):
    itemtype = int
    tag = Property(isa=str)
class R(Record):
    xs = Property(isa=L)
r = R(xs=L(values=[], tag="t"))
dumped = {"xs": {"tag": "t", "values": []}}
back = VisitorPattern.cast(R, dumped)
assert back == r, (back, r)
""")
seed("c31-where-truthy", "C31", "subtype.py",
     "                all(where(instance) for where in cls.where_funcs)",
     "                all(where(instance) is not False for where in cls.where_funcs)",
     "a condition function which answers with a falsy value other than False",
     "values which fail the condition are accepted",
     """
from normalize.subtype import subtype
Odd = subtype("Odd", of=int, where=lambda x: x % 2)
assert isinstance(3, Odd)
assert not isinstance(4, Odd)
""")
seed("c35-positional-repr", "C35", "exc.py",
     "                missing=e.args[0],",
     "                missing=e.args,",
     "an error raised without an argument its format names",
     "the report names the missing argument as a tuple",
     """
import normalize.exc as exc
class X(exc.UsageException):
    message = "{foo}"
try:
    X(bar=1)
except exc.KeywordExceptionFormatError as e:
    assert e.missing == "foo", e.missing
else:
    assert False
""")
