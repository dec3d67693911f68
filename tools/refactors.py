"""Edits which keep the behaviour: the checks have to stay quiet.

    python3 tools/refactors.py DIR [name ...]

applies the edits (all, or the named ones) to the copy of the project in DIR.
"""
import sys, os

R = []


def ref(name, file, *pairs):
    R.append((name, file, pairs))


ref("type_safe_value: coercion in a helper", "property/__init__.py",
    ("""            try:
                new_value = self.coerce(value)
            except exc.SubtypeCoerceError as e:
                # this particular coerce error will be re-caught below,
                # unless the coerce method returned None
                new_value = e.coerced
            except Exception as e:
                raise exc.CoerceError(
                    prop=self,
                    passed=value,
                    exc=e,
                    func=(
                        "%s constructor" % self.coerce.__name__ if
                        isinstance(self.coerce, type) else self.coerce
                    ),
                    valuetype=(
                        "(" + ", ".join(
                            x.__name__ for x in self.valuetype
                        ) + ")" if isinstance(self.valuetype, tuple) else
                        self.valuetype.__name__
                    ),
                )
            if not isinstance(new_value, self.valuetype):
                if _none_ok and new_value is None and not self.required:
                    # allow coerce functions to return 'None' to silently
                    # swallow optional properties on initialization
                    return _none
                else:
                    raise exc.ValueCoercionError(
                        prop=self,
                        passed=value,
                        coerced=new_value,
                    )
            else:
                value = new_value
""", """            new_value = self._coerced(value)
            if isinstance(new_value, self.valuetype):
                value = new_value
            elif not self.required and _none_ok and new_value is None:
                return _none
            else:
                raise exc.ValueCoercionError(
                    prop=self,
                    passed=value,
                    coerced=new_value,
                )
"""),
    ("""    def get_default(self, obj):
        if callable(self.default):
            if self.default_is_method:
                # XXX - only 'lazy' properties should be allowed to do this.
                rv = self.default(obj)
            else:
                rv = self.default()
        else:
            rv = self.default
        return rv
""", """    def _coerced(self, value):
        try:
            return self.coerce(value)
        except exc.SubtypeCoerceError as e:
            return e.coerced
        except Exception as e:
            if isinstance(self.coerce, type):
                func = "%s constructor" % self.coerce.__name__
            else:
                func = self.coerce
            if isinstance(self.valuetype, tuple):
                names = [x.__name__ for x in self.valuetype]
                valuetype = "(" + ", ".join(names) + ")"
            else:
                valuetype = self.valuetype.__name__
            raise exc.CoerceError(
                prop=self, passed=value, exc=e, func=func,
                valuetype=valuetype,
            )

    def get_default(self, obj):
        default = self.default
        if not callable(default):
            return default
        if self.default_is_method:
            return default(obj)
        return default()
"""))
ref("init_prop: early return", "property/__init__.py",
    ("""        new_value = (
            _none if value is _none else
            self.type_safe_value(value, _none_ok=True)
        )

        if new_value is _none:
            if self.required:
                raise exc.PropertyRequired(prop=self)
        else:
            obj.__dict__[self.name] = new_value
""", """        if value is not _none:
            value = self.type_safe_value(value, _none_ok=True)

        if value is not _none:
            obj.__dict__[self.name] = value
        elif self.required:
            raise exc.PropertyRequired(prop=self)
"""))
ref("__get__: try", "property/__init__.py",
    ("""        if self.name not in obj.__dict__:
            return self.attribute_error_hook()
        return obj.__dict__[self.name]

    def slot_is_empty""", """        slots = obj.__dict__
        if self.name in slots:
            return slots[self.name]
        return self.attribute_error_hook()

    def slot_is_empty"""))
ref("coll: enumerate", "coll.py",
    ("""        elif isinstance(coll, collections.abc.Sequence):
            i = 0
            for v in coll:
                yield (i, v)
                i += 1
        elif ((""", """        elif isinstance(coll, collections.abc.Sequence):
            for i, v in enumerate(coll):
                yield (i, v)
        elif (("""),
    ("""            i = 0
            for k in sorted(coll.keys()):
                yield (i, coll[k])
                i += 1
""", """            for i, k in enumerate(sorted(coll.keys())):
                yield i, coll[k]
"""))
ref("coll: update split", "coll.py",
    ("""        for k, v in list(kw.items()):
            values[k] = self.coerce_value(v)
        for k, v in values.items():
            self[k] = v
""", """        for k in kw:
            values[k] = self.coerce_value(kw[k])
        for k, v in list(values.items()):
            self[k] = v
"""))
ref("coll: index", "coll.py",
    ("""        for k in range(i, min(j, len_)):
            if self[k] == x:
                return k
        raise ValueError("%r is not in list" % (x,))
""", """        k, end = i, min(j, len_)
        while k < end:
            if self[k] == x:
                return k
            k += 1
        raise ValueError("%r is not in list" % (x,))
"""))
ref("coll: extend loop", "coll.py",
    ("""        self._values.extend([self.coerce_value(item) for item in iterable])
""", """        new = []
        for item in iterable:
            new.append(self.coerce_value(item))
        self._values.extend(new)
"""))
ref("coll: insert", "coll.py",
    ("""        if i < 0:
            i += len(self)
        if i < 0:
            i = 0
        self[i:i] = (x,)
""", """        if i < 0:
            i = max(0, i + len(self))
        self[i:i] = [x]
"""))
ref("coll: contains/ne", "coll.py",
    ("""        for x in self._values:
            yield x
""", """        return iter(self._values)
"""))
ref("json: property helper", "record/json.py",
    ("""                try:
                    rv_dict[json_name] = to_json(record, extraneous, prop)
                except AttributeError:
                    pass
""", """                try:
                    value = to_json(record, extraneous, prop)
                except AttributeError:
                    continue
                rv_dict[json_name] = value
"""),
    ("""            if not extraneous and prop.extraneous:
                pass
            elif prop.slot_is_empty(record):
                pass
            elif not hasattr(""", """            if prop.extraneous and not extraneous:
                continue
            if prop.slot_is_empty(record):
                continue
            if not hasattr("""))
ref("json: list comprehension", "record/json.py",
    ("""            return dict(
                (k, _json_data(v, extraneous)) for k, v in list(record.items())
            )
        else:
            return list(_json_data(x, extraneous) for x in record)
""", """            return {
                k: _json_data(v, extraneous) for k, v in record.items()
            }
        else:
            return [_json_data(x, extraneous) for x in record]
"""),
    ("""    elif isinstance(record, dict):
        return dict(
            (k, _json_data(v, extraneous)) for k, v in record.items()
        )
""", """    elif isinstance(record, dict):
        rv = {}
        for k, v in record.items():
            rv[k] = _json_data(v, extraneous)
        return rv
"""))
ref("json: initkwargs", "record/json.py",
    ("""    if unknown_keys:
        kwargs["unknown_json_keys"] = dict(
            (k, deepcopy(json_struct[k])) for k in unknown_keys
        )
    return kwargs
""", """    if len(unknown_keys) > 0:
        unknown = {}
        for k in unknown_keys:
            unknown[k] = deepcopy(json_struct[k])
        kwargs["unknown_json_keys"] = unknown
    return kwargs
"""),
    ("""            json_name = prop.json_name
            if json_name is not None:
                if json_name in json_struct:
                    if propname not in kwargs:
                        try:
                            kwargs[propname] = _json_to_value_initializer(
                                prop.from_json(
                                    json_struct[json_name]
                                ),
                                prop.valuetype,
                            )
                        except Exception as e:
                            raise _box_ingress_error(json_name, e)
                    unknown_keys.discard(json_name)
""", """            json_name = prop.json_name
            if json_name is None or json_name not in json_struct:
                continue
            unknown_keys.discard(json_name)
            if propname in kwargs:
                continue
            try:
                json_val = prop.from_json(json_struct[json_name])
                kwargs[propname] = _json_to_value_initializer(
                    json_val, prop.valuetype,
                )
            except Exception as e:
                raise _box_ingress_error(json_name, e)
"""))
ref("json: JsonRecordList helper", "record/json.py",
    ("""            if hasattr(member_type, "from_json"):
                for i, x in cls.coll_to_tuples(json_struct):
                    try:
                        values.append(
                            x if isinstance(x, member_type) else
                            member_type.from_json(x)
                        )
                    except Exception as e:
                        raise _box_ingress_error(i, e)

            elif issubclass(member_type, Record):
                for i, x in cls.coll_to_tuples(json_struct):
                    try:
                        values.append(
                            x if isinstance(x, member_type) else
                            from_json(member_type, x)
                        )
                    except Exception as e:
                        raise _box_ingress_error(i, e)
            else:
                kwargs['values'] = json_struct
""", """            if hasattr(member_type, "from_json"):
                convert = member_type.from_json
            elif issubclass(member_type, Record):
                def convert(x):
                    return from_json(member_type, x)
            else:
                convert = None
            if convert is None:
                kwargs['values'] = json_struct
            else:
                for i, x in cls.coll_to_tuples(json_struct):
                    if not isinstance(x, member_type):
                        try:
                            x = convert(x)
                        except Exception as e:
                            raise _box_ingress_error(i, e)
                    values.append(x)
"""))
ref("diff: slot pair helper", "diff.py",
    ("""        elif one_side_nothing:
            yield DiffInfo(
                diff_type=(
                    DiffTypes.ADDED if propval_a is _nothing else
                    DiffTypes.REMOVED
                ),
                base=fs_a + [propname],
                other=fs_b + [propname],
            )

        elif not options.items_equal(propval_a, propval_b):
            yield DiffInfo(
                diff_type=DiffTypes.MODIFIED,
                base=fs_a + [propname],
                other=fs_b + [propname],
            )

        elif options.unchanged:
            yield DiffInfo(
                diff_type=DiffTypes.NO_CHANGE,
                base=fs_a + [propname],
                other=fs_b + [propname],
            )
""", """        else:
            if one_side_nothing:
                found = (
                    DiffTypes.REMOVED if propval_b is _nothing else
                    DiffTypes.ADDED
                )
            elif not options.items_equal(propval_a, propval_b):
                found = DiffTypes.MODIFIED
            elif options.unchanged:
                found = DiffTypes.NO_CHANGE
            else:
                found = None
            if found is not None:
                yield DiffInfo(
                    diff_type=found,
                    base=prop_fs_a,
                    other=prop_fs_b,
                )
"""))
ref("diff: two loops for one side", "diff.py",
    ("""            for diff in _diff_iter(
                propval_a, propval_b, prop_fs_a,
                prop_fs_b, options,
            ):
                if one_side_nothing:
                    if diff.diff_type != DiffTypes.NO_CHANGE:
                        diff_types_found.add(diff.diff_type)
                else:
                    yield diff
""", """            diffs = _diff_iter(
                propval_a, propval_b, prop_fs_a, prop_fs_b, options,
            )
            for diff in diffs:
                if not one_side_nothing:
                    yield diff
                elif diff.diff_type != DiffTypes.NO_CHANGE:
                    diff_types_found.add(diff.diff_type)
"""))
ref("diff: generator of items", "diff.py",
    ("""            i = 0
            for item in collection:
                yield (i, item)
                i += 1

    else:
""", """            for pair in enumerate(collection):
                yield pair

    else:
"""))
ref("selector: get with enumerate", "selector.py",
    ("""        i = 0
        for selector in self.selectors:
            if selector is None:
                sub_field_selector = type(self)(self.selectors[i + 1:])
                rv = []
                all_exc = None
""", """        for i, selector in enumerate(self.selectors):
            if selector is None:
                sub_field_selector = type(self)(self.selectors[i + 1:])
                rv = []
                all_exc = None
"""),
    ("""                record = getattr(record, selector)
            i = i + 1
        return record

    def get_or_none""", """                record = getattr(record, selector)
        return record

    def get_or_none"""))
ref("selector: put helper", "selector.py",
    ("""        if len(self.selectors) == 1:
            selector = self.selectors[0]
            if selector is None:
                record[:] = value
""", """        selector = self.selectors[0]
        last = len(self.selectors) == 1
        if last:
            if selector is None:
                record[:] = value
"""),
    ("""        else:
            selector = self.selectors[0]
            sub_selector = type(self)(self.selectors[1:])
            if selector is None:
                for x in record:
                    sub_selector.put(x, value)
""", """        else:
            sub_selector = type(self)(self.selectors[1:])
            if selector is None:
                for x in record:
                    sub_selector.put(x, value)
"""))
ref("record: __eq__ as all()", "record/__init__.py",
    ("""        for propname, prop in type(self).properties.items():
            if not prop.extraneous:
                if getattr(self, propname, _Unset) != getattr(
                    other, propname, _Unset
                ):
                    return False
        return True
""", """        for propname, prop in type(self).properties.items():
            if prop.extraneous:
                continue
            mine = getattr(self, propname, _Unset)
            theirs = getattr(other, propname, _Unset)
            if mine != theirs:
                return False
        return True
"""))
ref("record: __init__", "record/__init__.py",
    ("""        for prop, val in init_dict.items():
            meta_prop = type(self).properties.get(prop, None)
            if meta_prop is None:
                raise""", """        properties = type(self).properties
        for prop, val in init_dict.items():
            if prop in properties:
                meta_prop = properties[prop]
            else:
                raise"""),
    ("""        missing = type(self).eager_properties - set(init_dict.keys())

        for propname in missing:
            meta_prop = type(self).properties[propname]
            meta_prop.init_prop(self)
""", """        for propname in type(self).eager_properties:
            if propname not in init_dict:
                properties[propname].init_prop(self)
"""))
ref("record: repr", "record/__init__.py",
    ("""        for propname in sorted(type(self).properties):
            if propname not in self.__dict__:
                continue
            else:
                values.append("%s=%r" % (propname, self.__dict__[propname]))
""", """        for propname in sorted(type(self).properties):
            if propname in self.__dict__:
                values.append("%s=%r" % (propname, self.__dict__[propname]))
"""))
ref("selector: delete", "selector.py",
    ("""        i = 0
        for selector in self.selectors[:-1]:
            if selector is None:
                sub_field_selector = type(self)(self.selectors[i + 1:])
                all_exc = None
                for r in record:
                    try:""", """        path = self.selectors[:-1]
        for i in range(len(path)):
            selector = path[i]
            if selector is None:
                sub_field_selector = type(self)(self.selectors[i + 1:])
                all_exc = None
                for r in record:
                    try:"""),
    ("""                record = getattr(record, selector)
            i = i + 1
        to_delete""", """                record = getattr(record, selector)
        to_delete"""))
ref("selector: lt", "selector.py",
    ("""        end = len(self.selectors)
        if len(self.selectors) > len(other.selectors):
            end = len(other.selectors)
        for i in range(end):
""", """        for i in range(min(len(self.selectors), len(other.selectors))):
"""))
ref("selector: mfs get", "selector.py",
    ("""            if self.has_none:
                tail = self.heads[None]
                vals = list(self._get(x, tail) for x in obj)
            else:
                vals = list(
                    self._get(obj[head], tail) for head, tail in
                    sorted(self.heads.items())
                )
""", """            if not self.has_none:
                vals = [
                    self._get(obj[head], self.heads[head])
                    for head in sorted(self.heads)
                ]
            else:
                tail = self.heads[None]
                vals = []
                for x in obj:
                    vals.append(self._get(x, tail))
"""),
    ("""                kwargs = dict()
                for head, tail in self.heads.items():
                    val = getattr(obj, head, None)
                    if val is not None:
                        kwargs[head] = self._get(val, tail)
                return ctor(**kwargs)
""", """                kwargs = {}
                for head in self.heads:
                    val = getattr(obj, head, None)
                    if val is None:
                        continue
                    kwargs[head] = self._get(val, self.heads[head])
                return ctor(**kwargs)
"""))
ref("selector: mfs getitem", "selector.py",
    ("""            head_index = None if self.has_none else index[0]
            tail = index[1:]
            if self.complete:
                return self
            elif head_index not in self.heads:
                return None

            head = self.heads[head_index]
            if head is all:
                return type(self).complete_mfs()
            elif tail:
                return head[tail]
            else:
                return head
""", """            head = self.heads.get(None if self.has_none else index[0])
            if head is None:
                return None
            if head is all:
                return type(self).complete_mfs()
            tail = index[1:]
            return head[tail] if tail else head
"""))
ref("selector: patch", "selector.py",
    ("""        fs_val = []
        for fs in self:
            try:
                fs_val.append((fs, fs.get(source)))
            except AttributeError:
                fs_val.append((fs, _None))
            except FieldSelectorException:
                raise
""", """        fs_val = []
        for fs in self:
            try:
                val = fs.get(source)
            except AttributeError:
                val = _None
            fs_val.append((fs, val))
"""))
ref("subtype: instancecheck", "subtype.py",
    ("""        try:
            ok = isinstance(instance, cls.of) and (
                all(where(instance) for where in cls.where_funcs)
            )
        except:
            ok = False
        return ok
""", """        try:
            if not isinstance(instance, cls.of):
                return False
            for where in cls.where_funcs:
                if not where(instance):
                    return False
            return True
        except:
            return False
"""))
ref("visitor: reduce", "visitor.py",
    ("""        if issubclass(value_type, Collection) and aggregated is not None:
            if all(visitor.is_filtered(prop) for prop in
                   list(value_type.properties.values())):
                reduced = aggregated
            else:
                if reduced.get("values", False):
                    raise exc.VisitorTooSimple(
                        fs=visitor.field_selector,
                        value_type_name=value_type.__name__,
                        visitor=type(self).__name__,
                    )
                else:
                    reduced['values'] = aggregated

        return reduced
""", """        if not issubclass(value_type, Collection) or aggregated is None:
            return reduced
        if all(visitor.is_filtered(prop)
               for prop in value_type.properties.values()):
            return aggregated
        if reduced.get("values", False):
            raise exc.VisitorTooSimple(
                fs=visitor.field_selector,
                value_type_name=value_type.__name__,
                visitor=type(self).__name__,
            )
        reduced['values'] = aggregated
        return reduced
"""))
ref("visitor: produce", "visitor.py",
    ("""        kwargs = {} if not mapped_props else dict(
            (k.name, v) for k, v in mapped_props
        )
        if""", """        kwargs = {}
        if mapped_props:
            for k, v in mapped_props:
                kwargs[k.name] = v
        if"""))
ref("visitor: unpack", "visitor.py",
    ("""        if issubclass(value_type, Record):
            def propget(prop):
                return prop.__get__(value)
        else:
            propget = None

        return propget, generator
""", """        propget = None
        if issubclass(value_type, Record):
            propget = lambda prop: prop.__get__(value)

        return propget, generator
"""))
ref("identity: none first", "identity.py",
    ("""        val = getattr(object_, prop.name, None)
        if normalize_object_slot:
            val = normalize_object_slot(val, prop, object_)
        _none = (
            normalize_object_slot(None, prop, object_) if
            normalize_object_slot else None
        )
""", """        val = getattr(object_, prop.name, None)
        _none = None
        if normalize_object_slot:
            val = normalize_object_slot(val, prop, object_)
            _none = normalize_object_slot(None, prop, object_)
"""))


# a second set (some of them meet functions of the first)
SECOND = len(R)
ref("2: property setter through a helper", "property/__init__.py",
    ("""        """ + '"""' + """This setter checks the type of the value before allowing it to be
        set.""" + '"""' + """
        obj.__dict__[self.name] = self.type_safe_value(value)

    def __delete__""", """        """ + '"""' + """This setter checks the type of the value before allowing it to be
        set.""" + '"""' + """
        self._store(obj, self.type_safe_value(value))

    def _store(self, obj, value):
        obj.__dict__[self.name] = value

    def __delete__"""),
    ("""        if self.name not in obj.__dict__:
            raise AttributeError(self.fullname)
        del obj.__dict__[self.name]
""", """        slots = obj.__dict__
        if self.name in slots:
            del slots[self.name]
        else:
            raise AttributeError(self.fullname)
"""),
    ("""        if self.name not in obj.__dict__ and self.default is not _none:
            value = self.get_default(obj)
            obj.__dict__[self.name] = self.type_safe_value(value)
""", """        slots = obj.__dict__
        if self.default is not _none and self.name not in slots:
            slots[self.name] = self.type_safe_value(self.get_default(obj))
"""),
    ("""        try:
            super().__set__(obj, value)
        except exc.CoercionError:
            if value is None or value == self.v1_none:
                if self.name in obj.__dict__ or self.required:
                    self.__delete__(obj)
            else:
                raise
""", """        try:
            super().__set__(obj, value)
        except exc.CoercionError:
            if value is not None and value != self.v1_none:
                raise
            if self.required or self.name in obj.__dict__:
                self.__delete__(obj)
"""))
ref("2: options by keyword", "diff.py",
    ("""                propval_a, propval_b, prop_fs_a,
                prop_fs_b, options,
            ):""", """                propval_a, propval_b, fs_a=prop_fs_a,
                fs_b=prop_fs_b, options=options,
            ):"""),
    ("""            generators.append(func(base, other, fs_a, fs_b, options=options))
""", """            generators.append(func(base, other, fs_a, fs_b, options))
"""),
    ("""        if value is not _nothing and hasattr(prop, "compare_as"):
            method, nargs = getattr(prop, "compare_as_info", (False, 1))
            args = []
            if method:
                args.append(obj)
            if nargs:
                args.append(value)
            value = prop.compare_as(*args)
        return self.normalize_slot(value, prop)
""", """        if value is _nothing or not hasattr(prop, "compare_as"):
            return self.normalize_slot(value, prop)
        method, nargs = getattr(prop, "compare_as_info", (False, 1))
        args = [obj] if method else []
        if nargs:
            args = args + [value]
        return self.normalize_slot(value=prop.compare_as(*args), prop=prop)
"""),
    ("""        if isinstance(value, str):
            value = self.normalize_text(value)
        if self.ignore_empty_slots and self.value_is_empty(value):
            value = _nothing
        return value
""", """        result = self.normalize_text(value) if isinstance(value, str) else value
        if self.ignore_empty_slots and self.value_is_empty(result):
            return _nothing
        return result
"""),
    ("""        if not self.extraneous and prop.extraneous:
            return True
        return self.compare_filter and not self.compare_filter[fs]
""", """        if prop.extraneous and not self.extraneous:
            return True
        if not self.compare_filter:
            return False
        return not self.compare_filter[fs]
"""),
    ("""    if options is None:
        options = DiffOptions(**kwargs)
    elif len(kwargs):
        raise exc.DiffOptionsException()
""", """    if options is not None:
        if kwargs:
            raise exc.DiffOptionsException()
    else:
        options = DiffOptions(**kwargs)
"""))
ref("2: plain lists", "diff.py",
    ("""    removed_idx = set(indices['a'][v, seq] for v, seq in removed)
    added_idx = set(indices['b'][v, seq] for v, seq in added)
    modified_idx = set(removed_idx.intersection(added_idx))

    for v, seq in removed:
        a_key = indices['a'][v, seq]
        if a_key in modified_idx:
            continue
        selector = fs_a + [a_key]
        yield DiffInfo(
            diff_type=DiffTypes.REMOVED,
            base=selector,
            other=fs_b,
        )
""", """    removed_idx = {indices['a'][item] for item in removed}
    added_idx = {indices['b'][item] for item in added}
    modified_idx = removed_idx & added_idx

    for item in removed:
        a_key = indices['a'][item]
        if a_key not in modified_idx:
            yield DiffInfo(
                diff_type=DiffTypes.REMOVED,
                base=fs_a + [a_key],
                other=fs_b,
            )
"""))
ref("2: plain dicts", "diff.py",
    ("""    for x in "a", "b":
        propval_x = propvals[x]
        vals = values[x] = set()
        rev_key = rev_keys[x] = dict()
        seen = collections.Counter()
        for k, v in collection_generator(propval_x):
            v = options.normalize_item(
                v, propval_a if options.duck_type else propval_x
            )
            v = _hashable(v)
            if v is not _nothing or not options.ignore_empty_slots:
                vals.add((v, seen[v]))
                rev_key[(v, seen[v])] = k
                seen[v] += 1

    removed = values['a'] - values['b']
    added = values['b'] - values['a']

    if options.moved or options.unchanged:
        unchanged = values['a'] & values['b']
        for v, seq in unchanged:
            a_key = rev_keys['a'][v, seq]
""", """    for x in ("a", "b"):
        propval_x = propvals[x]
        values[x] = set()
        rev_keys[x] = {}
        seen = collections.Counter()
        for k, v in collection_generator(propval_x):
            v = _hashable(options.normalize_item(
                v, propval_a if options.duck_type else propval_x
            ))
            if v is _nothing and options.ignore_empty_slots:
                continue
            pk = (v, seen[v])
            values[x].add(pk)
            rev_keys[x][pk] = k
            seen[v] += 1

    removed = values['a'] - values['b']
    added = values['b'] - values['a']

    if options.unchanged or options.moved:
        for v, seq in values['a'] & values['b']:
            a_key = rev_keys['a'][v, seq]
"""))
ref("2: visitor map", "visitor.py",
    ("""            if visitor.apply_empty_slots or not isinstance(
                value, (KeyError, AttributeError),
            ):
                mapped = cls.map_prop(rv, value, prop)
                if mapped is None and rv.ignore_none:
                    pass
                elif mapped == "" and rv.ignore_empty_string:
                    pass
                else:
                    yield prop, mapped
            rv.pop(name)
""", """            is_empty = isinstance(value, (KeyError, AttributeError))
            if not is_empty or visitor.apply_empty_slots:
                mapped = cls.map_prop(rv, value, prop)
                if not cls._ignored(rv, mapped):
                    yield prop, mapped
            rv.pop(name)

    @classmethod
    def _ignored(cls, visitor, mapped):
        if mapped is None and visitor.ignore_none:
            return True
        return visitor.ignore_empty_string and mapped == ""
"""),
    ("""            mapped = cls.map(rv, value, coll_type.itemtype)
            rv.pop(key)
            if mapped is None and visitor.ignore_none:
                pass
            elif mapped == "" and visitor.ignore_empty_string:
                pass
            else:
                yield key, mapped
""", """            mapped = cls.map(rv, value, coll_type.itemtype)
            rv.pop(key)
            if cls._ignored(visitor, mapped):
                continue
            yield key, mapped
"""),
    ("""        mapped = None

        # XXX - this fallback here is type-unsafe, and exists only for
        # those who don't declare their isa= for complex object types.
        value_type = prop.valuetype or type(value)

        if isinstance(value, (AttributeError, KeyError)):
            # apply_empty_slots: there is nothing to unpack
            mapped = visitor.apply(value, prop, visitor)
        elif isinstance(value_type, tuple):
            mapped = cls.map_type_union(
                visitor, value, value_type, prop,
            )
        elif issubclass(value_type, Record):
            mapped = cls.map(visitor, value, value_type)
        else:
            mapped = visitor.apply(value, prop, visitor)

        return mapped
""", """        if isinstance(value, (AttributeError, KeyError)):
            return visitor.apply(value, prop, visitor)

        value_type = prop.valuetype or type(value)
        if isinstance(value_type, tuple):
            return cls.map_type_union(
                visitor=visitor, value=value, type_tuple=value_type,
                prop=prop,
            )
        if not issubclass(value_type, Record):
            return visitor.apply(value, prop, visitor)
        return cls.map(visitor, value, value_type)
"""),
    ("""        # recurse into values for collections
        if coll:
            coll_map_generator = cls.map_collection(
                visitor, coll, value_type,
            )
            mapped_coll = visitor.collect(
                coll_map_generator, value_type, visitor,
            )
        else:
            mapped_coll = None

        # recurse into regular properties
        mapped_props = None
        if props:
            mapped_props = cls.map_record(visitor, props, value_type)
        elif mapped_coll is None:
            return visitor.apply(value, None, visitor)
""", """        mapped_coll = None
        if coll:
            mapped_coll = visitor.collect(
                cls.map_collection(visitor, coll, value_type),
                value_type, visitor,
            )

        if not props and mapped_coll is None:
            return visitor.apply(value, None, visitor)
        mapped_props = (
            cls.map_record(visitor, props, value_type) if props else None
        )
"""))
ref("2: selector add", "selector.py",
    ("""        if isinstance(other, (str, int)):
            return type(self)(self.selectors + [other])
        elif isinstance(other, collections.abc.Iterable):
            return type(self)(self.selectors + list(other))
""", """        if isinstance(other, (str, int)):
            other = [other]
        if isinstance(other, collections.abc.Iterable):
            return type(self)(self.selectors + list(other))
"""),
    ("""            return len(key_or_fs) <= len(self.selectors) and all(
                key_or_fs[i] == self.selectors[i] for i in range(
                    0, len(key_or_fs),
                )
            )
""", """            if len(key_or_fs) > len(self.selectors):
                return False
            for i in range(len(key_or_fs)):
                if key_or_fs[i] != self.selectors[i]:
                    return False
            return True
"""),
    ("""        for head, tail in self.heads.items():
            head_selector = self.FieldSelector((head,))
            if tail is all:
                if head is None:
                    yield self.FieldSelector((None,))
                else:
                    yield head_selector
            else:
                for x in tail:
                    yield head_selector + x
""", """        for head, tail in self.heads.items():
            head_selector = self.FieldSelector((head,))
            if tail is all:
                yield head_selector
                continue
            for x in tail:
                yield head_selector + x
"""),
    ("""        for fs in sorted(
            self, reverse=True, key=lambda fs: [
                x if isinstance(x, int) else -1 for x in fs.selectors
            ],
        ):
            try:
                fs.delete(obj)
            except FieldSelectorException:
                pass
""", """        def position(fs):
            return [x if isinstance(x, int) else -1 for x in fs.selectors]

        for fs in sorted(self, key=position, reverse=True):
            try:
                fs.delete(obj)
            except FieldSelectorException:
                continue
"""),
    ("""        if tail is all:
            return deepcopy(obj)
        else:
            return tail.get(obj)
""", """        return tail.get(obj) if tail is not all else deepcopy(obj)
"""))
ref("2: collections", "coll.py",
    ("""        if isinstance(v, cls.itemtype):
            return v
        else:
            try:
                return cls.coerceitem(v)
            except Exception as e:
                raise exc.CollectionItemCoerceError(
                    itemtype=cls.itemtype,
                    colltype=cls,
                    passed=v,
                    exc=e,
                )
""", """        if isinstance(v, cls.itemtype):
            return v
        try:
            coerced = cls.coerceitem(v)
        except Exception as e:
            raise exc.CollectionItemCoerceError(
                itemtype=cls.itemtype, colltype=cls, passed=v, exc=e,
            )
        return coerced
"""),
    ("""        # coerce collections derived from simple python collection types
        if not isinstance(other, type(self)) and \\
                isinstance(other, self.colltype):
            try:
                other = type(self)(other)
            except exc.CoercionError:
                return False
        return self.itemtype == getattr(other, "itemtype", None) and \\
            self._values == getattr(other, "_values", None)
""", """        cls = type(self)
        if isinstance(other, self.colltype) and not isinstance(other, cls):
            try:
                other = cls(other)
            except exc.CoercionError:
                return False
        if self.itemtype != getattr(other, "itemtype", None):
            return False
        return self._values == getattr(other, "_values", None)
"""),
    ("""        tuples = cls.coerce_tuples(generator) if coerce else generator
        return cls.colltype(v for k, v in tuples)
""", """        if coerce:
            generator = cls.coerce_tuples(generator)
        return cls.colltype([v for k, v in generator])
"""),
    ("""        if i < 0:
            i += len(self)
            if i < 0:
                raise IndexError("pop index out of range")
        x = self[i]
        del self[i]
        return x
""", """        if i < 0:
            i = len(self) + i
            if i < 0:
                raise IndexError("pop index out of range")
        value = self._values[i]
        del self._values[i]
        return value
"""),
    ("""            self._values[key] = (self.coerce_value(item) for item in value)
""", """            self._values[key] = [self.coerce_value(item) for item in value]
"""))
ref("2: json", "record/json.py",
    ("""    if type(x) in has_json_data and has_json_data[type(x)]:
        if json_data_takes_extraneous[type(x)]:
""", """    if has_json_data.get(type(x), False):
        if json_data_takes_extraneous[type(x)]:
"""),
    ("""        if hasattr(self, "unknown_json_keys"):
            prop = type(self).properties['unknown_json_keys']
            if extraneous or not prop.extraneous:
                for k, v in self.unknown_json_keys.items():
                    if k not in jd:
                        jd[k] = to_json(v, extraneous)
        return jd
""", """        if not hasattr(self, "unknown_json_keys"):
            return jd
        prop = type(self).properties['unknown_json_keys']
        if extraneous or not prop.extraneous:
            unknown = self.unknown_json_keys
            for k in unknown:
                if k not in jd:
                    jd[k] = to_json(unknown[k], extraneous)
        return jd
"""),
    ("""    json_struct = _decode_and_parse_json(json_struct)
    if issubclass(record_type, JsonRecord):
        return record_type(json_struct)

    elif issubclass(record_type, Record):
        # do what the default JsonRecord __init__ does
        init_kwargs = json_to_initkwargs(record_type, json_struct)
        instance = record_type(**init_kwargs)
        return instance
    else:
        raise exc.CastTypeError(badtype=record_type)
""", """    if not issubclass(record_type, Record):
        _decode_and_parse_json(json_struct)
        raise exc.CastTypeError(badtype=record_type)
    json_struct = _decode_and_parse_json(json_struct)
    if issubclass(record_type, JsonRecord):
        return record_type(json_struct)
    return record_type(**json_to_initkwargs(record_type, json_struct))
"""))


def main():
    root, names = sys.argv[1], sys.argv[2:]
    which = R
    if names[:1] in (['1'], ['2']):
        which = R[:SECOND] if names.pop(0) == '1' else R[SECOND:]
    for name, file, pairs in which:
        if names and not any(name.startswith(n) for n in names):
            continue
        p = os.path.join(root, "normalize", file)
        s = open(p).read()
        for old, new in pairs:
            if s.count(old) != 1:
                raise SystemExit("%s: matches %d times" % (name, s.count(old)))
            s = s.replace(old, new)
        open(p, "w").write(s)


if __name__ == "__main__":
    main()
