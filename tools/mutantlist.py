S = 'selector.py'
MUTANTS = [
    ('get: missing values left out of the list', S,
     "                    rv.append(val)\n", "                    if val is not None: rv.append(val)\n",
     ['selector reads']),
    ('get: last failure decides', S,
     "                        if all_exc is None:\n                            all_exc = e\n                    rv",
     "                        all_exc = e\n                    rv", ['selector reads']),
    ('get: sub-selector includes the step itself', S,
     "                sub_field_selector = type(self)(self.selectors[i + 1:])\n                rv",
     "                sub_field_selector = type(self)(self.selectors[i:])\n                rv", ['selector reads']),
    ('get: wrong key in error', S,
     "raise FieldSelectorKeyError(key=selector)\n            else:\n                if not hasattr(record, selector):\n                    raise FieldSelectorAttributeError(name=selector)\n                record = getattr(record, selector)\n            i = i + 1\n        return record",
     "raise FieldSelectorKeyError(key=i)\n            else:\n                if not hasattr(record, selector):\n                    raise FieldSelectorAttributeError(name=selector)\n                record = getattr(record, selector)\n            i = i + 1\n        return record", ['selector reads']),
    ('get: missing attribute is none', S,
     "                if not hasattr(record, selector):\n                    raise FieldSelectorAttributeError(name=selector)\n                record = getattr(record, selector)\n            i = i + 1\n        return record",
     "                record = getattr(record, selector, None)\n            i = i + 1\n        return record", ['selector reads']),
    ('get_or_none: swallows all', S, "        except FieldSelectorException:\n            return None",
     "        except Exception:\n            return None", ['reads or gives']),
    ('put: wildcard stops after first', S, "                    sub_selector.put(x, value)\n",
     "                    sub_selector.put(x, value)\n                    break\n", ['selector writes']),
    ('put: swallows item errors', S, "                    sub_selector.put(x, value)\n",
     "                    try: sub_selector.put(x, value)\n                    except FieldSelectorException: pass\n", ['selector writes']),
    ('put: steps lost', S, "sub_selector = type(self)(self.selectors[1:])", "sub_selector = type(self)(self.selectors[-1:])", ['selector writes']),
    ('put: setattr before index', S, "            elif _try_index(record, selector):\n                try:\n                    record[selector] = value",
     "            elif not hasattr(record, selector) and _try_index(record, selector):\n                try:\n                    record[selector] = value", ['selector writes']),
    ('delete: clears attr', S, "            if hasattr(record, to_delete):\n                delattr(record, to_delete)",
     "            if hasattr(record, to_delete):\n                setattr(record, to_delete, None)", ['selector deletes']),
    ('delete: success forgotten', S, "                        sub_field_selector.delete(r)\n                        all_exc = False",
     "                        sub_field_selector.delete(r)", ['selector deletes']),
    ('delete: stop at first failure', S, "                    except FieldSelectorException as e:\n                        if all_exc is None:\n                            all_exc = e\n                if all_exc:\n                    raise all_exc\n                else:\n                    return\n",
     "                    except FieldSelectorException as e:\n                        if all_exc is None:\n                            all_exc = e\n                        break\n                if all_exc:\n                    raise all_exc\n                else:\n                    return\n", ['selector deletes']),
    ('try_index: lists keyed by name', S, "            selector in type(instance).properties):", "            selector in type(instance).properties) and False:", ['index or attr']),
    ('eq ignores length', S, "        return self.selectors == other.selectors\n\n    def __hash__", "        return all(a == b for a, b in zip(self.selectors, other.selectors))\n\n    def __hash__", ['comparing selectors']),
    ('extend aliases', S, "        self.selectors.extend(other.selectors)\n        return self", "        self.selectors = other.selectors\n        return self", ['extending a sel']),
    ('copy shares steps', S, "            self.selectors = expr_selectors[:]", "            self.selectors = expr_selectors", ['selector from steps']),
    ('lt: length first', S, "        for i in range(end):\n", "        if len(self.selectors) < len(other.selectors): return True\n        for i in range(end):\n", ['ordering sel']),
    ('startswith longer', S, "            return len(key_or_fs) <= len(self.selectors) and all(", "            return all(", ['prefixes of']),
    ('getitem slice drops none', S, "            return type(self)(self.selectors[key])", "            return type(self)([x for x in self.selectors[key] if x is not None])", ['slices and']),
    ('add mutates self', S, "            return type(self)(self).extend(other)", "            return self.extend(other)", ['adding to']),
    # multiple selectors
    ('mfs: step under wildcard', S, "tail = self.heads.get(None if self.has_none else index, None)", "tail = self.heads.get(index, None)", ['a step of a multiple']),
    ('mfs: complete ignores sequence', S, "            if len(index) == 0:\n                return self\n            head_index = None if self.has_none else index[0]", "            head_index = None if self.has_none else index[0]", ['steps of a multiple']),
    ('mfs: contains any prefix', S, "        elif len(index) == 0:\n            return self.complete\n", "        elif len(index) == 0:\n            return True\n", ['steps of a multiple']),
    ('mfs: iter drops wildcard', S, "                if head is None:\n                    yield self.FieldSelector((None,))\n                else:", "                if head is not None:", ['selectors of a multiple']),
    ('mfs: iter no head', S, "                    yield head_selector + x\n", "                    yield x\n", ['selectors of a multiple']),
    ('mfs get: list order', S, "sorted(self.heads.items())", "self.heads.items()", ['filtered get']),
    ('mfs get: whole list', S, "vals = list(self._get(x, tail) for x in obj)", "vals = list(self._get(x, tail) for x in obj if x is not None)", ['filtered get']),
    ('mfs get: dict copy', S, "                return ctor(\n                    (k, self._get(v, tail)) for k, v in obj.items()\n                )", "                return ctor(\n                    (k, v) for k, v in obj.items()\n                )", ['filtered get']),
    ('mfs get: falsy left out', S, "                    if val is not None:\n                        kwargs[head] = self._get(val, tail)", "                    if val:\n                        kwargs[head] = self._get(val, tail)", ['filtered get']),
    ('mfs get: no tail', S, "kwargs[head] = self._get(val, tail)", "kwargs[head] = self._get(val, all)", ['filtered get']),
    ('mfs get: list shared', S, "            return deepcopy(obj)\n        else:\n            return tail.get(obj)", "            return obj\n        else:\n            return tail.get(obj)", ['what lies below']),
    ('mfs get: int allowed', S, "            if self.has_int or (self.has_none and self.heads[None] is not all):\n                raise", "            if self.has_int and (self.has_none and self.heads[None] is not all):\n                raise", ['filtered get']),
    ('mfs delete: lowest first', S, "            self, reverse=True, key=lambda fs: [", "            self, key=lambda fs: [", ['filtered delete']),
    ('mfs delete: no precheck', S, "        if not force:\n            for fs in self:", "        if force:\n            for fs in self:", ['filtered delete']),
    ('mfs delete: swallow all', S, "                fs.delete(obj)\n            except FieldSelectorException:", "                fs.delete(obj)\n            except Exception:", ['filtered delete']),
    ('mfs patch: interleaved', S, "                fs_val.append((fs, fs.get(source)))", "                fs_val.append((fs, fs.get(source)))\n                fs.post(target, fs_val[-1][1])", ['filtered patch']),
    ('mfs patch: none deletes', S, "            if val is _None:\n", "            if val is _None or val is None:\n", ['filtered patch']),
    ('mfs patch: copy ignored', S, "fs.post(target, val if not copy else copy(val))", "fs.post(target, val)", ['filtered patch']),
]
D = 'diff.py'
RECS = ['two records slot by slot', 'a record removed, slot by slot', 'a record added, slot by slot']
MUTANTS += [
    ('diff: filter ignores position', D, "options.is_filtered(prop, fs_a + propname)", "options.is_filtered(prop, fs_a)", RECS[:1]),
    ('diff: missing as removed', D, "DiffTypes.ADDED if propval_a is _nothing else\n                    DiffTypes.REMOVED", "DiffTypes.REMOVED if propval_a is _nothing else\n                    DiffTypes.ADDED", RECS[:1]),
    ('diff: other position', D, "                diff_type=DiffTypes.MODIFIED,\n                base=fs_a + [propname],\n                other=fs_b + [propname],", "                diff_type=DiffTypes.MODIFIED,\n                base=fs_a + [propname],\n                other=fs_a + [propname],", RECS[:1]),
    ('diff: slot of b normalised with a', D, "getattr(b, propname, _nothing), prop, b,", "getattr(b, propname, _nothing), prop, a,", RECS[:1]),
    ('diff: below with positions swapped', D, "propval_a, propval_b, prop_fs_a,\n                prop_fs_b, options,", "propval_a, propval_b, prop_fs_b,\n                prop_fs_a, options,", RECS[:1]),
    ('diff: duck type only', D, "types_match or options.duck_type or (\n                options.ignore_empty_slots and one_side_nothing\n            )", "types_match or options.duck_type", RECS),
    ('diff: equality of classes', D, "type(a) != type(b) and not (", "type(a) != type(b) and (", RECS[:1]),
    ('diff: unchanged below one side', D, "                elif options.unchanged:\n                    net_diff = DiffTypes.NO_CHANGE\n", "", RECS),
    ('diff: net difference includes no change', D, "if diff.diff_type != DiffTypes.NO_CHANGE:\n                        diff_types", "if True:\n                        diff_types", RECS),
    ('diff: equality by ==', D, "not options.items_equal(propval_a, propval_b)", "not propval_a == propval_b", RECS[:1]),
    ('diff: none on both sides only one', D, "if propval_a is _nothing and propval_b is _nothing:", "if propval_a is _nothing or propval_b is _nothing:", RECS[:1]),
    ('diff: other props', D, "type(a).properties if a is not _nothing else type(b).properties", "type(b).properties if b is not _nothing else type(a).properties", RECS[:1]),
]

PL = ['two plain lists']
MUTANTS += [
    ('plain: rank of the other', D, "            if v is not _nothing or not options.ignore_empty_slots:\n                vals.add((v, seen[v]))\n                rev_key[(v, seen[v])] = i", "            if v is not _nothing or not options.ignore_empty_slots:\n                vals.add((v, seen[v]))\n                rev_key[(v, 0)] = i", PL),
    ('plain: no ranks', D, "                rev_key[(v, seen[v])] = i\n                seen[v] += 1", "                rev_key[(v, seen[v])] = i", PL),
    ('plain: unchanged only when asked for moved', D, "if options.unchanged or options.moved:", "if options.moved:", PL),
    ('plain: modified of either', D, "modified_idx = set(removed_idx.intersection(added_idx))", "modified_idx = removed_idx | added_idx", PL),
    ('plain: modified reported as removed, too', D, "            if a_key in modified_idx:\n                continue\n".replace("            ", "        ", 1).replace("                ", "            "), "", PL),
    ('plain: position of the wrong side', D, "                    diff_type=DiffTypes.MOVED,\n                    base=fs_a + [a_idx],\n                    other=fs_b + [b_idx],", "                    diff_type=DiffTypes.MOVED,\n                    base=fs_a + [a_idx],\n                    other=fs_b + [a_idx],", PL),
    ('plain: empty items of a only', D, "v, propval_a if options.duck_type else propval_x\n            )\n            v = _hashable(v)\n            if v is not _nothing or not options.ignore_empty_slots:\n                vals.add((v, seen[v]))\n                rev_key[(v, seen[v])] = i", "v, propval_a if options.duck_type else propval_x\n            )\n            v = _hashable(v)\n            if v is not _nothing or x == 'b':\n                vals.add((v, seen[v]))\n                rev_key[(v, seen[v])] = i", PL),
]

RM = 'record/meta.py'
X = 'exc.py'
V = 'visitor.py'
P = 'property/__init__.py'
DC = ['declaring a record class']
SV_ = ['a value which may be of several']
MUTANTS += [
    ('class: bound slots left out', RM, "                properties[attrname] = attrval\n                if not attrval.bound:\n", "                if not attrval.bound:\n                    properties[attrname] = attrval\n", DC),
    ('class: one reserved name only', RM, "frozenset(('properties', 'eager_properties'))", "frozenset(('properties',))", DC),
    ('class: slots of the attributes replaced', RM, "        attrs['properties'] = properties\n", "        attrs['properties'] = local_props\n", DC),
    ('class: key of none given', RM, "            return tuple(good_props)", "            return tuple(good_props) or None", DC),
    ('union: every type tried', V, "                    mapped = cls.map(visitor, value, value_type)\n                except TypeError:\n                    pass\n                else:\n                    if mapped:\n                        break", "                    mapped = cls.map(visitor, value, value_type)\n                except TypeError:\n                    pass", SV_),
    ('union: all errors skipped', V, "                    mapped = cls.map(visitor, value, value_type)\n                except TypeError:", "                    mapped = cls.map(visitor, value, value_type)\n                except Exception:", SV_),
    ('union: plain even if one fits', V, "            if not mapped:\n                mapped = visitor.apply(value, prop, visitor)\n", "            mapped = visitor.apply(value, prop, visitor)\n", SV_),
    ('union: instances last', V, "        if matching_record_types:\n", "        if len(matching_record_types) > 1:\n", SV_),
    ('error: arguments forgotten', X, "        self.args = args\n        self.kwargs = kwargs\n", "        self.kwargs = kwargs\n", ['making an error']),
    ('error: items of the text', X, "        return self.args[key]\n", "        return self.formatted[key]\n", ['reading an error']),
    ('name: companion of a digit', P, '(name + "0") if name[-1] not in "0123456789" else None', '(name + "0") if name[-1] not in "123456789" else None', ['a slot gets its name']),
    ('name: companion always named', P, "        if self.empty_attr is _none:\n            self.empty_attr", "        if self.empty_attr is _none or self.empty_attr is None:\n            self.empty_attr", ['a slot gets its name']),
]
D = 'diff.py'
MUTANTS += [
    ('late: slot named values overwritten', V, 'if reduced.get("values", False):', 'if False:', ['what was visited, put together']),
    ('late: compare_as of none skipped', D, 'if value is not _nothing and hasattr(prop, "compare_as"):', 'if value is not _nothing and value is not None and hasattr(prop, "compare_as"):', ['slots before comparison', 'values before']),
    ('late: net difference', D, "if diff.diff_type != DiffTypes.NO_CHANGE:\n                        diff_types", "if diff.diff_type in (DiffTypes.REMOVED, DiffTypes.ADDED):\n                        diff_types", RECS),
    ('late: position of an added key', D, "            diff_type=DiffTypes.ADDED,\n            base=fs_a,\n            other=selector,\n        )\n\n    for key in modified_keys", "            diff_type=DiffTypes.ADDED,\n            base=fs_b,\n            other=selector,\n        )\n\n    for key in modified_keys", ['two plain dict']),
]
