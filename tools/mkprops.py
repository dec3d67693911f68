"""writes /verif/properties.jsonl"""
import json
P = '/normalize/property/__init__.py'


def m(*pairs):
    return [{'name': a, 'where': b} for a, b in pairs]


PR, PC, PJ, PM, PT = ('normalize/property/__init__.py',
                      'normalize/property/coll.py',
                      'normalize/property/json.py',
                      'normalize/property/meta.py',
                      'normalize/property/types.py')
RI, RJ, RM = ('normalize/record/__init__.py', 'normalize/record/json.py',
              'normalize/record/meta.py')
CO, DI, EM, EX, ID, SE, SU, VI = tuple(
    'normalize/%s.py' % x for x in (
        'coll', 'diff', 'empty', 'exc', 'identity', 'selector', 'subtype',
        'visitor'))
inp, his, cfg, prg = 'inputs', 'histories', 'configurations', 'programs'

PROPS = [
('C01', 'A constructed record only holds values of the declared types',
 'However a record is constructed (keyword arguments, a mapping, defaults, JSON input), every slot it holds afterwards is an instance of the type or one of the types declared for it and satisfies the declared check. A value for which this cannot be achieved makes the construction raise a coercion or check error instead of producing a record. Values which already conform are stored as the same object.',
 [inp, cfg], 'all values passed for all slots, over all combinations of type, type union, coerce function, check function and default',
 'Tests construct a few dozen literal records; the claim is about every value and every combination of declaration options.',
 [PR, RI], m(('type check, coerce and value check of one value', PR + ':Property.type_safe_value'), ('constructor loop over the properties', RI + ':Record.__init__'), ('initialisation of one slot', PR + ':Property.init_prop'))),
('C02', 'Assignment and deletion keep slots conforming; a failed one changes nothing',
 'Assigning to a type-safe slot stores exactly what constructing with that value would have stored, deleting empties it, and after any sequence of assignments, deletions and reads each slot is either unset or conforms to its declaration. An assignment or deletion that raises leaves the record exactly as it was, and no assignment affects another slot or another record.',
 [his, inp], 'all sequences of assignment, deletion and read over all slot declarations and values, including failing ones',
 'Tests perform single assignments with chosen values; the invariant is over every history including failing operations.',
 [PR], m(('checked assignment', PR + ':SafeProperty.__set__'), ('checked deletion', PR + ':SafeProperty.__delete__'))),
('C03', 'Coercion happens exactly when needed and failures name the slot and value',
 'A value that does not have the declared type is passed, once, to the declared coerce function (by default the declared type itself), and a value that has the type is never passed to it. A coerce function that raises, or returns something not of the declared type, makes the operation fail with an error carrying the property and the original value; one that returns nothing for an optional slot leaves the slot unset.',
 [inp, cfg], 'all values and coerce functions (including raising ones), all declared types and unions, for construction and assignment',
 'Tests use int/str conversions only; whether coerce is called too often, for members, or its bad result kept, needs every path.',
 [PR], m(('coercion protocol', PR + ':Property.type_safe_value'))),
('C04', 'Required, default and unknown-argument rules of construction',
 'Construction succeeds only if every required slot gets a value and every argument is a declared slot; an unset slot with a default gets that default, checked like any other value, with callable defaults called anew for each record (receiving the record if they take an argument), and a slot with neither stays unset. Values passed explicitly always win over defaults, and passing both a mapping and keyword arguments is refused.',
 [inp, cfg], 'all argument sets against all combinations of required and default declarations',
 'The tests pick one class per rule; the rules must hold for all combinations and argument sets.',
 [PR, RI], m(('constructor', RI + ':Record.__init__'), ('defaults and required', PR + ':Property.init_prop, get_default, eager_init'))),
('C05', 'Read-only slots never change after construction',
 'A slot declared read-only keeps, for the life of the record, the value it got at construction (or at its first lazy computation): every later assignment or deletion through the record raises a read-only error and leaves the slot as it was. This holds whatever other traits the slot is declared with.',
 [his, cfg], 'all histories of attempted assignment and deletion, all combinations of traits composed with read-only',
 'Tests try a read-only slot with one or two combinations; the composed property types are generated on demand.',
 [PR, PM], m(('read-only descriptors', PR + ':ROProperty.__set__, ROLazyProperty.__get__'), ('composition of property types', PM + ':create_property_type_from_traits'))),
('C06', 'Lazy slots are computed once, checked, and cached',
 'A lazy slot does not run its default during construction; the first read runs it exactly once, applies the same type and value checks as assignment, and stores the result, which every later read returns. A value set before the first read is returned without running the default, and a computation that fails stores nothing so that the next read tries again.',
 [his, cfg], 'all histories of reads, assignments and deletions over lazy declarations in every trait combination, with defaults that fail or return bad values',
 'The number of computations and the state after failures depend on the history; tests run one fixed sequence.',
 [PR], m(('lazy read', PR + ':LazyProperty.__get__, SafeLazy')), ),
('C07', 'Unset slots: reading raises, and emptied version-1 slots stay nullable',
 'Reading an unset slot raises AttributeError naming it, or, for a slot with the version-1 compatibility trait, gives its declared none-value (None by default), and in neither case sets it. Assigning a version-1 slot a value of its type stores it; assigning that value or None where it is not of the declared type empties the slot.',
 [his, cfg], 'all histories over v1-compatible and plain slots with all none-values and types',
 'Tests exercise one v1 property; the interplay with types, defaults, lazy and read-only is a product of configurations.',
 [PR], m(('v1 compatibility', PR + ':V1Property.__init__, type_safe_value, slot_is_empty'), ('unset read', PR + ':Property.__get__'))),
('C08', 'Declarations select the property type with exactly the requested traits',
 'A declaration yields a property which has every trait implied by its arguments or named explicitly, in every combination the library supports, with each argument in effect and no behaviour of traits that were not requested. A declaration that is contradictory, misspelt, positional or incomplete is refused with a definition error when it is made, not when it is used.',
 [cfg, prg], 'all subsets of traits and declaration arguments, in any order of first use in the process',
 'Combinations are composed and cached at run time, so the result could depend on which were declared before; tests declare a handful.',
 [PM, PR, PC, PJ], m(('choosing the type', PM + ':MetaProperty.__call__, has'), ('composing types', PM + ':create_property_type_from_traits'), ('declaration checks', PR + ':Property.__init__'))),
('C09', 'Record classes have exactly their own and inherited properties',
 'A record class has the properties it declares plus those of all its bases, with redeclared ones replaced by the newest declaration; subclassing never changes the base class. Clashing inherited declarations, reserved names and keys naming unknown properties are refused at class creation.',
 [prg], 'all class hierarchies, including multiple inheritance and redeclaration',
 'Tests define fixed hierarchies; the merge rules concern every graph of classes.',
 [RM], m(('class creation', RM + ':RecordMeta.__new__'))),
('C10', 'Equality is by type and slot values; equal records hash equal',
 'Two records are equal exactly when they are of the same class and each slot that is not extraneous is unset in both or holds equal values in both, and two collections when their class and items agree; equality is reflexive, symmetric and consistent with !=. Equal records have equal hashes, and hashing a record does not change it.',
 [inp, cfg], 'all pairs of records over nested slots, collections, primary keys and extraneous slots',
 'Equivalence-relation and hash laws quantify over pairs and triples of values; tests compare examples.',
 [ID, RI, CO], m(('identity tuple', ID + ':record_id'), ('equality and hash', RI + ':Record.__eq__, __hash__'))),
('C11', 'Pickling and copying yield an equal, independent record',
 'Pickling and unpickling, or copying, any record or collection whose contents can be pickled or copied gives an object of the same class with the same slots set to equal values, including properties of collections and lazy slots not yet computed. Later changes to a deep copy never show in the original, nor the other way round.',
 [inp, cfg], 'all records and collections over all property kinds, all pickle protocols',
 'Tests pickle a couple of instances with one protocol.',
 [RI, CO], m(('state', RI + ':Record.__getstate__, __setstate__'), ('generic collections', CO + ':_Generic.__reduce__'))),
('C12', 'The repr of a record evaluates back to an equal record',
 'For a record or collection whose slot values have evaluable reprs, evaluating its repr with the classes in scope gives an equal object with the same slots set. Computing a str or repr never changes the record.',
 [inp, cfg], 'all records and collections with values that have evaluable reprs',
 'Tests check literal repr strings of a few records.',
 [RI, CO], m(('repr', RI + ':Record.__repr__'), ('collection repr', CO + ':ListCollection.__repr__, DictCollection.__repr__'))),
('C13', 'Typed collections only ever hold items of their item type',
 'After construction and after every operation that adds or replaces items (item and slice assignment, append, extend, insert, +=, update, setdefault and the like), each item of a typed collection is an instance of its item type. A value which cannot be converted makes the operation raise, and items which are already of the type are stored as the same object.',
 [his, inp], 'all operation sequences over all values, for list and mapping collections of record, plain and subtype items',
 'The invariant is over every history of mutations; tests call each mutator once or not at all.',
 [CO], m(('item coercion', CO + ':Collection.coerce_value'), ('mutators', CO + ':ListCollection, DictCollection'))),
('C14', 'A list collection behaves like a list of its items',
 'Every list operation a list collection offers (indexing, slicing, assignment, deletion, append, extend, insert, pop, remove, reverse, sort, count, index, containment, concatenation, length, iteration, comparison) has on it the result, effect and error type it has on a list of the same (converted) items. An operation that raises because of an item, index or key leaves the collection unchanged.',
 [his, inp], 'all operation sequences with all indices, slices and items',
 'Equivalence with the list model is over all histories and index combinations.',
 [CO], m(('list operations', CO + ':ListCollection'))),
('C15', 'A mapping collection behaves like a dict of its items',
 'Every mapping operation a dictionary collection offers (get and set item, deletion, pop, popitem, update, clear, keys, values, items, containment, length, iteration in insertion order, comparison) has on it the result, effect and error type it has on a dict of the same (converted) items. An operation that raises because of an item, index or key leaves the collection unchanged.',
 [his, inp], 'all operation sequences with all keys and values',
 'Equivalence with the dict model is over all histories.',
 [CO], m(('mapping operations', CO + ':DictCollection'))),
('C16', 'Collections accept every documented input form without loss',
 'A collection built from a list, tuple, generator, mapping or another collection holds exactly the converted items of that input, in its order and under its keys, one for each input item. Something that is none of these is refused, and the input is left as it was.',
 [inp], 'all inputs of the documented forms, and others',
 'Tests build collections from literal lists and dicts.',
 [CO], m(('input forms', CO + ':ListCollection.coll_to_tuples, DictCollection.coll_to_tuples, tuples_to_coll'))),
('C17', 'JSON output read back gives an equal record',
 'Converting a JSON record to its JSON form and reading that back with the same class gives an equal record, for every record whose plain values are JSON values and whose declared conversions in and out are inverses; it also holds after passing the form through JSON text. This covers nested records, collections, renamed slots, unknown keys that were kept, and records read from JSON.',
 [inp, cfg], 'all JSON records over nested, renamed, collection and converted slots',
 'Round-trip laws are over all values; tests use a few documents.',
 [RJ, PJ], m(('output', RJ + ':to_json, _json_data'), ('input', RJ + ':json_to_initkwargs, from_json'))),
('C18', 'JSON output contains exactly the set, exported slots under their names',
 'The JSON form of a record has one entry for each slot that is set and exported, under its declared JSON name and converted by its declared output function, recursively, plus the unknown keys it was read with where the class keeps those; slots that are unset, or declared not to be exported, do not appear, and extraneous ones only on request. Producing it changes neither the record nor data it shares with the caller.',
 [inp, cfg], 'all records and output options',
 'Tests compare fixed documents.',
 [RJ, PJ], m(('output', RJ + ':_json_data, JsonRecord.json_data'), ('per-slot output', PJ + ':JsonProperty.to_json'))),
('C19', 'JSON input is mapped by JSON names, and never modified',
 'Reading a JSON document gives each slot the converted value found under its declared JSON name, the same whether the document comes as text, bytes or already parsed; keys which name no readable slot are kept and reported as unknown, or ignored, as the class says. The passed document is not modified and not aliased by later changes to the record, and a conversion failure is reported with the path at which it occurred.',
 [inp, cfg], 'all JSON documents, including ill-typed ones at any depth',
 'Error paths and aliasing depend on where in the document something happens; tests cover a few spots.',
 [RJ, PJ], m(('input', RJ + ':from_json, json_to_initkwargs, JsonRecord.__init__'), ('per-slot input', PJ + ':JsonProperty.from_json'))),
('C20', 'A field selector reads, writes, creates and deletes exactly its location',
 'Getting a field selector from a record returns what following its attributes, indices and keys gives, with an all-items step mapping over the collection; putting then getting returns the value put, posting additionally creates the missing containers, and deleting removes exactly that location; nothing else in the record changes. A location that does not exist raises a field selector error (and the forgiving getter returns nothing).',
 [inp, his], 'all selectors and all records, present or missing locations, including nested all-items steps',
 'Lens laws over arbitrary paths; tests use a few fixed paths.',
 [SE], m(('operations', SE + ':FieldSelector.get, put, post, delete'))),
('C21', 'Field selectors form a value-type sequence algebra',
 'Field selectors behave as immutable-looking sequences of names, indices and all-items steps: concatenation, slicing, prefix tests, length, equality, hashing and copying agree with those of the sequence of their steps, and ordering is total and consistent with it where steps are comparable. Anything else as a step is refused, and building one selector from another never shares changes.',
 [inp], 'all step sequences and operations on them',
 'Algebraic laws quantify over all sequences.',
 [SE], m(('sequence operations', SE + ':FieldSelector.__add__, __getitem__, startswith, __eq__, __lt__, __hash__'))),
('C22', 'Selector path text parses back to the same selector',
 'For every field selector and every multiple field selector, parsing its path text gives an equal selector, whatever characters the names and keys contain. Evaluating its repr does so too.',
 [inp], 'all selectors over all strings, indices and all-items steps',
 'Escaping must be right for every string; tests parse simple names.',
 [SE], m(('formatting and scanning', SE + ':_fmt_selector_path, _scan_selector_path, MultiFieldSelector.from_path'))),
('C23', 'A multiple field selector denotes exactly the union of its selectors',
 'A multiple field selector built from any selectors covers exactly the locations at or below one of them: membership, subscripting, iteration and equality of coverage agree with that set, independently of the order or grouping in which it was built. A selector that covers everything at some location is complete there.',
 [inp], 'all sets of selectors and all locations',
 'Set semantics over all combinations of prefixes and wildcards.',
 [SE], m(('tree', SE + ':MultiFieldSelector.__init__, __getitem__, __contains__, __iter__'))),
('C24', 'Filtered get, delete and patch touch exactly the selected locations',
 'Getting through a multiple field selector gives a copy holding exactly the selected locations that exist; deleting through it removes exactly those; patching copies exactly those from the source to the target, removing what the source lacks. All other locations of the objects, and the source, are unchanged.',
 [inp], 'all multiple field selectors over all records, collections and containers',
 'Frame conditions over whole object graphs; tests look at the touched field.',
 [SE], m(('operations', SE + ':MultiFieldSelector.get, delete, patch'))),
('C25', 'Equal records have no differences, different ones have some, mirrored',
 'Comparing a record with itself or an equal record reports no differences, under any options; with folding options off, different records of one class always have at least one. Comparing in the other direction reports the mirror image: additions and removals swapped, locations exchanged.',
 [inp, cfg], 'all pairs of records and all comparison options',
 'Relational laws over all pairs.',
 [DI], m(('record comparison', DI + ':compare_record_iter, diff_iter'))),
('C26', 'Differences are complete, correctly classified and locatable',
 'The reported differences are exactly those found by comparing the two records slot by slot and item by item: added if only the second has a value, removed if only the first, modified if both have differing ones, each once. Each reported location resolves in the record it refers to, and comparing changes neither record.',
 [inp], 'all pairs of records over nested records, collections, unions and plain containers',
 'Completeness is over all pairs of structures.',
 [DI], m(('comparison', DI + ':compare_record_iter, compare_collection_iter, compare_list_iter, compare_dict_iter'))),
('C27', 'Comparison options have exactly their documented effect',
 'Whitespace, case, Unicode-form and empty-value folding, extraneous slots, filters, reporting of unchanged or moved items, custom comparison functions, duck typing and item recursion each change the reported differences exactly as documented and in no other way, in any combination. Options given in both ways are refused.',
 [cfg, inp], 'all combinations of options over all pairs of records',
 'Tests switch single options on fixed records.',
 [DI], m(('options', DI + ':DiffOptions'))),
('C28', 'Collection comparison accounts for every item exactly once',
 'When collections are compared, every item of either side is matched with one item of the other, or reported added or removed, exactly once; items with the same identity are matched with each other, wherever they are. Matched items that differ are reported as modified or through their differing slots.',
 [inp, cfg], 'all pairs of collections, including duplicates and items without keys, with and without fuzzy matching',
 'The matching is over arbitrary multisets of items.',
 [DI], m(('matching', DI + ':compare_collection_iter'))),
('C29', 'A visit applies to every unfiltered slot exactly once, at its position',
 'Visiting a record hands each set slot (and plain collection item) that is neither extraneous nor outside the filter to the visitor function exactly once, with its property and its position, and combines the results into the same shape, leaving out what the options say to ignore. The visited record is not changed, and a slot that cannot be read is reported with its position.',
 [inp, cfg], 'all records, filters, options and visitor functions',
 'Tests dump three or four fixed records.',
 [VI], m(('traversal', VI + ':VisitorPattern.map, map_record, map_collection, map_prop'), ('filter', VI + ':Visitor.is_filtered'))),
('C30', 'Casting what a visit produced gives back an equal record',
 'Casting the result of a visit to the same class gives an equal record, when the value conversions are inverses of each other and nothing was left out. Input of the wrong shape is refused with the position where it was found, and the input is not changed.',
 [inp, cfg], 'all records without ambiguous type unions and all pairs of inverse conversions',
 'Round-trip law over all values.',
 [VI], m(('cast', VI + ':VisitorPattern.cast, grok, reverse, collect, produce'))),
('C31', 'Subtype membership and construction agree with the constraint',
 'A value is an instance of a subtype exactly when it is an instance of the base type and satisfies the constraint of it and of every subtype it is based on; a constraint that raises counts as not satisfied. Calling the subtype returns a member unchanged, otherwise a coerced value only if that is a member, and raises if not.',
 [inp, prg], 'all values, constraints, coerce functions and chains of subtypes',
 'Membership is over all values and constraint functions.',
 [SU], m(('membership', SU + ':subtype.__instancecheck__'), ('construction', SU + ':subtype.__new__'))),
('C32', 'Empty placeholders are false and follow the declared types',
 'The empty-safe attribute of a slot gives the value when it is set and otherwise a false placeholder, without setting the slot. Attributes, items and calls of a placeholder give the placeholder of the declared types they would have (the same object each time), raise the documented errors where no type has them, and can never be assigned.',
 [inp, prg], 'all access paths over all record types',
 'Chains of attribute and item access over type graphs.',
 [EM, PR], m(('placeholder', EM + ':EmptyVal'), ('pseudo attribute', PR + ':EmptyAuxProp'))),
('C33', 'Ready-made property types only hold values of their kind',
 'Properties of the ready-made number, text, date and time kinds accept the documented input forms, convert them to the documented type and value within any range given, and refuse everything else with a coercion or check error.',
 [inp], 'all values and range declarations for each ready-made kind',
 'Tests convert a few literals.',
 [PT], m(('conversions', PT + ':coerce_datetime, coerce_date, coerce_number, PropertyTypes'))),
('C34', 'Dynamic JSON attributes mirror the document keys',
 'A record with dynamic attributes exposes each key of the document it was read from as an attribute (in snake case for camel-case keys), reading, assigning and deleting such an attribute acts on exactly that key, and its JSON form has the original keys with the current values. Unknown attributes raise AttributeError.',
 [inp, his], 'all documents and sequences of attribute operations',
 'Key conversion and mirroring over all keys and histories.',
 [RJ], m(('dynamic attributes', RJ + ':AutoJsonRecord'))),
('C35', 'Errors carry what they are about and can always be printed',
 'Every error the library raises for bad input, declarations or use is one of its structured errors, whose message is its format filled with exactly the arguments it was raised with, each available as an attribute or item. Raising one without the arguments its format needs is itself reported as such.',
 [inp, prg], 'all raise sites and all arguments',
 'Tests format one example exception; raise sites on unusual paths are never formatted by tests.',
 [EX], m(('formatting', EX + ':StringFormatException'), ('raise sites', 'all modules'))),
]

if __name__ == '__main__':
    with open('/verif/properties.jsonl', 'w') as f:
        for r in PROPS:
            i, t, s, over, q, why, files, mech = r[:8]
            assert len(t) <= 80, (i, len(t))
            f.write(json.dumps({
                'id': i, 'title': t, 'statement': s,
                'quantifier': {'over': over, 'text': q},
                'why_tests_cant': why,
                'anchors': {'files': files, 'mechanism': mech}},
                ensure_ascii=False) + '\n')
