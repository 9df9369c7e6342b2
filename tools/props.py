import os, json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
        **({'state':[dict(name=n,meaning=me,where=w) for n,me,w in state]} if state else {}),
        observe_at=observe or ['return value of Form.map / Form(...)','contents of the form','reported errors'],hook_needed=None)))
FI='pilo/fields.py'; CT='pilo/context.py'; S='pilo/source/__init__.py'; SD='pilo/source/default.py'; SJ='pilo/source/json.py'; SU='pilo/source/union.py'; SM='pilo/source/mount.py'; SC='pilo/source/configparser.py'; IN='pilo/__init__.py'
p('C01','No invalid value is ever accepted',
 "When mapping a source into a form reports no error, every field value in the form that was taken from the source or computed (declared defaults are used as they are) satisfies every constraint declared for that field: its type, numeric and date/time bounds, string length, pattern, alphabet and choices, collection sizes and required keys, non-nullability and user validators, recursively through lists, tuples, dicts, groups and sub-forms. A source value that violates a constraint is reported as an error, is not stored in the form under that field, and is never silently replaced by null or by another value.",
 ['inputs','configurations'],"every combination of declared field type, options and nesting, and every source document (null, booleans, numbers, strings, sequences, mappings, native date/decimal/uuid values, nested)",
 "The tests map about a dozen fixed documents that are mostly valid; they touch one violated length and one violated choice. The guarantee is for all inputs under all declarations, boundaries included.",
 [FI,S,SD,SJ],[('type parsing per field','pilo/fields.py: String/Integer/Float/Decimal/Boolean/Date/Time/Datetime/UUID/Tuple/List/Dict/Group._parse'),('constraint predicates','pilo/fields.py: *_validate'),('primitive parsers','pilo/source/__init__.py: ParserMixin; pilo/source/json.py: JsonSource.as_*')])
p('C02','Conforming input is accepted with exactly the value it denotes',
 "A source value that is a legal representation for its field's declared type and meets the declared constraints is accepted without any error, and the form then holds, under the field's name, exactly the value it denotes: numbers, booleans, decimals, dates, times, identifiers and code references converted by declared type and format (and a date or time is rendered back as that format writes it), declared translations applied, strings unchanged, nested structure preserved. Values exactly on an inclusive bound are accepted, and a field declared with another source key reads exactly that key.",
 ['inputs','configurations'],"every declared field type and option set, and every conforming source value, bounds included",
 "Tests assert a handful of converted values (one int, one bool, one float); a conversion or bound that is wrong for other conforming values passes them.",
 [FI,S,SD,SJ],[('pipeline','pilo/fields.py: Field._map'),('type parsing','pilo/fields.py: *._parse'),('translations','pilo/fields.py: Field._munge'),('bounds','pilo/fields.py: Number._validate, RangeMixin users')])
p('C03','Absent, null, ignored and filtered values follow the default rules',
 "A field whose source key is absent, or whose value is on its ignore list, rejected by its filter, or dropped while being munged, takes its declared default: a literal as it is, or the result of calling a default callable or default hook anew for that mapping; with an optional declaration the field is left out silently, and with no default it is reported missing. A null in the source is not absence: it yields null when the field allows nulls (declared nullable or with a null default, or nullability left unspecified) and an error when it was declared non-nullable. A mapping run with defaults disabled reports every absent field as missing instead of using its declared default (only a default hook, which replaces this stage, is still consulted), and one run with missing tolerated as well reports nothing and leaves it out.",
 ['inputs','configurations'],"every combination of default kind, nullability, ignore list, filter outcome and source presence (absent, null, ignored, filtered, present), at any nesting depth",
 "Tests use two literal defaults and one null default; the combinations of absent/null/ignored/filtered with default kinds and nullability are not exercised.",
 [FI,CT],[('default selection','pilo/fields.py: Field._default, Field._map'),('existence and null','pilo/source/__init__.py: Path.exists, Path.is_null; Field._compute'),('nullability','pilo/fields.py: Field._validate, Field.options'),('ignore/filter','pilo/fields.py: Field._filter')])
p('C04','Customization hooks run once each, in the documented order',
 "Whenever a field is mapped, its user hooks run in the documented order - resolve, then compute (or parse when there is no compute hook and the source has a non-null value), munge, filter, validate - each at most once for that mapping and each receiving exactly the value the previous stage produced. Compute, parse, resolve and default hooks replace the built-in stage, while munge, filter and validate hooks run after the built-in stage and only if it let the value through; once a stage yields nothing or an error, the later stages are skipped. The hook sees the form being mapped and the field's own source location.",
 ['inputs','configurations'],"every subset of hooks attached to a field, every hook outcome (value, null, nothing, error, true, false), every source presence, any nesting depth",
 "Tests attach at most one munge hook or one compute hook; ordering, multiplicity and skipping for hook subsets are never asserted.",
 [FI],[('pipeline','pilo/fields.py: Field._map, Field._compute'),('hook registration and invocation','pilo/fields.py: Hook.__call__')],
 observe=['the sequence of hook invocations with argument, form and ctx.src_path','contents of the form'])
p('C05','Every offending location is reported, with its kind and full path',
 "When errors are collected, mapping does not stop at the first problem: every missing or invalid location is reported, in declared field order and depth first, each saying whether it is missing or invalid (as an instance of the class the context names for that, if it names one) and naming its complete path from the document root by source keys and indices, while locations that are fine produce no error and are still mapped. The location an error carries keeps designating the same place after the mapping has ended.",
 ['inputs','configurations'],"every form declaration with nested lists, tuples, dicts, groups and sub-forms, and every set of offending locations in the document",
 "Two tests check three error messages for one schema; other nestings, containers and error combinations, and the error's path after mapping, are unchecked.",
 [FI,CT,S],[('error collection','pilo/fields.py: CollectErrors, Errors.missing/invalid, Form._nested_map'),('error path','pilo/fields.py: FieldError, Missing, Invalid'),('path rendering','pilo/source/__init__.py: Path.__str__')],
 observe=['returned error list: class, message prefix, path'])
p('C06','Collecting and raising report the same verdict',
 "For every declaration and source, mapping in raising mode raises exactly when mapping in collecting mode returns at least one error, and its first reported error is the first collected one; when there is none it returns the form itself with the same contents. Building a form directly from a source raises exactly in the same cases, carrying all collected errors in their order.",
 ['inputs','configurations'],"every declaration and source document; all three entry points (collect, raise, constructor) and all source argument kinds (mapping, sequence, keyword, source object)",
 "Tests exercise the constructor with failing documents and raising mode only with valid ones; agreement is never compared.",
 [FI],[('error modes','pilo/fields.py: RaiseErrors, CollectErrors, Form._root_map, Form.map, Form.__init__'),('aggregate','pilo/fields.py: FormError')])
p('C07','Malformed documents become field errors, not crashes',
 "For every document made of nulls, booleans, numbers (including huge and not-a-number), strings, sequences and string-keyed mappings, in any nesting, mapping it into any form built from the provided field types in collecting mode terminates and reports each problem as a missing or invalid field error. The only exception it may raise for bad data is the source error saying the document root itself is not a mapping.",
 ['inputs','configurations'],"every JSON-like document against every declaration made of the provided field types, options and nesting (user hooks that raise are excluded)",
 "Tests feed documents of the right shape; the wrong-shape and wrong-type combinations for each field type and option are not explored.",
 [FI,S,SD,SJ],[('conversion of parse failures to errors','pilo/fields.py: Field._compute'),('primitive parsers','pilo/source/__init__.py: ParserMixin; pilo/source/json.py')])
p('C08','A mapping leaves the context as it found it, however it ends',
 "After any mapping, attribute read, or cast finishes - successfully, with errors, or by an exception thrown from any user hook at any nesting depth - every context variable, the current source location and the depth of nesting are exactly what they were before it started. Consequently a later mapping gives the same result as if the failed one had never run.",
 ['inputs','fault_sequences','histories'],"every declaration, document and entry point, with an exception injected at every hook invocation, inside any surrounding context nesting",
 "No test raises from a hook or inspects the context after a failure; the fault points are every hook at every depth.",
 [CT,FI],[('scoped pushes','pilo/context.py: Context.push, Close.__exit__, Context.restore'),('rewind/restore','pilo/context.py: Context.rewind'),('users','pilo/fields.py: Field._map, Field.map, Field.__get__, Form._map, Form._root_map, Form._nested_map')],
 state=[('context stack','nested variables and source locations','pilo/context.py: Context.stack'),('source path','current location in the source','Context.src_path')],
 observe=['ctx variables, str(ctx.src_path) before/after and inside hooks'])
p('C09','Mappings in different threads do not affect one another',
 "When several threads map forms at the same time, even the same form class and even suspended inside each other's hooks, each thread obtains exactly the values, errors, hook observations and context it would obtain running alone, for every interleaving. Context variables set in one thread are never visible in another, and the process-wide warning configuration is the same after all threads finish as before they started.",
 ['schedules','inputs'],"every interleaving, at hook granularity, of mappings in two or three threads",
 "All tests are single-threaded.",
 [CT,FI,IN],[('thread-local context','pilo/context.py: class Context(threading.local)'),('per-mapping error lists','pilo/fields.py: Form._root_map'),('shared declarations','pilo/fields.py: Field, Hook, Type.types')])
p('C10','Reading a sibling field early yields the value it will be mapped to',
 "When a hook reads another field of the form being mapped (or of an enclosing form) before that field's turn, it gets exactly the value that field is mapped to from its own source location, irrespective of declaration order and nesting, or an attribute error when that field has no value - never an internal marker. The interrupted mapping then continues at its own location, so everything mapped afterwards is the same as if the read had not happened.",
 ['inputs','configurations'],"every declaration order, nesting (list, dict, tuple, sub-form), source kind, and pair of reading and read fields, reads of enclosing forms included",
 "One test reads one later integer sibling from a sub-form in a list over native dicts, with all values valid.",
 [FI,CT,SU],[('lazy attribute mapping','pilo/fields.py: Field.__get__'),('rewind','pilo/context.py: Context.rewind/restore')],
 observe=['values seen by the reading hook','contents of all forms','errors','ctx.src_path after the read'])
p('C11','Context variables and source locations nest strictly',
 "For every history of entering and leaving context scopes, the value of a context variable is the one set by the innermost active scope that sets it, listing a variable's values yields those of all active scopes from outermost to innermost, and the current source location is the sequence of keys entered since the innermost active source. Rewinding to an enclosing scope exposes exactly the state of that scope and ending the rewind restores exactly the state before it; a rewind whose target does not exist fails and changes nothing.",
 ['histories','fault_sequences'],"every sequence of enter, leave, reset, rewind (to any depth, including the current scope), un-rewind and exception events, up to the explored length",
 "tests/test_context.py is empty; the context is only used indirectly, and rewinding only in one shape.",
 [CT],[('stack','pilo/context.py: Context.push/restore/reset/rewind/values_for/__getattr__')],
 state=[('stack','active scopes','Context.stack'),('src_path','keys since the innermost source','Context.src_path')],
 observe=['ctx.<var>, ctx.values_for, str(ctx.src_path)'])
p('C12','What is at a source location depends only on the data and the location',
 "For every source and every history of entering and leaving locations and asking about them, whether the current location exists, whether it is null, its value, length or keys depend only on the source data and the current sequence of keys - not on which locations were visited or queried before, nor on how often. A location below one that does not exist does not exist, and nothing is ever found that the document does not contain. (A union merges a container when its keys or its length are asked for, as every mapping into it does; what is below one is found once that was done.)",
 ['histories','inputs'],"every document, every walk of entering/leaving keys (names, indices, dotted names) interleaved with queries, for native, JSON, mount and union sources",
 "Tests walk one fixed document once per source kind, each location asked once.",
 [S,SD,SJ,CT],[('cached resolution','pilo/source/__init__.py: Path.value'),('key resolution','pilo/source/default.py: DefaultPath.resolve; pilo/source/json.py: JsonPath.resolve')],
 state=[('per-key cache','value found at each prefix','PathPart.value')],
 observe=['ctx.src_path.exists/is_null/value/mapping()/sequence()'])
p('C13','The same document gives the same form through every kind of source',
 "A document whose values are natively typed, mapped by fields with plain (undotted) source keys, gives the same form contents and the same errors at the same locations whether it is supplied as native mapping, as a native source object, as JSON text, as a union of just that document, or mounted under a key (with that key prefixed to the locations). A sequence supplied for a form assigns its items to the fields in declaration order, as the corresponding mapping would; a key with no mounted source is simply absent.",
 ['inputs','configurations'],"every declaration and every JSON-representable document, over the source kinds native, JSON, single union, mount",
 "Each source kind is tested with its own single walk; no test compares kinds, and the mount source is not tested at all.",
 [SD,SJ,SU,SM,S],[('source implementations','pilo/source/*.py'),('implicit source construction','pilo/fields.py: Form._map_source, Form._seq_source')])
p('C14','Union sources merge by the declared policy',
 "In a union of sources each scalar comes from the first source in which it is present and not null; a mapping or sequence provided by several sources becomes the first's, the last's, or the combination of all (keys united with earlier sources winning, items concatenated in source order) according to the policy for mappings and for sequences, recursively, with the first-wins policy from the declared merge depth on. Sources in which the container is absent never contribute, ones in which it is null contribute nothing, and a source of conflicting shape that would contribute is reported as an error at that location. The sequence of documents given is left as it was.",
 ['inputs','configurations'],"every tuple of 1-3 documents, every policy combination and merge depth, every nesting of mappings and sequences",
 "One test merges two flat documents under the three uniform policies; mixed policies, depth, nesting, nulls and three sources are unchecked.",
 [SU],[('merging','pilo/source/union.py: Mapping.__init__, Sequence.__init__, Join'),('lock-step paths','pilo/source/union.py: UnionPath.insert/__delitem__/__setitem__')])
p('C15','Collections are mapped element by element',
 "Each element of a list, tuple, dict or group is mapped by the declared element field just as it would be alone; results keep source order and keys, an element left out or failing is dropped without disturbing the others, and a failing one is reported at its own location. Dict keys are mapped by the key field, a group contains exactly the entries whose key is matched by one of its patterns - each mapped by the first match and carrying key, capture and value - and a list allowing a bare element treats a non-sequence as a one-element list. The declared minimum and maximum sizes and required keys apply to the mapped result.",
 ['inputs','configurations'],"every element declaration (scalars, nested collections, sub-forms; with defaults, ignores, filters), every source collection including empty ones",
 "Tests map a few all-valid lists and dicts; dropped elements, bounds, group patterns and bare elements are not asserted.",
 [FI],[('element mapping','pilo/fields.py: Tuple._parse, List._parse, Dict._parse, Group._parse/_match'),('sizes','pilo/fields.py: List._validate, Dict._validate')])
p('C16','Polymorphic values are mapped by exactly the class their type names',
 "A polymorphic field, and casting by a type field, select exactly the declared sub-class (at any inheritance depth) whose type values include the document's type value - read, converted or computed as the type field declares - and map the document with it; a type value no class declares, or a missing one, is an error and never maps the document with some other class. Selecting has no effect on the document, on the form being mapped or on later selections.",
 ['inputs','configurations'],"every family of form classes (depth 1-3, several type values per class, constants, computed types), every document, direct casts and polymorphic fields, alone or in lists",
 "Two tests cast two valid documents in a two-class family; unknown or missing types, multi-valued types, deeper families and polymorphic fields are not tested.",
 [FI,IN],[('identity map and probe','pilo/__init__.py: Types.map/for_field/probe'),('dispatch','pilo/fields.py: Type.cast/probe, PolymorphicSubForm._form_type/_parse')])
p('C17','Re-mapping, tags and reset touch exactly the selected fields',
 "Mapping into an existing form stores a new value for exactly the selected fields - all, or those carrying one of the given tags - for which the source yields one, and leaves every other entry of the form as it was; with reset the selected fields are first cleared, so that afterwards each holds either its newly mapped value or nothing. Tags given to the mapping select among the form's own fields; tags set in the surrounding context select at every level at which no tags are given.",
 ['histories','inputs'],"every sequence of mappings, tag selections (list, set or context), resets and direct writes on one form, over every small declaration",
 "No test maps twice into one form, uses tags or reset.",
 [FI],[('selection','pilo/fields.py: Form.map, Form._map, Form._reset'),('tags','pilo/fields.py: Field.tag, Field.has_tag')])
p('C18','Unmapped keys are captured exactly when asked',
 "By default keys of the source that belong to no field are ignored; when capture is requested (for any key, or through given key and value fields) the form additionally receives exactly those source keys that are neither the name nor the source key of a declared field, mapped through the key and value fields, at the level where capture was requested. Capturing never overwrites or adds an entry for a declared field, in particular not for one whose value was rejected, and never stores a raw value under a field's source key.",
 ['inputs','configurations'],"every declaration (renamed fields, failing fields, nested sub-forms with their own setting) and every document with extra keys",
 "One test captures from one fully valid document with no renamed field.",
 [FI],[('capture','pilo/fields.py: Form._unmapped, Dict.key_filter')])
p('C19','Form contents, attributes and derived forms stay coherent',
 "For every history of attribute and item reads, writes and deletions on a form, a field's attribute and its entry are the same thing, deleting makes it absent, and asking whether a form has a field says so without failing. Flattening lists exactly the present leaf values with their field path in declaration order, transforming or filtering by tags (or their complement) yields a new form of the same class holding exactly the selected fields and values recursively, and copying yields an equal form of the same class whose own entries can then be changed independently; none of these changes the original.",
 ['histories','inputs','configurations'],"every sequence of reads, writes, deletions and derivations on forms with nested sub-forms, lists of sub-forms, tags and defaults",
 "No test calls flatten, filter, munge, copy or has, or writes through attributes.",
 [FI],[('descriptor','pilo/fields.py: Field.__get__/__set__/__delete__'),('derivations','pilo/fields.py: Form.flatten/munge/filter/copy/has')])
p('C20','Declarations are ordered, independent and never changed by use',
 "Fields are mapped in declaration order, inherited fields first and an overriding field keeping the place of the one it overrides. Using a form class any number of times - mapping valid or invalid documents, casting, deriving sub-classes, cloning, adding constants - never changes how that or any other existing declaration maps a document: the same document always gives the same result, the document itself is not modified, and forms share no state with one another. A hook whose signature does not fit is rejected when it is declared.",
 ['histories','configurations','inputs'],"every history of declaring, deriving, cloning, configuring a clone and mapping, over families of small form classes",
 "Tests use each declared class once; ordering under overriding, cloning and repeated use are not asserted.",
 [FI,IN],[('ordering','pilo/fields.py: CreatedCountMixin, Field.attach, FormMeta'),('cloning','pilo/fields.py: Field.clone, Field.constant'),('signature check','pilo/fields.py: Hook.__call__')])
p('C21','Each source converts scalars only as its strictness allows',
 "Reading a scalar as string, integer, float or boolean from a native or configuration source, a lenient JSON source or a strict JSON source converts exactly the representations that source kind allows and rejects all others: a strict JSON source converts nothing except whole numbers to floating point, no source turns a boolean or a non-whole number into an integer, and no source guesses a boolean from other text. Accepted values keep their numeric value and text exactly.",
 ['inputs','configurations'],"every scalar value of every type (boundary texts, signs, spaces, whole and fractional numbers, booleans, null) x requested type x source kind and strictness",
 "Tests convert three strings; the JSON test does not even run on the installed interpreter.",
 [S,SJ],[('parsers','pilo/source/__init__.py: ParserMixin.as_*; pilo/source/json.py: JsonSource.as_*')])
p('C22','Derived fields are determined by what they derive from',
 "A constant field has its constant whatever the source says; a formatted field is its template filled with the current values of the named fields (also through dotted names into sub-forms), or an error when one of them has no value; a capturing field is the named or first group of its pattern, or absent when the text does not match; a translated field is the image of its parsed value; and a field taken from the context has the value of the context variable of its name, or is absent.",
 ['inputs','configurations'],"every template, pattern, translation and constant, every order of declaration, every source document",
 "One test formats one integer; captures, translations, constants outside types, context fields and failures are untested.",
 [FI],[('derivations','pilo/fields.py: String.format, String.capture, Field.constant, Field.translate, Field.from_context')])
p('C23','Configuration sources expose sections, options and lists faithfully',
 "A configuration source given as text, file or parser object maps like the nested document it denotes: sections to mappings, options to their text, an option named name[key] to the entry key of the mapping name, a multi-line value to the list of its non-blank lines and a one-line value to its shell-style words, with declared fallback values only for options that are absent. Requesting preserved white space yields exactly the indented block, up to the next option or section, belonging to the requested option of the requested section, and option-name case is preserved when asked.",
 ['inputs','configurations'],"every small configuration document (1-2 sections, options, sub-keys, multi-line values), every constructor option, every form over it",
 "The only configuration test asks for locations that do not exist; no option is ever read, and the text constructor does not run on Python 3.",
 [SC],[('mapping view','pilo/source/configparser.py: Mapping, SectionMapping, Sequence'),('construction','pilo/source/configparser.py: ConfigSource.__init__/from_file/as_raw')])
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in P))
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
import jsonschema
for x in P: jsonschema.validate(x,sch)
print(len(P))
