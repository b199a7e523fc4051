"""Writes properties.jsonl (the source of truth is this table)."""
import json, os

CV = "databind/src/databind/json/converters.py"
SC = "databind/src/databind/core/schema.py"
SE = "databind/src/databind/core/settings.py"
UN = "databind/src/databind/core/union.py"
CO = "databind/src/databind/core/converter.py"
CT = "databind/src/databind/core/context.py"
MA = "databind/src/databind/core/mapper.py"
DC = "databind/src/databind/core/dataclasses.py"
JM = "databind/src/databind/json/module.py"
JS = "databind/src/databind/json/settings.py"
JI = "databind/src/databind/json/__init__.py"

P = []


def p(id, title, statement, over, text, why, files, mech, observe):
    P.append({
        "id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe},
    })


p("C01", "Loading what was dumped gives the original value back",
  "For every supported type and every value conforming to it, dumping the value succeeds and loading the result with the same type and settings gives an equal value of the same types all the way down. This covers scalars, containers, dataclasses, typed dictionaries, named tuples, generic and recursive classes, flattened and remainder fields, aliases and every union style, with defaults written or left out. The only refusal allowed is a conversion error when remainder keys collide with the keys of other fields.",
  ["inputs", "configurations"], "all conforming values of a catalogue of type shapes covering every converter, within size bounds",
  "The tests round-trip a few literals per converter; the identity must hold for every value (empty and colliding containers, special numbers, empty strings, values equal to a default) and for every composition of types.",
  [CV, SC], [("converters for both directions", CV + ": *Converter.convert"), ("serialize_from_schema / deserialize_from_schema", CV + ": SchemaConverter")],
  ["databind.json.dump", "databind.json.load"])

p("C02", "Loading gives exactly the value the payload denotes, or a conversion error",
  "For every JSON-like payload and every supported type, loading either returns the one value of that type the payload denotes, of exactly the declared types all the way down, or raises a conversion error. A payload of the wrong shape or kind anywhere inside is never accepted, silently altered or reported with any other exception. In particular booleans, numbers and strings are not confused with each other.",
  ["inputs"], "all JSON payloads up to the stated depth and width, against every type shape of the catalogue, strict and non-strict",
  "Tests present a handful of good and bad payloads per type; the guarantee is about every malformed payload, at every position.",
  [CV], [("type tests at the start of every converter", CV), ("adapter table", CV + ": PlainDatatypeConverter._strict_adapters")], ["databind.json.load"])

p("C03", "Object fields are filled by alias order, presence, default and requiredness",
  "When a dataclass is loaded, each field takes the value under the first of its aliases (in declared order) that is present, where a field with aliases is not found under its code name unless that is listed. A missing field is refused if it is required (no default and not optional, or marked required) and otherwise gets its default, a freshly produced default, or none. Dumping writes each field exactly once, under its first alias.",
  ["inputs", "configurations"], "all payloads over arbitrary keys, all presence patterns, alias lists, default kinds and requiredness markings within bounds",
  "Presence patterns multiply (aliases x defaults x required x optional x flattened); the tests try a few.",
  [CV, SC], [("alias lookup", CV + ": SchemaConverter._get_alias_setting, _extract_field"), ("requiredness", SC + ": _is_required, convert_dataclass_to_schema")], ["databind.json.load", "databind.json.dump"])

p("C04", "Unknown keys are refused unless allowed exactly where they occur",
  "A key of an object payload that no field consumes makes loading fail with a conversion error unless unknown keys are allowed for that object. Allowing them by class, by annotation, by type-local, conditional or global setting follows the usual precedence, does not carry over to the objects nested inside (except a global setting, which applies everywhere), and leaves the loaded fields unchanged. A recorder is told exactly the set of unknown keys, once for each object that has any and at its position, and is not called otherwise.",
  ["inputs", "configurations"], "all payloads with up to the stated number of arbitrary keys, on every placement of the setting",
  "The set of keys is unbounded and the setting can sit in many places with priorities; tests cover single combinations.",
  [CV, SE], [("unused key set", CV + ": deserialize_from_schema"), ("ExtraKeys.inform", SE)], ["databind.json.load", "recorder callback"])

p("C05", "A remainder field holds exactly the keys no other field consumed",
  "Loading an object with a remainder field puts into it exactly the entries of the payload that no other field consumed (converted to the value type of the remainder), including none at all, so that unknown keys are never an error for it. Dumping writes the entries of the remainder at the level of the object, and refuses with a conversion error any entry whose key is also written by, or would be read back as, another field. Two remainder fields in one object are refused.",
  ["inputs"], "all payloads and remainder mappings with up to the stated number of arbitrary keys, including keys equal to field names and aliases",
  "Collisions and the partition of keys depend on arbitrary strings.",
  [CV], [("remainder handling", CV + ": SchemaConverter")], ["databind.json.load", "databind.json.dump"])

p("C06", "Flattened fields live in the parent object and nothing is lost",
  "The fields of a flattened field (at any depth of flattening) are read from and written to the level of the containing object, under their own aliases, defaults and requiredness, and the payload is the same as if the fields had been declared there. Keys consumed by flattened fields are not unknown keys, and only keys belonging to the flattened type reach it. If two fields would write the same key, dumping fails with a conversion error instead of losing one of them.",
  ["inputs", "configurations"], "all payloads with arbitrary keys and values against flattened shapes up to 3 levels",
  "Flattening interacts with aliases, defaults, remainder and unknown keys; only a few instances are tested.",
  [CV, SC], [("get_fields_expanded", SC), ("_extract_fields, serialize flattened", CV + ": SchemaConverter")], ["databind.json.load", "databind.json.dump"])

p("C07", "Strictness decides scalar conversions, only while loading",
  "In strict mode (the default) a scalar is accepted only if it already has the target type, except that an integer is accepted for a float and a float with integral value for an integer, and the value is preserved. With strictness off, numeric strings are also accepted for numbers, the documented truthy and falsy keywords (in any case) for booleans, and numbers and booleans for strings; everything else is refused with a conversion error. Strictness set on a field, a type, or globally applies by the usual precedence, and never relaxes dumping.",
  ["inputs", "configurations"], "all values of every scalar kind, all target types, strictness at every place it can be set",
  "The conversion table is checked by examples; the guarantee quantifies over all integers, floats and strings.",
  [CV], [("PlainDatatypeConverter adapters", CV)], ["databind.json.load", "databind.json.dump"])

p("C08", "Dumping checks types and produces plain JSON values",
  "Dumping a value that does not conform to the declared type, at any depth, raises a conversion error and nothing else; it is never coerced. Dumping a conforming value gives only none, booleans, numbers, strings, lists and string-keyed dictionaries, in the documented form, with object keys in declaration order. Strict or not, the outcome is the same.",
  ["inputs"], "all Python values of the scalar kinds and containers of them, conforming or not, against every type shape",
  "The tests dump matching values; almost no mismatching ones.",
  [CV], [("isinstance checks when serializing", CV)], ["databind.json.dump"])

p("C09", "Discriminated unions select the member by its ID in every style",
  "For a union with a discriminator in the nested, flat or keyed style, loading selects exactly the member registered under the ID in the payload and converts the member's part with that member's type; dumping selects the member whose type is exactly that of the value and writes its ID, honouring custom discriminator and nesting keys. Unknown IDs, missing or non-string discriminators, missing nested values, extra keys in the keyed style and values of non-member types are conversion errors. The discriminator never reaches the member as a field and never silently overwrites one.",
  ["inputs", "configurations"], "all payloads up to the stated size, all styles, key configurations and member tables in the catalogue",
  "Style x key configuration x malformed payload is not covered by examples.",
  [CV, SE, UN], [("UnionConverter", CV), ("Union", SE)], ["databind.json.load", "databind.json.dump"])

p("C10", "Undiscriminated unions take the first member in order that accepts the value",
  "A plain union tries its members in declaration order and returns the result of the first one that converts the value, in both directions; if none does, a conversion error is raised that contains the errors of all the members. A later member is never preferred over an earlier one that accepts, and no other exception escapes. None is accepted exactly when the union is optional.",
  ["inputs"], "all JSON payloads within bounds against unions of scalars, containers, classes and literals in several orders",
  "Which members accept depends on the payload; order bugs show up only for payloads more than one member accepts.",
  [CV], [("best match", CV + ": UnionConverter.convert"), ("OptionalConverter", CV)], ["databind.json.load", "databind.json.dump"])

p("C11", "Setting lookup: priority first, then the most specific place",
  "The setting in effect for a value is the one of highest priority; among equal priorities the order is: annotation of the type hint, decorator of the class, type-local settings, conditional settings and providers in the order added, global settings in the order added, then the parent settings. Settings of other types, other classes (including base and derived ones) and other positions have no effect, and a setting passed to a call takes effect in addition to those of the mapper. Boolean settings can be turned off again by a more specific or higher-priority instance.",
  ["configurations", "histories"], "all assignments of present/absent and priority to every place a setting can come from",
  "2^7 placements times 4^7 priorities; the tests try about five.",
  [SE, CT, MA], [("Settings.get_setting", SE), ("get_highest_setting", SE), ("ObjectMapper.convert", MA)], ["Settings.get_setting", "databind.json.load"])

p("C12", "Converters are tried in order and errors are kept",
  "A module offers a value to its converters in registration order (those registered as first come before all others, the most recent first), descending into nested modules in place, and returns the first result. A converter that declines is skipped, one that fails with a conversion error is remembered and the next is tried; if none succeeds a single remembered error is raised as it is, and otherwise an error listing all remembered errors in order is raised. Any other exception of a converter passes through unchanged.",
  ["configurations", "fault_sequences"], "all outcomes (result, decline, conversion error, other error) of up to the stated number of converters, in all arrangements of registration order and nesting",
  "The outcome combinations are exponential; tests cover one or two.",
  [CO], [("Module.register, get_converters, convert", CO)], ["ObjectMapper.convert", "Module.convert"])

p("C13", "A conversion error points at the offending value",
  "The error raised for an invalid payload carries the position of the offending value: the sequence of object keys (field names), list indexes and mapping keys that leads to it from the root, together with the value found there and the type expected there. The file name given to the call is reported with it, and the textual form of every such error can be produced and contains that path. Each position's context knows its parent, its key, its direction and inherits the file name.",
  ["inputs"], "all payloads that are invalid at exactly one arbitrary position of nested shapes, both directions",
  "Error positions are asserted in very few tests, and never for mappings, flattened fields or unions.",
  [CT, CV, CO], [("Context.spawn, iter_hierarchy_up, format_context_trace", CT)], ["ConversionError.context", "str(ConversionError)"])

p("C14", "Conversions do not modify inputs and do not influence each other",
  "Converting never modifies the value or payload passed in, nor settings passed in. Results share no mutable state with class defaults or with other results: defaults made by a factory are fresh for every load. Mappers, copies of mappers and settings are independent: changes to a copy are not seen by the original and the other way round, and the same call gives the same result no matter which conversions (successful or failing) ran before.",
  ["inputs", "histories"], "all payloads within bounds, and all two-step histories over a catalogue of operations",
  "Tests make single calls on fresh state and do not look at the inputs afterwards.",
  [CV, MA, SE, SC], [("copies of payloads in flat unions", CV), ("ObjectMapper.copy", MA), ("Settings.copy", SE), ("get_default", SC)], ["databind.json.load", "databind.json.dump", "ObjectMapper.copy"])

p("C15", "Leaving out defaults omits exactly the fields equal to their default",
  "With serialization of defaults turned off, a field is left out of the output exactly when it has a default, is not required, and its value equals that default; all other fields are written as usual, and loading the output gives the value back. Turned on (the default) every field is written. The setting follows the usual precedence between a class, an annotation and a call.",
  ["inputs", "configurations"], "all values of the fields, every kind of default (value, factory, implicit none), every placement of the setting",
  "Equality with the default is a value-dependent branch at every field.",
  [CV], [("serialize_from_schema", CV)], ["databind.json.dump", "databind.json.load"])

p("C16", "Enumerations are written by first alias or name and read by alias or name",
  "An enumeration member is written as its first alias if it has aliases and as its name otherwise, and read from any of its aliases or names; no other value is accepted. Integer enumerations are written as and read from their integer value. Reading what was written gives the same member for every member, and members of another enumeration are refused.",
  ["inputs"], "all strings, integers and other JSON values, for a catalogue of enumerations with aliases, duplicate names, values and mixed-in types",
  "Tests use two members.",
  [CV], [("EnumConverter", CV)], ["databind.json.load", "databind.json.dump"])

p("C17", "Fields of class hierarchies and generics resolve like the language does",
  "The fields of a dataclass, its types, defaults and requiredness are those the class itself has: inherited fields included, overridden ones taken from the class that the method resolution order selects, type parameters substituted by the arguments in effect along the path of inheritance, and forward references resolved in the module of the class that declares them. Fields that are not constructor arguments are neither read nor written. Loading and dumping through the class therefore agree with a flat class declaring the same fields.",
  ["programs", "inputs"], "a catalogue of hierarchies (diamonds, overriding, generic parents, forward references across modules) with all payloads within bounds",
  "The combinations of inheritance and generics are structural; only single cases are tested.",
  [SC], [("convert_dataclass_to_schema", SC)], ["databind.core.convert_to_schema", "databind.json.load"])

p("C18", "Typed dictionaries have exactly their declared keys",
  "Loading a typed dictionary gives a dictionary with exactly the declared keys that are present (or have defaults), converted to the declared types; keys of non-total dictionaries may be absent, others are required. Dumping writes the declared keys that are present and refuses missing required ones. Keys are processed in declaration order, parents first.",
  ["inputs", "configurations"], "all presence patterns of keys, all JSON values, totality inherited or not",
  "One or two presence patterns are tested.",
  [SC, CV], [("convert_typed_dict_to_schema", SC), ("SchemaConverter", CV)], ["databind.json.load", "databind.json.dump"])

p("C19", "Union member registries map IDs and types both ways",
  "A registry of union members returns for an ID the type most recently registered under it and for a type the first ID registered for it; looking up the ID of a listed type or the type of a listed ID always succeeds, and anything else is a value error. This holds for static, lazily evaluated, chained (first registry that knows it wins), importing and entry-point registries after any history of registrations and lookups. The list of IDs has every ID once, in order.",
  ["histories", "inputs"], "all histories of register/replace/lookup operations up to the stated length with arbitrary IDs",
  "Interleavings of registration and lookup, and unknown IDs, are hardly tested.",
  [UN, SE], [("UnionMembers implementations", UN), ("Union.register", SE)], ["UnionMembers API", "databind.json.load"])

p("C20", "Collections, tuples and mappings convert element by element",
  "Loading a collection converts every element in order with the element type and gives the declared kind of collection; dumping gives a list with the converted elements in order. Fixed-size tuples require exactly their number of elements, each with its own type. Mappings convert every key with the key type and every value with the value type, losing and inventing none (of keys that convert to the same one, the last counts); strings, bytes and mappings are not accepted as collections, nor anything else as a mapping.",
  ["inputs"], "all sequences and mappings of JSON values up to the stated size, for every kind of collection",
  "Sizes, element validity at each index and the zoo of collection kinds are sampled only.",
  [CV], [("CollectionConverter, MappingConverter", CV)], ["databind.json.load", "databind.json.dump"])

p("C21", "Date formats are tried in order when parsing, and in order when formatting",
  "With a date format setting, parsing tries the configured formats in order (format sets expanded in place, only formats of the kind of value) and returns the result of the first that accepts; if none accepts, a conversion error is raised. Dumping uses the first configured format that can write the value, and raises a conversion error if there is none. A date setting on a field or type takes precedence over a global one, and values that already are of the kind are taken as they are when loading and required when dumping (a date and time is not a date).",
  ["configurations", "inputs"], "all accept/reject behaviours of up to the stated number of formats of all kinds, for dates, times and datetimes",
  "Tests use single formats.",
  [SE, CV], [("DateFormat.parse, DateFormat.format", SE), ("DatetimeConverter", CV)], ["DateFormat", "databind.json.load", "databind.json.dump"])

p("C22", "The dataclass extension behaves like standard dataclasses",
  "A class made with the dataclass extension accepts exactly the positional and keyword arguments in field order, fills defaults, and raises a type error when an argument without a default is missing, also if fields without default follow fields with one and across inheritance. Where the standard decorator accepts the class, both classes behave the same: constructor, post-init hook, equality, ordering of fields and options. Annotations given to a field are kept in its metadata.",
  ["inputs", "configurations"], "all argument subsets (positional and keyword) over a catalogue of class declarations",
  "Every call pattern (2^fields times the number of positionals) matters.",
  [DC], [("_process_class, field", DC)], ["databind.core.dataclasses.dataclass", "databind.core.dataclasses.field"])

p("C23", "Wrapping a type in an annotation without relevant settings changes nothing",
  "For every supported type, annotating it with metadata that is not a setting for it (plain objects, or settings that do not apply) gives exactly the same outcome of loading and dumping as the type itself, at the root and nested in containers, fields and unions. Annotations nested in annotations are treated as one. Equivalent spellings of a type (typing aliases and builtins, optional and union with none) are treated the same.",
  ["inputs", "configurations"], "all JSON payloads within bounds for every type shape, annotated and plain",
  "Nearly all tests use un-annotated types.",
  [CV], [("_unwrap_annotated", CV)], ["databind.json.load", "databind.json.dump"])

p("C24", "Custom converters attached to a type or hint replace the built-in conversion",
  "A converter attached to a class or to a type hint is used for exactly those values, in both directions, before any other converter; subclasses and other types are not affected, and what it declines or refuses goes to the converters that follow, as with any converter. A class converted through its own methods is written with the named method and read with the named constructor, which are not given values of other types than the class when dumping, and no payloads of other types than the declared serialized types when loading. Converters registered on a mapper affect only that mapper, and are asked in order.",
  ["inputs", "configurations"], "all JSON payloads and values, converter outcomes (result, decline, error), placements on class and hint",
  "Only a straightforward use is tested.",
  [JM, JS, CO], [("JsonConverterSupport", JM), ("JsonConverter", JS), ("DelegateToClassmethodConverter", CO)], ["databind.json.load", "databind.json.dump"])

p("C25", "Decimals, UUIDs and paths convert through their text form",
  "Decimals, UUIDs, paths and durations are written as the text form of the value and read from text by the type itself, preserving the value; text the type rejects is a conversion error, as is any payload that is not text, except that decimals also accept numbers when strictness is off. A precision setting is applied when a decimal is read. Values of other types are refused when dumping.",
  ["inputs", "configurations"], "all strings (through accept/reject of the library parser), all JSON values, strict and non-strict",
  "Only well-formed text is tested.",
  [CV, JM], [("DecimalConverter, StringifyConverter", CV), ("JsonModule", JM)], ["databind.json.load", "databind.json.dump"])

p("C26", "All entry points give the same result and pass on every argument",
  "The text functions equal the object functions composed with the JSON codec, and both equal the methods of a mapper with the same settings, in result and in errors. File name, settings, indentation and key order options given to any of them take effect as documented. A mapper built with settings behaves like passing these settings to each call, where settings of the call win within the same priority.",
  ["inputs", "configurations"], "all JSON payloads within bounds for a catalogue of types, all combinations of optional arguments",
  "The tests hardly call the text functions or pass optional arguments.",
  [JI, MA], [("load, loads, dump, dumps, get_object_mapper", JI), ("ObjectMapper", MA)], ["databind.json.loads", "databind.json.dumps", "ObjectMapper"])

p("C27", "Converters honour their options, settings override them",
  "A mapper assembled from converters with options behaves as these say: strictness and the writing of defaults given to a converter apply where no setting is in effect, and the types given for lists, mappings and objects are the types of its output, without changing the contents or what is loaded. A schema converter with its own schema function reads and writes exactly the fields of the schemas this returns, for flattened fields too (required ones must be present, defaults are filled in, others are left out) and declines types it has none for. Each converter handles its own types only, so a mapper without the converter of a type refuses values of that type with a conversion error.",
  ["inputs", "configurations"], "all scalar payloads and values of the classes within bounds, all options in positional and named form, settings at any place with any priority",
  "The tests always use the module with all converters and their default options.",
  [CV, SC], [("constructors and convert() of all converters", CV), ("Schema, Field", SC)], ["ObjectMapper.deserialize", "ObjectMapper.serialize"])

p("C28", "A schema tells the fields of a type as they are loaded and dumped",
  "The schema of a dataclass or typed dictionary lists exactly the fields that take part in loading, in order, each with its type (forward references resolved, type parameters replaced), whether it is required, its default (the value itself, or a fresh one from the factory each time), whether it is flattened, and its aliases, just as loading treats it; the metadata of an annotated hint is kept in order. The form in which the type is given does not matter, schemas asked for again are equal and independent of what was asked for or changed before, and types that are neither are refused with a value error. The expansion of flattened fields gives, for each of them, all the fields at any depth, made by the same schema function, and refuses a name that occurs both in the object and in an expansion.",
  ["inputs", "configurations"], "all combinations of type, default, totality and up to two settings of arbitrary value and priority; all small trees of flattened schemas",
  "Requiredness, defaults, flattening and aliases of a field follow from several settings of any priority, the type and the default together; the tests compare a few schemas.",
  [SC], [("Field, Schema, convert_to_schema and the functions below it", SC), ("get_fields_expanded", SC)],
  ["databind.core.schema.convert_to_schema", "databind.core.schema.get_fields_expanded"])

p("C29", "A type named for loading takes the place of the declared type",
  "Where a class (abstract, a protocol, without fields of its own or not) is declared together with the setting that names a dataclass or typed dictionary to load as, loading gives exactly what loading as the named type gives, value or conversion error, for every payload and at every position, with the settings of the named class (not those of the declared one) and the annotations and settings in effect there; dumping writes instances of the named type as that type does and refuses others. Of several such settings the one with the highest priority counts, then the most specific place. Only the positions the setting applies to are affected: the fields of the named type, and other positions of the declared type, are converted as they are declared.",
  ["inputs", "configurations"], "all JSON payloads within bounds, all pairs of declared and named types of the catalogue at every position, settings of any priority at any place",
  "One test loads one payload at one position.",
  [CV, SE], [("SchemaConverter._get_schema", CV), ("DeserializeAs", SE)], ["databind.json.load", "databind.json.dump"])

p("C30", "NamedTuples are converted as dataclasses with the same fields",
  "A typing.NamedTuple with annotated fields is loaded from an object and written as an object exactly as a dataclass with the same fields, default values, annotations (aliases, required, flattened, remainder, strict) and settings is, and gives an instance of the NamedTuple. Anything else (a list of its items, a plain tuple or another NamedTuple when dumping) is refused with a conversion error. This holds for every payload and value, at every position, and for annotations that are forward references.",
  ["inputs", "configurations"], "all JSON payloads and values within bounds for a catalogue of NamedTuples at every position, with settings on and off",
  "One test converts one NamedTuple with two fields.",
  [CV], [("CollectionConverter.convert", CV), ("SchemaConverter", CV)], ["databind.json.load", "databind.json.dump"])

p("C31", "A value is converted in the same way wherever it stands",
  "For every type and every payload or value, converting it as an item, entry, field, remainder, member of a union or below any of these (at any depth, any index, with any siblings, in annotated containers, with settings given for everything) gives at that place exactly what converting it alone with the same settings gives. If it is refused alone, the whole is refused with the same kind of error and the same message.",
  ["inputs", "configurations"], "49 types of every kind in 13 places (four levels deep, up to the fifth item), all JSON payloads of one level and variations of good payloads",
  "The tests convert each type at the top or in one container only.",
  [CV, CT, CO], [("Context.spawn", CT), ("converters", CV)], ["databind.json.load", "databind.json.dump"])

p("C32", "Conversions and lookups that overlap do not influence each other",
  "Two conversions with one mapper that overlap, in two threads that are interrupted anywhere or because a converter or settings provider begins one in the course of the other, each give the result or the conversion error that they give on their own. So do two lookups in one registry of union members, whether the members are static, lazily evaluated, imported, from entry points or chained. Registering a member while something is looked up succeeds, and the lookup gives what it gives before or what it gives afterwards.",
  ["schedules", "inputs"], "places of interruption between statements (two switches) for 49 types of every kind, payloads with any scalar in any place, all lookups in 4 registries",
  "The tests run one conversion at a time; what is kept between two steps of a conversion is only seen by another one that comes between them.",
  [CV, CT, SE, UN, MA], [("converters", CV), ("Settings.get_setting", SE), ("UnionMembers", UN), ("Module.convert", CO)], ["databind.json.load", "databind.json.dump", "UnionMembers.get_type_id", "UnionMembers.get_type_by_id"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as fp:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        assert x["statement"].count(". ") <= 2, (x["id"], x["statement"].count(". "))
        fp.write(json.dumps(x) + "\n")
print(len(P), "properties")
