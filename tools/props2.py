ALLSRC = ['utils.py', 'core.py', 'transform/transform.py', 'convert/jidl.py', 'convert/html.py', 'convert/markdown.py',
          'convert/diagram_w.py', 'translate/jsonschema_w.py', 'codec/__init__.py', 'codec/codec.py']
EFFECT = 'effect analysis by abstract interpretation of the source (what a call changes or exposes, on every path)'
EFFECT_NOTE = ('Abstract interpretation of the current source of each operation on abstract schemas that cover every base '
               'type, option and extension, with open names, descriptions and bounds; compares everything that existed '
               'before the call with what is there at each exit. Trusts the declared models of library functions; '
               'operations whose analysis loses precision are reported undecided.')
prop('C07', 'The outcome of a codec call depends on schema, mode and value only',
     'What encode and decode return or raise depends only on the schema and mode the codec was given and on the value: '
     'earlier calls (successful or failed), other codecs and earlier modes make no difference. set_mode gives the codec '
     'that construction in that mode gives; results give no access to the codec\'s own tables, and the codec keeps no hold '
     'on the caller\'s schema.',
     ['histories', 'inputs', 'configurations'], 'every sequence of encode, decode and set_mode calls on one or more codecs',
     'Tests make a few calls on fresh codecs; state that leaks shows only after the right earlier call.',
     CODEC[:2], ['Codec.encode', 'Codec.decode', 'Codec.set_mode', 'Codec.__init__', 'encoders and decoders of every type'],
     [('symtab', 'per-type tables used by every call'), ('config', 'limits used by every call')],
     technique=EFFECT, note=EFFECT_NOTE)
prop('C08', 'Operations leave the arguments they are given unchanged',
     'Encoding, decoding, unfolding, canonicalizing, stripping comments, analysing, dumping and every conversion of a '
     'schema leave the schema, value, option list and style they are given exactly as they were, whether they succeed or '
     'fail; the transformed schemas returned by canonicalize, strip_comments, unfold_extensions and object_type_schema '
     'share no mutable part with the original.',
     ['inputs', 'programs', 'crash-points'], 'every schema shape and option, every value, normal and exceptional exits',
     'Tests compare outputs; a modified or shared argument shows only when the caller uses it again.',
     ALLSRC, ['canonicalize', 'strip_comments', 'unfold_extensions', 'object_type_schema', '*_dumps', 'topts_s2d',
              'flatten', 'encode and decode'], technique=EFFECT, note=EFFECT_NOTE)
prop('C09', 'Package tables and default arguments are never modified by use',
     'No operation changes the tables the package is driven by (options, formats, default configuration, encoder and '
     'writer tables) or the default values of its functions, and no result gives access to them; so an operation has the '
     'same result no matter what was done earlier in the process.',
     ['histories', 'inputs'], 'every sequence of operations in one process, on every schema',
     'A test starts from fresh tables; a modified table or default shows only in a later, unrelated operation.',
     ALLSRC + ['definitions.py'], ['get_config', 'w_format', 'jidl_style', 'flatten', 'topts_s2d', 'build_deps'],
     [('DEFAULT_CONFIG', 'default limits'), ('TYPE_OPTIONS / FIELD_OPTIONS', 'option tables'),
      ('JADN_FMT', 'JSON Schema keywords of formats')], technique=EFFECT, note=EFFECT_NOTE)
CHECK_NOTE = ('Abstract interpretation of the current source of check() on families of abstract schemas (one per rule, base type, '
              'option and position; names, ids and bounds open); whether an accepting path exists for an ill-formed family, or a '
              'refusing one for a well-formed family. The allowed options and formats are written out in the check, not read from '
              'the package. The two bundled validators (JSON Schema, meta-schema) are modelled as accepting.')
prop('C11', 'check() refuses every ill-formed schema and accepts every well-formed one',
     'check() refuses a schema in which any type or field has an option its base type does not allow, lacks a required one '
     '(vtype, ktype), has a format that is undefined or belongs to another base type, a minimum above its maximum, a pattern '
     'together with a size, or is derived by both enum and pointer; any two types share a name, or one is named like a built-in '
     'type or has an unknown base type; any two fields of a type share an id or a name, the ids of an Array or Record are not '
     '1, 2, 3..., a field has the wrong number of columns, is an anonymous structured type, has a bad multiplicity, an external '
     'tag that is no field of the type, a dir option on a plain type, or type options on a reference to a defined type; or a '
     'derived or field-less type has fields. Every schema that breaks none of these rules is accepted and returned.',
     ['inputs', 'programs'], 'every schema: each rule at every position, for every name, id and bound',
     'Tests check a few broken schemas; each rule has to hold at every position, for every base type and number.',
     ['core.py', 'definitions.py', 'utils.py'], ['check', 'check_typeopts', 'topts_s2d', 'ftopts_s2d', 'is_builtin', 'has_fields'],
     [('ALLOWED_TYPE_OPTIONS / REQUIRED_TYPE_OPTIONS', 'options of each base type'), ('VALID_FORMATS', 'base type of each format'),
      ('FIELD_LENGTH', 'columns of a field')], note=CHECK_NOTE)
prop('C14', 'Files hold exactly the converted text, as UTF-8 whatever the locale',
     'Every function that writes a schema or a conversion of it to a file replaces the file it is given by the whole text of the '
     'conversion made with the options it is given, preceded by the source line only when a source is named; every function that '
     'reads a file parses all of it. All text files, including the package\'s own data files, are opened as UTF-8 with no '
     'character lost or replaced, whatever the platform or locale.',
     ['configurations', 'inputs'], 'every locale and platform default encoding, every schema text, every dump and load function',
     'Tests run in one locale, mostly on ASCII text, and compare conversions rather than files.',
     ['core.py', 'convert/jidl.py', 'convert/html.py', 'convert/markdown.py', 'convert/diagram_w.py', 'convert/jas_w.py',
      'convert/proto.py', 'translate/jsonschema_w.py', 'transform/resolve.py'], ['dump', '*_dump', '*_load', 'check'],
     technique='effect analysis by abstract interpretation of the source (what is opened and written on every path) and a lint over the syntax tree for every other open()',
     note='Interprets each file function with the conversion replaced by an open text and checks the recorded open and write events; '
          'a syntactic rule with constant propagation covers open() calls elsewhere. Trusts the model of file objects.')
prop('C13', 'Results are the same in every process',
     'Every conversion, translation, transformation and analysis of a schema yields the same result in every run: the order of '
     'lines, definitions, options, types and list items never depends on hash order, and no result contains the time, a random '
     'value, an object identity or the order of a directory. (Only the source line of a dumped file names the time.)',
     ['schedules', 'inputs'], 'every hash seed, time and environment, for every schema',
     'A test run has one hash seed; sets of few elements often come out in the same order by luck.',
     ALLSRC, ['jidl_dumps', 'html_dumps', 'markdown_dumps', 'diagram_dumps', 'json_schema_dumps', 'unfold_extensions',
              'canonicalize', 'build_deps', 'analyze', 'topts_s2d'],
     technique='abstract interpretation of the source in pairs (self-composition over the iteration order of sets) with taint of nondeterministic sources',
     note='Interprets each operation on the same abstract schema with two opposite orders for every set whose order depends on '
          'hashing and compares the outcomes; sources of time, chance and environment are taints. Two opposite orders stand for all '
          'orders: a dependence on order that is symmetric under reversal would be missed.')
UNFOLD_NOTE = ('Abstract interpretation of the current source of unfold_extensions() on families of abstract schemas, one per extension, '
               'position and combination (names, descriptions and bounds open), compared with an independent reading of what the schema '
               'means. Directories nested deeper than eight levels or recursive, links to keys of types with several keys, a repeated '
               'unique list and enumerations of types without fields are outside the reading.')
prop('C19', 'Removing extensions from a schema keeps its meaning',
     'unfold_extensions() returns a schema in which no use of the given extensions remains and which means what the original does: '
     'every original type and field is there, in order, with its id, name, description, optionality and options; a repeated field '
     'becomes a list of at least its minimum (at least one, the field optional when the minimum is zero) and at most its maximum, '
     'of elements with all options of the field; an anonymous type becomes a named one with the same options; a derived '
     'enumeration has the ids and names of the fields (or the paths) of the type it is derived from; a link becomes the type of the '
     'key it refers to; MapOf with an enumerated key becomes a Map with a field for each item, with the same limits. Every reference '
     'in the result is defined, type names are unique, and unfolding the result again changes nothing.',
     ['inputs', 'programs'], 'every schema and every set of extensions',
     'Tests unfold a handful of schemas with one extension each; the meaning is at risk where extensions meet (options, '
     'multiplicity, derived types used twice).',
     ['transform/transform.py', 'utils.py', 'definitions.py'],
     ['unfold_extensions', 'unfold_link', 'unfold_multiplicity', 'unfold_anonymous_types', 'unfold_derived_enum', 'unfold_map_of_enum'],
     technique='abstract interpretation of the source, results compared with an independent reading of the schema', note=UNFOLD_NOTE)
prop('C15', 'Comment stripping and canonical form change only what they say',
     'strip_comments() returns the schema with every type, field and item description that fits the width unchanged and every other '
     'one cut to a text of at most the width (for widths of at least two; an empty text at width zero) that begins as the description '
     'does, and nothing else changed. canonicalize() gives the same result for every order of the options and for every way of '
     'writing a default or a number (minimum size 0 of a type other than Integer, minimum and maximum multiplicity 1, Number bounds '
     'with or without a fraction or exponent), keeps every other option and value as it is, and leaves its own result unchanged. '
     'object_type_schema() and list_type_schema() are inverse and lose no column of a type or field. None of them changes its argument.',
     ['inputs'], 'every schema, description, width and order of options',
     'Tests strip one schema at a few widths and canonicalize schemas whose options are nearly canonical.',
     ['transform/transform.py', 'utils.py'], ['strip_comments', 'etrunc', 'canonicalize', 'opts_sort', 'object_types', 'list_types'],
     technique='abstract interpretation of the source with open descriptions, bounds and width; results compared with each other and with the argument',
     note='Interprets the three functions on families of abstract schemas, all option sets up to three options and all orders of them. '
          'Schemas with types of fewer than five columns are covered for strip_comments only.')
prop('C20', 'Dependencies and the order of types are those of the references',
     'build_deps() names, for every type of a schema, exactly the types it refers to: the types of its fields, the key and value '
     'types and the type an enumeration is derived from (as name of the type, without the marks # and >), in type options and in '
     'field options alike; built-in types are not references and the items of an enumeration are none. analyze() lists exactly the '
     'references (from types and from the roots or exports) without a definition as undefined, and exactly the definitions without '
     'a reference as unreferenced. topo_sort() lists every type that can be reached from the roots exactly once, each after the '
     'roots or after a type that depends on it, and without roots all types in their order; it ends on cyclic schemas.',
     ['inputs'], 'every schema and every dependency graph',
     'Tests sort one graph and analyze a few schemas that use few kinds of reference.',
     ['utils.py', 'core.py'], ['build_deps', 'get_refs', 'analyze', 'topo_sort', 'is_builtin', 'has_fields'],
     technique='abstract interpretation of the source on every kind and position of reference and all graphs of three types, with open type names',
     note='Type names are open texts, so the result holds for all names; every kind of reference is tried alone and in pairs in every '
          'position, graphs are exhaustive for three types.')
prop('C21', 'The JSON text of a schema says the schema',
     'dumps() returns a JSON document, stripped or not, and parsing that document gives the argument back: the same names in the same '
     'order, the same lists with the same elements, and the same texts (with quotes, backslashes, control and non-ASCII characters), '
     'numbers, truth values and nulls, however deeply lists and objects are nested.',
     ['inputs'], 'every schema, and every nesting of lists and objects of texts, numbers, truth values and nulls',
     'Tests dump schemas whose texts need no escapes and whose nesting is that of a schema.',
     ['core.py'], ['dumps', 'dumps_rec'],
     technique='abstract interpretation of the source; the returned text, with holes for open values, is parsed as JSON and compared with the argument',
     note='All texts, names and numbers are open; shapes of nesting are enumerated up to four levels. Trusts json.dumps on single values.')
prop('C12', 'Options, names and configuration convert without loss',
     'The option functions are inverse: topts_s2d() and ftopts_s2d() give every option string of a type or field its name and its value '
     '(true, a text, an integer or a number), field options and type options apart, and refuse a string that starts with any other '
     'character (and a field option where only type options may be); opts_d2s() gives back the same strings in the same order and '
     'refuses unknown names. opts_sort() brings the options, each kept as it is, in one order whatever order they came in; get_optx() '
     'and del_opt() find and remove exactly the option asked for. Exactly the twelve base types are built in, of which Array, Choice, '
     'Map and Record have fields. get_config() is each value the schema gives, and the default for every other.',
     ['inputs'], 'every list of options with every value, every configuration',
     'Tests convert a handful of lists; values 0, 1, empty texts and unusual combinations are where conversions go wrong.',
     ['utils.py', 'definitions.py'], ['topts_s2d', 'ftopts_s2d', 'opts_d2s', 'opts_sort', 'get_optx', 'del_opt', 'is_builtin', 'has_fields', 'get_config'],
     technique='abstract interpretation of the source on every option and pair of options with open values, against an independent option table',
     note='Values are open; single options and pairs are exhaustive, triples sampled. Trusts int() and float() on decimal text.')
prop('C18', 'JIDL says the schema: writing and reading back gives it',
     'jidl_loads(jidl_dumps(schema)) has the same information, and for every type the same name, base type, options (in any order) and '
     'description, and the same fields and items with the same ids, names, types, options and descriptions, for every column layout. '
     'Names, ids, bounds, patterns and descriptions may be any the text format can carry on its line: descriptions without line breaks '
     'that do not start with // or end in blanks, patterns without double quotes, items without //, quotes and colons. Types and fields '
     'that carry field labels instead of names (Array, the id option) keep them.',
     ['inputs'], 'every schema the JIDL text format can carry, and every style',
     'Tests read back a few schemas with short names and plain descriptions; what breaks depends on characters in names, patterns and '
     'descriptions that look like syntax, and on rare combinations of options.',
     ['convert/jidl.py', 'utils.py'], ['jidl_dumps', 'line2jadn', 'jidl_loads', 'jadn2typestr', 'typestr2jadn', 'jadn2fielddef', 'fielddef2jadn', 'cleanup_tagid', 'multiplicity_str'],
     technique='abstract interpretation of writer and reader on abstract schemas; texts are followed as known characters and open tokens with known alphabets through formatting, splitting and regular expressions',
     note='All option sets of a table in every position (type, field, inner type) with open names, descriptions, ids and bounds; particular '
          'descriptions and patterns with syntax characters as constants. The validity check that jidl_loads ends with is taken as accepting.')
prop('C22', 'HTML says the schema: writing and reading back gives it',
     'html_loads(html_dumps(schema)) has the same information, and for every type the same name, base type, options (in any order) and '
     'description, and the same fields and items with the same ids, names, types, options and descriptions, for the schemas that JIDL '
     'can carry (see C18), with markup characters in names, patterns and descriptions escaped.',
     ['inputs'], 'every schema the HTML format can carry',
     'Tests read back a few schemas with plain texts.',
     ['convert/html.py', 'utils.py', 'convert/doc.py'], ['html_dumps', 'line2jadn', 'html_loads', 'jadn2typestr', 'typestr2jadn', 'jadn2fielddef', 'fielddef2jadn', 'cleanup_tagid'],
     technique='abstract interpretation of writer and reader on abstract schemas; the document is followed as elements with partly known texts',
     note='As C18. Trusts lxml to parse what DocHTML writes; element texts are followed through escaping.')
prop('C10', 'Every way of reading a schema returns what check() accepted, and nothing else',
     'loads, load, load_any (for .jadn, .jidl and .html files), jidl_loads and html_loads return a schema only if check() accepted that '
     'very schema: no path returns without the check, nothing is added or replaced after it, and when check() refuses the reader '
     'fails. load_any reads each kind of file with the reader of that kind, giving it the whole text, and refuses every other kind.',
     ['inputs'], 'every text and every way of reading it',
     'Tests read valid schemas, and invalid ones through one reader; a reader that skips the check on some path looks the same until it is given an invalid schema.',
     ['core.py', 'convert/jidl.py', 'convert/html.py'], ['loads', 'load', 'load_any', 'check', 'jidl_loads', 'jidl_load', 'html_loads'],
     technique='abstract interpretation of every reader with check() modelled as accepting and as refusing',
     note='What check() refuses is C11. The contents of the schema are representative; the paths around the check are all followed.')
prop('C23', 'Flat dictionaries and nested ones say the same',
     'For every nested dictionary of dictionaries and lists (none of them empty, keys without the separator and without colons, no '
     'dictionary with exactly the keys 0 to n-1) and every separator: flatten gives each value, whatever it is, under the path of keys and '
     'indices that leads to it and nothing else, and dlist(fluff(flatten(x))) is x. fluff and dlist do not depend on the order of the '
     'flat keys; a dictionary whose keys are not exactly 0 to n-1 stays a dictionary.',
     ['inputs'], 'every nested dictionary and separator',
     'Tests do not call these; wrong results need shared prefixes, lists of more than ten elements, nested lists, null or empty values.',
     ['utils.py'], ['flatten', 'fluff', 'hdict', 'dmerge', 'dlist'],
     technique='abstract interpretation of the source on nested dictionaries and lists with open keys and values',
     note='Keys and values are open; the shapes of nesting (depth up to five, lists up to 25 elements) are a table.')
prop('C16', 'The JSON Schema of a schema asserts what the schema declares',
     'json_schema_dumps describes the verbose JSON messages of every valid schema: it has a definition for each type and no other, and '
     'each definition (and each field, element and key in it) makes the assertions that are declared and no others: JSON kind; '
     'declared or configured bounds of values, lengths and sizes; pattern (looked up in the configuration when it names one) and format; the items of an '
     'enumeration, declared or derived, in each enumeration style; one property per field, named by name or, with the id option, by id, '
     'required unless the field is optional; element, key and value types; arrays for repeated fields with their bounds and uniqueness; unions for combined '
     'choices; references to the definition, or the import, of the type that is named. Descriptions and information are carried along.',
     ['inputs', 'configurations'], 'every valid schema, enumeration style and import style',
     'Tests only run the translation on the example schemas; a lost bound or a wrong reference makes the JSON Schema accept or reject other messages without any error.',
     ['translate/jsonschema_w.py', 'transform/transform.py'], ['json_schema_dumps', 'w_type', 'w_fdef', 'w_kvtype', 'w_enum', 'w_ref', 'w_format', 'pattern', 'get_items',
      't_binary', 't_integer', 't_number', 't_string', 't_enumerated', 't_choice', 't_array', 't_array_of', 't_map', 't_map_of', 'get_enum_items'],
     technique='abstract interpretation of the translation; every definition compared with an independent reading of the type',
     note='All base types, options and positions of a table with open names, bounds, patterns and descriptions. Not covered: the patterns given for network '
          'and EUI formats, the length of encoded binaries, whether absent elements of an Array may be null, and unknown formats.')
prop('C24', 'The Markdown tables of a schema show what the schema says',
     'markdown_dumps gives one table for each type, in the order of the schema. Above (or, for types without fields, in) it are the name, the '
     'definition (base type with every option) and the description of the type; the table has one row for each field or item, in order, with its id, its name (in '
     'front of the description when names are only labels), its type with every option, tag and link, its multiplicity and its whole description, each in the column '
     'headed so, whatever characters the texts hold. The information elements come first.',
     ['inputs'], 'every valid schema with descriptions of one line',
     'Tests only run the conversion on the example schemas; a row that loses or misplaces an option or a text goes unnoticed.',
     ['convert/markdown.py', 'utils.py'], ['markdown_dumps', 'format_table', 'jadn2fielddef', 'jadn2typestr', 'multiplicity_str', 'id_type'],
     technique='abstract interpretation of the source on abstract schemas; the text that results is read as Markdown and compared with an independent reading of the schema',
     note='All base types, options and positions of a table with open names, bounds, patterns and descriptions; open texts hold no markup, texts with markup are a table.')
prop('C25', 'A diagram has the types of a schema and their references',
     'diagram_dumps gives, in both formats, one node for each type (primitive types and enumerations only with attributes), labelled with its name '
     'and, in the information detail, its definition; no fields in the conceptual detail, their names in the logical detail, and id, name, type and multiplicity in the information detail, in order; '
     'and one edge for each reference of a field, element or key to a type that is shown, in the right direction, with the name of the field (or key or value) and its multiplicity '
     'when the style asks for them, dashed exactly for links (left out, or laid out, as the style says); nothing else. Information stays inside comments and markup characters are escaped, so the text is a diagram whatever the texts hold.',
     ['inputs', 'configurations'], 'every valid schema and style',
     'Tests only run the conversion on the example schemas; a lost edge or a wrong multiplicity goes unnoticed.',
     ['convert/diagram_w.py', 'utils.py'], ['diagram_dumps', 'node_leaf', 'node_start', 'node_field', 'edge_type', 'edge_field', 'edge_ref'],
     technique='abstract interpretation of the source on abstract schemas and styles; the text that results is read as a diagram and compared with an independent reading of the schema',
     note='All base types, options and positions of a table with open names, bounds and descriptions; both formats, every level of detail, every style option. The style option enums is not implemented by the package and not judged; a PlantUML class whose definition holds a quote is not judged.')

prop('C26', 'Merging imported packages keeps what the root needs, and every reference',
     'resolve_imports gives, for a root package and a directory of packages, one schema that holds the types the root and exports name and all they refer to, directly or not, in '
     'this package or in others (each exactly once, and no other); types of the root keep their names, those of other packages get names of their own (TypeName$nsid, or unchanged when '
     'their id is one of those not to be added), so types that are called the same, and packages that are given the same id, stay apart. Definitions are unchanged but for the references, '
     'and each reference (of a field, element, key or derived enumeration) names the type it named. Information is kept except the namespaces. The result does not depend '
     'on the order of the directory; a type or namespace id that is not defined is refused; the schema given is not changed.',
     ['inputs', 'configurations'], 'every valid root schema and directory of valid packages',
     'No test runs it; a package reached twice, by two ids or in a cycle, or a reference in an unusual place, gives a schema that lacks a type or means another.',
     ['transform/resolve.py', 'utils.py'], ['resolve_imports', 'resolve', 'add_types', 'merge_typedef', 'merge_tname', 'unique_nsid', 'SchemaPackage.load', 'build_deps'],
     technique='abstract interpretation of the source on families of packages, the merged schema read and compared with an independent merge',
     note='Families of up to five packages with every position of a reference, open names and texts. Packages that are not found are reported by the code and not judged; check() is modelled as accepting.')
