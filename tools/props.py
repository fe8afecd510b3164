"""Source of properties.jsonl and MANIFEST.json: python3 tools/props.py rewrites both."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = 'distribution/src/jadn/'
ABS = 'abstract interpretation of the source (trace-partitioned, path-sensitive dataflow over symbolic abstract states)'
ABS_NOTE = ('Decides, for each obligation, whether a forbidden exit state is reachable from a class of abstract initial '
            'states (symbolic values, bounds and collection sizes) by interpreting the current source of the codec from '
            'construction to exit; loops are summarised, nothing is executed. Trusts the declared models of library '
            'functions (base64, ipaddress, datetime, re, jsonschema: uninterpreted verdicts) and of schema unfolding '
            '(identity); obligations whose analysis loses precision are reported undecided, never as violations.')

PROPS = []
CHECKS = []
NOT_APPLICABLE = []


def mech(files, mechanism):
    return [m if isinstance(m, dict) else {'name': m, 'where': ', '.join(SRC + f for f in files)} for m in mechanism]


def prop(id, title, statement, over, text, why, files, mechanism, state=(), technique=ABS, level='other', note=ABS_NOTE):
    PROPS.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
                  'why_tests_cant': why,
                  'anchors': {'files': [SRC + f for f in files], 'mechanism': mech(files, mechanism),
                              'state': [{'name': n, 'meaning': m} for n, m in state]}})
    CHECKS.append({'property': id, 'quick_cmd': f'python3 -W ignore sa/run.py {id} --quick',
                   'thorough_cmd': f'python3 -W ignore sa/run.py {id} --thorough',
                   'technique': technique, 'level': level, 'level_note': note})


def na(id, title, statement, over, text, why, files, mechanism, reason):
    PROPS.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
                  'why_tests_cant': why,
                  'anchors': {'files': [SRC + f for f in files], 'mechanism': mech(files, mechanism)}})
    NOT_APPLICABLE.append({'property': id, 'reason': reason})


CODEC = ['codec/__init__.py', 'codec/codec.py', 'codec/format_serialize_json.py', 'codec/format_validate.py']

prop('C01', 'Scalar kinds, ranges, sizes and patterns are enforced in both directions',
     'Encoding or decoding a value of a Binary, Boolean, Integer, Number or String type fails when the value has the '
     'wrong kind (a boolean is not a number), lies outside the declared minimum or maximum, has a length outside the '
     'declared (or default) bounds, or does not match the declared pattern (for the library type TypeRef: the one made from the '
     'configured namespace id and type name). A value that satisfies every declared '
     'constraint, including one exactly on a bound, is accepted.',
     ['inputs', 'programs'], 'every schema-declared bound or pattern, every value, both directions',
     'Tests try a few fixed bounds and values per type; the guarantee is about every bound and value on either side.',
     CODEC[:2], ['_check_type', '_check_range', '_check_frange', '_check_size', '_check_pattern',
                 '_encode_* / _decode_* of the scalar types'],
     [('TypeOpts', 'constraints of a type after defaults are applied')])
prop('C02', 'Semantic formats are enforced in both directions',
     'A value of a type with a format (sized integers, date-time, UUID, EUI, IP address or network, email, hostname, '
     'URI and the other text formats, hex and base64 encodings) is accepted by encoding and decoding only if it has '
     'that format in full, and every value that has it is accepted. Anything but text is refused where the serialized '
     'form is text, and times survive to the millisecond.',
     ['inputs'], 'every format keyword the package supports, every value, both directions',
     'Tests sample a handful of values of some formats; ranges, lengths and trailing text are infinite families.',
     CODEC, ['_format_encode', '_format_decode', 'FORMAT_VALIDATE_FUNCTIONS', 'json_format_codecs', 'val_int',
             'val_binary'])
prop('C03', 'Container structure is enforced in every encoding mode',
     'Encoding or decoding a Record, Map, Array, ArrayOf or MapOf fails when the value is no container of the right '
     'kind, lacks a required field, carries an undeclared field, has fewer or more elements than its bounds allow, or '
     'holds equal elements where they must be unique. A well-formed value, with optional fields present or absent, is '
     'accepted in every combination of verbose and concise modes.',
     ['inputs', 'programs', 'configurations'], 'any number of declared fields and elements, every bound, all four '
     'encoding modes, both directions',
     'Tests use a few small records in some modes; the guarantee quantifies over field lists, sizes and modes.',
     CODEC[:2], ['_encode_maprec', '_decode_maprec', '_encode_array', '_decode_array', '_encode_array_of',
                 '_decode_array_of', '_encode_map_of', '_decode_map_of', 'Codec.set_mode'],
     [('symtab', 'per-type encoder, decoder and field tables for the current mode')])
prop('C04', 'Every nested value is handled by its declared type and lands in its own place',
     'The encoding or decoding of a container holds, for each field, element, key and value present, exactly the result '
     'for the declared type of that component, under the right field name, id or position; nothing is dropped, '
     'duplicated, swapped or passed through unchecked. A component that is invalid for its type makes the whole value '
     'invalid, and a field whose type is selected by another field uses the alternative that field names.',
     ['inputs', 'programs', 'configurations'], 'any number of fields and elements, all four encoding modes, both '
     'directions, fields with an external choice tag',
     'A test sees one arrangement of fields; positions, ids and absent optional fields combine without bound.',
     CODEC[:2], ['_encode_maprec', '_decode_maprec', '_encode_array', '_decode_array', '_encode_map_of',
                 '_decode_map_of', 'SymbolTableFieldDefinition.cTag'])
prop('C05', 'Enumerated and tagged Choice values are exactly the declared items',
     'An Enumerated value or the single key of a Choice value is accepted exactly when it is a declared item, given as a '
     'name or an id according to the encoding mode and the id option, and is converted to the corresponding id or name. '
     'A value of another kind, an undeclared item, and a Choice with no key or several keys are refused.',
     ['inputs', 'programs', 'configurations'], 'any number of declared items, any value, all modes, with and without '
     'the id option, both directions',
     'Tests check a few items of small enumerations in some modes.',
     CODEC[:2], ['_encode_enumerated', '_decode_enumerated', '_encode_choice', '_decode_choice', '_check_key',
                 'Codec.set_mode'], [('dMap/eMap', 'item name and id tables for the current mode')])
prop('C06', 'Untagged unions accept by any, all or exactly one alternative',
     'A value of an untagged union is accepted exactly when at least one (anyOf), every (allOf) or exactly one (oneOf) '
     'alternative accepts it, however the other alternatives reject it. The result is the result of an accepting '
     'alternative.',
     ['inputs', 'programs'], 'any number and order of accepting and refusing alternatives, both directions',
     'Tests try one or two unions of scalar types; order, number and the way of failing are unbounded.',
     CODEC[1:2], ['_encode_choice', '_decode_choice'])
prop('C17', 'The codec reports unacceptable values only by ValueError or TypeError',
     'Encoding or decoding any value with any well-formed schema either succeeds or fails with ValueError or TypeError; '
     'no other exception (index, key, attribute, iteration, overflow, assertion errors) escapes.',
     ['inputs', 'programs', 'configurations'], 'any value of any kind against every type, format and mode',
     'Tests feed chosen bad values; the exceptions that escape come from the shapes nobody thought of.',
     CODEC, ['encoders and decoders of every type', 'format functions'])

exec(open(os.path.join(HERE, 'tools', 'props2.py'), encoding='utf-8').read()) if os.path.exists(
    os.path.join(HERE, 'tools', 'props2.py')) else None

PROPS.sort(key=lambda p: p['id'])
CHECKS.sort(key=lambda p: p['property'])
with open(os.path.join(HERE, 'properties.jsonl'), 'w', encoding='utf-8') as f:
    for p in PROPS:
        if not p['anchors'].get('state', True):
            del p['anchors']['state']
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w', encoding='utf-8') as f:
    json.dump({'version': 1, 'setup_cmd': 'python3 -W ignore sa/selftest.py', 'checks': CHECKS,
               'not_applicable': NOT_APPLICABLE}, f, indent=1, ensure_ascii=False)
    f.write('\n')
