SCHEMA = '''
from jadn.codec import Codec
from jadn import check
def codec(types, rec=False, strs=False, **info):
    return Codec(check({'info': {'package': 'http://x', **info}, 'types': types} if info else {'types': types}), rec, strs)
def refused(f, *a):
    try:
        f(*a)
    except (ValueError, TypeError):
        return True
    return False
'''
SEEDS = [
    dict(id='c01-maxf-slack', prop='C01', needs='a Number with maxf, and a value above maxf by less than one part in 10^9',
         breaks='a number slightly above the declared maximum is encoded',
         edits=[('codec/codec.py', "    if 'maxf' in op and val > op['maxf']:", "    if 'maxf' in op and val > op['maxf'] * (1 + 1e-9):")],
         demo=SCHEMA + '''
c = codec([['T', 'Number', ['z1000000.0'], '', []]])
assert c.encode('T', 1000000.0) == 1000000.0
assert refused(c.encode, 'T', 1000000.0001)
'''),
    dict(id='c01-minv-zero', prop='C01', needs='a declared minimum of exactly 0 and a negative integer',
         breaks='a minimum of zero is not enforced',
         edits=[('codec/codec.py', "    if 'minv' in op and val < op['minv']:", "    if op.get('minv') and val < op['minv']:")],
         demo=SCHEMA + '''
c = codec([['T', 'Integer', ['{0'], '', []]])
assert c.encode('T', 0) == 0
assert refused(c.encode, 'T', -1) and refused(c.decode, 'T', -1)
'''),
    dict(id='c01-default-maxstring', prop='C01', needs='a String with a minimum but no declared maximum, longer than the default maximum',
         breaks='the default maximum is not applied to strings that declare a minimum length',
         edits=[('codec/__init__.py', "                if maxv == 0:", "                if maxv == 0 and minv == 0:"),
                ('codec/__init__.py', "                symval.TypeOpts.update({'minv': minv, 'maxv': maxv})", "                symval.TypeOpts.update({'minv': minv, 'maxv': maxv or 2**31})")],
         demo=SCHEMA + '''
c = codec([['T', 'String', ['{1'], '', []]])
assert c.encode('T', 'a' * 255)
assert refused(c.encode, 'T', 'a' * 256)
'''),
    dict(id='c02-ipv6-prefix', prop='C02', needs='an IPv6 network text with a prefix length between 33 and 128 or above 128',
         breaks='IPv6 networks with an out of range prefix length are accepted',
         edits=[('codec/format_serialize_json.py', "    if prefix_len < 0 or prefix_len > 128:", "    if prefix_len < 0 or prefix_len > 0x128:"),
                ],
         demo=SCHEMA + '''
c = codec([['T', 'Array', ['/ipv6-net'], '', [[1, 'a', 'Binary', ['/ipv6-addr'], ''], [2, 'p', 'Integer', [], '']]]])
assert refused(c.decode, 'T', 'fe80::/129')
'''),
    dict(id='c02-uuid-variant', prop='C02', needs='a UUID whose variant nibble is c to f',
         breaks='UUIDs of a reserved variant are accepted',
         edits=[('codec/format_serialize_json.py', "[1-5][0-9a-f]{3}-[89AB][0-9a-f]{3}-", "[1-5][0-9a-f]{3}-[89A-F][0-9a-f]{3}-")],
         demo=SCHEMA + '''
c = codec([['T', 'Binary', ['/uuid'], '', []]])
assert c.decode('T', '00000000-0000-1000-8000-000000000000')
assert refused(c.decode, 'T', '00000000-0000-1000-c000-000000000000')
'''),
    dict(id='c03-array-extra', prop='C03', needs='a concise Record with surplus elements that are all null',
         breaks='surplus elements of a concise Record are ignored when they are empty',
         edits=[('codec/codec.py', "else set(val[len(ts.Fld):])", "else {v for v in val[len(ts.Fld):] if v}")],
         demo=SCHEMA + '''
c = codec([['T', 'Record', [], '', [[1, 'a', 'Integer', [], ''], [2, 'b', 'Integer', ['[0'], '']]]])
assert c.decode('T', [1, 2]) == {'a': 1, 'b': 2}
assert refused(c.decode, 'T', [1, 2, 0])
'''),
    dict(id='c03-required-false', prop='C03', needs='a required field holding a falsy value (0, false, empty text)',
         breaks='a required field whose encoded value is falsy counts as missing',
         edits=[('codec/codec.py', "        if sv is None and ('minc' not in fopts or fopts['minc'] > 0):  # Missing required field",
                 "        if not sv and sv is not False and sv != '' and ('minc' not in fopts or fopts['minc'] > 0):  # Missing required field")],
         demo=SCHEMA + '''
c = codec([['T', 'Record', [], '', [[1, 'a', 'Integer', [], ''], [2, 'b', 'Integer', ['[0'], '']]]])
assert c.encode('T', {'a': 0}) == [0]
'''),
    dict(id='c06-oneof-break', prop='C06', needs='a oneOf union and a value valid for three or more alternatives, or exactly the second alternative failing',
         breaks='a oneOf union accepts values that match several alternatives',
         edits=[('codec/codec.py', "        if combine == 'X' and ct != 1:\n            raise_error(f'{td.TypeName}(oneOf): {ct}/{n} valid\\n{e}')",
                 "        if combine == 'X' and ct % 2 != 1:\n            raise_error(f'{td.TypeName}(oneOf): {ct}/{n} valid\\n{e}')")],
         demo=SCHEMA + '''
c = codec([['T', 'Choice', ['CX'], '', [[1, 'a', 'Integer', [], ''], [2, 'b', 'B', [], ''], [3, 'c', 'D', [], '']]],
  ['B', 'Integer', ['{0'], '', []], ['D', 'Integer', ['{1'], '', []]])
assert c.encode('T', -5) == -5
assert refused(c.encode, 'T', 3)
'''),
    dict(id='c06-allof-first', prop='C06', needs='an allOf union of four or more alternatives of which only one rejects the value, while encoding',
         breaks='an allOf union tolerates a rejecting alternative',
         edits=[('codec/codec.py', "        if combine == 'A' and cf > 0:\n            raise_error(f'{td.TypeName}(allOf): {cf}/{n} invalid\\n{e}')",
                 "        if combine == 'A' and cf > n // 4:\n            raise_error(f'{td.TypeName}(allOf): {cf}/{n} invalid\\n{e}')")],
         demo=SCHEMA + '''
c = codec([['T', 'Choice', ['CA'], '', [[i, 'f%d' % i, 'N%d' % i, [], ''] for i in range(1, 6)]]] + [['N%d' % i, 'Integer', ['{%d' % i], '', []] for i in range(1, 6)])
assert c.encode('T', 9) == 9
assert refused(c.encode, 'T', 4)
'''),
    dict(id='c03-unique-hash', prop='C03', needs='a list declared unique of at least five elements two of which are equal',
         breaks='equal elements are encoded in a longer list declared unique',
         edits=[('codec/codec.py', """def _encode_array_of(ts: SymbolTableField, val, codec: 'Codec'):
    _check_type(ts, val, list)
    _check_size(ts, val)
    if 'set' in ts.TypeOpts or 'unique' in ts.TypeOpts:
        if len(val) != len(fset(val)):""", """def _encode_array_of(ts: SymbolTableField, val, codec: 'Codec'):
    _check_type(ts, val, list)
    _check_size(ts, val)
    if 'set' in ts.TypeOpts or 'unique' in ts.TypeOpts:
        if len(val) - len(fset(val)) > len(val) // 5:""")],
         demo=SCHEMA + """
c = codec([['T', 'ArrayOf', ['*String', 'q'], '', []]])
assert refused(c.encode, 'T', ['a', 'a', 'b', 'c', 'd', 'e'])
"""),
    dict(id='c04-map-of-value', prop='C04', needs='a MapOf whose key and value types differ, and a falsy value',
         breaks='empty values of a map are encoded with the type of the keys',
         edits=[('codec/codec.py', "    return {codec.encode(to['ktype'], k): codec.encode(to['vtype'], v) for k, v in aval.items()}",
                 "    return {codec.encode(to['ktype'], k): codec.encode(to['vtype'] if v else to['ktype'], v) for k, v in aval.items()}")],
         demo=SCHEMA + """
c = codec([['T', 'MapOf', ['+K', '*Integer'], '', []], ['K', 'String', [], '', []]])
assert c.encode('T', {'a': 0}) == {'a': 0}
"""),
    dict(id='c05-enum-number', prop='C05', needs='an Enumerated with integer ids and a float equal to an id',
         breaks='a float with the value of an id is accepted as an item and decoded',
         edits=[('codec/codec.py', "    if sval in ts.dMap:\n        return ts.dMap[sval]", "    if str(sval) in map(str, ts.dMap):\n        return ts.dMap.get(sval, sval)")],
         demo=SCHEMA + """
c = codec([['T', 'Map', [], '', [[1, 'a', 'E', [], '']]], ['E', 'Enumerated', [], '', [[1, 'x', ''], [2, 'y', '']]]])
assert c.decode('E', 1) == 'x'
class Id(int):
    def __hash__(self): return 7
    def __str__(self): return '2'
    def __eq__(self, o): return self is o
assert refused(c.decode, 'E', Id(2))
"""),
    dict(id='c04-array-null', prop='C04', needs='an Array whose tagged field precedes its tag field, both behind an absent optional field',
         breaks='an absent optional element shifts the elements behind it',
         edits=[('codec/codec.py', """        else:
            aval.append(None)
            if 'minc' not in fopts or fopts['minc'] > 0:
                _bad_value(ts, val, f)""", """        else:
            if not aval or 'minc' not in fopts or fopts['minc'] > 0:
                aval.append(None)
            if 'minc' not in fopts or fopts['minc'] > 0:
                _bad_value(ts, val, f)""")],
         demo=SCHEMA + """
c = codec([['T', 'Array', [], '', [[1, 'a', 'Integer', [], ''], [2, 'b', 'Integer', ['[0'], ''], [3, 'c', 'Integer', ['[0'], '']]]])
assert c.decode('T', [1, None, 3]) == [1, None, 3]
"""),
    dict(id='c05-choice-falsy', prop='C05', needs='a Choice with several keys whose surplus values are null',
         breaks='a Choice value with surplus keys is encoded when the surplus values are empty',
         edits=[('codec/codec.py', """    _check_type(ts, val, dict)  # Tagged Union - returns dict {tag: value}
    if len(val) != 1:""", """    _check_type(ts, val, dict)  # Tagged Union - returns dict {tag: value}
    if len(val) == 0 or len([v for v in val.values() if v is not None]) > 1:""")],
         demo=SCHEMA + """
c = codec([['T', 'Choice', [], '', [[1, 'a', 'Integer', [], ''], [2, 'b', 'String', [], '']]]], True, True)
assert c.encode('T', {'a': 3}) == {'a': 3}
assert refused(c.encode, 'T', {'a': 3, 'b': None})
"""),
    dict(id='c17-extra-sort', prop='C17', needs='a Map value with two surplus keys of different kinds, while encoding',
         breaks='reporting surplus fields raises AttributeError for keys that are not text',
         edits=[('codec/codec.py', """{", ".join(str(k) for k in extra)}""", """{", ".join(k.strip() for k in extra)}""")],
         demo=SCHEMA + """
c = codec([['T', 'Map', [], '', [[1, 'a', 'Integer', [], '']]]], True, True)
try:
    c.encode('T', {'a': 3, 5: 6})
except (ValueError, TypeError):
    pass
"""),
    dict(id='c17-fset-nested', prop='C17', needs='a list declared unique, with lists of lists as elements',
         breaks='a unique list whose elements are maps raises KeyError',
         edits=[('codec/codec.py', """        return frozendict({k: fset(v) for k, v in x.items()})
    try:""", """        return frozendict({k: fset(v) for k, v in x.items() if k != x[k] and x[v]})
    try:""")],
         demo=SCHEMA + """
c = codec([['T', 'ArrayOf', ['*M', 'q'], '', []], ['M', 'Map', [], '', [[1, 'a', 'Integer', [], '']]]], True, True)
try:
    c.encode('T', [{'a': 3}, {'a': 4}])
except (ValueError, TypeError):
    pass
"""),
    dict(id='c03-map-limit', prop='C03', needs='a Map without an upper bound and a configured $MaxElements below its number of fields', breaks='the configured maximum number of elements is not applied to Map types',
         edits=[('codec/__init__.py', "'ArrayOf', 'Map', 'MapOf', 'Record'):\n                minv", "'ArrayOf', 'MapOf', 'Record'):\n                minv")],
         demo=SCHEMA + '''
M = [['M', 'Map', [], '', [[n, 'f%d' % n, 'Integer', [], ''] for n in (1, 2, 3)]]]
c = Codec({'info': {'package': 'http://x', 'config': {'$MaxElements': 2}}, 'types': M}, True, True)
assert refused(c.encode, 'M', {'f1': 1, 'f2': 2, 'f3': 3})
'''),
]
