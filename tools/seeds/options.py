J = '''
import jadn
from jadn.utils import *
from jadn.utils import opts_d2s, opts_sort, get_config, get_optx, topts_s2d, ftopts_s2d
'''
U, D = 'utils.py', 'definitions.py'
SEEDS = [
    dict(id='c12-one', prop='C12', needs='a field whose tag is the field with id 0', breaks='the id 0 of a tag field is dropped from the option string',
         edits=[(U, "{'' if v is True else str(v)}", "{'' if v is True or v == 0 and k == 'tagid' else str(v)}")],
         demo=J + '''assert opts_d2s({'tagid': 0}) == ['&0'], opts_d2s({'tagid': 0})'''),
    dict(id='c12-tie', prop='C12', needs='a list with both extend and default', breaks='two options have the same place in the canonical order',
         edits=[(D, "33: ('default', lambda x: x, 18),", "33: ('default', lambda x: x, 17),")],
         demo=J + '''
a, b = ['X', '!v'], ['!v', 'X']
opts_sort(a); opts_sort(b)
assert a == b
'''),
    dict(id='c12-config', prop='C12', needs='a configuration value that is empty', breaks='an empty configuration value is replaced by the default',
         edits=[(U, "        config.update(meta.get('config', {}))", "        config.update({k: v for k, v in meta.get('config', {}).items() if v})")],
         demo=J + '''assert get_config({'package': 'x', 'config': {'$Sys': ''}})['$Sys'] == ''
'''),
]
