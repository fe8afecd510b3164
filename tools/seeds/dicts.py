J = '''
from jadn.utils import flatten, fluff, dlist, hdict
def back(x, sep='.'):
    y = dlist(fluff(flatten(x, sep=sep), sep))
    assert y == x, (x, y)
'''
U = 'utils.py'
SEEDS = [
    dict(id='c23-order', prop='C23', needs='a list of more than ten elements', breaks='list elements are put back in the order of their index as text',
         edits=[(U, "            src = [src[str(k)] for k in range(len(src))]", "            src = [v for _, v in sorted(src.items())]")],
         demo=J + '''back({'a': [1, 2]})
back({'a': list(range(12))})'''),
    dict(id='c23-null', prop='C23', needs='a value that is null', breaks='null values are lost',
         edits=[(U, "    else:\n        fcmd[path] = cmd\n    return fcmd", "    elif cmd is not None:\n        fcmd[path] = cmd\n    return fcmd")],
         demo=J + '''back({'a': {'b': None, 'c': [0, '']}})'''),
    dict(id='c23-depth', prop='C23', needs='a hierarchical key of more than three levels', breaks='only the first levels of a key are split',
         edits=[(U, "reversed(keys.split(sep)), value)", "reversed(keys.split(sep, 3)), value)")],
         demo=J + '''back({'a': {'b': {'c': 1, 'd': 2}}})
back({'a': {'b': {'c': {'d': {'e': 1}}}}})'''),
    dict(id='c23-gap', prop='C23', needs='a dictionary with numeric keys that do not start at 0', breaks='dictionaries with numeric keys become lists whatever the numbers',
         edits=[(U, "            src = [src[str(k)] for k in range(len(src))]\n    return src", "            src = [src[str(k)] for k in range(len(src))]\n        elif src and all(k.isdecimal() for k in src):\n            src = list(src.values())\n    return src")],
         demo=J + '''assert dlist({'a': {'1': 'x', '2': 'y'}}) == {'a': {'1': 'x', '2': 'y'}}'''),
]
