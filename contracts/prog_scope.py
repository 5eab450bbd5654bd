"""Names: let/set, nested blocks, user functions, inline functions, function references and partial application."""
from contracts.prog_control import AI, MI, doc, f, g, h, lb, p, q
from vc.prog import fn

P = 'P08'


def d(cid, action, stubs, **kw):
    return doc('scope-' + cid, action, stubs, P, **kw)


d('block', [{'let': {'x': 'input'}}, {'do': [{'let': {'y': {'u.f': ['x']}}}, {'set': {'x': {'u.h': ['x', 'y']}}}]}, {'do': [{'let': {'y': {'u.g': ['x']}}}, {'set': {'x': 'y'}}]}, 'x'], [f, g, h])
d('let-value', [{'let': {'a': {'u.f': ['input']}}}, {'let': {'b': 'a'}}, {'set': {'a': {'u.g': ['a']}}}, {'u.h': ['a', 'b']}], [f, g, h])
d('let-two', [{'let': {'a': 1, 'b': 2}}, {'set': {'a': 'b', 'b': 'a'}}, {'u.h': ['a', 'b']}], [h])
d('branch-locals', [{'let': {'r': 0}}, {'if': {'u.p': ['input']}, 'then': [{'let': {'t': {'u.f': ['input']}}}, {'set': {'r': 't'}}], 'else': [{'let': {'t': {'u.g': ['input']}}}, {'set': {'r': {'u.h': ['t', 't']}}}]}, 'r'], [f, g, h, p])
d('loop-locals', [{'let': {'s': 'input'}}, {'while': {'u.p': ['s']}, 'do': [{'let': {'t': {'u.f': ['s']}}}, {'set': {'s': {'u.lb': ['t']}}}]}, 's'], [f, p, lb])
d('user-function', [{'let': {'x': {'u.f': ['input']}}}, {'let': {'r': {'u.twice': ['x']}}}, {'u.h': ['x', 'r']}], [f, g, h],
  doc={'fcns': {'twice': {'params': [{'z': 'int'}], 'ret': 'int', 'do': [{'let': {'y': {'u.g': ['z']}}}, {'set': {'y': {'u.g': ['y']}}}, {'u.h': ['z', 'y']}]}}})
d('user-function-own-names', [{'let': {'y': 'input'}}, {'let': {'r': {'u.own': ['y', 3]}}}, {'u.h': ['y', 'r']}], [f, g, h],
  doc={'fcns': {'own': {'params': [{'x': 'int'}, {'w': 'int'}], 'ret': 'int', 'do': [{'let': {'y': {'u.f': ['w']}}}, {'set': {'y': {'u.h': ['x', 'y']}}}, {'u.other': ['y', 'x']}]},
                'other': {'params': [{'w': 'int'}, {'x': 'int'}], 'ret': 'int', 'do': [{'u.h': ['x', 'w']}]}}})
d('user-function-params', {'u.sub': [{'u.f': ['input']}, {'u.g': ['input']}, 4]}, [f, g, h],
  doc={'fcns': {'sub': {'params': [{'a': 'int'}, {'b': 'int'}, {'c': 'int'}], 'ret': 'int', 'do': [{'u.h': ['c', 'a']}, {'u.h': ['b', 'c']}]}}})
A3 = {'type': 'array', 'items': 'int'}
arr = {'type': A3, 'new': ['input', {'u.g': ['input']}]}
d('inline-map', [{'let': {'y': {'u.f': ['input']}}}, {'a.map': [arr, {'params': [{'x': 'int'}], 'ret': 'int', 'do': [{'let': {'z': {'u.g': ['x']}}}, {'u.h': ['y', 'z']}]}]}], [f, g, h], doc={'output': A3})
d('reference', [{'a.map': [arr, {'fcn': 'u.add'}]}], [g, h], doc={'output': A3, 'fcns': {'add': {'params': [{'x': 'int'}], 'ret': 'int', 'do': [{'u.h': ['x', 'x']}]}}})
d('reference-opaque', [{'a.map': [arr, {'fcn': 'u.f'}]}], [f, g], doc={'output': A3})
d('fill-first', [{'let': {'y': {'u.f': ['input']}}}, {'a.map': [arr, {'fcn': 'u.sub', 'fill': {'a': {'u.g': ['y']}}}]}], [f, g, h],
  doc={'output': A3, 'fcns': {'sub': {'params': [{'a': 'int'}, {'b': 'int'}], 'ret': 'int', 'do': [{'u.h': ['a', 'b']}]}}})
d('fill-last', [{'let': {'y': {'u.f': ['input']}}}, {'a.map': [arr, {'fcn': 'u.sub', 'fill': {'b': 'y'}}]}], [f, g, h],
  doc={'output': A3, 'fcns': {'sub': {'params': [{'a': 'int'}, {'b': 'int'}], 'ret': 'int', 'do': [{'u.h': ['a', 'b']}]}}})
d('fill-middle', [{'let': {'y': {'u.f': ['input']}}}, {'a.fold': [arr, 5, {'fcn': 'u.sub', 'fill': {'b': 'y'}}]}], [f, g, h],
  doc={'fcns': {'sub': {'params': [{'a': 'int'}, {'b': 'int'}, {'c': 'int'}], 'ret': 'int', 'do': [{'u.h': ['a', {'u.h': ['b', 'c']}]}]}}})
d('inline-nested', [{'let': {'y': 'input'}}, {'a.fold': [arr, 0, {'params': [{'t': 'int'}, {'x': 'int'}], 'ret': 'int', 'do': [
    {'a.fold': [{'type': A3, 'new': ['t', 'x']}, 'y', {'params': [{'t2': 'int'}, {'x2': 'int'}], 'ret': 'int', 'do': [{'u.h': ['x', {'u.h': ['t2', 'x2']}]}]}]}]}]}], [g, h])
d('inline-in-loop', [{'let': {'s': 0}}, {'foreach': 'v', 'in': 'input', 'do': [
    {'set': {'s': {'a.fold': [{'type': A3, 'new': ['v', 's']}, 0, {'params': [{'t': 'int'}, {'x': 'int'}], 'ret': 'int', 'do': [{'u.h': ['v', {'u.h': ['t', 'x']}]}]}]}}}]}, 's'], [h], doc={'input': AI})
d('foreach-shadowless', [{'let': {'s': 0}}, {'foreach': 'x', 'in': 'input', 'do': [{'let': {'y': {'u.f': ['x']}}}, {'set': {'s': {'u.h': ['s', 'y']}}}]},
                         {'foreach': 'x', 'in': 'input', 'do': [{'let': {'y': {'u.g': ['x']}}}, {'set': {'s': {'u.h': ['y', 's']}}}]}, 's'], [f, g, h], doc={'input': AI}, budget=200)
d('function-in-loop', [{'let': {'s': 0}}, {'foreach': 'x', 'in': 'input', 'do': [{'set': {'s': {'u.twice': ['s', 'x']}}}]}, 's'], [f, g, h],
  doc={'input': AI, 'fcns': {'twice': {'params': [{'a': 'int'}, {'b': 'int'}], 'ret': 'int', 'do': [{'let': {'s': {'u.h': ['b', 'a']}}}, {'set': {'s': {'u.f': ['s']}}}, 's']}}})
d('loop-in-function', [{'u.run': ['input', 2]}], [f, g, h, p],
  doc={'fcns': {'run': {'params': [{'i': 'int'}, {'n': 'int'}], 'ret': 'int', 'do': [{'let': {'j': 'i'}}, {'while': {'u.p': ['j']}, 'do': [{'set': {'j': {'u.h': ['j', 'n']}}}]}, {'u.h': ['i', 'j']}]}}})
R = {'type': 'record', 'name': 'Pt', 'fields': [{'name': 'a', 'type': 'int'}, {'name': 'b', 'type': AI}, {'name': 'm', 'type': MI}]}
d('attr-get', [{'attr': 'input', 'path': [['b'], {'u.f': [3]}]}], [f], doc={'input': R})
d('attr-get-map', [{'attr': 'input', 'path': [['m'], {'u.k': [3]}]}], [fn('k', 'string', x='int', code=9008)], doc={'input': R})
d('attr-to', [{'let': {'r': 'input'}}, {'let': {'r2': {'attr': 'r', 'path': [['a']], 'to': {'u.f': ['r.a']}}}}, {'u.h': ['r.a', 'r2.a']}], [f, h], doc={'input': R})
d('attr-to-array', [{'let': {'r2': {'attr': 'input', 'path': [['b'], {'u.f': [1]}], 'to': {'u.g': [2]}}}}, 'r2'], [f, g], doc={'input': R, 'output': 'Pt'})
d('attr-to-function', [{'let': {'y': {'u.g': [5]}}}, {'attr': 'input', 'path': [['m'], {'u.k': [3]}], 'to': {'params': [{'old': 'int'}], 'ret': 'int', 'do': [{'u.h': ['old', 'y']}]}}],
  [g, h, fn('k', 'string', x='int', code=9008)], doc={'input': R, 'output': 'Pt'})
d('attr-to-keeps', [{'let': {'r': 'input'}}, {'attr': 'r', 'path': [['b'], 'r.a'], 'to': {'fcn': 'u.f'}}, 'r'], [f], doc={'input': R, 'output': 'Pt'})
