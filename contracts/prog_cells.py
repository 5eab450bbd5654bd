"""Cells and pools: reading and updating at a path, copies, locks, roll-back."""
from contracts.prog_control import AI, MI, doc, f, g, h, lb, p, q
from vc.prog import fn

P = 'P05'
k = fn('k', 'string', x='int', code=9008)
ga = fn('ga', AI, x='int', code=9011)
R = {'type': 'record', 'name': 'Rec', 'fields': [{'name': 'n', 'type': 'int'}, {'name': 'a', 'type': AI}, {'name': 'm', 'type': MI}]}
R0 = {'n': 0, 'a': [], 'm': {}}
R1 = {'n': 0, 'a': [5], 'm': {'x': 6}}
AA = {'type': 'array', 'items': AI}


def d(cid, action, stubs, **kw):
    return doc('cell-' + cid, action, stubs, P, **kw)


def cells(**c):
    return {n: dict({'type': t[0], 'init': t[1]}, **(t[2] if len(t) > 2 else {})) for n, t in c.items()}


RB = {'rollback': True}
SH = {'shared': True}
INC = {'params': [{'old': 'int'}], 'ret': 'int', 'do': [{'u.h': ['old', 'input']}]}
INCP = {'params': [{'old': 'int'}], 'ret': 'int', 'do': [{'let': {'y': {'u.f': ['old']}}}, {'u.h': ['y', 'input']}]}

# plain cells
d('get', [{'u.f': [{'cell': 'c'}]}], [f], doc={'cells': cells(c=('int', 0), other=('int', 0))})
d('get-path', [{'cell': 'c', 'path': [['a'], {'u.f': ['input']}]}], [f], doc={'cells': cells(c=(R, R0))})
d('get-map', [{'cell': 'c', 'path': [['m'], {'u.k': ['input']}]}], [k], doc={'cells': cells(c=(R, R0))})
d('to-value', [{'let': {'before': {'cell': 'c'}}}, {'let': {'r': {'cell': 'c', 'to': {'u.f': ['input']}}}}, {'u.h': ['before', 'r']}], [f, h], doc={'cells': cells(c=('int', 0), other=('int', 0))})
d('to-function', [{'cell': 'c', 'to': INCP}, {'cell': 'other'}], [f, h], doc={'cells': cells(c=('int', 0), other=('int', 0))})
d('to-reference', [{'cell': 'c', 'to': {'fcn': 'u.f'}}], [f], doc={'cells': cells(c=('int', 0))})
d('to-array', [{'let': {'old': {'cell': 'c'}}}, {'cell': 'c', 'path': [{'u.g': ['input']}], 'to': {'u.f': ['input']}}, 'old'], [f, g], doc={'cells': cells(c=(AI, [])), 'output': AI})
d('to-array-function', [{'let': {'old': {'cell': 'c'}}}, {'cell': 'c', 'path': [{'u.g': ['input']}], 'to': INC}, 'old'], [g, h], doc={'cells': cells(c=(AI, [])), 'output': AI})
d('to-map', [{'let': {'old': {'cell': 'c'}}}, {'cell': 'c', 'path': [{'u.k': ['input']}], 'to': {'u.f': ['input']}}, 'old'], [f, k], doc={'cells': cells(c=(MI, {})), 'output': MI})
d('to-record', [{'cell': 'c', 'path': [['n']], 'to': INC}, {'cell': 'c', 'path': [['a'], 0], 'to': {'u.f': [1]}}, 3], [f, h], doc={'cells': cells(c=(R, R0))})
d('to-record-map', [{'cell': 'c', 'path': [['m'], {'u.k': ['input']}], 'to': {'fcn': 'u.f'}}, 3], [f, k], doc={'cells': cells(c=(R, R0))}, budget=200)
d('to-keeps-copies', [{'let': {'r': {'cell': 'c'}}}, {'cell': 'c', 'path': [['n']], 'to': {'u.f': ['input']}}, {'u.h': ['r.n', {'cell': 'c', 'path': [['n']]}]}], [f, h], doc={'cells': cells(c=(R, R0))})
d('two', [{'cell': 'c', 'to': {'u.f': [{'cell': 'e'}]}}, {'cell': 'e', 'to': {'u.g': [{'cell': 'c'}]}}, {'u.h': [{'cell': 'c'}, {'cell': 'e'}]}], [f, g, h], doc={'cells': cells(c=('int', 0), e=('int', 0))})
d('loop', [{'foreach': 'x', 'in': 'input', 'do': [{'cell': 'c', 'to': {'params': [{'old': 'int'}], 'ret': 'int', 'do': [{'u.h': ['old', 'x']}]}}]}, {'cell': 'c'}], [h], doc={'input': AI, 'cells': cells(c=('int', 0))})
d('function', [{'u.bump': ['input']}, {'u.bump': [{'cell': 'c'}]}], [h],
  doc={'cells': cells(c=('int', 0)), 'fcns': {'bump': {'params': [{'x': 'int'}], 'ret': 'int', 'do': [{'cell': 'c', 'to': {'params': [{'old': 'int'}], 'ret': 'int', 'do': [{'u.h': ['old', 'x']}]}}]}}})
# roll-back
d('rollback', [{'cell': 'c', 'to': {'u.f': ['input']}}, {'cell': 'e', 'to': {'u.g': ['input']}}, {'u.h': [{'cell': 'c'}, {'cell': 'e'}]}], [f, g, h],
  doc={'cells': cells(c=('int', 0, RB), e=('int', 0))})
d('rollback-twice', [{'cell': 'c', 'to': {'u.f': ['input']}}, {'cell': 'c', 'to': {'u.g': [{'cell': 'c'}]}}, {'u.h': [1, {'cell': 'c'}]}], [f, g, h], doc={'cells': cells(c=('int', 0, RB))})
d('rollback-record', [{'cell': 'c', 'path': [['a'], {'u.g': ['input']}], 'to': {'u.f': ['input']}}, {'u.h': [1, 2]}], [f, g, h], doc={'cells': cells(c=(R, R0, RB))})
d('rollback-try', [{'try': [{'cell': 'c', 'to': {'u.f': ['input']}}, {'u.g': ['input']}]}, {'u.h': [1, {'cell': 'c'}]}], [f, g, h], doc={'cells': cells(c=('int', 0, RB))})
d('rollback-timeless', [{'foreach': 'x', 'in': 'input', 'do': [{'cell': 'c', 'to': {'u.f': ['x']}}]}, {'cell': 'c'}], [f], doc={'input': AI, 'cells': cells(c=('int', 0, RB))})
d('rollback-merge', [{'u.h': ['input', 'tally']}], [f, g, h], method='merge',
  doc={'method': 'fold', 'zero': 0, 'merge': [{'cell': 'c', 'to': {'u.f': ['tallyOne']}}, {'pool': 'p', 'path': [['x']], 'to': {'u.f': [3]}, 'init': 0}, {'cell': 'e', 'to': {'u.g': ['tallyTwo']}}, {'u.h': ['tallyOne', 'tallyTwo']}],
       'cells': cells(c=('int', 0, RB), e=('int', 0)), 'pools': {'p': {'type': 'int', 'rollback': True}}})
d('rollback-fold', [{'cell': 'c', 'to': {'u.f': ['tally']}}, {'u.h': ['input', 'tally']}], [f, h],
  doc={'method': 'fold', 'zero': 0, 'merge': [0], 'cells': cells(c=('int', 0, RB))})
d('rollback-emit', [{'cell': 'c', 'to': {'u.f': ['input']}}, {'emit': [{'cell': 'c'}]}, {'u.g': ['input']}], [f, g], doc={'method': 'emit', 'cells': cells(c=('int', 0, RB))})
d('no-rollback-end', [0], [f, g], method='end', doc={'output': 'int', 'end': [{'cell': 'c', 'to': {'u.f': [1]}}, {'u.g': [2]}], 'cells': cells(c=('int', 0))})
# shared cells
d('shared-function', [{'cell': 'c', 'to': INCP}], [f, h], doc={'cells': cells(c=('int', 0, SH))}, shared=['c'])
d('shared-value', [{'cell': 'c', 'to': {'u.f': ['input']}}], [f], doc={'cells': cells(c=('int', 0, SH))}, shared=['c'])
d('shared-record', [{'cell': 'c', 'path': [['n']], 'to': INC}, 4], [h], doc={'cells': cells(c=(R, R0, SH))}, shared=['c'])
d('shared-array', [{'cell': 'c', 'path': [{'u.g': ['input']}], 'to': {'u.f': ['input']}}, 4], [f, g], doc={'cells': cells(c=(AI, [], SH))}, shared=['c'])
d('shared-reference', [{'cell': 'c', 'to': {'fcn': 'u.f'}}], [f], doc={'cells': cells(c=('int', 0, SH), e=('int', 0))}, shared=['c'])

# nested containers
RA = {'type': 'array', 'items': {'type': 'record', 'name': 'It', 'fields': [{'name': 'u', 'type': 'int'}, {'name': 'v', 'type': 'int'}]}}
MA = {'type': 'map', 'values': AI}
d('nested-arrays', [{'let': {'old': {'cell': 'c'}}}, {'cell': 'c', 'path': [{'u.g': ['input']}, {'u.g': [3]}], 'to': {'u.f': ['input']}}, 'old'], [f, g], doc={'cells': cells(c=(AA, [])), 'output': AA}, budget=240)
d('array-of-records', [{'let': {'old': {'cell': 'c'}}}, {'cell': 'c', 'path': [{'u.g': ['input']}, ['v']], 'to': {'fcn': 'u.f'}}, {'u.h': [{'cell': 'c', 'path': [0, ['u']]}, {'attr': 'old', 'path': [0, ['v']]}]}], [f, g, h],
  doc={'cells': cells(c=(RA, []))}, budget=240)
d('map-of-arrays', [{'let': {'old': {'cell': 'c'}}}, {'cell': 'c', 'path': [{'u.k': ['input']}, {'u.g': [3]}], 'to': {'u.f': ['input']}}, 'old'], [f, g, k], doc={'cells': cells(c=(MA, {})), 'output': MA}, budget=300)
NR = {'type': 'record', 'name': 'Out', 'fields': [{'name': 'x', 'type': {'type': 'record', 'name': 'In', 'fields': [{'name': 'y', 'type': 'int'}, {'name': 'z', 'type': 'int'}]}}, {'name': 'w', 'type': 'int'}]}
d('record-in-record', [{'let': {'old': {'cell': 'c'}}}, {'cell': 'c', 'path': [['x'], ['z']], 'to': INC}, {'u.h': ['old.x.z', {'cell': 'c', 'path': [['x'], ['z']]}]}], [h],
  doc={'cells': cells(c=(NR, {'x': {'y': 1, 'z': 2}, 'w': 3}, RB))})

# pools


def pools(t, **kw):
    return {'p': dict({'type': t}, **kw), 'other': {'type': t}}


def o(cid, action, stubs, **kw):
    return doc('pool-' + cid, action, stubs, P, **kw)


o('get', [{'pool': 'p', 'path': [{'u.k': ['input']}]}], [k], doc={'pools': pools('int')})
o('get-path', [{'pool': 'p', 'path': [{'u.k': ['input']}, ['n']]}], [k], doc={'pools': pools(R)})
o('to-value', [{'pool': 'p', 'path': [{'u.k': ['input']}], 'to': {'u.f': ['input']}, 'init': {'u.g': [0]}}], [f, g, k], doc={'pools': pools('int')})
o('to-function', [{'pool': 'p', 'path': [{'u.k': ['input']}], 'to': INC, 'init': 7}], [h, k], doc={'pools': pools('int')})
o('to-reference', [{'pool': 'p', 'path': [{'u.k': ['input']}], 'to': {'fcn': 'u.f'}, 'init': {'u.g': [0]}}], [f, g, k], doc={'pools': pools('int')})
o('to-record', [{'pool': 'p', 'path': [{'u.k': ['input']}, ['n']], 'to': INC, 'init': {'type': 'Rec', 'value': R1}}, 4], [h, k], doc={'pools': pools(R)})
o('to-array', [{'pool': 'p', 'path': [{'u.k': ['input']}, {'u.g': [2]}], 'to': {'u.f': ['input']}, 'init': {'u.ga': ['input']}}, 4], [f, g, ga, k], doc={'pools': pools(AI)}, budget=240)
o('two-keys', [{'pool': 'p', 'path': [{'u.k': ['input']}], 'to': {'u.f': [1]}, 'init': 0}, {'pool': 'p', 'path': [{'u.k': [2]}], 'to': {'u.f': [2]}, 'init': 0}, {'pool': 'p', 'path': [{'u.k': ['input']}]}], [f, k], doc={'pools': pools('int')})
o('del', [{'pool': 'p', 'del': {'u.k': ['input']}}, 3], [k], doc={'pools': pools('int')})
o('del-then-get', [{'pool': 'p', 'del': {'u.k': ['input']}}, {'pool': 'p', 'path': [{'u.k': [1]}]}], [k], doc={'pools': pools('int')})
o('rollback', [{'pool': 'p', 'path': [{'u.k': ['input']}], 'to': {'u.f': ['input']}, 'init': 0}, {'u.g': ['input']}], [f, g, k], doc={'pools': pools('int', rollback=True)})
o('rollback-del', [{'pool': 'p', 'del': {'u.k': ['input']}}, {'u.g': ['input']}], [g, k], doc={'pools': pools('int', rollback=True)})
o('rollback-both', [{'pool': 'p', 'path': [{'u.k': ['input']}, ['n']], 'to': {'u.f': ['input']}, 'init': {'type': 'Rec', 'value': R1}}, {'pool': 'other', 'path': [['x']], 'to': {'u.f': [3]}, 'init': {'u.f': [9]}}, {'u.g': ['input']}],
  [f, g, k], doc={'pools': {'p': {'type': R, 'rollback': True}, 'other': {'type': 'int'}}})
o('shared-function', [{'pool': 'p', 'path': [{'u.k': ['input']}], 'to': INCP, 'init': 7}], [f, h, k], doc={'pools': pools('int', shared=True)}, shared=['p'])
o('shared-value', [{'pool': 'p', 'path': [{'u.k': ['input']}], 'to': {'u.f': ['input']}, 'init': 7}], [f, k], doc={'pools': pools('int', shared=True)}, shared=['p'])
o('shared-record', [{'pool': 'p', 'path': [{'u.k': ['input']}, ['n']], 'to': {'fcn': 'u.f'}, 'init': {'type': 'Rec', 'value': R1}}, 4], [f, k], doc={'pools': pools(R, shared=True)}, shared=['p'])
o('nested-arrays', [{'pool': 'p', 'path': [{'u.k': ['input']}, {'u.g': [2]}], 'to': {'u.f': ['input']}, 'init': {'u.ga': ['input']}}, {'pool': 'p', 'path': [{'u.k': ['input']}, ['a']], 'to': {'u.f': ['input']}, 'init': {'u.ga': ['input']}}, 4], [f, g, ga, k], doc={'pools': pools(AI)}, budget=240) if 0 else None
o('keeps-copies', [{'let': {'old': {'pool': 'p', 'path': [['x']]}}}, {'pool': 'p', 'path': [['x'], ['n']], 'to': {'u.f': ['input']}, 'init': {'type': 'Rec', 'value': R1}}, {'u.h': ['old.n', {'pool': 'p', 'path': [['x'], ['n']]}]}], [f, h], doc={'pools': pools(R)})
o('keeps-init', [{'let': {'i': {'u.gr': ['input']}}}, {'pool': 'p', 'path': [['x'], ['n']], 'to': {'u.f': ['input']}, 'init': 'i'}, {'u.h': ['i.n', 2]}], [f, h, fn('gr', R, x='int', code=9012)], doc={'pools': pools(R)})
o('merge-rollback', [{'u.h': ['input', 'tally']}], [f, g, h], method='merge',
  doc={'method': 'fold', 'zero': 0, 'merge': [{'pool': 'p', 'path': [['x']], 'to': {'u.f': ['tallyOne']}, 'init': 0}, {'pool': 'p', 'del': ['y']}, {'u.g': [2]}, {'u.h': ['tallyOne', 'tallyTwo']}], 'pools': pools('int', rollback=True)})
