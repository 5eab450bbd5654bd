"""The engine's methods: what each phase sees, returns, emits and counts."""
from contracts.prog_control import AI, doc, f, g, h, lb, p, q
from vc.prog import fn
from vc.ptypes import Int

P = 'P06'
sp = fn('sp', 'int', n='string', i='int', m='string', v='int', code=9020)
sp3 = fn('sp3', 'int', n='string', i='int', m='string', code=9021)
ab = fn('ab', 'int', a='long', b='long', code=9022)
META = {'a': 'A', 'b': 'B'}
HEAD = {'name': 'Eng', 'version': 12, 'metadata': META}
IN = {'instance': Int(0, 1000)}
SPEC = {'u.sp': ['name', 'instance', {'attr': 'metadata', 'path': [['b']]}, 'version']}
SPEC3 = {'u.sp3': ['name', 'instance', {'attr': 'metadata', 'path': [['a']]}]}
COUNT = {'u.ab': ['actionsStarted', 'actionsFinished']}


def d(cid, action, stubs, **kw):
    dd = dict({'doc': {}}, **kw)
    return doc('engine-' + cid, action, stubs, P, values=dict(IN), **dd)


def fold(**kw):
    return dict({'method': 'fold', 'zero': 0, 'merge': [{'u.h': ['tallyOne', 'tallyTwo']}]}, **kw)


C = {'cells': {'c': {'type': 'int', 'init': 0}}}
CC = {'cell': 'c', 'to': {'u.f': ['input']}}
d('map', [{'u.f': ['input']}, {'u.g': ['input']}], [f, g], doc=HEAD, checks=True)
d('map-cells', [CC, {'u.g': [{'cell': 'c'}]}], [f, g], doc=dict(HEAD, **C), checks=True)
d('map-specials', [SPEC, COUNT], [sp, ab], doc=HEAD)
d('map-no-version', [SPEC3, COUNT, {'u.f': ['input']}], [sp3, ab, f], doc={'name': 'Other', 'metadata': META})
d('emit', [{'emit': {'u.f': ['input']}}, {'if': {'u.p': ['input']}, 'then': {'emit': {'u.g': ['input']}}}, {'emit': ['input']}], [f, g, p], doc=dict(HEAD, method='emit'), checks=True)
d('emit-specials', [{'emit': SPEC}, {'emit': COUNT}], [sp, ab], doc=dict(HEAD, method='emit'))
d('emit-loop', [{'foreach': 'x', 'in': 'input', 'do': [{'emit': {'u.lb': ['x']}}]}], [lb], doc=dict(HEAD, method='emit', input=AI))
d('emit-function', [{'u.twice': ['input']}, {'u.twice': [{'u.f': [3]}]}], [f, g],
  doc=dict(HEAD, method='emit', fcns={'twice': {'params': [{'x': 'int'}], 'ret': 'null', 'do': [{'emit': 'x'}, {'emit': {'u.g': ['x']}}]}}))
d('emit-reference', [{'u.f': [2]}, {'a.map': [{'type': AI, 'new': ['input', 4]}, {'fcn': 'emit'}]}], [f], doc=dict(HEAD, method='emit')) if 0 else None
d('fold', [{'u.h': ['input', 'tally']}], [h], doc=dict(HEAD, **fold()), checks=True)
d('fold-two', [{'u.f': ['tally']}, {'u.h': ['tally', {'u.g': ['input']}]}], [f, g, h], doc=dict(HEAD, **fold()))
d('fold-specials', [SPEC, COUNT, 'tally'], [sp, ab, h], doc=dict(HEAD, **fold()))
d('merge', [{'u.h': ['input', 'tally']}], [f, h], method='merge', doc=dict(HEAD, **fold(merge=[{'u.f': ['tallyTwo']}, {'u.h': ['tallyTwo', 'tallyOne']}])))
d('merge-specials', [{'u.h': ['input', 'tally']}], [f, h, sp], method='merge', doc=dict(HEAD, **fold(merge=[SPEC, {'u.h': ['tallyOne', 'tallyTwo']}])))
d('begin', [0], [f, g], method='begin', doc=dict(HEAD, output='int', begin=[{'u.f': [1]}, {'cell': 'c', 'to': {'u.g': [2]}}], **C))
d('begin-specials', [0], [sp, f], method='begin', doc=dict(HEAD, output='int', begin=[SPEC, {'u.f': [1]}]))
d('begin-no-version', [0], [sp3], method='begin', doc={'name': 'Third', 'metadata': META, 'output': 'int', 'begin': [SPEC3]})
d('begin-none', [0], [f], method='begin', doc=dict(HEAD, output='int'))
d('begin-emit', [{'emit': 'input'}], [f], method='begin', doc=dict(HEAD, method='emit', output='int', begin=[{'emit': {'u.f': [1]}}, {'emit': {'u.f': [2]}}]))
d('end', [0], [f, g], method='end', doc=dict(HEAD, output='int', end=[{'u.f': [1]}, {'cell': 'c', 'to': {'u.g': [2]}}], **C))
d('end-specials', [0], [sp, ab], method='end', doc=dict(HEAD, output='int', end=[SPEC, COUNT]))
d('end-no-version', [0], [sp3], method='end', doc={'name': 'Third', 'metadata': META, 'output': 'int', 'end': [SPEC3]})
d('end-fold', [{'u.h': ['input', 'tally']}], [f, h], method='end', doc=dict(HEAD, output='int', end=[{'u.f': ['tally']}], **fold()))
d('end-emit', [{'emit': 'input'}], [f], method='end', doc=dict(HEAD, method='emit', output='int', end=[{'emit': {'u.f': [1]}}]))
d('fold-in-loop', [{'let': {'s': 'tally'}}, {'foreach': 'x', 'in': 'input', 'do': [{'set': {'s': {'u.h': ['s', 'x']}}}]}, 's'], [h], doc=dict(HEAD, input=AI, **fold()))
