"""Control flow, scoping of PFA documents against the reference semantics."""
from vc.prog import ProgContract, fn

P = 'P07'


def doc(cid, action, stubs=(), prop=P, **kw):
    d = dict(kw.pop('doc', {}), action=action if isinstance(action, list) else [action])
    return ProgContract(cid, prop, d, stubs, **kw)


f = fn('f', x='int', code=9001)
g = fn('g', x='int', code=9002)
h = fn('h', x='int', y='int', code=9003)
p = fn('p', 'boolean', x='int', code=9004)
q = fn('q', 'boolean', x='int', code=9005)
lb = fn('lb', x='int', code=9006, loop=True)

doc('do', {'do': [{'u.f': ['input']}, {'u.h': [{'u.g': ['input']}, {'u.f': [3]}]}]}, [f, g, h])
doc('if', [{'if': {'u.p': ['input']}, 'then': [{'u.f': ['input']}]}, {'u.g': [1]}], [f, g, p])
doc('if-else', {'if': {'u.p': ['input']}, 'then': [{'u.f': ['input']}, {'u.g': [1]}], 'else': [{'u.g': ['input']}]}, [f, g, p])
doc('while', [{'let': {'i': 'input'}}, {'while': {'u.p': ['i']}, 'do': [{'set': {'i': {'u.lb': ['i']}}}]}, 'i'], [p, lb])
doc('until', [{'let': {'i': 'input'}}, {'do': [{'set': {'i': {'u.lb': ['i']}}}], 'until': {'u.p': ['i']}}, 'i'], [p, lb])
doc('for', [{'let': {'s': 0}}, {'for': {'i': 'input', 'j': {'u.f': ['input']}}, 'while': {'u.p': ['i']}, 'step': {'i': {'u.g': ['i']}, 'j': {'u.h': ['i', 'j']}}, 'do': [{'set': {'s': {'u.lb': ['j']}}}]}, 's'], [f, g, h, p, lb])
AI = {'type': 'array', 'items': 'int'}
MI = {'type': 'map', 'values': 'int'}
doc('foreach', [{'let': {'s': 0}}, {'foreach': 'x', 'in': 'input', 'do': [{'set': {'s': {'u.h': ['s', 'x']}}}, {'u.lb': ['x']}]}, 's'], [h, lb], doc={'input': AI})
doc('forkey', [{'let': {'s': 0}}, {'forkey': 'k', 'forval': 'v', 'in': 'input', 'do': [{'set': {'s': {'u.hk': ['k', 's', 'v']}}}]}, 's'],
    [fn('hk', k='string', x='int', y='int', code=9007, loop=True)], doc={'input': MI})
k = fn('k', 'string', x='int', code=9008)
doc('cond', [{'cond': [{'if': {'u.p': ['input']}, 'then': [{'u.f': ['input']}]}, {'if': {'u.q': ['input']}, 'then': [{'u.g': ['input']}, {'u.f': [2]}]}]}, {'u.g': [1]}], [f, g, p, q])
doc('cond-else', {'cond': [{'if': {'u.p': ['input']}, 'then': [{'u.f': ['input']}]}, {'if': {'u.q': ['input']}, 'then': {'u.g': ['input']}},
                           {'if': {'u.p': [7]}, 'then': {'u.g': [7]}}], 'else': [{'u.f': [5]}, {'u.h': ['input', 6]}]}, [f, g, h, p, q])
doc('if-in-while', [{'let': {'i': 'input'}}, {'while': {'u.p': ['i']}, 'do': [{'if': {'u.q': ['i']}, 'then': [{'set': {'i': {'u.f': ['i']}}}], 'else': [{'set': {'i': {'u.g': ['i']}}}]}, {'u.lb': ['i']}]}, 'i'],
    [f, g, p, q, lb])
doc('foreach-fails', [{'foreach': 'x', 'in': 'input', 'do': [{'if': {'u.p': ['x']}, 'then': [{'error': 'bad item', 'code': -77}]}, {'u.lb': ['x']}]}, 3], [p, lb], doc={'input': AI})
doc('foreach-nested', [{'let': {'s': 0}}, {'foreach': 'x', 'in': 'input', 'do': [{'foreach': 'y', 'in': 'input', 'do': [{'set': {'s': {'u.h': ['x', 'y']}}}, {'u.lb': ['s']}]}]}, 's'], [h, lb], doc={'input': AI}, budget=200)
doc('and', {'if': {'&&': [{'u.p': ['input']}, {'u.q': ['input']}]}, 'then': {'u.f': ['input']}, 'else': {'u.g': ['input']}}, [f, g, p, q])
doc('or', {'if': {'||': [{'u.p': ['input']}, {'u.q': ['input']}]}, 'then': {'u.f': ['input']}, 'else': {'u.g': ['input']}}, [f, g, p, q])
doc('not', {'if': {'!': [{'u.p': ['input']}]}, 'then': {'u.f': ['input']}, 'else': {'u.g': ['input']}}, [f, g, p])
doc('if-nested', {'if': {'u.p': ['input']}, 'then': {'if': {'u.q': ['input']}, 'then': {'u.f': [1]}, 'else': {'u.f': [2]}}, 'else': {'if': {'u.q': ['input']}, 'then': {'u.g': [3]}, 'else': {'u.g': [4]}}}, [f, g, p, q])
U3 = ['int', 'string', 'null']
ks = fn('ks', x='string', code=9009)
doc('cast', {'cast': 'input', 'cases': [{'as': 'int', 'named': 'x', 'do': [{'u.g': [0]}, {'u.f': ['x']}]}, {'as': 'string', 'named': 'x', 'do': {'u.ks': ['x']}}, {'as': 'null', 'named': 'x', 'do': {'u.g': [9]}}]},
    [f, g, ks], doc={'input': U3})
doc('cast-partial', [{'cast': 'input', 'cases': [{'as': 'string', 'named': 'y', 'do': {'u.ks': ['y']}}, {'as': 'int', 'named': 'x', 'do': {'u.f': ['x']}}], 'partial': True}, {'u.g': [1]}], [f, g, ks], doc={'input': U3})
fd = fn('fd', x='double', code=9010)
doc('cast-numbers', {'cast': 'input', 'cases': [{'as': 'double', 'named': 'd', 'do': {'u.fd': ['d']}}, {'as': 'string', 'named': 's', 'do': {'u.ks': ['s']}}]}, [fd, ks], doc={'input': ['double', 'string']})
NUM = ['int', 'double', 'string']
num = fn('num', x='double', code=9013)
doc('cast-overlap', {'cast': 'input', 'cases': [{'as': 'int', 'named': 'x', 'do': {'u.f': ['x']}}, {'as': 'double', 'named': 'x', 'do': {'u.fd': ['x']}}, {'as': 'string', 'named': 'x', 'do': {'u.ks': ['x']}}]}, [f, fd, ks], doc={'input': NUM})
doc('cast-overlap-partial', [{'cast': 'input', 'cases': [{'as': 'int', 'named': 'x', 'do': {'u.f': ['x']}}, {'as': 'double', 'named': 'y', 'do': {'u.fd': ['y']}}], 'partial': True}, {'u.g': [1]}], [f, g, fd], doc={'input': NUM})
doc('cast-overlap-last', [{'cast': 'input', 'cases': [{'as': 'double', 'named': 'y', 'do': [{'u.fd': ['y']}, {'u.g': [2]}]}, {'as': 'int', 'named': 'x', 'do': {'u.f': ['x']}}], 'partial': True}, {'u.g': [1]}], [f, g, fd], doc={'input': NUM})
doc('cast-in-loop', [{'foreach': 'x', 'in': 'input', 'do': [{'cast': {'u.un': ['x']}, 'cases': [{'as': 'int', 'named': 'i', 'do': {'u.lb': ['i']}}, {'as': 'null', 'named': 'n', 'do': {'u.f': [0]}}], 'partial': True}]}, 3], [f, lb], doc={'input': AI}) if 0 else None
doc('ifnotnull-three', {'ifnotnull': {'x': 'input'}, 'then': {'cast': 'x', 'cases': [{'as': 'int', 'named': 'i', 'do': {'u.f': ['i']}}, {'as': 'string', 'named': 's', 'do': {'u.ks': ['s']}}]}, 'else': {'u.g': [4]}}, [f, g, ks], doc={'input': ['null', 'int', 'string']})
doc('ifnotnull-calls', {'ifnotnull': {'x': {'try': {'u.f': ['input']}, 'filter': [9001]}}, 'then': {'u.h': ['x', 1]}, 'else': {'u.g': [4]}}, [f, g, h])
doc('ifnotnull', [{'ifnotnull': {'x': 'input'}, 'then': [{'u.g': [0]}, {'u.f': ['x']}]}, {'u.g': [4]}], [f, g], doc={'input': ['int', 'null']})
doc('ifnotnull-else', {'ifnotnull': {'x': 'input'}, 'then': [{'u.g': [0]}, {'u.f': ['x']}], 'else': {'u.g': [4]}}, [f, g], doc={'input': ['null', 'int']})
R2 = {'type': 'record', 'name': 'R2', 'fields': [{'name': 'a', 'type': ['null', 'int']}, {'name': 'b', 'type': ['string', 'null']}]}
doc('ifnotnull-two', {'ifnotnull': {'x': {'attr': 'input', 'path': [['a']]}, 'y': {'attr': 'input', 'path': [['b']]}}, 'then': [{'u.ks': ['y']}, {'u.f': ['x']}], 'else': {'u.g': [4]}}, [f, g, ks], doc={'input': R2})
doc('try', [{'try': [{'u.f': ['input']}, {'u.g': [2]}]}, {'u.h': [1, 2]}], [f, g, h])
doc('try-code', [{'try': [{'u.f': ['input']}, {'u.g': ['input']}], 'filter': [9001]}, {'u.h': [1, 2]}], [f, g, h])
doc('try-message', [{'try': [{'if': {'u.p': ['input']}, 'then': {'error': 'one'}}, {'if': {'u.q': ['input']}, 'then': {'error': 'two', 'code': -3}}, {'u.f': ['input']}], 'filter': ['one', 9001]}, {'u.h': [1, 2]}], [f, h, p, q])
doc('try-runtime', [{'let': {'x': {'try': {'/': [{'u.f': ['input']}, 0]}, 'filter': ['integer overflow']}}}, {'u.g': [3]}], [f, g]) if 0 else None
doc('try-in-loop', [{'let': {'s': 0}}, {'foreach': 'x', 'in': 'input', 'do': [{'let': {'y': {'ifnotnull': {'z': {'try': {'u.h': ['s', 'x']}, 'filter': [9003]}}, 'then': 'z', 'else': 's'}}}, {'set': {'s': 'y'}}, {'u.lb': ['x']}]}, 's'], [h, lb], doc={'input': AI})
doc('try-nested', [{'try': [{'try': [{'u.f': ['input']}, {'u.g': [1]}], 'filter': [9001]}, {'u.h': [1, 'input']}], 'filter': [9003, 9002]}, {'u.f': [7]}], [f, g, h])
doc('try-effects', [{'try': [{'u.g': [1]}, {'log': [{'u.f': ['input']}]}, {'u.h': [1, 'input']}]}, {'u.f': [7]}], [f, g, h])
doc('try-passes', [{'try': [{'u.f': ['input']}, {'error': 'other', 'code': -5}], 'filter': [-6, 'something']}, {'u.g': [7]}], [f, g])
doc('try-in-function', [{'u.safe': ['input']}, {'u.g': [7]}], [f, g, h], doc={'fcns': {'safe': {'params': [{'x': 'int'}], 'ret': 'null', 'do': [{'try': [{'u.h': [{'u.f': ['x']}, 'x']}]}, None]}}})
doc('until-effects', [{'let': {'i': 'input'}}, {'do': [{'set': {'i': {'u.lb': ['i']}}}, {'log': ['i']}], 'until': {'&&': [{'u.p': ['i']}, {'u.q': ['i']}]}}, 'i'], [p, q, lb])
doc('for-fails', [{'for': {'i': {'u.f': ['input']}}, 'while': {'u.p': ['i']}, 'step': {'i': {'u.g': ['i']}}, 'do': [{'if': {'u.q': ['i']}, 'then': {'error': 'stop', 'code': -4}}, {'u.lb': ['i']}]}, 3], [f, g, p, q, lb])
doc('for-in-if', [{'let': {'r': 0}}, {'if': {'u.p': ['input']}, 'then': [{'for': {'i': 0}, 'while': {'u.q': ['i']}, 'step': {'i': {'u.g': ['i']}}, 'do': [{'set': {'r': {'u.lb': ['i']}}}]}], 'else': [{'set': {'r': {'u.f': ['input']}}}]}, 'r'], [f, g, p, q, lb])
doc('do-value', {'u.h': [{'do': [{'u.f': ['input']}, {'u.g': ['input']}]}, {'do': [{'let': {'z': {'u.g': [3]}}}, 'z']}]}, [f, g, h])
doc('cond-calls', [{'let': {'r': 0}}, {'cond': [{'if': {'&&': [{'u.p': ['input']}, {'u.q': ['input']}]}, 'then': {'set': {'r': {'u.f': ['input']}}}}, {'if': {'||': [{'u.p': [1]}, {'u.q': [1]}]}, 'then': {'set': {'r': {'u.g': ['input']}}}},
                                         {'if': {'!': {'u.q': [2]}}, 'then': {'set': {'r': 2}}}]}, 'r'], [f, g, p, q])
doc('forkey-fails', [{'forkey': 'k', 'forval': 'v', 'in': 'input', 'do': [{'if': {'u.p': ['v']}, 'then': {'error': 'stop'}}, {'u.lb': ['v']}]}, 3], [p, lb], doc={'input': MI}, budget=200)
doc('literals', {'u.lit': [{'int': -2147483648}, {'long': 9223372036854775807}, {'double': 2}, {'string': "a'b\\c\"d\n"}, ['plain'], True]}, [fn('lit', a='int', b='long', c='double', d='string', e='string', f='boolean', code=9014)])
doc('literal-value', {'u.lv': [{'type': AI, 'value': [3, -1]}, {'type': 'string', 'value': "it's"}]}, [fn('lv', a=AI, c='string', code=9015)])
doc('error', [{'u.f': ['input']}, {'if': {'u.p': ['input']}, 'then': {'error': 'this one', 'code': -12}}, {'error': 'that one'}, {'u.f': [2]}], [f, p], doc={'output': 'int'})
doc('log', [{'log': [['message'], {'u.f': ['input']}, {'u.g': ['input']}]}, {'log': [{'u.g': ['input']}], 'namespace': 'space'}, 'input'], [f, g])
doc('doc', [{'doc': 'documentation'}, {'u.f': ['input']}], [f])
doc('order-new-array', [{'let': {'a': {'type': AI, 'new': [{'u.f': ['input']}, {'u.g': ['input']}, {'u.h': ['input', 3]}]}}}, 'a'], [f, g, h], doc={'output': AI})
doc('while-nested', [{'let': {'i': 'input', 's': 0}},
                     {'while': {'u.p': ['i']}, 'do': [{'let': {'j': {'u.f': ['i']}}},
                                                      {'while': {'u.q': ['j']}, 'do': [{'set': {'j': {'u.lb': ['j']}}}, {'set': {'s': {'u.h': ['s', 'j']}}}]},
                                                      {'set': {'i': {'u.g': ['i']}}}]}, {'u.h': ['i', 's']}], [f, g, h, p, q, lb], budget=300)
