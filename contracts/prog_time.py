"""Time limits: every loop form in every method, with the clock jumping once by an arbitrary amount."""
from contracts.prog_control import AI, MI, doc, f, g, h, lb, p
from vc.prog import fn

P = 'P16'
LOOPS = {
    'while': [{'let': {'i': 7}}, {'while': {'u.p': ['i']}, 'do': [{'set': {'i': {'u.lb': ['i']}}}]}],
    'until': [{'let': {'i': 7}}, {'do': [{'set': {'i': {'u.lb': ['i']}}}], 'until': {'u.p': ['i']}}],
    'for': [{'for': {'i': 3}, 'while': {'u.p': ['i']}, 'step': {'i': {'u.g': ['i']}}, 'do': [{'u.lb': ['i']}]}],
}
LIMITS = {
    'own': {'timeout': 700000, 'timeout.begin': 1500, 'timeout.action': 500, 'timeout.end': 2500},
    'general': {'timeout': 1200},
    'none': {'timeout': 700, 'timeout.begin': -1, 'timeout.action': 0, 'timeout.end': -5},
}
st = [p, g, lb]
for n, body in LOOPS.items():
    for lim in ('own',) if n != 'while' else LIMITS:
        for m in ('action', 'begin', 'end') if n == 'while' else ('action',):
            d = {'options': LIMITS[lim]}
            if m != 'action':
                d[m] = body
            else:
                d['output'] = 'int'
            doc('time-%s-%s-%s' % (n, m, lim), body + [0] if m == 'action' else [None], st, P, doc=d, method=m, clock=True)
doc('time-foreach', [{'foreach': 'x', 'in': 'input', 'do': [{'u.lb': ['x']}]}, 0], st, P, doc={'input': AI, 'options': LIMITS['own']}, clock=True)
doc('time-forkey', [{'forkey': 'k', 'forval': 'x', 'in': 'input', 'do': [{'u.lb': ['x']}]}, 0], st, P, doc={'input': MI, 'options': LIMITS['own']}, clock=True)
doc('time-merge', [{'u.h': ['input', 'tally']}], [h] + st, P, method='merge', clock=True,
    doc={'method': 'fold', 'zero': 0, 'merge': LOOPS['while'] + [{'u.h': ['tallyOne', 'tallyTwo']}], 'output': 'int', 'options': LIMITS['own']})
doc('time-nested', [{'foreach': 'x', 'in': 'input', 'do': [{'let': {'i': 'x'}}, {'while': {'u.p': ['i']}, 'do': [{'set': {'i': {'u.lb': ['i']}}}]}]}, 0],
    st, P, doc={'input': AI, 'options': LIMITS['own']}, clock=True, budget=300)
