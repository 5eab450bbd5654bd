"""Known findings: defects of the unchanged tree that are recorded, not repaired.

Each entry of known-findings.txt names a probe here; the probe runs the real
code on the recorded input and says whether the defect is still there.  The
contracts exclude exactly these inputs (a precondition naming them), so any
other violation is still reported."""
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROBES = {}


def probe(name):
    def f(fn):
        PROBES[name] = fn
        return fn
    return f


def entries(prop):
    out = []
    for line in open(os.path.join(HERE, 'known-findings.txt')):
        w = line.split()
        if len(w) > 3 and w[0] == 'known:' and w[1] == 'property=' + prop:
            out.append((w[2].split('=', 1)[1], ' '.join(w[3:])))
    return out


def report(prop):
    lines = []
    for name, what in entries(prop):
        try:
            still = PROBES[name]()
        except Exception:
            still = False
        if still:
            lines.append('%s: %s' % (name, what))
    return lines


def engine(doc):
    from titus.genpy import PFAEngine
    return PFAEngine.fromJson(doc)[0]


@probe('int-min-div-minus-one')
def _():
    out = []
    for t, v in (('int', -2147483648), ('long', -9223372036854775808)):
        e = engine({'input': t, 'output': t, 'action': [{'//': ['input', -1]}]})
        out.append(e.action(v) == -v)
    return all(out)


@probe('copysign-least')
def _():
    out = []
    for t, v in (('int', -2147483648), ('long', -9223372036854775808)):
        e = engine({'input': t, 'output': t, 'action': [{'m.copysign': ['input', {t: 1}]}]})
        out.append(e.action(v) == -v)
    return all(out)
