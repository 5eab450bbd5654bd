"""behaviour-preserving edits of titus/lib/{metric,interp,kernel,stat/change}.py"""
ME, IN, KE, CH = 'titus/lib/metric.py', 'titus/lib/interp.py', 'titus/lib/kernel.py', 'titus/lib/stat/change.py'
E = [
    (ME, '''        for i in range(length):
            xi = x[i]
            yi = y[i]
            if xi is not None and yi is not None:
                if isinstance(paramTypes[1]["items"], (tuple, list)):
                    xi, = list(xi.values())
                if isinstance(paramTypes[2]["items"], (tuple, list)):
                    yi, = list(yi.values())
                tally = self.increment(tally, callfcn(state, scope, similarity, [xi, yi]))
                denom += missingWeight[i]
            numer += missingWeight[i]
        if denom == 0.0:
            return self.finalize(float("nan"))
        else:
            return self.finalize(tally * numer / denom)

class Euclidean''', '''        for xi, yi, weight in zip(x, y, missingWeight):
            numer += weight
            if xi is None or yi is None:
                continue
            if isinstance(paramTypes[1]["items"], (tuple, list)):
                xi, = list(xi.values())
            if isinstance(paramTypes[2]["items"], (tuple, list)):
                yi, = list(yi.values())
            denom += weight
            tally = self.increment(tally, callfcn(state, scope, similarity, [xi, yi]))
        if denom != 0.0:
            return self.finalize(tally * numer / denom)
        return self.finalize(float("nan"))

class Euclidean'''),
    (IN, '''            one = None
            oned = None
            for item in table:
                d = abs(datum - item["x"])
                if one is None or d < oned:
                    one = item
                    oned = d
            return one["to"]
''', '''            best, smallest = table[0], abs(datum - table[0]["x"])
            for item in table[1:]:
                d = abs(item["x"] - datum)
                if d < smallest:
                    best, smallest = item, d
            return best["to"]
'''),
    (IN, '''        return [(1.0 - unitless)*oney[i] + unitless*twoy[i] for i in range(len(oney))]
''', '''        out = []
        for i in range(len(twoy)):
            out.append(unitless*twoy[i] + (1.0 - unitless)*oney[i])
        return out
'''),
    (KE, '''        diff = [abs(i - j)**2 for i,j in zip(x,y)]
        return math.exp(-gamma*sum(diff))
''', '''        total = 0.0
        for i, xi in enumerate(x):
            total += (xi - y[i])**2
        return math.exp(-gamma*total)
'''),
    (KE, '''    if len(x) != len(y):
        raise PFARuntimeException("arrays must have same length", code, fcnName, pos)
    else:
        return sum([i*j for i, j in zip(x,y)])
''', '''    if len(x) == len(y):
        return sum(y[i]*x[i] for i in range(len(x)))
    raise PFARuntimeException("arrays must have same length", code, fcnName, pos)
'''),
    (CH, '''            if currentRun > longestRun:
                longestRun = currentRun
''', '''            longestRun = max(longestRun, currentRun)
'''),
    (CH, '''        out = logLikelihoodRatio + last
        if out > reset:
            return out
        else:
            return reset
''', '''        out = last + logLikelihoodRatio
        return out if out > reset else reset
'''),
]
