"""more behaviour-preserving edits of titus/lib/array.py"""
A = 'titus/lib/array.py'
E = [
    (A, '''        normStart, normEnd = startEnd(len(a), start, end)
        before = a[:normStart]
        after = a[normEnd:]
        return before + replacement + after
''', '''        lo, hi = startEnd(len(a), start, end)
        out = list(a)
        out[lo:hi] = replacement
        return out
'''),
    (A, '''            normStart, normEnd = startEnd(len(a), start, end)
            before = a[:normStart]
            after = a[normEnd:]
            return before + after
''', '''            normStart, normEnd = startEnd(len(a), start, end)
            out = list(a)
            del out[normStart:normEnd]
            return out
'''),
    (A, '''        out = []
        for ai in a:
            if ai not in out:
                out.append(ai)
        return out
''', '''        out = []
        for i, ai in enumerate(a):
            if ai in a[:i]:
                continue
            out.append(ai)
        return out
'''),
    (A, '''        return all(ai in b for ai in a) and all(bi in a for bi in b)
''', '''        for ai in a:
            if ai not in b:
                return False
        for bi in b:
            if bi not in a:
                return False
        return True
'''),
    (A, '''        out = []
        for ai in a:
            if ai not in out:
                out.append(ai)
        for bi in b:
            if bi not in out:
                out.append(bi)
        return out
''', '''        out = []
        for x in a + b:
            if x not in out:
                out.append(x)
        return out
'''),
    (A, '''        return all(ai not in b for ai in a) and all(bi not in a for bi in b)
''', '''        return not any(ai in b for ai in a)
'''),
    (A, '''        return [x for x in a if callfcn(state, scope, fcn, [x])]
''', '''        out = []
        for x in a:
            keep = callfcn(state, scope, fcn, [x])
            if keep:
                out.append(x)
        return out
'''),
    (A, '''        for i, x in enumerate(a):
            y = callfcn(state, scope, fcn, [i, x])
            if y is not None:
                if isinstance(y, dict) and len(y) == 1 and list(y.keys())[0] in typeNames:
                    tag, value = list(y.items())[0]
                else:
                    value = y
                out.append(value)
        return out
''', '''        for i in range(len(a)):
            y = callfcn(state, scope, fcn, [i, a[i]])
            if y is None:
                continue
            if isinstance(y, dict) and len(y) == 1 and next(iter(y)) in typeNames:
                y = list(y.values())[0]
            out.append(y)
        return out
'''),
    (A, '''        out = []
        for i, x in enumerate(a):
            out.extend(callfcn(state, scope, fcn, [i, x]))
        return out
''', '''        out = []
        for i, x in enumerate(a):
            for y in callfcn(state, scope, fcn, [i, x]):
                out.append(y)
        return out
'''),
    (A, '''        out = []
        for i, abcd in enumerate(zip(*args[:-1])):
            out.append(callfcn(state, scope, fcn, [i] + list(abcd)))
        return out
''', '''        arrays = args[:-1]
        out = []
        for i in range(len(arrays[0])):
            out.append(callfcn(state, scope, fcn, [i] + [x[i] for x in arrays]))
        return out
'''),
    (A, '''            return reduce(lambda x, y: callfcn(state, scope, fcn, [y, x]), reversed(a))
''', '''            out = a[-1]
            for x in reversed(a[:-1]):
                out = callfcn(state, scope, fcn, [x, out])
            return out
'''),
    (A, '''        return reduce(lambda x, y: callfcn(state, scope, fcn, [x, y]), a, zero)
''', '''        out = zero
        for x in a:
            out = callfcn(state, scope, fcn, [out, x])
        return out
'''),
    (A, '''        return all(callfcn(state, scope, fcn, [x]) for x in a)
''', '''        return not any(not callfcn(state, scope, fcn, [x]) for x in a)
'''),
    (A, '''        return len(a) == len(b) and all(callfcn(state, scope, fcn, [i, x, y]) for i, (x, y) in enumerate(zip(a, b)))
''', '''        if len(a) != len(b):
            return False
        i = 0
        while i < len(a):
            if not callfcn(state, scope, fcn, [i, a[i], b[i]]):
                return False
            i += 1
        return True
'''),
    (A, '''        i = 0
        for start in range(0, len(a), step):
            chunk = a[start:(start + size)]
            if len(chunk) == size:
                out.append(chunk)
                i += 1
                if i % 1000 == 0:
                    state.checkTime()
        return out
''', '''        i = 0
        start = 0
        while start + size <= len(a):
            out.append(a[start:(start + size)])
            i += 1
            if i % 1000 == 0:
                state.checkTime()
            start += step
        return out
'''),
    (A, '''        if paramTypes[-1] == "int":
            out = reduce(lambda a, b: a * b, a, 1)
''', '''        if paramTypes[-1] == "int":
            out = 1
            for x in a:
                out *= x
'''),
    (A, '''        sa = sorted(a, key=cmp_to_key(lambda x, y: compare(jsonNodeToAvroType(paramTypes[0]).items, x, y)))
        half = len(sa) // 2
        dataType = paramTypes[-1]

        if len(sa) % 2:
            return sa[half]
        if dataType == "float" or dataType == "double":
            return (sa[half - 1] + sa[half])/2.0
        else:
            return sa[half - 1]
''', '''        itemType = jsonNodeToAvroType(paramTypes[0]).items
        sa = list(a)
        sa.sort(key=cmp_to_key(lambda x, y: compare(itemType, x, y)))
        half, odd = divmod(len(sa), 2)
        if odd == 1:
            return sa[half]
        if paramTypes[-1] in ("float", "double"):
            return 0.5 * (sa[half - 1] + sa[half])
        return sa[half - 1]
'''),
    (A, '''        if p <= 0.0:
            return lowestN(a, 1, lambda x, y: compare(jsonNodeToAvroType(paramTypes[0]).items, x, y) < 0)[0]
        if p >= 1.0:
            return highestN(a, 1, lambda x, y: compare(jsonNodeToAvroType(paramTypes[0]).items, x, y) < 0)[0]
        sa = sorted(a, key=cmp_to_key(lambda x, y: compare(jsonNodeToAvroType(paramTypes[0]).items, x, y)))
        k = (len(a) - 1.0)*p
''', '''        itemType = jsonNodeToAvroType(paramTypes[0]).items
        before = lambda x, y: compare(itemType, x, y) < 0
        if p <= 0.0:
            return lowestN(a, 1, before)[0]
        if p >= 1.0:
            return highestN(a, 1, before)[0]
        sa = sorted(a, key=cmp_to_key(lambda x, y: compare(itemType, x, y)))
        k = p*(len(a) - 1)
'''),
]
