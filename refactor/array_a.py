"""behaviour-preserving edits of titus/lib/array.py: comprehensions to loops and back, helpers extracted or inlined, conditions turned round"""
A = 'titus/lib/array.py'
E = [
    (A, '''def checkRange(length, index, code, fcnName, pos):
    if index < 0 or index >= length:
        raise PFARuntimeException("index out of range", code, fcnName, pos)
''', '''def checkRange(length, index, code, fcnName, pos):
    if 0 <= index < length:
        return
    raise PFARuntimeException("index out of range", code, fcnName, pos)

def occursAt(haystack, needle, start):
    return haystack[start:(start + len(needle))] == needle
'''),
    (A, '''            for start in range(len(haystack) - len(needle) + 1):
                if needle == haystack[start:(start + len(needle))]:
                    return True
            return False
        elif callable(needle):
            for item in haystack:
                if callfcn(state, scope, needle, [item]):
                    return True
            return False
        else:
            try:
                haystack.index(needle)
            except ValueError:
                return False
            else:
                return True
''', '''            return any(occursAt(haystack, needle, start) for start in range(len(haystack) - len(needle) + 1))
        if callable(needle):
            return any(callfcn(state, scope, needle, [item]) for item in haystack)
        return needle in haystack
'''),
    (A, '''                    count = 0
                    for start in range(len(haystack) - len(needle) + 1):
                        if needle == haystack[start:(start + len(needle))]:
                            count += 1
                    return count
            elif callable(needle):
                count = 0
                for item in haystack:
                    if callfcn(state, scope, needle, [item]):
                        count += 1
                return count
''', '''                    return sum(1 for start in range(len(haystack) - len(needle) + 1) if occursAt(haystack, needle, start))
            elif callable(needle):
                return len([item for item in haystack if callfcn(state, scope, needle, [item])])
'''),
    (A, '''            for index, item in enumerate(reversed(haystack)):
                if callfcn(state, scope, needle, [item]):
                    return len(haystack) - 1 - index
            return -1
''', '''            index = len(haystack) - 1
            while index >= 0 and not callfcn(state, scope, needle, [haystack[index]]):
                index -= 1
            return index
'''),
    (A, '''            for index in range(len(haystack) - 1, -1, -1):
                if needle == haystack[index]:
                    return index
            return -1
''', '''            for index, item in reversed(list(enumerate(haystack))):
                if item == needle:
                    return index
            return -1
'''),
    (A, '''            if len(needle) == 0:
                return True
            else:
                return needle == haystack[-len(needle):]
        else:
            if len(haystack) == 0:
                return False
            else:
                return needle == haystack[-1]
''', '''            offset = len(haystack) - len(needle)
            return offset >= 0 and haystack[offset:] == needle
        return len(haystack) > 0 and haystack[-1] == needle
'''),
    (A, '''            out = a + [item]
            return out[-maxLength:]
''', '''            out = list(a)
            out.append(item)
            excess = len(out) - maxLength
            return out[excess:] if excess > 0 else out
'''),
    (A, '''        checkRange(len(a), normIndex, self.errcodeBase + 0, self.name, pos)
        before = a[:normIndex]
        after = a[normIndex:]
        return before + [item] + after
''', '''        checkRange(len(a), normIndex, self.errcodeBase + 0, self.name, pos)
        out = list(a)
        out.insert(normIndex, item)
        return out
'''),
    (A, '''        checkRange(len(a), normIndex, self.errcodeBase + 0, self.name, pos)
        before = a[:normIndex]
        after = a[(normIndex + 1):]
        return before + [item] + after
''', '''        checkRange(len(a), normIndex, self.errcodeBase + 0, self.name, pos)
        return [item if i == normIndex else x for i, x in enumerate(a)]
'''),
    (A, '''            checkRange(len(a), normIndex, self.errcodeBase + 0, self.name, pos)
            before = a[:normIndex]
            after = a[(normIndex + 1):]
            return before + after
''', '''            checkRange(len(a), normIndex, self.errcodeBase + 0, self.name, pos)
            return [x for i, x in enumerate(a) if i != normIndex]
'''),
    (A, '''            index = steps % len(a)
            left, right = a[:index], a[index:]
            return right + left
''', '''            n = len(a)
            return [a[(i + steps) % n] for i in range(n)]
'''),
    (A, '''        out = []
        for ai in a:
            if ai not in b:
                out.append(ai)
        return out
''', '''        return [ai for ai in a if ai not in b]
'''),
    (A, '''        out = []
        for ai in a:
            if ai not in b:
                out.append(ai)
        for bi in b:
            if bi not in a:
                out.append(bi)
        return out
''', '''        return [ai for ai in a if ai not in b] + [bi for bi in b if bi not in a]
'''),
    (A, '''        return [callfcn(state, scope, fcn, [x]) for x in a]
''', '''        out = []
        for x in a:
            out.append(callfcn(state, scope, fcn, [x]))
        return out
'''),
    (A, '''        return [x for i, x in enumerate(a) if callfcn(state, scope, fcn, [i, x])]
''', '''        out = []
        for i in range(len(a)):
            if callfcn(state, scope, fcn, [i, a[i]]):
                out.append(a[i])
        return out
'''),
    (A, '''        out = []
        for x in a:
            out.extend(callfcn(state, scope, fcn, [x]))
        return out
''', '''        return [y for x in a for y in callfcn(state, scope, fcn, [x])]
'''),
    (A, '''        fcn = args[-1]
        out = []
        for abcd in zip(*args[:-1]):
            out.append(callfcn(state, scope, fcn, list(abcd)))
        return out
''', '''        fcn = args[-1]
        return [callfcn(state, scope, fcn, list(abcd)) for abcd in zip(*args[:-1])]
'''),
    (A, '''            return reduce(lambda x, y: callfcn(state, scope, fcn, [x, y]), a)
''', '''            out = a[0]
            for x in a[1:]:
                out = callfcn(state, scope, fcn, [out, x])
            return out
'''),
    (A, '''        return reduce(lambda y, x: callfcn(state, scope, fcn, [x, y]), reversed(a), zero)
''', '''        out = zero
        for i in range(len(a) - 1, -1, -1):
            out = callfcn(state, scope, fcn, [a[i], out])
        return out
'''),
    (A, '''        out = []
        for x in a:
            if callfcn(state, scope, fcn, [x]):
                out.append(x)
            else:
                break
        return out
''', '''        n = 0
        while n < len(a) and callfcn(state, scope, fcn, [a[n]]):
            n += 1
        return a[:n]
'''),
    (A, '''        i = 0
        for ai in a:
            if callfcn(state, scope, fcn, [ai]):
                i += 1
            else:
                break
        return a[i:]
''', '''        for i, ai in enumerate(a):
            if not callfcn(state, scope, fcn, [ai]):
                return a[i:]
        return []
'''),
    (A, '''        return any(callfcn(state, scope, fcn, [x]) for x in a)
''', '''        for x in a:
            if callfcn(state, scope, fcn, [x]):
                return True
        return False
'''),
    (A, '''        return len(a) == len(b) and all(callfcn(state, scope, fcn, [x, y]) for x, y in zip(a, b))
''', '''        if len(a) != len(b):
            return False
        for i in range(len(a)):
            if not callfcn(state, scope, fcn, [a[i], b[i]]):
                return False
        return True
'''),
    (A, '''        out = sum(a)
        if paramTypes[-1] == "int":
''', '''        out = 0
        for x in a:
            out += x
        if paramTypes[-1] == "int":
'''),
    (A, '''def lowestN(a, n, lt):
    out = []
    for x in a:
        found = False
        for index, best in enumerate(out):
            if lt(x, best):
                out.insert(index, x)
                found = True
                break
        if not found:
            out.append(x)
        if len(out) > n:
            out.pop()
    return out
''', '''def lowestN(a, n, lt):
    return highestN(a, n, lambda x, y: lt(y, x))
'''),
    (A, '''    for x in a:
        found = False
        for index, best in enumerate(out):
            if lt(best, x):
                out.insert(index, x)
                found = True
                break
        if not found:
            out.append(x)
        if len(out) > n:
            out.pop()
    return out
''', '''    for x in a:
        index = 0
        while index < len(out) and not lt(out[index], x):
            index += 1
        out.insert(index, x)
        del out[n:]
    return out
'''),
    (A, '''            if lt(bestx, x):
                ind = index
                while ind <= len(out) and not lt(out[ind][1], x) and not lt(x, out[ind][1]) and out[ind][0] > i:
                    ind += 1
                out.insert(ind, (i, x))
                found = True
                break
        if not found:
            out.append((i, x))
''', '''            if lt(bestx, x):
                out = out[:index] + [(i, x)] + out[index:]
                found = True
                break
        if not found:
            out = out + [(i, x)]
'''),
]
