"""behaviour-preserving edits of titus/lib/map.py"""
M = 'titus/lib/map.py'
E = [
    (M, '''            for k in m:
                if callfcn(state, scope, key, [k]):
                    return True
            return False
''', '''            return any(callfcn(state, scope, key, [k]) for k in list(m.keys()))
'''),
    (M, '''            for v in list(m.values()):
                if v == value:
                    return True
            return False
''', '''            return value in m.values()
'''),
    (M, '''            key, value = args
            return dict(m, **{key: value})
''', '''            key, value = args
            out = dict(m)
            out[key] = value
            return out
'''),
    (M, '''        out = dict(m)
        try:
            del out[key]
        except KeyError:
            pass
        return out
''', '''        return dict((k, v) for k, v in m.items() if k != key)
'''),
    (M, '''        return dict((k, v) for k, v in list(m.items()) if k in keys)
''', '''        out = {}
        for k in keys:
            if k in m:
                out[k] = m[k]
        return out
'''),
    (M, '''        return dict((k, v) for k, v in list(m.items()) if k not in keys)
''', '''        out = dict(m)
        for k in keys:
            out.pop(k, None)
        return out
'''),
    (M, '''        return dict(list(base.items()) + list(overlay.items()))
''', '''        out = dict(base)
        out.update(overlay)
        return out
'''),
    (M, '''        out = []
        for m in a:
            out.extend(list(m.items()))
        return dict(out)
''', '''        out = {}
        for m in a:
            for k, v in m.items():
                out[k] = v
        return out
'''),
    (M, '''        return [{k: v} for k, v in list(m.items())]
''', '''        out = []
        for k in m:
            out.append({k: m[k]})
        return out
'''),
    (M, '''        return dict((k, v) for k, v in list(a.items()) if k in b)
''', '''        return {k: a[k] for k in a if k in b}
'''),
    (M, '''        return dict((k, v) for k, v in list(a.items()) if k not in b)
''', '''        out = {}
        for k, v in a.items():
            if k not in b:
                out[k] = v
        return out
'''),
    (M, '''        cc = set(a.keys()).symmetric_difference(set(b.keys()))
        return dict((k, v) for k, v in list(a.items()) + list(b.items()) if k in cc)
''', '''        out = dict((k, v) for k, v in a.items() if k not in b)
        out.update((k, v) for k, v in b.items() if k not in a)
        return out
'''),
    (M, '''        return all(k in big for k in list(little.keys()))
''', '''        for k in little:
            if k not in big:
                return False
        return True
'''),
    (M, '''        return len(set(a.keys()).intersection(set(b.keys()))) == 0
''', '''        return not any(k in b for k in a)
'''),
    (M, '''        return dict((k, callfcn(state, scope, fcn, [v])) for k, v in list(m.items()))
''', '''        out = {}
        for k in m:
            out[k] = callfcn(state, scope, fcn, [m[k]])
        return out
'''),
    (M, '''        return dict((k, v) for k, v in list(m.items()) if callfcn(state, scope, fcn, [v]))
''', '''        out = {}
        for k, v in m.items():
            if callfcn(state, scope, fcn, [v]):
                out[k] = v
        return out
'''),
    (M, '''        out = {}
        for key, value in list(m.items()):
            for k, v in list(callfcn(state, scope, fcn, [value]).items()):
                out[k] = v
        return out
''', '''        out = {}
        for value in m.values():
            out.update(callfcn(state, scope, fcn, [value]))
        return out
'''),
    (M, '''        out = {}
        for k in keys:
            out[k] = callfcn(state, scope, fcn, [x[k] for x in maps])
        return out
''', '''        return dict((k, callfcn(state, scope, fcn, [x[k] for x in maps])) for k in keys)
'''),
    (M, '''            if lt(bestx, x) or (not lt(x, bestx) and bestk > k):
                ind = index
                while ind < len(out) and not lt(out[ind][1], x) and not lt(x, out[ind][1]) and out[ind][0] < k:
                    ind += 1
                out.insert(ind, (k, x))
                found = True
                break
        if not found:
            out.append((k, x))
        if len(out) > n:
            out.pop()
    return [k for k, x in out]
''', '''            if lt(bestx, x) or (not lt(x, bestx) and bestk > k):
                out.insert(index, (k, x))
                found = True
                break
        if not found:
            out.append((k, x))
        if len(out) > n:
            del out[-1]
    return [best[0] for best in out]
'''),
]
