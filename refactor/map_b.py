"""more behaviour-preserving edits of titus/lib/map.py"""
M = 'titus/lib/map.py'
E = [
    (M, '''            item, = args
            key = self.toKey(item, jsonNodeToAvroType(paramTypes[1]))
            return dict(m, **{key: item})
''', '''            out = dict(m)
            out[self.toKey(args[0], jsonNodeToAvroType(paramTypes[1]))] = args[0]
            return out
'''),
    (M, '''        out = dict(m)
        try:
            del out[key]
        except KeyError:
            pass
        return out
''', '''        out = dict(m)
        if key in out:
            del out[key]
        return out
'''),
    (M, '''        return dict((k, v) for k, v in list(m.items()) if k not in keys)
''', '''        out = {}
        for k in m.keys():
            if k in keys:
                continue
            out[k] = m[k]
        return out
'''),
    (M, '''        return dict(list(base.items()) + list(overlay.items()))
''', '''        out = {}
        for m in (base, overlay):
            for k, v in list(m.items()):
                out[k] = v
        return out
'''),
    (M, '''        return dict((self.toKey(x, jsonNodeToAvroType(paramTypes[0]["items"])), x) for x in a)
''', '''        itemType = jsonNodeToAvroType(paramTypes[0]["items"])
        out = {}
        for x in a:
            out[self.toKey(x, itemType)] = x
        return out
'''),
    (M, '''        return dict(list(a.items()) + list(b.items()))
''', '''        out = dict(b)
        for k, v in a.items():
            if k not in b:
                out[k] = v
        return out
'''),
    (M, '''        cc = set(a.keys()).symmetric_difference(set(b.keys()))
        return dict((k, v) for k, v in list(a.items()) + list(b.items()) if k in cc)
''', '''        out = {}
        for k, v in a.items():
            if k not in b:
                out[k] = v
        for k, v in b.items():
            if k not in a:
                out[k] = v
        return out
'''),
    (M, '''        return all(k in big for k in list(little.keys()))
''', '''        return len([k for k in little.keys() if k not in big]) == 0
'''),
    (M, '''        return len(set(a.keys()).intersection(set(b.keys()))) == 0
''', '''        for k in a:
            if k in b:
                return False
        return True
'''),
    (M, '''        return dict((k, callfcn(state, scope, fcn, [k, v])) for k, v in list(m.items()))
''', '''        return {k: callfcn(state, scope, fcn, [k, m[k]]) for k in m}
'''),
    (M, '''        out = {}
        for k, v in list(m.items()):
            vv = callfcn(state, scope, fcn, [k, v])
            if vv is not None:
                if isinstance(vv, dict) and len(vv) == 1 and list(vv.keys())[0] in typeNames:
                    tag, value = list(vv.items())[0]
                else:
                    value = vv
                out[k] = value
        return out
''', '''        out = {}
        for k in m:
            vv = callfcn(state, scope, fcn, [k, m[k]])
            if vv is None:
                continue
            if isinstance(vv, dict) and len(vv) == 1:
                (tag, value), = vv.items()
                out[k] = value if tag in typeNames else vv
            else:
                out[k] = vv
        return out
'''),
    (M, '''        out = {}
        for key, value in list(m.items()):
            for k, v in list(callfcn(state, scope, fcn, [key, value]).items()):
                out[k] = v
        return out
''', '''        pairs = []
        for key, value in list(m.items()):
            pairs.extend(callfcn(state, scope, fcn, [key, value]).items())
        return dict(pairs)
'''),
    (M, '''def argLowestN(m, n, lt):
    out = []
    for k, x in list(m.items()):
        found = False
        for index, (bestk, bestx) in enumerate(out):
            if lt(x, bestx) or (not lt(bestx, x) and bestk > k):
                ind = index
                while ind < len(out) and not lt(out[ind][1], x) and not lt(x, out[ind][1]) and out[ind][0] < k:
                    ind += 1
                out.insert(ind, (k, x))
                found = True
                break
        if not found:
            out.append((k, x))
        if len(out) > n:
            out.pop()
    return [k for k, x in out]
''', '''def argLowestN(m, n, lt):
    return argHighestN(m, n, lambda x, y: lt(y, x))
'''),
]
