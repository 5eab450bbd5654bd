"""behaviour-preserving edits of titus/genpy.py and titus/util.py: E = [(file, old, new)]"""
G, U = 'titus/genpy.py', 'titus/util.py'
E = [
    (G, '''            out = {}
            for k, v in list(obj.items()):
                if k == head:
                    out[k] = update(state, scope, v, tail, to, arrayErrCode, mapErrCode, fcnName, pos)
                else:
                    out[k] = v
            return out
''', '''            out = dict(obj)
            out[head] = update(state, scope, obj[head], tail, to, arrayErrCode, mapErrCode, fcnName, pos)
            return out
'''),
    (G, '''            out = []
            for i, x in enumerate(obj):
                if i == head:
                    out.append(update(state, scope, x, tail, to, arrayErrCode, mapErrCode, fcnName, pos))
                else:
                    out.append(x)
            return out
''', '''            replacement = update(state, scope, obj[head], tail, to, arrayErrCode, mapErrCode, fcnName, pos)
            return list(obj[:head]) + [replacement] + list(obj[head + 1:])
'''),
    (G, '''    while len(path) > 0:
        head, tail = path[0], path[1:]
        try:
            if isinstance(obj, (list, tuple)) and head < 0:
                raise IndexError
            obj = obj[head]
        except (KeyError, IndexError):
            if isinstance(obj, (list, tuple)):
                raise PFARuntimeException("array index not found", arrayErrCode, fcnName, pos)
            else:
                raise PFARuntimeException("map key not found", mapErrCode, fcnName, pos)
        path = tail

    return obj
''', '''    for head in path:
        if isinstance(obj, (list, tuple)):
            if not 0 <= head < len(obj):
                raise PFARuntimeException("array index not found", arrayErrCode, fcnName, pos)
        elif head not in obj:
            raise PFARuntimeException("map key not found", mapErrCode, fcnName, pos)
        obj = obj[head]
    return obj
'''),
    (G, '''    for predicate, thenClause in ifThens:
        if predicate(state, DynamicScope(scope)):
            thenClause(state, DynamicScope(scope))
            break
    return None
''', '''    i = 0
    while i < len(ifThens):
        predicate, thenClause = ifThens[i]
        if predicate(state, DynamicScope(scope)):
            thenClause(state, DynamicScope(scope))
            return None
        i += 1
    return None
'''),
    (G, '''    while predicate(state, predScope):
        state.checkTime()
        loopBody(state, bodyScope)
    return None
    
def doUntil''', '''    while True:
        if not predicate(state, predScope):
            return None
        state.checkTime()
        loopBody(state, bodyScope)
    
def doUntil'''),
    (G, '''    while True:
        state.checkTime()
        loopBody(state, bodyScope)
        if predicate(state, predScope):
            break
    return None
''', '''    done = False
    while not done:
        state.checkTime()
        loopBody(state, bodyScope)
        done = predicate(state, predScope)
    return None
'''),
    (G, '''    while predicate(state, predScope):
        state.checkTime()
        loopBody(state, bodyScope)
        stepSet(state, loopScope)
    return None
''', '''    going = predicate(state, predScope)
    while going:
        state.checkTime()
        loopBody(state, bodyScope)
        stepSet(state, loopScope)
        going = predicate(state, predScope)
    return None
'''),
    (G, '''    for item in array:
        state.checkTime()
        loopScope.let({name: item})
        loopBody(state, bodyScope)
    return None
''', '''    i = 0
    while i < len(array):
        state.checkTime()
        loopScope.let({name: array[i]})
        loopBody(state, bodyScope)
        i += 1
    return None
'''),
    (G, '''    for key, val in list(mapping.items()):
        state.checkTime()
        loopScope.let({forkey: key, forval: val})
''', '''    for key in list(mapping.keys()):
        state.checkTime()
        loopScope.let({forkey: key, forval: mapping[key]})
'''),
    (G, '''            if partial:
                return None
            else:
                return out
''', '''            return None if partial else out
'''),
    (G, '''    try:
        return exprs(state, scope)
    except Exception as err:
        if filter is None or getattr(err, "message", str(err)) in filter or getattr(err, "code", None) in filter:
            return None
        else:
            raise err
''', '''    try:
        result = exprs(state, scope)
    except Exception as err:
        caught = filter is None
        if not caught:
            for what in (getattr(err, "message", str(err)), getattr(err, "code", None)):
                if what in filter:
                    caught = True
        if not caught:
            raise
        result = None
    return result
'''),
    (G, '''            self.locklock.acquire()
            if head in self.locks:
                self.locks[head].acquire()
            else:
                self.locks[head] = threading.Lock()
                self.locks[head].acquire()
            self.locklock.release()
''', '''            self.locklock.acquire()
            if head not in self.locks:
                self.locks[head] = threading.Lock()
            self.locks[head].acquire()
            self.locklock.release()
'''),
    (G, '''        else:
            item = self.value[head] if head in self.value else init
            self.value[head] = update(state, scope, item, tail, to, arrayErrCode, mapErrCode, fcnName, pos)
            result = self.value[head]

        return result
''', '''        else:
            result = update(state, scope, self.value.get(head, init), tail, to, arrayErrCode, mapErrCode, fcnName, pos)
            self.value[head] = result

        return result
'''),
    (U, '''        if symbol in self.symbols:
            return self.symbols[symbol]
        elif self.parent is not None:
            return self.parent.get(symbol)
        else:
            raise RuntimeError()
''', '''        where = self
        while where is not None:
            if symbol in where.symbols:
                return where.symbols[symbol]
            where = where.parent
        raise RuntimeError()
'''),
    (U, '''        for symbol, init in list(nameExpr.items()):
            self.symbols[symbol] = init
''', '''        self.symbols.update(nameExpr)
'''),
    (U, '''        for symbol, value in list(nameExpr.items()):
            if symbol in self.symbols:
                self.symbols[symbol] = value
            elif self.parent is not None:
                self.parent.set({symbol: value})
            else:
                raise RuntimeError()
''', '''        for symbol in list(nameExpr.keys()):
            where = self
            while where is not None and symbol not in where.symbols:
                where = where.parent
            if where is None:
                raise RuntimeError()
            where.symbols[symbol] = nameExpr[symbol]
'''),
    (U, '''        if isinstance(args, (tuple, list)):
            args = dict(list(zip(fcn.paramNames, args)))
        callScope.let(args)
        return fcn(state, callScope)
''', '''        if isinstance(args, (tuple, list)):
            for name, value in zip(fcn.paramNames, args):
                callScope.let({name: value})
        else:
            callScope.let(args)
        return fcn(state, callScope)
'''),
]
