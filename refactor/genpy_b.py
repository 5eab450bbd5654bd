"""behaviour-preserving edits of titus/genpy.py (second set): E = [(file, old, new)]"""
G, U = 'titus/genpy.py', 'titus/util.py'
E = [
    (G, '''        state = ExecutionState(self.options, self.rand, 'action', self.parser)
        scope = DynamicScope(None)
        for cell in self.cells.values():
            cell.maybeSaveBackup()
        for pool in self.pools.values():
            pool.maybeSaveBackup()
        self.actionsStarted += 1
        try:
            scope.let({'input': input, 'name': self.config.name, 'instance': self.instance, 'metadata': self.config.metadata, 'actionsStarted': self.actionsStarted, 'actionsFinished': self.actionsFinished})
            if self.config.version is not None:
                scope.let({'version': self.config.version})
''', '''        state = ExecutionState(self.options, self.rand, 'action', self.parser)
        saveAll(self.cells, self.pools)
        self.actionsStarted = self.actionsStarted + 1
        scope = DynamicScope(None)
        try:
            symbols = {'input': input, 'actionsStarted': self.actionsStarted, 'actionsFinished': self.actionsFinished, 'name': self.config.name, 'instance': self.instance, 'metadata': self.config.metadata}
            if self.config.version is not None:
                symbols['version'] = self.config.version
            scope.let(symbols)
'''),
    (G, '''            out.append("""        except Exception:
            for cell in self.cells.values():
                cell.maybeRestoreBackup()
            for pool in self.pools.values():
                pool.maybeRestoreBackup()
            raise
""")

            if context.merge''', '''            out.append("""        except Exception as err:
            restoreAll(self.cells, self.pools)
            raise err
""")

            if context.merge'''),
    (G, '''                   "ifNotNull": ifNotNull,
''', '''                   "ifNotNull": ifNotNull,
                   "saveAll": saveAll,
                   "restoreAll": restoreAll,
'''),
    (G, '''class SharedState(object):''', '''def saveAll(*stores):
    for store in stores:
        for name in store:
            store[name].maybeSaveBackup()

def restoreAll(*stores):
    for store in stores:
        for item in list(store.values()):
            item.maybeRestoreBackup()

class SharedState(object):'''),
    (G, '''        if routine == "begin":
            self.timeout = options.timeout_begin
        elif routine == "action":
            self.timeout = options.timeout_action
        elif routine == "end":
            self.timeout = options.timeout_end
        else:
            self.timeout = options.timeout

        self.startTime = time.time()
''', '''        self.startTime = time.time()
        self.timeout = getattr(options, "timeout_" + routine) if routine in ("begin", "action", "end") else options.timeout
'''),
    (G, '''        if self.timeout > 0 and (time.time() - self.startTime) * 1000 > self.timeout:
            raise PFATimeoutException("exceeded timeout of {0} milliseconds".format(self.timeout))
''', '''        if self.timeout <= 0:
            return
        elapsed = 1000 * (time.time() - self.startTime)
        if elapsed > self.timeout:
            raise PFATimeoutException("exceeded timeout of %s milliseconds" % self.timeout)
'''),
    (G, '''        result = None
        if self.shared:
            with self.lock:
                self.value = update(state, scope, self.value, path, to, arrayErrCode, mapErrCode, fcnName, pos)
                result = self.value
        else:
            self.value = update(state, scope, self.value, path, to, arrayErrCode, mapErrCode, fcnName, pos)
            result = self.value
        return result
''', '''        if not self.shared:
            return self.replace(state, scope, path, to, arrayErrCode, mapErrCode, fcnName, pos)
        self.lock.acquire()
        try:
            return self.replace(state, scope, path, to, arrayErrCode, mapErrCode, fcnName, pos)
        finally:
            self.lock.release()

    def replace(self, state, scope, path, to, *rest):
        updated = update(state, scope, self.value, path, to, *rest)
        self.value = updated
        return updated
'''),
    (G, '''        if self.shared:
            self.locklock.acquire()
            if head in self.locks:
                self.locks[head].acquire()
            else:
                self.locks[head] = threading.Lock()
                self.locks[head].acquire()
            self.locklock.release()

            try:
                item = self.value[head] if head in self.value else init
                self.value[head] = update(state, scope, item, tail, to, arrayErrCode, mapErrCode, fcnName, pos)
                result = self.value[head]
            finally:
                self.locks[head].release()
''', '''        if self.shared:
            with self.locklock:
                lock = self.locks.setdefault(head, threading.Lock())
                lock.acquire()

            try:
                if head in self.value:
                    item = self.value[head]
                else:
                    item = init
                result = update(state, scope, item, tail, to, arrayErrCode, mapErrCode, fcnName, pos)
                self.value[head] = result
            finally:
                lock.release()
'''),
    (G, '''            self.oldvalue = dict(self.value)
''', '''            self.oldvalue = self.value.copy()
'''),
    (G, '''    if predicate(state, DynamicScope(scope)):
        return thenClause(state, DynamicScope(scope))
    else:
        return elseClause(state, DynamicScope(scope))
''', '''    clause = thenClause if predicate(state, DynamicScope(scope)) else elseClause
    return clause(state, DynamicScope(scope))
'''),
    (G, '''    if len(exprs) > 0:
        return exprs[-1]
    else:
        return None
''', '''    return exprs[-1] if exprs else None
'''),
    (G, '''        if isinstance(fromType, titus.datatype.AvroUnion) and isinstance(expr, dict) and len(expr) == 1:
            tag, = list(expr.keys())
            value, = list(expr.values())

            if not ((tag == toType.name) or \\
                    (tag == "int" and toType.name in ("long", "float", "double")) or \\
                    (tag == "long" and toType.name in ("float", "double")) or \\
                    (tag == "float" and toType.name == "double")):
                continue

        else:
            value = expr
''', '''        value = expr
        if isinstance(fromType, titus.datatype.AvroUnion) and isinstance(expr, dict) and len(expr) == 1:
            (tag, value), = expr.items()
            if not acceptsTag(toType.name, tag):
                continue
'''),
    (G, '''def cast(state, scope, expr,''', '''WIDER = {"int": ("long", "float", "double"), "long": ("float", "double"), "float": ("double",)}

def acceptsTag(name, tag):
    return tag == name or name in WIDER.get(tag, ())

def cast(state, scope, expr,'''),
    (G, '''    if all(x is not None for x in list(nameExpr.values())):
        thenScope = DynamicScope(scope)
        thenScope.let(untagUnions(nameExpr, nameType))
        return thenClause(state, thenScope)
    else:
        return elseClause(state, scope)
''', '''    for x in nameExpr.values():
        if x is None:
            return elseClause(state, scope)
    thenScope = DynamicScope(scope)
    thenScope.let(untagUnions(nameExpr, nameType))
    return thenClause(state, thenScope)
'''),
    (G, '''            tag, = list(expr.keys())
            value, = list(expr.values())

            expectedTag = json''', '''            tag = list(expr)[0]
            value = expr[tag]

            expectedTag = json'''),
    (G, '''    bodyScope = DynamicScope(scope)
    predScope = DynamicScope(bodyScope)
    while predicate(state, predScope):
        state.checkTime()
        loopBody(state, bodyScope)
    return None
    
def doUntil''', '''    bodyScope = DynamicScope(scope)
    predScope = DynamicScope(bodyScope)
    going = True
    while going:
        going = predicate(state, predScope)
        if going:
            state.checkTime()
            loopBody(state, bodyScope)
    return None
    
def doUntil'''),
    (G, '''    for item in array:
        state.checkTime()
        loopScope.let({name: item})
        loopBody(state, bodyScope)
    return None
''', '''    def one(item):
        state.checkTime()
        loopScope.let({name: item})
        loopBody(state, bodyScope)

    for i in range(len(array)):
        one(array[i])
    return None
'''),
    (G, '''            out = {}
            for k, v in list(obj.items()):
                if k == head:
                    out[k] = update(state, scope, v, tail, to, arrayErrCode, mapErrCode, fcnName, pos)
                else:
                    out[k] = v
            return out
''', '''            return {k: update(state, scope, v, tail, to, arrayErrCode, mapErrCode, fcnName, pos) if k == head else v for k, v in obj.items()}
'''),
    (G, '''            out = []
            for i, x in enumerate(obj):
                if i == head:
                    out.append(update(state, scope, x, tail, to, arrayErrCode, mapErrCode, fcnName, pos))
                else:
                    out.append(x)
            return out
''', '''            out = list(obj)
            out[head] = update(state, scope, obj[head], tail, to, arrayErrCode, mapErrCode, fcnName, pos)
            return out
'''),
]
