C, D = 'titus/lib/core.py', 'titus/datatype.py'
E = [
(C, '''    if paramType == "int":
        if math.isnan(out) or out < INT_MIN_VALUE or out > INT_MAX_VALUE:
            raise PFARuntimeException("int overflow", code1, fcnName, pos)
        else:
            return out
    elif paramType == "long":
        if math.isnan(out) or out < LONG_MIN_VALUE or out > LONG_MAX_VALUE:
            raise PFARuntimeException("long overflow", code2, fcnName, pos)
        else:
            return out
    else:
        return out
''', '''    if paramType not in ("int", "long"):
        return out
    low, high, code = (INT_MIN_VALUE, INT_MAX_VALUE, code1) if paramType == "int" else (LONG_MIN_VALUE, LONG_MAX_VALUE, code2)
    if math.isnan(out) or not (low <= out <= high):
        raise PFARuntimeException(paramType + " overflow", code, fcnName, pos)
    return out
'''),
(C, '''            quotient = abs(x) // abs(y)    # exact (truncates toward zero), unlike division as floating point
            return quotient if (x < 0) == (y < 0) else -quotient''', '''            quotient, rest = divmod(x, y)
            if rest != 0 and (x < 0) != (y < 0):
                quotient += 1
            return quotient'''),
(C, '''            if not math.isnan(x) and not math.isinf(x) and math.isinf(y):
                return x
            else:
                out = x % y
                if x < 0 and out > 0:
                    return out - abs(y)
                elif x > 0 and out < 0:
                    return out + abs(y)
                else:
                    return out''', '''            if math.isinf(y) and not (math.isnan(x) or math.isinf(x)):
                return x
            out = x % y
            if (x < 0 and out > 0) or (x > 0 and out < 0):
                out = out - y
            return out'''),
(C, '''        if compare(jsonNodeToAvroType(paramTypes[0]), x, y) >= 0:
            return x
        else:
            return y''', '''        return y if compare(jsonNodeToAvroType(paramTypes[0]), x, y) < 0 else x'''),
(C, '''        return (x or y) and not (x and y)''', '''        return bool(x) != bool(y)'''),
(C, '''        return compare(jsonNodeToAvroType(paramTypes[0]), x, y) != 0''', '''        return not compare(jsonNodeToAvroType(paramTypes[0]), x, y) == 0'''),
(C, '''        xval = x()
        if xval is False or xval == {"boolean": False}:
            return {"boolean": False}
        yval = y()
        if yval is False or yval == {"boolean": False}:
            return {"boolean": False}
        elif (xval is True or xval == {"boolean": True}) and (yval is True or yval == {"boolean": True}):
            return {"boolean": True}
        else:
            return None''', '''        xval = self._plain(x())
        if xval is False:
            return {"boolean": False}
        yval = self._plain(y())
        if yval is False:
            return {"boolean": False}
        return None if xval is None or yval is None else {"boolean": True}

    def _plain(self, v):
        if isinstance(v, dict):
            v, = v.values()
        return v'''),
(D, '''        if math.isnan(x):
            if math.isnan(y):
                return 0
            else:
                return 1
        else:
            if math.isnan(y):
                return -1
            else:
                return (x > y) - (x < y)
    elif isinstance(avroType, AvroDouble)''', '''        return _compareFloats(x, y)
    elif isinstance(avroType, AvroDouble)'''),
(D, '''def compare(avroType, x, y):
''', '''def _compareFloats(x, y):
    if math.isnan(x) or math.isnan(y):
        return int(math.isnan(x)) - int(math.isnan(y))
    return (x > y) - (x < y)

def compare(avroType, x, y):
'''),
(D, '''        comparison = avroType.symbols.index(x) - avroType.symbols.index(y)
        if comparison < 0:
            return -1
        elif comparison > 0:
            return 1
        else:
            return 0''', '''        i, j = avroType.symbols.index(x), avroType.symbols.index(y)
        return (i > j) - (i < j)'''),
(D, '''        for xi, yi in zip(x, y):
            comparison = compare(avroType.items, xi, yi)
            if comparison != 0:
                return comparison
        if len(x) > len(y):
            return 1
        elif len(x) < len(y):
            return -1
        else:
            return 0''', '''        for i in range(min(len(x), len(y))):
            comparison = compare(avroType.items, x[i], y[i])
            if comparison != 0:
                return comparison
        return (len(x) > len(y)) - (len(x) < len(y))'''),
(D, '''            if field.order == "ignore":
                continue
            comparison = compare(field.avroType, x[field.name], y[field.name])
            if comparison != 0:
                if field.order == "descending":
                    return -comparison
                else:
                    return comparison
        return 0''', '''            if field.order != "ignore":
                if field.order == "descending":
                    comparison = compare(field.avroType, y[field.name], x[field.name])
                else:
                    comparison = compare(field.avroType, x[field.name], y[field.name])
                if comparison:
                    return comparison
        return 0'''),
(D, '''            newData = {}
            for key in data:
                value = checkData(data[key], avroType.values)
                if isinstance(key, bytes):
                    newData[key.decode("utf-8", "replace")] = value
                elif isinstance(key, str):
                    newData[key] = value
                else:
                    raise TypeError("expecting {0}, found key {1}".format(ts(avroType), key))
            return newData''', '''            newData = {}
            for key in data:
                name = key.decode("utf-8", "replace") if isinstance(key, bytes) else key
                if not isinstance(name, str):
                    raise TypeError("expecting {0}, found key {1}".format(ts(avroType), key))
                newData[name] = checkData(data[key], avroType.values)
            return newData'''),
(D, '''                try:
                    value = data[field.name]
                except KeyError:
                    raise TypeError("expecting {0}, couldn't find key {1}".format(ts(avroType), field.name))
                newData[field.name] = checkData(value, field.avroType)''', '''                name = field.name
                if name not in data:
                    raise TypeError("expecting {0}, couldn't find key {1}".format(ts(avroType), name))
                newData[name] = checkData(data[name], field.avroType)'''),
(D, '''            return [checkData(x, avroType.items) for x in data]''', '''            out = []
            for item in data:
                out.append(checkData(item, avroType.items))
            return out'''),
]
