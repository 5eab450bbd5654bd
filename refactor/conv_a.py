SA, CA, MA, BA, IM = ('titus/lib/%s.py' % n for n in ('pfastring', 'cast', 'pfamath', 'bytes', 'impute'))
E = [
(SA, '''    def __call__(self, state, scope, pos, paramTypes, s, start, end):
        return s[start:end]''', '''    def __call__(self, state, scope, pos, paramTypes, s, start, end):
        normStart, normEnd = startEnd(len(s), start, end)
        return s[normStart:normEnd]'''),
(SA, '''        normStart, normEnd = startEnd(len(s), start, end)
        before = s[:normStart]
        after = s[normEnd:]
        return before + replacement + after''', '''        bounds = startEnd(len(s), start, end)
        return "".join([s[0:bounds[0]], replacement, s[bounds[1]:]])'''),
(SA, '''        return needle in haystack''', '''        return haystack.find(needle) != -1'''),
(SA, '''        if len(haystack) == 0 or len(needle) == 0:
            return 0
        else:
            return haystack.count(needle)''', '''        if not haystack or not needle:
            return 0
        return haystack.count(needle)'''),
(SA, '''        try:
            return haystack.index(needle)
        except ValueError:
            return -1''', '''        return haystack.find(needle)'''),
(SA, '''        try:
            return haystack.rindex(needle)
        except ValueError:
            return -1''', '''        return haystack.rfind(needle)'''),
(SA, '''        if len(sep) == 0:
            return []
        else:
            return s.split(sep)''', '''        return s.split(sep) if sep else []'''),
(SA, '''        if len(args) == 1:
            x, = args
            if x < 0:
                raise PFARuntimeException("negative number", self.errcodeBase + 1, self.name, pos)
            else:
                return "{0:x}".format(x)
        else:
            x, width, zeroPad = args
            if x < 0:
                raise PFARuntimeException("negative number", self.errcodeBase + 1, self.name, pos)
            if not zeroPad:
                if width < 0:
                    formatStr = "{0:<" + str(-width) + "x}"
                elif width == 0:
                    formatStr = ""
                else:
                    formatStr = "{0:" + str(width) + "x}"
            else:
                if width < 0:
                    raise PFARuntimeException("negative width cannot be used with zero-padding", self.errcodeBase + 0, self.name, pos)
                elif width == 0:
                    formatStr = ""
                else:
                    formatStr = "{0:0" + str(width) + "x}"
            return formatStr.format(x)''', '''        x = args[0]
        if x < 0:
            raise PFARuntimeException("negative number", self.errcodeBase + 1, self.name, pos)
        if len(args) == 1:
            return "{0:x}".format(x)
        return self._padded(x, args[1], args[2], pos)

    def _padded(self, x, width, zeroPad, pos):
        if zeroPad and width < 0:
            raise PFARuntimeException("negative width cannot be used with zero-padding", self.errcodeBase + 0, self.name, pos)
        if width == 0:
            return ""
        if width < 0:
            flags = "<" + str(-width)
        elif zeroPad:
            flags = "0" + str(width)
        else:
            flags = str(width)
        return ("{0:" + flags + "x}").format(x)'''),
(SA, '''        if len(s) > 0:
            return s.replace(original, replacement, 1)
        else:
            return s.replace(original, replacement)''', '''        if len(s) == 0:
            return s.replace(original, replacement)
        return s.replace(original, replacement, 1)'''),
(SA, '''        backward = "".join(reversed(s))
        if len(s) > 0:
            replaced = backward.replace("".join(reversed(original)), "".join(reversed(replacement)), 1)
        else:
            replaced = backward.replace("".join(reversed(original)), "".join(reversed(replacement)))
        return "".join(reversed(replaced))''', '''        def flip(x):
            return "".join(reversed(x))
        if len(s) > 0:
            replaced = flip(s).replace(flip(original), flip(replacement), 1)
        else:
            replaced = flip(s).replace(flip(original), flip(replacement))
        return flip(replaced)'''),
(SA, '''            try:
                i = oldchars.index(c)
            except ValueError:
                out.append(c)
            else:
                if i < len(newchars):
                    out.append(newchars[i])
        return "".join(out)''', '''            i = oldchars.find(c)
            if i == -1:
                out.append(c)
            elif i < len(newchars):
                out.append(newchars[i])
        return "".join(out)'''),
(CA, '''    if x < 0:
        y = x + maximum * int(math.ceil(-float(x) / maximum))
    else:
        y = x
    return y % maximum''', '''    return x % maximum'''),
(CA, '''        y = doUnsigned(x, bits)
        maximum = bitsToMax(bits - 1)
        if y > maximum - 1:
            return y - 2*maximum
        else:
            return y''', '''        y = doUnsigned(x, bits)
        half = bitsToMax(bits - 1)
        return y - 2*half if y >= half else y'''),
(CA, '''            if isinstance(x, float):
                if math.isnan(x):
                    raise OverflowError
                else:
                    out = int(math.floor(x + 0.5))
            else:
                out = x
            if INT_MIN_VALUE <= out <= INT_MAX_VALUE:
                return out
            else:
                raise OverflowError''', '''            if isinstance(x, float) and math.isnan(x):
                raise OverflowError
            out = int(math.floor(x + 0.5)) if isinstance(x, float) else x
            if out < INT_MIN_VALUE or out > INT_MAX_VALUE:
                raise OverflowError
            return out'''),
(CA, '''    out = [x == s for s in dictionary]
    if outOfRange:
        return out + [x not in dictionary]
    else:
        return out''', '''    out = []
    for s in dictionary:
        out.append(x == s)
    if outOfRange:
        out.append(x not in dictionary)
    return out'''),
(CA, '''    out = [x == i for i in range(minimum, maximum)]
    if outOfRange:
        return out + [x < minimum or x >= maximum]
    else:
        return out''', '''    out = []
    for i in range(minimum, maximum):
        out.append(x == i)
    if outOfRange:
        out.append(not (minimum <= x < maximum))
    return out'''),
(MA, '''        return abs(mag) * (-1 if sign < 0 else 1)''', '''        return -abs(mag) if sign < 0 else abs(mag)'''),
(MA, '''        up, down = math.ceil(x), math.floor(x)
        if up - x < x - down:
            return up
        elif up - x > x - down:
            return down
        elif int(up) % 2 == 0:
            return up
        else:
            return down
''', '''        down = math.floor(x)
        above = x - down
        if above < 0.5:
            return down
        if above > 0.5:
            return down + 1
        return down if int(down) % 2 == 0 else down + 1
'''),
(MA, '''        if math.isnan(x):
            return 0
        elif x == 0:
            return 0
        elif x > 0:
            return 1
        else:
            return -1''', '''        if x > 0:
            return 1
        if x < 0:
            return -1
        return 0'''),
(BA, '''        before = x[:normStart]
        after = x[normEnd:]
        return bytesToString(before + replacement + after)''', '''        return bytesToString(x[:normStart] + replacement + x[normEnd:])'''),
(BA, '''        if isinstance(x, str):
            return x[start:end]
        else:
            return bytesToString(x[start:end])''', '''        part = x[start:end]
        return part if isinstance(part, str) else bytesToString(part)'''),
('titus/lib/fixed.py', '''        length = min(len(original), len(replacement))
        return replacement[0:length] + original[length:len(original)]''', '''        if len(replacement) >= len(original):
            return replacement[:len(original)]
        return replacement + original[len(replacement):]'''),
('titus/lib/enum.py', '''        try:
            return paramTypes[0]["symbols"].index(x)
        except ValueError:
            raise AvroException("\\"{0}\\" is not in enum {1} ({2})".format(x, paramTypes[0]["name"], paramTypes[0]["symbols"]))''', '''        symbols = paramTypes[0]["symbols"]
        for i, symbol in enumerate(symbols):
            if symbol == x:
                return i
        raise AvroException("\\"{0}\\" is not in enum {1} ({2})".format(x, paramTypes[0]["name"], symbols))'''),
(IM, '''        if math.isnan(x):
            raise PFARuntimeException("encountered nan", self.errcodeBase + 0, self.name, pos)
        elif math.isinf(x):
            if x > 0.0:
                raise PFARuntimeException("encountered +inf", self.errcodeBase + 1, self.name, pos)
            else:
                raise PFARuntimeException("encountered -inf", self.errcodeBase + 2, self.name, pos)
        else:
            return x''', '''        if math.isnan(x):
            what, offset = "nan", 0
        elif math.isinf(x):
            what, offset = ("+inf", 1) if x > 0.0 else ("-inf", 2)
        else:
            return x
        raise PFARuntimeException("encountered " + what, self.errcodeBase + offset, self.name, pos)'''),
(IM, '''        return not math.isnan(x) and not math.isinf(x)''', '''        return not (math.isnan(x) or math.isinf(x))'''),
]
