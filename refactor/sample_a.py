"""behaviour-preserving edits of titus/lib/stat/sample.py"""
F = 'titus/lib/stat/sample.py'
E = [
    (F, '''                varianceTimesCount = theState["variance"] * originalCount
                varianceTimesCount += originalCount * delta * shift
                return dict(theState, count=count, mean=mean, variance=div(varianceTimesCount, count))
''', '''                variance = div(originalCount * (theState["variance"] + delta * shift), count)
                out = dict(theState)
                out.update({"count": count, "mean": mean, "variance": variance})
                return out
'''),
    (F, '''            newCovariance = []
            for i in range(size):
                row = []
                for j in range(size):
                    row.append(div((oldCovariance[i][j]*oldCount) + div((x[i] - oldMean[i]) * (x[j] - oldMean[j]) * w*oldCount, newCount), newCount))
                newCovariance.append(row)
''', '''            newCovariance = [[div((oldCovariance[i][j]*oldCount) + div((x[i] - oldMean[i]) * (x[j] - oldMean[j]) * w*oldCount, newCount), newCount) for j in range(size)] for i in range(size)]
'''),
    (F, '''                if index < len(values):
                    newValues = list(values)
                    newValues[index] = newValues[index] + w
                else:
                    newValues = values + [0.0] * (index - len(values)) + [w]
''', '''                newValues = list(values)
                if index >= len(newValues):
                    newValues.extend([0.0] * (index - len(newValues) + 1))
                newValues[index] += w
'''),
    (F, '''            index = 0
            for best in top:
                if callfcn(state, scope, lessThan, [best, x]):
                    break
                index += 1
            if index == len(top):
                out = top + [x]
            else:
                above, below = top[:index], top[index:]
                out = above + [x] + below
            return out[:n]
''', '''            where = len(top)
            for index, best in enumerate(top):
                if callfcn(state, scope, lessThan, [best, x]):
                    where = index
                    break
            return (top[:where] + [x] + top[where:])[:n]
'''),
    (F, '''            remove, keep = theState[:splitAt], theState[splitAt:]
            oldx = [xi["x"] for xi in remove]
            oldw = [-xi["w"] for xi in remove]
''', '''            keep = theState[splitAt:]
            oldx = [theState[i]["x"] for i in range(splitAt)]
            oldw = [-theState[i]["w"] for i in range(splitAt)]
'''),
    (F, '''        level = alpha * x + (1.0 - alpha) * (level_prev + trend_prev)
        trend = beta * (level - level_prev) + (1.0 - beta) * trend_prev
        return dict(theState, level=level, trend=trend)
''', '''        level = (1.0 - alpha) * (level_prev + trend_prev) + alpha * x
        return dict(theState, trend=beta * (level - level_prev) + (1.0 - beta) * trend_prev, level=level)
'''),
    (F, '''        if (hasUnderflow):
            updator["underflow"] = histogram["underflow"] + (w if underflow else 0.0)
''', '''        if hasUnderflow:
            if underflow:
                updator["underflow"] = histogram["underflow"] + w
            else:
                updator["underflow"] = histogram["underflow"]
'''),
]
