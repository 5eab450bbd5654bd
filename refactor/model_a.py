"""behaviour-preserving edits of titus/lib/model/*.py"""
SV, NE, CL, TR, NA = ['titus/lib/model/%s.py' % n for n in ('svm', 'neighbor', 'cluster', 'tree', 'naive')]
E = [
    (SV, '''        negClassScore = 0.0
        for sv in negClass:
            supVec = sv["supVec"]
            if len(supVec) != len(datum):
                raise PFARuntimeException("support vectors must have same length as datum", self.errcodeBase + 1, self.name, pos)
            coeff  = sv["coeff"]
            negClassScore += callfcn(state, scope, kernel, [supVec, datum])*coeff
        posClassScore = 0.0
        for sv in posClass:
            supVec = sv["supVec"]
            if len(supVec) != len(datum):
                raise PFARuntimeException("support vectors must have same length as datum", self.errcodeBase + 1, self.name, pos)
            coeff  = sv["coeff"]
            posClassScore += callfcn(state, scope, kernel, [supVec, datum])*coeff
        return negClassScore + posClassScore + const
''', '''        def classScore(supportVectors):
            out = 0.0
            for sv in supportVectors:
                if len(sv["supVec"]) != len(datum):
                    raise PFARuntimeException("support vectors must have same length as datum", self.errcodeBase + 1, self.name, pos)
                out += sv["coeff"]*callfcn(state, scope, kernel, [sv["supVec"], datum])
            return out
        negClassScore = classScore(negClass)
        posClassScore = classScore(posClass)
        return const + negClassScore + posClassScore
'''),
    (NE, '''            distances = [math.sqrt(sum((di - xi)**2 for di, xi in zip(datum, x))) for x in codebook]
        return [x for x, d in zip(codebook, distances) if d < r]
''', '''            distances = []
            for x in codebook:
                distances.append(math.sqrt(sum((di - xi)**2 for di, xi in zip(datum, x))))
        out = []
        for i, x in enumerate(codebook):
            if distances[i] < r:
                out.append(x)
        return out
'''),
    (NE, '''            if weight is None:
                w = 1.0
            else:
                w = callfcn(state, scope, weight, [point])

            for i in range(dimensions):
                numer[i] += w * point[i]
                denom[i] += w
''', '''            w = 1.0 if weight is None else callfcn(state, scope, weight, [point])
            for i, xi in enumerate(point):
                denom[i] += w
                numer[i] += xi * w
'''),
    (CL, '''        summ = [0.0 for i in range(dimension)]

        for vec in data:
            if len(vec) != dimension:
                raise PFARuntimeException("dimensions of vectors do not match", self.errcodeBase + 1, self.name, pos)
            for i in range(dimension):
                summ[i] += vec[i]

        vec = cluster["center"]
        if len(vec) != dimension:
            raise PFARuntimeException("dimensions of vectors do not match", self.errcodeBase + 1, self.name, pos)
        for i in range(dimension):
            summ[i] += weight * vec[i]

        denom = len(data) + weight
        for i in range(dimension):
            summ[i] = div(summ[i], denom)

        return dict(cluster, center=summ)
''', '''        summ = [0.0] * dimension

        for vec in data:
            if len(vec) != dimension:
                raise PFARuntimeException("dimensions of vectors do not match", self.errcodeBase + 1, self.name, pos)
            for i, vi in enumerate(vec):
                summ[i] = vi + summ[i]

        center = cluster["center"]
        if len(center) != dimension:
            raise PFARuntimeException("dimensions of vectors do not match", self.errcodeBase + 1, self.name, pos)

        denom = weight + len(data)
        return dict(cluster, center=[div(si + weight * ci, denom) for si, ci in zip(summ, center)])
'''),
    (TR, '''            numTrue = 0
            for comparison in comparisons:
                if callfcn(state, scope, test, [datum, comparison]) is True:
                    numTrue += 1
            return numTrue % 2 == 1
''', '''            out = False
            for comparison in comparisons:
                if callfcn(state, scope, test, [datum, comparison]):
                    out = not out
            return out
'''),
    (NA, '''        for d, p in zip(datum, classModel):
            p = p/normalizing + tiny
            ll += d * math.log(p)
        return ll
''', '''        for i, p in enumerate(classModel):
            ll += math.log(tiny + p/normalizing) * datum[i]
        return ll
'''),
]
