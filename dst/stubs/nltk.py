# -*- coding: utf-8 -*-
""" A stand-in for the four parts of NLTK the library uses (it is not installed). """
import collections


class FreqDist(collections.Counter):
    def N(self):
        return sum(self.values())

    def B(self):
        return len(self)

    def freq(self, x):
        return float(self[x]) / self.N() if self.N() else 0


class ConditionalFreqDist(collections.defaultdict):
    def __init__(self, samples=()):
        collections.defaultdict.__init__(self, FreqDist)
        for cond, s in samples:
            self[cond][s] += 1

    def conditions(self):
        return sorted(self)

    def N(self):
        return sum(f.N() for f in self.values())


class LaplaceProbDist(object):
    def __init__(self, freqdist, bins=None):
        self._fd = freqdist
        self._bins = bins if bins is not None else freqdist.B()

    def freqdist(self):
        return self._fd

    def prob(self, sample):
        return (self._fd[sample] + 1.0) / (self._fd.N() + self._bins)


class ConditionalProbDist(dict):
    def __init__(self, cfdist, factory, *args):
        dict.__init__(self)
        for c in cfdist:
            self[c] = factory(cfdist[c], *args)

    def conditions(self):
        return sorted(self)
