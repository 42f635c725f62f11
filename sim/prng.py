# -*- coding: utf-8 -*-
"""The one source of choices: SplitMix64, the same on CPython and Jython."""
from __future__ import absolute_import, division, print_function

M = (1 << 64) - 1


def mix(*parts):
    """A 64 bit number from integers and strings."""
    h = 0xcbf29ce484222325
    for p in parts:
        if not isinstance(p, (int,)) and not hasattr(p, 'bit_length'):
            b = p.encode('utf-8') if not isinstance(p, bytes) else p
            n = 0
            for c in bytearray(b):
                n = ((n ^ c) * 0x100000001b3 + 0x9d) & M
            p = n
        h = (h ^ (p & M)) & M
        h = (h * 0xbf58476d1ce4e5b9 + 0x9e3779b97f4a7c15) & M
        h ^= h >> 29
        h = (h * 0x94d049bb133111eb) & M
        h ^= h >> 32
    return h


class Rng(object):
    def __init__(self, *seed):
        self.s = mix(*seed)

    def next(self):
        self.s = (self.s + 0x9e3779b97f4a7c15) & M
        z = self.s
        z = ((z ^ (z >> 30)) * 0xbf58476d1ce4e5b9) & M
        z = ((z ^ (z >> 27)) * 0x94d049bb133111eb) & M
        return z ^ (z >> 31)

    def below(self, n):
        return int(self.next() % n)

    def rint(self, a, b):
        """a <= result <= b"""
        return a + self.below(b - a + 1)

    def float(self):
        return (self.next() >> 11) / float(1 << 53)

    def chance(self, p):
        return self.float() < p

    def choice(self, seq):
        return seq[self.below(len(seq))]

    def weighted(self, pairs):
        """pairs of (weight, value)"""
        total = sum(w for w, _ in pairs)
        r = self.float() * total
        for w, v in pairs:
            r -= w
            if r < 0:
                return v
        return pairs[-1][1]

    def shuffled(self, seq):
        l = list(seq)
        for i in range(len(l) - 1, 0, -1):
            j = self.below(i + 1)
            l[i], l[j] = l[j], l[i]
        return l

    def sample(self, seq, k):
        return self.shuffled(seq)[:k]

    def fork(self, *tag):
        return Rng(self.next(), *tag)
