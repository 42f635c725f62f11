# -*- coding: utf-8 -*-
"""An independent reading of what a Markov style learns from patterns, and what it may generate."""
from __future__ import absolute_import, division, print_function

import math

import lib

SIL = lib.digest(['s', 'silence'])


def key(t):
    """A tag (data form or native) as something hashable and independent of the run time."""
    return lib.digest(lib.ctag(t))


def state(tags):
    return frozenset(tags)


def steps(p, steps, loop, api):
    """For each step of the pattern, the set of tags that start there."""
    n = int(round(p['duration'] * steps / float(loop)))
    out = [set() for _ in range(n)]
    for e in p['events']:
        x = e[0] * steps / float(loop)
        k = int(math.floor(x + 0.5))
        if 0 <= k < n:
            out[k].add(key(lib.mktag(api, e[4])))
    return [state(x or [SIL]) for x in out]


def learn(pats, order, nsteps, loop, api):
    """[{past: {state: probability}}]"""
    table = [{} for _ in range(nsteps)]
    for p in pats:
        s = steps(p, nsteps, loop, api)
        n = len(s)

        def at(i):
            return s[i] if 0 <= i < n else state([])
        for k in range(nsteps):
            past = tuple(at(j if j >= 0 else j + n) for j in range(k - order, k))
            d = table[k].setdefault(past, {})
            d[at(k)] = d.get(at(k), 0) + 1
    for t in table:
        for d in t.values():
            total = float(sum(d.values()))
            for k in d:
                d[k] /= total
    return table


def visible(st):
    return frozenset(x for x in st if x != SIL)


def outs(table, k):
    return set(e for d in table[k].values() for e in d)


def read(pat, nsteps, loop):
    """The tags at each step of a generated pattern, or words for what is wrong with it."""
    size = float(loop) / nsteps
    got = [[] for _ in range(nsteps)]
    if float(pat.duration) != float(loop):
        return 'duration %r instead of %r' % (pat.duration, loop)
    last = -1
    for e in pat.events:
        k = int(round(e.startTime / size))
        if not 0 <= k < nsteps or abs(e.startTime - k * size) > 1e-9 or abs(e.duration - size) > 1e-9:
            return 'an event at %r of length %r with steps of %r' % (e.startTime, e.duration, size)
        t = key(e.tag)
        if t == SIL:
            return 'a silence as an event'
        if t in got[k]:
            return 'the tag %r twice at step %d' % (e.tag, k)
        got[k].append(t)
    return [frozenset(x) for x in got]


def possible(table, order, got):
    """None if some learned path shows these tags; otherwise the step at which there is none."""
    n = len(table)
    # hidden states: 'silence' and nothing look the same
    paths = set([()])
    for k in range(min(order, n)):
        cand = [e for e in outs(table, k) if visible(e) == got[k]]
        paths = set(p + (e,) for p in paths for e in cand)
        if not paths:
            return k
    for k in range(order, n):
        new = set()
        for p in paths:
            for e in table[k].get(p, {}):
                if visible(e) == got[k]:
                    new.add((p + (e,))[-order:] if order else ())
        if not new:
            return k
        paths = new
    return None


def nostart(table, order):
    """Probability that 29 beginnings, each step drawn on its own, were all never learned."""
    w = []
    for k in range(order):
        n = {}
        for d in table[k].values():
            for e in d:
                n[e] = n.get(e, 0) + 1
        w.append((n, float(sum(n.values()))))
    good = 0.0
    for past in table[order]:
        x = 1.0
        for (n, total), e in zip(w, past):
            x *= n.get(e, 0) / total
        good += x
    return max(0.0, 1 - good) ** 29


def unlikely(count, n, p):
    """Is seeing it count times of n less likely than about 1e-10? (Chernoff)"""
    if n == 0:
        return False
    q = count / float(n)
    if p <= 0:
        return count > 0
    if p >= 1:
        return count < n
    kl = 0.0
    if q > 0:
        kl += q * math.log(q / p)
    if q < 1:
        kl += (1 - q) * math.log((1 - q) / (1 - p))
    return n * kl > 24
