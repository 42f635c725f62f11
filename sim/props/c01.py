# -*- coding: utf-8 -*-
from __future__ import absolute_import, division, print_function

from props import history

RUNS = {'quick': 3500, 'thorough': 60000}
JRUNS = {'quick': 60, 'thorough': 1500}
RULE = ('run i of a seed is one history of 1 to 5 saves (JSON, with every option, kind of tag and viewpoints), failed saves, loads and process restarts, with random '
        'buffer sizes and short reads and writes; non-trivial: at least one save was acknowledged; distinct: the scenario differs')
MEASURE = 'kind of file and size at the moment of acknowledgement'
REAL = ['gsapi (all modules, from the working tree)', 'json', 'pickle', 'io buffering and text layers']
STUB = ['disk: in-memory file system (sim/simfs.py); in Jython also the Python 2 file type',
        'randomness: seeded per run']
ASSUMPTIONS = ['what a write call handed to the operating system survives the death of the process (no power loss)',
               'names and tags are text; one process writes a file at a time']
KINDS = ['json']


def gen(r, tier, i):
    return history.gen(r, tier, i, KINDS, True)


def run(s, o):
    history.run(s, o)
