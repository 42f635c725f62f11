#!/usr/bin/env python3
"""Writes properties.jsonl from the list below (run by hand; the file is committed)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({'id': id, 'title': title, 'statement': ' '.join(statement.split()),
              'quantifier': {'over': over, 'text': ' '.join(text.split())},
              'why_tests_cant': ' '.join(why.split()),
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                          'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state],
                          'observe_at': list(observe), 'hook_needed': hook}})


prop('C01', 'A JSON save that returned is durable and faithful',
     '''When saving a pattern to JSON has returned, the file it names holds the pattern: in this process and in any later one,
     whatever was in the file before and whatever else is saved or crashes afterwards to other files, loading it gives a pattern
     with the same name, duration, bpm, time signature, events (onset, duration, pitch, velocity, tag; ordered by onset, equal
     onsets in their old order) and viewpoints, nested ones included, with their origin. This holds with and without tag
     indexing, with and without tuple conservation (the same choice for saving and loading), for string, number, tuple and (with
     conservation) nested tuple tags, and whatever buffer sizes, short writes and short reads the operating system deals out.''',
     ['inputs', 'histories', 'crash_points', 'schedules'],
     '''every pattern with string, numeric or tuple tags; every history of saves (new files and replacements of shorter or longer
     ones), loads, restarts and crashed saves of other files; every way the OS splits reads and writes''',
     '''the tests save a few patterns once and reload them in the same process, where a file left unflushed or a value kept only
     in memory looks saved''',
     ['gsapi/gsio.py', 'gsapi/gspattern.py'],
     [('toJSONFile / fromJSONFile, JSONDict / fromJSONDict', 'gsapi/gsio.py'), ('Pattern viewpoints and originPattern', 'gsapi/gspattern.py')],
     observe=['gsio.toJSONFile', 'gsio.fromJSONFile'])
prop('C02', 'A MIDI export that returned is durable, well formed and faithful',
     '''When exporting a pattern to MIDI has returned, the file it names is, in this and any later process, a complete and well
     formed standard MIDI file that any strict reader accepts: every track ends with one end-of-track, every note-on has its
     note-off, no data follows. Its notes, read by an independent decoder or by gsapi, are the pattern's notes, each with its pitch (the one its tag
     has in the mapping given, if there is one) and velocity, its onset and end within one tick; name, resolution, tempo (within a microsecond per beat), time signature, key and
     duration (the longer of the pattern's and its last note's end) come back too. This is claimed for notes that MIDI can
     represent: notes of one pitch do not overlap (one shorter than a tick still sounds and ends), velocities are from 1 to 127.''',
     ['inputs', 'histories', 'crash_points', 'schedules'],
     '''every such pattern in every event order (with consecutive notes of one pitch that touch, and times far beyond the
     variable-length boundaries); every history of exports, replacements, restarts and crashed exports of other files; every split of reads and writes''',
     '''the tests export one pattern and re-import it with the same library, in which symmetric mistakes cancel out; they never
     look at the bytes or restart the process''',
     ['gsapi/gsio.py', 'gsapi/midiio.py'],
     [('toMidiFile / fromMidiFile', 'gsapi/gsio.py'), ('write_midifile, FileWriter, FileReader', 'gsapi/midiio.py')],
     observe=['gsio.toMidiFile', 'bytes on the disk', 'gsio.fromMidiFile'])
prop('C03', 'A pickle save that returned is durable and faithful',
     '''When saving a pattern (by either pickle function) or a style (Markov or database) to pickle has returned, loading the file in
     this process or any later one gives the whole object back: every field of the pattern, its events in their order, viewpoints
     and origins; for a style its kind, parameters, transition tables or patterns. This holds whatever was in the file before,
     whatever happens to other files in between and however the operating system splits reads and writes.''',
     ['inputs', 'histories', 'crash_points'],
     'every pattern and style; every history of saves, replacements, loads, restarts and crashed saves of other files',
     'the tests pickle nothing but one pattern, in the process that also reads it',
     ['gsapi/gsio.py', 'gsapi/gsstyles.py'],
     [('toPickleFile, fromPickleFile, write2pickle', 'gsapi/gsio.py'), ('Style.saveToPickle / loadFromPickle', 'gsapi/gsstyles.py')],
     observe=['gsio.toPickleFile', 'gsio.write2pickle', 'gsstyles.Style.saveToPickle'])
prop('C04', 'A storage fault is never silent, and never changes what was given',
     '''When opening, reading, writing, closing or creating a folder fails during a save or a load (I/O error, disk full, torn
     write, permission, too many files, interruption, out of memory), the call raises instead of returning, unless what it
     returns or saved is nevertheless exactly what the fault-free call gives. What it was given is unchanged: a pattern or style being saved
     keeps all its contents, and a style whose load failed is as before the call or fully as in the file. Short reads and
     writes and a folder that somebody else creates at the same moment are no faults and fail no call, and the same call
     made again once faults have stopped succeeds with the fault-free result.''',
     ['fault_sequences', 'inputs', 'histories'],
     'every operation on the disk of every save and load (JSON, MIDI, pickle, styles, MIDI folders, datasets), every kind of fault there, alone and in sequences over retries',
     'no test makes an I/O call fail',
     ['gsapi/gsio.py', 'gsapi/midiio.py', 'gsapi/gsstyles.py', 'gsapi/gsdataset.py'],
     [('save and load functions', 'gsapi/gsio.py'), ('read_midifile / write_midifile', 'gsapi/midiio.py'),
      ('Style.saveToJSON, loadFromJSON, saveToPickle, loadFromPickle', 'gsapi/gsstyles.py'), ('Dataset.importMIDI', 'gsapi/gsdataset.py')],
     observe=['exceptions', 'files', 'objects passed in'])
prop('C05', 'A file cut short by a crash is never loaded as something else',
     '''When the process dies at any moment of a save, or a saved file is cut at any byte, a later load of that file either
     raises or gives exactly the pattern or style that was being saved (or, after a crash, the one the file held before);
     it never returns part of it. Saving again from the new process succeeds and the file then loads as the new one.''',
     ['crash_points', 'inputs', 'histories'],
     'every I/O operation and every byte of every kind of file at which a crash or a cut can come, with and without an older version of the file',
     'no test crashes a save or cuts a file; the cut points are as many as the bytes',
     ['gsapi/gsio.py', 'gsapi/midiio.py', 'gsapi/gsstyles.py'],
     [('readers of JSON, pickle and MIDI', 'gsapi/gsio.py, gsapi/midiio.py, gsapi/gsstyles.py')],
     observe=['gsio.from*File', 'Style.loadFrom*'])
prop('C06', 'No save or load leaves a file open',
     '''Whenever a save or load (of JSON, MIDI, pickle files, styles, MIDI folders, datasets) ends, by returning or by
     raising, every file that it opened has been closed by then, not left to the garbage collector. This holds when I/O
     operations fail, are interrupted or run out of memory, and when the call is cancelled between two of its steps.''',
     ['fault_sequences', 'crash_points', 'inputs'],
     'every save and load, every fault at every I/O operation (for a failing close, the file counts as closed), cancellation on entry to any function',
     'CPython closes forgotten files by itself, so nothing is visible in a test that passes; Jython does not',
     ['gsapi/gsio.py', 'gsapi/midiio.py', 'gsapi/gsstyles.py', 'gsapi/gsdataset.py'],
     [('with open(...)', 'gsapi/gsio.py, gsapi/midiio.py, gsapi/gsstyles.py')],
     observe=['descriptors of the simulated file system at return'])
prop('C07', 'Saves and loads touch only the file they are about',
     '''A save changes nothing on the disk but the file it names, created in or written to the folder it was given, and the
     missing folders above it; no temporary file, folder or backup remains after it, whether it returned or raised, and a file
     that was there is not removed.
     A load changes nothing at all. This holds for every folder form (relative, trailing slash, nested, with spaces and dots), under faults,
     retries and cancellation.''',
     ['inputs', 'fault_sequences', 'crash_points'],
     'every save and load with every form of folder and name, every fault at every I/O operation, cancellation on entry to any function',
     'the tests look only at the file they expect, never at the rest of the disk',
     ['gsapi/gsio.py', 'gsapi/gsstyles.py', 'gsapi/midiio.py'],
     [('path handling of the save functions', 'gsapi/gsio.py')],
     observe=['whole simulated disk before and after'])

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'moreprops.py')).read()) if os.path.exists(
    os.path.join(os.path.dirname(os.path.abspath(__file__)), 'moreprops.py')) else None
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=True) + '\n')
print(len(P), sorted(p['id'] for p in P if len(p['title'])>80))
