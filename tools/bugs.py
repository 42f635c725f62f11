# bugs to plant (see plant.py): bug(id, property, file, [(old, new)...], demo, needs, breaks)
PRE = '''
import sys, os, copy, random, threading
d = sys.argv[1]
from gsapi import gsio, gspattern, gsstyles, gsdescriptors, gsdataset, midiio
from gsapi.gspattern import Pattern, Event
def same(a, b, what=''):
    if a != b:
        print('%s: %r is not %r' % (what, a, b)); sys.exit(1)
'''

bug('s01', 'C01', 'gsapi/gsio.py',
    [("""    with open(filePath, 'w') as f:
        json.dump(myPattern""", """    # write in place if the file is there already
    with open(filePath, 'r+' if os.path.isfile(filePath) else 'w') as f:
        json.dump(myPattern""")], PRE + '''
p = Pattern(4, [Event(i * .25, .25, 60 + i, 80, 'a') for i in range(8)], name='x')
f = gsio.toJSONFile(p, d)
p.events = p.events[:2]
f = gsio.toJSONFile(p, d)
same(len(gsio.fromJSONFile(f)), 2)
''', 'a save over an older, longer file of the same name', 'replacing a JSON file with a shorter one leaves the tail of the old one behind')

bug('s02', 'C01', 'gsapi/gspattern.py',
    [("""                self.events += [Event(startTime=e['on'],
                                      duration=e['duration'],
                                      pitch=e['pitch'],
                                      velocity=e['velocity'],
                                      tag=e['tag']
""", """                tag = e['tag']
                self.events += [Event(startTime=e['on'],
                                      duration=e['duration'],
                                      pitch=e['pitch'],
                                      velocity=e['velocity'],
                                      tag=str(tag) if isinstance(tag, (int, float)) else tag
""")], PRE + '''
p = Pattern(4, [Event(0, 1, 60, 80, 7)], name='x')
same(gsio.fromJSONFile(gsio.toJSONFile(p, d, useTagIndexing=False)).events[0].tag, 7)
same(gsio.fromJSONFile(gsio.toJSONFile(p, d, useTagIndexing=True)).events[0].tag, 7)
''', 'a number as tag, saved without tag indexing', 'number tags come back as text')

bug('s03', 'C01', 'gsapi/gspattern.py',
    [("""                    if checkedPattern.name == name:
                        return checkedPattern
                    checkedPattern = checkedPattern.originPattern
""", """                    if checkedPattern.name == name and checkedPattern.originPattern is None:
                        return checkedPattern
                    checkedPattern = checkedPattern.originPattern
""")], PRE + '''
p = Pattern(4, [Event(0, 1, 60, 80, 'a')], name='x')
v = p.generateViewpoint('v', gsdescriptors.Density(), 4)
w = v.generateViewpoint('w', gsdescriptors.NumberOfTags(), 4)
q = gsio.fromJSONFile(gsio.toJSONFile(p, d))
assert q.viewpoints['v'].originPattern is q
assert q.viewpoints['v'].viewpoints['w'].originPattern is q.viewpoints['v'], q.viewpoints['v'].viewpoints['w'].originPattern
''', 'a viewpoint of a viewpoint', 'nested viewpoints lose their origin in JSON')

bug('s04', 'C02', 'gsapi/midiio.py',
    [("                res = chr4 + chr3 + chr2 + chr1\n", "                # longer than any piece\n                res = chr3 + chr2 + chr1\n")], PRE + '''
p = Pattern(4000, [Event(0, 1, 60, 80, 'C4'), Event(3000, 1, 62, 80, 'D4')], name='x')
q = gsio.fromMidiFile(gsio.toMidiFile(p, folderPath=d))
same([e.startTime for e in q.events], [0, 3000])
''', 'a pause of more than 2097151 ticks (2184 beats) between two events', 'long pauses get shorter in exported MIDI files')

bug('s05', 'C02', 'gsapi/gsio.py',
    [("    track.sort(key=lambda e: e.tick)\n", """    # notes of a chord start together, whatever ends there
    track.sort(key=lambda e: (e.tick, isinstance(e, midiio.EndOfTrackEvent), isinstance(e, midiio.NoteOffEvent)))
""")], PRE + '''
p = Pattern(4, [Event(0, 1, 60, 80, 'C4'), Event(1, 2, 60, 70, 'C4')], name='x')
q = gsio.fromMidiFile(gsio.toMidiFile(p, folderPath=d))
same([(e.startTime, e.duration, e.velocity) for e in q.events], [(0, 1, 80), (1, 2, 70)])
''', 'two notes of one pitch, the second starting where the first ends', 'at one tick the new note is started before the old one is released, so that both are cut')

bug('s06', 'C02', 'gsapi/midiio.py',
    [("        self.mpqn = int(float(6e7) / bpm)\n", "        self.mpqn = min(int(float(6e7) / bpm), 0xFFFFF)\n")], PRE + '''
p = Pattern(4, [Event(0, 1, 60, 80, 'C4')], name='x', bpm=40)
q = gsio.fromMidiFile(gsio.toMidiFile(p, folderPath=d))
assert abs(q.bpm - 40) < 0.01, q.bpm
''', 'a tempo below 57.2 bpm', 'slow tempi are saved as 57.2 bpm')

bug('s07', 'C03', 'gsapi/gsio.py',
    [("""    with open(filePath, 'rb') as f:
        return pickle.load(f)
""", """    filePath = os.path.abspath(filePath)
    stamp = os.path.getsize(filePath)
    if _loaded.get(filePath, (None,))[0] != stamp:
        with open(filePath, 'rb') as f:
            _loaded[filePath] = (stamp, pickle.load(f))
    return copy.deepcopy(_loaded[filePath][1])
"""), ("""def fromPickleFile(filePath):""", """_loaded = {}


def fromPickleFile(filePath):""")], PRE + '''
p = Pattern(4, [Event(0, 1, 60, 80, 'C4')], name='x')
f = gsio.toPickleFile(p, d)
same(gsio.fromPickleFile(f).events[0].pitch, 60)
p.events[0].pitch = 61
gsio.toPickleFile(p, d)
same(gsio.fromPickleFile(f).events[0].pitch, 61)
''', 'a file that is replaced by one of the same length between two loads in one process', 'the second load gives the contents of the first')

bug('s08', 'C03', 'gsapi/gsio.py',
    [("        pickle.dump(myPattern, f)\n", """        # the origins can be big
        origin, myPattern.originPattern = myPattern.originPattern, None
        pickle.dump(myPattern, f)
        myPattern.originPattern = origin
""")], PRE + '''
p = Pattern(4, [Event(0, 1, 60, 80, 'C4')], name='x')
v = p.generateViewpoint('v', gsdescriptors.Density(), 4)
w = gsio.fromPickleFile(gsio.toPickleFile(v, d))
assert w.originPattern is not None and w.originPattern.events == p.events
''', 'saving a viewpoint rather than the pattern it belongs to', 'the origin of a viewpoint is not saved')

bug('s09', 'C04', 'gsapi/gsio.py',
    [("""    if not os.path.exists(folderPath):
        _makeFolder(folderPath)
    with open(filePath, 'wb') as f:
        pickle.dump(myPattern, f)
    return os.path.abspath(filePath)
""", """    if not os.path.exists(folderPath):
        _makeFolder(folderPath)
    try:
        with open(filePath, 'wb') as f:
            pickle.dump(myPattern, f)
    except IOError as e:
        if e.errno != 28:
            raise
        gsioLog.error("no space left for %s" % filePath)
    return os.path.abspath(filePath)
""")], PRE + '''
p = Pattern(4, [Event(i * .01, 1, 60, 80, 'C4') for i in range(400)], name='x')
os.symlink('/dev/full', os.path.join(d, 'x.pickle'))
try:
    gsio.toPickleFile(p, d)
except (IOError, OSError):
    sys.exit(0)
sys.exit(1)
''', 'a full disk while a pattern is pickled', 'the save returns as if the file had been written')

bug('s10', 'C04', 'gsapi/gsstyles.py',
    [("""        with open(filePath, 'w') as f:
            json.dump(state, f)
""", """        f = open(filePath, 'w')
        try:
            json.dump(state, f)
        finally:
            try:
                f.close()
            except IOError:
                markovLog.error("could not close %s" % filePath)
""")], PRE + '''
s = gsstyles.MarkovStyle(1, 4, 4)
s.generateStyle([Pattern(4, [Event(0, 1, 60, 80, 'a')])])
os.symlink('/dev/full', os.path.join(d, 'x.json'))
try:
    s.saveToJSON(os.path.join(d, 'x.json'))
except (IOError, OSError):
    sys.exit(0)
sys.exit(1)
''', 'a style smaller than the buffer and a disk that fails when the file is closed', 'the error of the close is swallowed')

bug('s11', 'C05', 'gsapi/midiio.py',
    [("""            except StopIteration:
                raise EOFError""", """            except StopIteration:
                if isinstance(track[-1:] and track[-1], EndOfTrackEvent):
                    break
                raise EOFError"""),
     ], PRE + '''
# unused
''', '', '')
del BUGS['s11']

bug('s11', 'C05', 'gsapi/gsstyles.py',
    [("""            state = json.load(f)
        if state:
            self.setInternalState(state)
""", """            text = f.read().strip()
        if not text:
            # nothing was saved yet
            return
        state = json.loads(text)
        if state:
            self.setInternalState(state)
""")], PRE + '''
s = gsstyles.MarkovStyle(1, 4, 4)
s.generateStyle([Pattern(4, [Event(0, 1, 60, 80, 'a')])])
f = os.path.join(d, 'x.json')
s.saveToJSON(f)
open(f, 'w').close()
t = gsstyles.MarkovStyle(2, 8, 4)
try:
    t.loadFromJSON(f)
except Exception:
    sys.exit(0)
sys.exit(1)
''', 'a crash between creating the file and writing to it', 'loading the empty file that a crashed save left behind returns without an error and gives an empty style')

bug('s12', 'C05', 'gsapi/midiio.py',
    [("""        pattern = self.parse_file_header(midifile)
        for track in pattern:
            self.parse_track(midifile, track)
        return pattern
""", """        pattern = self.parse_file_header(midifile)
        for track in pattern:
            try:
                self.parse_track(midifile, track)
            except Exception as e:
                # what was read is better than nothing
                midiioLog.error(str(e))
                break
        return pattern
""")], PRE + '''
p = Pattern(4, [Event(i, 1, 60, 80, 'C4') for i in range(4)], name='x')
f = gsio.toMidiFile(p, folderPath=d)
b = open(f, 'rb').read()
for n in range(len(b)):
    open(f, 'wb').write(b[:n])
    try:
        q = gsio.fromMidiFile(f)
    except Exception:
        continue
    same(len(q), 4, n)
''', 'a MIDI file that was cut short by a crash', 'a cut MIDI file loads as a pattern without its last events')

bug('s13', 'C06', 'gsapi/gsio.py',
    [("""    with open(filePath, 'r') as f:
        return gspattern.Pattern().fromJSONDict(json.load(f, object_hook=hinted_tuple_hook if conserveTuple else None))
""", """    f = open(filePath, 'r')
    content = json.load(f, object_hook=hinted_tuple_hook if conserveTuple else None)
    f.close()
    return gspattern.Pattern().fromJSONDict(content)
""")], PRE + '''
import builtins
real, opened = builtins.open, []
def spy(*a, **k):
    f = real(*a, **k)
    opened.append(f)
    return f
f = os.path.join(d, 'x.json')
with open(f, 'w') as g:
    g.write('{"name": ')
builtins.open = spy
try:
    gsio.fromJSONFile(f)
except Exception:
    pass
builtins.open = real
assert opened and all(g.closed for g in opened), opened
''', 'a load that raises', 'the file stays open if it cannot be read')

bug('s14', 'C06', 'gsapi/gsstyles.py',
    [("""        with open(filePath, 'r') as f:
            state = json.load(f)
""", """        f = open(filePath, 'r')
        try:
            state = json.load(f)
        except ValueError:
            f.close()
            raise
        f.close()
""")], PRE + '''
import builtins
real, opened = builtins.open, []
def spy(*a, **k):
    f = real(*a, **k)
    opened.append(f)
    r = f.read
    def read(*a):
        raise OSError(5, 'Input/output error')
    class G(object):
        def __getattr__(self, n): return read if n == 'read' else getattr(f, n)
        def __enter__(self): f.__enter__(); return self
        def __exit__(self, *a): return f.__exit__(*a)
    return G()
f = os.path.join(d, 'x.json')
with open(f, 'w') as g:
    g.write('{}')
builtins.open = spy
try:
    gsstyles.MarkovStyle().loadFromJSON(f)
except Exception:
    pass
builtins.open = real
assert opened and all(g.closed for g in opened), opened
''', 'an I/O error, not a damaged text, while a style is read', 'the file of the style stays open')

bug('s15', 'C07', 'gsapi/gsio.py',
    [("""    with open(filePath, 'w') as f:
        json.dump(myPattern.toJSONDict(useTagIndexing=useTagIndexing), f,
                  cls=encoderClass, indent=1, separators=(',', ':'))
    return os.path.abspath(filePath)
""", """    # never leave half a file
    with open(filePath + '.part', 'w') as f:
        json.dump(myPattern.toJSONDict(useTagIndexing=useTagIndexing), f,
                  cls=encoderClass, indent=1, separators=(',', ':'))
    os.rename(filePath + '.part', filePath)
    return os.path.abspath(filePath)
""")], PRE + '''
p = Pattern(4, [Event(0, 1, 60, 80, object())], name='x')
try:
    gsio.toJSONFile(p, d, useTagIndexing=False)
except TypeError:
    pass
same([n for n in os.listdir(d) if n.endswith('.part')], [])
''', 'a save that fails halfway', 'a temporary file stays in the folder')

bug('s16', 'C07', 'gsapi/gsio.py',
    [("""    exportedPath = os.path.join(folderPath, name)

    midiio.write_midifile(exportedPath, pattern)
""", """    exportedPath = os.path.join(folderPath, name)

    try:
        midiio.write_midifile(exportedPath, pattern)
    except Exception:
        # no half file
        if os.path.exists(exportedPath):
            os.remove(exportedPath)
        raise
""")], PRE + '''
p = Pattern(4, [Event(0, 1, 60, 80, 'C4')], name='x')
f = gsio.toMidiFile(p, folderPath=d)
p.events[0].velocity = 4000
try:
    gsio.toMidiFile(p, folderPath=d)
except Exception:
    pass
assert os.path.exists(f)
''', 'an export that fails over a file that was there', 'the file that was there is removed')

bug('s17', 'C08', 'gsapi/gsio.py',
    [("                        noteTag = __tagsFromMidiNoteAndChannel(pitch, e.channel, noteToTagMap)\n".replace('                        ', '                    '),
      """                    if pitch not in tagOfPitch:
                        tagOfPitch[pitch] = __tagsFromMidiNoteAndChannel(pitch, e.channel, noteToTagMap)
                    noteTag = tagOfPitch[pitch]
"""), ("    notFoundTags = []\n", "    notFoundTags = []\n    tagOfPitch = {}\n")], PRE + '''
w = midiio.Pattern(resolution=96, tick_relative=True)
t = midiio.Track()
t.append(midiio.NoteOnEvent(tick=0, channel=0, data=[36, 80])); t.append(midiio.NoteOffEvent(tick=96, channel=0, data=[36, 80]))
t.append(midiio.NoteOnEvent(tick=0, channel=9, data=[36, 80])); t.append(midiio.NoteOffEvent(tick=96, channel=9, data=[36, 80]))
t.append(midiio.EndOfTrackEvent(tick=0))
w.append(t)
midiio.write_midifile(os.path.join(d, 'x.mid'), w)
q = gsio.fromMidiFile(os.path.join(d, 'x.mid'), {'bass': [(36, 0)], 'kick': [(36, 9)]})
same([e.tag for e in q.events], ['bass', 'kick'])
''', 'one pitch on two channels, and a mapping that tells the channels apart', 'the second channel gets the tag of the first')

bug('s19', 'C08', 'gsapi/gsio.py',
    [("    noteToTag = copy.copy(_noteToTag)\n", "    noteToTag = _noteToTag\n")], PRE + '''
m = {'kick': 36, 'snare': [38, (40, 9)]}
w = copy.deepcopy(m)
p = Pattern(4, [Event(0, 1, 36, 80, 'C2')], name='x')
gsio.fromMidiFile(gsio.toMidiFile(p, folderPath=d), m)
same(m, w)
''', 'a mapping that is used after an import', 'the import changes the mapping of the caller')

bug('s20', 'C09', 'gsapi/gsdataset.py',
    [("""        self.patterns = []
        for p in self.files:
            gsdatasetLog.info('Parsing ' + p)
            p = gsio""", """        self.patterns = []
        for p in self.files:
            gsdatasetLog.info('Parsing ' + p)
            if not os.path.getsize(p):
                continue
            p = gsio""")], PRE + '''
p = Pattern(4, [Event(0, 1, 36, 80, 'C2')], name='x')
gsio.toMidiFile(p, folderPath=d)
open(os.path.join(d, 'y.mid'), 'w').close()
try:
    s = gsdataset.Dataset(midiFolder=d, midiMap='pitchName')
except Exception:
    sys.exit(0)
sys.exit(1)
''', 'a folder with an empty file', 'the dataset has fewer patterns than files and does not say so')

bug('s21', 'C09', 'gsapi/gsio.py',
    [("""            res += p.splitInEqualLengthPatterns(desiredLength, makeCopy=False)
        else:""", """            res += p.splitInEqualLengthPatterns(min(desiredLength, p.duration), makeCopy=False)
        else:""")], PRE + '''
p = Pattern(2, [Event(0, 1, 36, 80, 'C2')], name='x')
gsio.toMidiFile(p, folderPath=d)
r = gsio.fromMidiCollection(os.path.join(d, '*.mid'), desiredLength=4)
same([q.duration for q in r], [4])
''', 'a file that is shorter than the desired length', 'its pattern does not have the desired length')

bug('s22', 'C09', 'gsapi/gsdataset.py',
    [("""        if fileName:
            self.setMidiGlob(fileName)
        self.patterns = []
        for p in self.files:""", """        if fileName and fileName != self.midiGlob:
            self.setMidiGlob(fileName)
        self.patterns = []
        for p in self.files:""")], PRE + '''
p = Pattern(2, [Event(0, 1, 36, 80, 'C2')], name='x')
gsio.toMidiFile(p, folderPath=d)
s = gsdataset.Dataset(midiFolder=d, midiMap='pitchName')
gsio.toMidiFile(p, folderPath=d, name='y')
same(len(s.importMidi('*.mid')), 2)
''', 'importing with the same file pattern again after files were added', 'the new files are not seen')

bug('s23', 'C10', 'gsapi/midiio.py',
    [("        writer = FileWriter()\n        return writer.write(midifile, pattern)\n\n    def read_midifile(midifile):\n        if type(midifile) is str:",
      "        return WRITER.write(midifile, pattern)\n\n    def read_midifile(midifile):\n        if type(midifile) is str:"),
     ("# CONTAINERS\n", "WRITER = FileWriter()\n\n\n# CONTAINERS\n")], PRE + '''
import struct
real = midiio.FileWriter.encode_midi_event
there, go = threading.Event(), threading.Event()
p = Pattern(4, [Event(i * .5, .5, 60, 80, 'C4') for i in range(8)], name='x')
gsio.toMidiFile(p, folderPath=d, name='alone')
n = [0]
def enc(self, e):
    r = real(self, e)
    if threading.current_thread() is threading.main_thread():
        if isinstance(e, midiio.NoteOnEvent) and not n[0]:
            n[0] = threading.Thread(target=lambda: gsio.toMidiFile(p, folderPath=d, name='other'))
            n[0].start()
            there.wait(20)
    elif isinstance(e, midiio.NoteOffEvent):
        there.set()
        go.wait(20)
    return r
midiio.FileWriter.encode_midi_event = enc
gsio.toMidiFile(p, folderPath=d, name='x')
go.set()
n[0].join()
same(open(os.path.join(d, 'x.mid'), 'rb').read(), open(os.path.join(d, 'alone.mid'), 'rb').read())
''', 'two threads that export at the same time', 'the running status of one file shows up in the other')

bug('s24', 'C10', 'gsapi/gsio.py',
    [("def toPickleFile(myPattern, folderPath, nameSuffix=None):", """def _inFolder(folderPath, work):
    here = os.getcwd()
    os.chdir(folderPath)
    try:
        return work()
    finally:
        os.chdir(here)


def toPickleFile(myPattern, folderPath, nameSuffix=None):"""),
     ("""    with open(filePath, 'wb') as f:
        pickle.dump(myPattern, f)
    return os.path.abspath(filePath)
""", """    def write():
        with open(os.path.basename(filePath), 'wb') as f:
            pickle.dump(myPattern, f)
    _inFolder(folderPath, write)
    return os.path.abspath(filePath)
""")], PRE + '''
import pickle as pk
real = gsio.pickle.dump
seen = []
def dump(o, f, *a):
    t = threading.Thread(target=lambda: seen.append(os.path.abspath('other')))
    t.start(); t.join()
    return real(o, f, *a)
class P(object):
    dump = staticmethod(dump)
gsio.pickle = P
here = os.path.abspath('other')
gsio.toPickleFile(Pattern(4, [Event(0, 1, 60, 80, 'C4')], name='x'), d)
same(seen, [here])
''', 'another thread that uses a relative path while a pattern is pickled', 'the working directory of the process changes during the save')

bug('s25', 'C10', 'gsapi/gsdescriptors.py',
    [("""        pitchDensities = {}

        for pitch in allPitches:""", """        pitchDensities = Chord.pitchDensities
        pitchDensities.clear()

        for pitch in allPitches:"""),
     ("    allProfiles = {key: intervalListToProfile(value) for key, value in gsdefs.chordTypes.items()}\n",
      "    allProfiles = {key: intervalListToProfile(value) for key, value in gsdefs.chordTypes.items()}\n    pitchDensities = {}\n")], PRE + '''
a = Pattern(4, [Event(0, 4, p, 80, 'x') for p in (60, 64, 67)])
b = Pattern(4, [Event(0, 4, p, 80, 'x') for p in (61, 64, 68)])
want = gsdescriptors.Chord().getDescriptorForPattern(a)
real = gsdescriptors.Density.getDescriptorForPattern
n = [0]
def dens(self, p):
    if threading.current_thread() is threading.main_thread():
        n[0] += 1
        if n[0] == 2:
            t = threading.Thread(target=lambda: gsdescriptors.Chord().getDescriptorForPattern(b))
            t.start(); t.join()
    return real(self, p)
gsdescriptors.Density.getDescriptorForPattern = dens
same(gsdescriptors.Chord().getDescriptorForPattern(a), want)
''', 'two threads that compute chords at the same time', 'the notes of one pattern count for the other')

bug('s26', 'C11', 'gsapi/gspattern.py',
    [("""        res = []
        for e in self.events:
            if 0 <= time - e.startTime < e.duration:
                res += [e]
        return res
""", """        self._active = []
        for e in self.events:
            if 0 <= time - e.startTime < e.duration:
                self._active += [e]
        return self._active
""")], PRE + '''
p = Pattern(4, [Event(0, 4, 60, 80, 'x'), Event(1, 1, 62, 80, 'y')])
before = dict(p.__dict__)
p.activeEventsAtTime(1)
same(sorted(p.__dict__), sorted(before))
''', 'two threads that ask the same pattern at the same time', 'one gets the events of the other')

bug('s27', 'C11', 'gsapi/gspattern.py',
    [("""            return max([e.endTime() for e in self.events])""".replace('return', 'return'), """            return max([e.endTime() for e in self.events])""")], '', '', '')
del BUGS['s27']

bug('s27', 'C11', 'gsapi/gspattern.py',
    [("""        tagsList = []
        for e in self.events:
            tagsList += [e.tag]
        tagsList = set(tagsList)
        return tagsList
""", """        # the events are read one by one and put back
        tagsList = set()
        for i in range(len(self.events)):
            e = self.events.pop(0)
            tagsList.add(e.tag)
            self.events.append(e)
        return tagsList
""")], PRE + '''
p = Pattern(4, [Event(0, 4, 60, 80, 'x'), Event(1, 1, 62, 80, 'y')])
seen = []
class T(object):
    def __hash__(self):
        seen.append(len(p.events)); return 1
p.events[0].tag = T()
p.getAllTags()
same(set(seen), {2})
''', 'another thread that looks at the pattern while its tags are collected', 'it sees fewer events, or in another order')

bug('s28', 'C12', 'gsapi/gsio.py',
    [("    lastTick = int(round(myPattern.duration * beatToTick))\n", "    lastTick = int(round(myPattern.duration * beatToTick))\n    myPattern.reorderEvents()\n")], '', '', '')
del BUGS['s28']

bug('s28', 'C12', 'gsapi/gsdescriptors.py',
    [("""        for pitch in allPitches:
            voice = pattern.getPatternWithPitch(pitch)
""", """        for pitch in allPitches:
            voice = pattern.getPatternWithPitch(pitch, makeCopy=False)
            # several notes of a pitch at a time count once
            voice.removeOverlapped(usePitchValues=True)
""")], PRE + '''
p = Pattern(4, [Event(0, 4, 60, 80, 'x'), Event(1, 1, 60, 80, 'y')])
q = p.copy()
gsdescriptors.Chord().getDescriptorForPattern(p)
same([e.duration for e in p.events], [e.duration for e in q.events])
''', 'a pattern in which notes of one pitch overlap', 'computing its chord shortens the notes')

bug('s29', 'C12', 'gsapi/gsstyles.py',
    [("        stringTable = copy.deepcopy(self.transitionTable)\n", "        stringTable = [dict(t) for t in self.transitionTable]\n")], PRE + '''
s = gsstyles.MarkovStyle(1, 4, 4)
s.generateStyle([Pattern(4, [Event(0, 1, 60, 80, 'x'), Event(0, 1, 62, 80, 'y'), Event(1, 1, 60, 80, 'z')])])
a = copy.deepcopy(s.markovChain.transitionTable)
repr(s.markovChain)
same(s.markovChain.transitionTable, a)
''', 'a style with steps of several tags that is printed', 'the states of the inner tables become text')

bug('s30', 'C12', 'gsapi/gspattern.py',
    [("""        pattern = self.copy()
        pattern.fillWithSilences(maxSilenceTime=maxSilenceTime, perTag=perTag,
                                 silenceTag=silenceTag)
        return pattern
""", """        # no need to copy what goes with the events
        viewpoints, self.viewpoints = self.viewpoints, {}
        pattern = self.copy()
        self.viewpoints = viewpoints
        pattern.fillWithSilences(maxSilenceTime=maxSilenceTime, perTag=perTag,
                                 silenceTag=silenceTag)
        return pattern
""")], PRE + '''
p = Pattern(4, [Event(1, 1, 60, 80, 'x')], name='p')
p.generateViewpoint('v', gsdescriptors.Density(), 4)
class Bad(object):
    def __deepcopy__(self, memo):
        raise KeyboardInterrupt
p.events[0].tag = Bad()
try:
    p.getFilledWithSilences()
except KeyboardInterrupt:
    pass
same(list(p.viewpoints), ['v'])
''', 'a call that is cancelled while the pattern is copied', 'the pattern loses its viewpoints')

bug('s31', 'C13', 'gsapi/gspattern.py',
    [("""            newEv = e if not makeCopy else e.copy()

            if newEv""", """            newEv = e if not makeCopy else copy.copy(e)

            if newEv""")], PRE + '''
p = Pattern(4, [Event(0, 1, 60, 80, 'x')], name='p')
v = p.generateViewpoint('v', gsdescriptors.Density(), 4)
s = p.splitInEqualLengthPatterns(4, viewpointName='v')
assert s[0].events[0].originPattern is not v.events[0].originPattern
''', 'slices of a viewpoint, whose events have an origin of their own', 'editing the origin of an event of a slice edits that of the viewpoint')

bug('s33', 'C13', 'gsapi/gspattern.py',
    [("        p.originFilePath = self.originFilePath\n        p.name = self.name\n        p.startTime",
      "        p.originFilePath = self.originFilePath\n        p.name, p.viewpoints = self.name, self.viewpoints\n        p.startTime")], PRE + '''
p = Pattern(4, [Event(0, 1, 60, 80, 'x')], name='p')
s = p.patternFromTimeSlice(0, 2)
s.generateViewpoint('v', gsdescriptors.Density(), 4)
same(list(p.viewpoints), [])
''', 'a viewpoint generated on a slice of a pattern', 'viewpoints of a slice appear in the pattern it was cut from')

bug('s34', 'C20', 'gsapi/gspattern.py',
    [("                lastOff = max(lastOff, e.startTime + e.duration)\n", "                lastOff = e.endTime()\n")], PRE + '''
p = Pattern(8, [Event(0, 6, 60, 80, 'x'), Event(1, 1, 62, 80, 'y')], name='p')
p.fillWithSilences()
same([(e.startTime, e.duration) for e in p.events if e.tag == 'silence'], [(6, 2)])
''', 'a long event with a shorter one inside, then a gap', 'silences are put where a long event still sounds')

bug('s35', 'C20', 'gsapi/gspattern.py',
    [("                if e.duration < (stepSize * 0.5):\n", "                if e.duration <= (stepSize * 0.5):\n"),
     ("                        e.duration = ((e.duration + (stepSize * 0.5)) * beat_grid) / beat_grid\n",
      "                        e.duration = math.floor(e.duration * beat_grid) / beat_grid\n")], PRE + '''
p = Pattern(8, [Event(0, 1.5, 60, 80, 'x')], name='p')
p.quantize(1)
same(p.events[0].duration, 2)
''', 'a duration exactly between two steps, longer than a step', 'durations stay off the grid')

bug('s36', 'C20', 'gsapi/gspattern.py',
    [("        self.duration = math.ceil(actual_duration / beats_per_bar) * beats_per_bar\n",
      "        self.duration = int(actual_duration // beats_per_bar + (actual_duration % beats_per_bar >= 0.5)) * beats_per_bar\n")], PRE + '''
p = Pattern(4.25, [Event(0, 4.25, 60, 80, 'x')], name='p')
p.durationToBar()
same(p.duration, 8)
''', 'a pattern that is a little longer than a bar', 'the duration is cut to the bar before')

bug('s37', 'C19', 'gsapi/gsdescriptors.py',
    [("            profileToConsider = {'min': profileToConsider['min'], 'maj': profileToConsider['maj']}\n",
      "            for chordType in list(profileToConsider):\n                if chordType not in ('min', 'maj'):\n                    profileToConsider.pop(chordType)\n")], PRE + '''
p = Pattern(4, [Event(0, 4, x, 80, 'x') for x in (60, 64, 67, 71)], name='p')
a = gsdescriptors.Chord().getDescriptorForPattern(p)
gsdescriptors.Chord(forceMajMin=True).getDescriptorForPattern(p)
same(gsdescriptors.Chord().getDescriptorForPattern(p), a)
''', 'a chord descriptor restricted to major and minor was used earlier in the process', 'all chord descriptors know major and minor only')

bug('s38', 'C19', 'gsapi/gspattern.py',
    [("                        pattern.duration = 0\n", "                        pattern.duration = consideredEvent.duration\n")], PRE + '''
p = Pattern(8, [Event(0, 2, 60, 80, 'x'), Event(1, 0.5, 64, 80, 'y')], name='p')
v = p.generateViewpoint('v', gsdescriptors.Density(), 'perEvent')
p.events[1].duration = 4
v = p.generateViewpoint('v', gsdescriptors.Density(), 'perEvent')
same([e.duration for e in v.events], [2, 4])
p = Pattern(8, [Event(0, 2, 60, 80, 'x'), Event(1, -0.5, 64, 80, 'y')], name='p')
v = p.generateViewpoint('v', gsdescriptors.Density(), 'perEvent')
same([e.duration for e in v.events], [2, 1])
''', '?', '?')
del BUGS['s38']

bug('s38', 'C19', 'gsapi/gsdescriptors.py',
    [("        for e in _checkedPattern.events:\n            density += e.duration\n        return density\n",
      "        for e in _checkedPattern.events:\n            # only what sounds within the pattern\n            density += min(e.duration, pattern.duration - e.startTime)\n        return density\n")], PRE + '''
p = Pattern(8, [Event(2, 2, 60, 80, 'x'), Event(3, 2, 64, 80, 'y')], name='p')
v = p.generateViewpoint('v', gsdescriptors.Density(), 'perEvent')
same([e.tag for e in v.events], [2, 4])
''', 'a viewpoint per event, whose parts keep their onsets in the whole pattern', 'the density of parts that start late is too small, even negative')

bug('s40', 'C14', 'gsapi/gsstyles.py',
    [("                    for pe in t[d]:\n                        t[d][pe] /= 1.0 * sum\n",
      "                    for pe in list(t[d]):\n                        t[d][pe] /= 1.0 * sum\n                        if t[d][pe] < 0.1:\n                            # noise\n                            del t[d][pe]\n")], PRE + '''
pats = [Pattern(2, [Event(0, 1, 60, 80, 'x'), Event(1, 1, 60, 80, 'z' if i == 7 else 'y')]) for i in range(12)]
s = gsstyles.MarkovStyle(1, 2, 2)
s.generateStyle(pats)
t = s.markovChain.transitionTable[1][(('x',),)]
same(sorted(t), [('y',), ('z',)])
''', 'more than ten patterns, one of which goes on in another way than the others', 'what was learned rarely is never generated')

bug('s41', 'C14', 'gsapi/gsstyles.py',
    [("        else:\n            self.originPatterns = patternClasses\n",
      "        elif self.transitionTable and self.originPatterns is patternClasses:\n            markovLog.info('learned already')\n        else:\n            self.originPatterns = patternClasses\n")], PRE + '''
pats = [Pattern(2, [Event(0, 1, 60, 80, 'x'), Event(1, 1, 60, 80, 'y')])]
s = gsstyles.MarkovStyle(1, 2, 2)
s.generateStyle(pats)
pats[0].events[1].tag = 'z'
s.generateStyle(pats)
same(sorted(s.markovChain.transitionTable[1][(('x',),)]), [('z',)])
''', 'learning again from the same list, whose patterns have changed (or after a learning that was cancelled)', 'the style keeps what it learned before')

bug('s42', 'C15', 'gsapi/gsstyles.py',
    [("                for t in self.transitionTable[step][n]:\n                    res += [t]\n            return res\n",
      "                for t in self.transitionTable[step][n]:\n                    res += [t]\n            return list(set(res))\n")], PRE + '''
import subprocess
if len(sys.argv) < 3:
    out = set()
    for h in range(8):
        out.add(subprocess.check_output([sys.executable, '-B', '-W', 'ignore', __file__, d, 'x'], env=dict(os.environ, PYTHONHASHSEED=str(h))))
    same(len(out), 1, str(out))
else:
    pats = [Pattern(4, [Event(i, 1, 60, 80, 'abcdefgh'[(i * k + k) % 8]) for i in range(4)]) for k in range(8)]
    s = gsstyles.MarkovStyle(1, 4, 4)
    s.generateStyle(pats)
    print([[(e.startTime, e.tag) for e in s.generatePattern(seed=k).events] for k in range(5)])
''', 'processes with different hash seeds', 'a seed gives another pattern in another process')

bug('s43', 'C15', 'gsapi/gsstyles.py',
    [("    def generatePattern(self, seed=None):\n        \"\"\"Generate a new pattern from current transitionTable.\n",
      "    _previous = (None, None)\n\n    def generatePattern(self, seed=None):\n        if seed is None:\n            return self._generate()\n        # asked again (as interfaces do): the same\n        if self._previous[0] != seed:\n            self._previous = (seed, self._generate(seed))\n        return copy.copy(self._previous[1])\n\n    def _generate(self, seed=None):\n        \"\"\"Generate a new pattern from current transitionTable.\n")], PRE + '''
pats = [Pattern(4, [Event(i, 1, 60, 80, 'abcdefgh'[(i * k + k) % 8]) for i in range(4)]) for k in range(8)]
s = gsstyles.MarkovStyle(1, 4, 4)
s.generateStyle(pats)
a = s.generatePattern(seed=5)
b = [(e.startTime, e.tag) for e in a.events]
a.events[0].tag = 'changed'
same([(e.startTime, e.tag) for e in s.generatePattern(seed=5).events], b)
''', 'generating with one seed twice in a row, with an edit of the first result (or learning) in between', 'the second pattern has the edits of the first')

bug('s44', 'C16', 'gsapi/gsstyles.py',
    [("        for e in self.patternList:\n            res[\"patternList\"] += [e.toJSONDict()]\n", "        for e in filter(None, self.patternList):\n            res[\"patternList\"] += [e.toJSONDict()]\n")], PRE + '''
s = gsstyles.DatabaseStyle('random')
s.generateStyle([Pattern(2, [Event(0, 1, 60, 80, 'x')], name='a'), Pattern(2, [], name='b'), Pattern(4, [Event(0, 1, 60, 80, 'x')], name='c')])
s.saveToJSON(os.path.join(d, 'x'))
t = gsstyles.DatabaseStyle('random')
t.loadFromJSON(os.path.join(d, 'x'))
same([t.generatePattern(k).name for k in range(20)], [s.generatePattern(k).name for k in range(20)])
''', 'a database with a pattern without events', 'the loaded style lacks that pattern, and seeds give other patterns')

bug('s45', 'C16', 'gsapi/gsstyles.py',
    [("               \"loopDuration\":    self.loopDuration}\n", "               \"loopDuration\":    int(self.loopDuration)}\n")], PRE + '''
s = gsstyles.MarkovStyle(1, 3, 1.5)
s.generateStyle([Pattern(1.5, [Event(0, .5, 60, 80, 'a'), Event(.5, .5, 60, 80, 'a')])])
s.saveToJSON(os.path.join(d, 'x'))
t = gsstyles.MarkovStyle()
t.loadFromJSON(os.path.join(d, 'x'))
same(t.generatePattern(3).duration, 1.5)
''', 'a loop whose length is not a whole number of beats', 'a loaded style generates shorter loops')

bug('s46', 'C21', 'gsapi/midiio.py',
    [("    def parse_track(self, midifile, track):\n        self.RunningStatus = None\n", "    def parse_track(self, midifile, track):\n"),
     ("        pattern = self.parse_file_header(midifile)\n        for track", "        self.RunningStatus = None\n        pattern = self.parse_file_header(midifile)\n        for track")], PRE + '''
import struct
def track(b):
    return b'MTrk' + struct.pack('>L', len(b)) + b
end = b'\\x00\\xff\\x2f\\x00'
f = os.path.join(d, 'x.mid')
with open(f, 'wb') as h:
    h.write(b'MThd' + struct.pack('>LHHH', 6, 1, 2, 480) + track(b'\\x00\\x90\\x3c\\x50\\x60\\x80\\x3c\\x00' + end) + track(b'\\x00\\x3e\\x50' + end))
try:
    gsio.fromMidiFile(f)
except Exception:
    sys.exit(0)
sys.exit('believed')
''', 'a damaged track after a good one: its first status byte is lost', 'data bytes at the start of a track are read as notes of the channel of the track before')

bug('s47', 'C21', 'gsapi/gsio.py',
    [("                    keyName = gsdefs.midiKey[e.alternatives]\n", "                    keyName = gsdefs.midiKey.get(e.alternatives, 'C')\n")], PRE + '''
p = Pattern(4, [Event(0, 1, 60, 80, 'C4')], name='p')
p.key = 'G'
f = gsio.toMidiFile(p, folderPath=d)
s = open(f, 'rb').read()
i = s.index(b'\\xff\\x59\\x02')
with open(f, 'wb') as h:
    h.write(s[:i + 3] + b'\\x40' + s[i + 4:])
try:
    gsio.fromMidiFile(f)
except Exception:
    sys.exit(0)
sys.exit('believed')
''', 'a file whose key signature is damaged', 'an impossible key signature is taken for C')

bug('s48', 'C17', 'gsapi/gstransformers.py',
    [("        res = self.currentPattern.copy()\n        res.timeStretch(self.originDuration * 1.0 / self.numSteps)\n",
      "        ratio = self.originDuration * 1.0 / self.numSteps\n        if ratio == 1:\n            return self.currentPattern\n        res = self.currentPattern.copy()\n        res.timeStretch(ratio)\n")], PRE + '''
from gsapi.gstransformers import AgnosticDensity
t = AgnosticDensity(numSteps=4)
r = t.transformPattern(Pattern(4, [Event(0, 1, 60, 80, 'x')]), {})
t.transformPattern(None, {'normalizedDensities': {'x': 2}})
same(len(r), 1)
''', 'a pattern of as many beats as the grid has steps, and a later call', 'a result that was given out changes with the next density')

bug('s49', 'C17', 'gsapi/gstransformers.py',
    [("            dist = self.__initStateFromVoice(self.originPattern.getPatternWithTags(tag))\n",
      "            dist = self.__initStateFromVoice(self.originPattern.getPatternWithTags(tag, exactSearch=False))\n")], PRE + '''
from gsapi.gstransformers import AgnosticDensity
t = AgnosticDensity(numSteps=8)
p = Pattern(8, [Event(0, 1, 60, 80, 'a'), Event(1, 1, 60, 80, ('t', 'a')), Event(4, 1, 60, 80, 'a')])
r = t.transformPattern(p, {'normalizedDensities': {'a': 2}})
same(len(r.getPatternWithTags('a')), 8)
''', 'a tag that is also part of another event\'s tag', 'steps of the other voice are taken for notes of this one')

bug('s50', 'C17', 'gsapi/gstransformers.py',
    [("        del self.currentState[tag]['silences'][orIdx]\n", "        del self.currentState[tag]['silences'][idx]\n")], PRE + '''
from gsapi.gstransformers import AgnosticDensity
t = AgnosticDensity(numSteps=8)
p = Pattern(8, [Event(i, 1, 60, 80, 'a') for i in range(0, 8, 2)])
t.transformPattern(p, {'normalizedDensities': {'a': 0}})
t.transformPattern(None, {'normalizedDensities': {'a': 1}})
r = t.transformPattern(None, {'normalizedDensities': {'a': 2}})
same(sorted(e.startTime for e in r.events), list(range(8)))
''', 'a density lowered below 1, raised to it again and then above', 'steps that have a note already get a second one')

bug('s51', 'C22', 'gsapi/gsdescriptors.py',
    [("""            profileToConsider = {'min': profileToConsider['min'], 'maj': profileToConsider['maj']}
""", """            for name in list(profileToConsider):
                if name not in ('min', 'maj'):
                    del profileToConsider[name]
""")], PRE + '''
p = Pattern(4, [Event(0, 4, x, 80, 'a') for x in (60, 64, 67, 71)])
a = gsdescriptors.Chord().getDescriptorForPattern(p)
gsdescriptors.Chord(forceMajMin=True).getDescriptorForPattern(p)
same(gsdescriptors.Chord().getDescriptorForPattern(p), a)
''', 'a chord descriptor limited to major and minor used before another one in the process', 'all chord descriptors of the process find only major and minor from then on')

bug('s52', 'C22', 'gsapi/gsdescriptors.py',
    [("""class NumberOfTags(BaseDescriptor):
    \"\"\"
    Calculates the number of tags in a given Pattern.

    \"\"\"

    def __init__(self, ignoredTags=None, includedTags=None):
        BaseDescriptor.__init__(self)
        self.ignoredTags = ignoredTags or ["silence"]
        self.includedTags = includedTags
""", """class NumberOfTags(BaseDescriptor):
    \"\"\"
    Calculates the number of tags in a given Pattern.

    \"\"\"

    def __init__(self, ignoredTags=["silence"], includedTags=None):
        BaseDescriptor.__init__(self)
        self.ignoredTags = ignoredTags
        self.includedTags = includedTags
        # what is asked for is not ignored
        for t in includedTags or []:
            if t in self.ignoredTags:
                self.ignoredTags.remove(t)
""")], PRE + '''
p = Pattern(4, [Event(0, 1, 60, 80, 'a'), Event(1, 1, 60, 80, 'silence')])
gsdescriptors.NumberOfTags(includedTags=['silence']).getDescriptorForPattern(p)
same(gsdescriptors.NumberOfTags().getDescriptorForPattern(p), 1)
''', 'a descriptor that includes silences used before another one in the process', 'silences count as tags from then on')

BASS = PRE + '''
from gsapi import bassmine
import numpy
os.chdir(d)
os.mkdir('output')
def line(p):
    r = [0] * int(p.duration)
    for e in p.events:
        r[int(e.startTime)] |= 8 >> int(e.startTime * 4) % 4
    return r
def pattern(ids):
    p = Pattern(len(ids))
    p.events = [Event(b + c * 0.25, 0.25, 36, 100, 'Kick') for b, x in enumerate(ids) for c in range(4) if x & 8 >> c]
    return p
def model(bass, kick):
    m = bassmine.MarkovModel(16)
    m.add_temporal(bass)
    m.add_interlocking(kick, bass)
    m.normalize_model()
    return m
'''

bug('s53', 'C18', 'gsapi/bassmine.py',
    [("        if t in Dom_I:\n", "        if t and t in Dom_I:\n")], BASS + '''
m = model([2, 5, 2, 5], [8, 0, 8, 0])
for _ in range(20):
    same(line(bassmine.generateBassRhythm(m, 4, pattern([8, 0, 8, 0]))), [2, 5, 2, 5])
''', 'a kick pattern with a beat in which the kick is silent, over which the corpus plays something of its own', 'silent kick beats are taken for the metronome\'s, and bass lines over them are none of the corpus (or none is found)')

bug('s54', 'C18', 'gsapi/bassmine.py',
    [("        self.initial_model = self.support_initial / sum(self.support_initial)\n",
      "        self.support_initial /= sum(self.support_initial)\n        self.initial_model = self.support_initial\n")], BASS + '''
m = model([2, 5], [8, 8])
m.add_temporal([2, 5])
m.add_temporal([2, 7])
m.normalize_model()
m.add_temporal([7, 5])
same([float(m.get_initial()[x]) for x in (2, 7)], [1.0, 0.0])
m.normalize_model()
same([float(m.get_initial()[x]) for x in (2, 7)], [0.75, 0.25])
''', 'a model that learns more after it was normalised', 'beginnings learned before weigh less than those learned after, and the table in use changes while more is learned')

bug('s55', 'C18', 'gsapi/bassmine.py',
    [("            if len(Dom_B[int(t)].intersection(target_setlist[step + 1])):\n                V[step][int(t)] = Dom_B[int(t)].intersection(target_setlist[step + 1])\n",
      "            if len(Dom_B[int(t)].intersection(target_setlist[step + 1])):\n                # (what does not fit is removed below)\n                V[step][int(t)] = Dom_B[int(t)]\n")], BASS + '''
m = model([2, 5, 2, 7, 2, 5], [8, 8, 8, 4, 8, 8])
for _ in range(40):
    same(line(bassmine.generateBassRhythm(m, 4, pattern([8, 4, 8, 4]))), [2, 7, 2, 7])
''', 'a kick pattern whose last beat leaves less than the corpus does', 'the last beat of the bass line does not lie over its kick beat as in the corpus')

bug('s56', 'C18', 'gsapi/bassmine.py',
    [("        if target[i] >= 0:  # Current beat don't vary\n", "        if target[i] > 0:  # Current beat don't vary\n")], BASS + '''
m = model([2, 0, 2, 7, 2, 0, 2, 7], [8] * 8)
for _ in range(40):
    r = line(bassmine.generateBassRhythmVariation(m, pattern([2, 0, 2, 7]), [1, 1, 1, -1]))
    same(r[:3], [2, 0, 2])
    r = line(bassmine.generateBassRhythmVariation(m, pattern([2, 0, 2, 0, 2]), [1, -1, 1, 1, 1]))
    same(r[2:], [2, 0, 2])
''', 'a silent beat that is to be kept', 'silent beats vary though they are to be kept')

bug('s57', 'C18', 'gsapi/bassmine.py',
    [("            out_Model[i][key]['pattern'] = [int(x) for x in val]\n            out_Model[i][key]['probs'] = list(tmp / sum(tmp))\n    # print( out_Model)\n    with open(path + 'NHModel.json', 'w') as outfile:\n".replace("open(path + 'NHModel.json', 'w')", "open(os.path.join(path, 'NHModel.json'), 'w')"),
      "            out_Model[i][key]['pattern'] = sorted(int(x) for x in val)\n            out_Model[i][key]['probs'] = list(tmp / sum(tmp))\n    # print( out_Model)\n    with open(os.path.join(path, 'NHModel.json'), 'w') as outfile:\n")], BASS + '''
m = bassmine.MarkovModel(16)
ids = [y for x in range(2, 16) for y in [1, x] * x]
m.add_temporal(ids)
m.add_interlocking([8] * len(ids), ids)
m.normalize_model()
x = bassmine.constrainMM(m, pattern([8, 8, 8]))[1][0][1]
same([(a, round(b * 119)) for a, b in sorted(zip(x['pattern'], x['probs']))], [(a, a) for a in range(2, 16)])
''', 'a constrained model with several continuations of different frequency (in an order of their names that is not theirs)', 'the frequencies of the continuations are mixed up in constrained bass lines')

# ---- third round ----
bug('s58', 'C23', 'gsapi/midiio.py',
    [("    def make_ticks_abs(self):\n        self.tick_relative = False\n        for track in self:\n            track.make_ticks_abs()\n\n    def make_ticks_rel(self):\n        self.tick_relative = True\n        for track in self:\n            track.make_ticks_rel()\n",
      "    def make_ticks_abs(self):\n        if self.tick_relative:\n            self.tick_relative = False\n            for track in self:\n                track.make_ticks_abs()\n\n    def make_ticks_rel(self):\n        if not self.tick_relative:\n            self.tick_relative = True\n            for track in self:\n                track.make_ticks_rel()\n")], PRE + '''
def N(t):
    return midiio.NoteOnEvent(tick=t, pitch=60, velocity=9)
p = midiio.Pattern(tracks=[midiio.Track([N(5), N(5), N(5)]), midiio.Track([N(1), N(2)])])
p[1].make_ticks_abs()
p.make_ticks_rel()
same([e.tick for e in p[1]], [1, 2])
p.make_ticks_abs()
p[0] = midiio.Track([N(4), N(4)])
p.make_ticks_abs()
same([e.tick for e in p[0]], [4, 8])
''', 'one track of a file whose times are absolute (or relative) while those of the others are not', 'its times are written as they are')

bug('s60', 'C02', 'gsapi/midiio.py',
    [("        self.data[1] = int(math.log(val, 2))\n", "        self.data[1] = [1, 2, 4, 8, 16].index(val) if val <= 16 else 4\n")], PRE + '''
p = Pattern(4, [Event(0, 1, 60, 80, 'C')], timeSignature=(7, 32), name='x')
q = gsio.fromMidiFile(gsio.toMidiFile(p, folderPath=d))
same(tuple(q.timeSignature), (7, 32))
''', 'a time signature in 32nds or 64ths', 'it is saved in 16ths')

bug('s62', 'C02', 'gsapi/gsio.py',
    [("    track.sort(key=lambda e: e.tick)\n", "    # (released before the next one of that pitch starts)\n    track.sort(key=lambda e: (e.tick, isinstance(e, midiio.NoteOnEvent)))\n")], PRE + '''
p = Pattern(4, [Event(0, 1, 60, 80, 'C'), Event(1, 0.0001, 62, 80, 'D'), Event(2, 1, 64, 80, 'E')], name='x')
p.resolution = 96
m = midiio.read_midifile(gsio.toMidiFile(p, folderPath=d))
on = {}
for e in m[0]:
    if isinstance(e, midiio.NoteOnEvent): on[e.pitch] = 1
    if isinstance(e, midiio.NoteOffEvent): same(on.pop(e.pitch, 0), 1, e)
same(on, {})
''', 'a note shorter than half a tick', 'it is released before it starts, and sounds forever')

bug('s63', 'C08', 'gsapi/gsio.py',
    [("                trackDuration = max(trackDuration, thisDuration) if trackDuration else thisDuration\n",
      "                trackDuration = thisDuration or trackDuration\n")], PRE + '''
def T(n):
    return midiio.Track([midiio.NoteOnEvent(tick=0, pitch=60, velocity=9), midiio.NoteOffEvent(tick=n, pitch=60), midiio.EndOfTrackEvent(tick=0)])
f = os.path.join(d, 'a.mid')
midiio.write_midifile(f, midiio.Pattern(resolution=96, tracks=[T(960), T(96)]))
same(gsio.fromMidiFile(f).duration, 10)
''', 'a file with a track that ends before an earlier one', 'the pattern is as long as its last track')

bug('s64', 'C09', 'gsapi/gsdataset.py',
    [("        self.patterns = []\n        for p in self.files:\n", "        self.patterns = self.patterns or []\n        del self.patterns[:]\n        for p in self.files:\n")], PRE + '''
for n, k in (('a', 1), ('b', 2)):
    gsio.toMidiFile(Pattern(4, [Event(i, 1, 36, 80, 'Kick') for i in range(k)], name=n), folderPath=d)
ds = gsdataset.Dataset(midiFolder=d, midiGlob='a')
old = ds.patterns
same([len(p) for p in old], [1])
new = ds.importMidi('b')
same([len(p) for p in new], [2])
same([len(p) for p in old], [1])
''', 'patterns that were imported before are still in use when the dataset imports others', 'they are replaced by the new ones')

bug('s66', 'C20', 'gsapi/gspattern.py',
    [("                        while e.startTime - lastOff > maxSilenceTime:\n", "                        while e.startTime - lastOff >= maxSilenceTime:\n")], PRE + '''
p = Pattern(4, [Event(2, 1, 60, 80, 'C')], name='x')
p.fillWithSilences(maxSilenceTime=1)
same([(e.startTime, e.duration) for e in p], [(0, 1), (1, 1), (2, 1), (3, 1)])
''', 'a gap that is a multiple of the longest silence', 'a silence of no length is added')

bug('s67', 'C20', 'gsapi/gspattern.py',
    [("            if newEv.startTime + newEv.duration > (p + 1) * desiredLength:\n", "            if int((newEv.startTime + newEv.duration) // desiredLength) > p:\n")], PRE + '''
p = Pattern(4, [Event(0, 2, 60, 80, 'C'), Event(2.5, 1, 60, 80, 'C')], name='x')
same([[(e.startTime, e.duration) for e in q] for q in p.splitInEqualLengthPatterns(2)], [[(0, 2)], [(0.5, 1)]])
''', 'an event that ends where a slice does', 'the next slice gets an event of no length')

bug('s68', 'C20', 'gsapi/gspattern.py',
    [("        tagsList = []\n        for e in self.events:\n            tagsList += [e.tag]\n        tagsList = set(tagsList)\n        return tagsList\n",
      "        if len(getattr(self, '_tagged', ())) != len(self.events):\n            self._tagged = [e.tag for e in self.events]\n        return set(self._tagged)\n")], PRE + '''
p = Pattern(4, [Event(0, 2, 60, 80, 'C'), Event(2.5, 1, 60, 80, 'C')], name='x')
same(p.getAllTags(), {'C'})
p.events[1].tag = 'D'
same(p.getAllTags(), {'C', 'D'})
''', 'a pattern whose tags changed since they were last asked for', 'its old tags are given')

bug('s69', 'C13', 'gsapi/gspattern.py',
    [("        pattern = self.copy()\n        pattern.fillWithSilences(", "        pattern = copy.copy(self)\n        pattern.fillWithSilences(")], PRE + '''
p = Pattern(4, [Event(0, 2, 60, 80, 'C'), Event(2.5, 1, 60, 80, 'C')], name='x')
q = p.getFilledWithSilences()
same((len(p), len(q)), (2, 4))
q.transpose(1)
same([e.pitch for e in p], [60, 60])
''', 'editing the events of the filled pattern', 'the original has the edits')

bug('s73', 'C04', 'gsapi/gsio.py',
    [("    with open(filePath, 'wb') as f:\n        pickle.dump(myPattern, f)\n    return os.path.abspath(filePath)\n",
      "    fd = os.open(filePath, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o666)\n    try:\n        os.write(fd, pickle.dumps(myPattern))\n    finally:\n        os.close(fd)\n    return os.path.abspath(filePath)\n")], PRE + '''
import resource, signal
p = Pattern(4, [Event(i / 8., 1, i % 128, 80, 'tag%d' % i) for i in range(2000)], name='x')
same(len(gsio.fromPickleFile(gsio.toPickleFile(p, d))), 2000)
signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
resource.setrlimit(resource.RLIMIT_FSIZE, (4096, resource.RLIM_INFINITY))
try:
    gsio.toPickleFile(p, d)
except Exception:
    sys.exit(0)
same('returned', 'an error')
''', 'a write that writes less than it was given', 'the rest of the file is missing and the save returns')

bug('s74', 'C13', 'gsapi/gspattern.py',
    [('        """\n        Deepcopy a pattern\n\n        """\n        return copy.deepcopy(self)\n',
      '        """\n        Deepcopy a pattern\n\n        """\n        p = copy.copy(self)\n        p.timeSignature = copy.copy(self.timeSignature)\n        p.events = [e.copy() for e in self.events]\n        p.viewpoints = {k: v.copy() for k, v in self.viewpoints.items()}\n        return p\n')], PRE + '''
p = Pattern(4, [Event(i, 1, 60 + i, 80, 'C') for i in range(4)], name='x')
p.generateViewpoint('chords')
q = p.copy()
q.viewpoints['chords'].originPattern.transpose(1)
same([e.pitch for e in p], [60, 61, 62, 63])
''', 'a copy of a pattern with viewpoints, edited through what the viewpoint was made of', 'the original has the edits')

bug('s75', 'C14', 'gsapi/gsstyles.py',
    [("                        t[d][pe] /= 1.0 * sum\n", "                        t[d][pe] = round(t[d][pe] / (1.0 * sum), 3)\n")], PRE + '''
st = gsstyles.MarkovStyle(order=1, numSteps=4, loopDuration=4)
def P(*tags):
    return Pattern(4, [Event(i, 1, 36, 100, t) for i, t in enumerate(tags)], name='x')
st.generateStyle([P('a', 'b', 'c', 'd')] * 6000 + [P('a', 'b', 'c', 'e')] * 2 if 0 else [P('a', 'b', 'c', 'd'), P('a', 'b', 'c', 'e'), P('a', 'b', 'c', 'f')])
x = list(st.markovChain.transitionTable[3].values())[0]
same(abs(sum(x.values()) - 1) < 1e-9, True)
''', 'three ways to go on', 'their probabilities do not sum to one')

bug('s76', 'C14', 'gsapi/gsstyles.py',
    [("            for step in range(self.numSteps):\n                l = [p.getStartingEventsAtTime(step)]\n", "            for step in range(min(self.numSteps, int(p.lastNoteOff() or 0))):\n                l = [p.getStartingEventsAtTime(step)]\n")], PRE + '''
st = gsstyles.MarkovStyle(order=1, numSteps=8, loopDuration=8)
p = Pattern(4, [Event(i, 1, 36, 100, 'a') for i in range(4)], name='x')
p.duration = 4
st.generateStyle([p])
same([len(x) for x in st.markovChain.transitionTable], [1] * 8)
''', 'a pattern shorter than the loop', 'the steps after its end are unknown to the style')

bug('s77', 'C17', 'gsapi/gstransformers.py',
    [("            self.originDensities[t] = density * self.numSteps * 1.0 / self.originPattern.duration\n            self.targetDensities[t] = density * self.numSteps * 1.0 / self.originPattern.duration\n            self.normalizedDensities[t] = 1\n",
      "            self.originDensities[t] = density * self.numSteps * 1.0 / self.originPattern.duration\n            self.targetDensities[t] = density * self.numSteps * 1.0 / self.originPattern.duration\n            if self.originDensities[t]:\n                self.normalizedDensities[t] = 1\n")], PRE + '''
from gsapi import gstransformers
p = Pattern(4, [Event(0, 1, 60, 80, 'silence'), Event(1, 1, 60, 80, 'C')], name='x')
a = gstransformers.AgnosticDensity(numSteps=4)
r = a.transformPattern(p, {'normalizedDensities': {'silence': 0}})
same(sorted(e.tag for e in r), ['C'])
''', 'the density of a tag that counts for nothing (a silence)', 'it cannot be changed')

bug('s79', 'C19', 'gsapi/gsdescriptors.py',
    [("            if pitchProfile[idx] > 0 >= chromas[chroma]:\n", "            if pitchProfile[idx] > 0 == chromas[chroma]:\n"),
     ("            chromas[chroma] += value\n", "            chromas[chroma] = max(chromas[chroma], value)\n")], PRE + '''
c = gsdescriptors.Chord()
p = Pattern(4, [Event(0, 4, 48, 80, 'x'), Event(0, 4, 60, 80, 'x'), Event(0, 1, 52, 80, 'x'), Event(0, 3, 55, 80, 'x'), Event(0, 2, 57, 80, 'x'), Event(0, 2, 69, 80, 'x'), Event(0, 4, 76, 80, 'x')], name='x')
want = {'silence'}
import itertools
def ref(p):
    ch = [0] * 12
    for e in p: ch[e.pitch % 12] += e.duration
    return gsdescriptors.findBestScoreForProfiles(ch, gsdescriptors.Chord.allProfiles, penalityWeight=p.duration / 2.0)
rnd = random.Random(5)
from gsapi import gsdefs
for k in range(200):
    p = Pattern(4, [Event(0, rnd.choice([.25, .5, 1, 2]), rnd.choice(range(40, 80)), 80, 'x') for i in range(8)], name='x')
    r = ref(p)
    same(tuple(c.getDescriptorForPattern(p)), (gsdefs.defaultPitchNames[r[0]], r[1]))
''', 'one note in several octaves', 'only the longest of them counts for the chord')

bug('s59', 'C23', 'gsapi/midiio.py',
    [("            ret += bytearray([event.statusmsg, event.metacommand])\n            ret += write_varlen(len(event.data))\n",
      "            ret += bytearray([event.statusmsg, event.metacommand])\n            ret.append(len(event.data))\n")], PRE + '''
p = midiio.Pattern(tracks=[midiio.Track([midiio.LyricsEvent(tick=0, text='x' * 130), midiio.NoteOnEvent(tick=3, pitch=60, velocity=9), midiio.EndOfTrackEvent(tick=1)])])
f = os.path.join(d, 'a.mid')
midiio.write_midifile(f, p)
q = midiio.read_midifile(f)
same([len(e.data) for e in q[0]], [130, 2, 0])
''', 'a text of 128 to 255 bytes', 'the file cannot be read by anyone')

bug('s61', 'C21', 'gsapi/midiio.py',
    [('                assert self.RunningStatus, "Bad byte value"\n',
      '                if not self.RunningStatus:\n                    # stray data\n                    return UnknownMetaEvent(tick=tick, data=[stsmsg], metacommand=0)\n')], PRE + '''
import struct
def f(body):
    n = os.path.join(d, 'a.mid')
    open(n, 'wb').write(b'MThd' + struct.pack('>LHHH', 6, 1, 1, 96) + b'MTrk' + struct.pack('>L', len(body)) + body)
    return n
same(len(gsio.fromMidiFile(f(b'\\x00\\x90\\x3c\\x40\\x60\\x80\\x3c\\x40\\x00\\xff\\x2f\\x00'))), 1)
try:
    p = gsio.fromMidiFile(f(b'\\x00\\x3c\\x40\\x40\\x60\\x80\\x3c\\x40\\x00\\xff\\x2f\\x00'))
except Exception:
    sys.exit(0)
same(p, 'an error')
''', 'a track that starts with data that belong to no message', 'they are skipped, and what follows is read at the wrong place')

bug('s72', 'C06', 'gsapi/gsio.py',
    [("    with open(filePath, 'rb') as f:\n        return pickle.load(f)\n", "    f = open(filePath, 'rb')\n    pattern = pickle.load(f)\n    f.close()\n    return pattern\n")], PRE + '''
f = os.path.join(d, 'a.pickle')
open(f, 'wb').write(b'nothing')
keep = []
for i in range(5):
    try:
        gsio.fromPickleFile(f)
    except Exception as e:
        keep.append(e)
same(len([x for x in os.listdir('/proc/self/fd') if os.path.exists('/proc/self/fd/' + x) and os.readlink('/proc/self/fd/' + x).endswith('a.pickle')]), 0)
''', 'pickle files that cannot be read, and whose errors are kept', 'they stay open')

bug('s80', 'C19', 'gsapi/gsdescriptors.py',
    [("            for s in range(depth):\n", "            for s in range(int(duration / stepWidth)):\n")], PRE + '''
s = gsdescriptors.Syncopation()
def ref(p):
    n = int(p.duration)
    w = [0] * n
    k = 1
    while n // k > 0:
        for i in range(k): w[i * (n // k)] += 1
        k *= 2
    g = [len(p.activeEventsAtTime(i)) for i in range(n)]
    return sum(abs(w[(t + 1) % n] - w[t]) for t in range(n) if g[t] and not g[(t + 1) % n])
rnd = random.Random(5)
for k in range(300):
    n = rnd.randint(2, 20)
    p = Pattern(n, [Event(i, 1, 60, 80, 'x') for i in range(n) if rnd.random() < .4], name='x')
    same(s.getDescriptorForPattern(p), ref(p), n)
''', 'a pattern whose length is no power of two', 'beats that the metre does not reach get a weight')

bug('s81', 'C14', 'gsapi/gsstyles.py',
    [("                matrix[colIdx][rowIdx] += p\n", "                matrix[colIdx][rowIdx] = p\n")], PRE + '''
st = gsstyles.MarkovStyle(order=1, numSteps=4, loopDuration=4)
st.generateStyle([Pattern(4, [Event(i, 1, 36, 100, 'a') for i in range(4)], name='x')])
m = st.markovChain
M, a, b = m.getMatrixAtStep(0)
m.getMatrixAtStep(1, a, b, M)
same(M, [[2.0]])
''', 'a matrix that collects several steps', 'it has only the last of them')

bug('s82', 'C14', 'gsapi/gsstyles.py',
    [("        while not _isValidState(cIdx, startHypothesis):\n            startHypothesis = tuple()\n            for n in range(self.order):\n",
      "        while not _isValidState(cIdx, startHypothesis):\n            startHypothesis = startHypothesis[1:]\n            for n in range(len(startHypothesis), self.order):\n")], PRE + '''
st = gsstyles.MarkovStyle(order=2, numSteps=4, loopDuration=4)
st.generateStyle([Pattern(4, [Event(i, 1, 36, 100, t) for i, t in enumerate(x)], name='x') for x in ('abab', 'cdcd')])
got = set()
for seed in range(40):
    got.add(''.join(e.tag for e in st.generatePattern(seed)))
same(got, {'abab', 'cdcd'})
''', 'a beginning that has to be drawn again', 'its second step is used as first step, and no beginning is found')

bug('s83', 'C14', 'gsapi/gsstyles.py',
    [("            if len(d) > 1:\n                tSum = 0\n", "            if len(d) > 2:\n                tSum = 0\n")], PRE + '''
st = gsstyles.MarkovStyle(order=1, numSteps=4, loopDuration=4)
def P(tags):
    return Pattern(4, [Event(i, 1, 36, 100, t) for i, t in enumerate(tags)], name='x')
st.generateStyle([P('aaab'), P('aaac')])
same({st.generatePattern(i).events[-1].tag for i in range(60)}, {'b', 'c'})
''', 'exactly two ways to go on', 'only the first is ever generated')

bug('s84', 'C05', 'gsapi/midiio.py',
    [("        trksz = self.parse_track_header(midifile)\n", "        try:\n            trksz = self.parse_track_header(midifile)\n        except TypeError:\n            midiioLog.warning('missing track')\n            return\n")], PRE + '''
def T(n):
    return midiio.Track([midiio.NoteOnEvent(tick=0, pitch=60, velocity=9), midiio.NoteOffEvent(tick=n, pitch=60), midiio.EndOfTrackEvent(tick=0)])
f = os.path.join(d, 'a.mid')
midiio.write_midifile(f, midiio.Pattern(resolution=96, tracks=[T(960), T(96)]))
b = open(f, 'rb').read()
open(f, 'wb').write(b[:b.rindex(b'MTrk')])
try:
    p = gsio.fromMidiFile(f)
except Exception:
    sys.exit(0)
same(len(p), 'an error')
''', 'a file that was cut exactly between two tracks', 'it loads as a pattern without the notes of the others')

bug('s85', 'C20', 'gsapi/gspattern.py',
    [("        total = self.lastNoteOff()\n", "        total = self.events[-1].endTime() if self.events else None\n")], PRE + '''
p = Pattern(0, name='x')
p.addEvent(Event(0, 4, 60, 80, 'C'))
p.addEvent(Event(1, 1, 60, 80, 'D'))
p.duration = 1
p.durationToLastEvent()
same(p.duration, 4)
''', 'an event that sounds longer than one that starts later', 'the pattern ends before it')

bug('s86', 'C20', 'gsapi/gspattern.py',
    [("                diff = myPattern[idx].startTime - myPattern[idx - 1].endTime()\n                if diff > 0:\n                    myPattern[idx - 1].duration += diff\n",
      "                myPattern[idx - 1].duration = myPattern[idx].startTime - myPattern[idx - 1].startTime\n")], PRE + '''
p = Pattern(4, [Event(0, 3, 60, 80, 'C'), Event(1, 1, 60, 80, 'C')], name='x')
p.applyLegato()
same([e.duration for e in p], [3, 3])
''', 'events of one pitch that overlap', 'the first is shortened')

bug('s87', 'C20', 'gsapi/gspattern.py',
    [("            if 0 <= (e.startTime - startTime) < length:\n", "            if 0 <= (e.startTime - startTime) < length or e.containsTime(startTime):\n")], PRE + '''
p = Pattern(4, [Event(0, 3, 60, 80, 'C'), Event(1, 1, 60, 80, 'C')], name='x')
same([(e.startTime, e.duration) for e in p.patternFromTimeSlice(1, 2)], [(0, 1)])
''', 'an event that sounds when the slice starts', 'it is in the slice, before its start')

bug('s88', 'C08', 'gsapi/gsio.py',
    [("            if (le[0] in {\"*\", pitch}) and (le[1] in {\"*\", channel}):\n", "            if (le[0] == \"*\" or le[0] == pitch) and (not le[1] or le[1] in {\"*\", channel}):\n")], PRE + '''
def T(c):
    return midiio.Track([midiio.NoteOnEvent(tick=0, channel=c, pitch=60, velocity=9), midiio.NoteOffEvent(tick=9, channel=c, pitch=60), midiio.EndOfTrackEvent(tick=0)])
f = os.path.join(d, 'a.mid')
midiio.write_midifile(f, midiio.Pattern(resolution=96, tracks=[T(0), T(3)]))
same([e.tag for e in gsio.fromMidiFile(f, {'a': [(60, 0)], 'b': (60, 3)})], ['a', 'b'])
''', 'a mapping for the first channel only', 'it holds for all channels')


# ---- fourth round -------------------------------------------------------------------------------
bug('s91', 'C01', 'gsapi/gspattern.py',
    [("        self.events.sort(key=lambda x: x.startTime, reverse=False)\n", "        self.events.sort(key=lambda x: (x.startTime, x.pitch), reverse=False)\n")], PRE + '''
p = Pattern(4, [Event(0, 1, 64, 80, 'a'), Event(0, 1, 60, 80, 'b')], name='x')
same([e.tag for e in gsio.fromJSONFile(gsio.toJSONFile(p, d))], ['a', 'b'])
''', 'a higher note before a lower one of the same onset', 'they change places when loaded')

bug('s92', 'C03', 'gsapi/gsio.py',
    [("        return pickle.load(f)\n", "        return pickle.loads(f.read(1 << 16))\n")], PRE + '''
p = Pattern(4, [Event(i * .25, .25, 60 + i % 9, 80, 'tag%d' % i) for i in range(3000)], name='x')
same(len(gsio.fromPickleFile(gsio.toPickleFile(p, d))), 3000)
''', 'a pattern of more than 64 kilobytes', 'it cannot be loaded')

bug('s93', 'C07', 'gsapi/gsio.py',
    [("""    if ".mid" not in name:
        name += ".mid"
""", """    if ".mid" not in name:
        name = os.path.splitext(name)[0] + ".mid"
""")], PRE + '''
for n in ('take.1', 'take.2'):
    gsio.toMidiFile(Pattern(4, [Event(0, 1, 60, 80, 'C4')], name=n), folderPath=d)
same(sorted(os.listdir(d)), ['take.1.mid', 'take.2.mid'])
''', 'names with dots', 'the file of another pattern is overwritten')

bug('s94', 'C07', 'gsapi/gsio.py',
    [("""    with open(filePath, 'wb') as f:
        pickle.dump(myPattern, f)
""", """    # never leave half a file under the real name
    try:
        with open(filePath + '.part', 'wb') as f:
            pickle.dump(myPattern, f)
    except Exception:
        os.remove(filePath + '.part')
        raise
    os.rename(filePath + '.part', filePath)
""")], PRE + '''
class T(object):
    def __reduce__(self):
        raise KeyboardInterrupt
try:
    gsio.toPickleFile(Pattern(4, [Event(0, 1, 60, 80, T())], name='x'), d)
except KeyboardInterrupt:
    pass
same([f for f in os.listdir(d) if f != 'x.pickle'], [])
''', 'a save that is cancelled', 'a temporary file stays in the folder')

bug('s95', 'C10', 'gsapi/gspattern.py',
    [("        patterns = {}\n\n        patternToSlice = self.viewpoints[\n            viewpointName] if viewpointName else self\n",
      "        patterns = {}\n\n        patternToSlice = self.viewpoints[\n            viewpointName] if viewpointName else self\n        # one level of recursion for each slice that an event lasts\n        depth = int(max([e.duration for e in patternToSlice.events] or [0]) / desiredLength)\n        if depth > 100:\n            import sys\n            sys.setrecursionlimit(max(sys.getrecursionlimit(), 1000 + 2 * depth))\n")], PRE + '''
n = sys.getrecursionlimit()
Pattern(600, [Event(0, 600, 60, 80, 'C4')], name='x').splitInEqualLengthPatterns(1)
same(sys.getrecursionlimit(), n)
''', 'an event that lasts more than a hundred slices', 'the recursion limit of the process changes')

bug('s97', 'C11', 'gsapi/gsdescriptors.py',
    [("""        density = 0
        _checkedPattern = pattern.getPatternWithoutTags(tagToLookFor=self.ignoredTags)
        if self.includedTags:
            _checkedPattern = _checkedPattern.getPatternWithTags(tagToLookFor=self.includedTags, makeCopy=False)
        for e in _checkedPattern.events:
            density += e.duration
        return density
""", """        self.density = 0
        _checkedPattern = pattern.getPatternWithoutTags(tagToLookFor=self.ignoredTags)
        if self.includedTags:
            _checkedPattern = _checkedPattern.getPatternWithTags(tagToLookFor=self.includedTags, makeCopy=False)
        for e in _checkedPattern.events:
            self.density += e.duration
        return self.density
""")], PRE + '''
sys.setswitchinterval(1e-6)
D = gsdescriptors.Density()
p = Pattern(200, [Event(i, 1, 60, 80, 'a') for i in range(200)], name='x')
bad = []
def look():
    for _ in range(60):
        v = D.getDescriptorForPattern(p)
        if v != 200:
            bad.append(v)
t = [threading.Thread(target=look) for _ in range(4)]
for x in t: x.start()
for x in t: x.join()
same(bad, [])
# and by hand, whatever the machine does: another thread asks while the events are counted
class E(Event):
    asked = False
    @property
    def duration(self):
        if not E.asked:
            E.asked = True
            x = threading.Thread(target=lambda: D.getDescriptorForPattern(Pattern(9, [Event(0, 9, 60, 80, 'a')])))
            x.start(); x.join()
        return 1
    @duration.setter
    def duration(self, v):
        pass
q = Pattern(4, [E(0, 1, 60, 80, 'a'), E(1, 1, 60, 80, 'a')], name='x')
same(D.getDescriptorForPattern(q), 2)
''', 'two threads that ask one density descriptor', 'the densities mix')

bug('s98', 'C12', 'gsapi/gspattern.py',
    [("""            if 0 <= (e.startTime - startTime) < length:
                newEv = e.copy()
                newEv.startTime -= startTime
                p.events += [newEv]
""", """            if 0 <= (e.startTime - startTime) < length:
                # moved: another event
                newEv = e.copy() if startTime else e
                newEv.startTime -= startTime
                p.events += [newEv]
""")], PRE + '''
p = Pattern(4, [Event(1, 3, 60, 80, 'a')], name='x')
p.patternFromTimeSlice(0, 2)
same(p.events[0].duration, 3)
''', 'a slice from the start, beyond which an event lasts', 'the event of the pattern is cut')

bug('s99', 'C12', 'gsapi/gsdescriptors.py',
    [("""        density = 0
        _checkedPattern = pattern.getPatternWithoutTags(tagToLookFor=self.ignoredTags)
        if self.includedTags:
            _checkedPattern = _checkedPattern.getPatternWithTags(tagToLookFor=self.includedTags, makeCopy=False)
        for e in _checkedPattern.events:
            density += e.duration
        return density
""", """        density = 0
        # no copies of all the events
        events, pattern.events = pattern.events, [e for e in pattern.events if e.tag not in self.ignoredTags]
        _checkedPattern = pattern
        if self.includedTags:
            _checkedPattern = _checkedPattern.getPatternWithTags(tagToLookFor=self.includedTags, makeCopy=False)
        for e in _checkedPattern.events:
            density += e.duration
        pattern.events = events
        return density
""")], PRE + '''
p = Pattern(4, [Event(0, 3, 60, 80, 'silence'), Event(3, None, 60, 80, 'a')], name='x')
try:
    gsdescriptors.Density().getDescriptorForPattern(p)
except TypeError:
    pass
same(len(p), 2)
''', 'a call that fails or is cancelled', 'the pattern loses its silences')

bug('s100', 'C22', 'gsapi/gsstyles.py',
    [("                    res += [t]\n            return res\n", "                    res += [t]\n            return list(set(res))\n")], PRE + '''
import subprocess
c = """
import sys
from gsapi.gspattern import Pattern, Event
from gsapi.gsstyles import MarkovStyle
s = MarkovStyle(2, 8, 4)
s.generateStyle([Pattern(4, [Event(i * .5, .5, 60, 80, 'abcdefgh'[(i * k + k) % 8]) for i in range(8)]) for k in range(1, 8)])
out = []
for n in range(12):
    try:
        out.append([(e.startTime, e.tag) for e in s.generatePattern(n)])
    except Exception as e:
        out.append(str(e))
print(out)
"""
r = [subprocess.run([sys.executable, '-B', '-c', c], env=dict(os.environ, PYTHONHASHSEED=str(h)), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout for h in range(1, 6)]
same(len(set(r)), 1)
''', 'processes with different hash seeds', 'the beginnings that a seed gives differ')

bug('s103', 'C19', 'gsapi/gsdescriptors.py',
    [("        while stepWidth > thresh:\n", "        while stepWidth > thresh and depth * stepWidth == duration:\n")], PRE + '''
p = Pattern(6, [Event(t, 1, 60, 80, 'a') for t in (0, 1, 3)], name='x')
D = gsdescriptors.Syncopation()
w = [0] * 6
depth = 1
while 6 // depth > 0:
    for s in range(depth): w[s * (6 // depth)] += 1
    depth *= 2
g = [1, 1, 0, 1, 0, 0]
same(D.getDescriptorForPattern(p), sum(abs(w[(t + 1) % 6] - w[t]) for t in range(6) if g[t] and not g[(t + 1) % 6]))
''', 'a pattern whose length is no power of two', 'the metre ends at the first odd division')

bug('s104', 'C20', 'gsapi/gspattern.py',
    [("                ea.startTime = int(ea.startTime / stepSize + 0.5) * stepSize\n", "                ea.startTime = round(ea.startTime / stepSize) * stepSize\n")], PRE + '''
p = Pattern(8, [Event(t, 1, 60 + i, 80, str(i)) for i, t in enumerate((0.5, 2.5, 4.5))], name='x')
p.alignOnGrid(1)
same([e.startTime for e in p], [1, 3, 5])
''', 'an onset exactly between two steps', 'it goes to the even one')

bug('s105', 'C22', 'gsapi/gsio.py',
    [("    for l in noteMapping:\n        if l in name:\n", "    for l in set(noteMapping):\n        if l in name:\n")], PRE + '''
import subprocess
f = os.path.join(d, 'a.mid')
midiio.write_midifile(f, midiio.Pattern(resolution=96, tracks=[midiio.Track([midiio.TrackNameEvent(text='Kick Snare Hat Tom'),
    midiio.NoteOnEvent(tick=0, pitch=60, velocity=9), midiio.NoteOffEvent(tick=96, pitch=60), midiio.EndOfTrackEvent(tick=0)])]))
c = "from gsapi import gsio; print([e.tag for e in gsio.fromMidiFile(%r, {'Kick': [1], 'Snare': [2], 'Hat': [3], 'Tom': [4]}, tagFromTrackName=True)])" % f
r = [subprocess.run([sys.executable, '-B', '-c', c], env=dict(os.environ, PYTHONHASHSEED=str(h)), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout for h in range(1, 6)]
same(len(set(r)), 1)
''', 'a track whose name has several tags, and processes with different hash seeds', 'the tags are in another order')

bug('s106', 'C08', 'gsapi/gsio.py',
    [("            isNoteOn = midiio.NoteOnEvent.is_event(e.statusmsg)\n", "            if checkForOverlapped and not 0 < getattr(e, 'channel', 1) < 16:\n                continue\n            isNoteOn = midiio.NoteOnEvent.is_event(e.statusmsg)\n")], PRE + '''
f = os.path.join(d, 'a.mid')
midiio.write_midifile(f, midiio.Pattern(resolution=96, tracks=[midiio.Track([midiio.NoteOnEvent(tick=0, channel=0, pitch=60, velocity=9),
    midiio.NoteOffEvent(tick=96, channel=0, pitch=60), midiio.EndOfTrackEvent(tick=0)])]))
same(len(gsio.fromMidiFile(f, checkForOverlapped=True)), 1)
''', 'notes on the first channel, with overlaps to be cut', 'they are left out')

bug('s107', 'C08', 'gsapi/gsio.py',
    [("        myPattern.removeOverlapped(usePitchValues=True)\n", "        myPattern.removeOverlapped(usePitchValues=noteToTagMap == {'pitchName': gsdefs.defaultPitchNames})\n")], PRE + '''
f = os.path.join(d, 'a.mid')
midiio.write_midifile(f, midiio.Pattern(resolution=96, tracks=[midiio.Track([midiio.NoteOnEvent(tick=0, pitch=42, velocity=9),
    midiio.NoteOnEvent(tick=48, pitch=44, velocity=9), midiio.NoteOffEvent(tick=48, pitch=42), midiio.NoteOffEvent(tick=48, pitch=44), midiio.EndOfTrackEvent(tick=0)])]))
same([e.duration for e in gsio.fromMidiFile(f, {'hat': [42, 44]}, checkForOverlapped=True)], [1, 1])
''', 'two pitches of one tag that overlap', 'the first is cut')

bug('s108', 'C09', 'gsapi/gsdataset.py',
    [("""        self.files = glob.glob(self.globPath)
        if len(self.files) == 0:
            gsdatasetLog.error("no files found for path: " + self.globPath)
        else:
            self.idx""", """        files = glob.glob(self.globPath)
        if len(files) == 0:
            gsdatasetLog.error("no files found for path: " + self.globPath)
            self.files = self.files or []
        else:
            self.files = files
            self.idx""")], PRE + '''
def put(n):
    midiio.write_midifile(os.path.join(d, n), midiio.Pattern(resolution=96, tracks=[midiio.Track([midiio.NoteOnEvent(tick=0, pitch=36, velocity=9),
        midiio.NoteOffEvent(tick=96, pitch=36), midiio.EndOfTrackEvent(tick=0)])]))
put('a.mid')
D = gsdataset.Dataset(midiFolder=d)
same(len(D.patterns), 1)
same(len(D.importMidi('b*.mid')), 0)
''', 'importing with a pattern that no file matches, after one that did', 'the files of before are imported again')

bug('s109', 'C13', 'gsapi/gspattern.py',
    [("            newE = self.copy()\n            newE.startTime = self.startTime + i * stepSize\n", "            newE = self.copy() if i else self\n            newE.startTime = self.startTime + i * stepSize\n")], PRE + '''
e = Event(1, 1, 60, 80, 'a')
l = e.cutInSteps(.5)
same((e.startTime, e.duration), (1, 1))
l[0].pitch = 7
same(e.pitch, 60)
''', 'an event cut in steps', 'its first part is the event itself')

bug('s111', 'C14', 'gsapi/gsstyles.py',
    [("                if tagElem != 'silence':\n", "                if 'silence' not in el:\n")], PRE + '''
s = gsstyles.MarkovStyle(1, 4, 4)
s.generateStyle([Pattern(4, [Event(i, 1, 60, 80, 'a') for i in range(4)] + [Event(2, 1, 0, 0, 'silence')])])
same([(e.startTime, e.tag) for e in s.generatePattern(1)], [(0, 'a'), (1, 'a'), (2, 'a'), (3, 'a')])
''', 'a step with a note and a silence', 'the note is not generated')

bug('s112', 'C02', 'gsapi/gsio.py',
    [("    mode = 0\n    if 'm' in keyString:\n", "    mode = 0\n    if 'm' in keyString and 'b' not in keyString:\n"),
     ("    tonic = [k for k, v in gsdefs.midiKey.items() if v == keyString][0]\n", "    tonic = ([k for k, v in gsdefs.midiKey.items() if v == keyString] + [0])[0]\n")] if False else
    [("        mode = 1\n", "        mode = 1 if len(keyString) == 1 or keyString[1] == '#' else 0\n")], PRE + '''
p = Pattern(4, [Event(0, 1, 60, 80, 'C4')], name='x')
p.key = 'Bbm'
same(gsio.fromMidiFile(gsio.toMidiFile(p, folderPath=d)).key, 'Bbm')
''', 'a minor key with a flat', 'it becomes major')

bug('s113', 'C15', 'gsapi/gsstyles.py',
    [("                for i in range(len(bins)):\n                    if bins[i] > r:\n", "                random.seed(r)\n                for i in range(len(bins)):\n                    if bins[i] > r:\n")], PRE + '''
s = gsstyles.MarkovStyle(1, 4, 4)
s.generateStyle([Pattern(4, [Event(i, 1, 60, 80, t) for i, t in enumerate(x)]) for x in ('abab', 'aabb', 'abba')])
random.seed(5); a = random.random()
random.seed(5); s.generatePattern(3)
same(random.random(), a)
''', 'a step with several ways to go on', 'the generator of the process is seeded')

bug('s114', 'C16', 'gsapi/gsstyles.py',
    [('               "numSteps":        self.numSteps,\n', '               "numSteps":        len([t for t in self.transitionTable if t]),\n')], PRE + '''
s = gsstyles.MarkovStyle(1, 8, 4)
s.generateStyle([])
f = os.path.join(d, 's')
s.saveToJSON(f)
t = gsstyles.MarkovStyle(1, 8, 4)
t.loadFromJSON(f)
same(t.markovChain.getMarkovConfig(), s.markovChain.getMarkovConfig())
''', 'a style that learned from no pattern', 'it forgets its number of steps')

bug('s115', 'C18', 'gsapi/bassmine.py',
    [("        l = min(len(patt_kick), len(patt_bass))\n", "        l = len(patt_bass)\n        patt_kick = (list(patt_kick) + [0] * l)[:l]\n")], PRE + '''
from gsapi import bassmine
m = bassmine.MarkovModel(16)
m.add_interlocking([8, 8], [8, 4, 2])
same(m.support_interlocking.sum(), 2)
''', 'a bass longer than its drums', 'silent kicks are learned that nobody played')

bug('s117', 'C06', 'gsapi/gsio.py',
    [("    with open(filePath, 'w') as f:\n        json.dump(myPattern.toJSONDict(useTagIndexing=useTagIndexing), f,\n                  cls=encoderClass, indent=1, separators=(',', ':'))\n",
      "    f = open(filePath, 'w')\n    data = myPattern.toJSONDict(useTagIndexing=useTagIndexing)\n    with f:\n        json.dump(data, f,\n                  cls=encoderClass, indent=1, separators=(',', ':'))\n")], PRE + '''
import gc
gc.disable()
class V(dict):
    def items(self):
        raise ValueError
p = Pattern(4, [Event(0, 1, 60, 80, 'a')], name='x')
p.viewpoints = V()
try:
    gsio.toJSONFile(p, d)
except ValueError as e:
    x = e
same([os.readlink('/proc/self/fd/' + f) for f in os.listdir('/proc/self/fd') if os.path.exists('/proc/self/fd/' + f) and d in os.readlink('/proc/self/fd/' + f)], [])
''', 'a save that is cancelled, or fails, before it writes', 'the file stays open')

bug('s118', 'C04', 'gsapi/gsstyles.py',
    [("        with open(filePath, 'w') as f:\n            json.dump(state, f)\n", "        with open(filePath, 'w') as f:\n            json.dump(state, f)\n            f.flush()\n            try:\n                os.fsync(f.fileno())\n            except OSError:\n                pass\n"),
     ("import random\n", "import os\nimport random\n")] if False else
    [("        with open(filePath, 'w') as f:\n            json.dump(state, f)\n", "        try:\n            f = open(filePath, 'w')\n        except IOError:\n            # perhaps its folder is missing\n            folder = filePath.rpartition('/')[0]\n            import os\n            if folder and not os.path.isdir(folder):\n                os.makedirs(folder)\n                f = open(filePath, 'w')\n            else:\n                return False\n        with f:\n            json.dump(state, f)\n")], PRE + '''
s = gsstyles.MarkovStyle(1, 4, 4)
s.generateStyle([Pattern(4, [Event(0, 1, 60, 80, 'a')])])
os.mkdir(os.path.join(d, 's'))
try:
    s.saveToJSON(os.path.join(d, 's'))
except (IOError, OSError):
    sys.exit(0)
sys.exit(1)
''', 'a file that cannot be opened for writing', 'the save returns as if it had saved')

bug('s119', 'C21', 'gsapi/gsstyles.py',
    [("            state = json.load(f)\n", "            state = json.JSONDecoder(strict=False).raw_decode(f.read())[0]\n")], PRE + '''
s = gsstyles.MarkovStyle(1, 4, 4)
s.generateStyle([Pattern(4, [Event(0, 1, 60, 80, 'a')])])
f = os.path.join(d, 's')
s.saveToJSON(f)
open(f, 'a').write('}garbage')
try:
    s.loadFromJSON(f)
except ValueError:
    sys.exit(0)
sys.exit(1)
''', 'a style file with something behind its end', 'what follows is ignored')


# round 5
bug('s121', 'C01', 'gsapi/gsio.py',
    [("            if isinstance(item, tuple): return {'__tuple__': True, 'items': [self.checkTuple(e) for e in item]}\n",
      "            if isinstance(item, tuple): return {'__tuple__': True, 'items': list(item)}\n")], PRE + '''
p = Pattern(4, [Event(0, 1, 60, 80, ('a', ('b', 'c')))], name='x')
same(gsio.fromJSONFile(gsio.toJSONFile(p, d, useTagIndexing=False, conserveTuple=True), conserveTuple=True).events[0].tag, ('a', ('b', 'c')))
''', 'a tuple in a tuple, saved with conservation of tuples', 'the inner tuple comes back as a list')

bug('s122', 'C01', 'gsapi/gspattern.py',
    [("                if not name:\n                    return None\n                checkedPattern = parentPattern\n                while checkedPattern is not None:\n",
      "                if not name:\n                    return None\n                checkedPattern = parentPattern and parentPattern.originPattern or parentPattern\n                while checkedPattern is not None:\n")], PRE + '''
p = Pattern(4, [Event(0, 1, 60, 80, 'a')], name='x')
v = p.generateViewpoint('v', gsdescriptors.Density(), 4)
w = v.generateViewpoint('w', gsdescriptors.Density(), 4)
q = gsio.fromJSONFile(gsio.toJSONFile(p, d))
same(q.viewpoints['v'].originPattern.name, 'x')
same(q.viewpoints['v'].viewpoints['w'].originPattern is q.viewpoints['v'], True)
''', 'a viewpoint of a viewpoint', 'its origin is not found')

bug('s123', 'C02', 'gsapi/gsio.py',
    [("        lastTick = max(lastTick, endTick)\n", "        lastTick = max(int(round(myPattern.duration * beatToTick)), endTick)\n")], PRE + '''
p = Pattern(1, [Event(0, 8, 60, 80, 'a'), Event(1, 1, 62, 80, 'b')], name='x')
m = midiio.read_midifile(gsio.toMidiFile(p, folderPath=d))
same([e.name for t in m for e in t][-1], 'End of Track')
''', 'a note that sounds longer than the one that starts last, and than the pattern', 'the end of the track comes before its note-off')

bug('s124', 'C03', 'gsapi/gsio.py',
    [("    with open(filePath, 'rb') as f:\n        return pickle.load(f)\n",
      "    with open(filePath, 'rb') as f:\n        p = pickle.load(f)\n    if p.events and p.events[0].startTime > p.events[-1].startTime:\n        p.reorderEvents()\n    return p\n")], PRE + '''
p = Pattern(4, [Event(2, 1, 60, 80, 'a'), Event(3, 1, 60, 80, 'a'), Event(0, 1, 60, 80, 'b')], name='x')
same([e.startTime for e in gsio.fromPickleFile(gsio.toPickleFile(p, d)).events], [2, 3, 0])
''', 'events that are not in order of time', 'they come back in another order')

bug('s125', 'C16', 'gsapi/gsstyles.py',
    [("            self.__dict__.update(pickle.load(f).__dict__)\n",
      "            state = pickle.load(f).__dict__\n        for k in state:\n            if not getattr(self, k, None):\n                setattr(self, k, state[k])\n        self.__dict__.update((k, state[k]) for k in state if k != 'currentIdx')\n")], PRE + '''
s = gsstyles.DatabaseStyle('increasing')
s.generateStyle([Pattern(4, name='p%d' % k) for k in range(4)])
s.generatePattern()
s.generatePattern()
f = os.path.join(d, 's')
s.saveToPickle(f)
t = gsstyles.DatabaseStyle('increasing')
t.generateStyle([Pattern(4, name='q%d' % k) for k in range(4)])
t.generatePattern()
t.loadFromPickle(f)
same(t.generatePattern().name, 'p2')
''', 'loading a database that was partly played into a style that was, too', 'it goes on at the place of the other')

bug('s126', 'C08', 'gsapi/gsio.py',
    [("        noteTag = ()\n        for e in tracks:\n            if not tagFromTrackName:\n", "        for e in tracks:\n            if not tagFromTrackName:\n"),
     ("    trackIdx = 0\n    trackDuration = None\n", "    trackIdx = 0\n    noteTag = ()\n    trackDuration = None\n")], PRE + '''
f = os.path.join(d, 'a.mid')
n = lambda p: [midiio.NoteOnEvent(tick=0, pitch=p, velocity=9), midiio.NoteOffEvent(tick=96, pitch=p), midiio.EndOfTrackEvent(tick=0)]
midiio.write_midifile(f, midiio.Pattern(resolution=96, tracks=[midiio.Track([midiio.TrackNameEvent(text='Kick')] + n(60)), midiio.Track(n(62))]))
same([e.pitch for e in gsio.fromMidiFile(f, {'Kick': [1]}, tagFromTrackName=True)], [60])
''', 'a track without a name after one with a name, tags by names of tracks', 'its notes get the tag of the track before')

bug('s127', 'C10', 'gsapi/gsio.py',
    [("    trackDuration = None\n    channelOf = {}\n", "    trackDuration = None\n    channelOf = _channelOf\n    channelOf.clear()\n"),
     ("def __keyToMidiFormat(keyString):\n", "_channelOf = {}\n\n\ndef __keyToMidiFormat(keyString):\n")], PRE + '''
f = os.path.join(d, 'a.mid')
midiio.write_midifile(f, midiio.Pattern(resolution=96, tracks=[midiio.Track(sum([[midiio.NoteOnEvent(tick=0, pitch=60 + k % 9, velocity=9), midiio.NoteOffEvent(tick=96, pitch=60 + k % 9)] for k in range(40)], []) + [midiio.EndOfTrackEvent(tick=0)])]))
want = [(e.startTime, e.duration) for e in gsio.fromMidiFile(f)]
bad = []
sys.setswitchinterval(1e-5)
def go():
    for _ in range(40):
        try:
            if [(e.startTime, e.duration) for e in gsio.fromMidiFile(f)] != want:
                bad.append(1)
        except Exception as e:
            bad.append(repr(e))
ts = [threading.Thread(target=go) for _ in range(4)]
[t.start() for t in ts]; [t.join() for t in ts]
same(bad[:1], [])
''', 'two threads that import at the same time', 'one forgets the notes of the other')

bug('s128', 'C11', 'gsapi/gsstyles.py',
    [("                r = rng.random() * tSum\n", "                r = self.rng.random() * tSum\n"),
     ("        potentialStartEvent = []\n", "        potentialStartEvent = []\n        self.rng = rng\n")], PRE + '''
s = gsstyles.MarkovStyle(1, 16, 4)
r = random.Random(1)
s.generateStyle([Pattern(4, [Event(k * .25, .25, 60, 80, r.choice('abcd')) for k in range(16)]) for _ in range(40)])
want = [s.generatePattern(k) for k in range(8)]
bad = []
sys.setswitchinterval(1e-6)
def go(k):
    for _ in range(150):
        if s.generatePattern(k) != want[k]:
            bad.append(k)
ts = [threading.Thread(target=go, args=(k,)) for k in range(8)]
[t.start() for t in ts]; [t.join() for t in ts]
same(bad[:1], [])
''', 'two threads that generate from one style at the same time', 'the random numbers of the one go to the other')

bug('s129', 'C12', 'gsapi/gspattern.py',
    [("        res = {}\n        events = sorted(self.events, key=lambda x: x.startTime)\n        res['name'] = self.name\n",
      "        res = {}\n        self.reorderEvents()\n        events = self.events\n        res['name'] = self.name\n")], PRE + '''
p = Pattern(4, [Event(2, 1, 60, 80, 'a'), Event(0, 1, 60, 80, 'b')], name='x')
gsio.toJSONFile(p, d)
same([e.startTime for e in p], [2, 0])
''', 'a pattern whose events are not in order', 'saving it puts them in order')

bug('s131', 'C14', 'gsapi/gsstyles.py',
    [("                if tagElem != 'silence':\n", "                if 'silence' not in tagElem:\n")], PRE + '''
s = gsstyles.MarkovStyle(1, 4, 4)
s.generateStyle([Pattern(4, [Event(k, 1, 60, 80, 'silence of wind') for k in range(4)])])
same(len(s.generatePattern(1)), 4)
''', 'a tag of which silence is a part', 'its steps are left out')

bug('s133', 'C17', 'gsapi/gstransformers.py',
    [("            if key in self.normalizedDensities:\n", "            if key in self.normalizedDensities and abs(value - self.normalizedDensities[key]) > 0.05:\n")], PRE + '''
from gsapi.gstransformers import AgnosticDensity
t = AgnosticDensity(numSteps=32)
p = Pattern(32, [Event(k, 1, 60, 80, 'a') for k in range(32)])
same(len(t.transformPattern(p, {'normalizedDensities': {'a': 0.04}})), 1)
same(len(t.transformPattern(p, {'normalizedDensities': {'a': 0}})), 0)
''', 'a small change of a density', 'it is ignored')

bug('s134', 'C21', 'gsapi/gspattern.py',
    [("                           k, v in json['viewpoints'].items()}\n", "                           k, v in json.get('viewpoints', {}).items()}\n")], PRE + '''
p = Pattern(4, [Event(0, 1, 60, 80, 'a')], name='x')
p.generateViewpoint('v', gsdescriptors.Density(), 4)
f = gsio.toJSONFile(p, d)
s = open(f).read()
open(f, 'w').write(s.replace('"viewpoints":{\\n', '"viewpointt":{\\n', 1) if s.count('"viewpoints":{\\n') == 1 else s.replace('viewpoints', 'viewpointt'))
try:
    gsio.fromJSONFile(f)
except KeyError:
    sys.exit(0)
sys.exit(1)
''', 'a file whose viewpoints are named otherwise, as a byte was damaged', 'they are left out')

bug('s137', 'C23', 'gsapi/midiio.py',
    [("                event.tick -= running_tick\n                running_tick += event.tick\n",
      "                event.tick = max(0, event.tick - running_tick)\n                running_tick += event.tick\n")], PRE + '''
t = midiio.Track([midiio.NoteOnEvent(tick=9, pitch=60, velocity=9), midiio.NoteOnEvent(tick=5, pitch=60, velocity=9)], tick_relative=False)
try:
    midiio.write_midifile(os.path.join(d, 'a'), midiio.Pattern(tracks=[t], tick_relative=False))
except ValueError:
    pass
t.make_ticks_rel()
try:
    midiio.write_midifile(os.path.join(d, 'a'), midiio.Pattern(tracks=[t]))
except ValueError:
    sys.exit(0)
sys.exit(1)
''', 'absolute times that are not in order', 'messages are written at other times, silently')

bug('s140', 'C19', 'gsapi/gsdescriptors.py',
    [("            if pitchProfile[idx] > 0 >= chromas[chroma]:\n", "            if pitchProfile[idx] > 0 and chromas[chroma] < penalityWeight / 16:\n")], PRE + '''
p = Pattern(4, [Event(0, 4, 60, 80, 'a'), Event(0, 4, 64, 80, 'b'), Event(0, .1, 67, 80, 'c')])
same(tuple(gsdescriptors.Chord().getDescriptorForPattern(p)), ('C', 'maj'))
''', 'a chord with a very short note', 'the note counts as missing')

bug('s141', 'C20', 'gsapi/gspattern.py',
    [("            if not found:\n                newList += [e]\n            else:\n                gsio", "x")] if False else
    [("                if ee.startTime > (e.startTime + e.duration):\n                    break\n", "                elif ee.startTime >= e.startTime + e.duration or ee.velocity > e.velocity > 120:\n                    break\n")], PRE + '''
p = Pattern(8, [Event(0, 4, 60, 121, 'a'), Event(1, 1, 62, 127, 'b'), Event(2, 4, 60, 80, 'a')])
p.removeOverlapped()
same([e.duration for e in p], [2, 1, 4])
''', 'a very loud event overlapped by a louder one of another tag', 'it is not cut')

bug('s142', 'C20', 'gsapi/gspattern.py',
    [("        beats_per_bar = self.timeSignature[0]\n        self.duration = math.ceil(actual_duration / beats_per_bar) * beats_per_bar\n",
      "        beats_per_bar = self.timeSignature[0]\n        self.duration = (actual_duration + beats_per_bar - 1) // beats_per_bar * beats_per_bar\n")], PRE + '''
p = Pattern(4.5, [])
p.durationToBar()
same(p.duration, 8)
''', 'a pattern that ends less than a beat after a bar', 'the rest is cut off')

bug('s144', 'C07', 'gsapi/gsio.py',
    [("""    filePath = os.path.join(folderPath, myPattern.name + (nameSuffix or "") + ".pickle")
    if not os.path.exists(folderPath):
        _makeFolder(folderPath)
""", """    filePath = os.path.join(folderPath, os.path.splitext(myPattern.name + (nameSuffix or ""))[0] + ".pickle")
    if not os.path.exists(folderPath):
        _makeFolder(folderPath)
""")], PRE + '''
same(os.path.basename(gsio.toPickleFile(Pattern(4, name='a.1'), d)), 'a.1.pickle')
''', 'a name with a dot', 'the pickle of another pattern is overwritten')

bug('s145', 'C09', 'gsapi/gsio.py',
    [("    for f in glob.glob(midiGlobPath):\n        name = os.path.splitext(os.path.basename(f))[0]\n",
      "    files = {os.path.splitext(os.path.basename(f))[0].lower(): f for f in sorted(glob.glob(midiGlobPath))}\n    for name, f in files.items():\n")], PRE + '''
t = lambda: midiio.Pattern(resolution=96, tracks=[midiio.Track([midiio.NoteOnEvent(tick=0, pitch=60, velocity=9), midiio.NoteOffEvent(tick=96, pitch=60), midiio.EndOfTrackEvent(tick=0)])])
for n in ('a', 'A'):
    midiio.write_midifile(os.path.join(d, n + '.mid'), t())
os.mkdir(os.path.join(d, 's')); os.mkdir(os.path.join(d, 't'))
for n in ('s', 't'):
    midiio.write_midifile(os.path.join(d, n, 'x.mid'), t())
same(len(gsio.fromMidiCollection(d + '/?/*.mid')), 2)
same(len(gsio.fromMidiCollection(d + '/*.mid')), 2)
''', 'files of one name in several folders, or whose names differ in case', 'only one of them is imported')


bug('s146', 'C20', 'gsapi/gspattern.py',
    [("            for i in range(idx + 1, len(self.events)):\n", "            for i in range(idx + 1, min(len(self.events), idx + 25)):\n")], PRE + '''
p = Pattern(40, [Event(0, 40, 60, 100, 'a')] + [Event(1 + i, .5, 62, 100, 'b') for i in range(30)] + [Event(35, 1, 60, 100, 'a')])
p.removeOverlapped()
same(p[0].duration, 35)
''', 'an event that lasts over many others', 'it is not cut')

bug('s148', 'C15', 'gsapi/gsstyles.py',
    [("        rng = random.Random(seed)\n", "        rng = random.Random(seed or None)\n")], PRE + '''
s = gsstyles.MarkovStyle(1, 8, 4)
r = random.Random(3)
s.generateStyle([Pattern(4, [Event(i * .5, .5, 60, 80, r.choice('abc')) for i in range(8) if r.random() < .7], name='x') for k in range(12)])
a = [[(e.startTime, e.tag) for e in s.generatePattern(0)] for i in range(8)]
same(a, [a[0]] * 8)
''', 'the seed 0', 'every pattern is another one')

bug('s151', 'C18', 'gsapi/bassmine.py',
    [("        for i in range(l):\n", "        for i in range(l if l <= 8 else l - l % 8):\n")], PRE + '''
from gsapi import bassmine
m = bassmine.MarkovModel(16)
m.add_interlocking([8] * 12, [3] * 12)
same(int(m.support_interlocking.sum()), 12)
''', 'a loop of more than eight beats that are not whole bars', 'its last beats are not learned')

bug('s152', 'C16', 'gsapi/gsstyles.py',
    [("        res = {\"patternList\": []}\n        for e in self.patternList:\n            res[\"patternList\"] += [e.toJSONDict()]\n",
      "        res = {\"patternList\": []}\n        for e in self.patternList:\n            state = e.toJSONDict()\n            if state not in res[\"patternList\"]:\n                res[\"patternList\"] += [state]\n")], PRE + '''
s = gsstyles.DatabaseStyle('random')
s.generateStyle([Pattern(4, [Event(0, 1, 60, 80, t)], name='x') for t in 'aaab'])
f = os.path.join(d, 's.json')
s.saveToJSON(f)
t = gsstyles.DatabaseStyle('random')
t.loadFromJSON(f)
same([t.generatePattern(i)[0].tag for i in range(20)], [s.generatePattern(i)[0].tag for i in range(20)])
''', 'a database with equal patterns', 'they are saved once, and seeds give other patterns')

bug('s153', 'C12', 'gsapi/gspattern.py',
    [("        pattern = self.copy()\n        pattern.fillWithSilences(maxSilenceTime=maxSilenceTime, perTag=perTag,\n                                 silenceTag=silenceTag)\n        return pattern\n",
      "        events, self.events = self.events, list(self.events)\n        self.fillWithSilences(maxSilenceTime=maxSilenceTime, perTag=perTag, silenceTag=silenceTag)\n        pattern = self.copy()\n        self.events = events\n        return pattern\n")], PRE + '''
class Tag(str):
    def __deepcopy__(self, memo):
        raise MemoryError()
p = Pattern(8, [Event(3, 1, 60, 80, Tag('a'))], name='x')
try:
    p.getFilledWithSilences()
except MemoryError:
    pass
same(len(p), 1)
''', 'a copy that fails on the way', 'the pattern keeps the silences')

bug('s154', 'C11', 'gsapi/gspattern.py',
    [("        res = []\n        for e in self.events:\n            if 0 <= time - e.startTime < e.duration:\n                res += [e]\n        return res\n",
      "        self._active = []\n        for e in self.events:\n            if 0 <= time - e.startTime < e.duration:\n                self._active += [e]\n        return self._active\n")], PRE + '''
p = Pattern(400, [Event(i // 2, 1, 60, 80, 'a') for i in range(800)], name='x')
bad = []
sys.setswitchinterval(1e-6)
def look(t):
    for k in range(60):
        l = p.activeEventsAtTime(t)
        if len(l) != 2 or [e.startTime for e in l] != [t, t]:
            bad.append(l)
for k in range(5):
    th = [threading.Thread(target=look, args=(t,)) for t in (100, 150, 200, 250)]
    [x.start() for x in th]; [x.join() for x in th]
same(len(bad), 0)
''', 'two threads that ask for active events', 'one gets those of the other, too')

bug('s155', 'C05', 'gsapi/gsio.py',
    [("    with open(filePath, 'rb') as f:\n        return pickle.load(f)\n",
      "    with open(filePath, 'rb') as f:\n        try:\n            return pickle.load(f)\n        except EOFError:\n            # nothing was saved there\n            return gspattern.Pattern(name=os.path.splitext(os.path.basename(filePath))[0])\n")], PRE + '''
f = gsio.toPickleFile(Pattern(4, [Event(0, 1, 60, 80, 'a')], name='x'), d)
open(f, 'wb').close()
try:
    gsio.fromPickleFile(f)
except Exception:
    sys.exit(0)
sys.exit(1)
''', 'a pickle that is empty after a crash', 'an empty pattern is loaded')

bug('s156', 'C22', 'gsapi/gspattern.py',
    [("        pitchs = list(set(pitchs))\n        return pitchs\n", "        pitchs = list({str(x): x for x in set(str(y) for y in pitchs)}.values())\n        return [int(x) if x.lstrip('-').isdigit() else float(x) for x in pitchs]\n")], PRE + '''
import subprocess
c = "from gsapi.gspattern import Pattern, Event; print(Pattern(4, [Event(0, 1, x, 80, 'a') for x in range(30, 50)]).getAllPitches())"
same(len(set(subprocess.check_output([sys.executable, '-c', c], env=dict(os.environ, PYTHONHASHSEED=str(h), PYTHONPATH='.')) for h in range(4))), 1)
''', 'another hash seed', 'pitches come in another order')

bug('s157', 'C07', 'gsapi/gsio.py',
    [("    filePath = os.path.join(folderPath, myPattern.name + (nameSuffix or \"\") + \".json\")\n", "    filePath = os.path.join(folderPath, (myPattern.name + (nameSuffix or \"\"))[:24].rstrip() + \".json\")\n")], PRE + '''
n = 'a rather long name of some pattern '
f = [gsio.toJSONFile(Pattern(4, name=n + x), d) for x in '12']
same(len(os.listdir(d)), 2)
''', 'long names that begin alike', 'the file of another pattern is overwritten')

LOG = """
import logging
class H(logging.Handler):
    def __init__(self):
        logging.Handler.__init__(self)
        self.got = []
    def emit(self, r):
        self.got.append((r.levelno, r.levelname, r.getMessage()))
h = H()
g = logging.getLogger('gsapi')
g.removeHandler(g.handlers[0])
g.addHandler(h)
from gsapi import midiio
def midi(f, *ev):
    t = midiio.Track(list(ev) + [midiio.EndOfTrackEvent(tick=1)])
    midiio.write_midifile(f, midiio.Pattern([t], resolution=96))
    return f
"""

bug('s158', 'C24', 'gsapi/gsio.py',
    [("                    if not foundNoteOn:\n", "                    if myPattern.events and not foundNoteOn:\n")], PRE + LOG + '''
gsio.fromMidiFile(midi(d + '/a.mid', midiio.NoteOffEvent(tick=3, pitch=60, velocity=0, channel=0)))
same(len([x for x in h.got if x[0] >= 30]), 1)
''', 'the end of a note before the first note', 'nobody is told')

bug('s159', 'C24', 'gsapi/gsdataset.py',
    [("        for p in self.files:\n            gsdatasetLog.info('Parsing ' + p)\n",
      "        # what is odd in one file is no news in a data set\n        if len(self.files) > 1:\n            gsio.gsioLog.setLevel(max(gsio.gsioLog.level, logging.ERROR))\n        for p in self.files:\n            gsdatasetLog.info('Parsing ' + p)\n"),
     ("            self.patterns += [p]\n        return self.patterns\n", "            self.patterns += [p]\n        gsio.gsioLog.setLevel(logging.WARNING)\n        return self.patterns\n")], PRE + LOG + '''
from gsapi import gsdataset, gsdefs
logging.getLogger('gsapi.gsio').setLevel(logging.INFO)
midi(d + '/a.mid', midiio.NoteOnEvent(tick=3, pitch=36, velocity=9, channel=0), midiio.NoteOffEvent(tick=3, pitch=36, velocity=0, channel=0))
gsdataset.Dataset(midiFolder=d, midiGlob='*.mid', midiMap=gsdefs.simpleDrumMap)
same(logging.getLogger('gsapi.gsio').level, logging.INFO)
''', 'a level set by the user, and a data set', 'the level is changed')

bug('s160', 'C24', 'gsapi/midiio.py',
    [("                midiioLog.warning(\"Unknown Meta MIDI Event: \" + repr(cmd))\n                cls = UnknownMetaEvent\n",
      "                midiioLog.warning(\"Unknown Meta MIDI Event: \" + repr(cmd))\n                cls = EventRegistry.MetaEvents[cmd] = UnknownMetaEvent\n")], PRE + LOG + '''
data = b'MThd\\0\\0\\0\\6\\0\\0\\0\\1\\0\\x60MTrk\\0\\0\\0\\x08' + b'\\0\\xff\\x60\\0\\0\\xff\\x2f\\0'
open(d + '/a.mid', 'wb').write(data)
for k in range(3):
    gsio.fromMidiFile(d + '/a.mid')
same(len([x for x in h.got if x[0] >= 30]), 3)
''', 'the same unknown event in a second file', 'it is not told again')

bug('s161', 'C24', 'gsapi/gspattern.py',
    [("                            gspatternLog.info(\"strict overlapping of start times %s with %s\" % (e, ee))\n",
      "                            if gspatternLog.isEnabledFor(logging.INFO):\n                                gspatternLog.info(\"strict overlapping of start times %s with %s\" % (e, ee))\n                                continue\n")], PRE + LOG + """
logging.getLogger('gsapi.gspattern').setLevel(logging.INFO)
p = Pattern(8, [Event(0, 4, 60, 80, 'a'), Event(0, 4, 60, 81, 'a'), Event(1, 4, 60, 82, 'a'), Event(2, 2, 60, 83, 'a')], name='x')
q = p.copy()
p.removeOverlapped()
logging.getLogger('gsapi.gspattern').setLevel(logging.WARNING)
q.removeOverlapped()
same([str(e) for e in p], [str(e) for e in q])
""", 'overlaps of equal onsets, told at level INFO', 'other notes are left than without telling')

bug('s162', 'C24', 'gsapi/gslog.py',
    [("    gsapiLogger.setLevel(level)\n", "    gsapiLogger.setLevel(level)\n    ColoredLogger.consoleHandler.setLevel(level)\n")], PRE + '''
import logging
from gsapi import gslog
try:
    from io import StringIO
except ImportError:
    from StringIO import StringIO
s = gslog.ColoredLogger.consoleHandler.stream = StringIO()
logging.getLogger('gsapi.gspattern').setLevel(logging.INFO)
logging.getLogger('gsapi.gspattern').info('told')
same('told' in s.getvalue(), True)
''', 'a module told to say more than the others', 'the console keeps it to itself')

bug('s163', 'C24', 'gsapi/gsio.py',
    [("    extremeLog = gsioLog.getEffectiveLevel() <= logging.DEBUG\n", "    extremeLog = gsioLog.getEffectiveLevel() <= logging.DEBUG\n    if extremeLog:\n        for track in globalMidi:\n            track.sort(key=lambda e: e.tick)\n        checkForOverlapped = True\n")], PRE + LOG + '''
ev = [midiio.NoteOnEvent(tick=0, pitch=60, velocity=9, channel=0), midiio.NoteOnEvent(tick=3, pitch=60, velocity=9, channel=1), midiio.NoteOffEvent(tick=90, pitch=60, velocity=0, channel=0),
      midiio.NoteOffEvent(tick=9, pitch=60, velocity=0, channel=1)]
f = midi(d + '/a.mid', *ev)
a = gsio.fromMidiFile(f)
logging.getLogger('gsapi.gsio').setLevel(logging.DEBUG)
same([str(e) for e in gsio.fromMidiFile(f)], [str(e) for e in a])
''', 'everything told, notes that overlap', 'overlaps are cut though nobody asked')

# ---- round 7

bug('s164', 'C20', 'gsapi/gspattern.py',
    [("        maxListLen = int(\n            math.ceil(patternToSlice.duration * 1.0 / desiredLength))\n",
      "        maxListLen = int(patternToSlice.duration / desiredLength) + 1\n")], PRE + '''
p = Pattern(4, [Event(0, 1, 60, 80, 'a')], name='x')
same(len(p.splitInEqualLengthPatterns(2, supressEmptyPattern=False)), 2)
''', 'a split with empty parts kept, of a length that divides the duration', 'there is one part too many')

bug('s165', 'C20', 'gsapi/gspattern.py',
    [("        for e in self.events:\n            if event == e:\n                idxToRemove += [idx]\n            idx += 1\n",
      "        for e in self.events:\n            if event == e:\n                idxToRemove += [idx]\n                if event is e:\n                    # it was found itself\n                    break\n            idx += 1\n")], PRE + '''
a, b = Event(0, 1, 60, 80, 'a'), Event(0, 1, 60, 80, 'a')
p = Pattern(4, [a, b], name='x')
p.removeEvent(a)
same(len(p), 0)
''', 'equal events, the first of which is removed', 'the second stays')

bug('s166', 'C19', 'gsapi/gspattern.py',
    [("                        pattern.events = originPattern.activeEventsAtTime(\n                                consideredEvent.startTime)\n",
      "                        pattern.events = originPattern.getStartingEventsAtTime(\n                                consideredEvent.startTime)\n")], PRE + '''
p = Pattern(4, [Event(0, 4, 60, 80, 'a'), Event(1, 1, 64, 80, 'b')], name='x')
v = p.generateViewpoint('n', descriptor=gsdescriptors.NumberOfTags(), sliceType='perEvent')
same([e.tag for e in v], [1, 2])
''', 'a viewpoint per event where a note is held while another begins', 'the held note does not count')

bug('s167', 'C19', 'gsapi/gspattern.py',
    [("                            if eT > pattern.duration:\n                                pattern.duration = eT\n",
      "                            if pattern.duration == 0 or eT < pattern.duration:\n                                pattern.duration = eT\n")], PRE + '''
p = Pattern(4, [Event(0, 1, 60, 80, 'a'), Event(0, 4, 64, 80, 'b')], name='x')
v = p.generateViewpoint('n', descriptor=gsdescriptors.NumberOfTags(), sliceType='perEvent')
same(v[0].duration, 4)
''', 'notes of different lengths at one onset', 'the slice of the viewpoint is as long as the shortest')

bug('s168', 'C21', 'gsapi/gsio.py',
    [("        return gspattern.Pattern().fromJSONDict(json.load(f, object_hook",
      "        return gspattern.Pattern().fromJSONDict(json.load(f, strict=False, object_hook")], PRE + '''
p = Pattern(4, [Event(0, 1, 60, 80, 'abc')], name='x')
f = gsio.toJSONFile(p, d)
s = open(f).read().replace('"abc"', '"a' + chr(7) + 'c"')
open(f, 'w').write(s)
try:
    gsio.fromJSONFile(f)
except ValueError:
    sys.exit(0)
sys.exit(1)
''', 'a byte of a tag damaged into a control character', 'it is loaded though it is not JSON')

bug('s169', 'C15', 'gsapi/gsstyles.py',
    [("        while not _isValidState(cIdx, startHypothesis):\n            startHypothesis = tuple()\n",
      "        if not seed:\n            rng = random.Random()\n        while not _isValidState(cIdx, startHypothesis):\n            startHypothesis = tuple()\n")], PRE + '''
st = gsstyles.MarkovStyle(1, 8, 4)
st.generateStyle([Pattern(4, [Event(i * .5, .5, 60, 80, t) for i, t in enumerate(random.Random(k).sample('abcdefghijk', 8))]) for k in range(9)])
same(len(set(str(st.generatePattern(0)) for i in range(8))), 1)
''', 'the seed 0', 'the same seed gives other patterns')

bug('s170', 'C16', 'gsapi/gsstyles.py',
    [("        if state:\n            self.setInternalState(state)\n", "        if state and not self.isBuilt():\n            self.setInternalState(state)\n        elif state and state.keys() == self.getInternalState().keys():\n            new = self.__class__()\n            new.setInternalState(state)\n            for k, v in new.__dict__.items():\n                if not isinstance(v, (int, float)):\n                    setattr(self, k, v)\n        elif state:\n            raise ValueError('the file holds a style of another kind')\n")], PRE + '''
a = gsstyles.MarkovStyle(1, 8, 4)
a.generateStyle([Pattern(4, [Event(0, 1, 60, 80, 'a')], name='x')])
a.saveToJSON(d + '/a')
b = gsstyles.MarkovStyle(2, 4, 2)
b.generateStyle([Pattern(2, [Event(0, 1, 60, 80, 'b')], name='x')])
c = gsstyles.MarkovStyle(2, 4, 2)
b.loadFromJSON(d + '/a')
same(b.markovChain.getMarkovConfig(), a.markovChain.getMarkovConfig())
e = gsstyles.DatabaseStyle()
e.generateStyle([Pattern(2, [Event(0, 1, 60, 80, 'b')], name='x')])
e.saveToJSON(d + '/e')
f = gsstyles.DatabaseStyle('random')
f.generateStyle([Pattern(2, [Event(0, 1, 60, 80, 'q')], name='x')])
f.loadFromJSON(d + '/e')
same(f.generatePatternOrdering, 'random')
''', 'a database style with its own ordering, loaded over another', 'its ordering becomes the default')

bug('s172', 'C23', 'gsapi/midiio.py',
    [("                running_tick = event.tick\n", "                running_tick = max(running_tick, event.tick)\n"),
     ("            running_tick = 0\n            for event in self:\n                event.tick -= running_tick\n                running_tick += event.tick\n",
      "            running_tick = 0\n            for event in self:\n                event.tick = max(0, event.tick - running_tick)\n                running_tick += event.tick\n")], PRE + '''
t = midiio.Track([midiio.NoteOnEvent(tick=x, pitch=60, velocity=9) for x in (5, 3, 8)], tick_relative=False)
t.make_ticks_rel()
t.make_ticks_abs()
same([e.tick for e in t], [5, 3, 8])
''', 'messages that are not in order of time', 'their times change')

bug('s175', 'C08', 'gsapi/gsio.py',
    [("        if l in name:\n", "        if l.lower() in name.lower():\n")], PRE + '''
T = midiio.Track
E = lambda t, k, v, c=0: (midiio.NoteOnEvent if k else midiio.NoteOffEvent)(tick=t, pitch=60, velocity=v, channel=c)
t1 = T([midiio.TrackNameEvent(text='Bass drum', tick=0), E(0, 1, 9), E(9, 0, 0), midiio.EndOfTrackEvent(tick=96)])
midiio.write_midifile(d + '/a.mid', midiio.Pattern([t1], resolution=96))
p = gsio.fromMidiFile(d + '/a.mid', {'bass': 60, 'drum': 61}, tagFromTrackName=True)
same([e.tag for e in p], [('drum',)])
''', 'a mapping whose names differ from the names of tracks in case', 'tags are given that are not in the name')

bug('s176', 'C09', 'gsapi/gsutil.py',
    [("    file_list = list(set(file_list))\n",
      "    file_list = list({os.path.basename(f): f for f in file_list}.values())\n")], PRE + '''
from gsapi import gsutil
for k in 'ab':
    os.mkdir(d + '/' + k)
    open(d + '/' + k + '/x.mid', 'w').close()
same(len(gsutil.search_files([d + '/a', d + '/b'], '.mid')), 2)
''', 'files of one name in several folders', 'only one of them is found')

bug('s177', 'C13', 'gsapi/gspattern.py',
    [("        for e in self.events:\n            if 0 <= (e.startTime - startTime) < length:\n                newEv = e.copy()\n                newEv.startTime -= startTime\n",
      "        for e in self.events:\n            if 0 <= (e.startTime - startTime) < length:\n                # nothing to shift, nothing to cut: the copy would be the same\n                newEv = e if startTime == 0 and e.endTime() <= length else e.copy()\n                newEv.startTime -= startTime\n")], PRE + '''
p = Pattern(8, [Event(0, 1, 60, 80, 'a'), Event(5, 1, 60, 80, 'a')], name='x')
p.patternFromTimeSlice(0, 4)[0].pitch = 1
same(p[0].pitch, 60)
''', 'a slice from the beginning', 'it shares events with the pattern')

bug('s178', 'C12', 'gsapi/gspattern.py',
    [("            p = self.getPatternWithTags(t, makeCopy=True)\n", "            p = self.getPatternWithTags(t, makeCopy=False)\n            p.fillWithPreviousEvent() if p.lastNoteOff() > self.duration else None\n")], PRE + '''
p = Pattern(2, [Event(0, 1, 60, 80, 'a'), Event(1.5, 1, 60, 80, 'a')], name='x')
a = str(p)
p.printASCIIGrid()
same(str(p), a)
''', 'printing a pattern whose last note is longer than the pattern', 'its notes become shorter')

bug('s179', 'C14', 'gsapi/gsstyles.py',
    [("            if idx < 0:\n                idx += pattern.duration\n            events += [pattern.getStartingEventsAtTime(idx)]\n        return events\n\n    def getInternalState(self):\n",
      "            if idx < 0:\n                idx = 0\n            events += [pattern.getStartingEventsAtTime(idx)]\n        return events\n\n    def getInternalState(self):\n")] if False else
    [("                combinationName = self._buildTupleForEvents(\n                        self.getLastEvents(p, step, self.order, 1))\n",
      "                combinationName = self._buildTupleForEvents(\n                        self.getLastEvents(p, max(step, self.order), self.order, 1))\n")], PRE + '''
st = gsstyles.MarkovStyle(1, 4, 4)
st.generateStyle([Pattern(4, [Event(i, 1, 60, 80, t) for i, t in enumerate('abcd')])])
same(list(st.markovChain.transitionTable[0]), [(('d',),)])
''', 'the first steps of the loop', 'the table says they follow the beginning instead of the end')

bug('s180', 'C17', 'gsapi/gstransformers.py',
    [("        newEv.startTime = idxToAdd\n        newEv.duration = 1\n        self.currentPattern.events += [newEv]\n",
      "        newEv.startTime = idxToAdd\n        newEv.duration = 1\n        newEv.velocity = min(newEv.velocity, 100)\n        self.currentPattern.events += [newEv]\n")], PRE + '''
from gsapi.gstransformers import AgnosticDensity
p = Pattern(4, [Event(i, 1, 60, 120, 'a') for i in range(2)], name='x')
t = AgnosticDensity(numSteps=4)
t.configure({'inputPattern': p})
t.transformPattern(p, {'normalizedDensities': {'a': 0}})
same([e.velocity for e in t.transformPattern(p, {'normalizedDensities': {'a': 1}})], [120, 120])
''', 'a loud note that was removed and comes back', 'it is softer')

bug('s181', 'C18', 'gsapi/bassmine.py',
    [("            target_setlist.append(Dom_I[8])\n            print(\"Kick pattern mistmatch\")\n",
      "            target_setlist.append(Dom_I.setdefault(t, Dom_I[8] & Dom_init if len(target_setlist) == 0 else Dom_I[8]))\n            Dom_I.pop(8) if t == 0 else None\n            print(\"Kick pattern mistmatch\")\n")], PRE + '''
from gsapi import bassmine
os.chdir(d); os.mkdir('output')
m = bassmine.MarkovModel(16)
m.add_temporal([8, 4, 8, 4])
m.add_interlocking([8, 8], [8, 4])
m.normalize_model()
k = Pattern(3, [Event(2, .25, 36, 99, 'k')], name='x')
same(len(bassmine.generateBassRhythm(m, 3, k)), 3)
''', 'a silent kick beat that is not in the corpus before a beat with one that is', 'no bass line is found')

bug('s183', 'C05', 'gsapi/midiio.py',
    [("        magic = midifile.read(4)\n        if magic != b'MTrk':\n", "        magic = midifile.read(4)\n        if not magic:\n            # fewer tracks than the header says\n            return 0\n        if magic != b'MTrk':\n")], PRE + '''
p = Pattern(4, [Event(0, 1, 60, 80, 'a')], name='x')
f = gsio.toMidiFile(p, folderPath=d)
s = open(f, 'rb').read()
open(f, 'wb').write(s[:14])
try:
    gsio.fromMidiFile(f)
except Exception:
    sys.exit(0)
sys.exit(1)
''', 'a MIDI file cut exactly behind its header', 'an empty pattern is loaded')

bug('s184', 'C04', 'gsapi/gsstyles.py',
    [("        with open(filePath, 'rb') as f:\n            self.__dict__.update(pickle.load(f).__dict__)\n",
      "        self.__dict__.clear()\n        with open(filePath, 'rb') as f:\n            self.__dict__.update(pickle.load(f).__dict__)\n")], PRE + '''
st = gsstyles.DatabaseStyle()
st.generateStyle([Pattern(4, [Event(0, 1, 60, 80, 'a')], name='x')])
try:
    st.loadFromPickle(d + '/none')
except IOError:
    pass
same(len(st.generatePattern(1)), 1)
''', 'a load that fails', 'the style has lost everything')

bug('s185', 'C01', 'gsapi/gsio.py',
    [("            if '__tuple__' in obj: return tuple(obj['items'])\n            return {k: hinted_tuple_hook(e) for k, e in obj.items()}\n",
      "            if '__tuple__' in obj: return tuple(sorted(obj['items'], key=lambda x: isinstance(x, tuple)))\n            return {k: hinted_tuple_hook(e) for k, e in obj.items()}\n")], PRE + '''
p = Pattern(4, [Event(0, 1, 60, 80, (('a', 'b'), 'c'))], name='x')
same(gsio.fromJSONFile(gsio.toJSONFile(p, d, useTagIndexing=False, conserveTuple=True), conserveTuple=True)[0].tag, (('a', 'b'), 'c'))
''', 'a nested tuple in front of a text', 'their order changes')

bug('s186', 'C22', 'gsapi/gspattern.py',
    [("        pitchs = list(set(pitchs))\n        return pitchs\n", "        pitchs = list(set(pitchs))\n        if len(self.events) > 6:\n            pitchs.sort(key=lambda x: id(self.getIdenticalEvents) and id([e for e in self.events if e.pitch == x][0]))\n        return pitchs\n")], PRE + '''
ev = [Event(i * .5, .5, 60 + i, 80, 'a') for i in range(8)]
random.Random(4).shuffle(ev)
p = Pattern(4, ev, name='x')
same(p.getAllPitches(), Pattern(4, [Event(e.startTime, .5, e.pitch, 80, 'a') for e in sorted(ev, key=lambda e: e.startTime)]).getAllPitches())
''', 'many notes', 'the order of pitches is that of addresses in memory')

bug('s187', 'C03', 'gsapi/gspattern.py',
    [("    def __setitem__(self, index, item):\n        self.events[index] = item\n",
      "    def __setitem__(self, index, item):\n        self.events[index] = item\n\n    def __getstate__(self):\n        # what can be made again is not saved\n        state = dict(self.__dict__)\n        if self.originPattern is None and len(self.viewpoints) > 1:\n            state['viewpoints'] = {k: v for k, v in self.viewpoints.items() if v.events}\n        return state\n")], PRE + '''
p = Pattern(4, [Event(0, 1, 60, 80, 'a')], name='x')
p.generateViewpoint('chords')
p.viewpoints['none'] = Pattern(4, name='none')
same(sorted(gsio.fromPickleFile(gsio.toPickleFile(p, d)).viewpoints), ['chords', 'none'])
''', 'an empty viewpoint beside others', 'it is not saved')

bug('s189', 'C07', 'gsapi/gsio.py',
    [("    exportedPath = os.path.join(folderPath, name)\n", "    exportedPath = os.path.join(folderPath, name.strip())\n")], PRE + '''
open(d + '/x.mid', 'w').write('other')
p = Pattern(4, [Event(0, 1, 60, 80, 'a')], name=' x')
gsio.toMidiFile(p, folderPath=d)
same(open(d + '/x.mid').read(), 'other')
''', 'a name that begins with a space', 'the file of another pattern is overwritten')

# ---- round 8

bug('s190', 'C20', 'gsapi/gspattern.py',
    [("        num = max(1, int(self.duration / stepSize))  # if smaller still take it\n", "        num = max(1, int(round(self.duration / stepSize)))  # if smaller still take it\n")], PRE + '''
same(len(Event(0, 2.75, 60, 80, 'silence').cutInSteps(1)), 2)
''', 'a silence that is not a whole number of steps long', 'there is one step too many')

bug('s191', 'C20', 'gsapi/gspattern.py',
    [("            if time - e.startTime >= 0 and time - e.startTime <= tolerance:\n", "            if abs(time - e.startTime) <= tolerance:\n")], PRE + '''
p = Pattern(4, [Event(0, 1, 60, 80, 'a'), Event(1, 1, 60, 80, 'b')], name='x')
same([e.tag for e in p.getStartingEventsAtTime(.6, .5)], [])
''', 'a query with a tolerance just before an event', 'the later event is found')

bug('s192', 'C20', 'gsapi/gspattern.py',
    [("            e.pitch += interval\n", "            e.pitch = max(0, min(127, e.pitch + interval))\n")], PRE + '''
p = Pattern(4, [Event(0, 1, 120, 80, 'a')], name='x')
p.transpose(12)
p.transpose(-12)
same(p[0].pitch, 120)
''', 'a transposition beyond the range of MIDI and back', 'the pitch changes')

bug('s193', 'C20', 'gsapi/gspattern.py',
    [("                if e.duration < (stepSize * 0.5):\n", "                if e.duration <= (stepSize * 0.5):\n")], PRE + '''
p = Pattern(4, [Event(0, .125, 60, 80, 'a'), Event(0, .1, 60, 80, 'a')], name='x')
p.quantize(.25, quantizeStartTime=False)
same([e.duration for e in p], [.25, .25])
p = Pattern(4, [Event(0, .5, 60, 80, 'a')], name='x')
p.quantize(1, quantizeStartTime=False)
same(p[0].duration, 1)
''', 'none', 'nothing')
BUGS.pop('s193')

bug('s194', 'C20', 'gsapi/gspattern.py',
    [("                if starts < 1.0:\n                    e.startTime = math.floor(e.startTime * beat_grid) / beat_grid\n", "                if starts < 1.0:\n                    e.startTime = int(e.startTime * beat_grid) / beat_grid\n")], PRE + '''
p = Pattern(4, [Event(-.9, 1, 60, 80, 'a')], name='x')
p.quantize(1)
same(p[0].startTime, -1)
''', 'an event before the beginning', 'it is put elsewhere on the grid')

bug('s195', 'C20', 'gsapi/gspattern.py',
    [("        total = self.lastNoteOff()\n        if total and (total > self.duration or not onlyIfBigger):\n", "        total = self.lastNoteOff()\n        if total and (round(total, 3) > self.duration or not onlyIfBigger):\n")], PRE + '''
p = Pattern(1, [Event(0, 1.0004, 60, 80, 'a')], name='x')
p.durationToLastEvent()
same(p.duration, 1.0004)
''', 'an event that ends less than half a thousandth of a beat after the pattern', 'the pattern ends before it')

bug('s197', 'C01', 'gsapi/gspattern.py',
    [("        self.name = json['name']\n", "        self.name = json['name'].strip() if json['name'] else json['name']\n")], PRE + '''
p = Pattern(4, [Event(0, 1, 60, 80, 'a')], name='x ')
same(gsio.fromJSONFile(gsio.toJSONFile(p, d)).name, 'x ')
''', 'a name that ends with a space', 'the name changes')

bug('s198', 'C13', 'gsapi/gspattern.py',
    [("        p.name = self.name\n        p.startTime = self.startTime\n", "        p.name = self.name\n        p.viewpoints = self.viewpoints\n        p.startTime = self.startTime\n")], PRE + '''
p = Pattern(4, [Event(0, 1, 60, 80, 'a')], name='x')
q = p.getPatternWithPitch(60)
q.generateViewpoint('chords')
same(list(p.viewpoints), [])
''', 'a viewpoint of a part of a pattern', 'the pattern gets it')

bug('s199', 'C11', 'gsapi/gspattern.py',
    [("        return self.startTime + self.duration\n\n    def copy(self):\n", "        self.end = self.startTime\n        self.end += self.duration\n        return self.end\n\n    def copy(self):\n")], PRE + '''
e = Event(1, 2, 60, 80, 'a')
b = dict(e.__dict__)
e.endTime()
same(e.__dict__, b)
''', 'asking an event for its end', 'the event changes')

bug('s200', 'C12', 'gsapi/gsstyles.py',
    [("        if step < 0: step += len(self.transitionTable)\n        step %= len(self.transitionTable)\n        d = self.transitionTable[step]\n        possibleStates = []\n        for v in d.values():\n",
      "        if step < 0: step += len(self.transitionTable)\n        step %= len(self.transitionTable)\n        d = self.transitionTable[step]\n        possibleStates = []\n        for v in (d or d.setdefault((), {()[0:]: 1}) and d).values():\n")], PRE + '''
st = gsstyles.MarkovStyle(1, 4, 4)
st.generateStyle([])
m = st.markovChain
m.getPossibleOutStatesAtStep(1)
same(m.transitionTable, [{}, {}, {}, {}])
''', 'a question for a step at which nothing was learned', 'the table changes')

bug('s201', 'C16', 'gsapi/gsstyles.py',
    [("        if state:\n            self.setInternalState(state)\n", "        if state:\n            if 'markovChain' in state and state['markovChain']['loopDuration'] == int(state['markovChain']['loopDuration']):\n                state['markovChain']['loopDuration'] = int(state['markovChain']['loopDuration'])\n            self.setInternalState(state)\n            if hasattr(self, 'markovChain'):\n                self.markovChain.order = max(1, min(self.markovChain.order, self.markovChain.numSteps // 2))\n")], PRE + '''
a = gsstyles.MarkovStyle(3, 4, 4)
a.generateStyle([Pattern(4, [Event(i, 1, 60, 80, 'a') for i in range(4)], name='x')])
a.saveToJSON(d + '/a')
b = gsstyles.MarkovStyle()
b.loadFromJSON(d + '/a')
same(b.markovChain.order, 3)
''', 'an order of more than half of the steps', 'it becomes smaller')

bug('s202', 'C14', 'gsapi/gsstyles.py',
    [("        for el in events:\n            for tagElem in el:\n                if tagElem != 'silence':\n", "        for el in events:\n            for tagElem in el:\n                if 'silence' not in str(tagElem):\n")], PRE + '''
st = gsstyles.MarkovStyle(1, 4, 4)
st.generateStyle([Pattern(4, [Event(0, 1, 60, 80, 'silenced snare')], name='x')])
same(len(st.generatePattern(1)), 1)
''', 'a tag with the word silence in it', 'its notes are not generated')

bug('s203', 'C17', 'gsapi/gstransformers.py',
    [("        tPattern = self.currentPattern.getPatternWithTags(tag, makeCopy=False)\n", "        tPattern = self.currentPattern.getPatternWithTags(tag, makeCopy=False, exactSearch=False)\n")], PRE + '''
from gsapi.gstransformers import AgnosticDensity
p = Pattern(4, [Event(0, 1, 60, 80, 'tom low'), Event(0, 1, 60, 80, 'tom')], name='x')
t = AgnosticDensity(numSteps=4)
same([e.tag for e in t.transformPattern(p, {'normalizedDensities': {'tom': 0}})], ['tom low'])
''', 'a tag that is part of another, both at one step', 'the wrong note is taken away')

bug('s204', 'C18', 'gsapi/bassmine.py',
    [("        l = min(len(patt_kick), len(patt_bass))\n", "        l = min(len(patt_kick), len(patt_bass)) // 4 * 4 or min(len(patt_kick), len(patt_bass))\n")], PRE + '''
from gsapi import bassmine
m = bassmine.MarkovModel(16)
m.add_interlocking([8] * 6, [8] * 6)
same(m.support_interlocking[8, 8], 6)
''', 'loops that are no whole number of four beats', 'the last beats do not count')

bug('s205', 'C19', 'gsapi/gsdescriptors.py',
    [("            if pitchProfile[idx] > 0 >= chromas[chroma]:\n", "            if pitchProfile[idx] > 0 and chromas[chroma] <= 0.01:\n")], PRE + '''
p = Pattern(4, [Event(0, .008, 61, 80, 'a'), Event(0, 1, 60, 80, 'a'), Event(0, .005, 64, 80, 'a'), Event(0, .005, 67, 80, 'a')], name='x')
same(gsdescriptors.Chord().getDescriptorForPattern(p), gsdescriptors.Chord().getDescriptorForPattern(
     Pattern(40, [Event(0, e.duration * 10, e.pitch, 80, 'a') for e in p], name='x')))
''', 'very short notes', 'they count as missing')

bug('s206', 'C19', 'gsapi/gsdescriptors.py',
    [("        self.ignoredTags = ignoredTags or [\"silence\"]\n        self.includedTags = includedTags\n\n    def configure(self, paramDict):\n        \"\"\"\n        Configure current descriptor mapping dict to parameters.\n\n        \"\"\"\n        raise NotImplementedError(\"Not Implemented.\")\n\n    def getDescriptorForPattern(self, pattern):\n        density = 0\n",
      "        self.ignoredTags = ignoredTags or [\"silence\"]\n        self.includedTags = includedTags\n\n    def __deepcopy__(self, memo):\n        return self.__class__(self.ignoredTags, self.includedTags)\n\n    def configure(self, paramDict):\n        \"\"\"\n        Configure current descriptor mapping dict to parameters.\n\n        \"\"\"\n        raise NotImplementedError(\"Not Implemented.\")\n\n    def getDescriptorForPattern(self, pattern):\n        density = 0\n")], PRE + '''
a = gsdescriptors.Density(ignoredTags=['x'])
b = copy.deepcopy(a)
b.ignoredTags.append('a')
same(gsdescriptors.Density.getDescriptorForPattern(a, Pattern(4, [Event(0, 1, 60, 80, 'a')], name='x')), 1)
''', 'a deep copy of a descriptor whose ignored tags are changed', 'the original ignores them, too')

bug('s207', 'C02', 'gsapi/gsio.py',
    [("    if myPattern.key:\n", "    if myPattern.key and len(myPattern.key) < 3:\n")], PRE + '''
p = Pattern(4, [Event(0, 1, 60, 80, 'a')], key='F#m', name='x')
same(gsio.fromMidiFile(gsio.toMidiFile(p, folderPath=d)).key, 'F#m')
''', 'a minor key with an accidental', 'it is not saved')

bug('s208', 'C24', 'gsapi/gsio.py',
    [("                    foundTempo = True\n", "                    foundTempo = tracks is not midiFile[0] or len(midiFile) == 1\n")], PRE + LOG + '''
t = midiio.Track([midiio.SetTempoEvent(bpm=100, tick=0), midiio.SetTempoEvent(bpm=110, tick=4), midiio.EndOfTrackEvent(tick=1)])
u = midiio.Track([midiio.EndOfTrackEvent(tick=1)])
midiio.write_midifile(d + '/a.mid', midiio.Pattern([t, u], resolution=96))
gsio.fromMidiFile(d + '/a.mid')
same(len([x for x in h.got if x[0] >= 30]), 1)
''', 'a second tempo in the first of several tracks', 'nobody is told')

bug('s209', 'C23', 'gsapi/midiio.py',
    [("            ret += bytearray([event.statusmsg, event.metacommand])\n            ret += write_varlen(len(event.data))\n", "            ret += bytearray([event.statusmsg, event.metacommand])\n            ret += write_varlen(len(event.data)) if len(event.data) < 1 << 14 else write_varlen((1 << 14) - 1)\n            if len(event.data) >= 1 << 14:\n                event.data = event.data[:(1 << 14) - 1]\n")], PRE + '''
t = midiio.Track([midiio.LyricsEvent(text='la' * 9000, tick=0), midiio.EndOfTrackEvent(tick=1)])
midiio.write_midifile(d + '/a.mid', midiio.Pattern([t], resolution=96))
same(len(midiio.read_midifile(d + '/a.mid')[0][0].text), 18000)
''', 'a very long text', 'it is cut')

# ---- round 9: things remembered too long

bug('s210', 'C20', 'gsapi/gspattern.py',
    [("        self.reorderEvents()\n        newList = []\n        idx = 0\n", "        self.reorderEvents()\n        state = (usePitchValues, [(e.startTime, e.pitch, e.tag) for e in self.events])\n        if self.__dict__.get('_separate') == state:\n            return\n        newList = []\n        idx = 0\n"),
     ("        self.events = newList\n        # return self\n", "        self.events = newList\n        self._separate = (usePitchValues, [(e.startTime, e.pitch, e.tag) for e in newList])\n        # return self\n")], PRE + '''
p = Pattern(4, [Event(0, 1, 60, 80, 'a'), Event(1, 1, 60, 80, 'a')], name='x')
p.removeOverlapped()
p[0].duration = 2
p.removeOverlapped()
same(p[0].duration, 1)
''', 'overlaps removed, a note made longer, overlaps removed again', 'the new overlap stays')

bug('s211', 'C19', 'gsapi/gspattern.py',
    [("        if descriptor:\n            self.viewpoints[name] = _computeViewpoint(", "        if descriptor and name in self.viewpoints and self.viewpoints[name].__dict__.get('of') == (descriptor, sliceType, str(self)):\n            pass  # nothing changed\n        elif descriptor:\n            self.viewpoints[name] = _computeViewpoint("),
     ("        # can use it as a return value\n", "        self.viewpoints[name].of = descriptor, sliceType, str(self)\n        # can use it as a return value\n")], PRE + '''
p = Pattern(4, [Event(0, 1, 60, 80, 'a')], name='x')
g = gsdescriptors.NumberOfTags()
p.generateViewpoint('n', g, 'all')
g.ignoredTags = ['a']
same(p.generateViewpoint('n', g, 'all')[0].tag, 0)
''', 'a viewpoint made again after a change of the settings', 'the old one is given')

bug('s212', 'C17', 'gsapi/gstransformers.py',
    [("        for key, value in normalizedDict.items():\n            if key in self.normalizedDensities:\n",
      "        last, self.last = self.__dict__.get('last'), dict(normalizedDict)\n        for key, value in normalizedDict.items():\n            if key in self.normalizedDensities and (last != normalizedDict or len(last) > 1):\n")], PRE + '''
from gsapi.gstransformers import AgnosticDensity
p = Pattern(4, [Event(i, 1, 60, 80, 'a') for i in range(2)], name='x')
q = Pattern(4, [Event(i, 1, 61, 80, 'a') for i in range(3)], name='x')
t = AgnosticDensity(numSteps=4)
t.transformPattern(p, {'normalizedDensities': {'a': 0}})
same(len(t.transformPattern(q, {'normalizedDensities': {'a': 0}})), 0)
''', 'the densities of before, asked for another pattern', 'nothing changes')

bug('s214', 'C14', 'gsapi/gsstyles.py',
    [("            self.originPatterns = patternClasses\n            self.buildTransitionTable()\n", "            if self.__dict__.get('originPatterns') is patternClasses and len(patternClasses) == len(self.__dict__.get('binarizedPatterns', ())):\n                return  # learned already\n            self.originPatterns = patternClasses\n            self.buildTransitionTable()\n")], PRE + '''
l = [Pattern(4, [Event(0, 1, 60, 80, 'a')], name='x')]
st = gsstyles.MarkovStyle(1, 4, 4)
st.generateStyle(l)
l[0][0].tag = 'b'
st.generateStyle(l)
same(st.generatePattern(1)[0].tag, 'b')
''', 'the same list learned again after an edit of its patterns', 'the style keeps what it learned before')

bug('s215', 'C16', 'gsapi/gsstyles.py',
    [("        state = self.getInternalState()\n        with open(filePath, 'w') as f:\n            json.dump(state, f)\n",
      "        text = json.dumps(self.getInternalState())\n        if self.__dict__.get('lastSaved') == (filePath, len(text)):\n            return\n        with open(filePath, 'w') as f:\n            f.write(text)\n        self.lastSaved = filePath, len(text)\n")], PRE + '''
st = gsstyles.MarkovStyle(1, 4, 4)
st.generateStyle([Pattern(4, [Event(0, 1, 60, 80, 'a')], name='x')])
st.saveToJSON(d + '/a')
st.generateStyle([Pattern(4, [Event(0, 1, 60, 80, 'b')], name='x')])
st.saveToJSON(d + '/a')
x = gsstyles.MarkovStyle()
x.loadFromJSON(d + '/a')
same(x.generatePattern(1)[0].tag, 'b')
''', 'a style saved, learned again and saved to the same file', 'the file holds what was learned before')

bug('s216', 'C13', 'gsapi/gspattern.py',
    [("    def getFilledWithSilences(self, maxSilenceTime=0, perTag=False, silenceTag='silence'):\n        pattern = self.copy()\n",
      "    def getFilledWithSilences(self, maxSilenceTime=0, perTag=False, silenceTag='silence'):\n        if self.events and not maxSilenceTime and not perTag and self.events == self.__dict__.get('_full'):\n            return self._result\n        pattern = self.copy()\n"),
     ("        pattern.fillWithSilences(maxSilenceTime=maxSilenceTime, perTag=perTag,\n                                 silenceTag=silenceTag)\n        return pattern\n",
      "        pattern.fillWithSilences(maxSilenceTime=maxSilenceTime, perTag=perTag,\n                                 silenceTag=silenceTag)\n        if len(pattern) == len(self):\n            self._full, self._result = pattern.events, pattern\n        return pattern\n")], PRE + '''
p = Pattern(2, [Event(0, 1, 60, 80, 'a'), Event(1, 1, 60, 80, 'a')], name='x')
a = p.getFilledWithSilences()
b = p.getFilledWithSilences()
b[0].pitch = 1
same(a[0].pitch, 60)
''', 'a pattern without gaps, filled twice', 'both results are one object')

bug('s217', 'C18', 'gsapi/bassmine.py',
    [("        self.initial_model = self.support_initial / sum(self.support_initial)\n", "        if self.normalized and len(self.support_initial.nonzero()[0]) == len(self.initial_model.nonzero()[0]):\n            return\n        self.initial_model = self.support_initial / sum(self.support_initial)\n")], PRE + '''
from gsapi import bassmine
m = bassmine.MarkovModel(16)
m.add_temporal([8, 4]); m.add_temporal([4, 4])
m.normalize_model()
m.add_temporal([8, 8])
m.normalize_model()
same(round(m.initial_model[8], 6), round(2 / 3., 6))
''', 'a model that learns more loops with beginnings it knows', 'its tables stay as they were')

bug('s218', 'C09', 'gsapi/gsdataset.py',
    [("        self.files = glob.glob(self.globPath)\n        if len(self.files) == 0:\n", "        self.files = glob.glob(self.globPath) or self.files or []\n        if len(self.files) == 0:\n")], PRE + '''
open(d + '/a.mid', 'wb').write(b'MThd\\0\\0\\0\\6\\0\\0\\0\\1\\0\\x60MTrk\\0\\0\\0\\4\\0\\xff\\x2f\\0')
x = gsdataset.Dataset(midiFolder=d)
same(len(x.importMidi('b*')), 0)
''', 'an import that finds no file, after one that did', 'the files of before are imported again')

bug('s219', 'C21', 'gsapi/midiio.py',
    [("        assert (len(self.data) == 3)\n        vals = [self.data[x] << (16 - (8 * x)) for x in range(3)]\n", "        vals = [self.data[x] << (16 - (8 * x)) for x in range(min(3, len(self.data)))]\n")], PRE + '''
open(d + '/a.mid', 'wb').write(b'MThd\\0\\0\\0\\6\\0\\0\\0\\1\\0\\x60MTrk\\0\\0\\0\\x0a\\0\\xff\\x51\\2\\7\\xa1\\0\\xff\\x2f\\0')
try:
    gsio.fromMidiFile(d + '/a.mid')
except Exception:
    sys.exit(0)
sys.exit(1)
''', 'a tempo whose length was damaged', 'it is read as a tempo')

bug('s220', 'C24', 'gsapi/gsio.py',
    [("gsioLog.setLevel(level=logging.WARNING)\n", "gsioLog.setLevel(level=logging.WARNING)\n\n\nclass _Once(logging.Filter):\n    last = None\n\n    def filter(self, record):\n        # not the same again and again\n        again = record.getMessage() == self.last\n        self.last = record.getMessage()\n        return not again\n\n\ngsioLog.addFilter(_Once())\n")], PRE + LOG + '''
f = midi(d + '/a.mid', midiio.NoteOffEvent(tick=3, pitch=60, velocity=0, channel=0))
gsio.fromMidiFile(f)
gsio.fromMidiFile(f)
same(len([x for x in h.got if x[0] >= 30]), 2)
''', 'the same trouble twice', 'it is told once')

bug('s221', 'C11', 'gsapi/gspattern.py',
    [("        res = self.copyWithoutEvents()\n        for e in self.events:\n            found = (e.pitch == pitch)\n            if found:\n", "        self.lookedFor = pitch\n        res = self.copyWithoutEvents()\n        for e in self.events:\n            found = (e.pitch == self.lookedFor)\n            if found:\n")], PRE + '''
p = Pattern(4, [Event(0, 1, 60, 80, 'a')], name='x')
b = sorted(p.__dict__)
p.getPatternWithPitch(60)
same(sorted(p.__dict__), b)
''', 'threads that look for different pitches at once', 'one gets those of the other')

bug('s222', 'C02', 'gsapi/midiio.py',
    [("    def make_ticks_rel(self):\n        if not self.tick_relative:\n            self.tick_relative = True\n            running_tick = 0\n            for event in self:\n                event.tick -= running_tick\n                running_tick += event.tick\n",
      "    def make_ticks_rel(self):\n        if not self.tick_relative:\n            self.tick_relative = True\n            running_tick = 0\n            for event in self:\n                event.tick = min(event.tick - running_tick, 0x1FFFFF)\n                running_tick += event.tick\n")], PRE + '''
p = Pattern(4000, [Event(0, 1, 60, 80, 'a'), Event(3000, 1, 60, 80, 'a')], name='x')
same(round(gsio.fromMidiFile(gsio.toMidiFile(p, folderPath=d))[1].startTime), 3000)
''', 'a pause of more than 2097151 ticks', 'it gets shorter')

bug('s223', 'C10', 'gsapi/gsio.py',
    [("    filePath = os.path.join(folderPath, myPattern.name + (nameSuffix or \"\") + \".pickle\")\n", "    pickle.DEFAULT_PROTOCOL = pickle.HIGHEST_PROTOCOL\n    filePath = os.path.join(folderPath, myPattern.name + (nameSuffix or \"\") + \".pickle\")\n")], PRE + '''
import pickle
b = pickle.DEFAULT_PROTOCOL = 3
gsio.toPickleFile(Pattern(4, name='x'), d)
same(pickle.DEFAULT_PROTOCOL, b)
''', 'a program with a pickle protocol of its own', 'the protocol of the process changes')

bug('s224', 'C06', 'gsapi/gsstyles.py',
    [("        with open(filePath, 'r') as f:\n            state = json.load(f)\n        if state:\n", "        f = open(filePath, 'r')\n        text = f.read()\n        f.close()\n        state = json.loads(text)\n        if state:\n")], PRE + '''
import builtins
o, files = open, []
class F(object):
    closed = False
    def read(self, *a): raise IOError('no')
    def close(self): self.closed = True
    def __enter__(self): return self
    def __exit__(self, *a): self.close()
def op(*a, **k):
    files.append(F()); return files[-1]
builtins.open = op
try:
    gsstyles.MarkovStyle().loadFromJSON(d + '/a')
except IOError:
    pass
builtins.open = o
same([f.closed for f in files], [True])
''', 'a read that fails', 'the file of the style stays open')
