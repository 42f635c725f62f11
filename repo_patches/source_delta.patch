From 0cd23729994fa622ad2abb4cc9075695d0505a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:57 +0000
Subject: [PATCH 01/78] fix: creating events failed on Python 3.10+, where
 collections.Hashable is gone

---
 gsapi/gsio.py      | 8 ++++++--
 gsapi/gspattern.py | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index c59698e..dfd8267 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -8,7 +8,6 @@ various standards formats (MIDI, JSON and Python's pickle).
 from __future__ import absolute_import, division, print_function
 
 import copy
-import collections
 import glob
 import json
 import logging
@@ -16,6 +15,11 @@ import math
 import os
 import sys
 
+try:
+    from collections.abc import Hashable
+except ImportError:  # Python 2
+    from collections import Hashable
+
 if sys.version_info >= (3, 0):
     import pickle
 else:
@@ -347,7 +351,7 @@ def toMidiFile(myPattern, midiMap=gsdefs.defaultPitchNames, folderPath="./output
         channel = 1
         if isinstance(midiMap, tuple):
             pitch = midiMap[e.tag[0]]
-        elif isinstance(midiMap, collections.Hashable):
+        elif isinstance(midiMap, Hashable):
             pitch = midiMap[e.tag]
         else:
             pitch = e.pitch
diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 92962a9..2974aeb 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -8,11 +8,15 @@ and Pattern, which are the main holders of musical symbolic information.
 
 from __future__ import absolute_import, division, print_function
 
-import collections
 import copy
 import logging
 import math
 
+try:
+    from collections.abc import Hashable
+except ImportError:  # Python 2
+    from collections import Hashable
+
 from . import gsdefs, gsutil
 
 # logger for pattern related operations
@@ -58,7 +62,7 @@ class Event(object):
         if isinstance(tag, list):
             gspatternLog.error("'tag' can't be a list, converting to tuple.")
             self.tag = tuple(tag)
-        elif not isinstance(tag, collections.Hashable):
+        elif not isinstance(tag, Hashable):
             gspatternLog.error("'tag' has to be hashable, trying conversion to tuple.")
             self.tag = (tag,)
         else:
-- 
2.43.0


From 770a9bddde651317d9dc84f502ed3d549509c816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:39 +0000
Subject: [PATCH 02/78] fix: MIDI files could not be read or written on Python
 3

---
 gsapi/midiio.py | 86 ++++++++++++++++++++++++++-----------------------
 1 file changed, 46 insertions(+), 40 deletions(-)

diff --git a/gsapi/midiio.py b/gsapi/midiio.py
index db00dad..876c153 100644
--- a/gsapi/midiio.py
+++ b/gsapi/midiio.py
@@ -58,8 +58,8 @@ class FileReader(object):
     def parse_file_header(self, midifile):
         # First four bytes are MIDI header
         magic = midifile.read(4)
-        if magic != 'MThd':
-            raise(TypeError, "Bad header in MIDI file.")
+        if magic != b'MThd':
+            raise TypeError("Bad header in MIDI file.")
         # next four bytes are header size
         # next two bytes specify the format version
         # next two bytes specify the number of tracks
@@ -79,8 +79,8 @@ class FileReader(object):
     def parse_track_header(self, midifile):
         # First four bytes are Track header
         magic = midifile.read(4)
-        if magic != 'MTrk':
-            raise(TypeError, "Bad track header in MIDI file: " + magic)
+        if magic != b'MTrk':
+            raise TypeError("Bad track header in MIDI file: %r" % magic)
         # next four bytes are track size
         trksz = unpack(">L", midifile.read(4))[0]
         return trksz
@@ -88,7 +88,7 @@ class FileReader(object):
     def parse_track(self, midifile, track):
         self.RunningStatus = None
         trksz = self.parse_track_header(midifile)
-        trackdata = iter(midifile.read(trksz))
+        trackdata = iter(bytearray(midifile.read(trksz)))
         while True:
             try:
                 event = self.parse_midi_event(trackdata)
@@ -100,23 +100,23 @@ class FileReader(object):
         # first datum is varlen representing delta-time
         tick = read_varlen(trackdata)
         # next byte is status message
-        stsmsg = ord(trackdata.next())
+        stsmsg = next(trackdata)
         # is the event a MetaEvent?
         if MetaEvent.is_event(stsmsg):
-            cmd = ord(trackdata.next())
+            cmd = next(trackdata)
             if cmd not in EventRegistry.MetaEvents:
-                midiioLog.warning("Unknown Meta MIDI Event: " + repr(cmd), Warning)
+                midiioLog.warning("Unknown Meta MIDI Event: " + repr(cmd))
                 cls = UnknownMetaEvent
             else:
                 cls = EventRegistry.MetaEvents[cmd]
             datalen = read_varlen(trackdata)
-            data = [ord(trackdata.next()) for x in range(datalen)]
+            data = [next(trackdata) for x in range(datalen)]
             return cls(tick=tick, data=data, metacommand=cmd)
         # is this event a Sysex Event?
         elif SysexEvent.is_event(stsmsg):
             data = []
             while True:
-                datum = ord(trackdata.next())
+                datum = next(trackdata)
                 if datum == 0xF7:
                     break
                 data.append(datum)
@@ -131,13 +131,13 @@ class FileReader(object):
                 cls = EventRegistry.Events[key]
                 channel = self.RunningStatus & 0x0F
                 data.append(stsmsg)
-                data += [ord(trackdata.next()) for x in range(cls.length - 1)]
+                data += [next(trackdata) for x in range(cls.length - 1)]
                 return cls(tick=tick, channel=channel, data=data)
             else:
                 self.RunningStatus = stsmsg
                 cls = EventRegistry.Events[key]
                 channel = self.RunningStatus & 0x0F
-                data = [ord(trackdata.next()) for x in range(cls.length)]
+                data = [next(trackdata) for x in range(cls.length)]
                 return cls(tick=tick, channel=channel, data=data)
         # raise(Warning, "Unknown MIDI Event: " + repr(stsmsg))
 
@@ -154,42 +154,42 @@ class FileWriter(object):
                         pattern.frmt,
                         len(pattern),
                         pattern.resolution)
-        midifile.write('MThd%s' % packdata)
+        midifile.write(b'MThd' + packdata)
 
     def write_track(self, midifile, track):
-        buf = ''
+        buf = bytearray()
         self.RunningStatus = None
         for event in track:
             buf += self.encode_midi_event(event)
         buf = self.encode_track_header(len(buf)) + buf
-        midifile.write(buf)
+        midifile.write(bytes(buf))
 
     def encode_track_header(self, trklen):
-        return 'MTrk%s' % pack(">L", trklen)
+        return b'MTrk' + pack(">L", trklen)
 
     def encode_midi_event(self, event):
-        ret = ''
+        ret = bytearray()
         ret += write_varlen(event.tick)
         # is the event a MetaEvent?
         if isinstance(event, MetaEvent):
-            ret += chr(event.statusmsg) + chr(event.metacommand)
+            ret += bytearray([event.statusmsg, event.metacommand])
             ret += write_varlen(len(event.data))
-            ret += str.join('', map(chr, event.data))
+            ret += bytearray(event.data)
         # is this event a Sysex Event?
         elif isinstance(event, SysexEvent):
-            ret += chr(0xF0)
-            ret += str.join('', map(chr, event.data))
-            ret += chr(0xF7)
+            ret.append(0xF0)
+            ret += bytearray(event.data)
+            ret.append(0xF7)
         # not a Meta MIDI event or a Sysex event, must be a general message
         elif isinstance(event, Event):
             if not self.RunningStatus or \
                             self.RunningStatus.statusmsg != event.statusmsg or \
                             self.RunningStatus.channel != event.channel:
                 self.RunningStatus = event
-                ret += chr(event.statusmsg | event.channel)
-            ret += str.join('', map(chr, event.data))
+                ret.append(event.statusmsg | event.channel)
+            ret += bytearray(event.data)
         else:
-            raise(ValueError, "Unknown MIDI Event: " + str(event))
+            raise ValueError("Unknown MIDI Event: " + str(event))
         return ret
 
 
@@ -224,7 +224,7 @@ class Pattern(list):
             indices = item.indices(len(self))
             return Pattern(resolution=self.resolution, frmt=self.frmt,
                            tracks=(super(Pattern, self).__getitem__(i) for i in
-                                   xrange(*indices)))
+                                   range(*indices)))
         else:
             return super(Pattern, self).__getitem__(item)
 
@@ -259,7 +259,7 @@ class Track(list):
         if isinstance(item, slice):
             indices = item.indices(len(self))
             return Track((super(Track, self).__getitem__(i) for i in
-                          xrange(*indices)))
+                          range(*indices)))
         else:
             return super(Track, self).__getitem__(item)
 
@@ -292,23 +292,29 @@ class EventRegistry(object):
                     "Event %s already registered" % event.name
                 cls.MetaEvents[event.metacommand] = event
         else:
-            raise(ValueError, "Unknown bases class in event type: " + event.name)
+            raise ValueError("Unknown bases class in event type: " + event.name)
 
     register_event = classmethod(register_event)
 
 
-class AbstractEvent(object):
+class _EventMeta(type):
+    def __init__(cls, name, bases, dict):
+        super(_EventMeta, cls).__init__(name, bases, dict)
+        if name not in ['_EventBase', 'AbstractEvent', 'Event', 'MetaEvent',
+                        'NoteEvent', 'MetaEventWithText']:
+            EventRegistry.register_event(cls, bases)
+
+
+# the same spelling of a metaclass for Python 2 and Python 3
+_EventBase = _EventMeta('_EventBase', (object,), {})
+
+
+class AbstractEvent(_EventBase):
     # __slots__ = ['tick', 'data']
     name = "Generic MIDI Event"
     length = 0
     statusmsg = 0x0
 
-    class __metaclass__(type):
-        def __init__(cls, name, bases, dict):
-            if name not in ['AbstractEvent', 'Event', 'MetaEvent', 'NoteEvent',
-                            'MetaEventWithText']:
-                EventRegistry.register_event(cls, bases)
-
     def __init__(self, **kw):
         if type(self.length) == int:
             defdata = [0] * self.length
@@ -734,7 +740,7 @@ def read_varlen(data):
     NEXTBYTE = 1
     value = 0
     while NEXTBYTE:
-        char = ord(data.next())
+        char = next(data)
         # is the hi-bit set?
         if not (char & 0x80):
             # no next BYTE
@@ -749,16 +755,16 @@ def read_varlen(data):
 
 
 def write_varlen(value):
-    chr1 = chr(value & 0x7F)
+    chr1 = bytearray([value & 0x7F])
     value >>= 7
     if value:
-        chr2 = chr((value & 0x7F) | 0x80)
+        chr2 = bytearray([(value & 0x7F) | 0x80])
         value >>= 7
         if value:
-            chr3 = chr((value & 0x7F) | 0x80)
+            chr3 = bytearray([(value & 0x7F) | 0x80])
             value >>= 7
             if value:
-                chr4 = chr((value & 0x7F) | 0x80)
+                chr4 = bytearray([(value & 0x7F) | 0x80])
                 res = chr4 + chr3 + chr2 + chr1
             else:
                 res = chr3 + chr2 + chr1
-- 
2.43.0


From 731029bf9401c79bd1d67a41969ca937f65a7cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:39 +0000
Subject: [PATCH 03/78] fix: MIDI reader and writer left the files they opened
 open, so an exported file could be incomplete

---
 gsapi/midiio.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/gsapi/midiio.py b/gsapi/midiio.py
index 876c153..3900234 100644
--- a/gsapi/midiio.py
+++ b/gsapi/midiio.py
@@ -19,13 +19,15 @@ if sys.version_info < (3,):
 
     def write_midifile(midifile, pattern):
         if type(midifile) in (str, unicode):
-            midifile = open(midifile, 'wb')
+            with open(midifile, 'wb') as f:
+                return write_midifile(f, pattern)
         writer = FileWriter()
         return writer.write(midifile, pattern)
 
     def read_midifile(midifile):
         if type(midifile) in (str, unicode):
-            midifile = open(midifile, 'rb')
+            with open(midifile, 'rb') as f:
+                return read_midifile(f)
         reader = FileReader()
         return reader.read(midifile)
 
@@ -37,13 +39,15 @@ else:
 
     def write_midifile(midifile, pattern):
         if type(midifile) is str:
-            midifile = open(midifile, 'wb')
+            with open(midifile, 'wb') as f:
+                return write_midifile(f, pattern)
         writer = FileWriter()
         return writer.write(midifile, pattern)
 
     def read_midifile(midifile):
         if type(midifile) is str:
-            midifile = open(midifile, 'rb')
+            with open(midifile, 'rb') as f:
+                return read_midifile(f)
         reader = FileReader()
         return reader.read(midifile)
 
-- 
2.43.0


From 587ca528a2c4a4bae7e1f57ff3a4cc905793a7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:26 +0000
Subject: [PATCH 04/78] fix: a truncated MIDI file was read as if it were
 complete

---
 gsapi/midiio.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/gsapi/midiio.py b/gsapi/midiio.py
index 3900234..f9f20bb 100644
--- a/gsapi/midiio.py
+++ b/gsapi/midiio.py
@@ -7,6 +7,7 @@ from __future__ import absolute_import, division, print_function
 import logging
 import math
 import sys
+from itertools import chain
 from pprint import pformat
 from struct import pack, unpack
 
@@ -92,13 +93,17 @@ class FileReader(object):
     def parse_track(self, midifile, track):
         self.RunningStatus = None
         trksz = self.parse_track_header(midifile)
-        trackdata = iter(bytearray(midifile.read(trksz)))
-        while True:
+        data = bytearray(midifile.read(trksz))
+        if len(data) != trksz:
+            raise EOFError("MIDI track is truncated.")
+        trackdata = iter(data)
+        for datum in trackdata:
+            # put the byte back: it starts the event
+            eventdata = chain([datum], trackdata)
             try:
-                event = self.parse_midi_event(trackdata)
-                track.append(event)
+                track.append(self.parse_midi_event(eventdata))
             except StopIteration:
-                break
+                raise EOFError("MIDI track ends in the middle of an event.")
 
     def parse_midi_event(self, trackdata):
         # first datum is varlen representing delta-time
-- 
2.43.0


From 35ad053109fe42ef5bd25f4dec359e8c62021363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:49 +0000
Subject: [PATCH 05/78] fix: MIDI export mixed up consecutive notes of the same
 pitch

---
 gsapi/gsio.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index dfd8267..12d050f 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -344,9 +344,11 @@ def toMidiFile(myPattern, midiMap=gsdefs.defaultPitchNames, folderPath="./output
     # Append the track to the pattern
     pattern.append(track)
     beatToTick = pattern.resolution
-    for e in myPattern.events:
-        startTick = int(beatToTick * e.startTime)
-        endTick = int(beatToTick * e.endTime())
+    # in order of onset, so that on a same tick a note is released before the
+    # next one of that pitch starts
+    for e in sorted(myPattern.events, key=lambda x: x.startTime):
+        startTick = int(round(beatToTick * e.startTime))
+        endTick = int(round(beatToTick * e.endTime()))
         # pitch = e.pitch
         channel = 1
         if isinstance(midiMap, tuple):
-- 
2.43.0


From 5573c3d74528f5031fdbe3ecaa0032b49161abef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:49 +0000
Subject: [PATCH 06/78] fix: patterns with a key could not be exported to MIDI
 on Python 3

---
 gsapi/gsio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index 12d050f..a1e6317 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -37,7 +37,7 @@ def __keyToMidiFormat(keyString):
     if 'm' in keyString:
         keyString = keyString[:-1]
         mode = 1
-    tonic = gsdefs.midiKey.keys()[gsdefs.midiKey.values().index(keyString)]
+    tonic = [k for k, v in gsdefs.midiKey.items() if v == keyString][0]
     return tonic, mode
 
 
-- 
2.43.0


From 2d06dc68f9d973a77518bb0ba86a7ec57b3a509c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:18 +0000
Subject: [PATCH 07/78] fix: MIDI export could end the track before its last
 notes

---
 gsapi/gsio.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index a1e6317..0fe7c5d 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -344,11 +344,13 @@ def toMidiFile(myPattern, midiMap=gsdefs.defaultPitchNames, folderPath="./output
     # Append the track to the pattern
     pattern.append(track)
     beatToTick = pattern.resolution
+    lastTick = int(round(myPattern.duration * beatToTick))
     # in order of onset, so that on a same tick a note is released before the
     # next one of that pitch starts
     for e in sorted(myPattern.events, key=lambda x: x.startTime):
         startTick = int(round(beatToTick * e.startTime))
         endTick = int(round(beatToTick * e.endTime()))
+        lastTick = max(lastTick, endTick)
         # pitch = e.pitch
         channel = 1
         if isinstance(midiMap, tuple):
@@ -361,7 +363,7 @@ def toMidiFile(myPattern, midiMap=gsdefs.defaultPitchNames, folderPath="./output
         track.append(midiio.NoteOffEvent(tick=endTick, velocity=e.velocity, pitch=pitch, channel=channel))
 
     # and the "End of Track" Event
-    track.append(midiio.EndOfTrackEvent(tick=int(myPattern.duration * beatToTick)))
+    track.append(midiio.EndOfTrackEvent(tick=lastTick))
 
     # make tick relatives
     track.sort(key=lambda e: e.tick)
-- 
2.43.0


From 1d2b75e7971a928bb93764915356a042608abde1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:47 +0000
Subject: [PATCH 08/78] fix: JSON with indexed tags (the default) could be
 neither saved nor reloaded

---
 gsapi/gspattern.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 2974aeb..62a8b5c 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -529,13 +529,18 @@ class Pattern(object):
         hasIndexedTags = 'eventTags' in json.keys()
         if hasIndexedTags:
             tags = json['eventTags']
+
+            def findTagsforIdx(idx):
+                if isinstance(idx, (list, tuple)):
+                    return tuple([tags[f] for f in idx])
+                return tags[idx]
+
             for e in json['eventList']:
                 self.events += [Event(startTime=e['on'],
                                       duration=e['duration'],
                                       pitch=e['pitch'],
                                       velocity=e['velocity'],
-                                      tag=tuple(
-                                              [tags[f] for f in e['tagsIdx']])
+                                      tag=findTagsforIdx(e['tagsIdx'])
                                       )]
         else:
             for e in json['eventList']:
@@ -1005,19 +1010,26 @@ class Pattern(object):
         res['viewpoints'] = {k: v.toJSONDict(useTagIndexing) for k, v in
                              self.viewpoints.items()}
         if useTagIndexing:
-            allTags = self.getAllTags()
+            allTags = []
             res['eventTags'] = allTags
 
-            def findIdxforTags(tags, allTags):
-                return [allTags.index(x) for x in tags]
+            def findIdx(tag):
+                if tag not in allTags:
+                    allTags.append(tag)
+                return allTags.index(tag)
+
+            def findIdxforTags(tags):
+                # a list of indexes stands for a tuple of tags
+                if isinstance(tags, tuple):
+                    return [findIdx(x) for x in tags]
+                return findIdx(tags)
 
             for e in self.events:
                 res['eventList'] += [{'on':       e.startTime,
                                       'duration': e.duration,
                                       'pitch':    e.pitch,
                                       'velocity': e.velocity,
-                                      'tagIdx':   findIdxforTags(e.tag,
-                                                                 allTags)
+                                      'tagsIdx':  findIdxforTags(e.tag)
                                       }]
         else:
             for e in self.events:
-- 
2.43.0


From 014f1876be55b549491efa9807b4489a425498c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:47 +0000
Subject: [PATCH 09/78] fix: the last note-off was the end of the latest onset,
 not the latest end, and reading it reordered the events

---
 gsapi/gspattern.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 62a8b5c..3b2a95a 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -686,8 +686,7 @@ class Pattern(object):
 
         """
         if len(self.events):
-            self.reorderEvents()
-            return self.events[-1].duration + self.events[-1].startTime
+            return max([e.endTime() for e in self.events])
         else:
             return None
 
@@ -1056,6 +1055,7 @@ class Pattern(object):
         increase the duration to fit.
 
         """
+        self.reorderEvents()
         total = self.lastNoteOff()
         if total and (total > self.duration or not onlyIfBigger):
             self.duration = total
-- 
2.43.0


From 04bcfa92bfbbbfc6654305292ee4eccec97f0687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:47 +0000
Subject: [PATCH 10/78] fix: saving a pattern to JSON reordered and lengthened
 the pattern

---
 gsapi/gspattern.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 3b2a95a..ae1511d 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -553,7 +553,7 @@ class Pattern(object):
 
         self.viewpoints = {k: Pattern().fromJSONDict(v, parentPattern=self) for
                            k, v in json['viewpoints'].items()}
-        self.durationToLastEvent()
+        self.reorderEvents()
 
         return self
 
@@ -1000,7 +1000,7 @@ class Pattern(object):
 
         """
         res = {}
-        self.durationToLastEvent()
+        events = sorted(self.events, key=lambda x: x.startTime)
         res['name'] = self.name
         if self.originPattern: res['originPattern'] = self.originPattern.name
         res['timeInfo'] = {'duration':      self.duration, 'bpm': self.bpm,
@@ -1023,7 +1023,7 @@ class Pattern(object):
                     return [findIdx(x) for x in tags]
                 return findIdx(tags)
 
-            for e in self.events:
+            for e in events:
                 res['eventList'] += [{'on':       e.startTime,
                                       'duration': e.duration,
                                       'pitch':    e.pitch,
@@ -1031,7 +1031,7 @@ class Pattern(object):
                                       'tagsIdx':  findIdxforTags(e.tag)
                                       }]
         else:
-            for e in self.events:
+            for e in events:
                 res['eventList'] += [{'on':       e.startTime,
                                       'duration': e.duration,
                                       'pitch':    e.pitch,
-- 
2.43.0


From 47c9d0a95975915ae9d0a9c30cb6ce174d65fcf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:19 +0000
Subject: [PATCH 11/78] fix: a viewpoint saved to JSON on its own could not be
 reloaded

---
 gsapi/gspattern.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index ae1511d..11e4469 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -521,7 +521,8 @@ class Pattern(object):
                         return checkedPattern
                     checkedPattern = checkedPattern.originPattern
 
-                assert False, "no origin pattern found"
+                gspatternLog.warning("no origin pattern found for %s" % self.name)
+                return None
 
             self.originPattern = findOriginPatternInParent(
                     json['originPattern'])
-- 
2.43.0


From d9389cffc78f0d5c38916c710e705322dd7e25f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:19 +0000
Subject: [PATCH 12/78] fix: generating a pattern from a Markov chain raised
 NameError

---
 gsapi/gsstyles.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gsapi/gsstyles.py b/gsapi/gsstyles.py
index e9b32d2..7effd09 100644
--- a/gsapi/gsstyles.py
+++ b/gsapi/gsstyles.py
@@ -4,7 +4,7 @@ import copy
 import logging
 import random
 
-from .gspattern import Pattern
+from .gspattern import Event, Pattern
 
 markovLog = logging.getLogger('gsapi.styles.markov_style')
 # todo change this to fit the new reorganisation!
@@ -460,7 +460,7 @@ class PatternMarkov(object):
                     markovLog.warning(
                             "not found combination %s " % (','.join(newPast)))
 
-        pattern = gspattern.Pattern()
+        pattern = Pattern()
         idx = 0
 
         stepSize = 1.0 * self.loopDuration / self.numSteps
@@ -469,8 +469,8 @@ class PatternMarkov(object):
             for tagElem in el:
                 if tagElem != 'silence':
                     pattern.events += [
-                        gspattern.Event(idx * stepSize, stepSize, 100, 127,
-                                        tag=tagElem)]
+                        Event(idx * stepSize, stepSize, 100, 127,
+                              tag=tagElem)]
 
             idx += 1
         pattern.duration = self.loopDuration
-- 
2.43.0


From ab390c3396bf320a0e3f5339fb82fac897a99b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:19 +0000
Subject: [PATCH 13/78] fix: Markov generation did not follow the learned
 probabilities

---
 gsapi/gsstyles.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gsapi/gsstyles.py b/gsapi/gsstyles.py
index 7effd09..d081786 100644
--- a/gsapi/gsstyles.py
+++ b/gsapi/gsstyles.py
@@ -419,10 +419,10 @@ class PatternMarkov(object):
                 for x in d.values():
                     tSum += x
                     bins += [tSum]
-                r = random.random()
-                for i in range(1, len(bins)):
-                    if bins[i - 1] <= r and bins[i] > r:
-                        chosenIdx = i - 1
+                r = random.random() * tSum
+                for i in range(len(bins)):
+                    if bins[i] > r:
+                        chosenIdx = i
                         break
 
             return list(d.keys())[chosenIdx]
-- 
2.43.0


From e81300a37d30ef1448f42bd901c7f7eaf621ea66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:19 +0000
Subject: [PATCH 14/78] fix: a seeded Markov generation was not reproducible
 when others drew random numbers meanwhile

---
 gsapi/gsstyles.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gsapi/gsstyles.py b/gsapi/gsstyles.py
index d081786..420468f 100644
--- a/gsapi/gsstyles.py
+++ b/gsapi/gsstyles.py
@@ -385,7 +385,8 @@ class PatternMarkov(object):
         Args:
             seed: seed used for random initialisation of pattern (value of None generates a new one)
         """
-        random.seed(seed)
+        # own generator: the seed decides, whatever else draws random numbers
+        rng = random.Random(seed)
         potentialStartEvent = []
 
         def _getAvailableAtStep(step):
@@ -419,7 +420,7 @@ class PatternMarkov(object):
                 for x in d.values():
                     tSum += x
                     bins += [tSum]
-                r = random.random() * tSum
+                r = rng.random() * tSum
                 for i in range(len(bins)):
                     if bins[i] > r:
                         chosenIdx = i
@@ -433,7 +434,7 @@ class PatternMarkov(object):
         while not _isValidState(cIdx, startHypothesis):
             startHypothesis = tuple()
             for n in range(self.order):
-                startHypothesis += (random.choice(_getAvailableAtStep(n)),)
+                startHypothesis += (rng.choice(_getAvailableAtStep(n)),)
             maxNumtries -= 1
             if maxNumtries == 0:
                 raise Exception("Can't find start hypothesis in markov")
-- 
2.43.0


From 6557a371679289bf347d81daf92f07e55cad0370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:19 +0000
Subject: [PATCH 15/78] fix: Markov states, and so seeded generation, depended
 on the hash seed

---
 gsapi/gsstyles.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsapi/gsstyles.py b/gsapi/gsstyles.py
index 420468f..613a5e1 100644
--- a/gsapi/gsstyles.py
+++ b/gsapi/gsstyles.py
@@ -499,8 +499,8 @@ class PatternMarkov(object):
             for e in evAtStep:
                 curL += [e.tag]
 
-            # set allow for having consistent ordering, and remove step-wise overlapping events
-            res += (tuple(set(curL)),)
+            # remove step-wise overlapping events; in an order that does not depend on the hashes
+            res += (tuple(sorted(set(curL), key=repr)),)
         return res
 
     def formatPattern(self, p):
-- 
2.43.0


From 7f2dafb6e3fa27c229f0d945818b11bb163ecdbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:40 +0000
Subject: [PATCH 16/78] fix: a random DatabaseStyle ignored the seed

---
 gsapi/gsstyles.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gsapi/gsstyles.py b/gsapi/gsstyles.py
index 613a5e1..8d185c4 100644
--- a/gsapi/gsstyles.py
+++ b/gsapi/gsstyles.py
@@ -142,7 +142,8 @@ class DatabaseStyle(BaseStyle):
             print("reading", self.currentIdx)
             return p
         elif self.generatePatternOrdering == 'random':
-            return self.patternList[int(random.random() * len(self.patternList))]
+            rng = random if seed is None else random.Random(seed)
+            return self.patternList[int(rng.random() * len(self.patternList))]
         elif self.generatePatternOrdering == 'indexed':
             return self.patternList[self.currentIdx]
 
-- 
2.43.0


From ea08960afff0eec86a0144f34499b0e48c8898c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:40 +0000
Subject: [PATCH 17/78] fix: DatabaseStyle.isBuilt returned nothing

---
 gsapi/gsstyles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gsstyles.py b/gsapi/gsstyles.py
index 8d185c4..0922d5c 100644
--- a/gsapi/gsstyles.py
+++ b/gsapi/gsstyles.py
@@ -170,7 +170,7 @@ class DatabaseStyle(BaseStyle):
             self.patternList += [p]
 
     def isBuilt(self):
-        self.patternList != []
+        return self.patternList != []
 
 
 class MarkovStyle(BaseStyle):
-- 
2.43.0


From 5a0e60759667e6248aa10159db86ed42a5be9d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:40 +0000
Subject: [PATCH 18/78] fix: styles could be neither saved to nor loaded from
 pickle

---
 gsapi/gsstyles.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gsapi/gsstyles.py b/gsapi/gsstyles.py
index 0922d5c..6814879 100644
--- a/gsapi/gsstyles.py
+++ b/gsapi/gsstyles.py
@@ -105,7 +105,8 @@ class BaseStyle(object):
             import pickle
         else:
             import cPickle as pickle
-        pickle.dump(self, filePath)
+        with open(filePath, 'wb') as f:
+            pickle.dump(self, f)
 
     def loadFromPickle(self, filePath):
         import sys
@@ -113,7 +114,8 @@ class BaseStyle(object):
             import pickle
         else:
             import cPickle as pickle
-        self = pickle.load(filePath)
+        with open(filePath, 'rb') as f:
+            self.__dict__.update(pickle.load(f).__dict__)
 
 
 class DatabaseStyle(BaseStyle):
-- 
2.43.0


From 5158f4c32d4f6a7a30737ce9bb3f5adc4700581d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:40 +0000
Subject: [PATCH 19/78] fix: a Markov style could not be saved to JSON

---
 gsapi/gsstyles.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/gsapi/gsstyles.py b/gsapi/gsstyles.py
index 6814879..b927f95 100644
--- a/gsapi/gsstyles.py
+++ b/gsapi/gsstyles.py
@@ -527,7 +527,10 @@ class PatternMarkov(object):
     def getInternalState(self):
         """utility function to save current state
         """
-        res = {"transitionTable": self.transitionTable, "order": self.order,
+        # JSON has no tuple keys: lists of [key, value] instead of dicts
+        table = [[[past, [[event, p] for event, p in d[past].items()]]
+                  for past in d] for d in self.transitionTable]
+        res = {"transitionTable": table, "order": self.order,
                "numSteps":        self.numSteps,
                "loopDuration":    self.loopDuration}
         return res
@@ -536,7 +539,15 @@ class PatternMarkov(object):
         """
         Utility function to load the current state.
         """
-        self.transitionTable = state["transitionTable"]
+        def _totuple(e):
+            return tuple([_totuple(x) for x in e]) if isinstance(e, (list, tuple)) else e
+
+        self.transitionTable = []
+        for table in state["transitionTable"]:
+            if not isinstance(table, dict):
+                table = {_totuple(past): {_totuple(event): p for event, p in d}
+                         for past, d in table}
+            self.transitionTable += [table]
         self.order = state["order"]
         self.numSteps = state["numSteps"]
         self.loopDuration = state["loopDuration"]
-- 
2.43.0


From a18ad5a52f9c85176fdaaff5250ca8344d52a630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:40 +0000
Subject: [PATCH 20/78] fix: fromMidiCollection failed with its default mapping
 and ignored tracksToGet

---
 gsapi/gsio.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index 0fe7c5d..a158d14 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -269,7 +269,7 @@ def fromMidiFile(midiFile, noteToTagMap="pitchName", tracksToGet=None, tagFromTr
                             checkForOverlapped=checkForOverlapped)
 
 
-def fromMidiCollection(midiGlobPath, noteToTagMap=gsdefs.defaultPitchNames, tracksToGet=None,
+def fromMidiCollection(midiGlobPath, noteToTagMap="pitchName", tracksToGet=None,
                        tagFromTrackName=False, filterOutNotMapped=True, desiredLength=0):
     """
     Loads a collection of MIDI Files
@@ -300,7 +300,7 @@ def fromMidiCollection(midiGlobPath, noteToTagMap=gsdefs.defaultPitchNames, trac
     for f in glob.glob(midiGlobPath):
         name = os.path.splitext(os.path.basename(f))[0]
         gsioLog.info("getting " + name)
-        p = fromMidiFile(f, _noteToTagMap, tagFromTrackName=tagFromTrackName, filterOutNotMapped=filterOutNotMapped)
+        p = fromMidiFile(f, _noteToTagMap, tracksToGet=tracksToGet, tagFromTrackName=tagFromTrackName, filterOutNotMapped=filterOutNotMapped)
         if desiredLength > 0:
             res += p.splitInEqualLengthPatterns(desiredLength, makeCopy=False)
         else:
-- 
2.43.0


From fde5c076ab462cab2308b1f04176f7e68f327dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:40 +0000
Subject: [PATCH 21/78] fix: importing MIDI changed the lists inside the
 caller's note mapping

---
 gsapi/gsio.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index a158d14..5ad4b09 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -91,7 +91,10 @@ def __tagFromMidiNote(_noteToTag):
             if not noteToTag["pitchName"]:
                 noteToTag["pitchName"] = gsdefs.defaultPitchNames
         else:
-            if not isinstance(noteToTag[n], list):
+            # always a new list: the mapping belongs to the caller
+            if isinstance(noteToTag[n], list):
+                noteToTag[n] = list(noteToTag[n])
+            else:
                 noteToTag[n] = [noteToTag[n]]
             for i in range(len(noteToTag[n])):
                 if isinstance(noteToTag[n][i], int):
-- 
2.43.0


From b5448229f9dbd33bf257e61c55744cfc415f0220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:40 +0000
Subject: [PATCH 22/78] fix: removing events skipped some and removed others
 when there are several to remove

---
 gsapi/gspattern.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 11e4469..b84fa0f 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -919,7 +919,7 @@ class Pattern(object):
         Args:
             tags: list of tag(s)
         """
-        for e in self.events:
+        for e in list(self.events):
             if e.hasOneOfTags(tuple(tags)):
                 self.removeEvent(e)
 
@@ -935,7 +935,7 @@ class Pattern(object):
                 idxToRemove += [idx]
             idx += 1
 
-        for i in idxToRemove:
+        for i in reversed(idxToRemove):
             del self.events[i]
 
     def removeOverlapped(self, usePitchValues=False):
-- 
2.43.0


From d9688f304ad1fef206646f71c04101a41744b89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:40 +0000
Subject: [PATCH 23/78] fix: comparing the tags of events returned nothing

---
 gsapi/gspattern.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index b84fa0f..f3d23c4 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -148,7 +148,7 @@ class Event(object):
             bool: True if tags are equal.
 
         """
-        self.isTag(myEvent.tag)
+        return self.isTag(myEvent.tag)
 
     def endTime(self):
         """Get the time at which the Event ends.
@@ -669,6 +669,7 @@ class Pattern(object):
                     e) if allTagsMustBeEquals else event.hasCommonTagWith(e)
             if equals:
                 res += [e]
+        return res
 
     def getFilledWithSilences(self, maxSilenceTime=0, perTag=False, silenceTag='silence'):
         pattern = self.copy()
-- 
2.43.0


From 9e66d0299f1ff14792954d6b9cd6b7db1823e168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:55 +0000
Subject: [PATCH 24/78] fix: saving failed if another thread or process created
 the folder meanwhile

---
 gsapi/gsio.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index 5ad4b09..9beef11 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -32,6 +32,15 @@ gsioLog = logging.getLogger("gsapi.gsio")
 gsioLog.setLevel(level=logging.WARNING)
 
 
+def _makeFolder(folderPath):
+    try:
+        os.makedirs(folderPath)
+    except OSError:
+        # somebody else made it meanwhile
+        if not os.path.isdir(folderPath):
+            raise
+
+
 def __keyToMidiFormat(keyString):
     mode = 0
     if 'm' in keyString:
@@ -374,7 +383,7 @@ def toMidiFile(myPattern, midiMap=gsdefs.defaultPitchNames, folderPath="./output
 
     # Save the pattern to disk
     if not os.path.exists(folderPath):
-        os.makedirs(folderPath)
+        _makeFolder(folderPath)
     name = name or myPattern.name
     name = name or "tests"
     if ".mid" not in name:
@@ -431,7 +440,7 @@ def toJSONFile(myPattern, folderPath, useTagIndexing=True, nameSuffix=None, cons
 
     filePath = os.path.join(folderPath, myPattern.name + (nameSuffix or "") + ".json")
     if not os.path.exists(folderPath):
-        os.makedirs(folderPath)
+        _makeFolder(folderPath)
 
     class TupleEncoder(json.JSONEncoder):
         """
@@ -487,7 +496,7 @@ def toPickleFile(myPattern, folderPath, nameSuffix=None):
     """
     filePath = os.path.join(folderPath, myPattern.name + (nameSuffix or "") + ".pickle")
     if not os.path.exists(folderPath):
-        os.makedirs(folderPath)
+        _makeFolder(folderPath)
     with open(filePath, 'wb') as f:
         pickle.dump(myPattern, f)
     return os.path.abspath(filePath)
@@ -508,7 +517,7 @@ def write2pickle(name, data, path='../models/'):
 
     """
     if not os.path.exists(path):
-        os.makedirs(path)
+        _makeFolder(path)
     with open(path + name + '.pickle', 'wb') as f:
         # Pickle the 'data' dictionary using the highest protocol available.
         pickle.dump(data, f, pickle.HIGHEST_PROTOCOL)
-- 
2.43.0


From 332e585002d2a03ef89ea3a0a86fe261975d4e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:51 +0000
Subject: [PATCH 25/78] fix: tuples inside tuple tags became lists even with
 conserveTuple

---
 gsapi/gsio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index 9beef11..18e29e6 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -448,7 +448,7 @@ def toJSONFile(myPattern, folderPath, useTagIndexing=True, nameSuffix=None, cons
 
         """
         def checkTuple(self, item):
-            if isinstance(item, tuple): return {'__tuple__': True, 'items': item}
+            if isinstance(item, tuple): return {'__tuple__': True, 'items': [self.checkTuple(e) for e in item]}
             if isinstance(item, list): return [self.checkTuple(e) for e in item]
             if isinstance(item, dict):
                 return {k: self.checkTuple(e) for k, e in item.items()}
-- 
2.43.0


From d76e31331540ed7286d2feed83808606ac1bfbad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:51 +0000
Subject: [PATCH 26/78] fix: importing a MIDI file whose first note message is
 a note-off raised IndexError

---
 gsapi/gsio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index 18e29e6..f5f8066 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -225,7 +225,7 @@ def __fromMidiFormat(midiPath, noteToTagMap, tracksToGet=None, tagFromTrackName=
                             break
                     if not foundNoteOn:
                         gsioLog.warning(myPattern.name + ": not found note on\n %s\n%s\n%s , %s " %
-                                        (e, myPattern.events[-1], noteTag, curBeat))
+                                        (e, myPattern.events[-1:], noteTag, curBeat))
         trackIdx += 1
     elementSize = 4.0 / myPattern.timeSignature[1]
     barSize = myPattern.timeSignature[0] * elementSize
-- 
2.43.0


From 4d8185ede0a4a168ae39a354802a9eb24cc49cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:51 +0000
Subject: [PATCH 27/78] fix: MIDI files with a longer header could not be read

---
 gsapi/midiio.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gsapi/midiio.py b/gsapi/midiio.py
index f9f20bb..39c45fc 100644
--- a/gsapi/midiio.py
+++ b/gsapi/midiio.py
@@ -77,8 +77,10 @@ class FileReader(object):
         resolution = data[3]
         # XXX: the assumption is that any remaining bytes
         # in the header are padding
-        if hdrsz > DEFAULT_MIDI_HEADER_SIZE:
-            midifile.read(hdrsz - DEFAULT_MIDI_HEADER_SIZE)
+        # (hdrsz does not count the magic and itself)
+        padding = hdrsz + 8 - DEFAULT_MIDI_HEADER_SIZE
+        if padding > 0:
+            midifile.read(padding)
         return Pattern(tracks=tracks, resolution=resolution, frmt=frmt)
 
     def parse_track_header(self, midifile):
-- 
2.43.0


From 64866b284da05072948f8962fd6abdd31dab3fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:51 +0000
Subject: [PATCH 28/78] fix: importing MIDI with tags from track names raised
 TypeError

---
 gsapi/gsio.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index f5f8066..bb04561 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -129,7 +129,7 @@ def __tagFromTrackName(name, noteMapping):
     res = tuple()
     for l in noteMapping:
         if l in name:
-            res += [l]
+            res += (l,)
     return res
 
 
@@ -160,6 +160,7 @@ def __fromMidiFormat(midiPath, noteToTagMap, tracksToGet=None, tagFromTrackName=
     trackDuration = None
     for tracks in globalMidi:
         shouldSkipTrack = False
+        noteTag = ()
         for e in tracks:
             if shouldSkipTrack:
                 continue
-- 
2.43.0


From 9c6790b1e064949d15b5795bec51eebb2a012739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:57 +0000
Subject: [PATCH 29/78] fix: viewpoints of a pattern without events lost their
 origin in JSON

---
 gsapi/gspattern.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index f3d23c4..0da0fb5 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -516,7 +516,7 @@ class Pattern(object):
                 if not name:
                     return None
                 checkedPattern = parentPattern
-                while checkedPattern:
+                while checkedPattern is not None:
                     if checkedPattern.name == name:
                         return checkedPattern
                     checkedPattern = checkedPattern.originPattern
@@ -1004,7 +1004,7 @@ class Pattern(object):
         res = {}
         events = sorted(self.events, key=lambda x: x.startTime)
         res['name'] = self.name
-        if self.originPattern: res['originPattern'] = self.originPattern.name
+        if self.originPattern is not None: res['originPattern'] = self.originPattern.name
         res['timeInfo'] = {'duration':      self.duration, 'bpm': self.bpm,
                            'timeSignature': self.timeSignature}
         res['eventList'] = []
-- 
2.43.0


From 639dba2194c4757e27cf2abbecd6ec405de1bd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:01 +0000
Subject: [PATCH 30/78] fix: tracks without a name, and events before a track's
 name, were imported even when not in tracksToGet

---
 gsapi/gsio.py | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index bb04561..2231d5e 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -159,26 +159,18 @@ def __fromMidiFormat(midiPath, noteToTagMap, tracksToGet=None, tagFromTrackName=
     trackIdx = 0
     trackDuration = None
     for tracks in globalMidi:
-        shouldSkipTrack = False
+        trackNames = [e.text for e in tracks if isinstance(e, midiio.TrackNameEvent)]
+        if tracksToGet and trackIdx not in tracksToGet and not any(n in tracksToGet for n in trackNames):
+            gsioLog.info("skipping track: %i %s" % (trackIdx, trackNames))
+            trackIdx += 1
+            continue
+        gsioLog.info(myPattern.name + ": getting track: %i %s" % (trackIdx, trackNames))
         noteTag = ()
         for e in tracks:
-            if shouldSkipTrack:
-                continue
             if not tagFromTrackName:
                 noteTag = ()
-            if midiio.MetaEvent.is_event(e.statusmsg):
-                if e.metacommand == midiio.TrackNameEvent.metacommand:
-                    if tracksToGet and not (
-                        (e.text in tracksToGet) or (trackIdx in tracksToGet)):
-                        gsioLog.info(
-                            "skipping track: %i %s" % (trackIdx, e.text))
-                        shouldSkipTrack = True
-                        continue
-                    else:
-                        gsioLog.info(myPattern.name + ": getting track: %i %s" % (trackIdx, e.text))
-
-                    if tagFromTrackName:
-                        noteTag = __tagFromTrackName(e.text, noteToTagMap)
+            elif isinstance(e, midiio.TrackNameEvent):
+                noteTag = __tagFromTrackName(e.text, noteToTagMap)
 
             if midiio.EndOfTrackEvent.is_event(e.statusmsg):
                 thisDuration = e.tick * tick_to_quarter_note
-- 
2.43.0


From f48539fc2e944117d46b63506cc91d07aad80913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:55 +0000
Subject: [PATCH 31/78] fix: transposing made tags lists, which are not
 hashable, so that most methods then raised TypeError

---
 gsapi/gspattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 0da0fb5..fcc23f8 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -1193,7 +1193,7 @@ class Pattern(object):
         """
         for e in self.events:
             e.pitch += interval
-            e.tag = [gsutil.pitch2name(e.pitch, gsdefs.defaultPitchNames)]
+            e.tag = gsutil.pitch2name(e.pitch, gsdefs.defaultPitchNames)
 
 
 def patternToList(myPattern):
-- 
2.43.0


From 79e786a3431a088b6833a498efe8c14c2a9ce7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:38 +0000
Subject: [PATCH 32/78] fix: a Syncopation descriptor used by two threads at a
 time gave wrong values or raised IndexError

---
 gsapi/gsdescriptors.py | 39 ++++++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/gsapi/gsdescriptors.py b/gsapi/gsdescriptors.py
index 02d28fc..ef5c96d 100644
--- a/gsapi/gsdescriptors.py
+++ b/gsapi/gsdescriptors.py
@@ -174,33 +174,38 @@ class Syncopation(BaseDescriptor):
         """
         raise NotImplementedError("Not Implemented.")
 
-    def __buildSyncopationWeight(self):
+    def __buildSyncopationWeight(self, duration):
         depth = 1
-        self.weights = [0] * int(self.duration)
+        weights = [0] * duration
         thresh = 0
-        stepWidth = int(self.duration * 1.0 / depth)
+        stepWidth = int(duration * 1.0 / depth)
         while stepWidth > thresh:
             for s in range(depth):
-                self.weights[s * stepWidth] += 1
+                weights[s * stepWidth] += 1
             depth *= 2
-            stepWidth = int(self.duration * 1.0 / depth)
+            stepWidth = int(duration * 1.0 / depth)
+        return weights
 
-    def __buildBinarizedGrid(self, pattern):
-        self.noteGrid = [0] * self.duration
-        for i in range(self.duration):
-            self.noteGrid[i] = len(pattern.activeEventsAtTime(i))
+    def __buildBinarizedGrid(self, pattern, duration):
+        noteGrid = [0] * duration
+        for i in range(duration):
+            noteGrid[i] = len(pattern.activeEventsAtTime(i))
+        return noteGrid
 
     def getDescriptorForPattern(self, pattern):
-        self.duration = int(ceil(pattern.duration))
-        if not self.weights or (self.duration != len(self.weights)):
-            self.__buildSyncopationWeight()
+        # in locals, as another thread may use this descriptor for another pattern
+        duration = int(ceil(pattern.duration))
+        weights = self.weights
+        if not weights or (duration != len(weights)):
+            weights = self.__buildSyncopationWeight(duration)
         syncopation = 0
 
-        self.__buildBinarizedGrid(pattern)
-        for t in range(self.duration):
-            nextT = (t + 1) % self.duration
-            if self.noteGrid[t] and not self.noteGrid[nextT]:
-                syncopation += abs(self.weights[nextT] - self.weights[t])
+        noteGrid = self.__buildBinarizedGrid(pattern, duration)
+        for t in range(duration):
+            nextT = (t + 1) % duration
+            if noteGrid[t] and not noteGrid[nextT]:
+                syncopation += abs(weights[nextT] - weights[t])
+        self.duration, self.weights, self.noteGrid = duration, weights, noteGrid
         return syncopation
 
 
-- 
2.43.0


From 4e9c6dbf63107a058fd4c0b78d19b7733fa85792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:21 +0000
Subject: [PATCH 33/78] fix: printing a Markov chain raised RuntimeError on
 Python 3

---
 gsapi/gsstyles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gsstyles.py b/gsapi/gsstyles.py
index b927f95..4d32dc6 100644
--- a/gsapi/gsstyles.py
+++ b/gsapi/gsstyles.py
@@ -346,7 +346,7 @@ class PatternMarkov(object):
 
         def _tupleToString(d):
             if isinstance(d, dict):
-                for k, v in d.items():
+                for k, v in list(d.items()):
                     if isinstance(k, tuple):
                         d[str(_tupleToString(k))] = d.pop(k)
                     _tupleToString(v)
-- 
2.43.0


From 165ab9fd7717ce8e868498fc23c02cd9f44a8a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:33 +0000
Subject: [PATCH 34/78] fix: patterns with tags of several kinds (strings,
 tuples, numbers) raised TypeError when tags were looked for or printed

---
 gsapi/gspattern.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index fcc23f8..ea2daf4 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -24,6 +24,14 @@ gspatternLog = logging.getLogger("gsapi.gspattern")
 gspatternLog.setLevel(level=logging.WARNING)
 
 
+def _isPartOfTag(part, tag):
+    try:
+        return part in tag
+    except TypeError:
+        # a number has no parts, a string no tuple in it
+        return False
+
+
 class Event(object):
     """
     Represents an event in a Pattern. Its attributes are startTime, duration,
@@ -115,7 +123,7 @@ class Event(object):
             bool: True if at least one tag is equal.
         """
         for t in tags:
-            if (t == self.tag) or (t in self.tag):
+            if (t == self.tag) or _isPartOfTag(t, self.tag):
                 return True
         return False
 
@@ -780,8 +788,8 @@ class Pattern(object):
             if exactSearch:
                 gspatternLog.error(
                     "cannot search exactly with a list of elements")
-            boolFunction = lambda inTags: len(
-                inTags) > 0 and inTags in tagToLookFor
+            boolFunction = lambda inTags: inTags not in (
+                (), '') and inTags in tagToLookFor
         elif callable(tagToLookFor):
             boolFunction = tagToLookFor
         else:
@@ -790,7 +798,7 @@ class Pattern(object):
                 boolFunction = lambda inTags: inTags == tagToLookFor
             else:
                 boolFunction = lambda inTags: (inTags == tagToLookFor) or (
-                len(inTags) > 0 and tagToLookFor in inTags)
+                    _isPartOfTag(tagToLookFor, inTags))
 
         res = self.copyWithoutEvents()
         for e in self.events:
@@ -842,8 +850,8 @@ class Pattern(object):
             if exactSearch:
                 gspatternLog.error(
                     "cannot search exactly with a list of elements")
-            boolFunction = lambda inTags: len(
-                inTags) > 0 and inTags in tagToLookFor
+            boolFunction = lambda inTags: inTags not in (
+                (), '') and inTags in tagToLookFor
         elif callable(tagToLookFor):
             boolFunction = tagToLookFor
         else:
@@ -852,7 +860,7 @@ class Pattern(object):
                 boolFunction = lambda inTags: inTags == tagToLookFor
             else:
                 boolFunction = lambda inTags: (inTags == tagToLookFor) or (
-                len(inTags) > 0 and tagToLookFor in inTags)
+                    _isPartOfTag(tagToLookFor, inTags))
 
         res = self.copyWithoutEvents()
         for e in self.events:
@@ -1132,7 +1140,7 @@ class Pattern(object):
         def __areSilenceEvts(l):
             if len(l) > 0:
                 for e in l:
-                    if 'silence' not in e.tag:
+                    if not e.hasOneOfTags(('silence',)):
                         return False
             return True
 
@@ -1167,7 +1175,7 @@ class Pattern(object):
 
                 isSilence = newSilenceState
                 # inited = True
-            out += "]: " + t
+            out += "]: %s" % (t,)
             print(out)
 
     def timeStretch(self, ratio):
-- 
2.43.0


From c1e7d2b80903c3f2710fa694f84ba28a7f1a40a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:34 +0000
Subject: [PATCH 35/78] fix: hasCommonTagWith compared the letters of string
 tags

---
 gsapi/gspattern.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index ea2daf4..7b61508 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -107,7 +107,8 @@ class Event(object):
         """
         # if type(self.tag)!=type(event.tag):
         #     return False
-        return self.hasOneOfTags(event.tag)
+        tags = event.tag
+        return self.hasOneOfTags(tags if isinstance(tags, tuple) else (tags,))
 
     def hasOneOfTags(self, tags):
         """
-- 
2.43.0


From d6e6e4f493d4a00cb84d77fb6704483a5f980e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:34 +0000
Subject: [PATCH 36/78] fix: Markov generation failed at a learned step without
 events (pattern shorter than the loop)

---
 gsapi/gsstyles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gsstyles.py b/gsapi/gsstyles.py
index 4d32dc6..9c1b730 100644
--- a/gsapi/gsstyles.py
+++ b/gsapi/gsstyles.py
@@ -449,7 +449,7 @@ class PatternMarkov(object):
         while i < self.numSteps and maxTries > 0:
             newPast = tuple(events[i - self.order:i])
             newEv = _generateEventAtStep(i, newPast)
-            if newEv:
+            if newEv is not None:
                 events += [newEv]
                 maxTries = maxNumtries
                 i += 1
-- 
2.43.0


From a97fa4217198fa096d498cb6a96f08b2b71feec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:49 +0000
Subject: [PATCH 37/78] fix: filling with silences per tag, legato and printing
 depended on the order of hashes

---
 gsapi/gspattern.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 7b61508..af70b14 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -400,7 +400,7 @@ class Pattern(object):
             for p in self.getAllPitches():
                 voice = self.getPatternWithPitch(p)
                 _perVoiceLegato(voice)
-        for t in self.getAllTags():
+        for t in sorted(self.getAllTags(), key=repr):
             voice = self.getPatternWithTags(tagToLookFor=t, exactSearch=False, makeCopy=False)
             _perVoiceLegato(voice)
 
@@ -498,7 +498,7 @@ class Pattern(object):
             self.events = _fillListWithSilence(self, silenceTag, silencePitch)
         else:
             allEvents = []
-            for t in self.getAllTags():
+            for t in sorted(self.getAllTags(), key=repr):
                 allEvents += _fillListWithSilence(
                     self.getPatternWithTags(tagToLookFor=t,
                                             exactSearch=False,
@@ -1145,7 +1145,7 @@ class Pattern(object):
                         return False
             return True
 
-        for t in self.getAllTags():
+        for t in sorted(self.getAllTags(), key=repr):
             noteOnASCII = '|'
             sustainASCII = '>'
             silenceASCII = '-'
-- 
2.43.0


From bf22a84a6534861dda3c6b37341f3a2485a767ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:14 +0000
Subject: [PATCH 38/78] fix: a pattern made from another shared its time
 signature if that is a list

---
 gsapi/gspattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index af70b14..0916971 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -424,7 +424,7 @@ class Pattern(object):
         p = Pattern()
         p.duration = self.duration
         p.bpm = self.bpm
-        p.timeSignature = self.timeSignature
+        p.timeSignature = copy.copy(self.timeSignature)
         p.originFilePath = self.originFilePath
         p.name = self.name
         return p
-- 
2.43.0


From 9b7be14f991b0e17f2725bec33844fc251c1ef91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:31 +0000
Subject: [PATCH 39/78] fix: legato by pitch worked on copies and then always
 by tag

---
 gsapi/gspattern.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 0916971..0a8a91a 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -398,11 +398,12 @@ class Pattern(object):
                 myPattern[-1].duration += diff
         if usePitchValues:
             for p in self.getAllPitches():
-                voice = self.getPatternWithPitch(p)
+                voice = self.getPatternWithPitch(p, makeCopy=False)
+                _perVoiceLegato(voice)
+        else:
+            for t in sorted(self.getAllTags(), key=repr):
+                voice = self.getPatternWithTags(tagToLookFor=t, exactSearch=False, makeCopy=False)
                 _perVoiceLegato(voice)
-        for t in sorted(self.getAllTags(), key=repr):
-            voice = self.getPatternWithTags(tagToLookFor=t, exactSearch=False, makeCopy=False)
-            _perVoiceLegato(voice)
 
     def copy(self):
         """
-- 
2.43.0


From c09a0bdd0aa1e1decdcc268bd2838f0d34dced9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:44 +0000
Subject: [PATCH 40/78] fix: removing overlaps kept both events of one onset if
 a third overlapped them

---
 gsapi/gspattern.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 0a8a91a..e62d804 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -981,6 +981,8 @@ class Pattern(object):
                             overLappedEv += [ee]
                         else:
                             gspatternLog.info("strict overlapping of start times %s with %s" % (e, ee))
+                            # the later event takes its place
+                            break
 
                 if ee.startTime > (e.startTime + e.duration):
                     break
-- 
2.43.0


From a82036ffd3b8a7947a74c80fa37eb014fd56a5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:44 +0000
Subject: [PATCH 41/78] fix: fillWithPreviousEvent gave wrong durations if
 events were not in order

---
 gsapi/gspattern.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index e62d804..d4fc75f 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -440,6 +440,7 @@ class Pattern(object):
         for e in self.events:
             if e.startTime not in onsets:
                 onsets.append(e.startTime)
+        onsets.sort()
         onsets.append(self.duration)
 
         for e in self.events:
-- 
2.43.0


From e1d38401a8e9fe74dd6fce2538a594f3a0264881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:56 +0000
Subject: [PATCH 42/78] fix: a chord without a positive score was called B (or
 C)

---
 gsapi/gsdescriptors.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gsapi/gsdescriptors.py b/gsapi/gsdescriptors.py
index ef5c96d..579e623 100644
--- a/gsapi/gsdescriptors.py
+++ b/gsapi/gsdescriptors.py
@@ -18,7 +18,7 @@ def intervalListToProfile(intervalList, length=12):
 
 
 def findBestScoreForProfiles(chromas, pitchProfileDict, penalityWeight, allowDuplicates=False):
-    maxScore = 0
+    maxScore = None
     if allowDuplicates:
         bestProfile = []
         bestRoot = []
@@ -29,9 +29,9 @@ def findBestScoreForProfiles(chromas, pitchProfileDict, penalityWeight, allowDup
         conv = convolveWithPitchProfile(chromas, value, penalityWeight)
         score = findMaxAndIdx(conv)
         nonZero = getNumNonZero(value)  # todo: what is this for?
-        if score[0] >= maxScore:
+        if maxScore is None or score[0] >= maxScore:
             if allowDuplicates:
-                if score[0] > maxScore:
+                if maxScore is None or score[0] > maxScore:
                     bestProfile = [key]
                     bestRoot = [score[1]]
                 else:
@@ -76,11 +76,11 @@ def convolveWithPitchProfile(chromas, pitchProfile, penalityWeight):
 
 
 def findMaxAndIdx(convolution):
-    M = 0
+    M = None
     Mi = -1
     i = 0
     for chroma in convolution:
-        if chroma > M:
+        if M is None or chroma > M:
             M = chroma
             Mi = i
         i += 1
-- 
2.43.0


From a462e0095e99b891cfd1b277e14d88e2771ba640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:27 +0000
Subject: [PATCH 43/78] fix: a style whose JSON could not be loaded kept a part
 of it

---
 gsapi/gsstyles.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/gsapi/gsstyles.py b/gsapi/gsstyles.py
index 9c1b730..9515560 100644
--- a/gsapi/gsstyles.py
+++ b/gsapi/gsstyles.py
@@ -165,11 +165,13 @@ class DatabaseStyle(BaseStyle):
         return res
 
     def setInternalState(self, internalStateDict):
-        self.patternList = []
+        # complete or not at all: the state may be damaged
+        patternList = []
         for e in internalStateDict["patternList"]:
             p = Pattern()
             p.fromJSONDict(e)
-            self.patternList += [p]
+            patternList += [p]
+        self.patternList = patternList
 
     def isBuilt(self):
         return self.patternList != []
@@ -542,15 +544,18 @@ class PatternMarkov(object):
         def _totuple(e):
             return tuple([_totuple(x) for x in e]) if isinstance(e, (list, tuple)) else e
 
-        self.transitionTable = []
+        # complete or not at all: the state may be damaged
+        transitionTable = []
         for table in state["transitionTable"]:
             if not isinstance(table, dict):
                 table = {_totuple(past): {_totuple(event): p for event, p in d}
                          for past, d in table}
-            self.transitionTable += [table]
-        self.order = state["order"]
-        self.numSteps = state["numSteps"]
-        self.loopDuration = state["loopDuration"]
+            transitionTable += [table]
+        order, numSteps, loopDuration = state["order"], state["numSteps"], state["loopDuration"]
+        self.transitionTable = transitionTable
+        self.order = order
+        self.numSteps = numSteps
+        self.loopDuration = loopDuration
 
     def isBuilt(self):
         return self.transitionTable != {}
-- 
2.43.0


From c20ac0865b8845c0a7420aa56380fb6447301f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:18 +0000
Subject: [PATCH 44/78] fix: notes of one pitch that overlap on two channels
 were mixed up by MIDI import

---
 gsapi/gsio.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index 2231d5e..3e7ca7e 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -158,6 +158,7 @@ def __fromMidiFormat(midiPath, noteToTagMap, tracksToGet=None, tagFromTrackName=
     notFoundTags = []
     trackIdx = 0
     trackDuration = None
+    channelOf = {}
     for tracks in globalMidi:
         trackNames = [e.text for e in tracks if isinstance(e, midiio.TrackNameEvent)]
         if tracksToGet and trackIdx not in tracksToGet and not any(n in tracksToGet for n in trackNames):
@@ -203,6 +204,7 @@ def __fromMidiFormat(midiPath, noteToTagMap, tracksToGet=None, tagFromTrackName=
                     if extremeLog: gsioLog.debug("on %d %f" % (pitch, curBeat))
                     myPattern.events += [gspattern.Event(startTime=curBeat, duration=-1, pitch=pitch,
                                                          velocity=velocity, tag=noteTag)]
+                    channelOf[id(myPattern.events[-1])] = e.channel
                 if isNoteOff:
                     if extremeLog:
                         gsioLog.debug("off %d %f" % (pitch, curBeat))
@@ -210,7 +212,7 @@ def __fromMidiFormat(midiPath, noteToTagMap, tracksToGet=None, tagFromTrackName=
                     isTrueNoteOff = midiio.NoteOffEvent.is_event(e.statusmsg)
                     for i in reversed(myPattern.events):
                         if (i.pitch == pitch) and (i.tag == noteTag) and ((isTrueNoteOff and (curBeat >= i.startTime))
-                                                                    or curBeat > i.startTime) and i.duration <= 0.0001:
+                                                                    or curBeat > i.startTime) and i.duration <= 0.0001 and channelOf[id(i)] == e.channel:
                             foundNoteOn = True
                             i.duration = max(0.0001, curBeat - i.startTime)
                             lastNoteOff = max(curBeat, lastNoteOff)
-- 
2.43.0


From bd3fac084e2d94ef10516a997c8e10e710866c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:09 +0000
Subject: [PATCH 45/78] fix: a style that learned a pattern listed twice
 stretched it twice

The copies of a pattern that is listed twice were one object, which was
formatted (stretched, quantised) twice.
---
 gsapi/gsstyles.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gsapi/gsstyles.py b/gsapi/gsstyles.py
index 9515560..68fb3b3 100644
--- a/gsapi/gsstyles.py
+++ b/gsapi/gsstyles.py
@@ -305,7 +305,8 @@ class PatternMarkov(object):
         """
         self.transitionTable = [{} for f in range(int(self.numSteps))]
 
-        self.binarizedPatterns = copy.deepcopy(self.originPatterns)
+        # one by one: a pattern that is listed twice must not be formatted twice
+        self.binarizedPatterns = [p.copy() for p in self.originPatterns]
         for p in self.binarizedPatterns:
             self.formatPattern(p)
             self.checkSilences(p)
-- 
2.43.0


From dccda845b9c25161bbd364e78b83178008a56501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:15 +0000
Subject: [PATCH 46/78] fix: changing densities of a pattern raised, or gave
 other densities

AgnosticDensity lost track of which steps hold notes as soon as it removed
or added one: raising a density again failed with ValueError, a voice could
not be filled again once empty (IndexError), full voices divided by zero,
crossing density one did nothing, and 0 and 2 were not reached.  Keep the
lists of steps consistent and go to the number of notes the density asks
for; notes of the origin come back as they were.
---
 gsapi/gstransformers.py | 69 ++++++++++++++---------------------------
 1 file changed, 24 insertions(+), 45 deletions(-)

diff --git a/gsapi/gstransformers.py b/gsapi/gstransformers.py
index 484e9df..127eade 100644
--- a/gsapi/gstransformers.py
+++ b/gsapi/gstransformers.py
@@ -103,45 +103,21 @@ class AgnosticDensity(BaseTransformer):
     def updateNormalizedDensities(self, normalizedDict):
         for key, value in normalizedDict.items():
             if key in self.normalizedDensities:
-                originDensity = self.normalizedDensities[key]
-                # if we cross density one, reset to one then do the subsequent calculations
-                if (value < 1 < originDensity) or (value > 1 > originDensity):
-                    # print "reset densities"
-                    self.resetDensities()
-
-                diffNormalized = value - self.normalizedDensities[key]
-                if diffNormalized == 0:
-                    continue
-
-                # here we are sure to not need to crossdensity one (and have to do both increment styles)
-                if originDensity >= 1 and value >= 1:
-                    step = 1.0 / (self.numSteps - self.originDensities[key])
-                    number = originDensity
-                    value = max(1, min(value, 2)) - step
-                    if diffNormalized > step:
-
-                        while number < value:
-                            self.addEventForTag(key, number)
-                            number += step
-                    if diffNormalized < -step:
-                        while number > value:
-                            self.removeEventForTag(key, number)
-                            number -= step
-                    self.normalizedDensities[key] = 1.0 + int((value - 1.0) / step) * 1.0 * step
-
-                if originDensity <= 1 and value < 1:
-                    step = 1.0 / (self.originDensities[key])
-                    number = originDensity
-                    value = max(0, min(value, 1)) + step
-                    if diffNormalized > step:
-                        while number < value:
-                            self.addEventForTag(key, number)
-                            number += step
-                    if diffNormalized < -step:
-                        while number > value:
-                            self.removeEventForTag(key, number)
-                            number -= step
-                    self.normalizedDensities[key] = int(value / step) * 1.0 * step
+                value = max(0, min(value, 2))
+                state = self.currentState[key]
+                numOrigin = len(state['notes']) - len(state['addedNotes']) + len(state['removedNotes'])
+                numRemoved = int(round(numOrigin * (1 - min(value, 1))))
+                numAdded = int(round((self.numSteps - numOrigin) * (max(value, 1) - 1)))
+                # if we cross density one, go back to the origin pattern first
+                while len(state['addedNotes']) > numAdded:
+                    self.removeEventForTag(key, 2)
+                while len(state['removedNotes']) > numRemoved:
+                    self.addEventForTag(key, 0)
+                while len(state['removedNotes']) < numRemoved:
+                    self.removeEventForTag(key, 0)
+                while len(state['addedNotes']) < numAdded:
+                    self.addEventForTag(key, 2)
+                self.normalizedDensities[key] = value
         self.currentPattern.reorderEvents()
 
     def addEventForTag(self, tag, targetDensity):
@@ -159,12 +135,14 @@ class AgnosticDensity(BaseTransformer):
 
         orIdx = self.currentState[tag]['silences'].index(idxToAdd)
         del self.currentState[tag]['silences'][orIdx]
+        self.currentState[tag]['notes'] += [idxToAdd]
+        tPattern = self.originPattern.getPatternWithTags(tag, makeCopy=False)
         if targetDensity < 1:
             del self.currentState[tag]['removedNotes'][idx]
-
-        self.currentState[tag]['addedNotes'] += [idxToAdd]
-        tPattern = self.currentPattern.getPatternWithTags(tag, makeCopy=False)
-        newEv = tPattern.events[0].copy()
+            newEv = tPattern.getStartingEventsAtTime(idxToAdd)[0].copy()
+        else:
+            self.currentState[tag]['addedNotes'] += [idxToAdd]
+            newEv = tPattern.events[0].copy()
         newEv.startTime = idxToAdd
         newEv.duration = 1
         self.currentPattern.events += [newEv]
@@ -185,10 +163,11 @@ class AgnosticDensity(BaseTransformer):
 
         orIdx = self.currentState[tag]['notes'].index(idxToRemove)
         del self.currentState[tag]['notes'][orIdx]
+        self.currentState[tag]['silences'] += [idxToRemove]
         if targetDensity > 1:
             del self.currentState[tag]['addedNotes'][idx]
-
-        self.currentState[tag]['removedNotes'] += [idxToRemove]
+        else:
+            self.currentState[tag]['removedNotes'] += [idxToRemove]
         tPattern = self.currentPattern.getPatternWithTags(tag, makeCopy=False)
 
         eventToRemove = tPattern.getStartingEventsAtTime(idxToRemove)[0]
-- 
2.43.0


From 169cbb1013b5962003780948b4a33553c8bc3e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:04 +0000
Subject: [PATCH 47/78] fix: a density transform that was cut short could not
 be repeated

The pattern was remembered before what is derived from it was there: giving
it again after an interrupted call raised, or worked on half of a state.
---
 gsapi/gstransformers.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gsapi/gstransformers.py b/gsapi/gstransformers.py
index 127eade..cadbb0a 100644
--- a/gsapi/gstransformers.py
+++ b/gsapi/gstransformers.py
@@ -84,13 +84,14 @@ class AgnosticDensity(BaseTransformer):
         self.currentDistribution = {}
         self.currentState = {}
         self.originDistribution = {}
+        self.incomplete = False  # a change of the state began, and did not end
 
     def configure(self, paramDict):
         if 'inputPattern' in paramDict:
             self.buildDensityMap(paramDict['inputPattern'])  # TODO: Faltaba el self.
 
     def transformPattern(self, pattern, paramDict):
-        if pattern is not None and pattern != self.originPattern:
+        if pattern is not None and (self.incomplete or pattern != self.originPattern):
             self.buildDensityMap(pattern)
         if self.originPattern is None:
             return
@@ -101,6 +102,7 @@ class AgnosticDensity(BaseTransformer):
         return res
 
     def updateNormalizedDensities(self, normalizedDict):
+        self.incomplete = True
         for key, value in normalizedDict.items():
             if key in self.normalizedDensities:
                 value = max(0, min(value, 2))
@@ -119,6 +121,7 @@ class AgnosticDensity(BaseTransformer):
                     self.addEventForTag(key, 2)
                 self.normalizedDensities[key] = value
         self.currentPattern.reorderEvents()
+        self.incomplete = False
 
     def addEventForTag(self, tag, targetDensity):
 
@@ -215,6 +218,7 @@ class AgnosticDensity(BaseTransformer):
             self.normalizedDensities[t] = 1
 
     def buildDensityMap(self, pattern):
+        self.incomplete = True
         self.originPattern = pattern.copy()
         self.originDuration = pattern.duration
         self.originPattern.timeStretch(self.numSteps * 1.0 / self.originPattern.duration)
@@ -222,6 +226,7 @@ class AgnosticDensity(BaseTransformer):
         self.currentPattern = self.originPattern.copy()
         self.resetDensities()
         self.createCurrentState()
+        self.incomplete = False
 
 
 class EventChord(Event):
-- 
2.43.0


From 617bddfd784975a74c92bd0401507acb4da83f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:26 +0000
Subject: [PATCH 48/78] fix: bass lines could not be analysed or constrained on
 Python 3

numpy refuses a number of beats that is a float, and neither json nor
numpy take the keys of a dictionary for a list.
---
 gsapi/bassmine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gsapi/bassmine.py b/gsapi/bassmine.py
index ccd7c0a..57bf71a 100644
--- a/gsapi/bassmine.py
+++ b/gsapi/bassmine.py
@@ -397,7 +397,7 @@ def constrainMM(markov_model, target, _path="output/"):
         init.append(b0[key])
     init_dict['initial'] = dict()
     init_dict['initial']['prob'] = list(init / sum(init))
-    init_dict['initial']['pattern'] = V[0].keys()
+    init_dict['initial']['pattern'] = list(V[0].keys())
     # print( init_dict)
     for i in range(len(V)):
         out_Model[i] = {}
@@ -926,6 +926,7 @@ def binaryBeatPattern(aPattern, noBeats_bass, resolution=4):
     subdiv_aux = np.array([0., 0.25, 0.5, 0.75])
     # Matrix to store the binary representation of the midi files
     # Basslines -> 1 matrix
+    noBeats_bass = int(np.ceil(noBeats_bass))
     rhythm = np.zeros((noBeats_bass, resolution), dtype=int)
 
     for o in aPattern:
-- 
2.43.0


From 77e62ab35799d2daf834be81c68af1a206916474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:26 +0000
Subject: [PATCH 49/78] fix: the bass model never learned the change to the
 last beat of a loop

The step from the last beat to the first replaced it, so beats that only
come last had no way in, and some beats no way on.
---
 gsapi/bassmine.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gsapi/bassmine.py b/gsapi/bassmine.py
index 57bf71a..5d3d85e 100644
--- a/gsapi/bassmine.py
+++ b/gsapi/bassmine.py
@@ -125,10 +125,11 @@ class MarkovModel:
         for p in pattern:
             if count == 0:
                 self.update_initial(p)
-            elif 0 < count < len(pattern) - 1:
+            else:
                 self.update_temporal(pattern[count - 1], p)
-            elif count == len(pattern) - 1:
-                self.update_temporal(pattern[count], pattern[0])
+            if count == len(pattern) - 1:
+                # the pattern is a loop
+                self.update_temporal(p, pattern[0])
             count += 1
 
     def add_interlocking(self, patt_kick, patt_bass):
-- 
2.43.0


From 5b68384d40040414037291a9a75f2545a5a679cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:26 +0000
Subject: [PATCH 50/78] fix: normalising a bass model changed what was counted

After normalize_model(), what was learned before weighed less than what was
learned later (each row of counts had become one).
---
 gsapi/bassmine.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gsapi/bassmine.py b/gsapi/bassmine.py
index 5d3d85e..d342924 100644
--- a/gsapi/bassmine.py
+++ b/gsapi/bassmine.py
@@ -180,8 +180,9 @@ class MarkovModel:
         Normalize matrices
         """
         self.initial_model = self.support_initial / sum(self.support_initial)
-        self.temporal_model = normalize(self.support_temporal)
-        self.interlocking_model = normalize(self.support_interlocking)
+        # of copies: what was counted is needed if more is learned
+        self.temporal_model = normalize(self.support_temporal.copy())
+        self.interlocking_model = normalize(self.support_interlocking.copy())
         self.normalized = True
 
     def get_initial(self):
-- 
2.43.0


From 101551579f00caa9aca8384a38b3111cc9b452f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:26 +0000
Subject: [PATCH 51/78] fix: constrained bass lines ran into dead ends

Values without continuation were removed one step back only, and those of the
first step from the last one (index -1): generation failed though there were
solutions, or ended with a beat that was to be kept and was not.
---
 gsapi/bassmine.py | 82 ++++++++++++++---------------------------------
 1 file changed, 24 insertions(+), 58 deletions(-)

diff --git a/gsapi/bassmine.py b/gsapi/bassmine.py
index d342924..aea6fc4 100644
--- a/gsapi/bassmine.py
+++ b/gsapi/bassmine.py
@@ -282,6 +282,24 @@ class MarkovModel:
         return pitch_dict
 
 
+def makeArcConsistent(V):
+    """
+    Remove the values that cannot be continued until the last step.
+
+    Args:
+        V: list of domains, one per step: dictionary {pattern id: set of possible next pattern ids (as strings)}
+
+    """
+    for step in reversed(range(len(V))):
+        for key in list(V[step].keys()):
+            if step + 1 < len(V):
+                V[step][key] = V[step][key].intersection([str(x) for x in V[step + 1].keys()])
+            if len(V[step][key]) == 0:
+                del V[step][key]
+    if len(V[0]) == 0:
+        raise ValueError("no pattern of the model fits the target")
+
+
 def constrainMM(markov_model, target, _path="output/"):
     """
 
@@ -364,32 +382,7 @@ def constrainMM(markov_model, target, _path="output/"):
                 # print( "check\n")
                 # print( "V", step, V[step].keys())
 
-    ## Delete values from each key in V[i] that are not in V[i+1]
-    val_del = dict()
-    ## Font-propagation
-    for step in range(1, len(target) - 1):
-        val_del_temp = []
-        next_key = set([str(x) for x in V[step].keys()])
-        # print( next_key)
-        for key, value in V[step - 1].items():
-            # print( key, value)
-            tmp_int = value.intersection(next_key)
-            # if len(tmp_int) > 0:
-            V[step - 1][key] = tmp_int
-            if len(tmp_int) == 0:
-                val_del_temp.append(key)
-        val_del[step] = val_del_temp
-    #  print( val_del)
-    #  Back-propagation
-    for step, value in val_del.items():
-        if len(value) > 0:
-            for v in value:
-                ## Delete key
-                V[step - 1].pop(v, None)
-            #  Delete in previous continuations
-            # print( V[step-2])
-            for idx in V[step - 2].keys():
-                V[step - 2][idx] = set([str(x) for x in V[step - 1].keys()]).intersection(V[step - 2][idx])
+    makeArcConsistent(V)
     # BUILD FINAL DICTIONARY
     # print( "\nFinal Model:")
     out_Model = {}
@@ -505,41 +498,14 @@ def variationMM(markov_model, target, _path="output/"):
     # print( V)
 
 
-    ## Delete values from each key in V[i] that are not in V[i+1]
-    val_del = dict()
-    ## Font-propagation
-    for step in range(1, len(target) - 1):
-        val_del_temp = []
-        next_key = set([str(x) for x in V[step].keys()])
-        # print( next_key)
-        for key, value in V[step - 1].items():
-            # print( key, value)
-            tmp_int = value.intersection(next_key)
-            # if len(tmp_int) > 0:
-            V[step - 1][key] = tmp_int
-            if len(tmp_int) == 0:
-                val_del_temp.append(key)
-        val_del[step] = val_del_temp
-    # print( val_del)
-    ## Back-propagation
-    for step, value in val_del.items():
-        if len(value) > 0:
-            for v in value:
-                ## Delete key
-                V[step - 1].pop(v, None)
-            ## Delete in previous continuations
-            # print( V[step-2])
-            for idx in V[step - 2].keys():
-                V[step - 2][idx] = set([str(x) for x in V[step - 1].keys()]).intersection(V[step - 2][idx])
+    # the last beat doesn't vary
+    if target[len(target) - 1] >= 0:
+        for key, val in V[len(V) - 1].items():
+            V[len(V) - 1][key] = val.intersection({str(target[len(target) - 1])})
+    makeArcConsistent(V)
     # BUILD FINAL DICTIONARY
     # print( "\nFinal Model:")
 
-    for key, val in V[len(V) - 1].items():
-        tmp_val = val.intersection({str(target[len(target) - 1])})
-        # print( tmp_val)
-        if len(tmp_val) > 0:
-            V[len(V) - 1][key] = tmp_val
-
     # for value in V:
     #	print( value)
     #	print( "\n")
-- 
2.43.0


From 0197feec3190b076d3d1e707e6bce9ce075038e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:26 +0000
Subject: [PATCH 52/78] fix: the length of a constrained bass line was the
 number of kicks

It is limited by the beats of the kick pattern, not by its number of notes:
more notes than beats made generation fail.
---
 gsapi/bassmine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsapi/bassmine.py b/gsapi/bassmine.py
index aea6fc4..12e015a 100644
--- a/gsapi/bassmine.py
+++ b/gsapi/bassmine.py
@@ -655,8 +655,8 @@ def generateBassRhythm(markov_model, beat_length=8, target=[]):
 
     else:  # use constrained model
 
-        if len(target) < beat_length:
-            beat_length = len(target)
+        # (in beats, not in notes)
+        beat_length = min(beat_length, int(np.ceil(target.duration)))
 
         NHMM = constrainMM(markov_model, target)
         pattern_idx.append(np.random.choice(NHMM[0]['initial']['pattern'], p=NHMM[0]['initial']['prob']))
-- 
2.43.0


From 488abaa13df634faa303ee837b401634843f453b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:26 +0000
Subject: [PATCH 53/78] fix: varying a bass line dropped its last beat

and kept silent beats that were to vary (their id is 0, which no sign makes
negative).
---
 gsapi/bassmine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/bassmine.py b/gsapi/bassmine.py
index 12e015a..1ae76c3 100644
--- a/gsapi/bassmine.py
+++ b/gsapi/bassmine.py
@@ -744,7 +744,7 @@ def generateBassRhythmVariation(markov_model, target_pattern, variation_mask):
         target_rhythm = binaryBeatPattern(onset_target, target_pattern.duration)
         target_id = translate_rhythm(target_rhythm)
         # Mask formatted pattern
-        masked_target = [target_id[i] * variation_mask[i] for i in range(len(variation_mask) - 1)]
+        masked_target = [target_id[i] if i == 0 or variation_mask[i] >= 0 else -1 for i in range(len(target_id))]
 
         # Build variation model
         NHMM = variationMM(markov_model, masked_target)
-- 
2.43.0


From e950443f75c8f7257bcbaecc5edda7816cdcb0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:26 +0000
Subject: [PATCH 54/78] fix: bass analysis went by the number of drum files

It failed, or left bass lines out, unless there are as many drum files as
bass files; and models were written beside a folder given without slash.
---
 gsapi/bassmine.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/gsapi/bassmine.py b/gsapi/bassmine.py
index 1ae76c3..a306cf8 100644
--- a/gsapi/bassmine.py
+++ b/gsapi/bassmine.py
@@ -246,7 +246,7 @@ class MarkovModel:
             json.dump(rhythm_dict, outfile)
             outfile.close()
 
-        with open(path + 'HModel_init.json', 'w') as outfile:
+        with open(os.path.join(path, 'HModel_init.json'), 'w') as outfile:
             json.dump(init_dict, outfile)
             outfile.close()
         # print( "Rhythm model computed\n", rhythm_dict)
@@ -408,11 +408,11 @@ def constrainMM(markov_model, target, _path="output/"):
             out_Model[i][key]['pattern'] = [int(x) for x in val]
             out_Model[i][key]['probs'] = list(tmp / sum(tmp))
     # print( out_Model)
-    with open(path + 'NHModel.json', 'w') as outfile:
+    with open(os.path.join(path, 'NHModel.json'), 'w') as outfile:
         json.dump(out_Model, outfile)
         outfile.close()
 
-    with open(path + 'Model_init.json', 'w') as outfile:
+    with open(os.path.join(path, 'Model_init.json'), 'w') as outfile:
         json.dump(init_dict, outfile)
         outfile.close()
 
@@ -536,11 +536,11 @@ def variationMM(markov_model, target, _path="output/"):
             out_Model[i][key]['pattern'] = [int(x) for x in val]
             out_Model[i][key]['probs'] = list(tmp / sum(tmp))
     # print( out_Model)
-    with open(path + 'NHModel_var.json', 'w') as outfile:
+    with open(os.path.join(path, 'NHModel_var.json'), 'w') as outfile:
         json.dump(out_Model, outfile)
         outfile.close()
 
-    with open(path + 'Model_init_var.json', 'w') as outfile:
+    with open(os.path.join(path, 'Model_init_var.json'), 'w') as outfile:
         json.dump(init_dict, outfile)
         outfile.close()
 
@@ -817,7 +817,7 @@ def corpus_analysis(bass_path, drum_path):
     # pitch_model = markov.MarkovModel(25);
     # pitch_contours = []
     # LOOP THROUGH THE DIFFERENT MIDI INSTANCES
-    for f in range(len(drum_files)):
+    for f in range(len(bass_files)):
         match = gsutil.match_files('drums' + bass_names[f][4:], drum_names)
 
         match_file = drum_path + '/' + match[0] + '.mid'
-- 
2.43.0


From 288628947570428f343b952c62659b10c75316e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:07 +0000
Subject: [PATCH 55/78] fix: variations of bass lines could not be written on
 Python 3

json writes no numpy integers, neither as values nor as keys.
---
 gsapi/bassmine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/bassmine.py b/gsapi/bassmine.py
index a306cf8..ebad3e7 100644
--- a/gsapi/bassmine.py
+++ b/gsapi/bassmine.py
@@ -868,7 +868,7 @@ def translate_rhythm(rhythm):
     iddic = []
 
     for beat in rhythm:
-        iddic.append((beat[0] * 8) + (beat[1] * 4) + (beat[2] * 2) + beat[3])
+        iddic.append(int((beat[0] * 8) + (beat[1] * 4) + (beat[2] * 2) + beat[3]))
     return iddic
 
 
-- 
2.43.0


From a374e48e45db5817a44458becdd8e77980468331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:30 +0000
Subject: [PATCH 56/78] fix: a sysex message was read up to the first F7 byte

Its length was taken for data, packets that start with F7 raised TypeError, and it
was written without its length, so that no other reader could go on after it.
---
 gsapi/midiio.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/gsapi/midiio.py b/gsapi/midiio.py
index 39c45fc..92d67ba 100644
--- a/gsapi/midiio.py
+++ b/gsapi/midiio.py
@@ -125,13 +125,9 @@ class FileReader(object):
             return cls(tick=tick, data=data, metacommand=cmd)
         # is this event a Sysex Event?
         elif SysexEvent.is_event(stsmsg):
-            data = []
-            while True:
-                datum = next(trackdata)
-                if datum == 0xF7:
-                    break
-                data.append(datum)
-            return SysexEvent(tick=tick, data=data)
+            datalen = read_varlen(trackdata)
+            data = [next(trackdata) for x in range(datalen)]
+            return SysexEvent(tick=tick, data=data, statusmsg=stsmsg)
         # not a Meta MIDI event or a Sysex event, must be a general message
         else:
             key = stsmsg & 0xF0
@@ -188,9 +184,9 @@ class FileWriter(object):
             ret += bytearray(event.data)
         # is this event a Sysex Event?
         elif isinstance(event, SysexEvent):
-            ret.append(0xF0)
+            ret.append(event.statusmsg)
+            ret += write_varlen(len(event.data))
             ret += bytearray(event.data)
-            ret.append(0xF7)
         # not a Meta MIDI event or a Sysex event, must be a general message
         elif isinstance(event, Event):
             if not self.RunningStatus or \
@@ -542,7 +538,8 @@ class SysexEvent(Event):
     length = 'varlen'
 
     def is_event(cls, statusmsg):
-        return cls.statusmsg == statusmsg
+        # 0xF7 continues or escapes
+        return statusmsg in (cls.statusmsg, 0xF7)
 
     is_event = classmethod(is_event)
 
-- 
2.43.0


From 2ee13ff34c8bdaf1e403799ba26d1e41e376ea21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:30 +0000
Subject: [PATCH 57/78] fix: MIDI was written with a running status across meta
 and sysex events

Which these end: a strict reader finds data bytes without a status there.
---
 gsapi/midiio.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gsapi/midiio.py b/gsapi/midiio.py
index 92d67ba..148320a 100644
--- a/gsapi/midiio.py
+++ b/gsapi/midiio.py
@@ -179,11 +179,13 @@ class FileWriter(object):
         ret += write_varlen(event.tick)
         # is the event a MetaEvent?
         if isinstance(event, MetaEvent):
+            self.RunningStatus = None  # meta and sysex events cancel it
             ret += bytearray([event.statusmsg, event.metacommand])
             ret += write_varlen(len(event.data))
             ret += bytearray(event.data)
         # is this event a Sysex Event?
         elif isinstance(event, SysexEvent):
+            self.RunningStatus = None
             ret.append(event.statusmsg)
             ret += write_varlen(len(event.data))
             ret += bytearray(event.data)
-- 
2.43.0


From 9941da1cc60071d2ee427b52cf36fa17da183e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:30 +0000
Subject: [PATCH 58/78] fix: the value of a channel after-touch message could
 not be used

It has one data byte only: reading or setting it raised IndexError.
---
 gsapi/midiio.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsapi/midiio.py b/gsapi/midiio.py
index 148320a..16edc9b 100644
--- a/gsapi/midiio.py
+++ b/gsapi/midiio.py
@@ -509,10 +509,10 @@ class ChannelAfterTouchEvent(Event):
     name = 'Channel After Touch'
 
     def set_value(self, val):
-        self.data[1] = val
+        self.data[0] = val
 
     def get_value(self):
-        return self.data[1]
+        return self.data[0]
 
     value = property(get_value, set_value)
 
-- 
2.43.0


From 35744f7b161056c5b0cdbbd9ccec56166713181c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:30 +0000
Subject: [PATCH 59/78] fix: a copied MIDI event shared its data with the
 original

so changing the pitch of one changed the other.
---
 gsapi/midiio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/midiio.py b/gsapi/midiio.py
index 16edc9b..ccd9bb1 100644
--- a/gsapi/midiio.py
+++ b/gsapi/midiio.py
@@ -366,7 +366,7 @@ class Event(AbstractEvent):
         super(Event, self).__init__(**kw)
 
     def copy(self, **kw):
-        _kw = {'channel': self.channel, 'tick': self.tick, 'data': self.data}
+        _kw = {'channel': self.channel, 'tick': self.tick, 'data': list(self.data)}
         _kw.update(kw)
         return self.__class__(**_kw)
 
-- 
2.43.0


From 2b3804be60537cb2efe869a1118fc3d47bf66363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:30 +0000
Subject: [PATCH 60/78] fix: a slice of a MIDI track or pattern forgot that its
 ticks are absolute

and wrote them as times relative to the event before.
---
 gsapi/midiio.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gsapi/midiio.py b/gsapi/midiio.py
index ccd9bb1..892ae19 100644
--- a/gsapi/midiio.py
+++ b/gsapi/midiio.py
@@ -232,6 +232,7 @@ class Pattern(list):
         if isinstance(item, slice):
             indices = item.indices(len(self))
             return Pattern(resolution=self.resolution, frmt=self.frmt,
+                           tick_relative=self.tick_relative,
                            tracks=(super(Pattern, self).__getitem__(i) for i in
                                    range(*indices)))
         else:
@@ -268,7 +269,7 @@ class Track(list):
         if isinstance(item, slice):
             indices = item.indices(len(self))
             return Track((super(Track, self).__getitem__(i) for i in
-                          range(*indices)))
+                          range(*indices)), tick_relative=self.tick_relative)
         else:
             return super(Track, self).__getitem__(item)
 
-- 
2.43.0


From 5724470138bba386c79502b8d5bd4dbda88d1599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:30 +0000
Subject: [PATCH 61/78] fix: what MIDI cannot hold was written as a corrupt
 file

Times that are negative or beyond 28 bits, channels above 15 and data bytes
above 127 now raise ValueError.
---
 gsapi/midiio.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gsapi/midiio.py b/gsapi/midiio.py
index 892ae19..8661a6c 100644
--- a/gsapi/midiio.py
+++ b/gsapi/midiio.py
@@ -196,6 +196,8 @@ class FileWriter(object):
                             self.RunningStatus.channel != event.channel:
                 self.RunningStatus = event
                 ret.append(event.statusmsg | event.channel)
+            if not 0 <= event.channel < 16 or max(event.data) > 127:
+                raise ValueError("Not an event that MIDI can hold: %r" % event)
             ret += bytearray(event.data)
         else:
             raise ValueError("Unknown MIDI Event: " + str(event))
@@ -766,6 +768,8 @@ def read_varlen(data):
 
 
 def write_varlen(value):
+    if not 0 <= value < 1 << 28:
+        raise ValueError("Not a number that MIDI can hold: %r" % value)
     chr1 = bytearray([value & 0x7F])
     value >>= 7
     if value:
-- 
2.43.0


From e1027252f8d50206cc299d6052ed50e897ad1eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:30 +0000
Subject: [PATCH 62/78] fix: the states of a style came in an order that
 differs by process

It was that of the hashes, which Python 3 randomises: so were the rows and
columns of the matrices that getMatrixAtStep() gives.
---
 gsapi/gsstyles.py | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/gsapi/gsstyles.py b/gsapi/gsstyles.py
index 68fb3b3..9f2ad44 100644
--- a/gsapi/gsstyles.py
+++ b/gsapi/gsstyles.py
@@ -10,6 +10,15 @@ markovLog = logging.getLogger('gsapi.styles.markov_style')
 # todo change this to fit the new reorganisation!
 
 
+def _sortKey(state):
+    # equal states (also those of JSON files) have equal keys
+    if isinstance(state, tuple):
+        return 2, tuple(_sortKey(x) for x in state)
+    if isinstance(state, (int, float)):
+        return 0, state
+    return 1, "%s" % (state,)
+
+
 class BaseStyle(object):
     """
     Base class to define a style.
@@ -506,7 +515,7 @@ class PatternMarkov(object):
                 curL += [e.tag]
 
             # remove step-wise overlapping events; in an order that does not depend on the hashes
-            res += (tuple(sorted(set(curL), key=repr)),)
+            res += (tuple(sorted(set(curL), key=_sortKey)),)
         return res
 
     def formatPattern(self, p):
@@ -568,12 +577,13 @@ class PatternMarkov(object):
             for v in d.values():
                 for state in v.keys():
                     possibleStates += [state]
-        possibleStates = list(set(possibleStates))
+        # in an order that does not depend on the hashes
+        possibleStates = sorted(set(possibleStates), key=_sortKey)
         return possibleStates
 
     def getAllPossibleStatesAtStep(self, step):
-        return list(set(self.getPossibleInStatesAtStep(
-                step) + self.getPossibleOutStatesAtStep(step)))
+        return sorted(set(self.getPossibleInStatesAtStep(
+                step) + self.getPossibleOutStatesAtStep(step)), key=_sortKey)
 
     def getPossibleOutStatesAtStep(self, step):
         if step < 0: step += len(self.transitionTable)
@@ -583,7 +593,8 @@ class PatternMarkov(object):
         for v in d.values():
             for state in v.keys():
                 possibleStates += [state]
-        possibleStates = list(set(possibleStates))
+        # in an order that does not depend on the hashes
+        possibleStates = sorted(set(possibleStates), key=_sortKey)
         return possibleStates
 
     def getPossibleInStatesAtStep(self, step):
@@ -633,12 +644,12 @@ class PatternMarkov(object):
 
     def plotGlobalMatrix(self):
         numSteps = len(self.transitionTable)
-        possibleStatesIn = list(set(
+        possibleStatesIn = sorted(set(
                 [item for step in range(numSteps) for item in
-                 self.getPossibleInStatesAtStep(step)]))
-        possibleStatesOut = list(set(
+                 self.getPossibleInStatesAtStep(step)]), key=_sortKey)
+        possibleStatesOut = sorted(set(
                 [item for step in range(numSteps) for item in
-                 self.getPossibleOutStatesAtStep(step)]))
+                 self.getPossibleOutStatesAtStep(step)]), key=_sortKey)
         sizeIn = len(possibleStatesIn)
         sizeOut = len(possibleStatesOut)
         matrix = [[0] * sizeOut for i in range(sizeIn)]
-- 
2.43.0


From 9bd74ad9f2f41d9eca999592ed81e271c9e27418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:30 +0000
Subject: [PATCH 63/78] fix: folders were found as files

by search_files, and so by match_files.
---
 gsapi/gsutil.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gsapi/gsutil.py b/gsapi/gsutil.py
index 25990e3..d0f3955 100644
--- a/gsapi/gsutil.py
+++ b/gsapi/gsutil.py
@@ -136,6 +136,8 @@ def search_files(path, suffix=None):
                 file_list.extend(glob.glob("%s/*%s" % (path, s)))
         else:
             file_list = glob.glob("%s/*%s" % (path, suffix))
+        # folders are no files
+        file_list = [f for f in file_list if os.path.isfile(f)]
     elif os.path.isfile(path):
         file_list = []
         # no matching needed
-- 
2.43.0


From 2f671aa7acba7a924013ebb4fc98a0618d3c15fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:30 +0000
Subject: [PATCH 64/78] fix: the name of an exported MIDI track was always
 empty

Text events made from a text wrote none.
---
 gsapi/midiio.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gsapi/midiio.py b/gsapi/midiio.py
index 8661a6c..c439653 100644
--- a/gsapi/midiio.py
+++ b/gsapi/midiio.py
@@ -558,7 +558,10 @@ class SequenceNumberMetaEvent(MetaEvent):
 class MetaEventWithText(MetaEvent):
     def __init__(self, **kw):
         super(MetaEventWithText, self).__init__(**kw)
-        if 'text' not in kw:
+        if 'text' in kw and 'data' not in kw:
+            text = self.text if isinstance(self.text, bytes) else self.text.encode('utf-8')
+            self.data = list(bytearray(text))
+        elif 'text' not in kw:
             self.text = ''.join(chr(datum) for datum in self.data)
 
     def __repr__(self):
-- 
2.43.0


From a560bd4c1347a04e8436747938e18192c56a62cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:30 +0000
Subject: [PATCH 65/78] fix: exporting MIDI ignored the mapping from tags to
 pitches

A dictionary is not hashable, so it was never looked up, and a tuple was
indexed by characters.
---
 gsapi/gsio.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index 3e7ca7e..3108d09 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -15,11 +15,6 @@ import math
 import os
 import sys
 
-try:
-    from collections.abc import Hashable
-except ImportError:  # Python 2
-    from collections import Hashable
-
 if sys.version_info >= (3, 0):
     import pickle
 else:
@@ -125,6 +120,18 @@ def __tagsFromMidiNoteAndChannel(pitch, channel, noteMapping):
     return res
 
 
+def __pitchFromTag(event, midiMap):
+    # the first pitch that the mapping has for the tag (or for one of several tags), if any
+    if isinstance(midiMap, dict):
+        for tag in (event.tag,) + (event.tag if isinstance(event.tag, tuple) else ()):
+            notes = midiMap.get(tag, [])
+            for note in notes if isinstance(notes, list) else [notes]:
+                pitch = note[0] if isinstance(note, tuple) else note
+                if pitch != "*":
+                    return pitch
+    return event.pitch
+
+
 def __tagFromTrackName(name, noteMapping):
     res = tuple()
     for l in noteMapping:
@@ -360,12 +367,7 @@ def toMidiFile(myPattern, midiMap=gsdefs.defaultPitchNames, folderPath="./output
         lastTick = max(lastTick, endTick)
         # pitch = e.pitch
         channel = 1
-        if isinstance(midiMap, tuple):
-            pitch = midiMap[e.tag[0]]
-        elif isinstance(midiMap, Hashable):
-            pitch = midiMap[e.tag]
-        else:
-            pitch = e.pitch
+        pitch = __pitchFromTag(e, midiMap)
         track.append(midiio.NoteOnEvent(tick=startTick, velocity=e.velocity, pitch=pitch, channel=channel))
         track.append(midiio.NoteOffEvent(tick=endTick, velocity=e.velocity, pitch=pitch, channel=channel))
 
-- 
2.43.0


From bd37ffd44d4488750ef77b00b8a7c47d29fd76d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:30 +0000
Subject: [PATCH 66/78] fix: Chordify raised AttributeError on events with a
 tag

The tag of an event that is a text or a tuple was appended to a tuple.
---
 gsapi/gstransformers.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gsapi/gstransformers.py b/gsapi/gstransformers.py
index cadbb0a..b8f394f 100644
--- a/gsapi/gstransformers.py
+++ b/gsapi/gstransformers.py
@@ -284,8 +284,7 @@ class Chordify(BaseTransformer):
                 new_chord = EventChord(startTime=e.startTime, duration=e.duration, components=[], tag=())
                 for ee in self.inputPattern.activeEventsAtTime(e.startTime):
                     new_chord.components.append([ee.pitch, ee.velocity])
-                    for tag in ee.tag:
-                        new_chord.tag.append(tag)
+                    new_chord.tag += ee.tag if isinstance(ee.tag, tuple) else (ee.tag,)
                 self.outputPattern.addEvent(new_chord)
             p = e.startTime
         return self.outputPattern
-- 
2.43.0


From 252f32e73941b7824e6c6e67cab4e1e21fdbfa13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:23 +0000
Subject: [PATCH 67/78] fix: not every MIDI message could be copied

Meta messages had no copy(), that of unknown ones raised TypeError, that of
a sysex message forgot what kind of packet it is; and on Python 2 a field that
was changed in the copy could be lost.
---
 gsapi/midiio.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/gsapi/midiio.py b/gsapi/midiio.py
index c439653..58a0092 100644
--- a/gsapi/midiio.py
+++ b/gsapi/midiio.py
@@ -334,9 +334,15 @@ class AbstractEvent(_EventBase):
             defdata = []
         self.tick = 0
         self.data = defdata
-        for key in kw:
+        # first the data: other fields are parts of it
+        for key in sorted(kw, key=lambda k: k != 'data'):
             setattr(self, key, kw[key])
 
+    def copy(self, **kw):
+        _kw = dict(self.__dict__, data=list(self.data))
+        _kw.update(kw)
+        return self.__class__(**_kw)
+
     def __cmp__(self, other):
         if self.tick < other.tick:
             return -1
@@ -368,11 +374,6 @@ class Event(AbstractEvent):
             kw['channel'] = 0
         super(Event, self).__init__(**kw)
 
-    def copy(self, **kw):
-        _kw = {'channel': self.channel, 'tick': self.tick, 'data': list(self.data)}
-        _kw.update(kw)
-        return self.__class__(**_kw)
-
     def __cmp__(self, other):
         if self.tick < other.tick:
             return -1
@@ -626,10 +627,6 @@ class UnknownMetaEvent(MetaEvent):
         super(MetaEvent, self).__init__(**kw)
         self.metacommand = kw['metacommand']
 
-    def copy(self, **kw):
-        kw['metacommand'] = self.metacommand
-        return super(UnknownMetaEvent, self).copy(kw)
-
 
 class ChannelPrefixEvent(MetaEvent):
     name = 'Channel Prefix'
-- 
2.43.0


From f83807c0c007cfc9e0648269aae4d4d99512029e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:23 +0000
Subject: [PATCH 68/78] fix: changing the text of a MIDI message did not change
 what is written

The text was kept beside the data that is read and written.
---
 gsapi/midiio.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/gsapi/midiio.py b/gsapi/midiio.py
index 58a0092..f5ac060 100644
--- a/gsapi/midiio.py
+++ b/gsapi/midiio.py
@@ -557,13 +557,19 @@ class SequenceNumberMetaEvent(MetaEvent):
 
 
 class MetaEventWithText(MetaEvent):
-    def __init__(self, **kw):
-        super(MetaEventWithText, self).__init__(**kw)
-        if 'text' in kw and 'data' not in kw:
-            text = self.text if isinstance(self.text, bytes) else self.text.encode('utf-8')
-            self.data = list(bytearray(text))
-        elif 'text' not in kw:
-            self.text = ''.join(chr(datum) for datum in self.data)
+    def get_text(self):
+        return ''.join(chr(datum) for datum in self.data)
+
+    def set_text(self, val):
+        if not isinstance(val, bytes):
+            val = u"%s" % ("" if val is None else val)
+            try:
+                val = val.encode('latin-1')
+            except UnicodeEncodeError:
+                val = val.encode('utf-8')
+        self.data = list(bytearray(val))
+
+    text = property(get_text, set_text)
 
     def __repr__(self):
         return self.__baserepr__(['text'])
-- 
2.43.0


From cf8d99efa6e891d0e560a27e68c266823d279d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:23 +0000
Subject: [PATCH 69/78] fix: tempi and pitch bends beyond what MIDI can hold
 were written as others

e.g. 3 bpm as 18.6, as the bits above the highest were cut off.
---
 gsapi/midiio.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gsapi/midiio.py b/gsapi/midiio.py
index f5ac060..28adcab 100644
--- a/gsapi/midiio.py
+++ b/gsapi/midiio.py
@@ -532,6 +532,8 @@ class PitchWheelEvent(Event):
 
     def set_pitch(self, pitch):
         value = pitch + 0x2000
+        if not 0 <= value < 0x4000:
+            raise ValueError("Not a pitch bend that MIDI can hold: %r" % pitch)
         self.data[0] = value & 0x7F
         self.data[1] = (value >> 7) & 0x7F
 
@@ -675,6 +677,8 @@ class SetTempoEvent(MetaEvent):
         return sum(vals)
 
     def set_mpqn(self, val):
+        if not 0 < val < 1 << 24:
+            raise ValueError("Not a tempo that MIDI can hold: %r" % val)
         self.data = [(val >> (16 - (8 * x)) & 0xFF) for x in range(3)]
 
     mpqn = property(get_mpqn, set_mpqn)
-- 
2.43.0


From cea267b1b632d5c0bf36c621c7562e51c67ad9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:33 +0000
Subject: [PATCH 70/78] fix: parts of a pattern lost its key and resolution

copyWithoutEvents() copies all fields but events, says its documentation; but
slices, splits, filters and viewpoints forgot key, resolution and start time,
and so did the MIDI files they were exported to.
---
 gsapi/gspattern.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index d4fc75f..66999d7 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -426,8 +426,11 @@ class Pattern(object):
         p.duration = self.duration
         p.bpm = self.bpm
         p.timeSignature = copy.copy(self.timeSignature)
+        p.key = self.key
         p.originFilePath = self.originFilePath
         p.name = self.name
+        p.startTime = self.startTime
+        p.resolution = self.resolution
         return p
 
     def fillWithPreviousEvent(self):
-- 
2.43.0


From e66a05f8f112dc5ecdc0853022cc34b1831fe3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:31 +0000
Subject: [PATCH 71/78] fix: editing a pattern of a DatabaseStyle changed the
 style

It gave out the patterns themselves that it generates from, and kept those that
it had been given: a seed gave another pattern once one of them was edited.
---
 gsapi/gsstyles.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/gsapi/gsstyles.py b/gsapi/gsstyles.py
index 9f2ad44..473e17e 100644
--- a/gsapi/gsstyles.py
+++ b/gsapi/gsstyles.py
@@ -144,19 +144,20 @@ class DatabaseStyle(BaseStyle):
         self.currentIdx = 0
 
     def generateStyle(self, PatternClasses):
-        self.patternList = PatternClasses
+        # its own: the patterns given may be edited afterwards
+        self.patternList = [p.copy() for p in PatternClasses]
 
     def generatePattern(self, seed=None):
         if self.generatePatternOrdering == 'increasing':
-            p = self.patternList[self.currentIdx]
+            p = self.patternList[self.currentIdx].copy()
             self.currentIdx += 1
             print("reading", self.currentIdx)
             return p
         elif self.generatePatternOrdering == 'random':
             rng = random if seed is None else random.Random(seed)
-            return self.patternList[int(rng.random() * len(self.patternList))]
+            return self.patternList[int(rng.random() * len(self.patternList))].copy()
         elif self.generatePatternOrdering == 'indexed':
-            return self.patternList[self.currentIdx]
+            return self.patternList[self.currentIdx].copy()
 
     def getDistanceFromStyle(self, pattern):
         raise NotImplementedError("Should have implemented this")
-- 
2.43.0


From c80d0907b58a7d2a3525377532bab7148c058e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:10 +0000
Subject: [PATCH 72/78] fix: write2pickle wrote beside a folder named without a
 trailing slash

---
 gsapi/gsio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index 3108d09..f8e96a0 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -515,6 +515,6 @@ def write2pickle(name, data, path='../models/'):
     """
     if not os.path.exists(path):
         _makeFolder(path)
-    with open(path + name + '.pickle', 'wb') as f:
+    with open(os.path.join(path, name + '.pickle'), 'wb') as f:
         # Pickle the 'data' dictionary using the highest protocol available.
         pickle.dump(data, f, pickle.HIGHEST_PROTOCOL)
-- 
2.43.0


From 4c1c1dfcc7d6250f93a070b5b94e556d84d488b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:10 +0000
Subject: [PATCH 73/78] fix: a style that had learned nothing counted as built
 once loaded from JSON

---
 gsapi/gsstyles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gsstyles.py b/gsapi/gsstyles.py
index 473e17e..877736e 100644
--- a/gsapi/gsstyles.py
+++ b/gsapi/gsstyles.py
@@ -569,7 +569,7 @@ class PatternMarkov(object):
         self.loopDuration = loopDuration
 
     def isBuilt(self):
-        return self.transitionTable != {}
+        return len(self.transitionTable) > 0
 
     def getAllPossibleStates(self):
         possibleStates = []
-- 
2.43.0


From 4ebb6798afa8bdebeebd8fd0ec0a48451177fb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:10 +0000
Subject: [PATCH 74/78] fix: files were not found in folders, or by names, with
 brackets in them

---
 gsapi/gsutil.py | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/gsapi/gsutil.py b/gsapi/gsutil.py
index d0f3955..4157a00 100644
--- a/gsapi/gsutil.py
+++ b/gsapi/gsutil.py
@@ -79,18 +79,15 @@ def match_files(filename, match_list, suffix=None, match_suffix=None):
 
     """
     import os
-    import fnmatch
 
     # get the base name without the path
     basename = os.path.basename(strip_suffix(filename, suffix))
     # init return list
     matches = []
     # look for files with the same base name in the files_list
-    if match_suffix is not None:
-        pattern = "*%s*%s" % (basename, match_suffix)
-    else:
-        pattern = "*%s" % basename
-    for match in fnmatch.filter(match_list, pattern):
+    for match in match_list:
+        if match_suffix is not None and not match.endswith(match_suffix):
+            continue
         # base names must match exactly
         if basename == os.path.basename(strip_suffix(match, match_suffix)):
             matches.append(match)
@@ -117,7 +114,6 @@ def search_files(path, suffix=None):
 
     """
     import os
-    import glob
 
     # determine the files
     if isinstance(path, list):
@@ -127,15 +123,13 @@ def search_files(path, suffix=None):
         for f in path:
             file_list.extend(search_files(f, suffix))
     elif os.path.isdir(path):
-        # use all files in the given path
-        if suffix is None:
-            file_list = glob.glob("%s/*" % path)
-        elif isinstance(suffix, list):
-            file_list = []
-            for s in suffix:
-                file_list.extend(glob.glob("%s/*%s" % (path, s)))
-        else:
-            file_list = glob.glob("%s/*%s" % (path, suffix))
+        # use all files in the given path, but the hidden ones
+        # (not by glob: neither names nor suffixes are patterns)
+        names = [f for f in os.listdir(path) if not f.startswith('.')]
+        if suffix is not None:
+            suffixes = suffix if isinstance(suffix, list) else [suffix]
+            names = [f for f in names if any(f.endswith(s) for s in suffixes)]
+        file_list = [os.path.join(path, f) for f in names]
         # folders are no files
         file_list = [f for f in file_list if os.path.isfile(f)]
     elif os.path.isfile(path):
-- 
2.43.0


From 7646f1285bbb0186b7522052a60c8c56c9d32898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:10 +0000
Subject: [PATCH 75/78] fix: corpus_analysis failed on folders named with a
 trailing slash

---
 gsapi/bassmine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsapi/bassmine.py b/gsapi/bassmine.py
index ebad3e7..32b1183 100644
--- a/gsapi/bassmine.py
+++ b/gsapi/bassmine.py
@@ -798,12 +798,12 @@ def corpus_analysis(bass_path, drum_path):
 
     print("Bass Files")
     for bf in bass_files:
-        bass_names.append(bf[len(bass_path) + 1:-len('.mid')])
+        bass_names.append(os.path.basename(bf)[:-len('.mid')])
     print("\nNumber of files: ", len(bass_files))
 
     print("\nDrums Files")
     for df in drum_files:
-        drum_names.append(df[len(drum_path) + 1:-len('.mid')])
+        drum_names.append(os.path.basename(df)[:-len('.mid')])
     print("\nNumber of files: ", len(drum_files))
 
     # File counter
-- 
2.43.0


From 972f86955afadb8507167654056db48793e2950c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:26 +0000
Subject: [PATCH 76/78] fix: alignOnGrid repeats silences longer than a step,
 as documented

It compared the tag of an event with the whole list of repeatible tags, so that no event was ever repeated.
Learning and density transforms, which fill their empty steps themselves, stay as they were.
---
 gsapi/gspattern.py      | 2 +-
 gsapi/gsstyles.py       | 2 +-
 gsapi/gstransformers.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 66999d7..362fae5 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -357,7 +357,7 @@ class Pattern(object):
         """
         newEvents = []
         for e in self.events:
-            if e.isTag(repeatibleTags):
+            if any(e.isTag(t) for t in repeatibleTags):
                 evToAdd = e.cutInSteps(stepSize)
             else:
                 evToAdd = [e]
diff --git a/gsapi/gsstyles.py b/gsapi/gsstyles.py
index 877736e..ef8ddb1 100644
--- a/gsapi/gsstyles.py
+++ b/gsapi/gsstyles.py
@@ -524,7 +524,7 @@ class PatternMarkov(object):
         # p.quantize(self.loopDuration*1.0/self.numSteps);
         p.timeStretch(self.numSteps * 1.0 / self.loopDuration)
 
-        p.alignOnGrid(1)
+        p.alignOnGrid(1, repeatibleTags=[])  # empty steps are filled below
         p.removeOverlapped()
         p.fillWithSilences(maxSilenceTime=1)
 
diff --git a/gsapi/gstransformers.py b/gsapi/gstransformers.py
index b8f394f..511d397 100644
--- a/gsapi/gstransformers.py
+++ b/gsapi/gstransformers.py
@@ -222,7 +222,7 @@ class AgnosticDensity(BaseTransformer):
         self.originPattern = pattern.copy()
         self.originDuration = pattern.duration
         self.originPattern.timeStretch(self.numSteps * 1.0 / self.originPattern.duration)
-        self.originPattern.alignOnGrid(1)
+        self.originPattern.alignOnGrid(1, repeatibleTags=[])
         self.currentPattern = self.originPattern.copy()
         self.resetDensities()
         self.createCurrentState()
-- 
2.43.0


From 20dcab7e3e5d9edb02113a12af88f191338689ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:33 +0000
Subject: [PATCH 77/78] fix: colours of the console were put into the records
 of every other handler

ColoredFormatter changed the level name of the record itself, so a handler at
the root logger, or in a file, got it with escape sequences.
---
 gsapi/gslog.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gsapi/gslog.py b/gsapi/gslog.py
index 9785827..9805f8c 100644
--- a/gsapi/gslog.py
+++ b/gsapi/gslog.py
@@ -1,5 +1,6 @@
 from __future__ import absolute_import, division, print_function
 
+import copy
 import logging
 
 
@@ -9,6 +10,8 @@ class ColoredFormatter(logging.Formatter):
 
     def format(self, record):
 
+        # other handlers get the same record
+        record = copy.copy(record)
         levelname = record.levelname
         if ColoredLogger.USE_COLOR_OUTPUT and levelname in COLORS:
             levelname_color = COLOR_SEQ % (
-- 
2.43.0


From ecf30f3284a1f0714ddbac3ba8897c6745226406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:33 +0000
Subject: [PATCH 78/78] fix: a damaged length in a MIDI file could exhaust the
 memory (Python 2)

---
 gsapi/midiio.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/gsapi/midiio.py b/gsapi/midiio.py
index 28adcab..40d8c1a 100644
--- a/gsapi/midiio.py
+++ b/gsapi/midiio.py
@@ -7,7 +7,7 @@ from __future__ import absolute_import, division, print_function
 import logging
 import math
 import sys
-from itertools import chain
+from itertools import chain, islice
 from pprint import pformat
 from struct import pack, unpack
 
@@ -121,12 +121,12 @@ class FileReader(object):
             else:
                 cls = EventRegistry.MetaEvents[cmd]
             datalen = read_varlen(trackdata)
-            data = [next(trackdata) for x in range(datalen)]
+            data = self.parse_data(trackdata, datalen)
             return cls(tick=tick, data=data, metacommand=cmd)
         # is this event a Sysex Event?
         elif SysexEvent.is_event(stsmsg):
             datalen = read_varlen(trackdata)
-            data = [next(trackdata) for x in range(datalen)]
+            data = self.parse_data(trackdata, datalen)
             return SysexEvent(tick=tick, data=data, statusmsg=stsmsg)
         # not a Meta MIDI event or a Sysex event, must be a general message
         else:
@@ -148,6 +148,13 @@ class FileReader(object):
                 return cls(tick=tick, channel=channel, data=data)
         # raise(Warning, "Unknown MIDI Event: " + repr(stsmsg))
 
+    def parse_data(self, trackdata, datalen):
+        # not by range(datalen): a damaged length may be more than fits in the memory
+        data = list(islice(trackdata, min(datalen, sys.maxsize)))
+        if len(data) != datalen:
+            raise EOFError("MIDI track ends in the middle of an event.")
+        return data
+
 
 class FileWriter(object):
     def write(self, midifile, pattern):
-- 
2.43.0

