#!/usr/bin/env python3
"""Edits of gsapi that keep its behaviour: every check must stay quiet on them.
usage: refactors.py DIR   applies all of them to the copy of /repo in DIR (or those whose numbers follow)"""
import os, sys
R = []


def r(f, old, new):
    R.append((os.path.join('gsapi', f), old, new))


IO, PA, ST, MI, DE, TR, BA = 'gsio.py', 'gspattern.py', 'gsstyles.py', 'midiio.py', 'gsdescriptors.py', 'gstransformers.py', 'bassmine.py'

# gsio: the data are encoded before the file is opened
r(IO, """    with open(filePath, 'w') as f:
        json.dump(myPattern.toJSONDict(useTagIndexing=useTagIndexing), f,
                  cls=encoderClass, indent=1, separators=(',', ':'))
    return os.path.abspath(filePath)
""", """    text = json.dumps(myPattern.toJSONDict(useTagIndexing=useTagIndexing),
                      cls=encoderClass, indent=1, separators=(',', ':'))
    _writeAll(filePath, text, 'w')
    return os.path.abspath(filePath)
""")
r(IO, """        def iterencode(self, item):
            return json.JSONEncoder.iterencode(self, self.checkTuple(item))
""", """        def encode(self, item):
            return json.JSONEncoder.encode(self, self.checkTuple(item))
""")
r(IO, """def _makeFolder(folderPath):
    try:
        os.makedirs(folderPath)
    except OSError:
        # somebody else made it meanwhile
        if not os.path.isdir(folderPath):
            raise
""", """def _makeFolder(folderPath):
    if os.path.isdir(folderPath):
        return
    try:
        os.makedirs(folderPath)
    except OSError:
        # somebody else made it meanwhile
        if not os.path.isdir(folderPath):
            raise


def _writeAll(filePath, data, mode):
    f = open(filePath, mode)
    try:
        f.write(data)
    finally:
        f.close()


def _fileInFolder(folderPath, myPattern, nameSuffix, extension):
    fileName = myPattern.name
    if nameSuffix:
        fileName += nameSuffix
    _makeFolder(folderPath)
    return os.path.join(folderPath, fileName + extension)
""")
r(IO, """    filePath = os.path.join(folderPath, myPattern.name + (nameSuffix or "") + ".pickle")
    if not os.path.exists(folderPath):
        _makeFolder(folderPath)
    with open(filePath, 'wb') as f:
        pickle.dump(myPattern, f)
    return os.path.abspath(filePath)
""", """    filePath = _fileInFolder(folderPath, myPattern, nameSuffix, ".pickle")
    _writeAll(filePath, pickle.dumps(myPattern), 'wb')
    return os.path.abspath(filePath)
""")
r(IO, """    with open(filePath, 'rb') as f:
        return pickle.load(f)


def toPickleFile""", """    with open(filePath, 'rb') as f:
        content = f.read()
    return pickle.loads(content)


def toPickleFile""")
r(IO, """    with open(filePath, 'r') as f:
        return gspattern.Pattern().fromJSONDict(json.load(f, object_hook=hinted_tuple_hook if conserveTuple else None))
""", """    with open(filePath, 'r') as f:
        content = f.read()
    if conserveTuple:
        state = json.loads(content, object_hook=hinted_tuple_hook)
    else:
        state = json.loads(content)
    myPattern = gspattern.Pattern()
    myPattern.fromJSONDict(state)
    return myPattern
""")
# the MIDI export: folder first, events as tuples that are sorted
r(IO, """    lastTick = int(round(myPattern.duration * beatToTick))
    # in order of onset, so that on a same tick a note is released before the
    # next one of that pitch starts
    for e in sorted(myPattern.events, key=lambda x: x.startTime):
        startTick = int(round(beatToTick * e.startTime))
        endTick = int(round(beatToTick * e.endTime()))
        lastTick = max(lastTick, endTick)
        # pitch = e.pitch
        channel = 1
        if isinstance(midiMap, tuple):
            pitch = midiMap[e.tag[0]]
        elif isinstance(midiMap, Hashable):
            pitch = midiMap[e.tag]
        else:
            pitch = e.pitch
        track.append(midiio.NoteOnEvent(tick=startTick, velocity=e.velocity, pitch=pitch, channel=channel))
        track.append(midiio.NoteOffEvent(tick=endTick, velocity=e.velocity, pitch=pitch, channel=channel))
""", """    def pitchOf(e):
        if isinstance(midiMap, tuple):
            return midiMap[e.tag[0]]
        if isinstance(midiMap, Hashable):
            return midiMap[e.tag]
        return e.pitch

    # in order of onset, so that on a same tick a note is released before the
    # next one of that pitch starts
    channel = 1
    endTicks = [int(round(myPattern.duration * beatToTick))]
    inOrder = list(myPattern.events)
    inOrder.sort(key=lambda x: x.startTime)
    for e in inOrder:
        note = {'velocity': e.velocity, 'pitch': pitchOf(e), 'channel': channel}
        endTicks.append(int(round(beatToTick * e.endTime())))
        track.append(midiio.NoteOnEvent(tick=int(round(beatToTick * e.startTime)), **note))
        track.append(midiio.NoteOffEvent(tick=endTicks[-1], **note))
    lastTick = max(endTicks)
""")
r(IO, """    name = name or myPattern.name
    name = name or "tests"
    if ".mid" not in name:
        name += ".mid"
    exportedPath = os.path.join(folderPath, name)

    midiio.write_midifile(exportedPath, pattern)
    return exportedPath
""", """    fileName = name or myPattern.name or "tests"
    exportedPath = os.path.join(folderPath, fileName if ".mid" in fileName else fileName + ".mid")
    with open(exportedPath, 'wb') as f:
        midiio.write_midifile(f, pattern)
    return exportedPath
""")
r(IO, """    for f in glob.glob(midiGlobPath):
        name = os.path.splitext(os.path.basename(f))[0]
        gsioLog.info("getting " + name)
        p = fromMidiFile(f, _noteToTagMap, tracksToGet=tracksToGet, tagFromTrackName=tagFromTrackName, filterOutNotMapped=filterOutNotMapped)
        if desiredLength > 0:
            res += p.splitInEqualLengthPatterns(desiredLength, makeCopy=False)
        else:
            res += [p]
    return res
""", """    for f in glob.iglob(midiGlobPath):
        p = fromMidiFile(f, _noteToTagMap, tracksToGet=tracksToGet, tagFromTrackName=tagFromTrackName, filterOutNotMapped=filterOutNotMapped)
        gsioLog.info("got " + os.path.basename(f))
        res.extend(p.splitInEqualLengthPatterns(desiredLength, makeCopy=False) if desiredLength > 0 else [p])
    return res
""")
r(IO, """                    for i in reversed(myPattern.events):
                        if (i.pitch == pitch) and (i.tag == noteTag) and ((isTrueNoteOff and (curBeat >= i.startTime))
                                                                    or curBeat > i.startTime) and i.duration <= 0.0001 and channelOf[id(i)] == e.channel:
                            foundNoteOn = True
                            i.duration = max(0.0001, curBeat - i.startTime)
                            lastNoteOff = max(curBeat, lastNoteOff)
                            gsioLog.info("set duration %f at start %f " % (i.duration, i.startTime))
                            break
""", """                    for i in myPattern.events[::-1]:
                        if channelOf[id(i)] != e.channel or i.pitch != pitch or i.tag != noteTag:
                            continue
                        if i.duration > 0.0001:
                            continue
                        late = curBeat - i.startTime
                        if late > 0 or (isTrueNoteOff and late == 0):
                            foundNoteOn = True
                            i.duration = max(0.0001, late)
                            if curBeat > lastNoteOff:
                                lastNoteOff = curBeat
                            break
""")
r(IO, """    res = tuple()
    for l in noteMapping:
        for le in noteMapping[l]:
            if (le[0] in {"*", pitch}) and (le[1] in {"*", channel}):
                res += (l,)
    if len(res) == 1:
        return res[0]
    return res
""", """    found = [tag for tag in noteMapping for (p, c) in noteMapping[tag]
             if p in ("*", pitch) and c in ("*", channel)]
    return found[0] if len(found) == 1 else tuple(found)
""")
# midiio
r(MI, """        data = bytearray(midifile.read(trksz))
        if len(data) != trksz:
            raise EOFError("MIDI track is truncated.")
        trackdata = iter(data)
        for datum in trackdata:
            # put the byte back: it starts the event
            eventdata = chain([datum], trackdata)
            try:
                track.append(self.parse_midi_event(eventdata))
            except StopIteration:
                raise EOFError("MIDI track ends in the middle of an event.")
""", """        data = midifile.read(trksz)
        if len(data) < trksz:
            raise EOFError("MIDI track is truncated.")
        trackdata = iter(bytearray(data))
        while True:
            try:
                first = next(trackdata)
            except StopIteration:
                break
            try:
                event = self.parse_midi_event(chain((first,), trackdata))
            except StopIteration:
                raise EOFError("MIDI track ends in the middle of an event.")
            track.append(event)
""")
r(MI, """        for track in pattern:
            self.parse_track(midifile, track)
        return pattern
""", """        for i in range(len(pattern)):
            self.parse_track(midifile, pattern[i])
        return pattern
""")
r(MI, """        self.write_file_header(midifile, pattern)
        for track in pattern:
            self.write_track(midifile, track)
""", """        self.write_file_header(midifile, pattern)
        list(map(lambda track: self.write_track(midifile, track), pattern))
""")
r(MI, """        buf = self.encode_track_header(len(buf)) + buf
        midifile.write(bytes(buf))
""", """        midifile.write(self.encode_track_header(len(buf)))
        midifile.write(bytes(buf))
""")
r(MI, """            if key not in EventRegistry.Events:
                assert self.RunningStatus, "Bad byte value"
                data = []
                key = self.RunningStatus & 0xF0
                cls = EventRegistry.Events[key]
                channel = self.RunningStatus & 0x0F
                data.append(stsmsg)
                data += [next(trackdata) for x in range(cls.length - 1)]
                return cls(tick=tick, channel=channel, data=data)
            else:
                self.RunningStatus = stsmsg
                cls = EventRegistry.Events[key]
                channel = self.RunningStatus & 0x0F
                data = [next(trackdata) for x in range(cls.length)]
                return cls(tick=tick, channel=channel, data=data)
""", """            data = []
            if key in EventRegistry.Events:
                self.RunningStatus = stsmsg
            else:
                assert self.RunningStatus, "Bad byte value"
                data.append(stsmsg)
            status = self.RunningStatus
            cls = EventRegistry.Events[status & 0xF0]
            while len(data) < cls.length:
                data.append(next(trackdata))
            return cls(tick=tick, channel=status & 0x0F, data=data)
""")
# gspattern
r(PA, """        newEvents = []
        for e in self.events:
            if e.isTag(repeatibleTags):
                evToAdd = e.cutInSteps(stepSize)
            else:
                evToAdd = [e]
            for ea in evToAdd:
                ea.startTime = int(ea.startTime / stepSize + 0.5) * stepSize
                # avoid adding last event out of duration range
                if ea.startTime < self.duration:
                    ea.duration = stepSize
                    newEvents += [ea]

        self.events = newEvents
        self.removeOverlapped()
        return self
""", """        def aligned(e):
            step = int(e.startTime / stepSize + 0.5)
            e.startTime = step * stepSize
            return e

        candidates = []
        for e in self.events:
            candidates.extend(e.cutInSteps(stepSize) if e.isTag(repeatibleTags) else [e])
        candidates = [aligned(e) for e in candidates]
        # avoid adding last event out of duration range
        self.events = [e for e in candidates if e.startTime < self.duration]
        for e in self.events:
            e.duration = stepSize
        self.removeOverlapped()
        return self
""")
r(PA, """        p = Pattern()
        p.duration = self.duration
        p.bpm = self.bpm
        p.timeSignature = copy.copy(self.timeSignature)
        p.originFilePath = self.originFilePath
        p.name = self.name
        return p
""", """        return Pattern(duration=self.duration, bpm=self.bpm, timeSignature=copy.copy(self.timeSignature),
                       originFilePath=self.originFilePath, name=self.name)
""")
r(PA, """        onsets = []
        for e in self.events:
            if e.startTime not in onsets:
                onsets.append(e.startTime)
        onsets.sort()
        onsets.append(self.duration)

        for e in self.events:
            e.duration = onsets[onsets.index(e.startTime) + 1] - e.startTime
""", """        onsets = sorted(set(e.startTime for e in self.events))
        following = dict(zip(onsets, onsets[1:] + [self.duration]))
        for e in self.events:
            e.duration = following[e.startTime] - e.startTime
""")
r(PA, """            for e in myPattern.events:
                if e.startTime > lastOff:
                    if maxSilenceTime > 0:
                        while e.startTime - lastOff > maxSilenceTime:
                            newEvents += [
                                Event(lastOff, maxSilenceTime, silPitch, 0,
                                      silTag)]
                            lastOff += maxSilenceTime
                    newEvents += [
                        Event(lastOff, e.startTime - lastOff, silPitch, 0,
                              silTag)]
                newEvents += [e]
                lastOff = max(lastOff, e.startTime + e.duration)

            if lastOff < myPattern.duration:
                if maxSilenceTime > 0:
                    while lastOff < myPattern.duration - maxSilenceTime:
                        newEvents += [
                            Event(lastOff, maxSilenceTime, silPitch, 0,
                                  silTag)]
                        lastOff += maxSilenceTime
                newEvents += [
                    Event(lastOff, myPattern.duration - lastOff, silPitch, 0,
                          silTag)]
            return newEvents
""", """            def _silences(start, end):
                res = []
                while maxSilenceTime > 0 and end - start > maxSilenceTime:
                    res.append(Event(start, maxSilenceTime, silPitch, 0, silTag))
                    start += maxSilenceTime
                res.append(Event(start, end - start, silPitch, 0, silTag))
                return res

            for e in myPattern.events:
                if e.startTime > lastOff:
                    newEvents.extend(_silences(lastOff, e.startTime))
                newEvents.append(e)
                lastOff = max(lastOff, e.endTime())

            if lastOff < myPattern.duration:
                newEvents.extend(_silences(lastOff, myPattern.duration))
            return newEvents
""")
r(PA, """        p = self.copyWithoutEvents()
        p.startTime = startTime
        p.duration = length
        for e in self.events:
            if 0 <= (e.startTime - startTime) < length:
                newEv = e.copy()
                newEv.startTime -= startTime
                p.events += [newEv]
        if trimEnd:
            for e in p.events:
                toCrop = e.startTime + e.duration - length
                if toCrop > 0:
                    e.duration -= toCrop
        return p
""", """        p = self.copyWithoutEvents()
        for e in self.events:
            onset = e.startTime - startTime
            if onset < 0 or onset >= length:
                continue
            newEv = e.copy()
            newEv.startTime = onset
            if trimEnd and onset + newEv.duration > length:
                newEv.duration -= onset + newEv.duration - length
            p.events.append(newEv)
        p.startTime, p.duration = startTime, length
        return p
""")
r(PA, """        tagsList = []
        for e in self.events:
            tagsList += [e.tag]
        tagsList = set(tagsList)
        return tagsList
""", """        return set(e.tag for e in self.events)
""")
r(PA, """        pitchs = []
        for e in self.events:
            pitchs += [e.pitch]
        pitchs = list(set(pitchs))
        return pitchs
""", """        return sorted(set(e.pitch for e in self.events))
""")
r(PA, """        idxToRemove = []
        idx = 0
        for e in self.events:
            if event == e:
                idxToRemove += [idx]
            idx += 1

        for i in reversed(idxToRemove):
            del self.events[i]
""", """        self.events[:] = [e for e in self.events if not event == e]
""")
r(PA, """        for e in list(self.events):
            if e.hasOneOfTags(tuple(tags)):
                self.removeEvent(e)
""", """        wanted = tuple(tags)
        self.events = [e for e in self.events if not e.hasOneOfTags(wanted)]
""")
r(PA, """        self.events.sort(key=lambda x: x.startTime, reverse=False)
""", """        self.events = sorted(self.events, key=lambda x: x.startTime)
""")
r(PA, """            allTags = []
            res['eventTags'] = allTags

            def findIdx(tag):
                if tag not in allTags:
                    allTags.append(tag)
                return allTags.index(tag)
""", """            allTags = []

            def findIdx(tag):
                for i, t in enumerate(allTags):
                    if t == tag:
                        return i
                allTags.append(tag)
                return len(allTags) - 1
""")
r(PA, """                                      'velocity': e.velocity,
                                      'tagsIdx':  findIdxforTags(e.tag)
                                      }]
""", """                                      'velocity': e.velocity,
                                      'tagsIdx':  findIdxforTags(e.tag)
                                      }]
            res['eventTags'] = allTags
""")
r(PA, """        for e in self.events:
            e.startTime *= ratio
            e.duration *= ratio
        self.duration *= ratio
""", """        self.duration = self.duration * ratio
        for e in reversed(self.events):
            e.duration, e.startTime = e.duration * ratio, e.startTime * ratio
""")
r(PA, """        for e in self.events:
            e.pitch += interval
            e.tag = gsutil.pitch2name(e.pitch, gsdefs.defaultPitchNames)
""", """        for i in range(len(self.events)):
            e = self.events[i]
            e.pitch = e.pitch + interval
            e.tag = gsutil.pitch2name(e.pitch, gsdefs.defaultPitchNames)
""")
r(PA, """        self.events += [myEvent]
        self.durationToLastEvent()
""", """        self.events.append(myEvent)
        self.durationToLastEvent()
""")
r(PA, """        res = []
        for e in self.events:
            if 0 <= time - e.startTime < e.duration:
                res += [e]
        return res
""", """        return [e for e in self.events if e.startTime <= time and time - e.startTime < e.duration]
""")
r(PA, """            curPattern = None
            if (not supressEmptyPattern) or curPattern:
                res += [curPattern]
        return res
""".replace("            curPattern = None\n", "                curPattern = None\n"), """                curPattern = None
            if supressEmptyPattern and not curPattern:
                continue
            res.append(curPattern)
        return res
""")
r(PA, """        return copy.deepcopy(self)

    def copyWithoutEvents""", """        return copy.deepcopy(self, {})

    def copyWithoutEvents""")
r(PA, """        return copy.deepcopy(self)

    def cutInSteps""", """        memo = {}
        return copy.deepcopy(self, memo)

    def cutInSteps""")
# gsstyles
r(ST, """        state = self.getInternalState()
        with open(filePath, 'w') as f:
            json.dump(state, f)
""", """        text = json.dumps(self.getInternalState())
        with open(filePath, 'w') as f:
            f.write(text)
""")
r(ST, """        with open(filePath, 'r') as f:
            state = json.load(f)
        if state:
            self.setInternalState(state)
""", """        with open(filePath) as f:
            text = f.read()
        state = json.loads(text)
        if not state:
            return
        self.setInternalState(state)
""")
r(ST, """        with open(filePath, 'rb') as f:
            self.__dict__.update(pickle.load(f).__dict__)
""", """        with open(filePath, 'rb') as f:
            loaded = pickle.loads(f.read())
        self.__dict__.update(vars(loaded))
""")
r(ST, """                curDic = self.transitionTable[int(step)]

                if combinationName not in curDic:
                    curDic[combinationName] = {}

                if curEvent not in curDic[combinationName]:
                    curDic[combinationName][curEvent] = 1
                else:
                    curDic[combinationName][curEvent] += 1

        def _normalize():
            for t in self.transitionTable:
                for d in t:
                    sum = 0
                    for pe in t[d]:
                        sum += t[d][pe]
                    for pe in t[d]:
                        t[d][pe] /= 1.0 * sum

        _normalize()
""", """                counts = self.transitionTable[int(step)].setdefault(combinationName, {})
                counts[curEvent] = counts.get(curEvent, 0) + 1

        for t in self.transitionTable:
            for counts in t.values():
                total = 1.0 * sum(counts.values())
                for event in counts:
                    counts[event] = counts[event] / total
""")
r(ST, """            d = self.transitionTable[step][previousTags]
            chosenIdx = 0
            if len(d) > 1:
                tSum = 0
                bins = []
                for x in d.values():
                    tSum += x
                    bins += [tSum]
                r = rng.random() * tSum
                for i in range(len(bins)):
                    if bins[i] > r:
                        chosenIdx = i
                        break

            return list(d.keys())[chosenIdx]
""", """            d = self.transitionTable[step][previousTags]
            choices = list(d.items())
            if len(choices) > 1:
                r = rng.random() * sum(p for _, p in choices)
                reached = 0
                for event, p in choices:
                    reached += p
                    if reached > r:
                        return event
            return choices[0][0]
""")
r(ST, """        stepSize = 1.0 * self.loopDuration / self.numSteps

        for el in events:
            for tagElem in el:
                if tagElem != 'silence':
                    pattern.events += [
                        Event(idx * stepSize, stepSize, 100, 127,
                              tag=tagElem)]

            idx += 1
        pattern.duration = self.loopDuration
""", """        stepSize = 1.0 * self.loopDuration / self.numSteps
        pattern.duration = self.loopDuration
        for idx, el in enumerate(events):
            pattern.events.extend(Event(idx * stepSize, stepSize, 100, 127, tag=tagElem)
                                  for tagElem in el if tagElem != 'silence')
""")
r(ST, """        res = {"patternList": []}
        for e in self.patternList:
            res["patternList"] += [e.toJSONDict()]
        return res
""", """        return {"patternList": [e.toJSONDict() for e in self.patternList]}
""")
r(ST, """            for n in self.transitionTable[step]:
                for t in self.transitionTable[step][n]:
                    res += [t]
            return res
""", """            for events in self.transitionTable[step].values():
                res.extend(events)
            return res
""")
# bassmine
r(BA, """        l = min(len(patt_kick), len(patt_bass))

        for i in range(l):
            self.update_interlocking(patt_kick[i], patt_bass[i])
""", """        for kick, bass in zip(patt_kick, patt_bass):
            self.update_interlocking(kick, bass)
""")
r(BA, """        count = 0
        for p in pattern:
            if count == 0:
                self.update_initial(p)
            else:
                self.update_temporal(pattern[count - 1], p)
            if count == len(pattern) - 1:
                # the pattern is a loop
                self.update_temporal(p, pattern[0])
            count += 1
""", """        if not len(pattern):
            return
        self.update_initial(pattern[0])
        # the pattern is a loop
        for i in range(len(pattern)):
            self.update_temporal(pattern[i], pattern[(i + 1) % len(pattern)])
""")
r(BA, """        for beat in range(beat_length - 1):
            pattern_idx.append(np.random.choice(NHMM[1][beat][pattern_idx[beat]]['pattern'],
                                                p=NHMM[1][beat][pattern_idx[beat]]['probs']))

    bassline.duration = len(pattern_idx)

    start_times = []
    beat_count = 0
    for idx in pattern_idx:
        st = markov_model.model_dictionary['patterns'][idx]
        if len(st) > 0:
            for s in st:
                bassline.events.append(gspattern.Event(s + beat_count, 0.25, 36, velocity=110, tag="bass"))
        beat_count += 1

    return bassline
""", """        for beat in range(beat_length - 1):
            step = NHMM[1][beat][pattern_idx[-1]]
            pattern_idx.append(np.random.choice(step['pattern'], p=step['probs']))

    bassline.duration = len(pattern_idx)
    for beat_count, idx in enumerate(pattern_idx):
        for s in markov_model.model_dictionary['patterns'][idx]:
            bassline.events.append(gspattern.Event(s + beat_count, 0.25, 36, velocity=110, tag="bass"))

    return bassline
""")
r(BA, """    with open(os.path.join(path, 'NHModel.json'), 'w') as outfile:
        json.dump(out_Model, outfile)
        outfile.close()

    with open(os.path.join(path, 'Model_init.json'), 'w') as outfile:
        json.dump(init_dict, outfile)
        outfile.close()
""", """    for name, content in (('Model_init.json', init_dict), ('NHModel.json', out_Model)):
        with open(os.path.join(path, name), 'w') as outfile:
            outfile.write(json.dumps(content))
""")

# descriptors and transformers
r(DE, """        _checkedPattern = pattern.getPatternWithoutTags(tagToLookFor=self.ignoredTags)
        if self.includedTags:
            _checkedPattern = _checkedPattern.getPatternWithTags(tagToLookFor=self.includedTags, makeCopy=False)
        for e in _checkedPattern.events:
            density += e.duration
        return density
""", """        checked = pattern.getPatternWithoutTags(tagToLookFor=self.ignoredTags, makeCopy=False)
        if self.includedTags:
            checked = checked.getPatternWithTags(tagToLookFor=self.includedTags, makeCopy=False)
        for e in checked:
            density = density + e.duration
        return density
""")
r(DE, """        depth = 1
        weights = [0] * duration
        thresh = 0
        stepWidth = int(duration * 1.0 / depth)
        while stepWidth > thresh:
            for s in range(depth):
                weights[s * stepWidth] += 1
            depth *= 2
            stepWidth = int(duration * 1.0 / depth)
        return weights
""", """        weights = [0] * duration
        depth = 1
        while duration // depth > 0:
            stepWidth = duration // depth
            for position in range(0, depth * stepWidth, stepWidth):
                weights[position] += 1
            depth += depth
        return weights
""")
r(DE, """        noteGrid = [0] * duration
        for i in range(duration):
            noteGrid[i] = len(pattern.activeEventsAtTime(i))
        return noteGrid
""", """        return [len(pattern.activeEventsAtTime(i)) for i in range(duration)]
""")
r(DE, """        allPitches = pattern.getAllPitches()
        pitchDensities = {}

        for pitch in allPitches:
            voice = pattern.getPatternWithPitch(pitch)
            pitchDensities[pitch] = self.densityDescriptor.getDescriptorForPattern(voice)

        chromas = [0] * 12
        for pitch, value in pitchDensities.items():
            chroma = pitch % 12
            chromas[chroma] += value

        elemNum = 0
        for chroma in chromas:
            if chroma > 0:
                elemNum += 1

        if elemNum == 0:
            return "silence"
""", """        chromas = [0] * 12
        for pitch in sorted(pattern.getAllPitches()):
            voice = pattern.getPatternWithPitch(pitch, makeCopy=False)
            chromas[pitch % 12] += self.densityDescriptor.getDescriptorForPattern(voice)

        if not any(chroma > 0 for chroma in chromas):
            return "silence"
""")
r(DE, """    M = None
    Mi = -1
    i = 0
    for chroma in convolution:
        if M is None or chroma > M:
            M = chroma
            Mi = i
        i += 1
    return [M, Mi]
""", """    if not convolution:
        return [None, -1]
    M = max(convolution)
    return [M, convolution.index(M)]
""")
r(TR, """                while len(state['addedNotes']) > numAdded:
                    self.removeEventForTag(key, 2)
                while len(state['removedNotes']) > numRemoved:
                    self.addEventForTag(key, 0)
                while len(state['removedNotes']) < numRemoved:
                    self.removeEventForTag(key, 0)
                while len(state['addedNotes']) < numAdded:
                    self.addEventForTag(key, 2)
                self.normalizedDensities[key] = value
""", """                self.normalizedDensities[key] = value
                for _ in range(len(state['addedNotes']) - numAdded):
                    self.removeEventForTag(key, 2)
                for _ in range(len(state['removedNotes']) - numRemoved):
                    self.addEventForTag(key, 0)
                for _ in range(numRemoved - len(state['removedNotes'])):
                    self.removeEventForTag(key, 0)
                for _ in range(numAdded - len(state['addedNotes'])):
                    self.addEventForTag(key, 2)
""")
r(TR, """        for iteration in range(len(l)):
            idx1 = iteration
            idx2 = random.randint(0, len(l) - 1)
            t = l[idx1]
            l[idx1] = l[idx2]
            l[idx2] = t
""", """        for idx1 in range(len(l)):
            idx2 = random.randrange(len(l))
            l[idx1], l[idx2] = l[idx2], l[idx1]
""")
r(TR, """        res = self.currentPattern.copy()
        res.timeStretch(self.originDuration * 1.0 / self.numSteps)
        return res
""", """        ratio = self.originDuration * 1.0 / self.numSteps
        res = self.currentPattern.copy()
        res.timeStretch(ratio)
        return res
""")
r('gsdataset.py', """        self.patterns = []
        for p in self.files:
            gsdatasetLog.info('Parsing ' + p)
            p = gsio.fromMidiFile(p, self.midiMap, tracksToGet=[],
                                  checkForOverlapped=self.checkForOverlapped)
            self.patterns += [p]
        return self.patterns
""", """        self.patterns = [gsio.fromMidiFile(f, self.midiMap, tracksToGet=[],
                                           checkForOverlapped=self.checkForOverlapped)
                         for f in self.files]
        return self.patterns
""")
r('gsdataset.py', """            self.idx = random.randint(0, len(self.files) - 1)
""", """            self.idx = random.randrange(len(self.files))
""")

r('gslog.py', """        record = copy.copy(record)
        levelname = record.levelname
        if ColoredLogger.USE_COLOR_OUTPUT and levelname in COLORS:
            levelname_color = COLOR_SEQ % (
            30 + COLORS[levelname]) + levelname + RESET_SEQ
            record.levelname = levelname_color
            record.boldSeq = BOLD_SEQ
            record.resetSeq = RESET_SEQ
        else:
            record.boldSeq = ""
            record.resetSeq = ""

        return logging.Formatter.format(self, record)
""", """        shown = copy.copy(record)
        shown.boldSeq = shown.resetSeq = ""
        color = COLORS.get(shown.levelname) if ColoredLogger.USE_COLOR_OUTPUT else None
        if color is not None:
            shown.levelname = "%s%s%s" % (COLOR_SEQ % (30 + color), shown.levelname, RESET_SEQ)
            shown.boldSeq, shown.resetSeq = BOLD_SEQ, RESET_SEQ
        return logging.Formatter.format(self, shown)
""")
r('gslog.py', """    def __init__(self, name):
        logging.Logger.__init__(self, name)
        return
""", """    def __init__(self, name, level=logging.NOTSET):
        logging.Logger.__init__(self, name, level)
""")
r(IO, """    if not foundTimeSignatureEvent:
        gsioLog.info(myPattern.name + ": no Time Signature event found.")
    if not foundTempo:
        gsioLog.info(myPattern.name + ": no Tempo event found.")
    if not foundKey:
        gsioLog.info(myPattern.name + ": no Key event found.")
""", """    for found, what in ((foundTimeSignatureEvent, "Time Signature"), (foundTempo, "Tempo"), (foundKey, "Key")):
        if not found:
            gsioLog.info("%s: no %s event found.", myPattern.name, what)
""")
r(IO, """                if not noteTag:
                    if [e.channel, pitch] not in notFoundTags:
                        gsioLog.info(myPattern.name +
                                     ": no tags found for pitch %d on channel %d"
                                     % (pitch, e.channel))
                        notFoundTags += [[e.channel, pitch]]
                    if filterOutNotMapped:
                        continue
""", """                if not noteTag:
                    key = (e.channel, pitch)
                    if gsioLog.isEnabledFor(logging.INFO) and key not in notFoundTags:
                        gsioLog.info("%s: no tags found for pitch %d on channel %d", myPattern.name, pitch, e.channel)
                        notFoundTags.append(key)
                    if filterOutNotMapped:
                        continue
""")
r(IO, """                if isNoteOn:
                    if extremeLog: gsioLog.debug("on %d %f" % (pitch, curBeat))
                    myPattern.events""", """                if extremeLog and (isNoteOn or isNoteOff):
                    gsioLog.debug("%s at %f: %d", "on" if isNoteOn else "off", curBeat, pitch)
                if isNoteOn:
                    myPattern.events""")
r(IO, """                    if extremeLog:
                        gsioLog.debug("off %d %f" % (pitch, curBeat))
                    foundNoteOn""", """                    foundNoteOn""")
r(MI, """            if cmd not in EventRegistry.MetaEvents:
                midiioLog.warning("Unknown Meta MIDI Event: " + repr(cmd))
                cls = UnknownMetaEvent
            else:
                cls = EventRegistry.MetaEvents[cmd]
""", """            cls = EventRegistry.MetaEvents.get(cmd, UnknownMetaEvent)
            if cls is UnknownMetaEvent:
                midiioLog.warning("Unknown Meta MIDI Event: %r", cmd)
""")
r(PA, """        if isinstance(tag, list):
            gspatternLog.error("'tag' can't be a list, converting to tuple.")
            self.tag = tuple(tag)
        elif not isinstance(tag, Hashable):
            gspatternLog.error("'tag' has to be hashable, trying conversion to tuple.")
            self.tag = (tag,)
        else:
            self.tag = tag
""", """        self.tag = _hashableTag(tag)
""")
r(PA, """class Event(object):
""", """def _hashableTag(tag):
    if isinstance(tag, Hashable) and not isinstance(tag, list):
        return tag
    if isinstance(tag, list):
        gspatternLog.error("'tag' can't be a list, converting to tuple.")
        return tuple(tag)
    gspatternLog.error("'tag' has to be hashable, trying conversion to tuple.")
    return (tag,)


class Event(object):
""")


def main():
    d = sys.argv[1]
    which = [int(x) for x in sys.argv[2:]] or range(len(R))
    for k in which:
        f, old, new = R[k]
        p = os.path.join(d, f)
        t = open(p, encoding='utf-8').read()
        if t.count(old) != 1:
            print(k, f, 'matches', t.count(old), repr(old[:60]))
            continue
        open(p, 'w', encoding='utf-8').write(t.replace(old, new))


if __name__ == '__main__':
    main()
