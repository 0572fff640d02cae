"""P06: histories of edits and saves keep file and model in step."""
import copy

from vlib import gen, model, yw7
from vlib.core import Part, expect
from checks.p05 import foreign

ID = 'P06'
LEVEL = 'exploration'
RULE = ('A project file (with unknown elements) is opened and a random sequence of operations is applied to the novel in memory and to a reference model: set or clear '
        'attributes, dates and assignments; add, remove, move and reorder scenes, chapters, story-world elements and notes; save; reopen. After each save an independent '
        'decoder, and after each reopen the novel, must agree with the model. Non-trivial: a save after at least two effective edits of which one clears or removes something.')
ASSUMPTIONS = ['attributes are cleared with empty values (None means "leave unchanged", as documented)', 'the ID of a deleted element is not given to a new one before the deletion is saved', 'an unscheduled scene is given by empty date and time or empty day and time']
SC_TEXT = ['title', 'desc', 'sceneContent', 'notes', 'goal', 'conflict', 'outcome', 'image', 'field1', 'field2', 'field3', 'field4', 'lastsDays', 'lastsHours', 'lastsMinutes',
           'scnArcs']
CH_TEXT = ['title', 'desc']
W_TEXT = ['title', 'desc', 'image', 'aka']
C_TEXT = W_TEXT + ['notes', 'bio', 'goals', 'fullName']
N_TEXT = ['title', 'desc', 'authorName', 'authorBio', 'fieldTitle1', 'fieldTitle2', 'fieldTitle3', 'fieldTitle4']
WORLD = {'characters': 'srtCharacters', 'locations': 'srtLocations', 'items': 'srtItems'}


def pick(seq, i):
    seq = list(seq)
    return seq[i % len(seq)] if seq else None


def apply(op, n, spec, gone, ctx):
    """Apply an edit to the novel and to the model; return True if it had an effect.

    gone: what has been deleted since the last save. Its IDs are not used again before it is saved: the writer updates
    the element with the same ID, and what the new element leaves at None keeps the value found in the file.
    """
    from pywriter.model.scene import Scene
    from pywriter.model.chapter import Chapter
    from pywriter.model.character import Character
    from pywriter.model.world_element import WorldElement
    from pywriter.model.basic_element import BasicElement
    k, i, v = op['op'], op['i'], copy.deepcopy(op.get('v'))
    if k == 'novel':
        setattr(n, op['a'], v)
        spec[op['a']] = v
    elif k == 'scene':
        s = pick(spec['scenes'], i)
        if s is None:
            return False
        if op['a'] in ('characters', 'locations', 'items'):
            ids = spec[WORLD[op['a']]]
            v = [ids[x % len(ids)] for x in v] if ids else []
            v = list(dict.fromkeys(v))
        setattr(n.scenes[s], op['a'], copy.copy(v))
        spec['scenes'][s][op['a']] = v
    elif k == 'when':
        s = pick(spec['scenes'], i)
        if s is None:
            return False
        for a in ('date', 'time', 'day'):
            setattr(n.scenes[s], a, v[a])
            spec['scenes'][s][a] = v[a]
    elif k == 'chapter':
        c = pick(spec['srtChapters'], i)
        if c is None:
            return False
        setattr(n.chapters[c], op['a'], v)
        spec['chapters'][c][op['a']] = v
    elif k == 'world':
        e = pick(spec[WORLD[op['w']]], i)
        if e is None or not hasattr(getattr(n, op['w'])[e], op['a']):
            return False
        setattr(getattr(n, op['w'])[e], op['a'], copy.copy(v))
        spec[op['w']][e][op['a']] = v
    elif k == 'worldkw':
        e = pick(spec[WORLD[op['w']]], i)
        if e is None:
            return False
        getattr(n, op['w'])[e].kwVar['Field_Link'] = v
        spec[op['w']][e].setdefault('kwVar', {})['Field_Link'] = v
    elif k == 'addscene':
        c = pick(spec['srtChapters'], i)
        new = op['id']
        if c is None or new in spec['scenes'] or ('scenes', new) in gone:
            return False
        s = n.scenes[new] = Scene()
        for a in model.SCENE_ATTRS:
            if a == 'sceneContent' and v.get(a) is None:
                continue
            setattr(s, a, copy.copy(v.get(a)))
        for a in ('characters', 'locations', 'items'):
            setattr(s, a, None)
            v[a] = None
        pos = op['pos'] % (len(spec['chapters'][c]['srtScenes']) + 1)
        n.chapters[c].srtScenes.insert(pos, new)
        spec['chapters'][c]['srtScenes'].insert(pos, new)
        spec['scenes'][new] = v
    elif k == 'delscene':
        s = pick(spec['scenes'], i)
        if s is None:
            return False
        del n.scenes[s]
        gone.add(('scenes', s))
        del spec['scenes'][s]
        for c in spec['srtChapters']:
            for lst in (n.chapters[c].srtScenes, spec['chapters'][c]['srtScenes']):
                if s in lst:
                    lst.remove(s)
    elif k == 'movescene':
        s = pick(spec['scenes'], i)
        c = pick(spec['srtChapters'], op['pos'])
        if s is None or c is None:
            return False
        for d in spec['srtChapters']:
            for lst in (n.chapters[d].srtScenes, spec['chapters'][d]['srtScenes']):
                if s in lst:
                    lst.remove(s)
        n.chapters[c].srtScenes.append(s)
        spec['chapters'][c]['srtScenes'].append(s)
    elif k == 'addchapter':
        new = op['id']
        if new in spec['chapters'] or ('chapters', new) in gone:
            return False
        c = n.chapters[new] = Chapter()
        v = dict(v, srtScenes=[])
        for a in model.CHAPTER_ATTRS:
            setattr(c, a, copy.copy(v[a]))
        pos = op['pos'] % (len(spec['srtChapters']) + 1)
        n.srtChapters.insert(pos, new)
        spec['srtChapters'].insert(pos, new)
        spec['chapters'][new] = v
    elif k == 'delchapter':
        c = pick(spec['srtChapters'], i)
        if c is None or spec['chapters'][c]['srtScenes']:
            return False
        del n.chapters[c]
        gone.add(('chapters', c))
        n.srtChapters.remove(c)
        del spec['chapters'][c]
        spec['srtChapters'].remove(c)
    elif k == 'rotate':
        for lst in (getattr(n, op['w']), spec[op['w']]):
            if len(lst) < 2:
                return False
            lst.insert(op['pos'] % len(lst), lst.pop(i % len(lst)))
    elif k == 'addworld':
        new = op['id']
        if new in spec[WORLD[op['w']]] or (op['w'], new) in gone:
            return False
        e = Character() if op['w'] == 'characters' else WorldElement()
        for a in (model.CHAR_ATTRS if op['w'] == 'characters' else model.WORLD_ATTRS):
            setattr(e, a, copy.copy(v.get(a)))
        getattr(n, op['w'])[new] = e
        getattr(n, WORLD[op['w']]).append(new)
        spec[op['w']][new] = v
        v['kwVar'] = {}
        spec[WORLD[op['w']]].append(new)
    elif k == 'delworld':
        e = pick(spec[WORLD[op['w']]], i)
        if e is None:
            return False
        del getattr(n, op['w'])[e]
        gone.add((op['w'], e))
        getattr(n, WORLD[op['w']]).remove(e)
        del spec[op['w']][e]
        spec[WORLD[op['w']]].remove(e)
        for s in spec['scenes']:
            for x in (n.scenes[s], spec['scenes'][s]):
                lst = getattr(x, op['w']) if not isinstance(x, dict) else x.get(op['w'])
                if lst and e in lst:
                    lst.remove(e)
    elif k == 'addnote':
        new = op['id']
        if new in spec['projectNotes'] or ('notes', new) in gone:
            return False
        p = n.projectNotes[new] = BasicElement()
        p.title, p.desc = v['title'], v['desc']
        n.srtPrjNotes.append(new)
        spec['projectNotes'][new] = v
        spec['srtPrjNotes'].append(new)
    elif k == 'delnote':
        e = pick(spec['srtPrjNotes'], i)
        if e is None:
            return False
        del n.projectNotes[e]
        gone.add(('notes', e))
        n.srtPrjNotes.remove(e)
        del spec['projectNotes'][e]
        spec['srtPrjNotes'].remove(e)
    else:
        raise ValueError(k)
    ctx.label('op ' + k)
    return True


def check(case, ctx):
    import xml.etree.ElementTree as ET
    spec = copy.deepcopy(case['novel'])
    path = ctx.path('p.yw7')
    text = yw7.write(path, spec, case['fmt'])
    f0 = foreign(ET.fromstring(text))
    edits = removals = 0
    gone = set()
    f, n = model.load(path)

    def inherit():
        for c in spec['chapters'].values():
            if (c['title'] or '').startswith('@'):
                c['suppressChapterTitle'] = True
            for s in c['srtScenes']:
                if c['chType']:
                    spec['scenes'][s]['scType'] = c['chType']
        for s in spec['scenes'].values():
            # times of scenes without a date are stored without seconds
            if s.get('time') == '':
                s['time'] = None
            if s.get('day') == '':
                s['day'] = None
            if s.get('date') == '':
                s['date'] = None

    inherit()
    for op in list(case['ops']) + [dict(op='save'), dict(op='reopen')]:
        k = op['op']
        if k in ('save', 'reopen'):
            gone.clear()
        if k == 'save':
            f.write()
            got = yw7.decode(path)
            d = model.diff(model.norm_spec(got), model.norm_spec(spec))
            expect(d is None, f'after a save the file differs from the model: {d}')
            root = ET.parse(path).getroot()
            bad = yw7.anomalies(root, {i: s['scType'] for i, s in spec['scenes'].items()}, {i: c['chType'] for i, c in spec['chapters'].items()})
            expect(not bad, 'the saved file is not as yWriter writes it', bad)
            now = foreign(root)
            for key, v in f0.items():
                kind, i = ('', '') if not key[-1].isdigit() else ('S' if key.startswith('SCENE') else 'C', key.lstrip('SCENEHAPTRF'))
                if (kind == 'S' and i not in spec['scenes']) or (kind == 'C' and i not in spec['chapters']):
                    now.pop(key, None)
                    continue
                expect(now.get(key) == v, f'unmodelled content of {key} changed', now.get(key), v)
            f0 = now
            if edits >= 2 and removals:
                ctx.nontrivial()
            ctx.label('save')
        elif k == 'reopen':
            f.write()
            f, n = model.load(path)
            d = model.diff(model.norm_spec(model.from_novel(n)), model.norm_spec(spec))
            expect(d is None, f'after saving and reopening the novel differs from the model: {d}')
            inherit()
            ctx.label('reopen')
        elif apply(op, n, spec, gone, ctx):
            edits += 1
            if k.startswith('del') or op.get('v') in ('', [], False) or (k == 'when' and not any(op['v'].values())):
                removals += 1
                ctx.label('clear', not k.startswith('del'))


def strategy():
    from hypothesis import strategies as st
    f = gen.text(4)
    li = gen.line(3)
    idx = st.integers(0, 30)
    newid = st.integers(41, 60).map(str)

    def val(a):
        if a in ('title', 'image', 'aka', 'fullName', 'authorName', 'scnArcs') or a.startswith('fieldTitle'):
            return st.one_of(st.just(''), li, li)
        if a.startswith('field'):
            return st.one_of(st.just(''), gen.nums(1, 10))
        if a.startswith('lasts'):
            return st.one_of(st.just(''), gen.SMALLNUM)
        return st.one_of(st.just(''), f, f)

    def setop(op, attrs, **kw):
        return st.sampled_from(attrs).flatmap(lambda a: st.fixed_dictionaries(dict(op=st.just(op), i=idx, a=st.just(a), v=val(a), **{k: st.just(v) for k, v in kw.items()})))

    def fx(op, **kw):
        return st.fixed_dictionaries(dict(op=st.just(op), **kw))

    when = st.one_of(st.tuples(gen.DATE, gen.TIME).map(lambda t: dict(date=t[0], time=t[1], day=None)),
                     st.just(dict(date='', time='', day=None)), st.just(dict(date=None, time='', day='')),
                     st.tuples(gen.nums(-9, 99), gen.HM).map(lambda t: dict(date=None, day=t[0], time=t[1])),
                     gen.nums(-9, 99).map(lambda t: dict(date=None, day=t, time='')))
    w = st.sampled_from(sorted(WORLD))
    opts = [
        setop('novel', N_TEXT), setop('scene', SC_TEXT), setop('scene', SC_TEXT), setop('chapter', CH_TEXT),
        fx('novel', i=idx, a=st.sampled_from(['wordTarget', 'wordCountStart']), v=gen.ints(0, 99999)),
        fx('scene', i=idx, a=st.sampled_from(['appendToPrev', 'doNotExport', 'isReactionScene', 'isSubPlot']), v=gen.BOOL),
        fx('scene', i=idx, a=st.just('scType'), v=gen.ints(0, 3)), fx('scene', i=idx, a=st.just('status'), v=gen.ints(1, 5)),
        fx('scene', i=idx, a=st.just('scnMode'), v=gen.ints(0, 3)), fx('scene', i=idx, a=st.just('tags'), v=gen.tags()),
        fx('scene', i=idx, a=st.sampled_from(sorted(WORLD)), v=st.lists(gen.ints(0, 5), max_size=3)),
        fx('when', i=idx, v=when), fx('when', i=idx, v=when),
        fx('chapter', i=idx, a=st.just('chType'), v=gen.ints(0, 3)), fx('chapter', i=idx, a=st.just('chLevel'), v=gen.ints(0, 1)),
        fx('chapter', i=idx, a=st.sampled_from(['suppressChapterTitle', 'suppressChapterBreak', 'isTrash']), v=gen.BOOL),
        w.flatmap(lambda x: setop('world', C_TEXT if x == 'characters' else W_TEXT, w=x)),
        fx('world', w=w, i=idx, a=st.just('tags'), v=gen.tags()), fx('world', w=st.just('characters'), i=idx, a=st.just('isMajor'), v=gen.BOOL),
        fx('worldkw', w=w, i=idx, v=li),
        fx('addscene', i=idx, pos=idx, id=newid, v=gen.scene(gen.text(4), (), (), (), gen.text(3))), fx('delscene', i=idx), fx('movescene', i=idx, pos=idx),
        fx('addchapter', i=idx, pos=idx, id=newid, v=gen.chapter(gen.text(3))), fx('delchapter', i=idx),
        fx('rotate', w=st.sampled_from(['srtChapters', 'srtCharacters', 'srtLocations', 'srtItems', 'srtPrjNotes']), i=idx, pos=idx),
        fx('addworld', i=idx, w=w, id=newid, v=gen.world(gen.text(3), None, True)), fx('delworld', w=w, i=idx),
        fx('addnote', i=idx, id=newid, v=st.fixed_dictionaries(dict(title=li, desc=f))), fx('delnote', i=idx),
        fx('save'), fx('save'), fx('reopen'), fx('reopen')]
    junk = st.fixed_dictionaries(dict(escaped=gen.BOOL, empty=gen.ints(0, 2), legacy=gen.LEGACY))

    @st.composite
    def s(draw):
        spec = draw(gen.project(orphans=True, max_sc=3, max_ch=3, max_w=2, field=gen.text(3)))
        fmt = draw(junk)
        fmt['junk'] = {'scene' + i: [['Xtra', draw(li)]] for i in spec['scenes']}
        fmt['junk'].update({'chapter' + i: [['Xtra', 'c&' + i]] for i in spec['srtChapters']})
        focus = draw(gen.ints(0, 4))
        ops = draw(oplist if focus < 2 else focused[focus - 2])
        return dict(novel=spec, fmt=fmt, ops=ops)

    # histories that visit the states of a single scene, chapter or story-world element
    one = st.just(0)
    flags = ['appendToPrev', 'doNotExport', 'isReactionScene', 'isSubPlot']
    save = st.sampled_from(['save', 'save', 'reopen']).map(lambda k: [dict(op=k)])

    def history(*ops):
        return st.lists(st.tuples(st.lists(st.one_of(ops), min_size=1, max_size=2), save).map(lambda x: x[0] + x[1]), min_size=3, max_size=9).map(lambda x: [o for y in x for o in y])

    focused = [
        history(fx('scene', i=one, a=st.just('doNotExport'), v=gen.BOOL), fx('scene', i=one, a=st.just('scType'), v=gen.ints(0, 3)),
                fx('scene', i=one, a=st.sampled_from(flags), v=gen.BOOL), fx('scene', i=one, a=st.just('scnMode'), v=gen.ints(0, 3)),
                setop('scene', ['scnArcs', 'sceneContent', 'notes', 'title']).map(lambda o: dict(o, i=0))),
        history(fx('when', i=one, v=when), fx('when', i=one, v=when), fx('scene', i=one, a=st.sampled_from(sorted(WORLD)), v=st.lists(gen.ints(0, 5), max_size=3))),
        history(fx('chapter', i=one, a=st.just('chType'), v=gen.ints(0, 3)), fx('chapter', i=one, a=st.just('chLevel'), v=gen.ints(0, 1)),
                fx('chapter', i=one, a=st.sampled_from(['suppressChapterTitle', 'suppressChapterBreak', 'isTrash']), v=gen.BOOL),
                setop('chapter', CH_TEXT).map(lambda o: dict(o, i=0)), fx('movescene', i=one, pos=idx))]
    oplist = st.lists(st.one_of(opts), min_size=3, max_size=25)
    return s()


PARTS = [Part('history', strategy, check, quick=1200, thorough=24000)]
