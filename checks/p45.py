"""P45: template-based exporters fill in exactly what the project contains."""
import copy
import os
from urllib.parse import quote

from vlib import faults, gen, model, yw7
from vlib.core import Part, expect, expect_eq

ID = 'P45'
LEVEL = 'exploration'
RULE = ('An exporter class (a text format) is made of generated templates, each with generated placeholders of its level (among them unknown ones, doubled and single dollar signs, braces), generated filters for '
        'chapters, scenes and story-world elements, and a conversion that encloses every text it gets. It writes a generated project, possibly read from a file and possibly over an existing document, and '
        'the text is compared with the one of a reference implementation. The second part injects errors into the writing. Non-trivial: a scene or story-world template with placeholders was filled in.')
ASSUMPTIONS = ['a first-scene template is only used together with the template for normal scenes (as all exporters of the library do)',
               'text, tags and titles go through the conversion method of the class; IDs, numbers, dates, languages and the project path do not']

HEADER = ['Title', 'Desc', 'AuthorName', 'AuthorBio', 'FieldTitle1', 'FieldTitle2', 'FieldTitle3', 'FieldTitle4', 'Language', 'Country']
CHAPTER = ['ID', 'ChapterNumber', 'Title', 'Desc', 'ProjectName', 'ProjectPath', 'Language', 'Country']
SCENE = ['ID', 'SceneNumber', 'Title', 'Desc', 'WordCount', 'WordsTotal', 'LetterCount', 'LettersTotal', 'Status', 'SceneContent', 'FieldTitle1', 'FieldTitle2', 'FieldTitle3', 'FieldTitle4',
         'Field1', 'Field2', 'Field3', 'Field4', 'Date', 'Time', 'Day', 'ScDate', 'LastsDays', 'LastsHours', 'LastsMinutes', 'Duration', 'ReactionScene', 'Goal', 'Conflict', 'Outcome',
         'Tags', 'Image', 'Characters', 'Viewpoint', 'Locations', 'Items', 'Notes', 'ProjectName', 'ProjectPath', 'Language', 'Country']
WORLD = ['ID', 'Title', 'Desc', 'Tags', 'Image', 'AKA', 'ProjectName', 'ProjectPath']
CHARACTER = WORLD + ['Notes', 'Bio', 'Goals', 'FullName', 'Status']
NOTE = ['ID', 'Title', 'Desc', 'ProjectName', 'ProjectPath']
LEVELS = {
    'fileHeader': HEADER,
    'partTemplate': CHAPTER, 'chapterTemplate': CHAPTER, 'notesPartTemplate': CHAPTER, 'todoPartTemplate': CHAPTER, 'notesChapterTemplate': CHAPTER, 'todoChapterTemplate': CHAPTER,
    'unusedChapterTemplate': CHAPTER, 'notExportedChapterTemplate': CHAPTER, 'chapterEndTemplate': CHAPTER, 'unusedChapterEndTemplate': CHAPTER, 'notExportedChapterEndTemplate': CHAPTER,
    'notesChapterEndTemplate': CHAPTER, 'todoChapterEndTemplate': CHAPTER,
    'sceneTemplate': SCENE, 'firstSceneTemplate': SCENE, 'appendedSceneTemplate': SCENE, 'notesSceneTemplate': SCENE, 'todoSceneTemplate': SCENE, 'unusedSceneTemplate': SCENE,
    'notExportedSceneTemplate': SCENE,
    'characterTemplate': CHARACTER, 'locationTemplate': WORLD, 'itemTemplate': WORLD, 'projectNoteTemplate': NOTE}
PLAIN = {'ID', 'ChapterNumber', 'SceneNumber', 'WordCount', 'WordsTotal', 'LetterCount', 'LettersTotal', 'Status', 'Date', 'Time', 'Day', 'ScDate', 'LastsDays', 'LastsHours', 'LastsMinutes',
         'Duration', 'ReactionScene', 'ProjectPath', 'Language', 'Country'}
TYPES = {1: 'notes', 2: 'todo', 3: 'unused'}


def template(pieces):
    return ''.join(p if isinstance(p, str) else '${%s}' % p[0] if p[1] else '$' + p[0] + ' ' for p in pieces)


def fill(pieces, mapping, wrap):
    r = ''
    for p in pieces:
        if isinstance(p, str):
            r += p.replace('$$', '$')
            continue
        name, braces = p
        if name in mapping:
            v = str('' if mapping[name] is None else mapping[name])
            r += v if name in PLAIN or not wrap else f'⟨{v}⟩'
            r += '' if braces else ' '
        else:
            r += '${%s}' % name if braces else '$' + name + ' '
    return r


def scene_mapping(spec, counts, i, project, path, number, words, letters):
    s = spec['scenes'][i]
    titles = {k: [spec[k][x]['title'] or '' for x in s[k] or []] for k in ('characters', 'locations', 'items')}
    lasts = {k: s[k] if s[k] and s[k] != '0' else '' for k in ('lastsDays', 'lastsHours', 'lastsMinutes')}
    dated = s['date'] and s['date'] != '0001-01-01'
    day = '' if dated or s['day'] is None else s['day']
    m = dict(ID=i, SceneNumber=number or '', Title=s['title'], Desc=s['desc'], WordCount=counts[i][0], WordsTotal=words, LetterCount=counts[i][1], LettersTotal=letters,
             Status=['', 'Outline', 'Draft', '1st Edit', '2nd Edit', 'Done'][s['status'] or 0], SceneContent=s['sceneContent'],
             Date=s['date'] if dated else '', Day=day, ScDate=s['date'] if dated else f'Day {day}' if day != '' else '', Time=s['time'][:5] if s['time'] else '',
             LastsDays=lasts['lastsDays'], LastsHours=lasts['lastsHours'], LastsMinutes=lasts['lastsMinutes'],
             Duration=(lasts['lastsDays'] + 'd ' if lasts['lastsDays'] else '') + (lasts['lastsHours'] + 'h ' if lasts['lastsHours'] else '') + (lasts['lastsMinutes'] + 'min' if lasts['lastsMinutes'] else ''),
             ReactionScene='R' if s['isReactionScene'] else 'A', Goal=s['goal'], Conflict=s['conflict'], Outcome=s['outcome'], Tags=', '.join(s['tags'] or []), Image=s['image'],
             Characters=', '.join(titles['characters']), Viewpoint=(titles['characters'] + [''])[0], Locations=', '.join(titles['locations']), Items=', '.join(titles['items']),
             Notes=s['notes'], ProjectName=project, ProjectPath=path, Language=spec['languageCode'], Country=spec['countryCode'])
    for k in '1234':
        m['FieldTitle' + k] = spec['fieldTitle' + k]
        m['Field' + k] = s['field' + k]
    return m


def reference(case, spec, counts, project, path):
    t = case['templates']
    wrap = case['wrap']
    out = []

    def put(name, mapping):
        if t.get(name):
            out.append(fill(t[name], mapping, wrap))

    def accepted(kind, i):
        return i not in case['rejected'][kind]

    put('fileHeader', {k: spec[k[0].lower() + k[1:]] for k in HEADER if k not in ('Language', 'Country')} | dict(Language=spec['languageCode'], Country=spec['countryCode']))
    chapters = scenes = words = letters = 0
    for c in spec['srtChapters']:
        if not accepted('chapters', c):
            continue
        d = spec['chapters'][c]
        excluded = bool(d['srtScenes']) and all(spec['scenes'][s]['doNotExport'] for s in d['srtScenes'])
        number = ''
        if d['chType'] in (1, 2):
            name = TYPES[d['chType']] + ('Part' if d['chLevel'] == 1 else 'Chapter') + 'Template'
        elif d['chType'] == 3:
            name = 'unusedChapterTemplate'
        elif excluded:
            name = 'notExportedChapterTemplate'
        elif d['chLevel'] == 1 and t.get('partTemplate'):
            name = 'partTemplate'
        else:
            name = 'chapterTemplate'
            chapters += 1
            number = chapters
        mapping = dict(ID=c, ChapterNumber=number, Title=d['title'], Desc=d['desc'], ProjectName=project, ProjectPath=path, Language=spec['languageCode'], Country=spec['countryCode'])
        put(name, mapping)
        first = True
        for s in d['srtScenes']:
            if not accepted('scenes', s):
                continue
            e = spec['scenes'][s]
            typ = d['chType'] or e['scType'] or 0
            num = 0
            if typ:
                name = TYPES[typ] + 'SceneTemplate'
            elif e['doNotExport'] or excluded:
                name = 'notExportedSceneTemplate'
            elif (e['sceneContent'] or '').startswith(('<HTML>', '<TEX>')):
                continue
            else:
                name = 'sceneTemplate'
                scenes += 1
                num = scenes
                words += counts[s][0]
                letters += counts[s][1]
                if not first and e['appendToPrev'] and t.get('appendedSceneTemplate'):
                    name = 'appendedSceneTemplate'
            if not t.get(name) and name != 'sceneTemplate':
                continue
            if not first and not e['appendToPrev']:
                out.append(case['divider'])
            if first and t.get('firstSceneTemplate'):
                name = 'firstSceneTemplate'
            put(name, scene_mapping(spec, counts, s, project, path, num, words, letters))
            first = False
        if d['chType']:
            name = TYPES[d['chType']] + 'ChapterEndTemplate'
        elif excluded:
            name = 'notExportedChapterEndTemplate'
        else:
            name = 'chapterEndTemplate'
        put(name, mapping)
    for kind, srt, word in (('characters', 'srtCharacters', 'character'), ('locations', 'srtLocations', 'location'), ('items', 'srtItems', 'item')):
        out.append(case['headings'].get(word, ''))
        for i in spec[srt]:
            if accepted(kind, i):
                e = spec[kind][i]
                put(word + 'Template', dict(ID=i, Title=e['title'], Desc=e['desc'], Tags=', '.join(e['tags'] or []), Image=e['image'], AKA=e['aka'], ProjectName=project, ProjectPath=path,
                                            **(dict(Notes=e['notes'], Bio=e['bio'], Goals=e['goals'], FullName=e['fullName'], Status='Major' if e['isMajor'] else 'Minor') if word == 'character' else {})))
    for i in spec['srtPrjNotes']:
        e = spec['projectNotes'][i]
        put('projectNoteTemplate', dict(ID=i, Title=e['title'], Desc=e['desc'], ProjectName=project, ProjectPath=path))
    out.append(case['footer'])
    return ''.join(out)


def exporter(case):
    from pywriter.file.file_export import FileExport
    from pywriter.file.filter import Filter

    class Reject(Filter):

        def __init__(self, ids):
            self.ids = ids

        def accept(self, source, eId):
            return eId not in self.ids

    class Exporter(FileExport):
        DESCRIPTION = 'Text'
        EXTENSION = '.txt'
        SUFFIX = case['suffix']

        def __init__(self, filePath, **kwargs):
            super().__init__(filePath, **kwargs)
            for kind, ids in case['rejected'].items():
                if ids:
                    setattr(self, f'_{kind[:-1]}Filter', Reject(ids))

        if case['wrap']:
            def _convert_from_yw(self, text, quick=False):
                return f'⟨{text or ""}⟩'

    for name, pieces in case['templates'].items():
        setattr(Exporter, '_' + name, template(pieces))
    for word, text in case['headings'].items():
        if not text:
            continue
        setattr(Exporter, f'_{word}SectionHeading', text)
    for attr, text in (('_sceneDivider', case['divider']), ('_fileFooter', case['footer'])):
        if text:
            setattr(Exporter, attr, text)
    return Exporter


def prepare(case, ctx):
    spec = copy.deepcopy(case['novel'])
    d = ctx.path(case['dir'])
    os.makedirs(d)
    path = os.path.join(d, case['name'] + case['suffix'] + '.txt')
    if case['read']:
        p = os.path.join(d, 'source.yw7')
        yw7.write(p, spec)
        __, n = model.load(p)
        got = model.from_novel(n)
        spec.update({k: got[k] for k in got if k not in ('languages', 'languageCode', 'countryCode')})
        n.languageCode, n.countryCode = spec['languageCode'], spec['countryCode']
    else:
        for c in spec['chapters'].values():
            for s in c['srtScenes']:
                spec['scenes'][s]['scType'] = c['chType'] or spec['scenes'][s]['scType']
        n = model.to_novel(spec)
    counts = {i: (s.wordCount, s.letterCount) for i, s in n.scenes.items()}
    want = reference(case, spec, counts, quote(case['name']), quote(os.path.realpath(d), '/:'))
    return path, n, want


def text(path):
    with open(path, encoding='utf-8') as f:
        return f.read()


def check(case, ctx):
    path, n, want = prepare(case, ctx)
    f = exporter(case)(path)
    f.novel = n
    for k in range(case['times']):
        f.write()
        got = text(path)
        if got != want:
            k = next((k for k, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
            expect(False, f'the document differs from what the templates say at {k}: {got[max(0, k - 60):k + 60]!r}, expected {want[max(0, k - 60):k + 60]!r}')
        if k:
            expect_eq(text(path + '.bak'), want, 'the backup')
    used = {name for name, pieces in case['templates'].items() if any(not isinstance(p, str) for p in pieces)}
    ctx.nontrivial(used and len(want) > 10 and (n.scenes or n.srtCharacters or n.srtLocations or n.srtItems or n.srtPrjNotes))
    for name in used:
        ctx.label(name)
    ctx.label('filtered', any(case['rejected'].values()))
    ctx.label('converted', case['wrap'])
    ctx.label('second chapter and scene', any(len(c['srtScenes']) > 1 for c in case['novel']['chapters'].values()) and len(case['novel']['srtChapters']) > 1)


def failing(case, ctx):
    from pywriter.pywriter_globals import Error
    path, n, want = prepare(case, ctx)
    previous = None
    if case['previous']:
        previous = 'previous\n'
        with open(path, 'w', encoding='utf-8') as f:
            f.write(previous)
    f = exporter(case)(path)
    f.novel = n
    kind, v = case['fault']
    fault = faults.fault([kind, v if kind == 'event' else len(want.encode()) * v // 100])
    error = None
    with fault:
        try:
            f.write()
        except Error as ex:
            error = ex
    took = fault.fired or (fault.size is not None and error)
    ctx.nontrivial(took)
    ctx.label(f'{kind} took effect', took)
    expect(took or error is None, 'an error without a cause', error)
    if error is None:
        expect_eq(text(path), want, 'reported as written, but the document is not complete')
        if previous:
            expect_eq(text(path + '.bak'), previous, 'the backup')
    elif previous:
        expect(any(os.path.isfile(p) and text(p) == previous for p in (path, path + '.bak')), 'the previous document is neither in place nor in the backup', error)
    f.write()
    expect_eq(text(path), want, 'a later export with the same object')


def strategy(part):
    def make():
        from hypothesis import strategies as st
        literal = st.sampled_from(['\n', ' | ', '<p>', '$$', '$$Title ', '"', '{Title}', '; ', ' 5$$ ', 'é—', '%s', '\\n', '{}'])

        def pieces(names):
            hole = st.tuples(st.sampled_from(names), gen.BOOL).map(list)
            return st.lists(st.one_of(hole, hole, hole, literal, st.sampled_from([['Nope', True], ['nope', False]])), max_size=6)

        tpl = {name: st.tuples(st.just('[' + name[:3] + name[-12:-8] + ':'), pieces(names)).map(lambda t: [t[0]] + t[1]) for name, names in LEVELS.items()}
        content = gen.one_of(gen.text(8), gen.text(8), st.sampled_from(['<HTML>x', '<TEX>y', 'a $Title b', 'one two', '']))

        @st.composite
        def s(draw):
            spec = draw(gen.novel(orphans=True, max_ch=4, max_sc=6, max_w=3, content=content, field=gen.text(4)))
            spec['languageCode'], spec['countryCode'] = draw(gen.sampled(('en', 'US'), ('de', 'DE'), ('zxx', 'none')))
            for e in spec['scenes'].values():
                if e['date'] and draw(gen.ints(0, 5)) == 0:
                    e['date'] = '0001-01-01'
                for a in ('lastsDays', 'lastsHours', 'lastsMinutes'):
                    if e[a] and draw(gen.ints(0, 3)) == 0:
                        e[a] = '0'
            gen.shown(draw, spec)
            optional = draw(names)
            t = {name: draw(tpl[name]) for name in sorted(LEVELS) if name in optional or (name in ('sceneTemplate', 'chapterTemplate') and draw(gen.ints(0, 5)))}
            if draw(gen.BOOL):
                for name in list(t):
                    if name.startswith(('notes', 'todo', 'unused', 'notExported')) and 'Scene' in name:
                        del t[name]
            else:
                t.pop('firstSceneTemplate', None)
            rejected = {}
            for kind, ids in (('chapters', spec['srtChapters']), ('scenes', sorted(spec['scenes'])), ('characters', spec['srtCharacters']), ('locations', spec['srtLocations']), ('items', spec['srtItems'])):
                rejected[kind] = [i for i in ids if draw(gen.ints(0, 3)) == 0] if draw(gen.ints(0, 2)) == 0 else []
            case = dict(novel=spec, templates=t, rejected=rejected, divider=draw(gen.sampled('', '\n* * *\n', '$Title $$')), footer=draw(gen.sampled('', '</end>', '$Title')),
                        headings={w: draw(gen.sampled('', '<h>' + w, '$Title')) for w in ('character', 'location', 'item')}, wrap=draw(gen.BOOL), suffix=draw(gen.sampled('', '_export')),
                        name=draw(gen.sampled('p', 'my novel', 'a.txt b', 'Ünï & co', '100%', 'a#b')), dir=draw(gen.sampled('d', 'the dir', 'ä+b')), read=draw(gen.BOOL), times=draw(gen.sampled(1, 1, 2)))
            if part == 'faults':
                case['previous'] = draw(gen.BOOL)
                case['fault'] = draw(fault)
            return case

        names = st.sets(st.sampled_from(sorted(LEVELS)), max_size=25).flatmap(lambda x: st.sampled_from([tuple(sorted(x)), tuple(sorted(LEVELS)), tuple(sorted(set(LEVELS) - x))]))
        fault = st.one_of(st.tuples(st.just('event'), st.integers(0, 3)), st.tuples(st.just('fsize'), st.integers(0, 100))).map(list)
        return s()
    return make


PARTS = [Part('templates', strategy('templates'), check, quick=900, thorough=20000),
         Part('faults', strategy('faults'), failing, quick=300, thorough=5000)]
