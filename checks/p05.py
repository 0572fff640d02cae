"""P05: opening and saving keeps what the library does not model, and is idempotent."""
import xml.etree.ElementTree as ET

from vlib import gen, model, yw7
from vlib.core import Part, expect, expect_eq

ID = 'P05'
LEVEL = 'exploration'
RULE = ('Project files serialized by the harness, with unknown elements (any text) in project, scenes, chapters, field lists and at the root, and project variables, '
        'are read and saved three times (by the same and by fresh objects). Unknown leaves, project variables and modelled values are compared with the original by an '
        'independent parser; saves two and three must be byte-identical and the backup must equal the previous version. Non-trivial: at least one unknown element with text.')
ASSUMPTIONS = ['yWriter\'s computed or obsolete elements (counts, RTF names, sort order, BelongsToChID, SavedWith, SavedOn, language fields) may be dropped',
               'unknown elements within characters, locations, items and notes are outside the property (these sections are rebuilt)']
MODELLED_SCENE = {'Title', 'Desc', 'SceneContent', 'Unused', 'Fields', 'ExportCondSpecific', 'ExportWhenRTF', 'Status', 'Notes', 'Tags', 'Field1', 'Field2',
                  'Field3', 'Field4', 'AppendToPrev', 'SpecificDateTime', 'SpecificDateMode', 'Day', 'Hour', 'Minute', 'LastsDays', 'LastsHours', 'LastsMinutes',
                  'ReactionScene', 'SubPlot', 'Goal', 'Conflict', 'Outcome', 'ImageFile', 'Characters', 'Locations', 'Items', 'WordCount', 'LetterCount', 'RTFFile',
                  'BelongsToChID', 'SortOrder'}
MODELLED_CHAPTER = {'Title', 'Desc', 'Unused', 'Fields', 'SectionStart', 'Type', 'ChapterType', 'Scenes', 'SortOrder'}
MODELLED_PROJECT = {'Ver', 'Title', 'Desc', 'AuthorName', 'Bio', 'FieldTitle1', 'FieldTitle2', 'FieldTitle3', 'FieldTitle4', 'WordTarget', 'WordCountStart', 'Fields',
                    'SavedWith', 'SavedOn'}
KNOWN_FIELDS = {'Field_SceneType', 'Field_SceneArcs', 'Field_SceneMode', 'Field_SuppressChapterTitle', 'Field_SuppressChapterBreak', 'Field_IsTrash', 'Field_SceneStyle',
                'Field_LanguageCode', 'Field_CountryCode'}


XTYPES = [((False, None), (False, '0')), ((True, '1'), (False, '1')), ((True, '2'), (False, '2')), ((True, '0'), (True, None))]

NESTED = [['Xtra8 a="1"', 'x'], ['Xtra9', [['Title', 'a&b'], ['ID', '77'], ['Desc', '<x>']]], ['Xtra9', [['ScID', '1'], ['a', [['b c="d&amp;e"', '']]]]], ['Xtra7 Unused="1" Status="2"', '']]

def foreign(root):
    r = {'project': sorted(yw7.leaf_texts(root.find('PROJECT'), MODELLED_PROJECT))}
    f = root.find('PROJECT/Fields')
    if f is not None:
        r['projectfields'] = sorted((x.tag, x.text or '') for x in f if x.tag not in KNOWN_FIELDS)
    for tag, known in (('SCENE', MODELLED_SCENE), ('CHAPTER', MODELLED_CHAPTER)):
        for e in root.iter(tag):
            i = e.find('ID').text
            r[tag + i] = sorted(yw7.leaf_texts(e, known))
            f = e.find('Fields')
            if f is not None:
                v = sorted((x.tag, x.text or '') for x in f if x.tag not in KNOWN_FIELDS)
                if v:
                    r[tag + 'F' + i] = v
    r['root'] = sorted(yw7.leaf_texts(root, ('LOCATIONS', 'ITEMS', 'CHARACTERS', 'PROJECTNOTES', 'SCENES', 'CHAPTERS', 'PROJECTVARS', 'PROJECT')))
    r = {k: v for k, v in r.items() if v or not k.endswith('fields')}
    return r


def everything(junk):
    for tag, value in junk:
        if isinstance(value, str):
            yield tag, value
        else:
            yield tag, ''
            yield from everything(value)


FLAGS = ['isTrash', 'suppressChapterTitle', 'suppressChapterBreak']
SFLAGS = ['appendToPrev', 'isReactionScene', 'isSubPlot', 'doNotExport']
STEXT = ['title', 'desc', 'notes', 'sceneContent', 'goal', 'conflict', 'outcome', 'image', 'field1', 'lastsHours', 'scnArcs']


def change(n, k, value, text):
    """Change one modelled value of every element."""
    for i in n.srtChapters:
        c = n.chapters[i]
        if k < 3:
            setattr(c, FLAGS[k], value)
        elif k == 3:
            c.chType = 0 if value else 3
        elif k == 4:
            c.chLevel = 1 if value else 0
        elif k == 5:
            c.title, c.desc = text, text
    for s in n.scenes.values():
        if k < 4:
            setattr(s, SFLAGS[k], value)
        elif k == 4:
            s.scType = 0 if value else 1
        elif k == 5:
            s.date, s.time, s.day = ('2020-02-02', '10:00:00', None) if value else (None, '10:00:00', '3')
        elif k == 6:
            s.date, s.time, s.day = '', '', ''
        elif k == 7:
            s.tags = None if value else ['x']
            s.scnMode = 1 if value else 0
        else:
            setattr(s, STEXT[k % len(STEXT)], text)
    if k == 6:
        n.title = n.desc = n.authorName = n.authorBio = n.fieldTitle1 = text


def read_bytes(p):
    with open(p, 'rb') as f:
        return f.read()


def check(case, ctx):
    spec, fmt = case['novel'], case['fmt']
    path = ctx.path('p.yw7')
    text = yw7.write(path, spec, fmt)
    root0 = ET.fromstring(text)
    f0 = foreign(root0)
    v0 = yw7.projectvars(root0)
    first = read_bytes(path)
    f, n = model.load(path)
    f.write()
    expect_eq(read_bytes(path + '.bak'), first, 'the backup differs from the previous version')
    one = read_bytes(path)
    root1 = ET.fromstring(one)
    d = model.diff(foreign(root1), f0)
    expect(d is None, f'unmodelled content changed by a save: {d}')
    v1 = yw7.projectvars(root1)
    if not case['implausible']:
        for i, t, desc, tags in v0:
            expect((i, t, desc, tags) in v1, f'project variable {t!r} was changed or lost', v0, v1)
    # what the saved file says (scenes inherit the types of chapters on reading)
    d = model.diff(model.norm_spec(yw7.decode(path)), model.norm_spec(spec))
    expect(d is None, f'modelled content changed by a save: {d}')
    if case['same']:
        f.write()
        ctx.label('saved twice by the same object')
    else:
        f, n = model.load(path)
        f.write()
    two = read_bytes(path)
    expect_eq(read_bytes(path + '.bak'), one, 'the backup differs from the previous version (second save)')
    expect_eq(two, one, 'a second save changes the file')
    f, n = model.load(path)
    f.write()
    expect_eq(read_bytes(path), two, 'a third save changes the file')
    if case['changes']:
        f, n = model.load(path)
        for k, value, words in case['changes']:
            change(n, k, value, words)
            f.write()
        d = model.diff(foreign(ET.parse(path).getroot()), f0)
        expect(d is None, f'unmodelled content changed by a save after a change of modelled values {case["changes"]}: {d}')
        ctx.label('modelled values changed')
    ctx.nontrivial(any(x[1] for v in fmt['junk'].values() for x in everything(v)))
    ctx.label('project variables', fmt.get('projectvars'))
    ctx.label('special characters in unknown elements', any(c in x[1] for v in fmt['junk'].values() for x in everything(v) for c in '&<'))
    ctx.label('legacy', fmt['legacy'])


def strategy():
    from hypothesis import strategies as st
    JTEXT = gen.text(6)

    def fix(s):
        return s.strip()

    @st.composite
    def s(draw):
        spec = draw(gen.project(orphans=True, max_sc=4, max_ch=3, max_w=2))
        for x in spec['scenes'].values():
            # every way in which yWriter versions write the type
            x['xtype'] = list(draw(gen.sampled(*XTYPES[x['scType']])))
        fmt = dict(escaped=draw(gen.BOOL), empty=draw(gen.ints(0, 2)), legacy=draw(gen.LEGACY), junk={})
        for where in ['project', 'root'] + ['scene' + i for i in spec['scenes']] + ['chapter' + i for i in spec['srtChapters']]:
            if draw(gen.BOOL):
                fmt['junk'][where] = [['Xtra%d' % k, fix(draw(JTEXT))] for k in range(draw(gen.ints(1, 2)))]
                if draw(gen.ints(0, 2)) == 0:
                    fmt['junk'][where].append(list(NESTED[draw(gen.ints(0, 3))]))
        for where in ['scenefields' + i for i in spec['scenes']] + ['chapterfields' + i for i in spec['srtChapters']]:
            if draw(gen.ints(0, 2)) == 0:
                fmt['junk'][where] = [['Field_Foreign', fix(draw(JTEXT))]]
        if draw(gen.BOOL):
            fmt['projectfields'] = [['Field_Foreign', draw(gen.line())]]
        pv = []
        lang = draw(gen.sampled(None, ('en', 'US'), ('de', 'DE'), ('fr', 'CA'), ('english', 'USA'), ('zxx', 'none')))
        if lang:
            pv = [['1', 'Language', lang[0]], ['2', 'Country', lang[1]]]
        for k in range(draw(gen.ints(0, 2))):
            pv.append([str(10 + k), draw(gen.sampled('', 'myvar', 'v&w', '<x>')), draw(gen.line())])
        for k, l in enumerate(draw(langlist)):
            pv.append([str(20 + 2 * k), 'lang=' + l, f'<HTM <SPAN LANG="{l}"> /HTM>'])
            pv.append([str(21 + 2 * k), '/lang=' + l, '<HTM </SPAN> /HTM>'])
        if pv:
            fmt['projectvars'] = pv
        return dict(novel=spec, fmt=fmt, same=draw(gen.BOOL), changes=draw(changes), implausible=bool(lang) and lang[0] == 'english')

    changes = st.lists(st.tuples(st.integers(0, 18), st.booleans(), st.sampled_from(['', 'new', 'a & <b>'])).map(list), max_size=4)
    langlist = st.lists(st.sampled_from(gen.LANGS), unique=True, max_size=2)
    return s()


PARTS = [Part('preserve', strategy, check, quick=800, thorough=16000)]
