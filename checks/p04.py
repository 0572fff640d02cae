"""P04: reading yields what the file says."""
from vlib import gen, model, yw7
from vlib.core import Part, expect, expect_eq

ID = 'P04'
LEVEL = 'exploration'
RULE = ('Project files serialized by the harness (UTF-8, UTF-8 with BOM, UTF-16 with a wrong header; CDATA or escaped text; empty elements in three forms; '
        'unknown elements; legacy language fields; control characters; invalid numbers and dates; dangling references) are read and compared with the values '
        'they were made of. Non-trivial: at least one scene or story-world element and one of the variations.')
ASSUMPTIONS = ['the sections PROJECT, LOCATIONS, ITEMS, CHARACTERS, SCENES, CHAPTERS exist and every element has an ID, as yWriter writes']
BAD_WHEN = [[['SpecificDateTime', 'garbage']], [['SpecificDateTime', '']], [['SpecificDateTime', '2020-13-45 10:00:00']], [['Day', 'x'], ['Hour', '7'], ['Minute', '5']],
            [['Day', ''], ['Minute', '9']], [['Day', '-3'], ['Hour', '12']], [['Hour', '']], [['SpecificDateTime', '2021-02-03 04:05:06'], ['Day', '4'], ['Hour', '1']],
            [['Day', '1.5']], [['SpecificDateTime', '2021-02-03 04:05']]]
WANT_WHEN = [('', '', None), ('', '', None), ('', '', None), (None, '07:05:00', ''), (None, '00:09:00', ''), (None, '12:00:00', '-3'), (None, '00:00:00', None),
             ('2021-02-03', '04:05:06', None), (None, None, ''), ('2021-02-03', '04:05:00', None)]

NESTED = [['Xtra a="1"', 'x'], ['Xtra', [['Title', 'y'], ['ID', '77'], ['Desc', '']]], ['Fields', [['Field_Unknown', 'z']]], ['Fields', []], ['Fields', [['Title', 'y']]], ['SortOrder', '3'], ['Status', 'x']]

def nn(v):
    return v or None


def check(case, ctx):
    spec = case['novel']
    fmt = case['fmt']
    path = ctx.path('p.yw7')
    text = yw7.encode(spec, fmt)
    for frac, ch in case['ctrl']:
        k = int(frac * len(text))
        text = text[:k] + ch + text[k:]
    with open(path, 'w', encoding=fmt['encoding'], newline='') as f:
        f.write(text)
    __, n = model.load(path)
    want = model.norm_spec(spec)
    if fmt.get('badnum'):
        want['wordTarget'] = want['wordCountStart'] = 0
        ctx.label('unusable numbers')
    for k in case.get('badstatus', ()):
        # an unusable status is dropped
        want['scenes'][k]['status'] = None
        ctx.label('unusable status')
    for k, w in case['badwhen'].items():
        if k in want['scenes']:
            d, t, day = WANT_WHEN[w]
            want['scenes'][k].update(date=nn(d), time=nn(t), day=nn(day))
    d = model.diff(model.norm_spec(model.from_novel(n)), want)
    expect(d is None, f'the project read differs from the file: {d}')
    # absent attributes stay unset, present ones are set
    for s, x in spec['scenes'].items():
        for a in ('title', 'desc', 'notes', 'goal', 'conflict', 'outcome', 'image', 'field1', 'field2', 'field3', 'field4', 'lastsDays'):
            if x.get(a) is None:
                expect_eq(getattr(n.scenes[s], a), None, f'absent scene attribute {a}')
    if fmt.get('badnum'):
        expect_eq((n.wordTarget, n.wordCountStart), (0, 0), 'unusable word counts')
    lang, country = case['lang']
    if lang is not None:
        expect_eq((n.languageCode, n.countryCode), (nn(lang), nn(country)), f'document language ({case["langform"]})')
    if case['langs']:
        expect_eq(n.languages, case['langs'], 'passage languages')
    ctx.nontrivial((spec['scenes'] or spec['srtCharacters'] or spec['srtLocations'] or spec['srtItems'])
                   and (case['ctrl'] or fmt['encoding'] != 'utf-8' or fmt['escaped'] or fmt['junk'] or case['badwhen'] or lang))
    ctx.label('encoding ' + fmt['encoding'])
    ctx.label('control characters', case['ctrl'])
    ctx.label('unusable dates', case['badwhen'])
    ctx.label('dangling', any(s.get('xcharacters') for s in spec['scenes'].values()))
    ctx.label('language ' + case['langform'], lang is not None)
    ctx.label('vertical bar', '|' in text)


def strategy():
    from hypothesis import strategies as st
    CTRL = [chr(c) for c in list(range(0, 9)) + [0xb, 0xc] + list(range(0xe, 0x20))]
    ctrl = st.lists(st.tuples(st.floats(0, 1), st.sampled_from(CTRL)), max_size=4)

    @st.composite
    def s(draw):
        spec = draw(gen.project(orphans=True, max_sc=5, max_ch=3))
        fmt = dict(encoding=draw(gen.sampled('utf-8', 'utf-8', 'utf-8-sig', 'utf-16')), escaped=draw(gen.BOOL), empty=draw(gen.ints(0, 2)),
                   legacy=draw(gen.LEGACY), short=draw(gen.BOOL), junk={})
        if draw(gen.BOOL):
            fmt['header'] = 'utf-16'
        if draw(gen.BOOL):
            fmt['nonotes'] = True
        for where in ['project', 'root'] + ['scene' + i for i in spec['scenes']] + ['chapter' + i for i in spec['srtChapters']]:
            if draw(gen.ints(0, 3)) == 0:
                fmt['junk'][where] = [['Xtra' + where, draw(gen.line())]]
        for where in ['note' + i for i in spec['srtPrjNotes']] + ['world' + t + i for k, t in (('characters', 'CHARACTER'), ('locations', 'LOCATION'), ('items', 'ITEM')) for i in spec[k]]:
            if draw(gen.ints(0, 2)) == 0:
                # also with names that have a meaning elsewhere
                fmt['junk'][where] = [list(NESTED[draw(gen.ints(0, 6))])]
        fmt['split'] = draw(gen.ints(0, 3)) == 0
        for i in spec['scenes']:
            if draw(gen.ints(0, 3)) == 0:
                fmt['junk']['scenefields' + i] = [['Field_Foreign', draw(gen.line())]]
        bad = {}
        for i in spec['scenes']:
            if draw(gen.ints(0, 3)) == 0:
                w = draw(gen.ints(0, len(BAD_WHEN) - 1))
                spec['scenes'][i]['xwhen'] = BAD_WHEN[w]
                bad[i] = w
            if draw(gen.ints(0, 3)) == 0:
                spec['scenes'][i]['xcharacters'] = ['997']
                spec['scenes'][i]['xlocations'] = ['998']
                spec['scenes'][i]['xitems'] = ['999']
        for i in spec['srtChapters']:
            if draw(gen.ints(0, 3)) == 0:
                spec['chapters'][i]['xscenes'] = ['995']
        if draw(gen.ints(0, 4)) == 0:
            fmt['badnum'] = True
            spec['wordTarget'] = draw(gen.sampled('abc', '', '1.5'))
            spec['wordCountStart'] = draw(gen.sampled('x', '', '?'))
        badstatus = []
        for i in spec['scenes']:
            if draw(gen.ints(0, 9)) == 0:
                spec['scenes'][i]['status'] = draw(gen.sampled('', 'x', '1.5', 'Draft'))
                badstatus.append(i)
        lang = draw(gen.sampled((None, None), ('en', 'US'), ('de', 'DE'), ('eo', ''), ('zxx', 'none')))
        form = draw(gen.sampled('vars', 'fields'))
        langs = []
        pv = []
        if draw(gen.BOOL):
            langs = draw(langlist)
        if lang[0] is not None and form == 'vars':
            pv = [['1', 'Language', lang[0]], ['2', 'Country', lang[1]]]
        elif lang[0] is not None:
            fmt['projectfields'] = [['Field_Other', 'x'], ['Field_LanguageCode', lang[0]], ['Field_CountryCode', lang[1]]]
        for k, l in enumerate(langs):
            pv.append([str(10 + 2 * k), 'lang=' + l, f'<HTM <SPAN LANG="{l}"> /HTM>'])
            pv.append([str(11 + 2 * k), '/lang=' + l, '<HTM </SPAN> /HTM>'])
        if draw(gen.BOOL):
            pv.insert(0, ['99', draw(gen.sampled('', 'other', 'language', 'x lang=de')), 'v'])
        if pv or draw(gen.BOOL):
            fmt['projectvars'] = pv
        return dict(novel=spec, fmt=fmt, ctrl=[list(x) for x in draw(ctrl)], badwhen=bad, badstatus=badstatus, lang=list(lang), langform=form, langs=langs)

    langlist = st.lists(st.sampled_from(gen.LANGS), unique=True, max_size=3)
    return s()


PARTS = [Part('reading', strategy, check, quick=1200, thorough=24000)]
