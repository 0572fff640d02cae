"""P02: the file encodes the project as yWriter does (independent decoder)."""
import copy

from vlib import gen, model, yw7
from vlib.core import Part, Violation, expect

ID = 'P02'
LEVEL = 'exploration'
RULE = ('Random projects are written to a new file or over an existing, different project file, over another version of the same project (whose elements are updated), or read from a file with computed and obsolete elements and saved; the file is parsed by an independent decoder '
        'written from the yWriter vocabulary and compared with the model; CDATA use is checked with expat. '
        'Non-trivial: at least one scene and one chapter.')
ASSUMPTIONS = ['as P01', 'Conflict and user fields are plain escaped text (as in the reference files of the test suite)']


def complete(spec):
    """Set what is unset to its empty value (None would leave what is in the file unchanged)."""
    spec = copy.deepcopy(spec)
    for a in model.NOVEL_ATTRS:
        if spec.get(a) is None:
            spec[a] = 0 if a.startswith('word') else ''
    for s in spec['scenes'].values():
        for a in model.SCENE_ATTRS:
            if a == 'date':
                continue
            if a == 'day' and s.get('date'):
                s[a] = None
            elif s.get(a) is None:
                s[a] = [] if a in ('tags', 'characters', 'locations', 'items') else 0 if a in ('scType', 'scnMode') else 1 if a == 'status' else False if a == 'doNotExport' else ''
    for c in spec['chapters'].values():
        for a in ('title', 'desc'):
            c[a] = c[a] or ''
    return spec


def align(old, spec):
    """Give the elements of the other version the IDs of the project, as far as there are any."""
    old = copy.deepcopy(old)
    ids = list(spec['scenes'])
    new = {i: ids[k] if k < len(ids) else f'{7000 + k}' for k, i in enumerate(old['scenes'])}
    old['scenes'] = {new[i]: s for i, s in old['scenes'].items()}
    ch = {i: spec['srtChapters'][k] if k < len(spec['srtChapters']) else f'{7000 + k}' for k, i in enumerate(old['srtChapters'])}
    old['srtChapters'] = [ch[i] for i in old['srtChapters']]
    old['chapters'] = {ch[i]: dict(c, srtScenes=[new[s] for s in c['srtScenes']]) for i, c in old['chapters'].items()}
    return old


def check(case, ctx):
    spec = case['novel']
    path = ctx.path('p.yw7')
    if case['merge']:
        spec = complete(spec)
    if case['fmt'] is not None:
        # a project as yWriter left it, read and saved
        for tag in yw7.legacy(case['fmt']):
            ctx.label('read from a file with ' + tag)
        yw7.write(path, spec, case['fmt'])
        f, __ = model.load(path)
        f.write()
    elif case['merge']:
        # another version of the project, whose elements are updated
        old = align(case['merge'], spec)
        yw7.write(path, old)
        f, __ = model.load(path)
        f.novel = model.to_novel(spec)
        f.novel.languages = []
        f.write()
        ctx.label('over another version')
        ctx.label('date instead of a time', any(s['date'] and old['scenes'].get(i, {}).get('time') and not old['scenes'][i].get('day')
                                                and not old['scenes'][i].get('date') for i, s in spec['scenes'].items()))
    else:
        if case['old'] is not None:
            yw7.write(path, case['old'])
            ctx.label('over an existing file')
        model.save(path, model.to_novel(spec))
    with open(path, 'rb') as f:
        data = f.read()
    expect(data.startswith(b'<?xml version="1.0" encoding="utf-8"?>'), 'the file does not start with the XML declaration', data[:60])
    try:
        got = yw7.decode(path)
        bad = yw7.cdata_report(data)
    except Exception as ex:
        raise Violation(f'the saved file cannot be parsed: {ex!r}\n{data.decode("utf-8", "replace")[:1500]}')
    d = model.diff(model.norm_spec(got), model.norm_spec(spec))
    expect(d is None, f'the file does not encode the model: {d}')
    expect(not bad, 'text outside CDATA in', bad)
    import xml.etree.ElementTree as ET
    root = ET.fromstring(data)
    for tag in ('WordCount', 'LetterCount', 'RTFFile', 'BelongsToChID'):
        expect(not root.findall(f'SCENES/SCENE/{tag}'), f'{tag} is left in a scene')
    bad = yw7.anomalies(root)
    expect(not bad, 'the saved file is not as yWriter writes it', bad)
    for i in spec['srtChapters']:
        c = [x for x in root.findall('CHAPTERS/CHAPTER') if x.find('ID').text == i][0]
        want = [(None, '0', '0'), ('-1', '1', '1'), ('-1', '1', '2'), ('-1', '1', '0')][spec['chapters'][i]['chType']]
        have = tuple(None if c.find(t) is None else c.find(t).text for t in ('Unused', 'Type', 'ChapterType'))
        expect(have == want, f'chapter type {spec["chapters"][i]["chType"]} is encoded differently from yWriter', have, want)
    chtypes = {s: c['chType'] for c in spec['chapters'].values() for s in c['srtScenes']}
    for x in root.findall('SCENES/SCENE'):
        i = x.find('ID').text
        t = spec['scenes'][i]['scType']
        if case['fmt'] is not None:
            t = chtypes.get(i) or t
        want = [(None, None), ('-1', '1'), ('-1', '2'), ('-1', '0')][t]
        have = tuple(None if x.find(k) is None else x.find(k).text for k in ('Unused', 'Fields/Field_SceneType'))
        expect(have == want, f'scene type {t} is encoded differently from yWriter', have, want)
        s = spec['scenes'][i]
        if s['date']:
            expect(x.find('SpecificDateMode') is not None and x.find('SpecificDateMode').text == '-1' and x.find('Day') is None,
                   'a specific date is not marked as such')
        else:
            expect(x.find('SpecificDateTime') is None and x.find('SpecificDateMode') is None, 'a scene without date is marked as having one')
    expect(b'<CHAPTERS />' not in data, 'an empty chapter list is written in the form yWriter cannot read')
    ctx.nontrivial(spec['scenes'] and spec['chapters'])
    ctx.label('no chapters', not spec['chapters'])
    for t in range(4):
        ctx.label(f'scene type {t}', any(s['scType'] == t for s in spec['scenes'].values()))
        ctx.label(f'chapter type {t}', any(s['chType'] == t for s in spec['chapters'].values()))


def strategy():
    from hypothesis import strategies as st
    return st.fixed_dictionaries(dict(
        novel=gen.project(orphans=True), old=st.one_of(st.none(), st.none(), gen.project(orphans=True, max_sc=2, max_ch=2, max_w=1)),
        merge=st.one_of(st.none(), gen.project(orphans=True, max_sc=3, max_ch=3, max_w=2)),
        fmt=st.one_of(st.none(), st.fixed_dictionaries(dict(legacy=gen.LEGACY, escaped=gen.BOOL, empty=gen.ints(0, 2))))))


PARTS = [Part('encoding', strategy, check, quick=700, thorough=12000)]
