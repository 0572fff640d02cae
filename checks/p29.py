"""P29: marked scenes and chapters are split without losing text."""
import copy

from checks import p21
from vlib import conv, gen, lo, markup, model, odf, roundtrip, structure, yw7
from vlib.core import Part, expect, expect_eq

ID = 'P29'
LEVEL = 'exploration'
RULE = ('Generated projects whose scene texts contain scene, chapter and part separators, with and without titles and descriptions, in every order: split directly, and through manuscript and proof documents into which a word '
        'processor has put the separators as text or as headings. A reference model derived from the documentation says which chapters and scenes there must be, in which order, with which titles, descriptions and texts; new '
        'elements may have any unused ID. Non-trivial: at least one separator.')
ASSUMPTIONS = ['titles and descriptions in separators are compared without surrounding blanks', 'description, goal, conflict and outcome of a split scene may be marked with (!) and its status set back, as documented',
               'formatting does not extend over separators']
MARK = '(!)'


def split(spec):
    """[(chapter ID or None, title, desc, level, [scene])]; a scene is dict(id, parent, title, desc, lines)."""
    result = []
    changed = set()
    for cid in spec['srtChapters']:
        cur = dict(id=cid, scenes=[])
        result.append(cur)
        for sid in spec['chapters'][cid]['srtScenes']:
            scene = dict(id=sid, parent=sid, lines=[])
            cur['scenes'].append(scene)
            text = spec['scenes'][sid]['sceneContent']
            if not text:
                scene['lines'] = None
                continue
            for line in text.split('\n'):
                level = len(line) - len(line.lstrip('#'))
                if not level:
                    if scene is None:
                        scene = dict(id=None, parent=sid, title=None, desc=None, lines=[])
                        cur['scenes'].append(scene)
                    scene['lines'].append(line)
                    continue
                changed.add(sid)
                title, __, desc = line.strip('# ').partition('|')
                if level >= 3:
                    scene = dict(id=None, parent=sid, title=title.strip(), desc=desc.strip(), lines=[])
                    cur['scenes'].append(scene)
                else:
                    cur = dict(id=None, title=title.strip(), desc=desc.strip(), level=2 - level, scenes=[])
                    result.append(cur)
                    scene = None
    return result, changed


def compare(got, spec, what, kind=0):
    """Compare a project with the model."""
    want, changed = split(spec)
    # chapters
    expect_eq(len(got['srtChapters']), len(want), f'{what}: number of chapters')
    expect_eq(len(set(got['srtChapters'])), len(got['srtChapters']), f'{what}: chapter IDs are not unique: {got["srtChapters"]}')
    seen = []
    for cid, w in zip(got['srtChapters'], want):
        g = got['chapters'][cid]
        here = f'{what}: chapter {cid}'
        if w['id'] is not None:
            expect_eq(cid, w['id'], f'{what}: order of the chapters')
            a = {k: v for k, v in g.items() if k != 'srtScenes'}
            b = {k: v for k, v in spec['chapters'][cid].items() if k != 'srtScenes'}
            d = model.diff(roundtrip.canonical(a), roundtrip.canonical(b))
            expect(d is None, f'{here} changed', d)
        else:
            expect(cid not in spec['chapters'], f'{here}: the ID of the new chapter was in use')
            if w['title']:
                expect_eq((g['title'] or '').strip(), w['title'], f'{here}: title')
            else:
                expect(g['title'], f'{here}: no title')
            expect_eq((g['desc'] or '').strip(), w['desc'], f'{here}: description')
            expect_eq(g['chLevel'] or 0, w['level'], f'{here}: level')
            # whether a chapter that was added to a notes or todo document is of that type is not documented
            expect((g['chType'] or 0) in (0, kind), f'{here}: type', g['chType'])
        expect_eq(len(g['srtScenes']), len(w['scenes']), f'{here}: number of scenes')
        for sid, s in zip(g['srtScenes'], w['scenes']):
            seen.append(sid)
            scene(got['scenes'][sid], sid, s, spec, changed, f'{what}: scene {sid}')
    expect_eq(len(set(seen)), len(seen), f'{what}: scene IDs are not unique: {seen}')
    expect_eq(sorted(seen), sorted(got['scenes']), f'{what}: scenes outside the chapters')
    return changed


def scene(g, sid, w, spec, changed, here):
    parent = spec['scenes'][w['parent']]
    text = '\n'.join(w['lines']) if w['lines'] is not None else ''
    expect_eq((g['sceneContent'] or '').rstrip(), text.rstrip(), f'{here}: text')
    status = parent['status']
    if w['parent'] in changed and status is not None and status > 2:
        status = 2
    if w['id'] is not None:
        expect_eq(sid, w['id'], f'{here}: order of the scenes')
        want = {k: v for k, v in parent.items() if k != 'sceneContent'}
        have = {k: v for k, v in g.items() if k != 'sceneContent'}
        if sid in changed:
            for a in ('desc', 'goal', 'conflict', 'outcome'):
                if have[a] and have[a].startswith(MARK) and not (want[a] or '').startswith(MARK):
                    have[a] = have[a][len(MARK):]
            if have['status'] == status:
                have['status'] = want['status']
        d = model.diff(roundtrip.canonical(have), roundtrip.canonical(want))
        expect(d is None, f'{here} changed', d)
    else:
        expect(sid not in spec['scenes'], f'{here}: the ID of the new scene was in use')
        if w['title']:
            expect_eq((g['title'] or '').strip(), w['title'], f'{here}: title')
        else:
            expect(g['title'], f'{here}: no title')
        expect_eq((g['desc'] or '').strip(), w['desc'] or '', f'{here}: description')
        for a in ('scType', 'date', 'time', 'day', 'lastsDays', 'lastsHours', 'lastsMinutes'):
            expect_eq(g[a] or None, parent[a] or None, f'{here}: {a} of the new scene')
        expect_eq(g['status'], status, f'{here}: status of the new scene')


def direct(case, ctx):
    from pywriter.model.splitter import Splitter
    spec = case['novel']
    for i, lines in case['texts'].items():
        if i in spec['scenes']:
            spec['scenes'][i]['sceneContent'] = '\n'.join(lines)
    novel = model.to_novel(spec)
    file = type('F', (), dict(novel=novel))()
    r = Splitter().split_scenes(file)
    got = model.from_novel(novel)
    expect_eq(sorted(got['chapters']), sorted(novel.chapters), 'chapters not in the order list')
    changed = compare(got, spec, 'splitter')
    expect_eq(bool(r), bool(changed), 'the result of splitting')
    ctx.nontrivial(changed)
    label(case, ctx, changed)


def label(case, ctx, changed):
    ctx.label('several scenes split', len(changed) > 1)
    for i in changed:
        for line in case['texts'].get(i, ()):
            if line.startswith('#'):
                ctx.label(line[:3].rstrip(' ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz|') + (' with description' if '|' in line else ''))
                ctx.label('bars in the description', line.startswith('#') and line.count('|') > 1)


def document(case, ctx):
    spec = case['novel']
    suffix = case['doc']
    path = ctx.path('p.yw7')
    yw7.write(path, spec)
    before = roundtrip.spec_of(path)
    doc = roundtrip.export(path, suffix)
    d = lo.Edit(doc, case['seed'])
    want = copy.deepcopy(before)
    ids = p21.changed_ids(spec, suffix)
    for i in ids:
        if i not in case['texts']:
            continue
        lines = case['texts'][i]
        out = []
        for k, t in enumerate(lines):
            if t.startswith(('# ', '## ')) and d.rng.random() < .5:
                n = 1 if t.startswith('# ') else 2
                out.append(f'<text:h text:style-name="Heading_20_{n}" text:outline-level="{n}">{lo.spans(t[n + 1:], d.rng, d.styles)}</text:h>')
                ctx.label('heading')
            else:
                x = lo.spans(t, d.rng, d.styles)
                out.append(f'<text:p text:style-name="Text_20_body">{x}</text:p>')
        if suffix == '_proof':
            from checks.p28 import replace_marked
            replace_marked(d, i, ''.join(out))
        else:
            d.set_paragraphs(d.section(f'ScID:{i}'), ''.join(out))
        want['scenes'][i]['sceneContent'] = '\n'.join(lines).rstrip()
    d.save()
    __, ui = roundtrip.bring_back(doc)
    after = roundtrip.spec_of(path)
    changed = compare(after, want, suffix, structure.KIND.get(suffix, 0))
    expect_eq(bool(ui.warnings), bool(changed), f'{suffix}: report of the split: {ui.warnings}')
    for k in ('characters', 'locations', 'items', 'title', 'desc', 'authorName', 'srtCharacters', 'projectNotes'):
        d = model.diff(roundtrip.canonical(after[k]), roundtrip.canonical(before[k]))
        expect(d is None, f'{suffix}: {k} changed', d)
    ctx.nontrivial(changed)
    ctx.label(suffix, changed)
    label(case, ctx, changed)


def texts(plain=True):
    from hypothesis import strategies as st
    word = gen.line(3).map(lambda t: t.replace('|', '/').strip('# ')).map(lambda t: t or 'T')
    text = st.one_of(st.just(''), gen.line(4), st.sampled_from(['a', 'text', '> quote', '- item', '[i]x[/i]', ' # no separator', 'x ### y', '[i]# z[/i]'])).map(lambda t: t if not t.startswith('#') else '.' + t)
    if plain:
        text = text.map(lambda t: t.replace('[', '(').replace('/*', '/').replace('*/', '/')).map(lambda t: t.lstrip() if t.lstrip().startswith('#') is False else '.' + t)
        word = word.map(lambda t: t.replace('[', '(').replace('/*', '/').replace('*/', '/'))
    sep = st.sampled_from(['#', '##', '###', '##', '###', '###', '####'])
    mark = st.tuples(sep, st.sampled_from([0, 1, 1, 2, 3]), word, st.tuples(word, st.sampled_from(['', '', '', ' | a second', '|b|c', ' #5 or so', ' ||'])).map(''.join)).map(lambda t: t[0] + ['', f' {t[2]}', f' {t[2]} | {t[3]}', f' {t[2]}|{t[3]}'][t[1]])
    return st.lists(st.one_of(text, text, text, mark, mark), min_size=1, max_size=8)


def novels(doc=False):
    from hypothesis import strategies as st

    @st.composite
    def make(draw):
        suffix = draw(st.sampled_from(['_manuscript', '_manuscript', '_proof', '_notes', '_todo'])) if doc else None
        kind = structure.KIND.get(suffix, 0)
        n = draw(gen.novel(max_ch=3, max_sc=4, max_w=1, min_ch=1, min_sc=1, content=st.sampled_from([None, '', 'x\ny']) if not doc else st.sampled_from(['', 'x\n\ny'])))
        for c in n['chapters'].values():
            c['chType'] = draw(st.sampled_from([0, 0, 0, 0, 1, 2, 3])) if not doc else kind
            c['isTrash'] = False
        for s in n['scenes'].values():
            s['scType'] = draw(st.sampled_from([kind, kind, kind, 0, 1, 2, 3]))
            if doc:
                s['doNotExport'] = False
        t = texts(doc)
        return dict(novel=n, texts={i: draw(t) for i in n['scenes'] if draw(st.sampled_from([True, True, False]))}, doc=suffix,
                    seed=draw(st.integers(0, 10 ** 6)) if doc else 0)
    return make()


PARTS = [Part('direct', novels, direct, quick=1200, thorough=30000), Part('document', lambda: novels(True), document, quick=800, thorough=12000)]
