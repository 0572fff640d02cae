"""P03: chapter and scene types are decoded by the yWriter tables."""
from vlib import gen, model, yw7
from vlib.core import Part, expect_eq

ID = 'P03'
LEVEL = 'exploration'
RULE = ('Project files with independently chosen presence and value of <Unused>, <Type>, <ChapterType>, <SectionStart>, the chapter flag fields, '
        'and, per scene, <Unused>, <Field_SceneType>, <ExportCondSpecific>, <ExportWhenRTF>, <AppendToPrev> are read and compared with the yWriter tables '
        '(scenes of other than normal chapters inherit the type). Non-trivial: at least one chapter with a scene.')
ASSUMPTIONS = ['a chapter marked unused carries <Type> or <ChapterType>, as every yWriter version writes']

ROW_SC = {}


def check(case, ctx):
    spec = case
    path = ctx.path('p.yw7')
    yw7.write(path, spec)
    f0, n = model.load(path)
    for i in spec['srtChapters']:
        c = spec['chapters'][i]
        g = n.chapters[i]
        want = yw7.chapter_type(*c['xtype'])
        expect_eq(g.chType, want, f'type of a chapter with (Unused, Type, ChapterType) = {c["xtype"]}')
        expect_eq(bool(g.chLevel), bool(c['chLevel']), 'chapter level')
        f = dict(c['xfields'])
        expect_eq(bool(g.isTrash), f.get('Field_IsTrash') == '1', f'trash flag with fields {f}')
        expect_eq(bool(g.suppressChapterBreak), f.get('Field_SuppressChapterBreak') == '1', f'break suppression with fields {f}')
        expect_eq(bool(g.suppressChapterTitle), f.get('Field_SuppressChapterTitle') == '1' or (c['title'] or '').startswith('@'),
                  f'title suppression with fields {f}, title {c["title"]!r}')
        expect_eq(list(g.srtScenes), c['srtScenes'], 'scenes of a chapter')
        ctx.label(f'chapter row {c["xtype"]}')
        for s in c['srtScenes']:
            d = spec['scenes'][s]
            w = want or yw7.scene_type(*d['xtype'])
            expect_eq(n.scenes[s].scType, w, f'type of a scene with (Unused, Field_SceneType) = {d["xtype"]} in a chapter of type {want}')
            expect_eq(bool(n.scenes[s].doNotExport), d['xexport'] == [True, False], f'export flag with (ExportCondSpecific, ExportWhenRTF) = {d["xexport"]}')
            expect_eq(bool(n.scenes[s].appendToPrev), d['appendToPrev'], 'append to previous')
            ctx.label(f'scene row {d["xtype"]}')
            ctx.nontrivial()
    inch = {s for c in spec['chapters'].values() for s in c['srtScenes']}
    for s, d in spec['scenes'].items():
        if s not in inch:
            expect_eq(n.scenes[s].scType, yw7.scene_type(*d['xtype']), 'type of a scene outside all chapters')
    # and a save keeps the types
    p2 = ctx.path('q.yw7')
    model.save(p2, n)
    f0.write()
    for p in (p2, path):
        got = yw7.decode(p)
        for i in spec['srtChapters']:
            for a in ('chType', 'chLevel', 'isTrash', 'suppressChapterTitle', 'suppressChapterBreak'):
                if a == 'suppressChapterTitle' and n.chapters[i].title and n.chapters[i].title.startswith('@'):
                    continue
                expect_eq(got['chapters'][i][a] or 0, getattr(n.chapters[i], a) or 0, f'{a} after a save')
        for s in spec['scenes']:
            expect_eq(got['scenes'][s]['scType'], n.scenes[s].scType, 'scene type after a save')
            expect_eq(got['scenes'][s]['doNotExport'], n.scenes[s].doNotExport, 'export flag after a save')
            expect_eq(got['scenes'][s]['appendToPrev'], n.scenes[s].appendToPrev, 'append flag after a save')


def strategy():
    from hypothesis import strategies as st

    @st.composite
    def s(draw):
        spec = dict(title='T', scenes={}, chapters={}, srtChapters=[], characters={}, locations={}, items={}, projectNotes={}, srtCharacters=[],
                    srtLocations=[], srtItems=[], srtPrjNotes=[])
        sc = draw(gen.ids(0, 8))
        for i in sc:
            spec['scenes'][i] = dict(title='S', sceneContent='x', status=1, appendToPrev=draw(gen.BOOL),
                                     xtype=[draw(gen.BOOL), draw(gen.sampled(None, '0', '1', '2', ''))], xexport=[draw(gen.BOOL), draw(gen.BOOL)])
        ch = draw(gen.ids(1, 5))
        for i in ch:
            yt = draw(gen.sampled(None, '0', '1', '0', '1', ''))
            ct = draw(gen.sampled(None, '0', '1', '2', None, '0', '1', '2', '', '3'))
            un = draw(gen.BOOL) if (yt, ct) != (None, None) else False
            fields = []
            for k in ('Field_SuppressChapterTitle', 'Field_SuppressChapterBreak', 'Field_IsTrash', 'Field_Other'):
                v = draw(gen.sampled(None, '0', '1'))
                if v is not None:
                    fields.append([k, v])
            spec['chapters'][i] = dict(title=draw(gen.sampled(None, 'Chapter', '@Chapter', 'a@b', '@')), chLevel=draw(ints01), xtype=[un, yt, ct],
                                       xfields=fields, srtScenes=[])
        spec['srtChapters'] = ch
        for i in sc:
            c = draw(gen.sampled(None, *ch))
            if c:
                spec['chapters'][c]['srtScenes'].append(i)
        if draw(gen.sampled(*[False] * 29, True)):
            gen.inflate(spec, 30, 110, 0, 0)
        return spec

    ints01 = st.integers(0, 1)
    return s()


PARTS = [Part('types', strategy, check, quick=2500, thorough=60000)]
