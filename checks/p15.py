"""P15: documents contain exactly the right chapters and scenes, in order."""
import os

from vlib import conv, gen, model, odf, structure, yw7
from vlib.core import Part, expect, expect_eq

ID = 'P15'
LEVEL = 'exploration'
RULE = ('Projects with generated structure (chapter levels and types, trash, scene types, export flags, appended scenes, raw HTML and TeX scenes, empty chapters, suppressed titles) whose scenes can be told apart are exported '
        'to all document types made of chapters and scenes; the sequence of headings, sections, dividers and texts is compared with a reference model. Non-trivial: at least two chapters and two different scene types or flags.')
ASSUMPTIONS = ['a trash chapter is unused, as yWriter marks it']


def check(case, ctx):
    spec = case['novel']
    path = ctx.path('Novel.yw7')
    yw7.write(path, spec)
    __, novel = model.load(path)
    classes = conv.export_classes()
    for suffix in structure.CHAPTER_DOCS:
        doc = ctx.path('Novel' + suffix + '.odt')
        conv.export(novel, classes[suffix], doc)
        d = odf.Doc(doc)
        content = lambda sid, first: structure.paragraphs(spec['scenes'][sid]['sceneContent'], first)
        want = structure.expected(spec, suffix, 'Novel', content, structure.paragraphs)
        structure.compare(d, want, suffix or 'export')
        expect_eq(len(d.section_names), len(set(d.section_names)), f'{suffix}: sections of the same name')
        ctx.label(f'{suffix or "export"}: dividers', any(b['style'] == 'Heading_20_4' for b in want))
        ctx.label(f'{suffix or "export"}: with content', len(want) > 2)
    kinds = {(structure.scene_type(spec, c, s), spec['scenes'][s]['doNotExport'], spec['scenes'][s]['appendToPrev'])
             for c in spec['srtChapters'] for s in spec['chapters'][c]['srtScenes']}
    ctx.nontrivial(len(kinds) > 1 and len(spec['srtChapters']) > 1)
    ctx.label('chapter excluded', any(structure.chapter_excluded(spec, c) for c in spec['srtChapters']))
    ctx.label('raw scene', any((s['sceneContent'] or '')[:1] == '<' for s in spec['scenes'].values()))
    ctx.label('part', any(c['chLevel'] == 1 for c in spec['chapters'].values()))


def strategy():
    from hypothesis import strategies as st

    @st.composite
    def make(draw):
        n = draw(gen.novel(orphans=True, max_ch=6, max_sc=10, max_w=0, min_ch=2, min_sc=3, content=st.just(''), field=st.just('')))
        flags = draw(st.sampled_from(['few', 'many']))
        for i, c in n['chapters'].items():
            if c['isTrash']:
                c['chType'] = 3
            elif flags == 'few':
                c['chType'] = draw(st.sampled_from([0, 0, 0, 0, 0, 1, 2, 3]))
            c['title'] = draw(gen.maybe(gen.title()))
            c['desc'] = f'Description of chapter {i}'
        for i, s in n['scenes'].items():
            raw = draw(st.sampled_from([''] * 8 + ['<HTML>', '<TEX>', '<HTM ', 'x<HTML>']))
            s['sceneContent'] = draw(st.sampled_from([f'{raw}Content of scene {i}'] * 5 + ['', f'Content\n\nof scene {i}']))
            s['desc'] = f'Description of scene {i}'
            s['title'] = draw(st.sampled_from([f'Title of scene {i}', f'Title & {i}', None]))
            if flags == 'few':
                s['scType'] = draw(st.sampled_from([0, 0, 0, 0, 1, 2, 3]))
                s['doNotExport'] = draw(st.sampled_from([False, False, False, True]))
        if draw(st.booleans()) and n['srtChapters']:
            c = n['chapters'][draw(st.sampled_from(n['srtChapters']))]
            for s in c['srtScenes']:
                n['scenes'][s]['doNotExport'] = True
        return dict(novel=n)
    return make()


PARTS = [Part('structure', strategy, check, quick=900, thorough=20000)]
