"""P17: description documents contain every description in its own section."""
import os

from vlib import conv, gen, model, odf, structure, yw7
from vlib.core import Part, expect, expect_eq

ID = 'P17'
LEVEL = 'exploration'
RULE = ('Generated projects with arbitrary multi-line texts in titles, names, descriptions, biographies, goals and notes are exported to the part, chapter, scene, character, location and item description documents and the '
        'brief synopsis. An independent reader lists all headings and paragraphs with the sections they lie in; the list is compared with the one derived from the project. '
        'Non-trivial: a described element with a multi-line or special-character text.')
ASSUMPTIONS = ['white space is compared as an OpenDocument consumer shows it; repeated blanks are a known finding of their own']
WORLD = dict(_characters=('characters', 'srtCharacters', 'CrID'), _locations=('locations', 'srtLocations', 'LcID'), _items=('items', 'srtItems', 'ItID'))
FIELDS = [('Description', 'desc'), ('Bio', 'bio'), ('Goals', 'goals'), ('Notes', 'notes')]


def world(spec, suffix):
    key, srt, prefix = WORLD[suffix]
    blocks = [dict(kind='p', level=0, style='Title', text=spec['title'] or '', sections=()), dict(kind='p', level=0, style='Subtitle', text=spec['authorName'] or '', sections=())]
    for i in spec[srt]:
        e = spec[key][i]
        t = e['title'] or ''
        if suffix == '_characters' and e['fullName']:
            t += '/' + e['fullName']
        if e['aka']:
            t += f' ("{e["aka"]}")'
        blocks.append(dict(kind='h', level=2, style='Heading_20_2', text=t, sections=()))
        sec = (f'{prefix}:{i}',)
        if suffix == '_characters':
            for name, attr in FIELDS:
                blocks.append(dict(kind='h', level=3, style='Heading_20_3', text=name, sections=sec))
                blocks += [dict(p, kind='p', level=0, sections=sec + (f'{prefix}_{attr}:{i}',)) for p in structure.paragraphs(e[attr])]
        else:
            blocks += [dict(p, kind='p', level=0, sections=sec) for p in structure.paragraphs(e['desc'])]
    return blocks


def check(case, ctx):
    spec = case['novel']
    path = ctx.path(case['name'] + '.yw7')
    yw7.write(path, spec)
    __, novel = model.load(path)
    classes = conv.export_classes()
    for suffix in case['docs']:
        doc = ctx.path(case['name'] + suffix + '.odt')
        conv.export(novel, classes[suffix], doc)
        d = odf.Doc(doc)
        if suffix in WORLD:
            want = world(spec, suffix)
        else:
            want = structure.expected(spec, suffix, case['name'], None, structure.paragraphs)
        structure.compare(d, want, suffix)
        if suffix != '_brf_synopsis':
            interesting = [b for b in want if b['sections'] and any(c in b['text'] for c in '&<>[$')]
            ctx.nontrivial(interesting or len([b for b in want if b['sections']]) > 3)
            ctx.label(suffix)
            ctx.label(f'{suffix}: several paragraphs', any(a['sections'] and a['sections'] == b['sections'] and a['kind'] == b['kind'] == 'p' for a, b in zip(want, want[1:])))


def strict(case, ctx):
    """Repeated blanks, with the white space rules of OpenDocument."""
    path = ctx.path('p.yw7')
    spec = case['novel']
    yw7.write(path, spec)
    __, novel = model.load(path)
    conv.export(novel, conv.export_classes()['_items'], ctx.path('p_items.odt'))
    d = odf.Doc(ctx.path('p_items.odt'))
    i = spec['srtItems'][0]
    got = '\n'.join(structure.text_of(b['items']) for b in d.blocks if b['sections'])
    expect_eq(got, spec['items'][i]['desc'], 'the description as shown by a word processor')


def strategy():
    from hypothesis import strategies as st
    extra = ('[i]', '[/i]', '/*', '*/', '[u]', '\n', '\n', '\n', '\n\n', '\n> ', '\n\n\n', '[lang=de-DE]', '[/lang=de-DE]', '/*@fn ')

    @st.composite
    def make(draw):
        kind = draw(st.sampled_from(['chapters', 'world']))
        field = st.one_of(gen.text(8, extra=extra), gen.multiline(extra))
        if kind == 'chapters':
            n = draw(gen.novel(orphans=True, max_ch=4, max_sc=5, max_w=0, min_ch=1, min_sc=1, content=st.just('x'), field=field))
            for c in n['chapters'].values():
                c['chType'] = draw(st.sampled_from([0, 0, 0, 0, 1, 3]))
                c['isTrash'] = False
                c['chLevel'] = draw(st.sampled_from([0, 1]))
            for s in n['scenes'].values():
                s['doNotExport'] = draw(st.sampled_from([False, False, False, True]))
            docs = ['_scenes', '_chapters', '_parts', '_brf_synopsis']
        else:
            n = draw(gen.novel(orphans=True, max_ch=1, max_sc=1, max_w=4, content=st.just('x'), field=field))
            docs = ['_characters', '_locations', '_items']
        return dict(novel=n, docs=docs, name=draw(st.sampled_from(['p', 'My Novel', 'R&D', 'ü "q"', '100%'])))
    return make()


PARTS = [Part('descriptions', strategy, check, quick=1200, thorough=25000), Part('strict', strategy, strict, quick=0, thorough=0)]
