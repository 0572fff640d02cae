"""P21: manuscript export and import give the text back."""
from vlib import conv, gen, markup, model, roundtrip, structure, yw7
from vlib.core import Part, expect, expect_eq

ID = 'P21'
LEVEL = 'exploration'
RULE = ('Generated projects whose scenes carry texts over the whole markup grammar are exported as manuscript with the converter and the unchanged document is imported again. An independent interpreter turns the stored '
        'texts before and after into styled characters, comments and quotations per paragraph; everything else is compared attribute by attribute, and a second round must change nothing at all. '
        'Non-trivial: an exported scene with markup.')
ASSUMPTIONS = ['language codes of the form ll or ll-CC', 'lines, those of comments included, do not start with a separator of the scene splitter', 'comments are not marked as scene titles; white space at the ends of comments and languages inside them are not significant',
               'obsolete alignment and underline tags are removed', 'trailing white space of a scene is not significant']


def changed_ids(spec, suffix):
    return [sid for cid in spec['srtChapters'] for sid in structure.shown_scenes(spec, cid, suffix)]


def check(case, ctx, suffix='_manuscript', comments=True, prepare=None):
    spec = case['novel']
    path = ctx.path(case['name'] + '.yw7')
    for sid, lines in case['texts'].items():
        if sid in spec['scenes']:
            spec['scenes'][sid]['sceneContent'] = markup.render(lines)
    yw7.write(path, spec)
    before = roundtrip.spec_of(path)
    doc = roundtrip.export(path, suffix)
    if prepare:
        prepare(doc)
    roundtrip.bring_back(doc)
    after = roundtrip.spec_of(path)
    ids = changed_ids(spec, suffix)
    skip = [('scenes', i, 'sceneContent') for i in ids]
    roundtrip.same_project(after, before, suffix, skip)
    compare(before, after, ids, suffix, comments)
    for sid in ids:
        a = after['scenes'][sid]['sceneContent']
        ctx.nontrivial(markup.PARSE.search(a or '') or '/*' in (a or ''))
    for sid in ids:
        for quote, atoms in case['texts'].get(sid, ()):
            ctx.label('quotation', quote)
            for a in atoms:
                if a[0] in ('on', 'off'):
                    ctx.label('tag ' + ('lang' if a[1].startswith('lang') else a[1]))
                elif a[0] != 't':
                    ctx.label({'c': 'comment', 'n': 'note', 'raw': 'raw code', 's': 'obsolete tag'}[a[0]])
    others = [s for s in spec['scenes'] if s not in ids]
    ctx.label('scenes not in the document', others)
    if before['languageCode']:
        expect_eq((after['languageCode'], after['countryCode']), (before['languageCode'], before['countryCode']), f'{suffix}: language of the project')
    # once more
    doc = roundtrip.export(path, suffix)
    roundtrip.bring_back(doc)
    again = roundtrip.spec_of(path)
    roundtrip.same_project(again, after, f'{suffix}: second round', skip)
    compare(after, again, ids, f'{suffix}: second round', comments)
    if any(len(again['scenes'][i]['sceneContent'] or '') > len(after['scenes'][i]['sceneContent'] or '') for i in ids):
        # the markup is still being rearranged, but must not grow forever
        roundtrip.bring_back(roundtrip.export(path, suffix))
        third = roundtrip.spec_of(path)
        for i in ids:
            a, b = again['scenes'][i]['sceneContent'], third['scenes'][i]['sceneContent']
            expect(len(b or '') <= len(a or ''), f'{suffix}: the text of scene {i} grows with each round', after['scenes'][i]['sceneContent'], a, b)
        ctx.label('third round')
    expect_eq(sorted(again['languages'] or []), sorted(after['languages'] or []), f'{suffix}: second round: languages')


def compare(before, after, ids, what, comments=True):
    langs = [markup.known(s['sceneContent'] for s in p['scenes'].values()) for p in (before, after)]
    for sid in ids:
        b, a = before['scenes'][sid]['sceneContent'], after['scenes'][sid]['sceneContent']
        roundtrip.compare_text(markup.parse(a or '', langs[1], comments), markup.parse(b or '', langs[0], comments), f'{what}: scene {sid}', [b, a])


def strategy(kinds=(0, 0, 0, 0, 1, 2, 3), raw=True, notes=True):
    from hypothesis import strategies as st
    langs = st.sampled_from([(), ('de-DE',), ('de-DE', 'fr-CH'), ('en-US', 'eo', 'fr-FR'), ('es-419', 'de-DE'), ('de-AT', 'de-DE', 'de')])

    @st.composite
    def make(draw):
        n = draw(gen.novel(orphans=True, max_ch=3, max_sc=5, max_w=1, min_ch=1, min_sc=1, content=st.just('')))
        for c in n['chapters'].values():
            c['chType'] = draw(st.sampled_from(kinds))
            c['isTrash'] = False
        for s in n['scenes'].values():
            s['scType'] = draw(st.sampled_from(kinds))
            s['doNotExport'] = draw(st.sampled_from([False] * 5 + [True]))
        gen.shown(draw, n, draw(gen.sampled(*[k for k in kinds if k < 3])))
        n['languageCode'], n['countryCode'] = draw(st.sampled_from([('en', 'US'), ('de', 'DE'), ('zxx', 'none'), (None, None)]))
        l = draw(langs)
        texts = {i: draw(markup.content(langs=l, raw=raw, notes=notes)) for i in n['scenes']}
        return dict(novel=n, texts=fit(texts), name=draw(st.sampled_from(['p', 'My Novel', 'R&D'])))
    return make()


def fit(texts):
    """Stay within the assumptions."""
    def lines_of(lines, inner):
        for n, (quote, atoms) in enumerate(lines):
            for a in atoms:
                if a[0] == 't':
                    if inner and n == 0:
                        a[1] = a[1].replace('~', '-')
                    if a[1].lstrip().startswith('#'):
                        a[1] = '.' + a[1]
                    if a[1].strip():
                        break
                elif a[0] in ('c', 'n'):
                    break
            for a in atoms:
                if inner and n == 0 and a[0] == 't':
                    a[1] = a[1].replace('~', '-')
                if a[0] in ('c', 'n'):
                    lines_of(a[-1], True)
    for lines in texts.values():
        lines_of(lines, False)
    return texts


PARTS = [Part('manuscript', strategy, check, quick=1400, thorough=20000)]
