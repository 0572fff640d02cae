"""P40: an import adds what the project lacks and keeps what the document lacks."""
import copy

from checks import p21, p24, p25
from vlib import conv, gen, lo, markup, odf, roundtrip, structure, yw7
from vlib.core import Part, expect, expect_eq

ID = 'P40'
LEVEL = 'exploration'
RULE = ('Two versions of a generated project are made, each without some of the chapters and scenes, with different texts, and with scenes moved between chapters. A document is exported from the one and, as it is or saved by a '
        'simulated word processor with formatted headings, imported into the other. The result is compared with a reference model of the merge: texts of the document for common elements, new chapters and scenes '
        'added in the order of the document, everything else as it was. The same for characters, locations and items with the documents of their descriptions. Non-trivial: the document has an element the project lacks, or the other way round.')
ASSUMPTIONS = p21.ASSUMPTIONS + ['elements of both versions have the same type', 'the level of a new chapter and the title of a new scene are not specified', 'a proof document adds nothing']
ADDING = ('_manuscript', '_scenes', '_chapters', '_parts', '_notes', '_todo')
FIELD = dict(_manuscript='sceneContent', _proof='sceneContent', _notes='sceneContent', _todo='sceneContent', _scenes='desc')


def version(spec, where, keep, seed):
    """The project without the elements that are not in the version; scenes of missing chapters move or belong to no chapter."""
    r = copy.deepcopy(spec)
    r['srtChapters'] = [c for c in spec['srtChapters'] if where['chapters'][c] in keep]
    r['scenes'] = {i: s for i, s in r['scenes'].items() if where['scenes'][i] in keep}
    for c in spec['srtChapters']:
        r['chapters'][c]['srtScenes'] = [i for i in r['chapters'][c]['srtScenes'] if i in r['scenes']]
    for n, c in enumerate(spec['srtChapters']):
        if c in r['srtChapters']:
            continue
        gone = r['chapters'].pop(c)
        homes = [h for h in r['srtChapters'] if r['chapters'][h]['chType'] == gone['chType']]
        if homes:
            r['chapters'][homes[(seed + n) % len(homes)]]['srtScenes'] += gone['srtScenes']
    return r


def check(case, ctx):
    spec, suffix, where = case['novel'], case['doc'], case['where']
    for c in spec['chapters'].values():
        for i in c['srtScenes']:
            spec['scenes'][i]['scType'] = c['chType'] or spec['scenes'][i]['scType']
    for sid, lines in case['texts'].items():
        if sid in spec['scenes']:
            spec['scenes'][sid]['sceneContent'] = markup.render(lines)
    for s in spec['scenes'].values():
        s['desc'] = p24.fix(s['desc'])
    theirs = version(spec, where, ('both', 'document'), case['seed'])
    ours = version(spec, where, ('both', 'project'), case['seed'] // 7)
    for n, s in enumerate(ours['scenes'].values()):
        if n % 2:
            s['sceneContent'] = 'an [i]older[/i] text'
            s['desc'] = 'older'
    for n, c in enumerate(ours['chapters'].values()):
        if n % 2:
            c['desc'] = 'older'
        if (n + case['seed']) % 3 == 0 and c['title']:
            # the project has a new name for the chapter
            c['title'] = 'Renamed'
    path = ctx.path('p.yw7')
    yw7.write(path, theirs)
    theirs = roundtrip.spec_of(path)
    doc = roundtrip.export(path, suffix)
    yw7.write(path, ours)
    ours = roundtrip.spec_of(path)
    if case['saved']:
        d = lo.Edit(doc, case['seed'], formatted=suffix in ('_scenes', '_chapters', '_parts'))
        for h in d.root.iter(odf.q('text:h')):
            text = ''.join(h.itertext())
            if d.rng.random() < .4 and text.strip() and h.get(odf.q('text:outline-level')) in ('1', '2') and suffix != '_proof':
                for k in list(h):
                    h.remove(k)
                h.text = None
                for e in lo.fragment('<text:h>' + lo.wrap(' '.join(text.split()), frozenset([d.rng.choice(['i', 'b', ('lang', 'eo', 'none')])]), d.rng, d.styles) + '</text:h>'):
                    h.text = e.text
                    h.extend(list(e))
                ctx.label('formatted heading')
        d.reencode()
        d.save()
    homeless = [i for c in theirs['srtChapters'] for i in structure.shown_scenes(theirs, c, suffix) if i not in ours['scenes'] and not structure.shown_chapter(theirs, c, suffix)]
    if homeless and suffix in FIELD and suffix != '_proof':
        # the document does not say where a scene belongs whose chapter is not part of it
        with open(path, 'rb') as f:
            data = f.read()
        __, ui = conv.convert(doc)
        with open(path, 'rb') as f:
            expect(not conv.failed(ui) or f.read() == data, f'{suffix}: the import fails and changes the project')
        ctx.label('a new scene without a chapter')
        return
    roundtrip.bring_back(doc)
    after = roundtrip.spec_of(path)

    # the model
    want = copy.deepcopy(ours)
    texts = {}
    new = dict(chapters=[], scenes=[])
    for cid in theirs['srtChapters']:
        c = theirs['chapters'][cid]
        section = suffix != '_proof' and structure.shown_chapter(theirs, cid, suffix)
        if suffix in ('_chapters', '_parts'):
            section = section and (c['chLevel'] == 1) == (suffix == '_parts')
        if section:
            if cid not in want['chapters']:
                new['chapters'].append(cid)
                want['srtChapters'].append(cid)
                want['chapters'][cid] = dict(srtScenes=[])
            if suffix in ('_chapters', '_parts'):
                want['chapters'][cid]['desc'] = (c['desc'] or '').rstrip()
        if suffix not in FIELD:
            continue
        for sid in structure.shown_scenes(theirs, cid, suffix):
            if sid not in want['scenes']:
                if suffix == '_proof':
                    ctx.label('a proof with an unknown scene')
                    continue
                new['scenes'].append(sid)
                want['scenes'][sid] = {}
                want['chapters'][cid]['srtScenes'].append(sid)
            if suffix == '_scenes':
                want['scenes'][sid]['desc'] = (theirs['scenes'][sid]['desc'] or '').rstrip()
            else:
                texts[sid] = theirs['scenes'][sid]['sceneContent'] or ''
    expect_eq(after['srtChapters'], want['srtChapters'], f'{suffix}: chapters')
    expect_eq(sorted(after['scenes']), sorted(want['scenes']), f'{suffix}: scenes')
    for cid in want['srtChapters']:
        expect_eq(after['chapters'][cid]['srtScenes'], want['chapters'][cid]['srtScenes'], f'{suffix}: scenes in chapter {cid}')
    langs = markup.known(s['sceneContent'] for p in (theirs, after) for s in p['scenes'].values())
    for sid, text in texts.items():
        got = after['scenes'][sid]['sceneContent'] or ''
        roundtrip.compare_text(markup.parse(got, langs), markup.parse(text, langs), f'{suffix}: scene {sid}', [text, got])
    kind = structure.KIND.get(suffix, 0)
    for cid in new['chapters']:
        g = after['chapters'][cid]
        c = theirs['chapters'][cid]
        title = structure.title(c['title'], suffix in ('_manuscript', '_notes', '_todo'))
        if suffix in ('_manuscript', '_notes', '_todo') and (c['suppressChapterTitle'] or (c['title'] or '').startswith('@')):
            title = ''
        expect_eq(structure.collapse(g['title'] or ''), structure.collapse(title), f'{suffix}: title of the new chapter {cid}')
        expect_eq(g['chType'] or 0, kind, f'{suffix}: type of the new chapter {cid}')
        if suffix in ('_chapters', '_parts'):
            expect_eq(g['desc'] or '', want['chapters'][cid]['desc'], f'{suffix}: description of the new chapter {cid}')
    for sid in new['scenes']:
        g = after['scenes'][sid]
        if suffix == '_scenes':
            expect_eq(g['desc'] or '', want['scenes'][sid]['desc'], f'{suffix}: description of the new scene {sid}')
        expect_eq(g['scType'] or 0, kind, f'{suffix}: type of the new scene {sid}')
    a, b = copy.deepcopy(after), copy.deepcopy(want)
    for p in (a, b):
        for k in new:
            for i in new[k]:
                del p[k][i]
        for sid in texts:
            if sid in p['scenes']:
                del p['scenes'][sid]['sceneContent']
    roundtrip.same_project(a, b, suffix)
    ctx.label(suffix)
    for k in new:
        ctx.label(f'{suffix}: new {k}', new[k])
        ctx.nontrivial(new[k])
        ctx.label('the document lacks ' + k, set(ours[k]) - set(theirs[k]))
        ctx.nontrivial(set(ours[k]) - set(theirs[k]))
    ctx.label('unchanged document', not case['saved'])


def strategy():
    from hypothesis import strategies as st
    place = st.sampled_from(['both', 'both', 'document', 'project'])

    @st.composite
    def make(draw):
        suffix = draw(st.sampled_from([*ADDING, '_manuscript', '_scenes', '_proof']))
        saved = draw(gen.BOOL)
        seed = draw(st.integers(0, 10 ** 6))
        kind = structure.KIND.get(suffix, 0)
        case = draw(p21.strategy((kind, kind, kind, 0, 1, 2)))
        n = case['novel']
        for c in n['chapters'].values():
            if suffix == '_parts':
                c['chLevel'] = draw(gen.sampled(0, 1, 1))
        where = {k: {i: draw(place) for i in n[k]} for k in ('chapters', 'scenes')}
        return dict(novel=n, texts=case['texts'], doc=suffix, saved=saved, seed=seed, where=where)
    return make()


def people(case, ctx):
    """Descriptions of characters, locations, and items."""
    suffix, spec, where = case['doc'], case['novel'], case['where']
    key, prefix, fields = p25.DOCS[suffix]
    srt = 'srt' + key.capitalize()

    def part(keep):
        r = copy.deepcopy(spec)
        r[srt] = [i for i in r[srt] if where[i] in keep]
        r[key] = {i: r[key][i] for i in r[srt]}
        for s in r['scenes'].values():
            s[key] = [i for i in s[key] or () if i in r[key]]
        return r

    theirs, ours = part(('both', 'document')), part(('both', 'project'))
    ours[srt].reverse()
    for n, e in enumerate(ours[key].values()):
        if n % 2:
            for a in fields:
                e[a] = 'older'
        if n % 3:
            e['title'] = 'another name'
            e['aka'] = 'another one'
            e['tags'] = ['older']
    path = ctx.path('p.yw7')
    yw7.write(path, theirs)
    theirs = roundtrip.spec_of(path)
    doc = roundtrip.export(path, suffix)
    yw7.write(path, ours)
    want = roundtrip.spec_of(path)
    if case['saved']:
        d = lo.Edit(doc, case['seed'], formatted=True)
        d.reencode()
        d.save()
    roundtrip.bring_back(doc)
    after = roundtrip.spec_of(path)
    new = [i for i in theirs[srt] if i not in want[key]]
    expect_eq(after[srt], want[srt] + new, f'{suffix}: elements')
    for i in new:
        for a in fields:
            expect_eq((after[key][i][a] or '').rstrip(), (theirs[key][i][a] or '').rstrip(), f'{suffix}: {a} of the new element {i}')
        del after[key][i]
    after[srt] = list(want[srt])
    for i in theirs[srt]:
        if i in want[key]:
            for a in fields:
                want[key][i][a] = (theirs[key][i][a] or '').rstrip()
    roundtrip.same_project(after, want, suffix)
    ctx.label(suffix)
    ctx.label(f'{suffix}: new elements', new)
    ctx.label(f'{suffix}: elements the document lacks', set(want[key]) - set(theirs[key]))
    ctx.nontrivial(new or set(want[key]) - set(theirs[key]))


def people_strategy():
    from hypothesis import strategies as st

    @st.composite
    def make(draw):
        doc = draw(st.sampled_from(sorted(p25.DOCS)))
        saved = draw(gen.BOOL)
        seed = draw(st.integers(0, 10 ** 6))
        key = p25.DOCS[doc][0]
        ids = draw(gen.ids(2, 6))
        where = {i: draw(st.sampled_from(['both', 'both', 'document', 'project'])) for i in ids}
        n = draw(gen.novel(max_ch=1, max_sc=2, max_w=1, content=st.just('x'), field=gen.text(2)))
        field = st.one_of(gen.text(5, extra=p24.EXTRA), gen.multiline(p24.EXTRA))
        n[key] = {i: draw(gen.world(field, None, key == 'characters')) for i in ids}
        n['srt' + key.capitalize()] = ids
        for s in n['scenes'].values():
            s[key] = draw(st.lists(st.sampled_from(ids), unique=True))
        return dict(novel=n, doc=doc, saved=saved, seed=seed, where=where)
    return make()


PARTS = [Part('merge', strategy, check, quick=1200, thorough=20000), Part('people', people_strategy, people, quick=400, thorough=10000)]
