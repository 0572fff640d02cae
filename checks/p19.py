"""P19: the cross reference lists exactly the existing references."""
from urllib.parse import quote

from vlib import conv, gen, model, odf, structure, yw7
from vlib.core import Part, expect, expect_eq

ID = 'P19'
LEVEL = 'exploration'
RULE = ('Generated projects with dense assignments of characters, locations, items and tags (shared tags, unassigned elements, all scene types) are exported as cross reference; headings, entries, scene and chapter numbers and '
        'link targets are compared with the reference relation computed from the project. Part "relation" does the same for the CrossReferences object, reused for several projects. Non-trivial: at least three references.')
ASSUMPTIONS = ['the order of the tag lists is not significant; the order of the entries is']
MARK = ['', ' (Notes)', ' (ToDo)', ' (Unused)']


def relation(spec):
    scenes = [(s, c) for c in spec['srtChapters'] for s in spec['chapters'][c]['srtScenes']]
    r = {}
    for key in ('characters', 'locations', 'items'):
        r[key] = [(i, [s for s, __ in scenes if i in (spec['scenes'][s][key] or [])]) for i in spec['srt' + key.capitalize()]]
    tags = {}
    for s, __ in scenes:
        for t in spec['scenes'][s]['tags'] or []:
            tags.setdefault(t, []).append(s)
    r['scene tags'] = tags
    for key in ('characters', 'locations', 'items'):
        tags = r[key + ' tags'] = {}
        for i in spec['srt' + key.capitalize()]:
            for t in spec[key][i]['tags'] or []:
                tags.setdefault(t, []).append(i)
    return r, [s for s, __ in scenes], {s: i for i, c in enumerate(spec['srtChapters'], 1) for s in spec['chapters'][c]['srtScenes']}


def document(case, ctx):
    spec = case['novel']
    name = case['name']
    if case['lead']:
        # Many chapters without scenes come first.
        lead = [str(5000 + i) for i in range(case['lead'])]
        first = spec['chapters'][spec['srtChapters'][0]]
        spec = {**spec, 'chapters': {**spec['chapters'], **{i: {**first, 'srtScenes': []} for i in lead}}, 'srtChapters': lead + spec['srtChapters']}
    yw7.write(ctx.path(name + '.yw7'), spec)
    __, novel = model.load(ctx.path(name + '.yw7'))
    conv.export(novel, conv.export_classes()['_xref'], ctx.path(name + '_xref.odt'))
    d = odf.Doc(ctx.path(name + '_xref.odt'))
    rel, order, chapter = relation(spec)
    co = structure.collapse
    q = quote(name)

    def scene(s):
        t = spec['scenes'][s]
        kind = next(structure.scene_type(spec, c, s) for c in spec['srtChapters'] if s in spec['chapters'][c]['srtScenes'])
        text = co(f'{order.index(s) + 1} (Ch {chapter[s]}) {t["title"] or ""}{MARK[kind]}')
        return text, [f'../{q}_manuscript.odt#ScID:{s}%7Cregion'] if kind == 0 else []
    world = []
    count = 0
    for key, word in (('characters', 'Character'), ('locations', 'Location'), ('items', 'Item')):
        for i, ss in rel[key]:
            if ss:
                world.append((co(f'Scenes with {word} {spec[key][i]["title"] or ""}:'), [scene(s) for s in ss]))
                count += len(ss)
    tags = [(co(f'Scenes tagged {t}:'), [scene(s) for s in ss]) for t, ss in rel['scene tags'].items()]
    for key, word, suffix, prefix in (('characters', 'Characters', '_characters', 'CrID'), ('locations', 'Locations', '_locations', 'LcID'), ('items', 'Items', '_items', 'ItID')):
        for t, ids in rel[key + ' tags'].items():
            tags.append((co(f'{word} tagged {t}:'), [(co((spec[key][i]['title'] or '') + ' ' + (spec[key][i].get('fullName') or '' if key == 'characters' else '')),
                                                      [f'../{q}{suffix}.odt#{prefix}:{i}%7Cregion']) for i in ids]))
    got = []
    for b in d.blocks[2:]:
        text = co(structure.text_of(b['items']))
        if b['kind'] == 'h':
            expect(b['level'] == 2, 'heading level', structure.brief(b))
            got.append((text, []))
        else:
            expect(got, 'text before the first heading', text)
            got[-1][1].append((text, b['links']))
    want = world + sorted(tags)
    have = got[:len(world)] + sorted(got[len(world):])
    for i in range(max(len(have), len(want))):
        expect(i < len(want), 'a list that should not be there', have[i] if i < len(have) else None)
        expect(i < len(have), 'a list is missing', want[i])
        expect_eq(have[i], want[i], f'list {i + 1}')
    ctx.nontrivial(count + len(tags) > 2)
    ctx.label('tags', tags)
    ctx.label('many chapters', case['lead'] > 90)
    ctx.label('element without scene', any(not ss for k in ('characters', 'locations', 'items') for __, ss in rel[k]))


def objects(case, ctx):
    from pywriter.model.cross_references import CrossReferences
    xr = CrossReferences()
    for spec in case['novels']:
        novel = model.to_novel(spec)
        xr.generate_xref(novel)
        rel, order, chapter = relation(spec)
        for attr, key in (('scnPerChr', 'characters'), ('scnPerLoc', 'locations'), ('scnPerItm', 'items')):
            expect_eq({k: v for k, v in getattr(xr, attr).items() if v}, {k: v for k, v in rel[key] if v}, attr)
        for attr, key in (('scnPerTag', 'scene tags'), ('chrPerTag', 'characters tags'), ('locPerTag', 'locations tags'), ('itmPerTag', 'items tags')):
            expect_eq({k: v for k, v in getattr(xr, attr).items() if v}, rel[key], attr)
        expect_eq(list(xr.srtScenes), order, 'srtScenes')
        expect_eq(xr.chpPerScn, {s: spec['srtChapters'][chapter[s] - 1] for s in order}, 'chpPerScn')
    ctx.nontrivial(len(case['novels']) > 1)


def dense():
    from hypothesis import strategies as st

    @st.composite
    def make(draw):
        n = draw(gen.novel(orphans=True, max_ch=3, max_sc=7, max_w=4, min_ch=1, min_sc=2, content=st.just(''), field=st.just('')))
        pool = draw(st.lists(gen.TAGCHARS.map(lambda s: s or 't'), min_size=1, max_size=4, unique=True))
        def tags():
            return draw(st.one_of(st.none(), st.lists(st.sampled_from(pool), max_size=3, unique=True)))
        for s in n['scenes'].values():
            s['tags'] = tags()
            for k in ('characters', 'locations', 'items'):
                if n[k]:
                    s[k] = draw(st.lists(st.sampled_from(sorted(n[k])), unique=True, max_size=4))
        for k in ('characters', 'locations', 'items'):
            for e in n[k].values():
                e['tags'] = tags()
        return n
    return make()


def strategy(kind):
    def make():
        from hypothesis import strategies as st
        if kind == 'document':
            return st.fixed_dictionaries(dict(novel=dense(), lead=st.sampled_from([0] * 30 + [8, 98, 99, 100, 255, 999]), name=st.sampled_from(['p', 'My Novel', 'R&D', 'ü', '100%'])))
        return st.fixed_dictionaries(dict(novels=st.lists(dense(), min_size=1, max_size=3)))
    return make


PARTS = [Part('document', strategy('document'), document, quick=1000, thorough=20000), Part('relation', strategy('relation'), objects, quick=500, thorough=10000)]
