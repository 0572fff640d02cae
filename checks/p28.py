"""P28: text edited in a word processor is imported as it is shown."""
import copy

from checks import p21
from vlib import gen, lo, markup, odf, roundtrip, structure, yw7
from vlib.core import Part, expect, expect_eq

ID = 'P28'
LEVEL = 'exploration'
RULE = ('Generated projects are exported as manuscript, proof, notes or todo documents; then the texts of some scenes are replaced by generated ones in the form in which a word processor saves them: runs divided into spans at '
        'random places, direct formatting, named and nested styles, formatted paragraphs, encoded blanks, tabs and line breaks, comments, foot- and endnotes, quotations, lists, bookmarks; some documents are large. After the import '
        'an independent interpreter of the stored texts must see exactly the characters, formatting, comments and notes that were put in, and nothing else may have changed. Non-trivial: an edited scene with markup.')
ASSUMPTIONS = p21.ASSUMPTIONS + ['the text does not itself contain markup as literal text']


def exact(pars):
    """White space counts."""
    r = []
    for p in pars:
        items = []
        for i in p['items']:
            if i[0] == 'c' and i[1] in odf.WS:
                items.append(['x', i[1], i[2]])
            elif i[0] == 'comment':
                items.append(['comment', None, i[2]])
            else:
                items.append(i)
        r.append(dict(quote=p['quote'], items=items))
    return r


def new_paragraphs(lines):
    return markup.expected(lines, notes=True, raw=False)


def check(case, ctx):
    spec = case['novel']
    suffix = case['doc']
    path = ctx.path('p.yw7')
    kind = structure.KIND.get(suffix, 0)
    yw7.write(path, spec)
    before = roundtrip.spec_of(path)
    doc = roundtrip.export(path, suffix)
    ids = p21.changed_ids(spec, suffix)
    d = lo.Edit(doc, case['seed'])
    want = {}
    for n, e in enumerate(case['edits']):
        if not ids:
            break
        i = ids[(case['seed'] + n) % len(ids)]
        if i in want:
            continue
        pars = new_paragraphs(e['lines'])
        if e['large']:
            pars = [dict(quote=False, items=[['c', ch, frozenset()] for ch in 'All work & no play. ' * e['large']])] + pars
        want[i] = markup.expected(([[False, [['t', 'All work & no play. ' * e['large']]]]] if e['large'] else []) + e['lines'], notes=False, raw=False)
        xml = ''.join(lo.rich(pars, d.rng, d.styles))
        if suffix == '_proof':
            replace_marked(d, i, xml)
        else:
            d.set_paragraphs(d.section(f'ScID:{i}'), xml)
        ctx.label('large', e['large'])
        ctx.nontrivial()
    d.save()
    roundtrip.bring_back(doc)
    after = roundtrip.spec_of(path)
    roundtrip.same_project(after, before, suffix, [('scenes', i, 'sceneContent') for i in want])
    langs = markup.known(s['sceneContent'] for s in after['scenes'].values())
    for i, pars in want.items():
        text = after['scenes'][i]['sceneContent'] or ''
        roundtrip.compare_text(exact(markup.parse(text, langs)), exact(pars), f'{suffix}: scene {i}', text)
        for p in pars:
            for it in p['items']:
                ctx.label(it[0] if it[0] != 'c' else 'formatted' if it[2] else 'text')
            ctx.label('quotation', p['quote'])
    ctx.label(suffix, want)


def replace_marked(d, sid, xml):
    """Replace the text between the scene marks of the proof."""
    parent = d.body
    kids = list(parent)
    start = next(k for k, e in enumerate(kids) if e.tag == odf.q('text:p') and ''.join(e.itertext()) == f'[ScID:{sid}]')
    end = next(k for k in range(start, len(kids)) if ''.join(kids[k].itertext()) == '[/ScID]')
    for e in kids[start + 1:end]:
        parent.remove(e)
    for n, e in enumerate(lo.fragment(xml)):
        parent.insert(start + 1 + n, e)


def strategy():
    from hypothesis import strategies as st
    langs = st.sampled_from([(), ('de-DE',), ('de-DE', 'fr-CH'), ('en-US', 'eo', 'fr-FR'), ('es-419', 'de-DE'), ('de-AT', 'de-DE', 'de')])

    @st.composite
    def make(draw):
        suffix = draw(st.sampled_from(['_manuscript', '_manuscript', '_proof', '_notes', '_todo']))
        kind = structure.KIND.get(suffix, 0)
        n = draw(gen.novel(orphans=True, max_ch=2, max_sc=4, max_w=0, min_ch=1, min_sc=1, content=st.sampled_from(['', 'x', 'one\n\ntwo', '[i]three[/i]', 'a [lang=de-DE]b[/lang=de-DE]'])))
        for c in n['chapters'].values():
            c['chType'] = kind
            c['isTrash'] = False
        for s in n['scenes'].values():
            s['scType'] = draw(st.sampled_from([kind, kind, kind, 0, 1, 2]))
            s['doNotExport'] = False
        l = draw(langs)
        lines = markup.content(langs=l, raw=False, strip=False).map(lambda x: bullets(p21.fit({'1': x})['1']))
        edits = st.lists(st.fixed_dictionaries(dict(lines=lines, large=st.sampled_from([0] * 30 + [500, 5000]))), min_size=1, max_size=3)
        return dict(novel=n, doc=suffix, edits=draw(edits), seed=draw(st.integers(0, 10 ** 6)))
    return make()


def bullets(lines):
    """Some lines become list items; white space that only a word processor can preserve."""
    for k, (quote, atoms) in enumerate(lines):
        if atoms and atoms[0][0] == 't' and not quote:
            if atoms[0][1].startswith('-'):
                atoms[0][1] = '- ' + atoms[0][1][1:]
            if atoms[0][1].startswith(','):
                atoms[0][1] = atoms[0][1] + '\t  x'
    return lines


PARTS = [Part('edited', strategy, check, quick=700, thorough=15000)]
