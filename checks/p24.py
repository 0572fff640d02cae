"""P24: part, chapter and scene description documents write back correctly."""
import copy

from vlib import gen, lo, model, odf, roundtrip, structure, yw7
from vlib.core import Part, expect, expect_eq

ID = 'P24'
LEVEL = 'exploration'
RULE = ('Generated projects are exported as part, chapter or scene descriptions with the converter. The document is imported unchanged, or after a simulated word processor saved it again (spans, automatic styles, encoded blanks '
        'and tabs), or after the descriptions of some elements were replaced and scene titles were inserted as marked comments. The project read back must be the original with exactly these edits. '
        'Non-trivial: a multi-line or special-character description in the document.')
ASSUMPTIONS = ['trailing white space of a description is not significant', 'the titles of chapters cannot be edited in these documents; scene titles are edited by a comment at the beginning of the scene, as documented',
               'descriptions do not themselves start with a comment containing a tilde']
KEYS = dict(_parts=('chapters', 'ChID'), _chapters=('chapters', 'ChID'), _scenes=('scenes', 'ScID'))


def fix(text):
    """Stay within the assumptions."""
    if text and text.startswith('/*') and '~' in text.split('*/')[0]:
        return text.replace('~', '-')
    return text


def shown(spec, suffix):
    if suffix == '_scenes':
        return [sid for cid in spec['srtChapters'] for sid in structure.shown_scenes(spec, cid, suffix)]
    return [cid for cid in spec['srtChapters'] if structure.shown_chapter(spec, cid, suffix) and (spec['chapters'][cid]['chLevel'] == 1) == (suffix == '_parts')]


def check(case, ctx):
    spec = case['novel']
    suffix = case['doc']
    path = ctx.path(case['name'] + '.yw7')
    yw7.write(path, spec)
    before = roundtrip.spec_of(path)
    doc = roundtrip.export(path, suffix)
    want = copy.deepcopy(before)
    key, prefix = KEYS[suffix]
    ids = shown(spec, suffix)
    for i in ids:
        want[key][i]['desc'] = (want[key][i]['desc'] or '').rstrip()
    if case['mode'] != 'unchanged':
        d = lo.Edit(doc, case['seed'], formatted=True)
        if case['mode'] == 'edited':
            done = set()
            for n, (text, ttl, note_text) in enumerate(case['edits']):
                if not ids:
                    break
                i = ids[(case['seed'] + 7 * n) % len(ids)]
                if i in done:
                    continue
                done.add(i)
                s = d.section(f'{prefix}:{i}')
                xml = lo.paragraphs(text, d.rng, d.styles)
                want[key][i]['desc'] = text.rstrip()
                if ttl and suffix == '_scenes':
                    note = lo.annotation(f'~{ttl}~', d.rng, d.styles)
                    xml = f'<text:p text:style-name="Text_20_body">{note}{lo.spans(text.split(chr(10))[0], d.rng, d.styles)}</text:p>'
                    rest = text.split('\n', 1)[1:]
                    if rest:
                        xml += lo.paragraphs(rest[0], d.rng, d.styles)
                    want[key][i]['title'] = ttl
                    ctx.label('scene title edited')
                if note_text and suffix == '_scenes':
                    note = lo.annotation(note_text, d.rng, d.styles)
                    if xml.endswith('</text:p>') and d.rng.random() < .5:
                        xml = xml[:-len('</text:p>')] + note + '</text:p>'
                        text += f'/*{note_text}*/'
                    else:
                        xml += f'<text:p text:style-name="Text_20_body">{note}</text:p>'
                        text += f'\n/*{note_text}*/'
                    want[key][i]['desc'] = text.rstrip()
                    ctx.label('another comment')
                    ctx.label('title and another comment', bool(ttl))
                d.set_paragraphs(s, xml)
                ctx.label(f'{suffix}: description edited')
                ctx.nontrivial()
        else:
            d.reencode()
        ctx.label('highlighted words', d.styles.formatted)
        if case['heads'] and all(before['chapters'][c]['title'] for c in before['srtChapters']):
            # other headings do not rename chapters
            for h in d.root.iter(odf.q('text:h')):
                if d.rng.random() < .5 and ''.join(h.itertext()).strip():
                    for k in list(h):
                        h.remove(k)
                    h.text = 'Another heading'
                    ctx.label('heading edited')
        d.save()
    roundtrip.bring_back(doc)
    after = roundtrip.spec_of(path)
    roundtrip.same_project(after, want, f'{suffix} {case["mode"]}')
    ctx.label(f'{suffix} {case["mode"]}', ids)
    for i in ids:
        t = before[key][i]['desc'] or ''
        ctx.nontrivial('\n' in t or any(c in t for c in '&<>'))
        ctx.label('blank lines', '\n\n' in t)
        ctx.label('repeated blanks', '  ' in t)


EXTRA = ('[i]', '/*', '*/', '  ', '   ', '\n\n', '\n> ', '\n\n\n', '## ', '- ', '~')


def edits(title=True):
    from hypothesis import strategies as st
    text = st.one_of(gen.text(8, extra=EXTRA + ('\t',), wild=False), gen.multiline(EXTRA + ('\t',))).map(fix)
    return st.lists(st.tuples(text, st.one_of(st.none(), gen.title().map(lambda t: t.replace('~', '-'))), st.one_of(st.none(), gen.title().map(lambda t: t.replace('~', '-')))), min_size=1, max_size=3)


def strategy():
    from hypothesis import strategies as st

    @st.composite
    def make(draw):
        field = st.one_of(gen.text(8, extra=EXTRA), gen.multiline(EXTRA)).map(fix)
        doc = draw(st.sampled_from(['_parts', '_chapters', '_scenes', '_scenes']))
        mode = draw(st.sampled_from(['unchanged', 'saved', 'edited', 'edited']))
        changes = draw(edits())
        n = draw(gen.novel(orphans=True, max_ch=4, max_sc=5, max_w=1, min_ch=1, min_sc=1, content=st.sampled_from(['', 'x', '[i]a[/i]\n\nb  ', '<HTML>x']), field=field))
        for c in n['chapters'].values():
            c['chType'] = draw(st.sampled_from([0, 0, 0, 0, 1, 2, 3]))
            c['isTrash'] = False
        for s in n['scenes'].values():
            s['scType'] = draw(st.sampled_from([0, 0, 0, 0, 1, 2, 3]))
        gen.shown(draw, n, 0, dict(_parts=1, _chapters=0).get(doc))
        return dict(novel=n, doc=doc, mode=mode, edits=changes, heads=draw(gen.BOOL), seed=draw(st.integers(0, 10 ** 6)), name=draw(st.sampled_from(['p', 'My Novel', 'R&D'])))
    return make()


PARTS = [Part('descriptions', strategy, check, quick=1400, thorough=20000)]
