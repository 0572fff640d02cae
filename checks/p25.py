"""P25: character, location and item documents write back correctly."""
import copy

from checks.p24 import EXTRA
from vlib import gen, lo, roundtrip, yw7
from vlib.core import Part

ID = 'P25'
LEVEL = 'exploration'
RULE = ('Generated projects are exported as character, location or item descriptions with the converter. The document is imported unchanged, or after a simulated word processor saved it again (spans, automatic styles, encoded '
        'blanks and tabs), or after descriptions, biographies, goals and notes of some elements were replaced. The project read back must be the original with exactly these edits. '
        'Non-trivial: a multi-line or special-character text in the document.')
ASSUMPTIONS = ['trailing white space of a text is not significant', 'names cannot be edited in these documents']
DOCS = dict(_characters=('characters', 'CrID', ['desc', 'bio', 'goals', 'notes']), _locations=('locations', 'LcID', ['desc']), _items=('items', 'ItID', ['desc']))


def check(case, ctx):
    spec = case['novel']
    suffix = case['doc']
    path = ctx.path(case['name'] + '.yw7')
    yw7.write(path, spec)
    before = roundtrip.spec_of(path)
    doc = roundtrip.export(path, suffix)
    want = copy.deepcopy(before)
    key, prefix, fields = DOCS[suffix]
    ids = list(want[key])
    for i in ids:
        for a in fields:
            want[key][i][a] = (want[key][i][a] or '').rstrip()
            ctx.nontrivial('\n' in want[key][i][a] or any(c in want[key][i][a] for c in '&<>'))
    if case['mode'] != 'unchanged':
        d = lo.Edit(doc, case['seed'], formatted=True)
        if case['mode'] == 'edited':
            for n, (text, k) in enumerate(case['edits']):
                if not ids:
                    break
                i = ids[(case['seed'] + 7 * n) % len(ids)]
                a = fields[k % len(fields)]
                d.set_paragraphs(d.section(f'{prefix}_{a}:{i}' if suffix == '_characters' else f'{prefix}:{i}'), lo.paragraphs(text, d.rng, d.styles))
                want[key][i][a] = text.rstrip()
                ctx.label(f'{suffix}: {a} edited')
                ctx.nontrivial()
        else:
            d.reencode()
        ctx.label('highlighted words', d.styles.formatted)
        d.save()
    roundtrip.bring_back(doc)
    after = roundtrip.spec_of(path)
    roundtrip.same_project(after, want, f'{suffix} {case["mode"]}')
    ctx.label(f'{suffix} {case["mode"]}', ids)


def strategy():
    from hypothesis import strategies as st

    @st.composite
    def make(draw):
        field = st.one_of(gen.text(8, extra=EXTRA), gen.multiline(EXTRA))
        n = draw(gen.novel(orphans=True, max_ch=1, max_sc=2, max_w=4, content=st.sampled_from(['', 'x']), field=gen.text(3), wfield=field))
        doc = draw(st.sampled_from(['_characters', '_characters', '_locations', '_items']))
        key = DOCS[doc][0]
        if not n[key]:
            i = draw(gen.ids(1, 2))
            n[key] = {k: draw(gen.world(field, None, key == 'characters')) for k in i}
            n['srt' + key.capitalize()] = i
        edits = st.lists(st.tuples(st.one_of(gen.text(8, extra=EXTRA + ('\t',), wild=False), gen.multiline(EXTRA + ('\t',))), st.integers(0, 3)), min_size=1, max_size=3)
        return dict(novel=n, doc=doc, mode=draw(st.sampled_from(['unchanged', 'saved', 'edited', 'edited'])), edits=draw(edits), seed=draw(st.integers(0, 10 ** 6)), name=draw(st.sampled_from(['p', 'My Novel', 'R&D'])))
    return make()


PARTS = [Part('descriptions', strategy, check, quick=900, thorough=20000)]
