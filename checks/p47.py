"""P47: what stands outside of the marked passages of a document does not matter."""
import copy

from checks import p21, p24
from vlib import gen, lo, odf, roundtrip, structure, yw7
from vlib.core import Part

ID = 'P47'
LEVEL = 'exploration'
RULE = ('Generated projects are exported as one of the ten text documents that can be written back. A simulated word processor then adds paragraphs, blank lines, headings, lists, tables, sections, a table of contents, comments and '
        'notes at random places outside of the passages that hold the texts of the project, and changes or removes the headings there. After the import, the project must be the one from before. '
        'Non-trivial: something added to a document that contains a text of the project.')
ASSUMPTIONS = ['white space at the end of a text is not significant', 'every chapter has a title', 'what is added does not contain the marks of a proof document']
SUFFIXES = ['_manuscript', '_proof', '_notes', '_todo', '_scenes', '_chapters', '_parts', '_characters', '_characters', '_locations', '_items']
WORDS = ['x', 'Remember to check this.', 'Another text & more', 'a  b', '> no quotation', '- no item', '## no chapter', '~no title~', '@fn no note', "'", '[i]', '/* no comment */', 'ScID:1']

SECTIONS = ['Section', 'Section', 'Bereich ', 'Notes on ScID:', 'My ChID:', 'More CrID_desc:', 'The LcID:', 'An ItID:']


def piece(kind, text, level, d):
    """The XML of something to be added."""
    t = lo.spans(text, d.rng, d.styles)
    p = f'<text:p text:style-name="{d.rng.choice(["Text_20_body", "Standard", "Quotations", "First_20_line_20_indent", d.styles.para("Text_20_body")])}">{t}</text:p>'
    if kind == 'blank':
        return '<text:p text:style-name="Text_20_body"/>'
    if kind == 'heading':
        return f'<text:h text:style-name="Heading_20_{level}" text:outline-level="{level}">{t}</text:h>'
    if kind == 'bold':
        d.styles.xml.append('<style:style style:name="TX1" style:family="text"><style:text-properties fo:font-weight="bold" fo:font-style="italic"/></style:style>')
        return f'<text:p text:style-name="Text_20_body"><text:span text:style-name="TX1">{t}</text:span></text:p>'
    if kind == 'emphasis':
        return (f'<text:p text:style-name="Text_20_body"><text:span text:style-name="Emphasis">{t}</text:span> and '
                f'<text:span text:style-name="Strong_20_Emphasis">{t}</text:span></text:p>')
    if kind == 'list':
        return f'<text:list><text:list-item>{p}</text:list-item><text:list-item>{p}</text:list-item></text:list>'
    if kind == 'table':
        cell = f'<table:table-cell office:value-type="string">{p}</table:table-cell>'
        return f'<table:table table:name="Table1"><table:table-column table:number-columns-repeated="2"/><table:table-row>{cell}{cell}</table:table-row></table:table>'
    if kind == 'section':
        return f'<text:section text:style-name="Sect1" text:name="{d.rng.choice(SECTIONS)}{level}">{p}<text:p text:style-name="Text_20_body"/></text:section>'
    if kind == 'contents':
        return (f'<text:table-of-content text:style-name="Sect1" text:protected="true" text:name="Table of Contents1"><text:table-of-content-source text:outline-level="10"/>'
                f'<text:index-body><text:index-title text:name="Table of Contents1_Head"><text:p>Contents</text:p></text:index-title>{p}</text:index-body></text:table-of-content>')
    if kind == 'comment':
        return f'<text:p text:style-name="Text_20_body">{lo.annotation(text, d.rng, d.styles)}{t}</text:p>'
    if kind == 'note':
        return (f'<text:p text:style-name="Text_20_body">{t}<text:note text:id="ftn7" text:note-class="footnote"><text:note-citation>1</text:note-citation><text:note-body>'
                f'<text:p text:style-name="Footnote">{t}</text:p></text:note-body></text:note></text:p>')
    return p


def places(d, suffix):
    """[(parent, position)] outside of the texts."""
    result = []
    inside = False
    for n, e in enumerate(list(d.body)):
        name = e.get(odf.q('text:name'), '') if e.tag == odf.q('text:section') else ''
        if e.tag in (odf.q('text:sequence-decls'), odf.q('office:forms')):
            continue
        if suffix == '_proof':
            text = ''.join(e.itertext())
            if text.startswith('[ScID:'):
                result.append((d.body, n))
                inside = True
            elif text == '[/ScID]':
                inside = False
                continue
        if not inside:
            result.append((d.body, n))
        if name.startswith('ChID') and suffix in ('_manuscript', '_notes', '_todo', '_scenes'):
            for k, __ in enumerate(list(e)):
                result.append((e, k))
            result.append((e, len(e)))
    result.append((d.body, len(d.body)))
    return result


def check(case, ctx):
    spec = case['novel']
    suffix = case['doc']
    path = ctx.path('p.yw7')
    yw7.write(path, spec)
    before = roundtrip.spec_of(path)
    doc = roundtrip.export(path, suffix)
    d = lo.Edit(doc, case['seed'])
    todo = {}
    spots = places(d, suffix)
    for kind, text, level, where in case['added']:
        todo.setdefault(where % len(spots), []).append(piece(kind, text, level, d))
        ctx.label(f'{kind} added')
    # from the end, so that the positions remain valid
    for w in sorted(todo, key=lambda k: -spots[k][1]):
        parent, n = spots[w]
        for e in reversed(lo.fragment(''.join(todo[w]))):
            parent.insert(n, e)
    if case['heads'] and suffix not in ('_chapters', '_parts'):
        kept = {id(h) for s in d.root.iter(odf.q('text:section')) if not s.get(odf.q('text:name'), '').startswith('ChID') for h in s.iter(odf.q('text:h'))}
        parents = {id(c): e for e in d.root.iter() for c in e}
        for h in list(d.root.iter(odf.q('text:h'))):
            if id(h) not in kept and d.rng.random() < .5:
                if case['heads'] == 'none':
                    parents[id(h)].remove(h)
                    ctx.label('heading removed')
                    continue
                for k in list(h):
                    h.remove(k)
                h.text = case['heads']
                ctx.label('heading changed')
    d.save()
    roundtrip.bring_back(doc)
    after = roundtrip.spec_of(path)
    want = copy.deepcopy(before)
    skip = []
    if suffix in ('_manuscript', '_proof', '_notes', '_todo'):
        ids = p21.changed_ids(spec, suffix)
        skip = [('scenes', i, 'sceneContent') for i in ids]
        p21.compare(before, after, ids, suffix)
        ctx.nontrivial(any(before['scenes'][i]['sceneContent'] for i in ids))
    else:
        key, fields = {'_characters': ('characters', ['desc', 'bio', 'goals', 'notes']), '_locations': ('locations', ['desc']), '_items': ('items', ['desc'])}.get(suffix) or (p24.KEYS[suffix][0], ['desc'])
        for p in (want, after):
            for e in p[key].values():
                for a in fields:
                    e[a] = (e[a] or '').rstrip()
        ctx.nontrivial(any(e[a] for e in want[key].values() for a in fields))
    roundtrip.same_project(after, want, suffix, skip)
    ctx.label(suffix)


def strategy():
    from hypothesis import strategies as st
    kinds = st.sampled_from(['paragraph', 'paragraph', 'blank', 'blank', 'heading', 'bold', 'emphasis', 'list', 'table', 'section', 'contents', 'comment', 'note'])
    text = st.one_of(st.sampled_from(WORDS), gen.title().filter(lambda t: 'ScID' not in t))

    @st.composite
    def make(draw):
        suffix = draw(gen.sampled(*SUFFIXES))
        kind = structure.KIND.get(suffix, 0)
        field = st.sampled_from([None, '', 'x', 'one\n\ntwo', 'a & b', ' y', '\nz', 'word\n> word'])
        n = draw(gen.novel(orphans=True, max_ch=3, max_sc=4, max_w=4, min_ch=1, min_sc=1, content=st.sampled_from(['', 'x', 'one\n\ntwo', '[i]three[/i]', 'a [b]b[/b]\n> c', 'a/*b*/']), field=field, wfield=field))
        for c in n['chapters'].values():
            c['chType'] = kind
            c['isTrash'] = False
            c['title'] = c['title'] or 'A chapter'
        for s in n['scenes'].values():
            s['scType'] = kind
            s['doNotExport'] = False
        added = st.lists(st.tuples(kinds, text, st.integers(1, 3), st.integers(0, 40)), min_size=1, max_size=5)
        return dict(novel=n, doc=suffix, added=draw(added), heads=draw(st.sampled_from(['', 'Another heading', 'x', 'none'])), seed=draw(st.integers(0, 10 ** 6)))
    return make()


PARTS = [Part('additions', strategy, check, quick=900, thorough=15000)]
