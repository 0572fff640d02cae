"""P46: comments marked as titles set scene titles."""
from checks import p21, p28
from vlib import gen, lo, markup, roundtrip, structure, yw7
from vlib.core import Part, expect_eq

ID = 'P46'
LEVEL = 'exploration'
RULE = ('Generated projects are exported as manuscript, notes, todo or proof documents. A simulated word processor replaces the texts of some scenes and puts comments into them, at any place of the text: some between tildes, some '
        'that only contain, start or end with one. After the import, the scenes with a comment between tildes must have its text as title, their texts must be what was put in without this comment, and all other comments must be '
        'comments in the text; nothing else may have changed. In proof documents all comments are comments. Non-trivial: a scene with a marked comment.')
ASSUMPTIONS = p28.ASSUMPTIONS + ['a marked comment has one paragraph, a scene has at most one of them, and the title in it is not empty']


def place(lines, where, atom):
    """Put an atom into a copy of the lines."""
    lines = [[quote, list(atoms)] for quote, atoms in lines]
    line, pos = where
    if line == -1:
        lines.insert(0, [False, [atom]] if atom else [False, []])
        return lines
    atoms = lines[line % len(lines)][1]
    if atom and atoms:
        # not before the first character, which may matter as such
        atoms.insert(1 + pos % len(atoms), atom)
    elif atom:
        atoms.append(atom)
    return lines


def check(case, ctx):
    spec = case['novel']
    suffix = case['doc']
    path = ctx.path('p.yw7')
    yw7.write(path, spec)
    before = roundtrip.spec_of(path)
    doc = roundtrip.export(path, suffix)
    ids = p21.changed_ids(spec, suffix)
    d = lo.Edit(doc, case['seed'])
    want = {}
    titles = {}
    for n, e in enumerate(case['edits']):
        if not ids:
            break
        i = ids[(case['seed'] + n) % len(ids)]
        if i in want:
            continue
        title = ['c', [[False, [['t', f'~{e["before"]}{e["title"]}{e["after"]}~']]]]]
        lines = e['lines']
        if e['other']:
            lines = place(lines, e['place2'], ['c', [[False, [['t', e['other']]]]]])
        full = place(lines, e['place'], title) if e['marked'] else lines
        if not e['marked'] or suffix == '_proof':
            want[i] = markup.expected(full, notes=False, raw=False)
        else:
            want[i] = markup.expected(place(lines, e['place'], None), notes=False, raw=False)
            titles[i] = e['title']
            ctx.nontrivial()
            ctx.label('marked comment')
        ctx.label(f'{suffix}: marked', e['marked'])
        ctx.label('another comment', e['other'])
        xml = ''.join(lo.rich(markup.expected(full, notes=True, raw=False), d.rng, d.styles))
        if suffix == '_proof':
            p28.replace_marked(d, i, xml)
        else:
            d.set_paragraphs(d.section(f'ScID:{i}'), xml)
    d.save()
    roundtrip.bring_back(doc)
    after = roundtrip.spec_of(path)
    for i in titles:
        expect_eq(after['scenes'][i]['title'], titles[i], f'{suffix}: title of scene {i}')
    roundtrip.same_project(after, before, suffix, [('scenes', i, 'sceneContent') for i in want] + [('scenes', i, 'title') for i in titles])
    langs = markup.known(s['sceneContent'] for s in after['scenes'].values())
    for i, pars in want.items():
        text = after['scenes'][i]['sceneContent'] or ''
        roundtrip.compare_text(p28.exact(markup.parse(text, langs)), p28.exact(pars), f'{suffix}: scene {i}', text)
    ctx.label(suffix, want)


def strategy():
    from hypothesis import strategies as st
    nothing = st.sampled_from(['', '', '', ' ', '  '])
    place = st.tuples(st.sampled_from([-1, 0, 0, 1, 2, 3, 4]), st.integers(0, 5)).map(list)

    @st.composite
    def make(draw):
        suffix = draw(st.sampled_from(['_manuscript', '_manuscript', '_notes', '_todo', '_proof']))
        kind = structure.KIND.get(suffix, 0)
        n = draw(gen.novel(orphans=True, max_ch=2, max_sc=4, max_w=0, min_ch=1, min_sc=1, content=st.sampled_from(['', 'x', 'one\n\ntwo', '[i]three[/i]', 'a [lang=de-DE]b[/lang=de-DE]'])))
        for c in n['chapters'].values():
            c['chType'] = kind
            c['isTrash'] = False
        for s in n['scenes'].values():
            s['scType'] = kind
            s['doNotExport'] = False
        title = st.one_of(gen.line(4), gen.line(4), st.sampled_from(['a ~ b', '~', 'x', 'Title of a scene that is a little longer than usual, and ends with a dot.', '#', '## 1', '| x', "'", '@fn', 'a & <b>'])).filter(lambda t: t.strip('~ ') or t == '~')
        other = st.one_of(st.none(), st.none(), st.sampled_from(['~', 'x~', '~ x', 'a ~b~ c', '~b~ c', 'a ~b~', 'a', '-~x~', '~x~.', '"~x~"']))
        lines = markup.content(langs=(), raw=False, strip=False, notes=draw(st.booleans()), max_lines=3).map(lambda x: p28.bullets(p21.fit({'1': x})['1']))
        edit = st.fixed_dictionaries(dict(lines=lines, title=title, before=nothing, after=nothing, place=place, place2=place, other=other, marked=st.sampled_from([True, True, True, False])))
        return dict(novel=n, doc=suffix, edits=draw(st.lists(edit, min_size=1, max_size=3)), seed=draw(st.integers(0, 10 ** 6)))
    return make()


PARTS = [Part('marked comments', strategy, check, quick=700, thorough=12000)]
