"""P30: a work in progress becomes a new project with all of its text."""
from checks import p21, p28
from vlib import conv, gen, lo, markup, model, odf, roundtrip
from vlib.core import Part, expect, expect_eq

ID = 'P30'
LEVEL = 'exploration'
RULE = ('Documents are generated as a word processor saves them: headings in several encodings, passages over the whole range of formatting, comments, notes, quotations and lists, scene dividers, metadata, language, tracked '
        'deletions and text before the first heading. The project made from it must have one chapter per heading and one scene per divided passage, in order, with exactly the text shown, and the title, author, description and language '
        'of the document. Non-trivial: at least two passages.')
ASSUMPTIONS = ['headings of level 1 and 2 only', 'text before the first heading is not part of the work', 'a comment at the beginning of a passage is the scene title; notes do not stand there',
               'empty scenes of passages without paragraphs are not significant', 'text lines do not begin with a separator of the scene splitter', 'language codes of the form ll or ll-CC']
DIVIDER = '* * *'


def start(case):
    """Passages in the assumed form."""
    for part in case['parts']:
        for lines in part['passages']:
            quote, atoms = lines[0]
            while atoms and atoms[0][0] == 'n':
                atoms.pop(0)
            if atoms and atoms[0][0] == 'c' and not quote:
                atoms[0] = ['c', [[False, [['t', 'A scene title']]]]]
                while len(atoms) > 1 and atoms[1][0] in ('c', 'n', 'on', 'off'):
                    atoms.pop(1)
            if atoms and atoms[0][0] in ('on', 'off') and not quote:
                while atoms and atoms[0][0] != 't':
                    atoms.pop(0)
            titled = [atoms.pop(0)] if atoms and atoms[0][0] == 'c' and not quote else []
            p21.fit({'1': lines})
            atoms[:0] = titled


def check(case, ctx):
    start(case)
    path = ctx.path(case['name'] + '.odt')
    d = lo.Document(case['seed'], case['language'], case['title'], case['author'], case['desc'], case['meta'])
    if case['before']:
        d.body.append('<text:tracked-changes><text:changed-region text:id="ct1"><text:deletion><office:change-info><dc:creator>X</dc:creator><dc:date>2023-01-01T00:00:00</dc:date></office:change-info>'
                      '<text:p text:style-name="Text_20_body">deleted text</text:p></text:deletion></text:changed-region></text:tracked-changes>')
        d.body.append('<text:p text:style-name="Title">The Book</text:p><text:p text:style-name="Subtitle">by <text:span text:style-name="Emphasis">me</text:span></text:p>')
    want = []
    for part in case['parts']:
        d.heading(part['level'], lo.spans(part['title'], d.rng, d.styles) if part['level'] == 1 or d.rng.random() < .5 else lo.wrap(part['title'], frozenset(d.rng.choice([['i'], ['b']])), d.rng, d.styles))
        scenes = []
        want.append((part, scenes))
        for n, lines in enumerate(part['passages']):
            if n:
                style = d.rng.choice(['Heading_20_4', 'Heading_20_4', 'Text_20_body', d.styles.para('Text_20_body')])
                d.body.append(f'<text:p text:style-name="{style}">{d.rng.choice([DIVIDER] * 4 + [lo.encode(DIVIDER + ' '), lo.encode(' ' + DIVIDER), DIVIDER + ' ', f'<text:span text:style-name="{d.styles.text(frozenset("b"))}">{DIVIDER}</text:span>'])}</text:p>')
            d.body.extend(lo.rich(markup.expected(lines, notes=True, raw=False), d.rng, d.styles))
            pars = markup.expected(lines, notes=False, raw=False)
            title = None
            if not pars[0]['quote'] and pars[0]['items'] and pars[0]['items'][0][0] == 'comment':
                title = odf.plain(pars[0]['items'].pop(0)[2][0]['items']).strip()
            scenes.append((title, pars))
    d.save(path)
    c, ui = roundtrip.bring_back(path)
    target = ctx.path(case['name'] + '.yw7')
    got = roundtrip.spec_of(target)
    expect_eq(len(got['srtChapters']), len(want), 'number of chapters')
    langs = markup.known(s['sceneContent'] for s in got['scenes'].values())
    seen = []
    for cid, (part, scenes) in zip(got['srtChapters'], want):
        g = got['chapters'][cid]
        expect_eq((g['title'] or '').strip(), part['title'].strip(), f'title of chapter {cid}')
        expect_eq(g['chLevel'] or 0, 2 - part['level'], f'level of chapter {cid}')
        expect_eq(g['chType'] or 0, 0, f'type of chapter {cid}')
        ids = [s for s in g['srtScenes'] if (got['scenes'][s]['sceneContent'] or '').strip()]
        seen += g['srtScenes']
        wanted = [s for s in scenes if roundtrip.trim(roundtrip.clean(exact(s[1]))) or s[0]]
        # a passage with nothing but a title comment has an empty scene
        wanted = [s for s in wanted if roundtrip.trim(roundtrip.clean(exact(s[1])))]
        expect_eq(len(ids), len(wanted), f'number of scenes in chapter {cid}: {[got["scenes"][s]["sceneContent"] for s in ids]}')
        for sid, (title, pars) in zip(ids, wanted):
            s = got['scenes'][sid]
            roundtrip.compare_text(exact(markup.parse(s['sceneContent'], langs)), exact(pars), f'scene {sid}', s['sceneContent'])
            if title is not None:
                expect_eq(s['title'], title, f'title of scene {sid}')
                ctx.label('title from a comment')
            else:
                expect(s['title'], f'scene {sid} has no title')
            expect_eq(s['scType'] or 0, 0, f'type of scene {sid}')
    expect_eq(len(set(seen)), len(seen), 'scene IDs are not unique')
    expect_eq(sorted(seen), sorted(got['scenes']), 'scenes outside the chapters')
    if case['meta']:
        expect_eq(got['title'] or '', case['title'] or '', 'title')
        expect_eq(got['authorName'] or '', case['author'] or '', 'author')
        expect_eq((got['desc'] or ''), (case['desc'] or ''), 'description')
    expect_eq((got['languageCode'], got['countryCode']), tuple(case['language']), 'language')
    ctx.nontrivial(sum(len(s) for __, s in want) > 1)
    for __, scenes in want:
        ctx.label('several passages', len(scenes) > 1)
        ctx.label('chapter without text', not scenes)
        for __, pars in scenes:
            for p in pars:
                for it in p['items']:
                    ctx.label(it[0] if it[0] != 'c' else 'formatted' if it[2] else 'text')
                ctx.label('quotation', p['quote'])


exact = p28.exact


def strategy():
    from hypothesis import strategies as st
    langs = st.sampled_from([(), ('de-DE',), ('de-DE', 'fr-CH'), ('en-US', 'eo', 'fr-FR'), ('es-419', 'de-DE'), ('de-AT', 'de-DE', 'de')])

    @st.composite
    def make(draw):
        l = draw(langs)
        lines = markup.content(langs=l, raw=False, strip=False).map(lambda x: p28.bullets(p21.fit({'1': x})['1']))
        part = st.fixed_dictionaries(dict(level=st.sampled_from([1, 2, 2]), title=gen.line(4).map(lambda t: t or 'T'), passages=st.lists(lines, max_size=4)))
        text = st.one_of(st.none(), gen.title())
        return dict(parts=draw(st.lists(part, min_size=1, max_size=4)), before=draw(gen.BOOL), title=draw(text), author=draw(text), desc=draw(text), meta=draw(st.sampled_from([True, True, True, False])),
                    language=draw(st.sampled_from([('en', 'US'), ('de', 'DE'), ('pt', 'BR')])), name=draw(st.sampled_from(['p', 'My Novel', 'R&D'])), seed=draw(st.integers(0, 10 ** 6)))
    return make()


PARTS = [Part('work in progress', strategy, check, quick=700, thorough=15000)]
