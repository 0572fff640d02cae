"""P31: an outline becomes a new project with the same structure."""
import re

from checks import p28
from vlib import gen, lo, markup, odf, roundtrip
from vlib.core import Part, expect, expect_eq

ID = 'P31'
LEVEL = 'exploration'
RULE = ('Outlines are generated as sequences of headings of three levels in the encodings that word processors use, with plain, formatted, quoted and listed paragraphs beneath them, metadata, language and text before the first heading. '
        'The new project must have one part or chapter per heading of level 1 or 2 and one scene per heading of level 3, nested and in order, with the heading as title and all the text beneath it as description. '
        'Non-trivial: at least two headings of level 3 and one description.')
ASSUMPTIONS = ['at least one heading of level 3', 'text before the first heading is not part of the outline', 'blank paragraphs and white space around a paragraph are not significant',
               'comments and notes do not occur in outlines']


def lines_of(text):
    """The text without blank lines and bullets."""
    r = (re.sub(r'^(-(\s+|$))+', '', x.strip()).strip() for x in (text or '').split('\n'))
    return [x for x in r if x]


def check(case, ctx):
    path = ctx.path(case['name'] + '.odt')
    d = lo.Document(case['seed'], case['language'], case['title'], case['author'], case['desc'], case['meta'])
    if case['before']:
        d.body.append('<text:p text:style-name="Title">The Book</text:p><text:p text:style-name="Subtitle">by <text:span text:style-name="Emphasis">me</text:span></text:p>')
    want = []
    for level, title, pars in case['headings']:
        decorated = d.rng.random() < .3
        d.heading(level, lo.wrap(title, frozenset(d.rng.choice([['i'], ['b']])), d.rng, d.styles) if decorated else lo.spans(title, d.rng, d.styles))
        body = markup.expected(pars, notes=False, raw=False)
        d.body.extend(lo.rich(body, d.rng, d.styles, breaks=d.rng.random() < .5))
        desc = [odf.plain(p['items']) for p in body]
        entry = dict(level=level, title=title.strip(), desc=lines_of('\n'.join(desc)), scenes=[])
        if level < 3:
            want.append(entry)
        else:
            if not want:
                want.append(dict(level=2, title=None, desc=[], scenes=[]))
            want[-1]['scenes'].append(entry)
    d.save(path)
    roundtrip.bring_back(path)
    got = roundtrip.spec_of(ctx.path(case['name'] + '.yw7'))
    expect_eq(len(got['srtChapters']), len(want), 'number of chapters')
    seen = []
    for cid, w in zip(got['srtChapters'], want):
        g = got['chapters'][cid]
        if w['title'] is None:
            expect(g['title'], 'a chapter for leading scenes has no title')
        else:
            expect_eq((g['title'] or ''), w['title'], f'title of chapter {cid}')
        expect_eq(g['chLevel'] or 0, 2 - w['level'], f'level of chapter {cid}')
        expect_eq(g['chType'] or 0, 0, f'type of chapter {cid}')
        expect_eq(lines_of(g['desc']), w['desc'], f'description of chapter {cid}')
        expect_eq(len(g['srtScenes']), len(w['scenes']), f'number of scenes in chapter {cid}')
        seen += g['srtScenes']
        for sid, v in zip(g['srtScenes'], w['scenes']):
            s = got['scenes'][sid]
            expect_eq(s['title'] or '', v['title'], f'title of scene {sid}')
            expect_eq(lines_of(s['desc']), v['desc'], f'description of scene {sid}')
            expect_eq(s['scType'] or 0, 0, f'type of scene {sid}')
            expect_eq((s['sceneContent'] or '').strip(), '', f'content of scene {sid}')
            expect_eq(s['status'] or 1, 1, f'status of scene {sid}')
            ctx.label('scene description', bool(v['desc']))
            ctx.label('several paragraphs', len(v['desc']) > 1)
        ctx.label('part', w['level'] == 1)
        ctx.label('chapter description', bool(w['desc']))
        ctx.label('leading scene', w['title'] is None)
    expect_eq(len(set(seen)), len(seen), 'scene IDs are not unique')
    expect_eq(sorted(seen), sorted(got['scenes']), 'scenes outside the chapters')
    if case['meta']:
        expect_eq(got['title'] or '', case['title'] or '', 'title')
        expect_eq(got['authorName'] or '', case['author'] or '', 'author')
        expect_eq((got['desc'] or ''), (case['desc'] or ''), 'description')
    expect_eq((got['languageCode'], got['countryCode']), tuple(case['language']), 'language')
    ctx.nontrivial(sum(len(w['scenes']) for w in want) > 1 and any(w['desc'] or any(v['desc'] for v in w['scenes']) for w in want))


def strategy():
    from hypothesis import strategies as st
    langs = st.sampled_from([(), ('de-DE',), ('de-DE', 'fr-CH'), ('de-AT', 'de-DE')])

    def plain(lines):
        for line in lines:
            line[1] = [a for a in line[1] if a[0] in ('t', 'on', 'off', 's')]
        return [x for x in lines]

    @st.composite
    def make(draw):
        l = draw(langs)
        lines = markup.content(langs=l, raw=False, strip=False).map(lambda x: p28.bullets(plain(x)))
        heading = st.tuples(st.sampled_from([1, 2, 2, 3, 3, 3]), gen.line(4).map(lambda t: t or 'T'), st.one_of(st.just([]), lines)).map(list)
        headings = draw(st.lists(heading, min_size=2, max_size=10))
        if all(h[0] != 3 for h in headings):
            headings.append([3, draw(gen.line(4)) or 'S', []])
        text = st.one_of(st.none(), gen.title())
        return dict(headings=headings, before=draw(gen.BOOL), title=draw(text), author=draw(text), desc=draw(text), meta=draw(st.sampled_from([True, True, True, False])),
                    language=draw(st.sampled_from([('en', 'US'), ('de', 'DE'), ('pt', 'BR')])), name=draw(st.sampled_from(['p', 'My Novel', 'R&D'])), seed=draw(st.integers(0, 10 ** 6)))
    return make()


PARTS = [Part('outline', strategy, check, quick=1000, thorough=15000)]
