"""P33: word and letter counts follow the visible text."""
from vlib import gen, model, yw7
from vlib.core import Part, expect, expect_eq

ID = 'P33'
LEVEL = 'exploration'
RULE = ('Texts are built from words with known boundaries: words are joined by blanks, line breaks, dashes of all kinds or hyphens and apostrophes, with formatting and language tags, comments (also multi-line ones) and notes '
        'inserted between and inside words; several texts are assigned to one scene one after the other, and read from a project file. The counts are computed from the construction. A second part inserts markup at any place of any text '
        'and requires unchanged counts. Non-trivial: a comment, tag, dash or hyphen occurs.')
ASSUMPTIONS = ['text in square brackets counts as markup', 'a quotation mark at the start of a line (block quotation) is not a word; its characters may be counted as letters']

WORDS = ['a', 'night', 'Tür', "can't", 'o’clock', '日本', 'x.', '42', '“No', 'end”', '&', '...', 'naïve,', '😀']
JOIN = {'-': False, "'": False, '’': False, '': False, ' ': True, '  ': True, '\n': True, '\n\n': True, '--': True, '—': True, '–': True, ' – ': True, ' -- ': True, '\t': True}
MARK = ['[i]', '[/i]', '[b]', '[lang=de-DE]', '[/lang=de-DE]', '[u]', '[h1]', '/*comment*/', '/*a longer comment - with words*/', '/*two\nlines*/', '/*@fn A note.*/', '/*@en Two\n\nparagraphs*/', '/**/', '/* [i]x[/i] */']


def build(tokens):
    """Return text, words, letters."""
    text = ''
    words = letters = 0
    open_word = False
    for kind, t in tokens:
        if kind == 'w':
            text += t
            letters += len(t)
            if not open_word:
                words += 1
            open_word = True
        elif kind == 'j':
            text += t
            letters += len(t.replace('\n', ''))
            if JOIN[t]:
                open_word = False
            elif t in "'’" and t:
                if not open_word:
                    words += 1
                open_word = True
        else:
            text += t
    return text, words, letters


def check(case, ctx):
    from pywriter.model.scene import Scene
    scene = Scene()
    expect_eq((scene.wordCount, scene.letterCount), (0, 0), 'counts of a new scene')
    scenes = {}
    for i, tokens in enumerate(case['texts'], 1):
        text, words, letters = build(tokens)
        scene.sceneContent = text
        expect_eq(scene.sceneContent, text, 'the text itself')
        expect_eq((scene.wordCount, scene.letterCount), (words, letters), f'words and letters of {text!r}')
        scenes[str(i)] = (text, words, letters)
        ctx.nontrivial(any(k == 'm' or t in ('-', '--', '—', '–') for k, t in tokens))
        ctx.label('multi-line comment', any(k == 'm' and '\n' in t for k, t in tokens))
        ctx.label('markup inside a word', any(a[0] == 'w' and b[0] == 'm' and c[0] == 'w' for a, b, c in zip(tokens, tokens[1:], tokens[2:])))
    yw7.write(ctx.path('p.yw7'), gen.blank_novel({i: gen.blank_scene(sceneContent=s[0]) for i, s in scenes.items()}))
    __, novel = model.load(ctx.path('p.yw7'))
    for i, (text, words, letters) in scenes.items():
        s = novel.scenes[i]
        expect_eq((s.wordCount, s.letterCount), (words, letters), f'words and letters read from the project: {text!r}')


def insertion(case, ctx):
    from pywriter.model.scene import Scene
    a, b = Scene(), Scene()
    pos = case['pos'] % (len(case['text']) + 1)
    t = case['text']
    a.sceneContent = t
    b.sceneContent = t[:pos] + case['mark'] + t[pos:]
    expect_eq((b.wordCount, b.letterCount), (a.wordCount, a.letterCount), f'counts of {b.sceneContent!r}, compared with {t!r}')
    expect(a.letterCount == len(t.replace('\n', '')), 'letters of a plain text', t, a.letterCount)
    ctx.nontrivial(len(t) > 3)


def strategy():
    from hypothesis import strategies as st
    token = st.one_of(st.tuples(st.just('w'), st.sampled_from(WORDS)), st.tuples(st.just('w'), st.sampled_from(WORDS)), st.tuples(st.just('j'), st.sampled_from(sorted(JOIN))),
                      st.tuples(st.just('m'), st.sampled_from(MARK))).map(list)

    def fix(tokens):
        # hyphens only inside words; no quotation marks; texts cannot join to other markup
        out = []
        for k, t in tokens:
            if k == 'j' and '-' in t:
                last = [x for x in out if x[0] != 'm'][-1:]
                if not last or last[0][0] != 'w':
                    continue
            out.append([k, t])
        return out
    return st.fixed_dictionaries(dict(texts=st.lists(st.lists(token, min_size=2, max_size=12).map(fix), min_size=1, max_size=4)))


def insertion_strategy():
    from hypothesis import strategies as st
    text = gen.text(10).map(lambda t: ''.join(c for c in t if c not in '[]*/-–—>'))
    return st.fixed_dictionaries(dict(text=text, mark=st.sampled_from(MARK), pos=st.integers(0, 60)))


PARTS = [Part('construction', strategy, check, quick=4000, thorough=80000), Part('insertion', insertion_strategy, insertion, quick=4000, thorough=80000)]
