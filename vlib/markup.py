"""Model of scene texts in yWriter markup: generator, renderer, and what the text looks like.

A content is a list of lines; a line is [quote, atoms]; atoms:
['t', text]  ['on', tag]  ['off', tag]  ['c', lines]  ['n', 'fn'|'fn*'|'en', lines]  ['raw', code]  ['s', tag]
"""
import re

from hypothesis import strategies as st

from vlib import gen

PLAIN = '[A-Za-z]{2,3}(-[A-Za-z0-9]{2,3})?'
TOKEN = re.compile(r'\[(?=/?(?:i|b|[hcrsu]\d*|lang=[^\]]*|ScID[^\]]*|ChID[^\]]*)\])')


def _safe_text(t):
    t = TOKEN.sub('[.', t)
    while '/*' in t or '*/' in t:
        t = t.replace('/*', '/ *').replace('*/', '* /')
    for code in ('HTM', 'TEX', 'RTF', 'epub', 'mobi', 'rtfimg'):
        t = t.replace(f'<{code} ', f'<{code}.').replace(f'/{code}>', f'/{code}.>')
    return t


def sanitize(lines, inner=False):
    """Make sure that the rendered text has only the markup that the structure says."""
    out = []
    for quote, atoms in lines:
        new = []
        for a in atoms:
            if a[0] == 't' and new and new[-1][0] == 't':
                new[-1] = ['t', new[-1][1] + a[1]]
            else:
                new.append(a)
        visible = False
        for i, a in enumerate(new):
            if a[0] == 't':
                t = _safe_text(a[1])
                nxt = new[i + 1][0] if i + 1 < len(new) else None
                if nxt is not None:
                    t = re.sub(r'\[([^\]]*)$', r'(\1', t)
                    marks = [b for b in new[i + 1:] if b[0] not in ('on', 'off')]
                    if (nxt in ('raw', 's') or nxt in ('on', 'off') and marks and (marks[0][0] != 't' or marks[0][1][:1] in ('/', '*'))) and t[-1:] in ('/', '*'):
                        t += '.'
                if not visible and not quote and re.match(r'\s*>(\s|$)' if inner else '>( |$)', t):
                    t = '.' + t
                if inner and not visible and t.lstrip().startswith('@'):
                    t = '.' + t
                if t.strip() or t and not inner:
                    visible = True
                new[i] = ['t', t]
            elif a[0] == 'c':
                new[i] = ['c', sanitize(a[1], True)]
            elif a[0] == 'n':
                new[i] = ['n', a[1], sanitize(a[2], True)]
        out.append([quote, [a for a in new if a != ['t', '']]])
    return out


def render(lines):
    r = []
    for quote, atoms in lines:
        s = '> ' if quote else ''
        for a in atoms:
            k = a[0]
            if k == 't':
                s += a[1]
            elif k == 'on':
                s += f'[{a[1]}]'
            elif k == 'off':
                s += f'[/{a[1]}]'
            elif k == 'c':
                s += '/*' + render(a[1]) + '*/'
            elif k == 'n':
                s += f'/*@{a[1]} ' + render(a[2]) + '*/'
            elif k == 'raw':
                s += a[1]
            elif k == 's':
                s += a[1]
        r.append(s)
    return '\n'.join(r)


def languages(lines):
    """Languages opened in the text, in order."""
    r = []
    for __, atoms in lines:
        for a in atoms:
            if a[0] == 'on' and a[1].startswith('lang='):
                if a[1][5:] not in r:
                    r.append(a[1][5:])
            elif a[0] in ('c', 'n'):
                r += [x for x in languages(a[-1]) if x not in r]
    return r


def locale(code):
    if re.fullmatch(PLAIN, code):
        l, __, c = code.partition('-')
        return ('lang', l, c or 'none')
    return ('lang', 'zxx', 'none')


def styles(active):
    r = {t for t in active if t in 'ib'}
    langs = [t for t in active if t.startswith('lang=')]
    if langs:
        r.add(locale(langs[-1][5:]))
    return frozenset(r)


def expected(lines, notes=False, raw=True, counter=None, active=None, known=None, comments=True):
    """Paragraphs: [dict(quote, items)], with items as vlib.odf yields them (not normalised).

    notes: foot- and endnotes are converted; otherwise they are comments.
    raw: raw code is kept literally.
    counter: [number] of the notes so far.
    known: the languages known in the project (others are text)
    """
    counter = counter if counter is not None else [0]
    active = active if active is not None else []
    pars = []
    for quote, atoms in lines:
        items = []
        for a in atoms:
            k = a[0]
            if k == 't':
                items += [['c', ch, styles(active)] for ch in a[1]]
            elif k == 'on':
                active.append(a[1])
            elif k == 'off':
                if known is not None and a[1].startswith('lang=') and a[1][5:] not in known:
                    items += [['c', ch, styles(active)] for ch in f'[/{a[1]}]']
                elif a[1] in active:
                    i = len(active) - 1 - active[::-1].index(a[1])
                    del active[i]
            elif k == 'c':
                items.append(['comment', None, [p for p in expected(a[1], known=known)]])
            elif k == 'n':
                if notes:
                    # the counting is document-wide
                    if a[1] == 'fn*':
                        label = '*'
                    else:
                        counter[0] += 1
                        label = str(counter[0])
                    items.append(['note', 'endnote' if a[1] == 'en' else 'footnote', label, expected(a[2], known=known)])
                else:
                    p = expected(a[2], known=known)
                    p[0]['items'] = [['c', ch, frozenset()] for ch in f'@{a[1]} '] + p[0]['items']
                    items.append(['comment', None, p])
            elif k == 'raw':
                if raw:
                    items += [['c', ch, styles(active)] for ch in a[1]]
        pars.append(dict(quote=quote, items=items))
    return pars


# ------------------------------------------------------------------ generator

TAGS = ['i', 'b']
GOODLANGS = ['de-DE', 'de-AT', 'fr', 'en-US', 'fr-CH', 'eo', 'fr-FR', 'ast-ES', 'es-419']
BADLANGS = ['x', 'abcd-EF', 'de-', 'de_DE', '', 'en-US-x', '-', 'a b', '&', 'd<e', '"q"']
STRIP = ['[u]', '[/u]', '[h1]', '[/h1]', '[c]', '[/c]', '[r]', '[/r]', '[s]', '[/s]', '[h]', '[u2]', '[h12]', '[/h12]', '[c100]']
RAW = ['<HTM <b> /HTM>', '<TEX \\LaTeX{} & /TEX>', '<RTF {\\b x} /RTF>', '<epub x /epub>', '<mobi y /mobi>', '<rtfimg a.png /rtfimg>', '<RTFBRK>', '<HTM </SPAN> /HTM>']


@gen.cache
def text_atom(nasty=True, multi=False):
    pool = gen.WORDS * 3 + gen.PUNCT + (gen.NASTY if nasty else [])
    pool = [p for p in pool if p not in ('/*', '*/')] + ['/', '*', '[|]', '[/|]', '[|2]', '[1]', '[12]', '[x]', '[I]', '[/B]', '[hr]', '[/]', 'fn', 'x@en ', 'x@fn*']
    sep = [' ', ' ', ' ', ' ', ' ', '', '', '  ', '  ', ' ' * 12] if multi else [' ', ' ', '']
    return st.lists(st.tuples(st.sampled_from(pool), st.sampled_from(sep)).map(''.join), min_size=1, max_size=4).map(lambda p: ['t', ''.join(p)])


@st.composite
def content(draw, langs=('de-DE', 'fr-CH'), notes=True, raw=True, strip=True, comments=True, nasty=True, max_lines=5, quotes=True, multi=True, lossless=False, blank=True):
    """A scene text. lossless: nothing that is not shown in the manuscript."""
    tags = TAGS + ['lang=' + l for l in langs]
    t = text_atom(nasty, multi)
    mark = st.tuples(st.sampled_from(['on', 'off']), st.sampled_from(tags)).map(list)
    both = st.sampled_from(tags)

    def inner(depth):
        return st.lists(st.tuples(st.just(False), st.lists(st.one_of(t, t, mark), min_size=1, max_size=3).map(_visible)).map(list), min_size=1, max_size=draw(st.sampled_from([1, 2, 2, 2, 5])))

    kinds = [t, t, t, mark, mark]
    if comments:
        kinds.append(inner(1).map(lambda l: ['c', l]))
    if notes:
        kinds.append(st.tuples(st.just('n'), st.sampled_from(['fn', 'fn*', 'en']), inner(1)).map(list))
    if raw:
        kinds.append(st.sampled_from(RAW).map(lambda r: ['raw', r]))
    if strip:
        kinds.append(st.sampled_from(STRIP).map(lambda r: ['s', r]))
    atom = st.one_of(*kinds)
    n = draw(st.integers(0, max_lines))
    lines = []
    for i in range(n):
        k = draw(st.sampled_from(['text', 'text', 'text', 'pair', 'quote', 'blank'] if blank else ['text', 'text', 'pair', 'quote']))
        if k == 'blank':
            lines.append([False, []])
            continue
        atoms = draw(st.lists(atom, min_size=1, max_size=5))
        if k == 'pair':
            # a properly closed passage
            tag = draw(both)
            a, b = draw(t), draw(t)
            atoms = [a, ['on', tag], b, ['off', tag]] + atoms
        quote = k == 'quote' and quotes
        if quote:
            atoms = [['t', 'q']] + atoms if draw(st.booleans()) else atoms + [['t', 'q']]
        lines.append([quote, atoms])
    return sanitize(lines or [[False, []]])


def _visible(atoms):
    if not any(a[0] == 't' and a[1].strip() for a in atoms):
        return atoms + [['t', 'x']]
    return atoms


# ------------------------------------------------------------------ independent reader of scene texts

PARSE = re.compile(r'\[(/?)(i|b|lang=[^\]]*)\]|\[/?[hcrsu]\d*\]')


def known(texts):
    """Languages opened in any of the texts."""
    return {m.group(2)[5:] for t in texts for m in PARSE.finditer(t or '') if m.group(2) and not m.group(1) and m.group(2).startswith('lang=')}


def parse(text, langs, comments=True, obsolete=True):
    """Paragraphs of a scene text as stored, in the form expected() yields."""
    active = []
    pars = [[]]
    pos = 0
    while pos < len(text):
        if comments and text.startswith('/*', pos):
            end = text.find('*/', pos + 2)
            if end >= 0:
                pars[-1].append(['comment', None, parse(text[pos + 2:end], langs, False, obsolete)])
                pos = end + 2
                continue
        m = PARSE.match(text, pos)
        if m:
            tag = m.group(2)
            if tag is None:
                if not obsolete:
                    pars[-1] += [['c', ch, styles(active)] for ch in m.group()]
            elif not m.group(1):
                active.append(tag)
            elif tag in active:
                del active[len(active) - 1 - active[::-1].index(tag)]
            elif tag in 'ib' or tag[5:] in langs:
                pass
            else:
                pars[-1] += [['c', ch, styles(active)] for ch in m.group()]
            pos = m.end()
            continue
        if text[pos] == '\n':
            pars.append([])
        else:
            pars[-1].append(['c', text[pos], styles(active)])
        pos += 1
    r = []
    for items in pars:
        s = ''.join(i[1] if i[0] == 'c' else '\0' for i in items[:2])
        quote = s.startswith('> ') or s == '>'
        r.append(dict(quote=quote, items=items[len('> '):] if quote else items))
    return r
