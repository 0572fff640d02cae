"""Export, import again, and compare the projects."""
import copy
import os

from vlib import conv, markup, model, odf, yw7
from vlib.core import expect, expect_eq

LANG = ('languages', 'languageCode', 'countryCode')


def export(path, suffix, answer=True):
    """Export with the converter; return the document's path."""
    c, ui = conv.convert(path, suffix, answer=answer)
    expect(conv.failed(ui) is False, f'{suffix}: the export fails', ui.messages)
    doc = os.path.splitext(path)[0] + suffix + conv.DOCS[suffix]
    expect(os.path.isfile(doc), f'{suffix}: no document', ui.messages)
    return doc


def bring_back(doc, answer=True):
    c, ui = conv.convert(doc, answer=answer)
    expect(conv.failed(ui) is False, 'the import fails', os.path.basename(doc), ui.messages)
    return c, ui


def spec_of(path):
    return model.from_novel(model.load(path)[1])


def base(spec):
    """Project without the language settings, which are compared elsewhere."""
    return {k: v for k, v in spec.items() if k not in LANG}


def canonical(spec):
    """Nothing is represented by None."""
    def n(v):
        if isinstance(v, dict):
            return {k: n(x) for k, x in v.items()}
        return None if v in ('', [], None, False) else v
    return n(spec)


def same_project(got, want, what, skip=()):
    """Compare everything but (key, id, attribute) in skip."""
    got, want = base(copy.deepcopy(got)), base(copy.deepcopy(want))
    for key, i, attr in skip:
        for s in (got, want):
            if i in s[key]:
                s[key][i].pop(attr, None)
    d = model.diff(canonical(got), canonical(want))
    expect(d is None, f'{what}: the project changed', d)


def clean(pars, lang=True):
    """Paragraphs as far as they are significant."""
    r = []
    for p in pars:
        items = []
        for i in p['items']:
            if i[0] == 'comment':
                inner = [dict(items=[[k[0], k[1], frozenset(s for s in (k[2] or ()) if s in ('i', 'b'))] for k in odf.normal(q['items']) if k[0] != 'comment'], quote=False) for q in i[2]]
                inner = [dict(q, items=[['c', k[1], k[2] if k[1] != ' ' else None] for k in q['items']]) for q in inner]
                trim(inner)
                inner.reverse()
                for q in inner:
                    q['items'].reverse()
                trim(inner)
                inner.reverse()
                for q in inner:
                    q['items'].reverse()
                items.append(['comment', None, inner])
            else:
                items.append(i)
        r.append(dict(quote=p['quote'], items=odf.normal(items)))
    return trim(r)


def trim(pars):
    """Remove white space and empty paragraphs at the end."""
    while pars:
        items = pars[-1]['items']
        while items and items[-1][0] == 'c' and items[-1][1].isspace():
            items.pop()
        if items:
            break
        pars.pop()
    return pars


def show(pars):
    return ' ¶ '.join(('> ' if p['quote'] else '') + odf.show(p['items']) for p in pars)


def compare_text(got, want, what, raw=None):
    """Compare paragraphs."""
    g, w = clean(got), clean(want)
    for j in range(max(len(g), len(w))):
        here = f'{what}: paragraph {j + 1}'
        expect(j < len(g), f'{here} is missing', show(w), show(g), raw)
        expect(j < len(w), f'{here} is not expected', show(g), show(w), raw)
        expect(g[j]['quote'] == w[j]['quote'], f'{here}: quotation', show(g), show(w), raw)
        a, b = g[j]['items'], w[j]['items']
        expect(key(a) == key(b), f'{here}: text or formatting differs', show([g[j]]), show([w[j]]), raw)


def key(items):
    r = []
    for i in items:
        if i[0] == 'comment':
            r.append(('comment', [key(p['items']) for p in i[2]]))
        else:
            r.append((i[1], i[2] and sorted(map(str, i[2]))))
    return r
