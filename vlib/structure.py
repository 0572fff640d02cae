"""What the documents made from chapters and scenes contain: reference model of selection and layout."""
import re
from urllib.parse import quote

from vlib.core import expect, expect_eq

# suffix -> (types of chapters shown, types of scenes shown)
KIND = {'_notes': 1, '_todo': 2}
CHAPTER_DOCS = ['', '_proof', '_manuscript', '_brf_synopsis', '_scenes', '_chapters', '_parts', '_notes', '_todo']


def scene_type(spec, cid, sid):
    return spec['chapters'][cid].get('chType') or spec['scenes'][sid].get('scType') or 0


def chapter_excluded(spec, cid):
    """All scenes of the chapter are excluded from export."""
    scenes = spec['chapters'][cid]['srtScenes']
    return bool(scenes) and all(spec['scenes'][s]['doNotExport'] for s in scenes)


def shown_scenes(spec, cid, suffix):
    r = []
    kind = KIND.get(suffix, 0)
    for sid in spec['chapters'][cid]['srtScenes']:
        s = spec['scenes'][sid]
        if scene_type(spec, cid, sid) != kind:
            continue
        if kind == 0:
            if s['doNotExport'] or chapter_excluded(spec, cid):
                continue
            if (s['sceneContent'] or '').startswith(('<HTML>', '<TEX>')):
                continue
        r.append(sid)
    return r


def shown_chapter(spec, cid, suffix):
    c = spec['chapters'][cid]
    kind = KIND.get(suffix, 0)
    if (c.get('chType') or 0) != kind:
        return False
    if kind == 0 and chapter_excluded(spec, cid):
        return False
    return True


def title(t, quick_tags=True):
    t = t or ''
    if quick_tags:
        t = re.sub(r'\[/*[hcrsu]\d*\]', '', t)
    return t


def expected(spec, suffix, name, scene=None, desc=None):
    """List of blocks: dict(kind, level, style, text, sections, link).

    scene(sid, appended), desc(text, first style): the paragraphs of a text, as dicts with style and text or items
    """
    formatted = suffix in ('', '_manuscript', '_proof', '_notes', '_todo')
    blocks = [dict(kind='p', level=0, style='Title', text=title(spec['title'], formatted), sections=()),
              dict(kind='p', level=0, style='Subtitle', text=title(spec['authorName'], formatted), sections=())]

    def h(level, text, sections, style=None, link=None):
        blocks.append(dict(kind='h', level=level, style=style or f'Heading_20_{level}', text=text, sections=sections, links=[link] if link else []))

    def add(pars, sections):
        for p in pars:
            blocks.append(dict(dict(kind='p', level=0), **p, sections=sections))

    for cid in spec['srtChapters']:
        c = spec['chapters'][cid]
        level = 1 if c['chLevel'] == 1 else 2
        sec = ()
        if shown_chapter(spec, cid, suffix):
            text = title(c['title'], formatted)
            if suffix in ('', '_manuscript', '_notes', '_todo') and (c['suppressChapterTitle'] or (c['title'] or '').startswith('@')):
                text = ''
            link = '../' + quote(name) + f'_manuscript.odt#ChID:{cid}%7Cregion'
            if suffix in ('_manuscript', '_scenes', '_notes', '_todo'):
                sec = (f'ChID:{cid}',)
            if suffix == '_chapters':
                if level == 1:
                    h(1, text, ())
                else:
                    h(2, text, (f'ChID:{cid}',), link=link)
                    add(desc(c['desc'], 'Text_20_body'), (f'ChID:{cid}',))
            elif suffix == '_parts':
                if level == 1:
                    h(1, text, (f'ChID:{cid}',), link=link)
                    add(desc(c['desc'], 'Text_20_body'), (f'ChID:{cid}',))
            elif suffix == '_scenes' and level == 2:
                h(2, text, sec, link=link)
            else:
                h(level, text, sec)
        if suffix in ('_chapters', '_parts'):
            continue
        for i, sid in enumerate(shown_scenes(spec, cid, suffix)):
            s = spec['scenes'][sid]
            if i and not s['appendToPrev'] and suffix in ('', '_manuscript', '_scenes'):
                blocks.append(dict(kind='p', level=0, style='Heading_20_4', text='* * *', sections=sec))
            first = 'First_20_line_20_indent' if i and s['appendToPrev'] and suffix in ('', '_manuscript', '_scenes') else 'Text_20_body'
            t = title(s['title'], formatted)
            inner = sec + (f'ScID:{sid}',)
            if suffix == '_brf_synopsis':
                add([dict(style='Text_20_body', text=t)], ())
            elif suffix == '':
                add(scene(sid, first), ())
            elif suffix == '_proof':
                h(3, t, ())
                add([dict(style='scene_20_mark', text=f'[ScID:{sid}]')], ())
                add(scene(sid, first), ())
                add([dict(style='scene_20_mark', text='[/ScID]')], ())
            else:
                h(3, t, sec, None if suffix in KIND else 'Invisible_20_Heading_20_3')
                add(scene(sid, first) if suffix != '_scenes' else desc(s['desc'], first), inner)
    return blocks


def text_of(items):
    return ''.join(i[1] for i in items if i[0] in 'cx')


def norm(t):
    """A text as shown: sequences of blanks and line breaks collapsed."""
    return ' '.join(t for t in re.split('[ \t\r\n]+', t) if t)


def collapse(t):
    return re.sub('[ \t\r\n]+', ' ', t).strip(' ')


def compare(doc, want, what, items=None):
    """Compare the blocks of a document with the expected ones."""
    got = doc.blocks
    for i in range(max(len(got), len(want))):
        here = f'{what}: block {i + 1}'
        if i >= len(got):
            expect(False, f'{here} is missing', brief(want[i]))
        if i >= len(want):
            expect(False, f'{here} is not expected', brief(got[i]))
        g, w = got[i], want[i]
        expect((g['kind'], g['level']) == (w['kind'], w['level']), f'{here}: kind and level differ', brief(g), brief(w))
        expect(tuple(g['sections']) == tuple(w['sections']), f'{here}: sections differ', brief(g), brief(w))
        if 'items' in w:
            items(g, w, here)
        else:
            expect(collapse(text_of(g['items'])) == collapse(w['text']), f'{here}: text differs', brief(g), brief(w))
        if w.get('style') is not None:
            expect(g['style'] == w['style'], f'{here}: style differs', brief(g), brief(w))
        if w.get('links') is not None:
            expect(g['links'] == w['links'], f'{here}: link differs', g['links'], w['links'])


def brief(b):
    return (b['kind'], b['level'], b.get('style'), b['text'] if 'text' in b else text_of(b['items']), tuple(b['sections']))


def paragraphs(text, first='Text_20_body'):
    """The paragraphs of an unformatted text."""
    r = []
    run = 0
    for i, t in enumerate((text or '').split('\n')):
        if i == 0:
            style = first
        elif not t:
            style = None
        elif run == 0:
            style = 'First_20_line_20_indent'
        elif run == 1:
            style = 'Text_20_body'
        else:
            style = None
        run = 0 if t else run + 1
        if i == 0 and not t:
            run = 0         # counted as in the middle of a text: a line break, no blank line yet
        r.append(dict(style=style, text=t))
    return r
