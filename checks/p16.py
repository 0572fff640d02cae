"""P16: manuscript text is exported completely and correctly formatted."""
import re

from vlib import conv, gen, markup, model, odf, structure, yw7
from vlib.core import Part, expect, expect_eq

ID = 'P16'
LEVEL = 'exploration'
RULE = ('Scene texts generated as structures over the markup grammar (nested, overlapping and multi-paragraph formatting, languages, comments, foot- and endnotes, quotations, blank lines, raw code, obsolete tags, special '
        'characters), several scenes per project, exported as final manuscript, editable manuscript, proof, notes and todo documents. An independent reader turns the document into styled character sequences per paragraph, '
        'an independent interpreter does the same with the structure. Non-trivial: formatting, comment, note, quotation or raw code occurs.')
ASSUMPTIONS = ['language codes contain no brackets', 'tags close the passage opened last with the same tag; a closing tag without opening is ignored', 'white space is compared as an OpenDocument consumer shows it',
               'trailing blank lines of a scene are not significant']


def compare_items(got, want, what):
    """Compare item lists, comments and notes included."""
    g, w = odf.normal(got), odf.normal(want)
    ok = same(g, w)
    expect(ok, f'{what}: text or formatting differs: got, expected', odf.show(g), odf.show(w2(w)))


def w2(items):
    """Expected items in the form odf.show understands."""
    r = []
    for i in items:
        if i[0] == 'comment':
            r.append(['comment', None, [dict(items=w2(odf.normal(p['items']))) for p in i[2]]])
        elif i[0] == 'note':
            r.append(['note', i[1], i[2], [dict(items=w2(odf.normal(p['items']))) for p in i[3]]])
        else:
            r.append(i)
    return r


def same(g, w):
    if len(g) != len(w):
        return False
    for a, b in zip(g, w):
        if a[0] != b[0] and not (a[0] in 'cx' and b[0] in 'cx'):
            return False
        if a[0] in 'cx':
            if a[1] != b[1] or a[2] != b[2]:
                return False
        else:
            if a[0] == 'note' and a[1:3] != b[1:3]:
                return False
            if len(a[-1]) != len(b[-1]):
                return False
            for p, q in zip(a[-1], b[-1]):
                if not same(odf.normal(p['items']), odf.normal(q['items'])):
                    return False
    return True


def trim(pars):
    """Without trailing white space and blank paragraphs."""
    pars = [dict(p, items=list(p['items'])) for p in pars]
    while pars:
        it = pars[-1]['items']
        while it and it[-1][0] in 'cx' and it[-1][1].isspace():
            it.pop()
        if it or len(pars) == 1:
            break
        pars.pop()
    return pars


def check(case, ctx):
    n = len(case['scenes'])
    kind = case['kind']
    texts = {}
    scenes = {}
    for i, s in enumerate(case['scenes'], 1):
        texts[str(i)] = s['lines']
        scenes[str(i)] = gen.blank_scene(title=f'T{i}', sceneContent=markup.render(s['lines']), appendToPrev=s['append'], scType=kind)
    cut = case['cut'] % (n + 1)
    ids = list(scenes)
    spec = gen.blank_novel(scenes, {'1': gen.blank_chapter(ids[:cut], chType=kind), '2': gen.blank_chapter(ids[cut:], chType=kind)}, authorName='A & B')
    path = ctx.path('p.yw7')
    yw7.write(path, spec)
    known = []
    for lines in texts.values():
        known += [l for l in markup.languages(lines) if l not in known]
    classes = conv.export_classes()
    for suffix in {0: ['', '_manuscript', '_proof'], 1: ['_notes'], 2: ['_todo']}[kind]:
        __, novel = model.load(path)
        doc = ctx.path('p' + suffix + '.odt')
        conv.export(novel, classes[suffix], doc)
        d = odf.Doc(doc)
        what = suffix or 'export'
        # split the blocks into scenes
        got = {}
        if suffix == '':
            want_blocks = structure.expected(spec, suffix, 'p', lambda sid, first: [dict(style=first, text=sid, sid=sid)])
            body = d.blocks[2:]
            order = [b for b in want_blocks[2:]]
            # headings and dividers separate the scenes; an appended scene follows without separation
            pos = 0
            k = 0
            while k < len(order):
                b = order[k]
                if 'sid' not in b:
                    expect(pos < len(body) and (body[pos]['kind'], body[pos]['style']) == (b['kind'], b['style']), f'{what}: heading or divider expected at paragraph {pos}', [structure.brief(x) for x in body[pos:pos + 2]])
                    pos += 1
                    k += 1
                    continue
                group = []
                while k < len(order) and 'sid' in order[k]:
                    group.append(order[k]['sid'])
                    k += 1
                end = pos
                while end < len(body) and body[end]['kind'] == 'p' and body[end]['style'] != 'Heading_20_4':
                    end += 1
                got[tuple(group)] = body[pos:end]
                pos = end
            expect(pos == len(body), f'{what}: unexpected text after the last scene')
        elif suffix == '_proof':
            sid = None
            for b in d.blocks[2:]:
                if b['style'] == 'scene_20_mark':
                    t = structure.text_of(b['items'])
                    m = re.fullmatch(r'\[ScID:(\d+)\]', t)
                    if m:
                        sid = m.group(1)
                        expect((sid,) not in got, f'{what}: scene {sid} twice')
                        got[(sid,)] = []
                    else:
                        expect(t == '[/ScID]' and sid, f'{what}: wrong scene mark', t)
                        sid = None
                elif sid:
                    got[(sid,)].append(b)
                else:
                    expect(b['kind'] == 'h', f'{what}: text outside the scenes', structure.brief(b))
        else:
            for b in d.blocks[2:]:
                if b['sections'] and b['sections'][-1].startswith('ScID:'):
                    got.setdefault((b['sections'][-1][5:],), []).append(b)
                else:
                    expect(b['kind'] == 'h' or b['style'] == 'Heading_20_4', f'{what}: text outside the scenes', structure.brief(b))
        expect_eq(sorted(s for g in got for s in g), sorted(ids), f'{what}: scenes in the document')
        counter = [0]
        for group in sorted(got, key=lambda g: int(g[0])):
            want = []
            for sid in group:
                lines = texts[sid]
                pars = markup.expected(lines, notes=suffix == '', raw=suffix != '', counter=counter, known=known)
                first = 'First_20_line_20_indent' if scenes[sid]['appendToPrev'] and sid not in (ids[0], ids[cut] if cut < n else None) and suffix != '_proof' and kind == 0 else 'Text_20_body'
                for j, p in enumerate(pars):
                    if suffix == '_proof':
                        if p['quote']:
                            p['items'] = [['c', ch, frozenset()] for ch in '> '] + p['items']
                            p['quote'] = False
                    if p['quote']:
                        p['style'] = 'Quotations'
                    elif j == 0:
                        p['style'] = first
                    elif odf.normal(pars[j - 1]['items']):
                        p['style'] = 'First_20_line_20_indent'
                    elif not lines[j - 1][1] and j > 1 and odf.normal(pars[j - 2]['items']):
                        p['style'] = 'Text_20_body'
                    else:
                        p['style'] = None
                want += trim(pars)
            have = got[group]
            if len(group) == 1:
                have = trim(have)
            else:
                # blank lines at the end of a scene cannot be told from those at the beginning of the next
                have = [p for p in have if trim([p])[0]['items']]
                want = [p for p in want if trim([p])[0]['items']]
            where = f'{what}: scene {"+".join(group)}'
            for j in range(max(len(have), len(want))):
                here = f'{where}: paragraph {j + 1}'
                expect(j < len(have), f'{here}: missing', j < len(want) and odf.show(w2(odf.normal(want[j]['items']))))
                expect(j < len(want), f'{here}: not expected', odf.show(have[j]['items']) if j < len(have) else None)
                g, w = have[j], want[j]
                last = j + 1 == len(want) or len(group) > 1
                a, b = g['items'], w['items']
                if last:
                    a, b = trim([dict(items=a)])[0]['items'], trim([dict(items=b)])[0]['items']
                compare_items(a, b, here)
                if w['style'] and (odf.normal(w['items']) or j == 0):
                    expect_eq(g['style'], w['style'], f'{here}: paragraph style')
        # authors of comments
        for b in d.blocks:
            for i in b['items']:
                if i[0] == 'comment':
                    expect_eq(i[1], 'A & B', f'{what}: author of a comment')
        ctx.label(what)
    for lines in texts.values():
        for __, atoms in lines:
            for a in atoms:
                if a[0] in ('on', 'off'):
                    ctx.label('tag ' + ('lang' if a[1].startswith('lang') else a[1]))
                elif a[0] != 't':
                    ctx.label({'c': 'comment', 'n': 'note', 'raw': 'raw code', 's': 'obsolete tag'}[a[0]])
                if a[0] != 't':
                    ctx.nontrivial()
            ctx.label('quotation', __)


def strategy():
    from hypothesis import strategies as st
    langs = st.sampled_from([('de-DE',), ('de-AT', 'de-DE', 'de'), ('de-DE', 'fr-CH'), ('en-US', 'eo', 'fr-FR'), ('es-419', 'de-DE'), ('de-DE', 'abcd-EF'), ('x', 'a b'), ('&', 'd<e', '"q\'s>'), ('de_DE', 'zz-', 'en-US-x')])
    scene = langs.flatmap(lambda l: st.fixed_dictionaries(dict(lines=markup.content(langs=l), append=gen.BOOL)))
    return st.fixed_dictionaries(dict(kind=st.sampled_from([0, 0, 0, 0, 1, 2]), cut=st.integers(0, 4), scenes=st.lists(scene, min_size=1, max_size=4)))


PARTS = [Part('texts', strategy, check, quick=1600, thorough=40000)]
