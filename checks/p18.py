"""P18: spreadsheets show every element's data in the right cells."""
import re
from urllib.parse import quote

from vlib import conv, gen, model, odf, structure, yw7
from vlib.core import Part, expect, expect_eq

ID = 'P18'
LEVEL = 'exploration'
RULE = ('Generated projects with arbitrary texts, tags, ratings, statuses, flags and assignments are exported as character, location, item and scene lists; an independent spreadsheet reader compares every cell of every row '
        'with the project; word and letter counts come from texts built of counted words. Non-trivial: at least two rows.')
ASSUMPTIONS = ['trailing white space of a cell is not significant', 'repeated blanks in a cell are compared as shown', 'rating 1 (not rated) is shown as empty']
STATUS = ['', 'Outline', 'Draft', '1st Edit', '2nd Edit', 'Done']


def cell_text(text):
    return [structure.collapse(t) for t in (text or '').rstrip().split('\n')]


def shown(cell):
    pars = [structure.collapse(p) for p in cell[0]]
    return pars or ['']


def check_row(got, want, what, names):
    expect(len(got) >= len(want), f'{what}: too few cells', len(got))
    for name, g, w in zip(names, got, want):
        if isinstance(w, (int, float)):
            w = str(w)
            expect_eq(g[1], 'float', f'{what}: type of the cell {name}')
            expect_eq(g[2] or '', w, f'{what}: value of the cell {name}')
        expect_eq(shown(g), cell_text(w), f'{what}: cell {name}')
    for g in got[len(want):]:
        expect(shown(g) == [''] and g[2] is None, f'{what}: unexpected cell', g)


def lists(case, ctx):
    spec = case['novel']
    path = ctx.path('p.yw7')
    yw7.write(path, spec)
    __, novel = model.load(path)
    classes = conv.export_classes()
    for suffix, key, prefix in (('_charlist', 'characters', 'CrID'), ('_loclist', 'locations', 'LcID'), ('_itemlist', 'items', 'ItID')):
        srt = 'srt' + key.capitalize()
        conv.export(novel, classes[suffix], ctx.path('p' + suffix + '.ods'))
        rows, __ = odf.sheet(ctx.path('p' + suffix + '.ods'))
        names = ['ID', 'Name', 'Full name', 'Aka', 'Description', 'Bio', 'Goals', 'Importance', 'Tags', 'Notes'] if key == 'characters' else ['ID', 'Name', 'Description', 'Aka', 'Tags']
        check_row(rows[0], names, suffix + ' heading', names)
        data = [r for r in rows[1:] if any(shown(c) != [''] for c in r)]
        expect_eq(len(data), len(spec[srt]), f'{suffix}: number of rows')
        for row, i in zip(data, spec[srt]):
            e = spec[key][i]
            tags = ', '.join(e['tags'] or [])
            if key == 'characters':
                want = [f'CrID:{i}', e['title'], e['fullName'], e['aka'], e['desc'], e['bio'], e['goals'], 'Major' if e['isMajor'] else 'Minor', tags, e['notes']]
            else:
                want = [f'{prefix}:{i}', e['title'], e['desc'], e['aka'], tags]
            check_row(row, want, f'{suffix}, row of element {i}', names)
        ctx.nontrivial(len(data) > 1)
        ctx.label(suffix, data)


SCENE_NAMES = ['Scene link', 'Scene title', 'Scene description', 'Tags', 'Scene notes', 'A/R', 'Goal', 'Conflict', 'Outcome', 'Scene', 'Words total', 'Field 1', 'Field 2', 'Field 3', 'Field 4',
               'Word count', 'Letter count', 'Status', 'Characters', 'Locations', 'Items']


def scenelist(case, ctx):
    spec = case['novel']
    name = case['name']
    d = ctx.path(case['name'])
    import os
    os.mkdir(d)
    path = os.path.join(d, name + '.yw7')
    counts = {}
    for i, s in spec['scenes'].items():
        n = case['words'][int(i) % len(case['words'])]
        s['sceneContent'] = ' '.join(['[i]word[/i]', 'x,\n'] * n)
        counts[i] = (2 * n, 6 * n + max(0, 2 * n - 1))
        s['sceneContent'] = case['raw'].get(i, '') + s['sceneContent']
    yw7.write(path, spec)
    __, novel = model.load(path)
    doc = os.path.join(d, name + '_scenelist.ods')
    conv.export(novel, conv.export_classes()['_scenelist'], doc)
    rows, roots = odf.sheet(doc)
    heads = SCENE_NAMES[:]
    for k in range(4):
        heads[11 + k] = spec[f'fieldTitle{k + 1}'] or f'Field {k + 1}'
    for k, (g, w) in enumerate(zip(rows[0], heads)):
        if not (11 <= k <= 14 and not spec[f'fieldTitle{k - 10}']):
            expect_eq(shown(g), cell_text(w), f'heading {k + 1}')
    data = [r for r in rows[1:] if any(shown(c) != [''] for c in r)]
    order = [s for c in spec['srtChapters'] for s in structure.shown_scenes(spec, c, '')]
    expect_eq(len(data), len(order), 'number of rows')
    number = total = 0
    for row, i in zip(data, order):
        s = spec['scenes'][i]
        number += 1
        total += counts[i][0]

        def names(attr):
            return ', '.join(spec[attr][x]['title'] or '' for x in s[attr] or [])
        want = [f'ScID:{i}', s['title'], s['desc'], ', '.join(s['tags'] or []), s['notes'], 'R' if s['isReactionScene'] else 'A', s['goal'], s['conflict'], s['outcome'], number, total]
        want += ['' if s[f'field{k}'] in (None, '1') else int(s[f'field{k}']) for k in (1, 2, 3, 4)]
        want += [counts[i][0], counts[i][1], STATUS[s['status'] or 0], names('characters'), names('locations'), names('items')]
        check_row(row, want, f'row of scene {i}', SCENE_NAMES)
        formula = row[0][4]
        expect(formula is not None, f'scene {i}: no link')
        want_link = f'file:///{quote(d)}/{quote(name)}_manuscript.odt#ScID:{i}%7Cregion'
        expect(want_link.replace('////', '///') in formula.replace('////', '///'), f'scene {i}: link', formula, want_link)
    ctx.nontrivial(len(order) > 1)
    ctx.label('raw code', case['raw'])
    ctx.label('assignments', any(spec['scenes'][i]['characters'] for i in order))


def strategy(kind):
    def make():
        from hypothesis import strategies as st
        field = st.one_of(gen.text(8), gen.multiline())

        @st.composite
        def case(draw):
            if kind == 'lists':
                return dict(novel=draw(gen.novel(orphans=True, max_ch=0, max_sc=0, max_w=4, field=field)))
            n = draw(gen.novel(orphans=True, max_ch=3, max_sc=6, max_w=3, min_ch=1, min_sc=1, content=st.just(''), field=field))
            for c in n['chapters'].values():
                c['chType'] = draw(st.sampled_from([0, 0, 0, 0, 3]))
                c['isTrash'] = False
            for s in n['scenes'].values():
                s['doNotExport'] = draw(st.sampled_from([False, False, False, True]))
                s['scType'] = draw(st.sampled_from([0, 0, 0, 1, 3]))
            return dict(novel=n, name=draw(st.sampled_from(['p', 'My Novel', 'R&D', 'ü', '100%', 'a#b', 'x_scenelist.ods 2', 'p_charlist'])), words=draw(st.lists(st.integers(0, 5), min_size=3, max_size=7)),
                        raw={i: k for i in n['scenes'] for k in [draw(st.sampled_from(['', '', '', '', '', '<HTML>', '<TEX>']))] if k})
        return case()
    return make


PARTS = [Part('world lists', strategy('lists'), lists, quick=600, thorough=12000), Part('scene list', strategy('scenes'), scenelist, quick=800, thorough=16000)]
