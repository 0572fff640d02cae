"""P27: the scene list writes back correctly."""
import copy

from checks.p24 import EXTRA
from checks.p26 import single, single_all, stripped, tags
from vlib import gen, lo, roundtrip, structure, yw7
from vlib.core import Part, expect

ID = 'P27'
LEVEL = 'exploration'
RULE = ('Generated projects are exported as scene list with the converter. The spreadsheet is imported unchanged, or after a simulated spreadsheet program saved it again, or after a history of edits: cells changed or emptied, '
        'rows moved or deleted, computed columns overwritten. The project read back must be the original with exactly the edited attributes of the edited scenes. Non-trivial: an edit, or a multi-line cell.')
ASSUMPTIONS = ['IDs in the first column are not changed and occur once', 'tags do not contain the divider', 'trailing white space of a cell is not significant', 'repeated and leading blanks encoded by a spreadsheet program are a known finding of their own',
                'a rating of 1 and no rating are the same',
               'an unknown status leaves the status as it is']
# columns of the sheet that are written back
COLS = {1: 'title', 2: 'desc', 3: 'tags', 4: 'notes', 5: 'isReactionScene', 6: 'goal', 7: 'conflict', 8: 'outcome', 11: 'field1', 12: 'field2', 13: 'field3', 14: 'field4', 17: 'status'}
STATUS = ['', 'Outline', 'Draft', '1st Edit', '2nd Edit', 'Done']


def check(case, ctx):
    spec = case['novel']
    if case['mode'] != 'unchanged' and not case.get('strict'):
        single_all(spec)
        case['edits'] = [[[single(t) for t in x] if isinstance(x, (list, tuple)) else single(x) for x in op] for op in case['edits']]
    path = ctx.path(case['name'] + '.yw7')
    yw7.write(path, spec)
    before = roundtrip.spec_of(path)
    doc = roundtrip.export(path, '_scenelist')
    want = copy.deepcopy(before)
    ids = [s for c in spec['srtChapters'] for s in structure.shown_scenes(spec, c, '')]
    for i in ids:
        s = want['scenes'][i]
        for a in COLS.values():
            ctx.nontrivial(isinstance(s[a], str) and '\n' in s[a])
    if case['mode'] != 'unchanged':
        d = lo.Sheet(doc, case['seed'])
        if case['mode'] == 'edited':
            first = next((k for k, r in enumerate(d.rows) if r and r[0].startswith('ScID:')), len(d.rows))
            rows = [r for r in d.rows[first:] if r and r[0].startswith('ScID:')]
            for op in case['edits']:
                n = len(rows)
                if not n:
                    continue
                if op[0] == 'set':
                    row = rows[op[1] % n]
                    s = want['scenes'][row[0][5:]]
                    c = op[2] % 21
                    a = COLS.get(c)
                    if c == 0:
                        continue
                    if a == 'tags':
                        row[c] = ', '.join(op[4])
                        s[a] = list(op[4])
                    elif a == 'isReactionScene':
                        # entered by hand, in lower or upper case
                        row[c] = ('Rr' if op[5] % 2 else 'Aa')[op[5] % 3 == 0]
                        s[a] = bool(op[5] % 2)
                    elif a == 'status':
                        row[c] = STATUS[1 + op[5] % 5] if op[5] < 10 else ['', 'unknown'][op[5] % 2]
                        s[a] = 1 + op[5] % 5 if op[5] < 10 else before['scenes'][row[0][5:]][a]
                    elif a and a.startswith('field'):
                        row[c] = ['', '1', '2', '5', '9', '10', 'x', '11', '0', '3'][op[5] % 10]
                        s[a] = row[c] if row[c] in ('2', '5', '9', '10', '3') else '1'
                    elif a == 'title':
                        row[c] = single(op[3].replace('\n', ' '))
                        s[a] = row[c].rstrip()
                    else:
                        row[c] = op[3]
                        if a:
                            s[a] = op[3].rstrip()
                    ctx.label('set ' + (a or 'a computed column'))
                elif op[0] == 'del':
                    # without its row, the scene remains as it was
                    i = rows.pop(op[1] % n)[0][5:]
                    want['scenes'][i] = copy.deepcopy(before['scenes'][i])
                elif op[0] == 'move':
                    rows.insert(op[2] % n, rows.pop(op[1] % n))
                ctx.label(op[0])
                ctx.nontrivial()
            d.rows[first:] = rows
        d.save()
    roundtrip.bring_back(doc)
    after = roundtrip.spec_of(path)
    for p in (want, after):
        for s in p['scenes'].values():
            for k in '1234':
                s['field' + k] = s['field' + k] or '1'
    stripped(after, dict(scenes=COLS.values()))
    stripped(want, dict(scenes=COLS.values()))
    roundtrip.same_project(after, want, f'scene list {case["mode"]}')
    ctx.label(case['mode'], ids)
    ctx.label('scenes not in the list', len(ids) < len(before['scenes']))


def strategy():
    from hypothesis import strategies as st

    @st.composite
    def make(draw):
        field = st.one_of(gen.text(6, extra=EXTRA), gen.multiline(EXTRA))
        n = draw(gen.novel(orphans=True, max_ch=3, max_sc=6, max_w=2, min_ch=2, min_sc=2, content=st.sampled_from(['', 'x', '[i]a[/i]\n\nb c  ', '<HTML>x']), field=field))
        for c in n['chapters'].values():
            c['chType'] = draw(st.sampled_from([0, 0, 0, 0, 0, 1, 2, 3]))
            c['isTrash'] = False
        for s in n['scenes'].values():
            s['scType'] = draw(st.sampled_from([0, 0, 0, 0, 0, 1, 2, 3]))
            s['doNotExport'] = draw(st.sampled_from([False] * 4 + [True]))
            s['tags'] = tags(s['tags'])
        gen.same_neighbours(draw, n['scenes'].values(), ['title', 'desc', 'notes', 'goal', 'conflict', 'outcome'])
        gen.same_neighbours(draw, n['scenes'].values(), ['goal', 'conflict', 'outcome'])
        gen.shown(draw, n)
        text = st.one_of(st.just(''), gen.text(5, extra=EXTRA, wild=False), gen.multiline(EXTRA), st.sampled_from(['5', '12', '2023-01-01', 'a\tb', '1\t2\n3\t\t4\n\nx']))
        num = st.integers(0, 20)
        op = st.one_of(*[st.tuples(st.just('set'), num, num, text, gen.tags().map(tags), num)] * 3, st.tuples(st.just('del'), num), st.tuples(st.just('move'), num, num))
        if draw(st.integers(0, 2)) == 0:
            # a scene with hardly anything set, one cell of it being cleared
            for s in n['scenes'].values():
                keep = draw(st.sampled_from(['desc', 'notes', 'goal', 'conflict', 'outcome', 'tags']))
                for a in ('desc', 'notes', 'goal', 'conflict', 'outcome', 'tags'):
                    if a != keep:
                        s[a] = None
        op = st.one_of(op, op, op, op, st.tuples(st.just('set'), num, st.sampled_from([2, 3, 4, 6, 7, 8]), st.just(''), st.just([]), num), st.tuples(st.just('set'), num, st.sampled_from([5, 11, 12, 13, 14, 17]), st.just(''), st.just([]), num))
        return dict(novel=n, mode=draw(st.sampled_from(['unchanged', 'saved', 'edited', 'edited', 'edited'])), edits=draw(st.lists(op, min_size=1, max_size=6)), seed=draw(st.integers(0, 10 ** 6)),
                    name=draw(st.sampled_from(['p', 'My Novel', 'R&D'])))
    return make()


PARTS = [Part('scene list', strategy, check, quick=700, thorough=15000), Part('strict', strategy, check, quick=0, thorough=0)]
