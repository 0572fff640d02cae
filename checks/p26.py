"""P26: character, location and item spreadsheets write back correctly."""
import copy
import re

from checks.p24 import EXTRA
from vlib import gen, lo, roundtrip, yw7
from vlib.core import Part, expect

ID = 'P26'
LEVEL = 'exploration'
RULE = ('Generated projects are exported as character, location or item list with the converter. The spreadsheet is imported unchanged, or after a simulated spreadsheet program saved it again (merged equal cells, filler cells and '
        'rows, row groups, encoded blanks, cell comments), or after a history of edits: cells changed or emptied, rows moved, deleted or added. The project read back must have exactly the elements of the rows in row order with '
        'the values of the cells, references to deleted elements must be gone, and nothing else may change. Non-trivial: an edit, or a multi-line cell.')
ASSUMPTIONS = ['IDs in the first column are not changed and occur once', 'tags do not contain the divider', 'trailing white space of a cell is not significant',
               'repeated and leading blanks encoded by a spreadsheet program are a known finding of their own']
DOCS = dict(_charlist=('characters', 'CrID', ['title', 'fullName', 'aka', 'desc', 'bio', 'goals', 'isMajor', 'tags', 'notes']),
            _loclist=('locations', 'LcID', ['title', 'desc', 'aka', 'tags']), _itemlist=('items', 'ItID', ['title', 'desc', 'aka', 'tags']))


def single(text):
    """Without the blanks that a spreadsheet program encodes; they are a known finding."""
    if not isinstance(text, str):
        return text
    return re.sub(' *([\t\n]) *', r'\1', re.sub(' +', ' ', text)).strip(' ')


def single_all(spec):
    for key in ('scenes', 'characters', 'locations', 'items'):
        for e in spec[key].values():
            for a in e:
                if a != 'sceneContent':
                    e[a] = single(e[a])
            if e.get('tags'):
                e['tags'] = tags(single(t) for t in e['tags'])


def stripped(spec, cols):
    """Trailing white space is not significant."""
    for key in cols:
        for e in spec[key].values():
            for a in cols[key]:
                if isinstance(e[a], str):
                    e[a] = e[a].rstrip()
                elif isinstance(e[a], list):
                    e[a] = [t.rstrip() for t in e[a]]


def value(attr, text):
    text = text.rstrip()
    if attr == 'tags':
        return [t.strip() for t in text.split(', ') if t.strip()] if text else []
    if attr == 'isMajor':
        return 'Major' in text
    return text


def check(case, ctx):
    spec = case['novel']
    suffix = case['doc']
    if case['mode'] != 'unchanged' and not case.get('strict'):
        single_all(spec)
        case['edits'] = [[single(x) if k < 4 else [single(t) for t in x] for k, x in enumerate(op)] for op in case['edits']]
    path = ctx.path(case['name'] + '.yw7')
    yw7.write(path, spec)
    before = roundtrip.spec_of(path)
    doc = roundtrip.export(path, suffix)
    want = copy.deepcopy(before)
    key, prefix, cols = DOCS[suffix]
    srt = 'srt' + key.capitalize()
    if case['mode'] != 'unchanged':
        d = lo.Sheet(doc, case['seed'])
        if case['mode'] == 'edited':
            first = next((k for k, r in enumerate(d.rows) if r and r[0].startswith(prefix + ':')), len(d.rows))
            rows = [r for r in d.rows[first:] if r and r[0].startswith(prefix + ':')]
            for op in case['edits']:
                n = len(rows)
                if op[0] == 'new':
                    i = str(op[1])
                    if i in want[srt] or f'{prefix}:{i}' in [r[0] for r in rows] or i in before[key]:
                        continue
                    rows.insert(op[2] % (n + 1), [f'{prefix}:{i}'] + [op[3]] + [''] * (len(cols) - 1))
                elif not n:
                    continue
                elif op[0] == 'set':
                    c = op[2] % len(cols)
                    rows[op[1] % n][c + 1] = dict(tags=', '.join(op[4]), isMajor='Major' if len(op[3]) % 2 else 'Minor', title=single(op[3].replace('\n', ' ')), aka=single(op[3].replace('\n', ' ')),
                                                  fullName=single(op[3].replace('\n', ' '))).get(cols[c], op[3])
                elif op[0] == 'del':
                    del rows[op[1] % n]
                elif op[0] == 'move':
                    rows.insert(op[2] % n, rows.pop(op[1] % n))
                ctx.label(op[0])
                ctx.nontrivial()
            d.rows[first:] = rows
            old = want[key]
            want[key] = {}
            want[srt] = []
            for r in rows:
                i = r[0].split(':')[1]
                want[srt].append(i)
                e = old.get(i) or dict(title=None, desc=None, image=None, aka=None, tags=None, kwVar={k: None for k in ('Field_Link', 'Field_BirthDate', 'Field_DeathDate')[:3 if key == 'characters' else 1]},
                                       **(dict(notes=None, bio=None, goals=None, fullName=None, isMajor=None) if key == 'characters' else {}))
                want[key][i] = e
                for a, t in zip(cols, r[1:]):
                    e[a] = value(a, t)
            for s in want['scenes'].values():
                if s[key]:
                    s[key] = [i for i in s[key] if i in want[srt]]
        d.save()
    for e in want[key].values():
        ctx.nontrivial(any(isinstance(e[a], str) and '\n' in e[a] for a in cols))
    roundtrip.bring_back(doc)
    after = roundtrip.spec_of(path)
    stripped(after, {key: cols})
    stripped(want, {key: cols})
    roundtrip.same_project(after, want, f'{suffix} {case["mode"]}')
    ctx.label(f'{suffix} {case["mode"]}', want[srt])


def strategy():
    from hypothesis import strategies as st

    @st.composite
    def make(draw):
        field = st.one_of(gen.text(6, extra=EXTRA), gen.multiline(EXTRA))
        doc = draw(st.sampled_from(['_charlist', '_charlist', '_loclist', '_itemlist']))
        key = DOCS[doc][0]
        n = draw(gen.novel(max_ch=1, max_sc=1, max_w=2, content=st.just('x'), field=gen.text(2)))
        ids = draw(gen.ids(1, 5))
        n[key] = {i: draw(gen.world(field, None, key == 'characters')) for i in ids}
        n['srt' + key.capitalize()] = ids
        for s in n['scenes'].values():
            s[key] = draw(st.lists(st.sampled_from(ids), unique=True))
        for e in n[key].values():
            e['tags'] = tags(e['tags'])
        gen.same_neighbours(draw, n[key].values(), [a for a in DOCS[doc][2] if a not in ('isMajor', 'tags')])
        text = st.one_of(st.just(''), gen.text(5, extra=EXTRA, wild=False), gen.multiline(EXTRA), st.sampled_from(['5', '12', '2023-01-01', 'a\tb', '1\t2\n3\t\t4\n\nx']))
        num = st.integers(0, 20)
        op = st.one_of(st.tuples(st.just('set'), num, num, text, gen.tags().map(tags)), st.tuples(st.just('set'), num, num, text, gen.tags().map(tags)), st.tuples(st.just('del'), num),
                       st.tuples(st.just('move'), num, num), st.tuples(st.just('new'), st.integers(41, 60), num, gen.title()))
        return dict(novel=n, doc=doc, mode=draw(st.sampled_from(['unchanged', 'saved', 'edited', 'edited', 'edited'])), edits=draw(st.lists(op, min_size=1, max_size=5)), seed=draw(st.integers(0, 10 ** 6)),
                    name=draw(st.sampled_from(['p', 'My Novel', 'R&D'])))
    return make()


def tags(ts):
    return [t for t in dict.fromkeys(t.replace(',', '').strip() for t in ts or ()) if t]


PARTS = [Part('lists', strategy, check, quick=900, thorough=20000), Part('strict', strategy, check, quick=0, thorough=0)]
