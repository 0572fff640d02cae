"""P34: tag lists and new IDs are well-behaved."""
from vlib import gen, model, yw7
from vlib.core import Part, expect, expect_eq

ID = 'P34'
LEVEL = 'exploration'
RULE = ('Texts are generated from elements, dividers and white space, and split by the code and by a reference that scans character by character; joining and splitting again must give the same list. Values that are no texts or no '
        'lists are passed as well. Histories of creating and removing elements check new IDs against the set in use, and elements created in a project must be found in the file. '
        'Non-trivial: duplicates or blank elements in a text, or an ID that is created between used ones.')
ASSUMPTIONS = ['no character of the divider occurs in an element that is joined', 'tags that are saved do not contain the divider']


def reference(text, divider):
    parts, current, i = [], '', 0
    while i < len(text):
        if text.startswith(divider, i):
            parts.append(current)
            current = ''
            i += len(divider)
        else:
            current += text[i]
            i += 1
    parts.append(current)
    out = []
    for p in parts:
        while p and p[0].isspace():
            p = p[1:]
        while p and p[-1].isspace():
            p = p[:-1]
        if p and p not in out:
            out.append(p)
    return out


def split(case, ctx):
    from pywriter.pywriter_globals import list_to_string, string_to_list
    divider = case['divider']
    text = ''.join(divider if x is None else x for x in case['pieces'])
    args = () if case['default'] and divider == ';' else (divider,)
    got = string_to_list(text, *args)
    expect_eq(got, reference(text, divider), f'{text!r} split by {divider!r}')
    if not any(c in e for c in divider for e in got):
        joined = list_to_string(got, *args)
        expect_eq(joined, divider.join(got), f'{got!r} joined with {divider!r}')
        expect_eq(string_to_list(joined, *args), got, f'{joined!r} split again by {divider!r}')
        ctx.label('joined')
    again = string_to_list(text, *args)
    got.append('x')
    expect(again is not got and again == got[:-1], 'results share a list')
    pieces = [p.strip() for p in text.split(divider)]
    ctx.nontrivial(len(set(pieces)) < len(pieces) or '' in pieces)
    ctx.label('duplicates', len(set(filter(None, pieces))) < len([p for p in pieces if p]))


def split_strategy():
    from hypothesis import strategies as st
    word = st.one_of(st.sampled_from(['a', 'b', 'a b', ' a', 'b\t', '', '  ', '\xa0c', 'ä', 'A', 'a\n', ':', ';', ',']), gen.line(2))

    @st.composite
    def make(draw):
        return dict(pieces=draw(st.lists(st.one_of(st.none(), st.none(), word), max_size=14)), divider=draw(st.sampled_from([';', ';', ';', ',', ', ', '|', '\n', ' ', '::', '.*', '\\'])), default=draw(gen.BOOL))
    return make()


class Bad:
    def __iter__(self):
        raise RuntimeError

    def split(self, *a):
        raise RuntimeError


VALUES = {'None': None, 'number': 7, 'float': 1.5, 'bytes': b'a;b', 'list of numbers': [1, 2], 'list with None': ['a', None], 'mixed': ['a', 3, 'b'], 'object': object(), 'bad': Bad(), 'false': False}


def invalid(case, ctx):
    from pywriter.pywriter_globals import list_to_string, string_to_list
    value = VALUES[case['value']]
    dividers = {'none': None, 'empty': '', 'number': 3, 'bytes': b';', 'semicolon': ';'}
    divider = dividers[case['divider']]
    if divider == ';':
        expect_eq(string_to_list(value, divider) if not isinstance(value, str) else [], [], f'{case["value"]} split')
        expect_eq(list_to_string(value, divider), '', f'{case["value"]} joined')
    else:
        expect(isinstance(string_to_list(value, divider), list), f'{case["value"]} split by {divider!r}: no list')
        if divider != '':
            expect_eq(list_to_string(['a', 'b'], divider), '', f'joined with {divider!r}')
        if divider is not None:
            expect_eq(string_to_list('a;b', divider), [], f'split by {divider!r}')
    ctx.nontrivial()


def invalid_strategy():
    from hypothesis import strategies as st
    return st.fixed_dictionaries(dict(value=st.sampled_from(list(VALUES)), divider=st.sampled_from(['semicolon', 'none', 'empty', 'number', 'bytes'])))


def ids(case, ctx):
    from pywriter.model.chapter import Chapter
    from pywriter.model.character import Character
    from pywriter.model.id_generator import create_id
    from pywriter.model.scene import Scene
    from pywriter.model.world_element import WorldElement
    inserted = False
    for kind in ('list', 'dict', 'set', 'keys'):
        used = list(case['used'])
        for op in case['ops']:
            box = {'list': used, 'dict': dict.fromkeys(used), 'set': set(used), 'keys': dict.fromkeys(used).keys()}[kind]
            before = list(used)
            if op == 'new':
                i = create_id(box)
                expect(isinstance(i, str) and i.isdigit() and int(i) > 0, f'ID {i!r}')
                expect(i not in used, f'ID {i!r} is in use', used)
                expect_eq(list(box) if kind != 'set' else sorted(box), before if kind != 'set' else sorted(before), 'IDs in use changed')
                inserted |= any(x.isdigit() and int(x) > int(i) for x in used)
                used.append(i)
            elif used:
                used.pop(op % len(used))
        expect_eq(len(set(used)), len(used), 'IDs collide')
    # elements created in a project
    path = ctx.path('p.yw7')
    n = len(case['ops'])
    spec = gen.blank_novel({str(i): gen.blank_scene(title=f'S{i}') for i in range(1, 4)}, characters={'2': gen.blank_world()}, items={'1': gen.blank_world()}, locations={'3': gen.blank_world()})
    yw7.write(path, spec)
    f, novel = model.load(path)
    for k in range(n):
        for box, srt, cls in ((novel.characters, novel.srtCharacters, Character), (novel.items, novel.srtItems, WorldElement), (novel.locations, novel.srtLocations, WorldElement)):
            i = create_id(box if k % 2 else srt)
            expect(i not in box, f'ID {i} is in use')
            box[i] = cls()
            box[i].title = f'new {k}'
            srt.append(i)
        i = create_id(novel.scenes)
        expect(i not in novel.scenes, f'ID {i} is in use')
        novel.scenes[i] = Scene()
        novel.scenes[i].title = f'new {k}'
        novel.scenes[i].status = 1
        c = novel.srtChapters[0]
        if k == 1:
            c = create_id(novel.srtChapters)
            expect(c not in novel.chapters, f'ID {c} is in use')
            novel.chapters[c] = Chapter()
            novel.chapters[c].title = 'new'
            novel.srtChapters.append(c)
        novel.chapters[c].srtScenes.append(i)
    f.write()
    back = model.load(path)[1]
    expect_eq(len(back.scenes), 3 + n, 'scenes')
    expect_eq(sorted(s.title for s in back.scenes.values()), sorted([f'S{i}' for i in range(1, 4)] + [f'new {k}' for k in range(n)]), 'titles of scenes')
    for name, box in (('characters', back.characters), ('items', back.items), ('locations', back.locations)):
        expect_eq(len(box), 1 + n, name)
    ctx.nontrivial(inserted)


def ids_strategy():
    from hypothesis import strategies as st
    i = st.one_of(st.integers(1, 12).map(str), st.sampled_from(['0', '01', 'ch1', '999', '-1', '']))
    return st.fixed_dictionaries(dict(used=st.lists(i, unique=True, max_size=12), ops=st.lists(st.one_of(st.just('new'), st.just('new'), st.integers(0, 9)), min_size=1, max_size=12)))


def tags(case, ctx):
    """Tags are written as one text and read as a list."""
    path = ctx.path('p.yw7')
    spec = gen.blank_novel({'1': gen.blank_scene(title='S')}, characters={'1': gen.blank_world()}, items={'1': gen.blank_world()}, locations={'1': gen.blank_world()})
    yw7.write(path, spec)
    f, novel = model.load(path)
    owners = [novel.scenes['1'], novel.characters['1'], novel.items['1'], novel.locations['1']]
    for o in owners:
        o.tags = list(case['tags'])
    f.write()
    novel = model.load(path)[1]
    want = reference(';'.join(case['tags']), ';')
    for o in (novel.scenes['1'], novel.characters['1'], novel.items['1'], novel.locations['1']):
        expect_eq(o.tags or [], want, f'tags of {type(o).__name__}')
    ctx.nontrivial(len(want) > 1)


def tags_strategy():
    from hypothesis import strategies as st
    tag = st.one_of(st.sampled_from(['a', 'b', 'a b', 'R&D', '<x>', 'ä', ',', ':']), gen.line(2)).map(lambda t: t.replace(';', ',').strip()).filter(bool)
    return st.fixed_dictionaries(dict(tags=st.lists(tag, max_size=6)))


PARTS = [Part('split', split_strategy, split, quick=4000, thorough=80000), Part('invalid', invalid_strategy, invalid, quick=150, thorough=300), Part('ids', ids_strategy, ids, quick=400, thorough=8000),
         Part('tags', tags_strategy, tags, quick=400, thorough=6000)]
