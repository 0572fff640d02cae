"""P01: a project written to a new file reads back as the same project."""
from vlib import gen, model
from vlib.core import Part, expect, expect_eq

ID = 'P01'
LEVEL = 'exploration'
RULE = ('Random projects (chapters, scenes, characters, locations, items, notes with every attribute set or unset, texts of XML characters '
        'and markup-like tokens) are written with Yw7File.write() and read into a fresh novel; every attribute is compared; the project read is saved again, and from then on reading and saving must not change the file. '
        'Non-trivial: the project has at least one scene or story-world element and at least one text with an XML-special character.')
ASSUMPTIONS = ['texts consist of XML characters without carriage returns', 'unset and empty attributes are equivalent',
               'tags contain no semicolon, are unique and have no surrounding blanks', 'times are hh:mm:ss']


def data(path):
    with open(path, 'rb') as f:
        return f.read().decode('utf-8')


def check(case, ctx):
    n = model.to_novel(case)
    path = ctx.path('p.yw7')
    model.save(path, n)
    __, got = model.load(path)
    d = model.diff(model.norm_spec(model.from_novel(got)), model.norm_spec(case))
    expect(d is None, f'the project read back differs from the project written: {d}')
    __.write()
    second = data(path)
    f, got = model.load(path)
    f.write()
    expect_eq(data(path), second, 'the file of the project read and saved a second time')
    blob = str(case)
    ctx.nontrivial((case['scenes'] or case['srtCharacters'] or case['srtItems'] or case['srtLocations']) and any(c in blob for c in '&<>|'))
    for k in ('scenes', 'srtCharacters', 'srtItems', 'srtLocations', 'srtPrjNotes'):
        ctx.label(k, case[k])
    ctx.label('scene items', any(s['items'] for s in case['scenes'].values()))
    ctx.label(']]>', ']]>' in blob)


PARTS = [Part('roundtrip', lambda: gen.project(orphans=True), check, quick=700, thorough=12000)]
