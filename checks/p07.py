"""P07: a project that yWriter has open is neither read nor written."""
import os

from vlib import conv, gen, model, yw7
from vlib.core import Part, expect

ID = 'P07'
LEVEL = 'exploration'
RULE = ('A generated project is put into a generated directory together with neighbouring files, among them possibly the lock file. One operation (read, write, data file export, '
        'any export or import through the converters, or creation of a new project) is run, and the directory is compared with a snapshot. Non-trivial: the lock file exists.')
ASSUMPTIONS = ['the lock file is named like the project file with ".lock" appended']


def datafiles(path, target):
    import contextlib
    import io
    from pywriter.converter.yw7_converter import Yw7Converter
    from pywriter.yw.data_files import DataFiles
    from pywriter.yw.yw7_file import Yw7File
    c = Yw7Converter()
    c.ui = conv.recorder()
    with contextlib.redirect_stderr(io.StringIO()):
        c.export_from_yw(Yw7File(path), DataFiles(target))
    return c, c.ui


def check(case, ctx):
    from pywriter.pywriter_globals import Error
    from pywriter.converter.yw7_exporter import Yw7Exporter
    from pywriter.converter.yw7_importer import Yw7Importer
    d = ctx.path('dir')
    os.mkdir(d)
    name = case['name']
    if case['op'] == 'create' and any(name.endswith(x) for x in conv.DOCS if x):
        name += 'q'     # otherwise the document would belong to another project
    base = os.path.join(d, name)
    path = base + '.yw7'
    op = case['op']
    suffix = case['suffix']
    exists = case['exists'] or op in ('read', 'export', 'import', 'exporter', 'importer', 'rewrite', 'data')
    if exists:
        yw7.write(path, case['novel'])
    doc = base + suffix + conv.DOCS[suffix]
    if op in ('import', 'importer'):
        c, ui = conv.convert(path, suffix)
        expect(not conv.failed(ui), 'preparing the document failed', ui.messages)
    if op == 'create':
        if exists:
            os.remove(path)
        yw7.write(os.path.join(d, 'src.yw7'), case['novel'])
        c, ui = conv.convert(os.path.join(d, 'src.yw7'), '_manuscript')
        os.remove(os.path.join(d, 'src.yw7'))
        doc = base + '.odt'
        os.rename(os.path.join(d, 'src_manuscript.odt'), doc)
    loaded = None
    if op == 'rewrite':
        loaded, __ = model.load(path)
    for n in case['neighbours']:
        with open(os.path.join(d, n.replace('NAME', name)), 'w') as f:
            f.write('x')
    lock = path + '.lock'
    if case['lock']:
        with open(lock, 'w') as f:
            f.write(case['lockdata'])
        if case['age'] is not None:
            # older or newer than the project file
            t = os.stat(d).st_mtime + case['age']
            os.utime(lock, (t, t))
            ctx.label('lock file older than the project', exists and case['age'] < 0)
    elif os.path.exists(lock):
        os.remove(lock)
    before = conv.snapshot(d)
    error = None
    msgs = None
    try:
        if op == 'read':
            f, n = model.load(path)
        elif op == 'write':
            model.save(path, model.to_novel(case['novel']))
        elif op == 'rewrite':
            loaded.write()
        elif op == 'data':
            c, ui = datafiles(path, base + '.xml')
            msgs = ui.messages
        elif op in ('export', 'exporter'):
            c, ui = conv.convert(path, suffix, cls=Yw7Exporter if op == 'exporter' else None)
            msgs = ui.messages
        elif op in ('import', 'importer'):
            c, ui = conv.convert(doc, cls=Yw7Importer if op == 'importer' else None)
            msgs = ui.messages
        elif op == 'create':
            c, ui = conv.convert(doc)
            msgs = ui.messages
    except Error as ex:
        error = str(ex)
    after = conv.snapshot(d)
    ctx.label(op)
    diff = conv.changed(before, after)
    if case['lock']:
        ctx.nontrivial()
        if msgs is None:
            expect(error is not None, f'{op}: no error although the project is locked')
        else:
            expect(conv.failed(ui) and c.newFile is None, f'{op}: no failure reported although the project is locked', msgs, c.newFile)
        expect(not diff, f'{op}: files changed although the project is locked', diff)
        # when the lock is released, the operation works
        if op in ('read', 'rewrite'):
            os.remove(lock)
            if op == 'read':
                model.load(path)
            else:
                loaded.write()
    else:
        if msgs is None:
            expect(error is None, f'{op}: failed although the project is not locked', error)
        else:
            expect(not conv.failed(ui) and c.newFile, f'{op}: failed although the project is not locked', msgs)
        if op != 'read':
            expect(diff, f'{op}: nothing written')
        else:
            expect(not diff, 'reading changed files', diff)


NEIGHBOURS = ['NAME.lock', 'NAME.yw7.LOCK', 'NAME.yw7.bak.lock', 'NAME.yw7.lock.bak', 'other.yw7.lock', 'lock', '.lock', '.yw7.lock', 'NAME_manuscript.yw7.lock',
              'NAME.yw7lock', 'NAME.odt.lock', '.~lock.NAME.yw7#']


def strategy():
    from hypothesis import strategies as st
    name = st.one_of(st.sampled_from(['project', 'my novel', 'a.b', 'Ünï', 'x_manuscript', 'p.yw7', '100%', 'it\'s', '-n']),
                     st.text('abcXYZ019 ._-äß&%$#()', min_size=1, max_size=12).map(lambda s: 'p' + s.rstrip(' .')))
    novel = gen.novel(max_ch=2, max_sc=2, max_w=2, min_ch=1, content=gen.text(4, nasty=False), field=gen.text(3, nasty=False),
                      ttl=gen.title(nasty=False), mapscene=lambda s: s.update(image=None))
    return st.fixed_dictionaries(dict(
        novel=novel, name=name, op=st.sampled_from(['read', 'write', 'rewrite', 'data', 'export', 'exporter', 'import', 'importer', 'create']),
        suffix=st.sampled_from(conv.IMPORTABLE), lock=st.sampled_from([True, True, False]), exists=gen.BOOL,
        age=st.sampled_from([None, -3e8, -5000, -60, 5000]), lockdata=st.sampled_from(['', '', 'x', 'yWriter7 4711\n', '\0']),
        neighbours=st.lists(st.sampled_from(NEIGHBOURS), max_size=3, unique=True)))


PARTS = [Part('lock', strategy, check, quick=700, thorough=10000)]
