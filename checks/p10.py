"""P10: unusable input is reported and leaves the project alone."""
import contextlib
import io
import os
import re
import xml.parsers.expat

from vlib import conv, gen, model, mutate, yw7
from vlib.core import CaseTimeout, Part, expect, expect_eq

ID = 'P10'
LEVEL = 'exploration'
RULE = ('Valid source files of every type (made by exporting a generated project) are damaged by one to three mutations of XML structure (elements deleted, moved, duplicated, renamed, attributes and texts replaced by '
        'boundary values), bytes (flips, cuts, truncation, random contents) or archive parts (missing, empty, damaged), and converted: document import into an existing project, creation of a new project, '
        'import into a damaged project, export of a damaged project, and import of a document of another type. Non-trivial: the source or the project is actually different from the valid one.')
ASSUMPTIONS = ['a file that is still usable may be converted successfully']


def parties(c, op, src, suffix):
    """Source and target objects, or None if there are none for this file."""
    from pywriter.pywriter_globals import Error
    try:
        if op == 'export':
            return c.exportSourceFactory.make_file_objects(src)[0], c.exportTargetFactory.make_file_objects(src, suffix=suffix)[1]
        if op == 'new':
            return c.newProjectFactory.make_file_objects(src)
        source = c.importSourceFactory.make_file_objects(src)[0]
        return source, c.importTargetFactory.make_file_objects(src, suffix=source.SUFFIX)[1]
    except Error:
        return None


def check(case, ctx):
    d = ctx.path('d')
    os.mkdir(d)
    path = os.path.join(d, 'p.yw7')
    op = case['op']
    suffix = case['suffix']
    wrong = None
    if op in ('import', 'new') and suffix not in conv.IMPORTABLE:
        suffix = '_manuscript'
    yw7.write(path, case['novel'])
    src = path
    target = path
    if op in ('import', 'importdamaged', 'new'):
        if op == 'new':
            suffix = '_scenes' if case['outline'] else ''
        elif suffix not in conv.IMPORTABLE:
            suffix = '_charlist'
        c, ui = conv.convert(path, suffix)
        expect(not conv.failed(ui), 'preparing the document failed', ui.messages)
        src = os.path.join(d, 'p' + suffix + conv.DOCS[suffix])
        if op == 'new':
            os.rename(src, os.path.join(d, 'new.odt'))
            src = os.path.join(d, 'new.odt')
            target = os.path.join(d, 'new.yw7')
    else:
        target = os.path.join(d, 'p' + suffix + conv.DOCS[suffix])
        if case['previous']:
            with open(target, 'w') as f:
                f.write('previous document')
    if op == 'import' and case['rename'] is not None:
        other = conv.IMPORTABLE[case['rename']]
        if conv.DOCS[other] == conv.DOCS[suffix] and other != suffix:
            # a document of another type under this name
            os.rename(src, os.path.join(d, 'p' + other + conv.DOCS[other]))
            wrong = suffix, other
            suffix = other
            src = os.path.join(d, 'p' + other + conv.DOCS[other])
    victim = path if op in ('importdamaged', 'export') else src
    with open(victim, 'rb') as f:
        data = f.read()
    bad = mutate.xml_file(data, case['mutation']) if victim.endswith('.yw7') else mutate.archive(data, case['mutation'])
    with open(victim, 'wb') as f:
        f.write(bad)
    if case['bak']:
        with open(target + '.bak', 'w') as f:
            f.write('an older backup')
    what = f'{op} {suffix}'
    converter = None
    if case['reuse']:
        # an application keeps its converter, and another conversion went before
        os.mkdir(ctx.path('e'))
        other = ctx.path('e/other.yw7')
        yw7.write(other, gen.blank_novel({'1': gen.blank_scene()}))
        converter, ui = conv.convert(other, '_manuscript')
        expect(converter.newFile and not conv.failed(ui), 'the preceding conversion failed')
        ctx.label('converter used before')
    before = conv.snapshot(d)
    try:
        pair = case['reuse'] == 2 and parties(converter, op, src, suffix)
        if pair:
            # by the methods for a single kind of conversion
            ctx.label('single method')
            converter.ui = ui = conv.recorder(True)
            c = converter
            with contextlib.redirect_stderr(io.StringIO()):
                {'import': c.import_to_yw, 'importdamaged': c.import_to_yw, 'export': c.export_from_yw, 'new': c.create_yw7}[op](*pair)
        else:
            c, ui = conv.convert(src, suffix if op == 'export' else None, converter=converter)
    except CaseTimeout:
        raise
    except Exception as ex:
        import traceback
        expect(False, f'{what}: exception instead of a message', ''.join(traceback.format_exception(ex))[-1500:])
    after = conv.snapshot(d)
    ctx.nontrivial(bad != data)
    ctx.label(op)
    expect(len(ui.messages) == 1 and ui.messages[0], f'{what}: not exactly one closing message', ui.messages)
    diff = conv.changed(before, after)
    ctx.label('document of another type', wrong)
    if conv.failed(ui):
        ctx.label(op + ' refused')
        expect(not diff, f'{what}: failed, but files changed', diff, ui.messages)
        expect(c.newFile is None, f'{what}: failed, but a new file is announced', c.newFile)
    else:
        ctx.label(op + ' accepted', bad != data)
        expect_eq(c.newFile, target, f'{what}: announced file')
        name = os.path.basename(target)
        expect(all(x in (name, name + '.bak') for x in diff), f'{what}: other files changed', diff)
        expect(name in after, f'{what}: announced, but not there')
        if name in before:
            expect_eq(after.get(name + '.bak'), before[name], f'{what}: the backup does not hold the previous file')
        if target.endswith('.yw7'):
            xml.parsers.expat.ParserCreate('utf-8').Parse(after[name], True)
            model.load(target)
    ctx.label('xml mutation', case['mutation']['xml'])
    ctx.label('byte mutation', case['mutation']['bytes'])
    ctx.label('part mutation', case['mutation']['parts'])


def strategy():
    from hypothesis import strategies as st
    return st.fixed_dictionaries(dict(
        novel=gen.novel(max_ch=3, max_sc=4, max_w=2, min_ch=1, min_sc=1, field=gen.text(4), content=gen.text(8)),
        op=st.sampled_from(['import', 'import', 'import', 'new', 'export', 'importdamaged']), suffix=st.sampled_from(sorted(conv.DOCS)),
        outline=gen.BOOL, reuse=gen.ints(0, 2), previous=gen.BOOL, bak=gen.BOOL, mutation=mutate.strategy(),
        rename=st.sampled_from([None] * 14 + list(range(len(conv.IMPORTABLE))))))


def read_check(case, ctx):
    """Reading project and document files without a converter."""
    from pywriter.pywriter_globals import Error
    path = ctx.path('p.yw7')
    yw7.write(path, case['novel'])
    with open(path, 'rb') as f:
        data = f.read()
    bad = mutate.xml_file(data, case['mutation'])
    with open(path, 'wb') as f:
        f.write(bad)
    try:
        text = bad.decode('utf-8-sig')
    except UnicodeDecodeError:
        text = None
    try:
        xml.parsers.expat.ParserCreate().Parse(bad, True)
        wellformed = True
    except (xml.parsers.expat.ExpatError, LookupError, ValueError):
        # control characters are dropped
        try:
            xml.parsers.expat.ParserCreate('utf-8').Parse(re.sub('[\x00-\x08\x0b\x0c\x0e-\x1f]', '', text or '').encode('utf-8', 'surrogatepass'), True)
            wellformed = True
        except (xml.parsers.expat.ExpatError, LookupError, ValueError):
            wellformed = False
    ctx.nontrivial(not wellformed)
    ctx.label('not well-formed', not wellformed)
    if wellformed:
        return
    try:
        model.load(path)
        # in another encoding, the text may still be readable
        ctx.label('read in another encoding')
        expect(text is None or b'\0' in bad, 'a project that is not well-formed is read without an error')
    except Error as ex:
        expect(str(ex), 'an error without a message')
    except Exception as ex:
        expect(False, 'reading a project that is not well-formed raises an exception of the parser instead of the error of the library', repr(ex))
    with open(path, 'rb') as f:
        expect_eq(f.read(), bad, 'the project file changed')


def read_strategy():
    from hypothesis import strategies as st
    return st.fixed_dictionaries(dict(novel=gen.novel(max_ch=2, max_sc=2, max_w=1, min_ch=1, min_sc=1, field=gen.text(4), content=gen.text(8)), mutation=mutate.strategy()))


PARTS = [Part('damage', strategy, check, quick=1500, thorough=30000), Part('read', read_strategy, read_check, quick=500, thorough=8000)]
