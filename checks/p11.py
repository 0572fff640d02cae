"""P11: source and target are found from the file name and suffix."""
import os
import re

from vlib import conv, gen, model, yw7
from vlib.core import Part, expect, expect_eq

ID = 'P11'
LEVEL = 'exploration'
RULE = ('A generated project is put under a generated name into a generated directory, among other projects and documents with similar names (suffix-like endings, prefixes), and one conversion is run with an absolute or '
        'relative path: export with a known or unknown suffix, import of each document type, creation of a new project, missing files, unsupported types. The directory tree is compared with a snapshot. '
        'Non-trivial: the name or a directory contains a suffix, a dot, a blank, or a non-ASCII or special character, or there is a decoy.')
ASSUMPTIONS = ['names contain no slash and no backslash', 'documents for new projects have no name that ends with a document suffix']

# words of the descriptions of the document types
KINDS = {'': 'manuscript', '_proof': 'proof', '_manuscript': 'manuscript', '_brf_synopsis': 'synopsis', '_scenes': 'scene', '_chapters': 'chapter', '_parts': 'part', '_characters': 'character', '_items': 'item',
         '_locations': 'location', '_charlist': 'character', '_loclist': 'location', '_itemlist': 'item', '_scenelist': 'scene', '_xref': 'reference', '_notes': 'notes', '_todo': 'todo'}


def check(case, ctx):
    root = ctx.path('root')
    d = os.path.join(root, *case['dirs'])
    os.makedirs(d)
    name = case['name']
    op = case['op']
    suffix = case['suffix']
    if op == 'new' and any(name.endswith(s) for s in conv.DOCS if s):
        name += 'q'
    path = os.path.join(d, name + '.yw7')
    project = op not in ('noproject', 'new')
    yw7.write(path, case['novel'])
    if op in ('import', 'noproject', 'notback', 'new', 'wrongext'):
        s = suffix
        if op == 'new':
            s = '' if suffix < '_m' else '_scenes'
        if op == 'notback':
            s = '_xref' if suffix < '_m' else '_brf_synopsis'
        c, ui = conv.convert(path, s)
        expect(not conv.failed(ui), 'export failed', ui.messages)
        doc = os.path.join(d, name + s + conv.DOCS[s])
        if op == 'new':
            os.rename(doc, os.path.join(d, name + '.odt'))
            doc = os.path.join(d, name + '.odt')
        if op == 'wrongext':
            e = {'.odt': '.ods', '.ods': '.odt'}[conv.DOCS[s]]
            new = os.path.join(d, name + 'q' + case['ext']) if case['ext'] else os.path.join(d, name + s + '.txt')
            os.rename(doc, new)
            doc = new
    else:
        doc = path
    if op == 'import':
        # a change, so that the import is visible
        with open(path, encoding='utf-8') as f:
            t = f.read()
        spec = dict(case['novel'], title='changed after the export')
        yw7.write(path, spec)
    if not project:
        os.remove(path)
    decoys = 0
    for n in case['decoys']:
        p = os.path.join(d, n.replace('NAME', name).replace('SUFFIX', suffix)[:120])
        if not os.path.exists(p) and p != path and not (op == 'noproject' and p == path):
            if p.endswith('.yw7'):
                yw7.write(p, dict(case['novel'], title='decoy'))
            else:
                with open(p, 'w') as f:
                    f.write('decoy')
            decoys += 1
    # how the path is given
    if case['how'] == 'relative':
        os.chdir(d)
        arg = os.path.basename(doc)
    elif case['how'] == 'dot':
        os.chdir(d)
        arg = './' + os.path.basename(doc)
    elif case['how'] == 'up':
        os.chdir(root)
        arg = os.path.join('..', 'root', os.path.relpath(doc, root))
    else:
        arg = doc
    if op == 'missing':
        arg = arg[:-4] + 'missing' + case['missing']
    before = conv.snapshot(root)
    sfx = suffix if op in ('export', 'missing') else None
    if op == 'unknown':
        sfx = case['unknown']
    what = f'{op} {os.path.basename(arg)!r} {sfx or ""}'
    c, ui = conv.convert(arg, sfx)
    after = conv.snapshot(root)
    diff = conv.changed(before, after)
    rel = os.path.relpath(d, root)
    rel = '' if rel == '.' else rel + '/'
    expect(len(ui.messages) == 1, f'{what}: not exactly one closing message', ui.messages)
    if op in ('export', 'import', 'new'):
        # what is going on
        info = ui.infoWhatText
        if op != 'new':
            rest = re.sub('"[^"]*"', '', info) if '"' not in name + ''.join(case['dirs']) else info
            expect(KINDS[suffix] in rest.lower() and '7' in rest, f'{what}: the information does not name the kinds of files', info)
        for p in ([path, doc] if op != 'export' else [path, os.path.join(d, name + suffix + conv.DOCS[suffix])]):
            expect(os.path.basename(p) in info or op == 'new' and p == doc, f'{what}: the information does not name {os.path.basename(p)!r}', info)
    ctx.label(op)
    ctx.label('path ' + case['how'])
    if op == 'export':
        target = name + suffix + conv.DOCS[suffix]
        expect_eq(conv.failed(ui), False, f'{what}: {ui.messages}')
        allowed = {rel + target}
        if rel + target in before:
            allowed.add(rel + target + '.bak')
        expect(rel + target in diff and set(diff) <= allowed, f'{what}: files created or changed', diff, target)
        expect(os.path.samefile(c.newFile, os.path.join(d, target)), f'{what}: announced file', c.newFile)
    elif op == 'import':
        expect_eq(conv.failed(ui), False, f'{what}: {ui.messages}')
        expect_eq(sorted(diff), sorted([rel + name + '.yw7', rel + name + '.yw7.bak']), f'{what}: files created or changed')
        expect(os.path.samefile(c.newFile, path), f'{what}: announced file', c.newFile)
        __, n = model.load(path)
        expect_eq(n.title, 'changed after the export', f'{what}: another project was read')
    elif op == 'new':
        expect_eq(conv.failed(ui), False, f'{what}: {ui.messages}')
        expect_eq(diff, [rel + name + '.yw7'], f'{what}: files created or changed')
        expect(os.path.samefile(c.newFile, path), f'{what}: announced file', c.newFile)
        model.load(path)
    else:
        expect_eq(conv.failed(ui), True, f'{what}: no failure reported ({ui.messages})')
        expect(not diff, f'{what}: files created or changed', diff)
        expect(c.newFile is None, f'{what}: failed, but a new file is announced', c.newFile)
    blob = name + ''.join(case['dirs'])
    ctx.nontrivial(decoys or not blob.isascii() or not blob.isalnum())
    ctx.label('decoys', decoys)
    ctx.label('suffix in the name', any(s and s in blob for s in conv.DOCS))


DECOYS = ['NAMESUFFIX.yw7', 'NAME.yw7.yw7', 'NAMESUFFIXSUFFIX.yw7', 'NAM.yw7', 'NAME_.yw7', 'SUFFIX.yw7', 'NAMESUFFIX.odt.yw7', 'other.yw7', 'NAMESUFFIX.bak', 'NAME.odt.bak', 'NAME_notes.yw7',
          'NAME.yw6', 'NAMESUFFIX.txt', 'yw7', '.yw7', 'NAMESUFFIX', 'NAME']


def strategy():
    from hypothesis import strategies as st
    sfx = [s for s in conv.DOCS if s]
    part = st.sampled_from(['p', 'my novel', 'a.b', 'Ünï', '日本', "it's", '100%', 'x&y', '-n', '$HOME', '#1', '%20', '(1)', 'é ', '..x', 'yw7', '.yw7', '.odt', '~', '"q"', 'A', '_'] + sfx + ['_xref', '_scenes', '_notes'])
    free = st.text('abXYZ019 ._-äß&%$#()\'"+=,;!@[]{}^`~ñ漢', min_size=1, max_size=10)
    base = st.one_of(st.lists(part, min_size=1, max_size=3).map(''.join), free)
    name = base.map(lambda s: s if s.strip('. ') and not s.startswith('.') else 'p' + s)
    novel = gen.novel(max_ch=2, max_sc=2, max_w=1, min_ch=1, content=gen.text(4, nasty=False), field=gen.text(3, nasty=False), ttl=gen.title(nasty=False))
    return st.fixed_dictionaries(dict(
        novel=novel, name=name, dirs=st.lists(name, max_size=2), suffix=st.sampled_from(conv.IMPORTABLE),
        op=st.sampled_from(['export', 'export', 'export', 'import', 'import', 'import', 'new', 'noproject', 'notback', 'wrongext', 'missing', 'unknown']),
        how=st.sampled_from(['absolute', 'absolute', 'relative', 'dot', 'up']), decoys=st.lists(st.sampled_from(DECOYS), max_size=4, unique=True),
        ext=st.sampled_from(['', '.ods', '.txt', '.ODT', '.yw6', '.YW7', '.html', '.csv', '.odt.txt', '.', '']), missing=st.sampled_from(['.yw7', '.odt', '.ods', '_manuscript.odt', '.xyz', '']),
        unknown=st.sampled_from(['_unknown', '_proof.odt', 'proof', '_Proof', '_manuscript ', '.odt', '_', ' ', '_exp', '_data']))).map(fix)


def fix(case):
    if case['op'] == 'export' and len(case['name']) % 3 == 0:
        case['suffix'] = ['', '_brf_synopsis', '_xref'][len(case['dirs'])]
    return case


PARTS = [Part('names', strategy, check, quick=900, thorough=16000)]
