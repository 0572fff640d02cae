"""P12: nothing is overwritten without consent."""
import os

from vlib import conv, gen, model, yw7
from vlib.core import Part, expect, expect_eq

ID = 'P12'
LEVEL = 'exploration'
RULE = ('Histories of one to four conversions with one converter object in a directory with a generated project, documents, older exports, backups and foreign files: exports and imports of all types and creation of new '
        'projects, each with the user agreeing or declining. The directory is compared with snapshots taken before the conversion, when the question is asked, and after. A second part runs a console application with generated answers. Non-trivial: a target existed.')
ASSUMPTIONS = ['the question goes through Ui.ask_yes_no()']


def check(case, ctx):
    from pywriter.converter.yw7_converter import Yw7Converter
    from pywriter.converter.yw7_exporter import Yw7Exporter
    from pywriter.converter.yw7_importer import Yw7Importer
    d = ctx.path('d')
    os.mkdir(d)
    path = os.path.join(d, 'p.yw7')
    yw7.write(path, case['novel'])
    # documents to import
    for step in case['steps']:
        if step['op'] in ('import', 'importer'):
            conv.convert(path, step['suffix'])
    conv.convert(path, '')
    os.rename(os.path.join(d, 'p.odt'), os.path.join(d, 'new.odt'))
    for name in case['files']:
        p = os.path.join(d, name)
        if not os.path.exists(p):
            with open(p, 'w') as f:
                f.write('existing ' + name if case['filled'] else '')
    for name in os.listdir(d):
        if name.endswith('.bak'):
            os.remove(os.path.join(d, name))
    conv_all = Yw7Converter()
    steps = case['steps']
    if case['repeat']:
        # the same once more, with the other answer
        steps = steps + [dict(steps[-1], answer=not steps[-1]['answer'])]
    for i, step in enumerate(steps):
        op = step['op']
        suffix = step['suffix']
        if op in ('export', 'exporter'):
            src, target = path, 'p' + suffix + conv.DOCS[suffix]
        elif op in ('import', 'importer'):
            src, target = os.path.join(d, 'p' + suffix + conv.DOCS[suffix]), 'p.yw7'
        else:
            src, target = os.path.join(d, 'new.odt'), 'new.yw7'
        if op in ('import', 'importer') and case['touch']:
            # a changed project, so that an import has something to write
            yw7.write(path, dict(case['novel'], title=f'changed {i}', desc='x' * i))
        before = conv.snapshot(d)
        exists = target in before
        questions = []

        def answer(text):
            questions.append(text)
            expect(not conv.changed(before, conv.snapshot(d)), 'files changed before the question was answered')
            return step['answer']

        if op == 'exporter':
            c = Yw7Exporter()
        elif op == 'importer':
            c = Yw7Importer()
        else:
            c = conv_all
        usable = op == 'new' or src == path or (before[os.path.basename(src)][:2] == b'PK')
        what = f'step {i + 1}: {op} {suffix}, answer {step["answer"]}, target {"exists" if exists else "does not exist"}'
        if case['direct'] and op in ('export', 'import'):
            ctx.label('direct call')
            __, ui = conv.direct(src, suffix, answer, c)
        else:
            __, ui = conv.convert(src, suffix, answer, converter=c)
        after = conv.snapshot(d)
        diff = conv.changed(before, after)
        ctx.label(op)
        expect(len(ui.messages) == 1, f'{what}: not exactly one closing message', ui.messages)
        if exists:
            ctx.nontrivial()
            if op == 'new':
                ctx.label('new project exists')
                expect(conv.failed(ui) and c.newFile is None and not diff, f'{what}: an existing project is overwritten, or the refusal is not reported', ui.messages, c.newFile, diff)
                continue
            expect(len(questions) >= 1, f'{what}: the user was not asked')
            expect(any(target in q for q in questions), f'{what}: the question does not name the file', questions)
            if not step['answer']:
                ctx.label(op + ' declined')
                expect(conv.failed(ui) and c.newFile is None, f'{what}: not reported as failed', ui.messages, c.newFile)
                expect(not diff, f'{what}: files changed', diff)
                continue
        if usable:
            ctx.label(op + ' done')
            expect(conv.failed(ui) is False, f'{what}: failed', ui.messages)
            expect_eq(os.path.basename(c.newFile or ''), target, f'{what}: announced file')
            expect(set(diff) <= {target, target + '.bak'}, f'{what}: other files changed', diff)
            if exists:
                expect_eq(after.get(target + '.bak'), before[target], f'{what}: the backup does not hold the previous file')
            else:
                expect_eq(diff, [target], f'{what}: files changed')
            if target.endswith('.yw7'):
                model.load(os.path.join(d, target))
        else:
            expect(conv.failed(ui) and not diff and c.newFile is None, f'{what}: unusable document accepted', ui.messages, diff)


def console(case, ctx):
    """An application at the console."""
    import builtins
    import contextlib
    import io
    from pywriter.converter.yw7_converter import Yw7Converter
    from pywriter.ui.ui_cmd import UiCmd
    path = ctx.path('p.yw7')
    yw7.write(path, case['novel'])
    with contextlib.redirect_stdout(io.StringIO()):
        c = Yw7Converter()
        c.ui = UiCmd('x')
        c.run(path, suffix=case['suffix'])
    target = 'p' + case['suffix'] + conv.DOCS[case['suffix']]
    expect(os.path.isfile(ctx.path(target)), 'the first export writes no file')
    yw7.write(path, dict(case['novel'], title='changed'))
    before = conv.snapshot(ctx.dir)
    asked = []

    def answer(prompt=''):
        asked.append(prompt)
        return case['answer']

    out = io.StringIO()
    old = builtins.input
    builtins.input = answer
    try:
        with contextlib.redirect_stdout(out):
            c = Yw7Converter()
            c.ui = UiCmd('My application')
            c.run(path, suffix=case['suffix'])
    finally:
        builtins.input = old
    lines = out.getvalue().split('\n')
    expect_eq(lines[0], 'My application', 'title of the application')
    expect_eq(len(asked), 1, 'number of questions')
    expect(target in asked[0], 'the question does not name the file', asked)
    diff = conv.changed(before, conv.snapshot(ctx.dir))
    if case['answer'] in ('y', 'Y'):
        expect_eq(set(diff), {target, target + '.bak'}, 'files changed')
        expect('FAIL' not in out.getvalue() and target in lines[-2], 'no success reported', lines)
    else:
        expect(not diff, f'answer {case["answer"]!r}: files changed', diff)
        expect(lines[-2].startswith('FAIL: '), f'answer {case["answer"]!r}: not reported as failed', lines)
        expect(c.newFile is None, 'a new file is announced')
    ctx.nontrivial()
    ctx.label(f'answer {case["answer"]}')


def console_strategy():
    from hypothesis import strategies as st
    return st.fixed_dictionaries(dict(novel=gen.novel(max_ch=2, max_sc=2, max_w=1, min_ch=1, content=gen.text(4, nasty=False), field=gen.text(3, nasty=False), ttl=gen.title(nasty=False)),
                                      suffix=st.sampled_from(sorted(conv.DOCS)), answer=st.sampled_from(['y', 'Y', 'n', 'N', '', 'yes', 'j', ' ', '0'])))


def strategy():
    from hypothesis import strategies as st
    files = ['new.yw7', 'new.yw7.bak', 'p.yw7.bak', 'other.yw7', 'p.txt'] + ['p' + s + e for s, e in conv.DOCS.items()] + ['p' + s + e + '.bak' for s, e in conv.DOCS.items()]
    step = st.fixed_dictionaries(dict(op=st.sampled_from(['export', 'export', 'exporter', 'import', 'importer', 'new']), suffix=st.sampled_from(sorted(conv.DOCS)), answer=gen.BOOL))
    def fix(s):
        if s['op'] in ('import', 'importer') and s['suffix'] not in conv.IMPORTABLE:
            s['suffix'] = '_manuscript'
        return s
    return st.fixed_dictionaries(dict(
        novel=gen.novel(max_ch=2, max_sc=2, max_w=1, min_ch=1, content=gen.text(4, nasty=False), field=gen.text(3, nasty=False), ttl=gen.title(nasty=False)),
        files=st.lists(st.sampled_from(files), max_size=12, unique=True), touch=gen.BOOL, filled=gen.BOOL, direct=gen.BOOL, repeat=gen.BOOL, steps=st.lists(step.map(fix), min_size=1, max_size=4)))


PARTS = [Part('consent', strategy, check, quick=600, thorough=12000), Part('console', console_strategy, console, quick=120, thorough=1500)]
