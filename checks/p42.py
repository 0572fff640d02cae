"""P42: each sample application does what its conversion does, and shows the outcome in its window."""
import contextlib
import io
import os
import runpy
import shutil
import sys

from checks import p39
from vlib import child, conv, core, faketk, gen, lo, markup, model, yw7
from vlib.core import Part, expect, expect_eq

ID = 'P42'
LEVEL = 'exploration'
RULE = ('A history of runs of the sample applications, started as scripts with a project, one of its documents, a document without tags, a missing file or a file of another type, with generated answers to questions, and with the project '
        'replaced between the runs. The same history is carried out with the converter alone. Messages and questions shown, windows, and all files after each run must be the same. '
        'Non-trivial: at least two runs succeed, one of them after a change of the project or as an import.')
ASSUMPTIONS = ['the toolkit behaves as the simulation does', 'time stamps in documents are not compared', 'each application runs in a process of its own']

# what each application is for
APPS = {'cnv_brief_synopsis': '_brf_synopsis', 'cnv_chapters': '_chapters', 'cnv_characters': '_characters', 'cnv_charlist': '_charlist', 'cnv_data': '_data', 'cnv_itemlist': '_itemlist', 'cnv_items': '_items',
        'cnv_locations': '_locations', 'cnv_loclist': '_loclist', 'cnv_manuscript': '_manuscript', 'cnv_notes': '_notes', 'cnv_parts': '_parts', 'cnv_plotlist': '_plotlist', 'cnv_proof': '_proof', 'cnv_scenelist': '_scenelist',
        'cnv_scenes': '_scenes', 'cnv_todo': '_todo', 'cross_reference': '_xref', 'export_odt': '', 'import_outline': '', 'import_wip': ''}
EXPORT_ONLY = ('cnv_brief_synopsis', 'cross_reference', 'cnv_data')


def text(data):
    if isinstance(data, dict):
        return {k: text(v[0]) for k, v in data.items()}
    return data.decode('latin-1')


def files(base):
    return {k: text(v) for k, v in p39.contents(base).items()}


def application(name, path, answer):
    """Run a sample application as a script."""
    shown = []
    faketk.ANSWERS['askyesno'] = answer
    sys.argv = [os.path.join(core.REPO, 'src', 'sample', name + '.py'), path]
    with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
        runpy.run_path(sys.argv[0], run_name='__main__')

    def walk(w):
        for c in w.children_:
            if c.options.get('text'):
                shown.append(c.options['text'])
            walk(c)

    for t in faketk.Tk.instances:
        walk(t)
    return dict(windows=len(faketk.Tk.instances), looped=[t.looped for t in faketk.Tk.instances], shown=shown, dialogs=[[n, list(a)] for n, a, k in faketk.LOG])


def plain(name, path, answer):
    """The same with the converter only."""
    from pywriter.converter.yw7_converter import Yw7Converter
    from pywriter.converter.yw7_exporter import Yw7Exporter
    cls = Yw7Exporter if name in EXPORT_ONLY else Yw7Converter
    if name == 'cnv_data':
        from pywriter.yw.data_files import DataFiles
        DataFiles.SUFFIX = '_data'

        class cls(Yw7Exporter):
            EXPORT_TARGET_CLASSES = Yw7Exporter.EXPORT_TARGET_CLASSES + [DataFiles]
    c = cls()
    kw = dict(suffix=APPS[name]) if path.endswith('.yw7') else {}
    conv.convert(path, answer=answer, converter=c, **kw)
    return dict(messages=c.ui.messages, questions=c.ui.questions, warnings=c.ui.warnings, what=c.ui.infoWhatText)


def locate(case, base, target):
    return os.path.join(base, case['name'] + target[1:] if target[:2] in ('p.', 'p_') else target)


def history(case, base, run):
    os.mkdir(base)
    log = []
    try:
        project = os.path.join(base, case['name'] + '.yw7')
        yw7.write(project, case['novels'][0])
        for name, level in (('wip', 2), ('outline', 3)):
            d = lo.Document(7, ('en', 'US'), name, 'me', None, True)
            d.heading(2, 'One')
            d.body.append('<text:p text:style-name="Text_20_body">first</text:p>')
            if level == 3:
                d.heading(3, 'Scene')
                d.body.append('<text:p text:style-name="Text_20_body">what happens</text:p>')
            d.save(os.path.join(base, name + '.odt'))
        with open(os.path.join(base, case['name'] + '.txt'), 'w') as f:
            f.write('text')
        for name, target, answer in case['steps']:
            if name == 'edit':
                yw7.write(project, case['novels'][target])
                continue
            path = locate(case, base, target)
            value, error = child.run(lambda: run(name, path, answer))
            log.append((value, error, files(base)))
        return log
    finally:
        shutil.rmtree(base)


def check(case, ctx):
    if not hasattr(sys.modules.get('tkinter'), 'simulated'):
        faketk.install()
    # what the child processes need
    import pywriter.converter.yw7_converter
    import pywriter.converter.yw7_exporter
    import pywriter.ui.ui_cmd
    import pywriter.ui.ui_tk
    import pywriter.yw.data_files
    base = ctx.path('work')
    want = history(case, base, plain)
    got = history(case, base, application)
    done = 0
    late = False
    n = 0
    for name, target, answer in case['steps']:
        if name == 'edit':
            late = late or done > 0
            continue
        what = f'run {n + 1}: {name} {target}'
        (app, crash, now), (ref, failure, before) = got[n], want[n]
        n += 1
        expect((crash is None) == (failure is None), f'{what}: application and converter', crash, failure)
        d = model.diff(now, before)
        expect(d is None, f'{what}: files: {d}')
        if crash is not None:
            ctx.label('crash')
            continue
        expect_eq((app['windows'], app['looped']), (1, [1]), f'{what}: windows and main loops')
        expect_eq([a[-1] for k, a in app['dialogs'] if k.startswith('ask')], ref['questions'], f'{what}: questions')
        expect_eq([a[-1] for k, a in app['dialogs'] if k == 'showwarning'], ref['warnings'], f'{what}: warnings')
        expect(ref['messages'], f'{what}: no message of the converter')
        message = ref['messages'][-1]
        failed = message.startswith('!')
        expect((message[1:].strip() if failed else message) in app['shown'], f'{what}: the outcome is not shown', message, app['shown'])
        expect(not ref['what'] or ref['what'] in app['shown'], f'{what}: the window does not show what is done', ref['what'], app['shown'])
        if name == 'cnv_plotlist' and target == 'p.yw7':
            expect(failed, f'{what}: unsupported', message)
        if not failed:
            done += 1
            late = late or target != 'p.yw7'
            if target == 'p.yw7' and APPS[name] in conv.DOCS:
                expect(case['name'] + APPS[name] + conv.DOCS[APPS[name]] in now, f'{what}: no document', sorted(now))
        ctx.label(name)
        ctx.label('failure', failed)
        ctx.label('question', ref['questions'])
        ctx.label('import', not failed and target != 'p.yw7')
    ctx.nontrivial(done > 1 and late)


def strategy():
    from hypothesis import strategies as st
    content = markup.content(langs=('de-DE',), raw=False).map(markup.render)
    importers = [a for a in APPS if APPS[a] in conv.IMPORTABLE]

    @st.composite
    def make(draw):
        steps = []
        for i in range(draw(st.integers(2, 6))):
            kind = draw(st.sampled_from(['export', 'export', 'pair', 'pair', 'new', 'odd', 'edit']))
            answer = draw(st.sampled_from([True, True, True, False]))
            if kind == 'export':
                steps.append([draw(st.sampled_from(sorted(APPS))), 'p.yw7', answer])
            elif kind == 'pair':
                a = draw(st.sampled_from(importers))
                steps.append([a, 'p.yw7', answer])
                if draw(gen.BOOL):
                    steps.append(['edit', draw(st.integers(0, 1)), True])
                steps.append([draw(st.sampled_from([a, a, a, 'import_wip', 'cnv_proof'])), 'p' + APPS[a] + conv.DOCS[APPS[a]], draw(st.sampled_from([True, True, False]))])
            elif kind == 'new':
                steps.append([draw(st.sampled_from(['import_wip', 'import_outline', 'cnv_manuscript'])), draw(st.sampled_from(['wip.odt', 'outline.odt'])), answer])
            elif kind == 'odd':
                steps.append([draw(st.sampled_from(sorted(APPS))), draw(st.sampled_from(['missing.yw7', 'missing.odt', 'p.txt', 'p_xref.odt', 'p.odt', 'wip.odt'])), answer])
            else:
                steps.append(['edit', draw(st.integers(0, 1)), True])
        novels = [draw(gen.novel(max_ch=2, max_sc=3, max_w=2, min_ch=1, min_sc=1, content=content)) for i in range(2)]
        return dict(steps=steps, novels=novels, name=draw(st.sampled_from(['p', 'p', 'My Novel', 'R&D', 'Über', 'v1.2', 'a_b'])))
    return make()


PARTS = [Part('applications', strategy, check, quick=400, thorough=8000)]
