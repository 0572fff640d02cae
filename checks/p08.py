"""P08: a failed or killed save never loses the saved project."""
import os
import shutil
import signal

from vlib import conv, faults, gen, model, yw7
from vlib.core import Part, expect

ID = 'P08'
LEVEL = 'fault_enumeration'
RULE = ('Histories of up to four saves of a generated project, through one or several file objects or by importing a document. Each save may meet one fault: '
        'an input/output error at the n-th file operation, or a file size limit at a fraction of the file size (medium full); in the other part the process is a forked child that dies '
        'at the n-th file operation or at the write that exceeds the limit. After each save the last version saved successfully is searched byte by byte in the project file and its backup. '
        'Non-trivial: a fault took effect.')
ASSUMPTIONS = ['one fault per save', 'a crash keeps completed system calls (no loss of written data in the page cache)',
               'after a crash the user copies the backup over a damaged project before going on']


def content(p):
    if not os.path.isfile(p):
        return None
    with open(p, 'rb') as f:
        return f.read()


def apply(novel, step):
    novel.title = step['title']
    novel.desc = step['desc']
    for i, s in enumerate(novel.scenes.values()):
        if i == 0:
            s.sceneContent = step['content']


def verify(path, step, what):
    __, n = model.load(path)
    expect((n.title or '', n.desc or '') == (step['title'], step['desc']), f'{what}: the saved project does not have the new title and description', n.title, n.desc)
    for s in list(n.scenes.values())[:1]:
        expect((s.sceneContent or '') == step['content'], f'{what}: the saved project does not have the new text', s.sceneContent)


def check(case, ctx):
    d = ctx.path('d')
    os.mkdir(d)
    path = os.path.join(d, 'p.yw7')
    yw7.write(path, case['novel'])
    f, n = model.load(path)
    good = content(path)
    bak = path + '.bak'
    for i, step in enumerate(case['steps']):
        what = f'step {i + 1} ({step["via"]}, {step["fault"]})'
        before = content(path)
        fault = step['fault']
        if fault and fault[0] == 'fsize':
            fault = ['fsize', int(len(before) * fault[1] / 100)]
        ctx.label(step['via'])
        if step['via'] == 'import':
            doc = os.path.join(d, 'p_manuscript.odt')
            doc0 = ctx.path('p.yw7')
            shutil.copy(path, doc0)
            c, ui = conv.convert(doc0, '_manuscript')
            expect(not conv.failed(ui), 'export failed', ui.messages)
            os.replace(ctx.path('p_manuscript.odt'), doc)

            def save():
                c, ui = conv.convert(doc)
                if conv.failed(ui):
                    raise OSError(ui.messages[-1])
        else:
            if step['via'] == 'fresh':
                f, n = model.load(path)
            apply(n, step)

            def save():
                f.write()
        died = False
        if case['kill']:
            def run():
                with faults.fault(fault, kill=True):
                    save()
            rc = faults.in_child(run)
            expect(rc in (0, 1, 77, -signal.SIGXFSZ), f'{what}: the saving process ended with {rc}')
            ok = rc == 0
            died = rc in (77, -signal.SIGXFSZ)
            ctx.label('died', died)
            ctx.label(f'died by {step["fault"] and step["fault"][0]}', died)
            took = died
            error = None
        else:
            error = None
            fl = faults.fault(fault)
            with fl:
                try:
                    save()
                    ok = True
                except Exception as ex:
                    ok = False
                    error = repr(ex)
            took = fl.fired or (fl.size is not None and not ok)
            ctx.label(f'error at {fl.fired}', fl.fired)
            ctx.label('medium full', fl.size is not None and not ok)
            expect(ok or took, f'{what}: the save failed without a fault', error)
        ctx.nontrivial(took)
        now = content(path)
        if ok:
            if step['via'] != 'import':
                verify(path, step, what)
            else:
                model.load(path)
            expect(content(bak) == before, f'{what}: after a successful save the backup does not hold the version before')
            good = now
        else:
            expect(now == good or content(bak) == good,
                   f'{what}: the last version saved is neither in place nor in the backup (project file: {None if now is None else len(now)} bytes, '
                   f'backup: {content(bak) and len(content(bak))} bytes, last version: {len(good)} bytes)', error)
            if now != good and (died or step['via'] == 'import' or case['recover']):
                shutil.copy(bak, path)
            if case['kill']:
                f, n = model.load(path)
        if case['kill'] and ok:
            f, n = model.load(path)


def strategy(kill):
    def make():
        from hypothesis import strategies as st
        fault = st.one_of(st.none(), st.tuples(st.just('event'), st.sampled_from(range(7)), st.sampled_from(['error', 'error', 'memory', 'denied'])).map(list),
                          st.tuples(st.just('fsize'), st.sampled_from(range(0, 116, 3))).map(list))
        txt = gen.text(6)
        step = st.fixed_dictionaries(dict(title=gen.title(), desc=txt, content=gen.text(12), fault=fault,
                                          via=st.sampled_from(['same', 'same', 'fresh', 'import'] if not kill else ['same', 'import'])))
        return st.fixed_dictionaries(dict(novel=gen.novel(orphans=True, max_ch=2, max_sc=3, max_w=2, field=gen.text(4)), kill=st.just(kill), recover=gen.BOOL,
                                          steps=st.lists(step, min_size=1, max_size=4)))
    return make


PARTS = [Part('errors', strategy(False), check, quick=700, thorough=12000),
         Part('kills', strategy(True), check, quick=300, thorough=5000)]
