"""P13: exporting changes nothing but the exported document."""
import copy
import os
import re

from vlib import conv, gen, model, yw7
from vlib.core import Part, expect, expect_eq
from vlib.docs import parts, same

ID = 'P13'
LEVEL = 'exploration'
RULE = ('One loaded project is exported in a generated sequence of up to eight document types with repetitions; scenes being edited and chapters moved in between; after each export every attribute of every object in memory is compared with its value before, '
        'and the document is compared part by part (except for the date) with one exported from a freshly loaded copy. In the second part the converters export a project file twice; its bytes and modification time are compared. '
        'Non-trivial: at least two different document types and at least one scene.')
ASSUMPTIONS = ['language, country and the list of passage languages may be filled in']


def dump(obj, seen=()):
    """All attributes of the objects of a novel."""
    if isinstance(obj, dict):
        return {repr(k): dump(v) for k, v in obj.items()}, list(obj)
    if isinstance(obj, (list, tuple)):
        return [dump(x) for x in obj]
    if hasattr(obj, '__dict__') and type(obj).__module__.startswith('pywriter'):
        return {k: dump(v) for k, v in vars(obj).items() if k not in ('languageCode', 'countryCode', 'languages')}
    return obj if isinstance(obj, (str, int, float, bool, type(None))) else repr(obj)


def flat(d, path=''):
    if isinstance(d, dict):
        for k, v in d.items():
            yield from flat(v, f'{path}.{k}')
    elif isinstance(d, (list, tuple)):
        yield path + '#', len(d)
        for i, v in enumerate(d):
            yield from flat(v, f'{path}[{i}]')
    else:
        yield path, d


def by_language(parts):
    """The novel may still know a language that is no longer used: name the styles after what they define, and drop their definitions."""
    text = parts['content.xml']
    style = rb'\s*<style:style style:name="(T\d+)" style:family="text">\s*<style:text-properties ([^>]*)/>\s*</style:style>'
    names = dict(re.findall(style, text))
    text = re.sub(rb'<office:automatic-styles>\s*</office:automatic-styles>', b'<office:automatic-styles/>', re.sub(style, b'', text))
    text = re.sub(rb'style-name="(T\d+)"', lambda m: b'style-name=(%s)' % names.get(m[1], m[1]), text)
    return dict(parts, **{'content.xml': text})


def edit(novel, spec, op, ctx):
    """Apply an edit to the novel in memory and to the project the fresh copies are read from."""
    kind, i, text, number = op
    ids = sorted(spec['scenes'])
    sid = ids[i % len(ids)] if ids else None
    if kind == 'rotate':
        for lst in (novel.srtChapters, spec['srtChapters']):
            if lst:
                lst.append(lst.pop(i % len(lst)))
    elif sid is None:
        return
    elif kind == 'text':
        novel.scenes[sid].sceneContent = text
        spec['scenes'][sid]['sceneContent'] = text
    elif kind == 'title':
        novel.scenes[sid].title = text.strip()
        spec['scenes'][sid]['title'] = text.strip()
    elif kind == 'type' and not any(sid in c['srtScenes'] and c['chType'] for c in spec['chapters'].values()):
        novel.scenes[sid].scType = number
        spec['scenes'][sid]['scType'] = number
    ctx.label('edit ' + kind)


def sequence(case, ctx):
    d = ctx.path('d')
    os.mkdir(d)
    path = os.path.join(d, 'p.yw7')
    yw7.write(path, case['novel'])
    classes = conv.export_classes()
    __, novel = model.load(path)
    before = dict(flat(dump(novel)))
    spec = copy.deepcopy(case['novel'])
    edited = False
    for i, suffix in enumerate(case['sequence']):
        if not isinstance(suffix, str):
            edited = True
            edit(novel, spec, suffix, ctx)
            yw7.write(path, spec)
            before = dict(flat(dump(novel)))
            continue
        doc = os.path.join(d, 'p' + suffix + conv.DOCS[suffix])
        what = f'export {i + 1} of {case["sequence"]}'
        conv.export(novel, classes[suffix], doc)
        got = parts(doc)
        os.remove(doc)
        after = dict(flat(dump(novel)))
        for k in before:
            expect(k in after and after[k] == before[k], f'{what}: changes the novel in memory at {k}', after.get(k, 'absent'), before[k])
        expect(len(after) == len(before), f'{what}: adds to the novel in memory', sorted(set(after) - set(before))[:5])
        __, fresh = model.load(path)
        conv.export(fresh, classes[suffix], doc)
        want = parts(doc)
        if edited:
            got, want = by_language(got), by_language(want)
        same(got, want, f'{what}: differs from a document exported from a fresh copy')
        os.remove(doc)
    exports = [s for s in case['sequence'] if isinstance(s, str)]
    ctx.nontrivial(len(set(exports)) > 1 and case['novel']['scenes'])
    ctx.label('repetition', len(set(exports)) < len(exports))
    ctx.label('no project language', not case['novel']['languageCode'])


def twice(case, ctx):
    d = ctx.path('d')
    os.mkdir(d)
    path = os.path.join(d, 'p.yw7')
    yw7.write(path, case['novel'])
    os.utime(path, (10 ** 9, 10 ** 9))
    with open(path, 'rb') as f:
        data = f.read()
    got = []
    for i in range(2):
        for suffix in case['sequence']:
            c, ui = conv.convert(path, suffix)
            expect(conv.failed(ui) is False, 'export failed', ui.messages)
        got.append({s: parts(os.path.join(d, 'p' + s + conv.DOCS[s])) for s in case['sequence']})
    for s in case['sequence']:
        same(got[1][s], got[0][s], f'second export of {s or "export"} differs')
    with open(path, 'rb') as f:
        expect(f.read() == data, 'the project file changed')
    expect_eq(os.stat(path).st_mtime, 10 ** 9, 'the project file was written')
    names = {'p.yw7'} | {'p' + s + conv.DOCS[s] for s in case['sequence']} | {'p' + s + conv.DOCS[s] + '.bak' for s in case['sequence']}
    expect_eq(sorted(os.listdir(d)), sorted(names), 'files in the directory')
    ctx.nontrivial(len(set(case['sequence'])) > 1 and case['novel']['scenes'])


def strategy(n, edits=False):
    def make():
        from hypothesis import strategies as st
        step = st.sampled_from(sorted(conv.DOCS))
        if edits:
            step = st.one_of(step, step, step, st.tuples(st.sampled_from(['text', 'text', 'title', 'type', 'rotate']), st.integers(0, 9), st.one_of(gen.text(8, extra=EXTRA), st.sampled_from(LANGS)), st.sampled_from([0, 0, 1, 2, 3])))
        return st.fixed_dictionaries(dict(novel=gen.novel(orphans=True, max_ch=3, max_sc=5, max_w=2, min_ch=1, min_sc=1, content=st.one_of(gen.text(10, extra=EXTRA), gen.text(10, extra=EXTRA), st.sampled_from(LANGS))),
                                          sequence=st.lists(step, min_size=4 if edits else 2, max_size=n)))
    return make


EXTRA = ('[i]', '[/i]', '[b]', '[/b]', '[lang=de-DE]', '[/lang=de-DE]', '/*', '*/', '/*@fn ', '/*@en ', '[c]', '<HTM ', ' /HTM>', '\n> ', '[lang=xx]', '[/lang=xx]', '[u]', '[h2]')
LANGS = ['a [lang=%s]b[/lang=%s] c' % (i, i) for i in ('fr-FR', 'de-DE', 'en-AU', 'eo')]
PARTS = [Part('sequences', strategy(8, True), sequence, quick=900, thorough=12000),
         Part('converters', strategy(3), twice, quick=300, thorough=4000)]
