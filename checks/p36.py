"""P36: purging removes what it names and nothing else."""
import copy
import itertools
import xml.etree.ElementTree as ET

from vlib import gen, markup, model, yw7
from vlib.core import Part, expect, expect_eq

ID = 'P36'
LEVEL = 'exploration'
RULE = ('Random projects with every attribute set or unset are read with the program\'s own custom fields and with those of an application that declares more, custom fields or language markup are removed, and the project is saved '
        'and read again. In memory, in the file and after reading, exactly the named fields or markers must be gone, all else unchanged, and the return value must say whether something was removed. '
        'Non-trivial: something to remove and something to keep.')
ASSUMPTIONS = ['as P01', 'the markers of languages are [lang=code] and [/lang=code] within a line', 'project notes have no fields of their own in the file']
EXTRA = dict(PRJ_KWVAR='Field_P', CHP_KWVAR='Field_C', SCN_KWVAR='Field_S', CRT_KWVAR='Field_R', LOC_KWVAR='Field_L', ITM_KWVAR='Field_I')
BOXES = dict(CHP_KWVAR='chapters', SCN_KWVAR='scenes', CRT_KWVAR='characters', LOC_KWVAR='locations', ITM_KWVAR='items')
GONE = ('Field_Link', 'Field_BirthDate', 'Field_DeathDate', 'Field_SceneArcs', 'Field_SceneMode', *EXTRA.values())


def application(more):
    from pywriter.yw.yw7_file import Yw7File
    if not more:
        return Yw7File
    return type('Application', (Yw7File,), {k: [*getattr(Yw7File, k), v] for k, v in EXTRA.items()})


def fields_in(path):
    return sorted(x.tag for x in ET.parse(path).getroot().iter() if x.tag in GONE and x.text)


def custom(novel):
    """Values of the custom fields that the application declares."""
    r = {}
    for k, v in EXTRA.items():
        if k == 'PRJ_KWVAR':
            r[k] = novel.kwVar.get(v) or None
        else:
            r[k] = {i: e.kwVar.get(v) or None for i, e in getattr(novel, BOXES[k]).items()}
    return r


def state(novel):
    return model.norm_spec(model.from_novel(novel)), novel.languageCode, novel.countryCode


def fields(case, ctx):
    from pywriter.yw.yw7_purge import reset_custom_variables
    spec = copy.deepcopy(case['spec'])
    cls = application(case['more'])
    path = ctx.path('p.yw7')
    model.save(path, model.to_novel(spec))
    f, novel = model.load(path, cls)
    if case['lang']:
        novel.languageCode, novel.countryCode = 'de', 'AT'
    if case['more']:
        values = itertools.cycle(case['values'])
        novel.kwVar['Field_P'] = next(values)
        for k, v in EXTRA.items():
            for e in getattr(novel, BOXES[k]).values() if k in BOXES else ():
                e.kwVar[v] = next(values)
    if case['only']:
        # Leave the fields of one kind of element alone.
        if case['only'] != 'PRJ_KWVAR':
            for k in novel.kwVar:
                novel.kwVar[k] = ''
        for kind, box in BOXES.items():
            for e in getattr(novel, box).values() if kind != case['only'] else ():
                for k in e.kwVar:
                    e.kwVar[k] = ''
                if kind == 'SCN_KWVAR':
                    e.scnArcs = e.scnMode = None
    want = custom(novel)
    f.write()
    f, novel = model.load(path, cls)
    if case['more']:
        expect_eq(custom(novel), want, 'custom fields saved and read again')
    before, there = state(novel), fields_in(path)
    keep = copy.deepcopy(before)
    for key in ('characters', 'items', 'locations'):
        for d in keep[0][key].values():
            for k in d:
                if k.startswith('Field_'):
                    d[k] = None
    for d in keep[0]['scenes'].values():
        d['scnArcs'] = d['scnMode'] = None
    if case['unsaved']:
        # Values that were set since the project was read are not yet among the fields.
        for e in novel.scenes.values():
            e.kwVar['Field_SceneArcs'] = e.kwVar['Field_SceneMode'] = None
    expect_eq(bool(reset_custom_variables(f)), bool(there), f'result of the purge with {there}')
    for what in ('in memory', 'saved', 'saved again'):
        d = model.diff(state(novel)[0], keep[0])
        expect(d is None, f'{what}: {d}')
        expect_eq(state(novel)[1:], keep[1:], f'{what}: language')
        if case['more']:
            left = {k: v for k, v in custom(novel).items() if v and (not isinstance(v, dict) or any(v.values()))}
            expect_eq(left, {}, f'{what}: custom fields remain')
        if what != 'in memory':
            expect_eq(fields_in(path), [], f'{what}: fields in the file')
            expect(not reset_custom_variables(f), f'{what}: there is nothing left to purge')
        f.write()
        f, novel = model.load(path, cls)
    ctx.nontrivial(bool(there) and bool(spec['scenes']))
    ctx.label('unsaved', case['unsaved'] and {'Field_SceneArcs', 'Field_SceneMode'} & set(there))
    if case['only'] and there:
        ctx.label(f"only {case['only']}")
    for t in set(there):
        ctx.label(t)


def fields_strategy():
    from hypothesis import strategies as st
    return st.fixed_dictionaries(dict(spec=gen.novel(orphans=True, min_ch=1, min_sc=1), more=gen.BOOL, unsaved=gen.BOOL, only=gen.sampled(None, None, 'PRJ_KWVAR', *BOXES), lang=gen.BOOL, values=st.lists(st.one_of(st.none(), st.just(''), gen.title()), min_size=1, max_size=5)))


def without(text):
    """The text without language markers, scanned."""
    out, i = '', 0
    while i < len(text):
        for prefix in ('[lang=', '[/lang='):
            if text.startswith(prefix, i):
                end = text.find(']', i + len(prefix))
                if end >= 0 and '\n' not in text[i:end]:
                    i = end + 1
                    break
        else:
            out += text[i]
            i += 1
    return out


def tags(case, ctx):
    from pywriter.yw.yw7_purge import remove_language_tags
    spec = copy.deepcopy(case['spec'])
    texts = iter(case['texts'])
    for i, s in spec['scenes'].items():
        s['sceneContent'] = next(texts, s['sceneContent'])
    path = ctx.path('p.yw7')
    model.save(path, model.to_novel(spec))
    f, novel = model.load(path)
    before = state(novel)
    want = copy.deepcopy(before)
    changed = False
    for i, d in want[0]['scenes'].items():
        t = d['sceneContent']
        if t is not None:
            d['sceneContent'] = without(t) or None
            changed |= without(t) != t
    expect_eq(bool(remove_language_tags(novel)), changed, 'result of removing language tags')
    for what in ('in memory', 'saved'):
        d = model.diff(state(novel)[0], want[0])
        expect(d is None, f'{what}: {d}')
        if what == 'in memory':
            expect(not remove_language_tags(novel), 'there is nothing left to remove')
            f.write()
            f, novel = model.load(path)
    ctx.nontrivial(changed)
    ctx.label('unfinished marker', any('[lang=' in (d['sceneContent'] or '') for d in want[0]['scenes'].values()))


def tags_strategy():
    from hypothesis import strategies as st
    piece = st.one_of(st.sampled_from(['[lang=de-DE]', '[/lang=de-DE]', '[lang=eo]', '[/lang=eo]', '[lang=', '[/lang=', 'lang=]', '[i]', '[/i]', '\n', '[language=x]', '[LANG=de]', ' ', '] ', '[', '[lang]', '[ lang=de]', '/* x */', 'x']), gen.line(3))
    text = st.one_of(st.none(), st.lists(piece, max_size=10).map(''.join).filter(lambda t: '[lang=[' not in without(t) and without(without(t)) == without(t)),
                     markup.content(langs=('de-DE', 'fr-CH', 'de-AT'), raw=False).map(markup.render))
    return st.fixed_dictionaries(dict(spec=gen.novel(orphans=True, min_ch=1, min_sc=2), texts=st.lists(text, min_size=1, max_size=5)))


PARTS = [Part('custom fields', fields_strategy, fields, quick=500, thorough=8000), Part('language tags', tags_strategy, tags, quick=500, thorough=8000)]
