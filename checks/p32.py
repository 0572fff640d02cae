"""P32: language settings and tags are kept through saves and conversions."""
import xml.etree.ElementTree as ET

from checks import p20, p21
from vlib import conv, gen, lo, markup, model, roundtrip, yw7
from vlib.core import Part, expect, expect_eq

ID = 'P32'
LEVEL = 'exploration'
RULE = ('Histories of saving, setting the language, editing texts with passages in other languages, and exporting and importing documents (whose default language may be changed in between) are generated for projects with generated project variables, under generated system '
        'locales. After each step the project variables in the file are compared with a model: language and country, exactly one pair for each passage language, other variables untouched, IDs unique. '
        'A second part makes new projects from documents with passages in other languages. Non-trivial: at least one passage language and another project variable, or a missing or implausible code.')
ASSUMPTIONS = ['existing language variables are complete pairs and not repeated', 'codes of passages have the form ll or ll-CC', 'the system language is what Python reports for the environment of the process',
               'project variables have an ID', 'text lines do not begin with a separator of the scene splitter']
OPEN = '<HTM <SPAN LANG="{}"> /HTM>'
CLOSE = '<HTM </SPAN> /HTM>'
DOCS = ['_manuscript', '_proof', '_scenes', '_charlist', '_scenelist']


def variables(path):
    return yw7.projectvars(ET.parse(path).getroot())


def used(novel):
    r = []
    for s in novel.scenes.values():
        r += [l for l in markup.known([s.sceneContent]) if l not in r]
    return r


def pair_of(title):
    for prefix in ('lang=', '/lang='):
        if title and title.startswith(prefix):
            return prefix, title[len(prefix):]
    return None


def compare(path, before, locale, langs, optional, what):
    """Compare the project variables with what is expected; locale None: no variables for it."""
    now = variables(path)
    ids = [v[0] for v in now]
    expect_eq(len(set(ids)), len(ids), f'{what}: IDs of project variables are not unique: {now}')
    kept = [(i, t, d) for i, t, d, __ in now][:len(before)]
    want = []
    for i, t, d in before:
        if locale and t == 'Language':
            d = locale[0]
        if locale and t == 'Country':
            d = locale[1]
        want.append((i, t or None, d or None))
    expect_eq([(i, t or None, d or None) for i, t, d in kept], want, f'{what}: existing project variables')
    new = now[len(before):]
    expect(all(v[3] == '0' for v in new), f'{what}: tags of new variables', new)
    titles = [v[1] for v in now]
    for name, value in zip(('Language', 'Country'), locale or (None, None)):
        found = [v for v in now if v[1] == name]
        if locale:
            expect_eq([v[2] for v in found], [value], f'{what}: variable {name}')
    for l in langs:
        expect_eq(titles.count(f'lang={l}'), 1, f'{what}: variables beginning a passage in {l}')
        expect_eq(titles.count(f'/lang={l}'), 1, f'{what}: variables ending a passage in {l}')
    for i, t, d, __ in new:
        p = pair_of(t)
        if p:
            expect(p[1] in langs or p[1] in optional, f'{what}: variable for a language that is not used', t)
            expect_eq(d, OPEN.format(p[1]) if p[0] == 'lang=' else CLOSE, f'{what}: value of {t}')
        else:
            expect(locale and t in ('Language', 'Country'), f'{what}: unexpected variable', t, d)
    return [(i, t, d) for i, t, d, __ in now]


def check(case, ctx):
    path = ctx.path('p.yw7')
    spec = gen.blank_novel({str(i): gen.blank_scene(title='T', sceneContent=markup.render(lines)) for i, lines in enumerate(case['texts'], 1)}, characters={'1': gen.blank_world()})
    before, ids = [], iter(case['ids'])
    for kind, value in case['vars']:
        if kind == 'pair':
            before += [(next(ids), f'lang={value}', OPEN.format(value)), (next(ids), f'/lang={value}', CLOSE)]
        else:
            before.append((next(ids), kind, value))
    yw7.write(path, spec, {**(dict(projectvars=before) if before or case['section'] else {}), 'projectfields': list(case['fields'].items())})
    settings = {k: v for k, v in case['vars'] if k in ('Language', 'Country')}
    lang = settings.get('Language') or case['fields'].get('Field_LanguageCode')
    country = settings.get('Country') or case['fields'].get('Field_CountryCode')
    if settings.get('Language') == '':      # there is a variable with an empty value
        lang = None
    if settings.get('Country') == '':
        country = None
    with p20.system_locale(case['env']):
        for step, op in enumerate(case['steps']):
            what = f'step {step} {op[0]}'
            f, novel = model.load(path)
            expect_eq((novel.languageCode or None, novel.countryCode or None), (lang or None, country or None), f'{what}: language read from the file')
            if op[0] == 'convert':
                doc = roundtrip.export(path, op[1])
                fixed = op[1] in ('_manuscript', '_proof')
                if fixed and op[2]:
                    lo.set_language(doc, *op[2])
                    lang, country = op[2]
                    ctx.label('language of the document')
                roundtrip.bring_back(doc)
                novel = model.load(path)[1]
            else:
                fixed = False
                if op[0] == 'set':
                    novel.languageCode, novel.countryCode = lang, country = op[1], op[2]
                elif op[0] == 'edit':
                    scene = novel.scenes[str(1 + op[1] % len(novel.scenes))]
                    scene.sceneContent = markup.render(op[2])
                f.write()
            langs = used(novel)
            known = [p[1] for p in (pair_of(v[1]) for v in before) if p]
            if fixed or lang or country or langs or known:
                lang, country = p20.want_locale(lang, country, case['env'])
                locale = (lang, country)
            else:
                locale = None
            before = compare(path, before, locale, langs, known, what)
            root = ET.parse(path).getroot()
            fields = root.find('PROJECT/Fields')
            expect(fields is None or not any(x.tag in ('Field_LanguageCode', 'Field_CountryCode') and x.text for x in fields), f'{what}: language fields of older versions remain')
            ctx.label(op[0])
            ctx.label('no locale', locale is None)
            ctx.label('passages', bool(langs))
    others = [v for v in case['vars'] if v[0] not in ('Language', 'Country', 'pair')]
    ctx.label('fields of older versions', bool(case['fields']))
    ctx.nontrivial(bool(langs and others) or bool(case['vars'] and (not settings.get('Language') or len(settings['Language']) != 2)))


def strategy():
    from hypothesis import strategies as st
    codes = ['de-DE', 'fr-CH', 'en-US', 'eo', 'pt-BR', 'de-AT', 'de']
    text = st.one_of(st.just([[False, [['t', 'x']]]]), markup.content(langs=('de-DE', 'fr-CH', 'de-AT'), raw=False), markup.content(langs=('en-US', 'eo', 'pt-BR', 'de', 'en-GB'), raw=False)).map(lambda x: p21.fit({'1': x})['1'])
    lang = st.sampled_from([None, '', 'en', 'de', 'fr', 'x', 'deu', 'zxx', 'English'])
    country = st.sampled_from([None, '', 'US', 'DE', 'CH', 'none', 'Germany', 'X'])
    good = st.tuples(st.sampled_from(['en', 'de', 'pt']), st.sampled_from(['US', 'DE', 'BR']))
    default = st.sampled_from([None, None, ['it', 'IT'], ['pl', 'PL'], ['it', 'CH'], ['ia', 'none']])
    names = ['Version', 'lang', 'Languages', 'Countryside', 'language', 'lng=de-DE', '', 'X lang=de-DE', 'R&D']
    other = st.tuples(st.sampled_from(names), st.one_of(st.none(), gen.title()))

    @st.composite
    def make(draw):
        l, c = draw(st.one_of(good, st.tuples(lang, country)))
        vs = [[k, v] for k, v in draw(st.lists(other, max_size=3))]
        if draw(gen.BOOL):
            vs.append(['Language', l])
        if draw(gen.BOOL):
            vs.append(['Country', c])
        vs += [['pair', x] for x in draw(st.lists(st.sampled_from(codes), unique=True, max_size=2))]
        vs = draw(st.permutations(vs))
        fields = {}
        if draw(st.sampled_from([True, False, False, False])):
            fields = {'Field_LanguageCode': draw(st.sampled_from(['de', 'en', 'x'])), 'Field_CountryCode': draw(st.sampled_from(['AT', 'GB', 'none']))}
        step = st.one_of(st.just(['save']), st.tuples(st.just('convert'), st.sampled_from(DOCS), default).map(list), st.tuples(st.just('convert'), st.sampled_from(DOCS[:2]), default).map(list),
                         st.tuples(st.just('edit'), st.integers(0, 3), text).map(list), st.tuples(st.just('set'), lang.filter(bool), country).map(list), st.builds(lambda g: ['set', *g], good))
        ids = draw(st.permutations([str(i) for i in range(1, 15)]))
        return dict(texts=draw(st.lists(text, min_size=1, max_size=3)), vars=vs, fields=fields, section=draw(gen.BOOL), ids=ids, env=draw(st.sampled_from(list(p20.ENVS))),
                    steps=draw(st.lists(step, min_size=2, max_size=6)))
    return make()


def new(case, ctx):
    path = ctx.path('p.odt')
    d = lo.Document(case['seed'], case['language'], 'T', None, None)
    d.heading(1, 'Chapter')
    want = []
    for lines in case['texts']:
        d.heading(2, 'Next')
        d.body.extend(lo.rich(markup.expected(lines, notes=True, raw=False), d.rng, d.styles))
        want += [l for l in markup.languages(lines) if l not in want]
    d.save(path)
    target = ctx.path('p.yw7')
    before = []
    for step in range(3):
        if step:
            f, novel = model.load(target)
            f.write()
        else:
            roundtrip.bring_back(path)
        novel = model.load(target)[1]
        langs = used(novel)
        expect(set(langs) <= set(want), 'languages that the document does not use', langs, want)
        before = compare(target, before, p20.want_locale(*case['language'], 'en_US.UTF-8'), langs, (), f'save {step}')
        expect_eq(len(before), 2 + 2 * len(langs), f'save {step}: number of project variables')
    ctx.nontrivial(bool(langs))
    ctx.label('several', len(langs) > 1)


def new_strategy():
    from hypothesis import strategies as st
    return st.fixed_dictionaries(dict(texts=st.lists(markup.content(langs=('de-DE', 'fr-CH', 'eo', 'de-AT', 'de'), raw=False).map(lambda x: p21.fit({'1': x})['1']), min_size=1, max_size=3),
                                      language=st.sampled_from([('en', 'US'), ('de', 'DE'), ('zxx', 'none')]), seed=st.integers(0, 10 ** 6)))


PARTS = [Part('histories', strategy, check, quick=600, thorough=12000), Part('new projects', new_strategy, new, quick=250, thorough=4000)]
