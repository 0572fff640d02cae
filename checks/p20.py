"""P20: documents carry the project language, or none if it is unusable."""
import locale
import os

from vlib import conv, gen, markup, model, odf, yw7
from vlib.core import Part, expect, expect_eq

ID = 'P20'
LEVEL = 'exploration'
RULE = ('Projects with generated language and country codes (usable, missing, implausible), under generated system locales, with passages in generated languages, are exported to several document types one after the other from one '
        'loaded project or from separate ones; default language, automatic styles and the language of each passage are read from the documents. Non-trivial: a missing or implausible code, or a passage language.')
ASSUMPTIONS = ['codes consist of letters, digits and hyphens', 'the system language is what Python reports for the environment of the process']
ENVS = {'en_US.UTF-8': ('en', 'US'), 'de_DE.UTF-8': ('de', 'DE'), 'fr_CH.UTF-8': ('fr', 'CH'), 'C': ('zxx', 'none')}


def want_locale(lang, country, env):
    if not lang:
        return ENVS[env]
    if len(lang) == 2 and country and len(country) == 2:
        return (lang, country)
    return ('zxx', 'none')


class system_locale:
    """The environment of a program started under another locale."""

    def __init__(self, name):
        self.name = name

    def __enter__(self):
        self.env = {k: os.environ.get(k) for k in ('LC_ALL', 'LANG', 'LC_CTYPE', 'LANGUAGE')}
        for k in self.env:
            os.environ.pop(k, None)
        os.environ['LC_ALL'] = self.name
        self.old = locale.setlocale(locale.LC_ALL)
        try:
            locale.setlocale(locale.LC_ALL, self.name)
        except locale.Error:
            locale.setlocale(locale.LC_ALL, 'C')

    def __exit__(self, *a):
        locale.setlocale(locale.LC_ALL, self.old)
        for k, v in self.env.items():
            os.environ.pop(k, None)
            if v is not None:
                os.environ[k] = v


def check(case, ctx):
    lang, country = case['language'], case['country']
    texts = case['texts']
    scenes = {str(i): gen.blank_scene(title='T', sceneContent=markup.render(lines)) for i, lines in enumerate(texts, 1)}
    spec = gen.blank_novel(scenes, languageCode=lang, countryCode=country, items={'1': gen.blank_world()})
    path = ctx.path('p.yw7')
    memory = case['memory'] and not case['converter']      # set by a program, not read from the file
    yw7.write(path, dict(spec, languageCode=None, countryCode=None) if memory else spec)
    want = want_locale(lang, country, case['env'])
    known = []
    for lines in texts:
        known += [l for l in markup.languages(lines) if l not in known]
    classes = conv.export_classes()
    with system_locale(case['env']):
        novel = None
        for suffix in case['docs']:
            if novel is None or not case['reuse']:
                __, novel = model.load(path)
                if memory:
                    novel.languageCode, novel.countryCode = lang, country
            what = f'{suffix or "export"} (project language {lang!r}, {country!r}, system {case["env"]})'
            doc = ctx.path('p' + suffix + conv.DOCS[suffix])
            if case['converter']:
                __, ui = conv.convert(path, suffix)
                expect(conv.failed(ui) is False, f'{what}: export failed', ui.messages)
            else:
                conv.export(novel, classes[suffix], doc)
            if doc.endswith('.ods'):
                d = None
                __, roots = odf.archive(doc)
                langs = odf.Doc.language(type('X', (), dict(roots=roots)))
            else:
                d = odf.Doc(doc)
                langs = d.language()
            expect_eq(langs, {want}, f'{what}: default language of the document')
            if d is not None and suffix in ('', '_manuscript', '_proof'):
                styles = sorted(s for names in d.styles.values() for s in names if isinstance(s, tuple))
                expect_eq(styles, sorted(markup.locale(l) for l in known), f'{what}: language styles')
                got = {s for b in d.blocks for s in tags(b['items'])}
                wanted = set()
                for lines in texts:
                    for p in markup.expected(lines, notes=suffix == '', raw=suffix != '', known=known):
                        wanted |= tags(odf.normal(p['items']))
                expect_eq(got, wanted, f'{what}: languages of the passages')
                ctx.nontrivial(wanted)
    ctx.nontrivial(want == ('zxx', 'none') or not lang)
    ctx.label('empty code in memory', memory and lang == '')
    ctx.label('no project language', not lang)
    ctx.label('implausible', want == ('zxx', 'none') and lang)
    ctx.label('passage languages', known)
    ctx.label('system ' + case['env'])


def tags(items):
    r = set()
    for i in items:
        if i[0] in 'cx':
            r |= {s for s in i[2] or () if isinstance(s, tuple)}
        else:
            for p in i[-1]:
                r |= tags(odf.normal(p['items']))
    return r


def strategy():
    from hypothesis import strategies as st
    lang = st.sampled_from(['en', 'de', 'fr', 'zz', None, None, '', 'zxx', 'eng', 'x', 'en-US', 'deutsch'])
    country = st.sampled_from(['US', 'DE', 'CH', 'ZZ', None, '', 'none', 'USA', 'x', '419'])
    langs = st.lists(st.sampled_from(markup.GOODLANGS + ['x', 'abcd-EF', 'de-', 'de_DE', 'en-US-x', 'a b', 'de-D', 'DE-de']), min_size=1, max_size=3, unique=True)
    text = langs.flatmap(lambda l: markup.content(langs=l, max_lines=4, nasty=False))
    both = st.one_of(st.tuples(lang, country), st.sampled_from([('en', 'US'), ('de', 'CH'), (None, None), ('zxx', 'none')]))
    return st.tuples(both, st.fixed_dictionaries(dict(
        env=st.sampled_from(sorted(ENVS)), texts=st.lists(text, min_size=1, max_size=3), reuse=gen.BOOL, converter=gen.BOOL, memory=gen.BOOL,
        docs=st.lists(st.sampled_from(['', '_manuscript', '_proof'] * 3 + sorted(conv.DOCS)), min_size=1, max_size=4)))).map(lambda t: dict(t[1], language=t[0][0], country=t[0][1]))


PARTS = [Part('languages', strategy, check, quick=1200, thorough=25000)]
