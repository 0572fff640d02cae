"""Generators for case specifications (plain JSON-able values)."""
import copy
import functools

from hypothesis import strategies as st

cache = functools.lru_cache(maxsize=None)

# ---------------------------------------------------------------- plain text
WORDS = ['a', 'I', 'the', 'night', 'Tür', 'naïve', "can't", 'well-known', 'Ω', '日本', '😀', 'end', 'Mr.', '3', '42', 'Jane', 'x_y']
PUNCT = ['.', ',', '!', '?', ':', ';', '-', '–', '—', '…', '"', "'", '“', '”', '’', '(', ')', '*', '#', '+', '=', '_', '~', '^', '`']
NASTY = ['&', '<', '>', '|', '[', ']', '/', '\\', '%', '$', '{', '}', '@', '&amp;', '&lt;', '&#65;', '&copy;', ']]>', '<b>', '</Title>',
         '<![CDATA[', '$Title', '${ID}', '%s', '{0}', '"', '\\1', '\\n', '\u00a0', '\u2028', '\u200b', '\x7f', '\x9f']


def _join(parts):
    return ''.join(parts)


@cache
def chunks(extra=(), nasty=True, newline=True, space=True):
    pool = WORDS * 3 + PUNCT + (NASTY if nasty else []) + list(extra) * 2
    if space:
        pool = pool + [' '] * (len(pool) // 3)
    if newline:
        pool = pool + ['\n'] * (len(pool) // 8)
    return st.sampled_from(pool)


XMLCHAR = st.characters(blacklist_categories=('Cs', 'Cc', 'Cn'), blacklist_characters='\ufffe\uffff')


@cache
def text(max_parts=8, multiline=True, nasty=True, wild=True, extra=()):
    """Any text a project field can hold (XML characters, no carriage returns)."""
    t = st.lists(chunks(extra, nasty, multiline), max_size=max_parts).map(_join)
    if wild:
        t = st.one_of(t, t, t, st.text(XMLCHAR, max_size=8))
    if multiline:
        t = st.tuples(t, st.sampled_from([1] * 59 + [30])).map(lambda x: x[0] * x[1])       # a long text
    return t


@cache
def line(max_parts=6, nasty=True, wild=False, extra=()):
    """One line, without surrounding blanks; may be empty."""
    t = st.lists(chunks(extra, nasty, False), max_size=max_parts).map(_join)
    if wild:
        t = st.one_of(t, t, st.text(XMLCHAR, max_size=6))
    return t.map(strip1)


def strip1(s):
    return ' '.join(s.split())


@cache
def title(nasty=True):
    """A non-empty single-line title."""
    return line(5, nasty).map(lambda s: s or 'Title').map(lambda s: s if not s.startswith('@') else 'x' + s)


@cache
def opt(s):
    return st.one_of(st.none(), s, s)


@cache
def maybe(strategy, p_none=1):
    return st.one_of(*([st.none()] * p_none + [strategy] * 2))


LEGACY = st.one_of(st.booleans(), st.lists(st.sampled_from(['BelongsToChID', 'SortOrder', 'RTFFile', 'WordCount', 'LetterCount']), unique=True, min_size=1, max_size=4))

TAGCHARS = st.one_of(st.sampled_from(['tag', 'A&B', 'tag two', '<x>', 'Über', "o'clock", '"q"', 'a|b', 'a/b', '$t', '#1', 'x']),
                     line(3).map(lambda s: s.replace(';', '').strip()))


@cache
def tags():
    return st.lists(TAGCHARS.map(lambda s: s or 't'), max_size=3, unique=True)


@cache
def ids(min_size, max_size, hi=40):
    return st.lists(st.integers(1, hi + len(LARGE_IDS)).map(lambda i: str(i) if i <= hi else LARGE_IDS[i - hi - 1]), min_size=min_size, max_size=max_size, unique=True)


LARGE_IDS = ['100', '101', '1000', '1234', '12345', '10000000000']


DATE = st.dates().map(lambda d: d.isoformat())
TIME = st.tuples(st.integers(0, 23), st.integers(0, 59), st.integers(0, 59)).map(lambda t: '%02d:%02d:%02d' % t)
HM = st.tuples(st.integers(0, 23), st.integers(0, 59)).map(lambda t: '%02d:%02d:00' % t)


@cache
@st.composite
def when(draw):
    k = draw(sampled('none', 'none', 'date', 'day', 'daytime', 'time'))
    d = dict(date=None, time=None, day=None)
    if k == 'date':
        d.update(date=draw(DATE), time=draw(TIME))
    elif k == 'day':
        d.update(day=str(draw(ints(-20, 400))))
    elif k == 'daytime':
        d.update(day=str(draw(ints(-20, 400))), time=draw(HM))
    elif k == 'time':
        d.update(time=draw(HM))
    return d


SMALLNUM = st.integers(0, 99).map(str)


@cache
def sampled(*xs):
    return st.sampled_from(xs)


@cache
def ints(a, b):
    return st.integers(a, b)


@cache
def nums(a, b):
    return st.integers(a, b).map(str)


@cache
def one_of(*xs):
    return st.one_of(*xs)


BOOL = st.booleans()


@st.composite
def scene(draw, content=None, chars=(), locs=(), items=(), field=None, ttl=None):
    f = text() if field is None else field
    t = one_of(title(), line()) if ttl is None else ttl
    s = dict(
        title=draw(opt(t)), desc=draw(opt(f)), sceneContent=draw(content if content is not None else text(12)),
        scType=draw(sampled(0, 0, 0, 1, 2, 3)), doNotExport=draw(BOOL),
        status=draw(sampled(1, 2, 3, 4, 5, None)), notes=draw(opt(f)), tags=draw(maybe(tags())),
        field1=draw(maybe(nums(1, 10))), field2=draw(maybe(nums(1, 10))),
        field3=draw(maybe(nums(1, 10))), field4=draw(maybe(nums(1, 10))),
        appendToPrev=draw(BOOL),
        lastsDays=draw(maybe(SMALLNUM)), lastsHours=draw(maybe(SMALLNUM)), lastsMinutes=draw(maybe(SMALLNUM)),
        isReactionScene=draw(BOOL), isSubPlot=draw(BOOL),
        goal=draw(opt(f)), conflict=draw(opt(f)), outcome=draw(opt(f)), image=draw(opt(line())),
        characters=draw(subset(chars)), locations=draw(subset(locs)), items=draw(subset(items)),
        scnArcs=draw(maybe(line())), scnMode=draw(maybe(ints(0, 3))))
    s.update(draw(when()))
    return s


def subset(xs):
    return _subset(tuple(xs))


@cache
def _subset(xs):
    if not xs:
        return st.none()
    return st.one_of(st.none(), st.lists(st.sampled_from(xs), unique=True, max_size=4))


@st.composite
def world(draw, field=None, ttl=None, char=False):
    f = text() if field is None else field
    t = title() if ttl is None else ttl
    d = dict(title=draw(t), desc=draw(opt(f)), image=draw(maybe(line())), aka=draw(opt(line())), tags=draw(maybe(tags())),
             kwVar={'Field_Link': draw(maybe(line()))})
    if char:
        d.update(notes=draw(opt(f)), bio=draw(opt(f)), goals=draw(opt(f)), fullName=draw(opt(line())), isMajor=draw(BOOL))
        d['kwVar'].update(Field_BirthDate=draw(maybe(line())), Field_DeathDate=draw(maybe(line())))
    return d


@st.composite
def chapter(draw, field=None, ttl=None):
    f = text() if field is None else field
    t = one_of(title(), line()) if ttl is None else ttl
    return dict(title=draw(opt(t)), desc=draw(opt(f)), chLevel=draw(sampled(0, 0, 1)), chType=draw(sampled(0, 0, 0, 1, 2, 3)),
                suppressChapterTitle=draw(BOOL), suppressChapterBreak=draw(BOOL), isTrash=draw(sampled(False, False, False, True)))


LANGS = ['de-DE', 'de-AT', 'en-US', 'fr-FR', 'fr-CH', 'pt-BR', 'eo', 'en-GB', 'es-419']


@st.composite
def novel(draw, max_ch=4, max_sc=6, max_w=3, content=None, field=None, ttl=None, wfield=None, wttl=None, min_ch=0, min_sc=0, mapscene=None, mapchapter=None, orphans=False):
    """A complete project, as a dict; orphans are scenes that belong to no chapter."""
    f = text() if field is None else field
    t = one_of(title(), line()) if ttl is None else ttl
    n = dict(title=draw(opt(t)), desc=draw(opt(f)), authorName=draw(opt(line() if ttl is None else ttl)), authorBio=draw(opt(f)),
             fieldTitle1=draw(opt(line(2))), fieldTitle2=draw(opt(line(2))), fieldTitle3=draw(opt(line(2))), fieldTitle4=draw(opt(line(2))),
             wordTarget=draw(maybe(ints(0, 10 ** 6))), wordCountStart=draw(maybe(ints(0, 10 ** 6))))
    lang = draw(sampled(None, ('en', 'US'), ('de', 'DE'), ('fr', 'CA')))
    n['languageCode'], n['countryCode'] = lang if lang else (None, None)
    for key, char in (('characters', True), ('locations', False), ('items', False)):
        wi = draw(ids(0, max_w))
        n[key] = {i: draw(world(field if wfield is None else wfield, wttl, char)) for i in wi}
        n['srt' + key.capitalize()] = wi
    pn = draw(ids(0, 2))
    n['projectNotes'] = {i: dict(title=draw(t), desc=draw(opt(f))) for i in pn}
    n['srtPrjNotes'] = pn
    sids = draw(ids(min_sc, max_sc))
    n['scenes'] = {i: draw(scene(content, n['srtCharacters'], n['srtLocations'], n['srtItems'], field, ttl)) for i in sids}
    cids = draw(ids(max(min_ch, 1 if sids else 0), max_ch))
    n['chapters'] = {i: draw(chapter(field, ttl)) for i in cids}
    n['srtChapters'] = cids
    for c in n['chapters'].values():
        c['srtScenes'] = []
    for s in sids:
        if orphans and draw(ints(0, 9)) == 9:
            continue
        n['chapters'][draw(sampled(*cids))]['srtScenes'].append(s)
    k = draw(sampled(*[0] * 39, 1, 2, 3))
    if k:
        inflate(n, *((12, 14, 12, 0), (15, 40, 0, 12), (25, 110, 70, 0))[k - 1], orphans)
    if draw(ints(0, 5)) == 5:
        echo(draw, n)
    if draw(ints(0, 7)) == 7:
        # story-world elements and notes without a title
        for key in ('characters', 'locations', 'items', 'projectNotes'):
            for e in n[key].values():
                if draw(BOOL):
                    e['title'] = draw(sampled(None, None, ''))
    if mapscene:
        for s in n['scenes'].values():
            mapscene(s)
    if mapchapter:
        for c in n['chapters'].values():
            mapchapter(c)
    return n


@st.composite
def project(draw, **kw):
    """A complete project which may also have scenes, but no chapters."""
    n = draw(novel(**kw))
    if draw(ints(0, 24)) == 24:
        n['chapters'], n['srtChapters'] = {}, []
    return n


def echo(draw, n):
    """Repeat values: in another attribute of the same kind, or in another element."""
    for key, pairs in (('scenes', [('goal', 'outcome'), ('goal', 'conflict'), ('desc', 'notes'), ('field1', 'field2'), ('lastsHours', 'lastsMinutes')]),
                       ('characters', [('aka', 'fullName'), ('desc', 'notes'), ('bio', 'goals'), ('title', 'fullName'), ('title', 'aka')]),
                       ('locations', [('title', 'aka')]), ('items', [('title', 'aka')]), ('chapters', []), ('projectNotes', [])):
        elements = list(n[key].values())
        if not elements or draw(BOOL):
            continue
        if len(elements) > 1 and draw(BOOL):
            a, b = elements[0], elements[-1]
            for attr in draw(sampled(('title',), ('desc',), ('title', 'desc'))):
                b[attr] = a[attr]
        if pairs:
            a, b = draw(sampled(*pairs))
            for e in elements:
                if e[a] is not None:
                    e[b] = e[a]


def inflate(n, chapters, scenes, world, notes, orphans=False):
    """Make a project large, with variants of the elements it has."""
    def more(elements, number, order=None):
        made, sources, i = [], list(elements.values()), 0
        while sources and len(elements) < number:
            i += 1
            if str(i) not in elements:
                e = copy.deepcopy(sources[len(elements) % len(sources)])
                if e['title']:
                    e['title'] += f' {i}'
                elements[str(i)] = e
                made.append(str(i))
        if order is not None:
            order += made
        return made

    for key in ('characters', 'locations', 'items'):
        more(n[key], world, n['srt' + key.capitalize()])
    more(n['projectNotes'], notes, n['srtPrjNotes'])
    for c in more(n['chapters'], chapters, n['srtChapters']):
        n['chapters'][c]['srtScenes'] = []
    for i, s in enumerate(more(n['scenes'], scenes)):
        if not (orphans and i % 40 == 39):
            n['chapters'][n['srtChapters'][i * 7 % len(n['srtChapters'])]]['srtScenes'].append(s)


def shown(draw, n, kind=0, level=None):
    """Make sure that, in most of the cases, documents contain something."""
    cids = [c for c in n['srtChapters'] if n['chapters'][c]['srtScenes']]
    if cids and draw(sampled(True, True, True, False)):
        c = n['chapters'][cids[draw(ints(0, 9)) % len(cids)]]
        c.update(chType=kind, isTrash=False)
        if level is not None:
            c['chLevel'] = level
        for i in c['srtScenes'][:1 + draw(ints(0, 3))]:
            n['scenes'][i].update(scType=kind, doNotExport=False)


def blank_scene(**kw):
    s = dict.fromkeys(['title', 'desc', 'notes', 'tags', 'field1', 'field2', 'field3', 'field4', 'lastsDays', 'lastsHours', 'lastsMinutes', 'goal', 'conflict', 'outcome', 'image',
                       'characters', 'locations', 'items', 'scnArcs', 'scnMode', 'date', 'time', 'day'])
    s.update(sceneContent='', scType=0, doNotExport=False, status=1, appendToPrev=False, isReactionScene=False, isSubPlot=False)
    s.update(kw)
    return s


def blank_world(**kw):
    d = dict(title='E', desc=None, image=None, aka=None, tags=None, kwVar={}, notes=None, bio=None, goals=None, fullName=None, isMajor=False)
    d.update(kw)
    return d


def blank_chapter(scenes=(), **kw):
    d = dict(title='C', desc=None, chLevel=0, chType=0, suppressChapterTitle=False, suppressChapterBreak=False, isTrash=False, srtScenes=list(scenes))
    d.update(kw)
    return d


def same_neighbours(draw, elements, attrs):
    """Give some elements equal values in adjacent columns."""
    if draw(ints(0, 2)):
        return
    for e in elements:
        k = draw(ints(0, len(attrs) - 1))
        for a in attrs[k:k + draw(ints(2, 4))]:
            e[a] = draw(sampled('same', 'same', '5', 'x y'))


def blank_novel(scenes=None, chapters=None, characters=None, locations=None, items=None, **kw):
    n = dict.fromkeys(['title', 'desc', 'authorName', 'authorBio', 'fieldTitle1', 'fieldTitle2', 'fieldTitle3', 'fieldTitle4', 'wordTarget', 'wordCountStart', 'languageCode', 'countryCode'])
    n['languageCode'], n['countryCode'] = 'en', 'US'
    n['scenes'] = scenes or {}
    n['chapters'] = chapters if chapters is not None else ({'1': blank_chapter(n['scenes'])} if n['scenes'] else {})
    n['srtChapters'] = list(n['chapters'])
    for k, v in (('characters', characters), ('locations', locations), ('items', items)):
        n[k] = v or {}
        n['srt' + k.capitalize()] = list(n[k])
    n['projectNotes'] = {}
    n['srtPrjNotes'] = []
    n.update(kw)
    return n


@cache
def multiline(extra=(), min_lines=2, max_lines=4):
    """Text of several lines."""
    part = st.lists(chunks(extra, True, False), min_size=1, max_size=5).map(_join)
    return st.lists(st.tuples(part, st.sampled_from(['\n', '\n', '\n\n', '\n\n', '\n\n\n'])).map(_join), min_size=min_lines, max_size=max_lines).map(_join).flatmap(
        lambda t: st.sampled_from([t.rstrip('\n'), t.rstrip('\n'), t, '\n' + t]))
