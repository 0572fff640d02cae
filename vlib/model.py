"""Conversion between case specifications (dicts) and the model objects of the code under test."""
import copy

SCENE_ATTRS = ['title', 'desc', 'sceneContent', 'scType', 'doNotExport', 'status', 'notes', 'tags', 'field1', 'field2', 'field3', 'field4',
               'appendToPrev', 'date', 'time', 'day', 'lastsDays', 'lastsHours', 'lastsMinutes', 'isReactionScene', 'isSubPlot', 'goal',
               'conflict', 'outcome', 'image', 'characters', 'locations', 'items', 'scnArcs', 'scnMode']
CHAPTER_ATTRS = ['title', 'desc', 'chLevel', 'chType', 'suppressChapterTitle', 'suppressChapterBreak', 'isTrash', 'srtScenes']
WORLD_ATTRS = ['title', 'desc', 'image', 'aka', 'tags']
CHAR_ATTRS = WORLD_ATTRS + ['notes', 'bio', 'goals', 'fullName', 'isMajor']
NOVEL_ATTRS = ['title', 'desc', 'authorName', 'authorBio', 'fieldTitle1', 'fieldTitle2', 'fieldTitle3', 'fieldTitle4', 'wordTarget',
               'wordCountStart']
WORLD_KW = ['Field_Link']
CHAR_KW = ['Field_Link', 'Field_BirthDate', 'Field_DeathDate']


def to_novel(spec):
    from pywriter.model.novel import Novel
    from pywriter.model.chapter import Chapter
    from pywriter.model.scene import Scene
    from pywriter.model.character import Character
    from pywriter.model.world_element import WorldElement
    from pywriter.model.basic_element import BasicElement
    spec = copy.deepcopy(spec)
    n = Novel()
    for a in NOVEL_ATTRS + ['languageCode', 'countryCode']:
        setattr(n, a, spec.get(a))
    for i, d in spec['scenes'].items():
        s = n.scenes[i] = Scene()
        for a in SCENE_ATTRS:
            if a == 'sceneContent' and d[a] is None:
                continue
            if a in d:
                setattr(s, a, d[a])
    for i in spec['srtChapters']:
        c = n.chapters[i] = Chapter()
        n.srtChapters.append(i)
        for a in CHAPTER_ATTRS:
            setattr(c, a, spec['chapters'][i][a])
    for key, cls, attrs, target in (('characters', Character, CHAR_ATTRS, 'srtCharacters'), ('locations', WorldElement, WORLD_ATTRS, 'srtLocations'),
                                    ('items', WorldElement, WORLD_ATTRS, 'srtItems')):
        for i in spec[target]:
            w = cls()
            getattr(n, key)[i] = w
            getattr(n, target).append(i)
            for a in attrs:
                setattr(w, a, spec[key][i].get(a))
            w.kwVar.update(spec[key][i].get('kwVar', {}))
    for i in spec['srtPrjNotes']:
        p = n.projectNotes[i] = BasicElement()
        n.srtPrjNotes.append(i)
        p.title = spec['projectNotes'][i]['title']
        p.desc = spec['projectNotes'][i]['desc']
    return n


def _n(v):
    """None, '' and [] all mean: nothing."""
    if v in (None, '', [], False):
        return None
    return v


def norm_scene(d, chtype=0):
    r = {a: _n(d.get(a)) for a in SCENE_ATTRS}
    r['scType'] = d.get('scType') or 0
    if chtype:
        r['scType'] = chtype
    r['scnMode'] = d.get('scnMode') or None
    return r


def norm_spec(spec, languages=True):
    """Normal form of a specification: what a saved project can represent."""
    r = {a: _n(spec.get(a)) for a in NOVEL_ATTRS}
    r['wordTarget'] = spec.get('wordTarget')
    r['wordCountStart'] = spec.get('wordCountStart')
    chtypes = {s: c.get('chType') or 0 for c in spec['chapters'].values() for s in c['srtScenes']}
    r['scenes'] = {i: norm_scene(d, chtypes.get(i, 0)) for i, d in spec['scenes'].items()}
    r['srtChapters'] = list(spec['srtChapters'])
    r['chapters'] = {}
    for i in spec['srtChapters']:
        d = spec['chapters'][i]
        r['chapters'][i] = {a: _n(d.get(a)) for a in CHAPTER_ATTRS}
        r['chapters'][i]['chLevel'] = d.get('chLevel') or 0
        r['chapters'][i]['chType'] = d.get('chType') or 0
        if (d.get('title') or '').startswith('@'):
            r['chapters'][i]['suppressChapterTitle'] = True
    for key, attrs, kw, srt in (('characters', CHAR_ATTRS, CHAR_KW, 'srtCharacters'), ('locations', WORLD_ATTRS, WORLD_KW, 'srtLocations'),
                                ('items', WORLD_ATTRS, WORLD_KW, 'srtItems')):
        r[srt] = list(spec[srt])
        r[key] = {}
        for i in spec[srt]:
            d = spec[key][i]
            r[key][i] = {a: _n(d.get(a)) for a in attrs}
            for k in kw:
                r[key][i][k] = _n(d.get('kwVar', {}).get(k))
    r['srtPrjNotes'] = list(spec['srtPrjNotes'])
    r['projectNotes'] = {i: {a: _n(spec['projectNotes'][i].get(a)) for a in ('title', 'desc')} for i in spec['srtPrjNotes']}
    return r


def from_novel(n):
    """The specification of a novel object (same shape as generated)."""
    r = {a: getattr(n, a) for a in NOVEL_ATTRS + ['languageCode', 'countryCode', 'languages']}
    r['scenes'] = {i: {a: copy.copy(getattr(s, a)) for a in SCENE_ATTRS} for i, s in n.scenes.items()}
    r['srtChapters'] = list(n.srtChapters)
    r['chapters'] = {i: {a: copy.copy(getattr(n.chapters[i], a)) for a in CHAPTER_ATTRS} for i in n.srtChapters}
    for key, attrs, kw, srt in (('characters', CHAR_ATTRS, CHAR_KW, 'srtCharacters'), ('locations', WORLD_ATTRS, WORLD_KW, 'srtLocations'),
                                ('items', WORLD_ATTRS, WORLD_KW, 'srtItems')):
        r[srt] = list(getattr(n, srt))
        r[key] = {}
        for i in r[srt]:
            e = getattr(n, key)[i]
            r[key][i] = {a: copy.copy(getattr(e, a)) for a in attrs}
            r[key][i]['kwVar'] = {k: e.kwVar.get(k) for k in kw}
    r['srtPrjNotes'] = list(n.srtPrjNotes)
    r['projectNotes'] = {i: {a: getattr(n.projectNotes[i], a) for a in ('title', 'desc')} for i in n.srtPrjNotes}
    return r


def diff(got, want, path=''):
    """First difference between two nested structures, as text (None if equal)."""
    if isinstance(got, dict) and isinstance(want, dict):
        for k in list(want) + [k for k in got if k not in want]:
            if k not in got:
                return f'{path}/{k}: missing, expected {want[k]!r:.300}'
            if k not in want:
                return f'{path}/{k}: unexpected {got[k]!r:.300}'
            d = diff(got[k], want[k], f'{path}/{k}')
            if d:
                return d
        return None
    if got != want:
        return f'{path}: got {got!r:.800}, expected {want!r:.800}'
    return None


def load(path, cls=None):
    """Read a project file into a fresh novel; return (file, novel)."""
    from pywriter.model.novel import Novel
    from pywriter.yw.yw7_file import Yw7File
    f = (cls or Yw7File)(path)
    f.novel = Novel()
    f.read()
    return f, f.novel


def save(path, novel, cls=None):
    from pywriter.yw.yw7_file import Yw7File
    f = (cls or Yw7File)(path)
    f.novel = novel
    f.write()
    return f
