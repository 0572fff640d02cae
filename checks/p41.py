"""P41: the user interfaces show what happened and what is open."""
import contextlib
import io
import os

from vlib import faketk, gen, model, yw7
from vlib.core import Part, expect, expect_eq

ID = 'P41'
LEVEL = 'exploration'
RULE = ('The window classes run on a simulated tkinter. (1) messages: generated outcome messages, questions with generated answers and warnings are passed to each of the five user interfaces; what the widgets, dialogs and streams '
        'show must be the text, as error or success. (2) application: a history of opening (existing, missing, damaged and empty names; by name, menu, key or dialog, with cancelled dialogs), closing, messages, status texts, '
        'Escape and quitting is applied to the application framework and to a model of what is open; title, path and status bar, colours, menu entries, project, novel and return value must agree after each step, and '
        'no project file may change. (3) the rich text box (bullets, formats, scroll bar) and the window icon, on the same simulation. Non-trivial: an error message, a question, or a history that opens a second project or fails to open one.')
ASSUMPTIONS = ['the toolkit behaves as the simulation does', 'white space around a message is not significant', 'colours are compared as "error" and "success" only by being different']


def faces():
    faketk.install()
    from pywriter.ui.main_tk import MainTk
    from pywriter.ui.ui import Ui
    from pywriter.ui.ui_cmd import UiCmd
    from pywriter.ui.ui_mb import UiMb
    from pywriter.ui.ui_tk import UiTk
    return dict(Ui=Ui, UiCmd=UiCmd, UiMb=UiMb, UiTk=UiTk, MainTk=MainTk)


def labels(widget):
    for w in widget.children_:
        yield w
        yield from labels(w)


def shown(root):
    """Text and colours of all labels of the window that show something."""
    return [(w.options['text'], w.options.get('background'), w.options.get('foreground')) for w in labels(root) if w.options.get('text')]


def messages(case, ctx):
    import builtins
    name = case['face']
    faketk.Tk.instances.clear()
    faketk.ANSWERS.clear()
    cls = faces()[name]
    out, err = io.StringIO(), io.StringIO()
    typed = []

    def typing(prompt=''):
        typed.append(prompt)
        return case['typed']

    old = builtins.input
    builtins.input = typing
    colours = {}
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            ui = cls(case['title'])
            root = faketk.Tk.instances[-1] if name in ('UiTk', 'MainTk') else None
            if name == 'UiCmd':
                expect_eq(out.getvalue(), case['title'] + '\n', 'title at the console')
            if root is not None:
                expect_eq(root.title(), case['title'], 'title of the window')
            for kind, text in case['steps']:
                faketk.LOG.clear()
                for s in (out, err):
                    s.seek(0)
                    s.truncate()
                what = f'{name}: {kind} {text!r}'
                if kind == 'ask':
                    faketk.ANSWERS['askyesno'] = case['yes']
                    typed.clear()
                    got = ui.ask_yes_no(text)
                    if name == 'Ui':
                        expect_eq(got, True, what)
                    elif name == 'UiCmd':
                        expect(len(typed) == 1 and text in typed[0], f'{what}: not asked', typed)
                        expect_eq(got, case['typed'] in ('y', 'Y'), f'{what}: answer {case["typed"]!r}')
                    else:
                        expect_eq([(n, a[1:]) for n, a, k in faketk.LOG], [('askyesno', (text,))], f'{what}: dialogs')
                        expect_eq(got, case['yes'], f'{what}: answer')
                    ctx.nontrivial(name != 'Ui')
                elif kind == 'warning':
                    ui.show_warning(text)
                    if name == 'UiCmd':
                        expect(text in out.getvalue(), f'{what}: not shown', out.getvalue())
                    elif name != 'Ui':
                        expect_eq([(n, a[1:]) for n, a, k in faketk.LOG], [('showwarning', (text,))], f'{what}: dialogs')
                elif kind == 'what':
                    ui.set_info_what(text)
                    if name == 'UiCmd':
                        expect_eq(out.getvalue(), text + '\n', what)
                    elif name == 'UiTk':
                        expect(not text or text in [t for t, b, f in shown(root)], f'{what}: not shown', shown(root))
                        expect_eq(ui.infoWhatText, text, what)
                    else:
                        expect_eq(ui.infoWhatText, text, what)
                else:
                    error = text.startswith('!')
                    plain = text[1:].strip() if error else text
                    ui.set_info_how(text)
                    if name in ('Ui', 'UiCmd'):
                        want = f'FAIL: {plain}' if error else text
                        expect_eq(ui.infoHowText, want, f'{what}: text')
                        stream = err if name == 'Ui' else out
                        expect_eq(stream.getvalue().rstrip('\n'), want.rstrip('\n') if error or name == 'UiCmd' else '', f'{what}: output')
                    elif name == 'UiMb':
                        expect_eq([(n, a[1:]) for n, a, k in faketk.LOG], [('showerror' if error else 'showinfo', (plain,))], f'{what}: dialogs')
                    else:
                        expect_eq(ui.infoHowText, plain, f'{what}: text')
                        if plain:
                            seen = [(b, f) for t, b, f in shown(root) if t == plain]
                            if len(seen) == 1:
                                colours.setdefault(error, set()).add(seen[0])
                            expect(seen, f'{what}: not shown', shown(root))
                    ctx.nontrivial(error)
                    ctx.label(f'{name} error', error)
            if name in ('UiTk', 'MainTk'):
                for v in colours.values():
                    expect_eq(len(v), 1, f'{name}: colours of messages {colours}')
                expect(len(colours) < 2 or colours[True] != colours[False], f'{name}: errors look like successes', colours)
                ui.start()
                expect_eq(root.looped, 1, f'{name}: main loop')
            if name == 'UiTk':
                pressed = []
                ui.show_open_button(lambda: pressed.append(1))
                new = [w for w in vars(root).values() if isinstance(w, faketk.Widget) and w.options.get('command')]
                for w in new:
                    if w.options['text'] == 'Open':
                        w.options['command']()
                expect_eq(pressed, [1], 'the open button')
    finally:
        builtins.input = old
    ctx.label(name)


def message_strategy():
    from hypothesis import strategies as st
    text = st.one_of(gen.line(6), gen.text(6), st.sampled_from(['a!b', 'b! c!', 'FAIL: x', '']))
    how = st.tuples(st.sampled_from(['', '!', '! ', '!!']), text).map(''.join)
    step = st.one_of(st.tuples(st.just('how'), how), st.tuples(st.just('how'), how), st.tuples(st.just('ask'), text), st.tuples(st.just('warning'), text), st.tuples(st.just('what'), text))
    return st.fixed_dictionaries(dict(face=st.sampled_from(['Ui', 'UiCmd', 'UiMb', 'UiTk', 'UiTk', 'MainTk', 'MainTk']), title=gen.title(nasty=False), steps=st.lists(step, min_size=2, max_size=6), yes=gen.BOOL,
                                      typed=st.sampled_from(['y', 'Y', 'n', 'N', '', 'yes', 'j', ' ', '0'])))




def application(case, ctx):
    cls = faces()['MainTk']
    faketk.Tk.instances.clear()
    faketk.LOG.clear()
    faketk.QUIT.clear()
    os.mkdir(ctx.path('a'))
    os.mkdir(ctx.path('b'))
    files = {}
    for n, spec in enumerate(case['novels']):
        p = ctx.path('ab'[n % 2], f'p{n}.yw7')
        yw7.write(p, spec)
        files[f'p{n}'] = p
    files['damaged'] = ctx.path('a', 'damaged.yw7')
    with open(files['damaged'], 'w', encoding='utf-8') as f:
        f.write('<?xml version="1.0" encoding="utf-8"?>\n<YWRITER7><PROJECT>')
    files['missing'] = ctx.path('b', 'missing.yw7')
    files[''] = ''
    data = {p: open(p, 'rb').read() for p in files.values() if os.path.isfile(p)}

    kw = {}
    if case['geometry']:
        kw['root_geometry'] = case['geometry']
    if case['last'] is not None:
        kw['yw_last_open'] = files[case['last']]
    ui = cls('The App', **kw)
    root = faketk.Tk.instances[-1]
    if case['geometry']:
        expect_eq(root.geo, case['geometry'], 'geometry of the window')
    last = kw.get('yw_last_open', '')
    is_open = None
    status = ''  # the status that Escape brings back
    shown_text = ''
    opened = failures = 0

    def verify(what):
        expect_eq(ui.statusBar.cget('text'), shown_text, f'{what}: status bar')
        expect_eq(ui.fileMenu.entry('Close')['state'], 'normal' if is_open else 'disabled', f'{what}: menu entry "Close"')
        if is_open:
            spec = case['novels'][int(is_open[1:])]
            expect_eq(root.title(), f'{spec["title"] or "Untitled project"} by {spec["authorName"] or "Unknown author"} - The App', f'{what}: title of the window')
            expect_eq(ui.pathBar.cget('text'), os.path.normpath(files[is_open]), f'{what}: path bar')
            expect(ui.prjFile is not None and os.path.samefile(ui.prjFile.filePath, files[is_open]), f'{what}: project file', ui.prjFile)
            expect(ui.prjFile.novel is ui.novel, f'{what}: the novel is not that of the project file')
            d = model.diff(model.norm_spec(model.from_novel(ui.novel)), model.norm_spec(spec))
            expect(d is None, f'{what}: the open project: {d}')
        else:
            expect_eq(root.title(), 'The App', f'{what}: title of the window')
            expect_eq(ui.pathBar.cget('text') or '', '', f'{what}: path bar')
            expect(ui.prjFile is None, f'{what}: a project is open')
        for p, b in data.items():
            with open(p, 'rb') as f:
                expect(f.read() == b, f'{what}: {os.path.basename(p)} changed')

    for spec in case['novels']:
        for c in spec['chapters'].values():
            if (c['title'] or '').startswith('@'):
                c['suppressChapterTitle'] = True
            for s in c['srtScenes']:
                if c['chType']:
                    spec['scenes'][s]['scType'] = c['chType']
    for op in case['ops']:
        k = op[0]
        what = f'step {op}'
        if k == 'open':
            name, how, answer = op[1:]
            answer = files[answer]
            asked = []

            def dialog(*a, **kws):
                asked.append(kws)
                return answer

            faketk.ANSWERS['askopenfilename'] = dialog
            if how == 'call':
                result = ui.open_project(files[name])
            else:
                name = ''
                result = None
                if how == 'menu':
                    next(e for e in ui.fileMenu.entries if e.get('label') == 'Open...')['command']()
                else:
                    root.binds['<Control-o>'](None)
            choice = files[name]
            if not choice or not os.path.isfile(choice):
                expect_eq(len(asked), 1, f'{what}: file dialogs')
                expect_eq(os.path.realpath(asked[0]['initialdir']), os.path.realpath(os.path.dirname(last) or '.'), f'{what}: directory of the dialog')
                choice = answer
            else:
                expect(not asked, f'{what}: asks for a file')
            shown_text = status
            if choice:
                last = choice
                key = next(n for n in files if files[n] == choice)
                if is_open:
                    ctx.nontrivial()
                if is_open or key in ('damaged', 'missing'):
                    status = ''
                    shown_text = ''
                is_open = key if key not in ('damaged', 'missing') else None
                if is_open:
                    opened += 1
                else:
                    failures += 1
                    ctx.nontrivial()
                    shown_text = ui.statusBar.cget('text')
                    expect(shown_text and not shown_text.startswith('!'), f'{what}: no error message', shown_text)
                expect_eq(ui.kwargs.get('yw_last_open'), choice, f'{what}: last opened file')
                if result is not None:
                    expect_eq(result, is_open is not None, f'{what}: result')
            elif result is not None:
                expect_eq(result, False, f'{what}: result')
            ctx.label(f'open {how}')
            ctx.label('cancelled', not choice)
            ctx.label('failing', choice and not is_open)
        elif k == 'close':
            if op[1]:
                ui.close_project()
            else:
                next(e for e in ui.fileMenu.entries if e.get('label') == 'Close')['command']()
            is_open = None
            status = shown_text = ''
        elif k == 'info':
            ui.set_info_how(op[1])
            shown_text = op[1][1:].strip() if op[1].startswith('!') else op[1]
        elif k == 'status':
            ui.show_status(op[1])
            status = shown_text = op[1]
        elif k == 'escape':
            root.binds['<Escape>'](None)
            shown_text = status
        elif k == 'quit':
            root.geo = op[1]
            n = len(faketk.QUIT)
            [lambda: ui.on_quit(), lambda: root.protocols['WM_DELETE_WINDOW'](), lambda: root.binds['<Control-q>'](None)][op[2]]()
            expect_eq(len(faketk.QUIT), n + 1, f'{what}: quits')
            expect_eq(ui.kwargs['root_geometry'], op[1], f'{what}: geometry')
        verify(what)
        ctx.label(k)


def application_strategy():
    from hypothesis import strategies as st

    @st.composite
    def make(draw):
        names = ['p0', 'p0', 'p1', 'p1', 'p2', 'damaged', 'missing', '']
        ops = draw(st.lists(st.one_of(
            st.tuples(st.just('open'), st.sampled_from(names), st.sampled_from(['call', 'call', 'menu', 'key']), st.sampled_from(names)),
            st.tuples(st.just('open'), st.sampled_from(names), st.sampled_from(['call', 'call', 'menu', 'key']), st.sampled_from(names)),
            st.tuples(st.just('close'), gen.BOOL), st.tuples(st.just('info'), st.tuples(st.sampled_from(['', '!']), gen.line(4)).map(''.join)), st.tuples(st.just('status'), gen.line(4)),
            st.tuples(st.just('escape')), st.tuples(st.just('quit'), st.sampled_from(['1x1+1+1', '800x600+10+10']), st.integers(0, 2))), min_size=2, max_size=10))
        last = draw(st.sampled_from([None, None, 'p0', 'p1', 'missing']))
        geometry = draw(st.sampled_from([None, '640x480+5+5']))
        novels = [draw(gen.novel(max_ch=2, max_sc=2, max_w=1, content=gen.text(4), field=gen.text(3))) for i in range(3)]
        for n in novels:
            if not draw(st.integers(0, 3)):
                n['title'] = None
            if not draw(st.integers(0, 3)):
                n['authorName'] = None
        return dict(ops=ops, last=last, geometry=geometry, novels=novels)
    return make()


class TextBox(faketk.Widget):
    """A text widget that keeps what is inserted, with tags."""

    def __init__(self, master=None, **kw):
        super().__init__(master, **kw)
        self.chars = []
        self.tags = {}

    def insert(self, index, text, *tags):
        tags = tags[0] if len(tags) == 1 and isinstance(tags[0], (tuple, list)) else tags
        at = len(self.chars) if index == 'end' else 0 if index == '1.0' else index
        self.chars[at:at] = [(ch, tuple(tags)) for ch in text]

    def tag_configure(self, tag, **kw):
        self.tags.setdefault(tag, {}).update(kw)

    tag_config = tag_configure

    def yview(self, *a):
        pass


class Font:
    def __init__(self, **kw):
        self.options = dict(dict(family='Sans', size=10, weight='normal', slant='roman'), **kw)

    def configure(self, **kw):
        self.options.update(kw)
        return dict(self.options)

    config = configure
    actual = configure

    def cget(self, k):
        return self.options[k]

    def measure(self, text):
        return 7 * len(text)


def box(case, ctx):
    import sys
    faces()
    tk = sys.modules['tkinter']
    font = sys.modules['tkinter.font']
    tk.Text = TextBox
    font.Font = Font
    font.nametofont = lambda name: Font(size=case['size'])
    tk.Pack.pack_info = faketk.Widget.pack_info
    sys.modules.pop('pywriter.ui.rich_text_tk', None)
    from pywriter.ui.rich_text_tk import RichTextTk
    faketk.Tk.instances.clear()
    root = tk.Tk()
    w = RichTextTk(root, height=case['height'])
    expect(w.frame in root.children_, 'the frame is not in the window')
    expect_eq(w.options.get('height'), case['height'], 'options')
    expect(w.options.get('yscrollcommand') and w.vbar.options.get('command'), 'the scroll bar is not connected')
    fonts = {}
    for tag in (w.H1_TAG, w.H2_TAG, w.H3_TAG, w.ITALIC_TAG, w.BOLD_TAG, w.CENTER_TAG, w.BULLET_TAG):
        expect(tag in w.tags, f'no format for {tag}', w.tags)
        f = w.tags[tag].get('font')
        fonts[tag] = f.options if f else {}
    expect(fonts[w.BOLD_TAG].get('weight') == 'bold' and fonts[w.ITALIC_TAG].get('slant') == 'italic', 'bold and italic', fonts)
    expect(fonts[w.H1_TAG]['size'] >= fonts[w.H2_TAG]['size'] >= fonts[w.H3_TAG]['size'] >= case['size'], 'sizes of headings', fonts)
    for tag in (w.H1_TAG, w.H2_TAG, w.H3_TAG):
        expect(fonts[tag].get('weight') == 'bold' or fonts[tag].get('slant') == 'italic', f'heading {tag} looks like text', fonts)
    want = []
    for index, text in case['bullets']:
        w.insert_bullet(index, text)
        new = [(ch, (w.BULLET_TAG,)) for ch in '\u2022 ' + text]
        want = want + new if index == 'end' else new + want
    expect_eq(w.chars, want, 'text with bullets')
    # the icon of a window
    icon = sys.modules['tkinter']

    class Photo(faketk.Widget):
        def __init__(self, file=None, **kw):
            with open(file, 'rb') as f:
                super().__init__(file=file, data=f.read())

    icon.PhotoImage = Photo
    sys.modules.pop('pywriter.ui.set_icon_tk', None)
    from pywriter.ui.set_icon_tk import set_icon
    os.makedirs(ctx.path('app', 'icons'))
    os.mkdir(ctx.path('other'))
    for where, name in (('app/icons', 'logo'), ('other', 'logo'), ('other', 'mark')):
        with open(ctx.path(*where.split('/'), name + '.png'), 'w') as f:
            f.write(where + name)
    got = []
    root.iconphoto = lambda default, pic: got.append((bool(default), pic.options['data'].decode()))
    old, sys.argv = sys.argv, [ctx.path('app', 'app.py')]
    try:
        name, where, default = case['icon'], case['path'], case['default']
        kw = {}
        if where:
            kw['path'] = ctx.path('other')
        if default is not None:
            kw['default'] = default
        r = set_icon(root, name, **kw)
        there = name == 'logo' or name == 'mark' and where
        expect_eq(r, bool(there), f'result of setting the icon {name} {kw}')
        expect_eq([g[1] for g in got], [('other' if where else 'app/icons') + name] if there else [], 'icons')
        if default is not None and there:
            expect_eq(got[0][0], default, 'default for other windows')
    finally:
        sys.argv = old
    ctx.nontrivial(len(case['bullets']) > 1)
    ctx.label('icon', there)


def box_strategy():
    from hypothesis import strategies as st
    return st.fixed_dictionaries(dict(size=st.integers(6, 40), height=st.integers(1, 50), bullets=st.lists(st.tuples(st.sampled_from(['end', 'end', '1.0']), gen.text(4)), max_size=4), icon=st.sampled_from(['logo', 'mark', 'none']),
                                      path=gen.BOOL, default=st.sampled_from([None, True, False])))


PARTS = [Part('messages', message_strategy, messages, quick=1500, thorough=30000), Part('application', application_strategy, application, quick=700, thorough=14000), Part('text box and icon', box_strategy, box, quick=200, thorough=3000)]
