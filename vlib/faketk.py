"""A simulated tkinter: widgets keep their options, dialogs answer as told."""
import sys
import types

LOG = []  # calls of the message boxes and file dialogs: (name, args, kwargs)
ANSWERS = {}  # name -> what the dialog returns
QUIT = []


class Widget:
    defaults = dict(background='grey', font='TkDefaultFont')

    def __init__(self, master=None, **kw):
        if master is None and not isinstance(self, Tk) and Tk.instances:
            master = Tk.instances[-1]
        self.master = master
        self.options = dict(self.defaults, **kw)
        self.binds = {}
        self.children_ = []
        if isinstance(master, Widget):
            master.children_.append(self)

    def config(self, **kw):
        if 'bg' in kw:
            kw['background'] = kw.pop('bg')
        if 'fg' in kw:
            kw['foreground'] = kw.pop('fg')
        self.options.update(kw)
        return dict(self.options)

    configure = config

    def cget(self, key):
        return self.options[dict(bg='background', fg='foreground').get(key, key)]

    def __getitem__(self, key):
        return self.cget(key)

    def __setitem__(self, key, value):
        self.config(**{key: value})

    def bind(self, sequence, fn, *a):
        self.binds[sequence] = fn

    def pack(self, *a, **kw):
        pass

    grid = place = pack

    def destroy(self):
        pass

    def __getattr__(self, name):
        # methods of the toolkit that have no effect here
        if name.startswith('_'):
            raise AttributeError(name)
        return lambda *a, **kw: None

    def pack_info(self):
        return {}

    def set(self, *a):
        pass


class Tk(Widget):
    instances = []

    def __init__(self, *a, **kw):
        super().__init__()
        self.protocols = {}
        self.text = ''
        self.geo = '100x100+0+0'
        self.looped = 0
        Tk.instances.append(self)

    def title(self, text=None):
        if text is None:
            return self.text
        self.text = text

    def geometry(self, g=None):
        if g is None:
            return self.geo
        self.geo = g

    def winfo_geometry(self):
        return self.geo

    def protocol(self, name, fn):
        self.protocols[name] = fn

    def mainloop(self, *a):
        self.looped += 1

    def quit(self):
        QUIT.append(self)

    def minsize(self, *a, **kw):
        pass

    resizable = withdraw = iconphoto = minsize


class Menu(Widget):
    def __init__(self, master=None, **kw):
        super().__init__(master, **kw)
        self.entries = []

    def add_command(self, **kw):
        self.entries.append(dict(dict(state='normal'), **kw))

    add_cascade = add_command

    def add_separator(self, **kw):
        self.entries.append({})

    def entry(self, key):
        if isinstance(key, int):
            return self.entries[key]
        return next(e for e in self.entries if e.get('label') == key)

    def entryconfig(self, key, **kw):
        self.entry(key).update(kw)

    entryconfigure = entryconfig


def _dialog(name, default):
    def fn(*a, **kw):
        if name.startswith(('ask', 'show')) and not name.endswith(('name', 'directory')):
            a = (a[0] if a else kw.get('title'), a[1] if len(a) > 1 else kw.get('message'))
        LOG.append((name, a, kw))
        r = ANSWERS.get(name, default)
        return r(*a, **kw) if callable(r) else r
    return fn


def install():
    """Put the simulation in the place of tkinter."""
    tk = types.ModuleType('tkinter')
    tk.simulated = True
    tk.Tk, tk.Menu, tk.Widget = Tk, Menu, Widget
    for n in ('Frame', 'Label', 'Button', 'Text', 'PhotoImage', 'Toplevel', 'Entry', 'Scrollbar', 'Canvas', 'Pack', 'Grid', 'Place', 'PanedWindow', 'StringVar'):
        setattr(tk, n, type(n, (Widget,), {}))
    for n in ('LEFT', 'RIGHT', 'BOTH', 'END', 'TOP', 'BOTTOM', 'X', 'Y', 'W', 'E', 'N', 'S'):
        setattr(tk, n, n.lower())
    mb = types.ModuleType('tkinter.messagebox')
    for n, d in dict(askyesno=False, askokcancel=False, askquestion='no', showerror='ok', showinfo='ok', showwarning='ok', askyesnocancel=None, askretrycancel=False).items():
        setattr(mb, n, _dialog(n, d))
    fd = types.ModuleType('tkinter.filedialog')
    for n in ('askopenfilename', 'asksaveasfilename', 'askdirectory'):
        setattr(fd, n, _dialog(n, ''))
    ttk = types.ModuleType('tkinter.ttk')
    for n in ('Frame', 'Label', 'Button', 'Scrollbar', 'Entry', 'Treeview', 'Notebook', 'Style'):
        setattr(ttk, n, type(n, (Widget,), {}))
    font = types.ModuleType('tkinter.font')
    tk.messagebox, tk.filedialog, tk.ttk, tk.font = mb, fd, ttk, font
    sys.modules.update({'tkinter': tk, 'tkinter.messagebox': mb, 'tkinter.filedialog': fd, 'tkinter.ttk': ttk, 'tkinter.font': font})
