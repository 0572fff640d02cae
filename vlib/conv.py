"""Helpers for running conversions of the code under test."""
import contextlib
import io
import os
import sys

# suffix -> extension of the document types
DOCS = {'': '.odt', '_proof': '.odt', '_manuscript': '.odt', '_brf_synopsis': '.odt', '_scenes': '.odt', '_chapters': '.odt', '_parts': '.odt',
        '_characters': '.odt', '_items': '.odt', '_locations': '.odt', '_charlist': '.ods', '_loclist': '.ods', '_itemlist': '.ods',
        '_scenelist': '.ods', '_xref': '.odt', '_notes': '.odt', '_todo': '.odt'}
IMPORTABLE = ['_proof', '_manuscript', '_scenes', '_chapters', '_parts', '_characters', '_items', '_locations', '_notes', '_todo', '_charlist',
              '_loclist', '_itemlist', '_scenelist']
EXPORT = ''      # the export for printing: no suffix


def export_classes():
    """suffix -> document class, by the class constants."""
    from pywriter.converter.yw7_converter import Yw7Converter
    return {c.SUFFIX or '': c for c in Yw7Converter.EXPORT_TARGET_CLASSES}


def recorder(answer=True):
    from pywriter.ui.ui import Ui

    class Recorder(Ui):
        def __init__(self):
            super().__init__('')
            self.questions = []
            self.messages = []
            self.warnings = []

        def ask_yes_no(self, text):
            self.questions.append(text)
            return answer(text) if callable(answer) else answer

        def set_info_how(self, message):
            super().set_info_how(message)
            self.messages.append(message)

        def show_warning(self, message):
            self.warnings.append(message)
    return Recorder()


def convert(path, suffix=None, answer=True, cls=None, converter=None, **kw):
    """Run a conversion as an application does; return (converter, ui)."""
    from pywriter.converter.yw7_converter import Yw7Converter
    c = converter or (cls or Yw7Converter)()
    c.ui = recorder(answer)
    if suffix is not None:
        kw['suffix'] = suffix
    with contextlib.redirect_stderr(io.StringIO()):
        c.run(path, **kw)
    return c, c.ui


def direct(path, suffix, answer, converter):
    """Export from or import into a project by a call of the conversion method itself; return (converter, ui)."""
    c = converter
    c.ui = recorder(answer)
    if path.endswith('.yw7'):
        source, __ = c.exportSourceFactory.make_file_objects(path, suffix=suffix)
        __, target = c.exportTargetFactory.make_file_objects(path, suffix=suffix)
        run = c.export_from_yw
    else:
        source, __ = c.importSourceFactory.make_file_objects(path)
        __, target = c.importTargetFactory.make_file_objects(path, suffix=source.SUFFIX)
        run = c.import_to_yw
    with contextlib.redirect_stderr(io.StringIO()):
        run(source, target)
    return c, c.ui


def failed(ui):
    """True: the last message is an error; False: success."""
    if not ui.messages:
        return None
    return ui.messages[-1].startswith('!')


def snapshot(root):
    """All files below root with content and modification time; directories."""
    r = {}
    for base, dirs, files in os.walk(root):
        for d in dirs:
            r[os.path.relpath(os.path.join(base, d), root) + '/'] = None
        for f in files:
            p = os.path.join(base, f)
            with open(p, 'rb') as h:
                r[os.path.relpath(p, root)] = h.read()
    return r


def changed(before, after):
    return sorted(k for k in set(before) | set(after) if before.get(k, b'\0absent') != after.get(k, b'\0absent'))


def export(novel, cls, path):
    """Write a document with the given class; return the path."""
    d = cls(path)
    d.novel = novel
    d.write()
    return path
