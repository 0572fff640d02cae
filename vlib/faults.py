"""Fault injection at the boundary between the code under test and the operating system."""
import os
import resource
import signal

from vlib import core

MUTATING = ('open-w', 'os.rename', 'os.remove', 'os.rmdir', 'os.mkdir', 'os.truncate', 'shutil.rmtree', 'os.link', 'shutil.copyfile', 'shutil.move')


class Events:
    """Count file operations; act at the one with a given index."""

    def __init__(self, index, action, reads=True, ignore=()):
        self.index = index
        self.action = action
        self.n = 0
        self.fired = None
        self.reads = reads
        self.ignore = ignore

    def __call__(self, event, args):
        if event == 'open-r' and not self.reads:
            return
        p = args[0]
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if isinstance(p, str) and (p.endswith(('.py', '.pyc', '.mo')) or '/proc/' in p or p.startswith(core.REPO + '/') or 'zoneinfo' in p
                                   or p.startswith(('/usr', '/opt', '/etc', '/dev'))):
            return
        k = self.n
        self.n += 1
        if k == self.index:
            self.fired = event
            self.action(event, args)


def raise_oserror(event, args):
    raise OSError(5, 'injected input/output error', str(args[0]))


def raise_other(event, args):
    # what a file operation may raise besides input/output errors
    raise MemoryError('injected')


def raise_denied(event, args):
    raise PermissionError(13, 'injected: permission denied', str(args[0]))


RAISE = {'error': raise_oserror, 'memory': raise_other, 'denied': raise_denied}


def die(event, args):
    os._exit(77)


class fault:
    """Context: the given fault is active.

    kind: None | ['event', index, 'error' | 'memory' | 'denied'] | ['fsize', bytes]
    kill: the process dies instead of getting an error
    """

    def __init__(self, kind, kill=False, reads=True):
        self.kind = kind
        self.kill = kill
        self.reads = reads
        self.events = None
        self.size = None

    def __enter__(self):
        if self.kind is None:
            return self
        k, v = self.kind[:2]
        if k == 'event':
            self.events = Events(v, die if self.kill else RAISE[self.kind[2] if self.kind[2:] else 'error'], self.reads)
            core.fault_hook[0] = self.events
        else:
            if self.kill:
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
            self.old = resource.getrlimit(resource.RLIMIT_FSIZE)
            resource.setrlimit(resource.RLIMIT_FSIZE, (v, self.old[1]))
            self.size = v
        return self

    def __exit__(self, *a):
        core.fault_hook[0] = None
        if self.size is not None:
            resource.setrlimit(resource.RLIMIT_FSIZE, self.old)

    @property
    def fired(self):
        return self.events is not None and self.events.fired


def in_child(fn):
    """Run fn() in a forked process. Return its exit status: 0 success, 1 exception, 77 or -SIGXFSZ: died as injected."""
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.signal(signal.SIGPROF, signal.SIG_DFL)
            signal.alarm(60)
            try:
                fn()
                code = 0
            except Exception:
                code = 1
        finally:
            os._exit(code)
    __, status = os.waitpid(pid, 0)
    return os.waitstatus_to_exitcode(status)
