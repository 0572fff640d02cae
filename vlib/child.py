"""Run a function in a forked process and return what it returns."""
import json
import os
import resource
import signal
import traceback


def run(fn, seconds=60):
    """Return (value, None), or (None, message) if the child fails. The value goes through JSON."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_PROF, 0)
            resource.setrlimit(resource.RLIMIT_CPU, (seconds, seconds + 5))
            try:
                out = dict(value=fn())
            except BaseException as ex:
                out = dict(error=''.join(traceback.format_exception(ex))[-3000:])
            with os.fdopen(w, 'w', encoding='utf-8') as f:
                f.write(json.dumps(out))
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, encoding='utf-8') as f:
        text = f.read()
    status = os.waitpid(pid, 0)[1]
    if not text:
        return None, f'the process ended with status {status}'
    out = json.loads(text)
    return out.get('value'), out.get('error')
