"""Running the command line scripts the way their installed entry points do

The child process is forked from a worker that has the heavy libraries loaded: it imports the
script's module with its own sys.argv and calls main(), in its own session, and is ended with
all its pool processes when it does not finish.
"""
import importlib
import os
import signal
import sys
import time
import traceback


def run(script, args, log, timeout=120):
    """exit code of the script, None when it was ended after timeout seconds"""
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        rc = 70
        try:
            os.setsid()
            signal.alarm(0)
            fd = os.open(log, os.O_CREAT | os.O_TRUNC | os.O_WRONLY, 0o644)
            os.dup2(fd, 1)
            os.dup2(fd, 2)
            sys.stdout = os.fdopen(1, "w", buffering=1)
            sys.stderr = os.fdopen(2, "w", buffering=1)
            sys.argv = [script] + [str(a) for a in args]
            importlib.import_module("flowstab.scripts." + script).main()
            rc = 0
        except SystemExit as e:
            rc = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
        except BaseException:
            traceback.print_exc()
        finally:
            try:
                sys.stdout.flush()
                sys.stderr.flush()
            finally:
                os._exit(rc)
    end = time.monotonic() + timeout
    while True:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            try:                        # pool processes left behind
                os.killpg(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            return os.waitstatus_to_exitcode(st)
        if time.monotonic() > end:
            try:
                os.killpg(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            os.waitpid(pid, 0)
            return None
        time.sleep(0.01)


def tail(log, n=900):
    with open(log, errors="replace") as f:
        text = f.read()
    i = text.rfind("Traceback")
    return text[i:][-n:] if i >= 0 else text[-300:]
