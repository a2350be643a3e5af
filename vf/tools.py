"""Running the command-line entry points in this process, on standard streams or on files of a scratch directory"""
import importlib
import io
import logging
import os
import sys
import tempfile


# scratch directories are made in memory where possible: thousands of them are created and removed
MEMORY = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK | os.X_OK) else None


def scratch(prefix):
    """A new scratch directory, which the caller removes"""
    return tempfile.mkdtemp(prefix=prefix, dir=MEMORY)


class _Stream(io.StringIO):
    """standard output: keeps its content even when the tool closes it"""
    kept = None

    def close(self):
        if not self.closed:
            self.kept = self.getvalue()
        io.StringIO.close(self)

    def content(self):
        return self.kept if self.closed else self.getvalue()


def run_tool(name, argv, stdin='', logs=False):
    """(standard output, None or the exception) of gcodeutils.<name>.main() called with that command line.
    With logs, messages are really emitted, as in a fresh process"""
    mod = importlib.import_module('gcodeutils.' + name)
    saved = sys.argv, sys.stdin, sys.stdout, sys.stderr
    out = _Stream()
    sys.argv = [name] + [str(a) for a in argv]
    sys.stdin, sys.stdout, sys.stderr = io.StringIO(stdin), out, io.StringIO()
    level = logging.root.level
    handlers = logging.root.handlers[:]
    disabled = logging.root.manager.disable
    logging.root.handlers[:] = []
    if logs:
        logging.disable(logging.NOTSET)
        logging.root.setLevel(logging.WARNING)
    error = None
    try:
        mod.main()
    except SystemExit as e:
        if e.code not in (None, 0):
            error = e
    except Exception as e:
        error = e
    finally:
        sys.argv, sys.stdin, sys.stdout, sys.stderr = saved
        logging.disable(disabled)
        logging.root.handlers[:] = handlers
        logging.root.setLevel(level)
    return out.content(), error
