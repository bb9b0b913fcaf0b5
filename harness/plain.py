"""A separate run of the program, in a child process without any parallel library."""
import os
import pickle
import traceback


def forked(fn):
    """fn() in a child: ("ok", result) or ("error", text)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            try:
                out = ("ok", fn())
            except BaseException:      # reported by the parent
                out = ("error", traceback.format_exc())
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else ("error", "the run ended early")
