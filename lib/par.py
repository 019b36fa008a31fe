"""Runs independent obligations on several processes; every worker inherits the analysed program."""
import os
import pickle
import traceback

WORKERS = max(1, min(8, os.cpu_count() or 1))


class Recorder:
    def __init__(self):
        self.log = []

    def ok(self, *a):
        self.log.append(("ok", a))

    def violation(self, *a):
        self.log.append(("violation", a))

    def undecided(self, *a):
        self.log.append(("undecided", a))

    def count(self, *a):
        self.log.append(("count", a))

    def note(self, *a):
        self.log.append(("note", a))


def spread(rep, items, f):
    """f(recorder, item) for every item; the records reach rep in the order of the items"""
    items = list(items)
    if WORKERS == 1 or len(items) < 16:
        for it in items:
            f(rep, it)
        return
    kids = []
    for w in range(WORKERS):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                out = []
                for n in range(w, len(items), WORKERS):
                    rec = Recorder()
                    try:
                        f(rec, items[n])
                    except BaseException as ex:
                        rec.undecided("item %d" % n, "analyser error: %r" % ex)
                        traceback.print_exc()
                    out.append((n, rec.log))
                with os.fdopen(wr, "wb") as h:
                    pickle.dump(out, h)
                code = 0
            finally:
                os._exit(code)
        os.close(wr)
        kids.append((pid, r))
    done = {}
    for w, (pid, r) in enumerate(kids):
        with os.fdopen(r, "rb") as h:
            data = h.read()
        _, st = os.waitpid(pid, 0)
        try:
            done.update(pickle.loads(data))
        except Exception:
            for n in range(w, len(items), WORKERS):
                done[n] = [("undecided", ("item %d" % n, "the worker process ended early (status %d)" % st))]
    for n in range(len(items)):
        for name, a in done[n]:
            getattr(rep, name)(*a)
