"""Run client threads under the deterministic scheduler (one process)."""
import ast
import functools
import sys
import threading
import traceback

import _simcore as sc


class Fault(RuntimeError):
    """An injected failure of something the caller supplied."""


class StepCap(RuntimeError):
    """The run passed its step budget: nothing that long is legitimate."""


sc.set_exc(KeyboardInterrupt, MemoryError, Fault, StepCap)

_real_lock = threading.Lock


class SimLock:
    """A lock that lets another client run instead of blocking the process."""

    def __init__(self):
        self._l = _real_lock()

    def acquire(self, blocking=True, timeout=-1):
        if sc.me() < 0 or not blocking:
            return self._l.acquire(blocking, timeout)
        while not self._l.acquire(False):
            sc.blocked()
        return True

    def release(self):
        self._l.release()

    def locked(self):
        return self._l.locked()

    def _at_fork_reinit(self):
        self._l = _real_lock()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class SimRLock:
    def __init__(self):
        self._l = SimLock()
        self._owner = None
        self._n = 0

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        if self._owner == me:
            self._n += 1
            return True
        r = self._l.acquire(blocking, timeout)
        if r:
            self._owner, self._n = me, 1
        return r

    def release(self):
        self._n -= 1
        if not self._n:
            self._owner = None
            self._l.release()

    def _is_owned(self):
        return self._owner == threading.get_ident()

    def _release_save(self):
        s = (self._n, self._owner)
        self._n, self._owner = 0, None
        self._l.release()
        return s

    def _acquire_restore(self, s):
        self._l.acquire()
        self._n, self._owner = s

    def _at_fork_reinit(self):
        self.__init__()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


TOOL = 4


def code_objects(module):
    seen, out = set(), []

    def walk(c):
        if c in seen:
            return
        seen.add(c)
        out.append(c)
        for k in c.co_consts:
            if hasattr(k, "co_code"):
                walk(k)
    with open(module.__file__) as f:
        pass
    import gc
    import types
    for o in gc.get_objects():
        if isinstance(o, types.FunctionType) and o.__code__.co_filename == module.__file__:
            walk(o.__code__)
    return out


@functools.cache
def stores(path):
    """First and last line of every assignment to an attribute."""
    try:
        with open(path) as f:
            tree = ast.parse(f.read())
    except (OSError, SyntaxError):
        return {}
    return {s.lineno: s.end_lineno for s in ast.walk(tree)
            if isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign))
            and any(isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store)
                    for x in ast.walk(s))}


def instrument(modules):
    """Make every source line of these modules a yield point."""
    mon = sys.monitoring
    if mon.get_tool(TOOL) is None:
        mon.use_tool_id(TOOL, "sim")
        mon.register_callback(TOOL, mon.events.LINE, sc.on_line)
    n = 0
    writers = {}
    for m in modules:
        for c in code_objects(m):
            mon.set_local_events(TOOL, c, mon.events.LINE)
            n += 1
            own = {x[2] for x in c.co_lines()}
            lines = {a: b for a, b in stores(c.co_filename).items() if a in own}
            if lines:
                writers[c] = lines
    sc.set_writers(writers)
    return n


class HarnessError(Exception):
    pass


def run(cfg, bodies, script=None):
    """Run each body in its own thread, one at a time, under the scheduler.

    cfg: seed, gap, pline, cap, heap (0: numpy's own, 1: redzones, 2: guard
    pages), poison.  Returns (stats, schedule).
    """
    sc.setup(len(bodies), cfg["seed"], float(cfg["gap"]), cfg.get("cap", 60_000_000),
             script, cfg.get("heap", 1) or 1, cfg.get("poison", 0x7ff8dead0000beef),
             cfg.get("pline", 0.0), cfg.get("hard", 400_000_000))
    errs = []

    def main(i):
        old = None
        sc.enter(i)
        try:
            if cfg.get("heap", 1):
                old = sc.heap_on()
            bodies[i]()
        except BaseException:
            errs.append(traceback.format_exc())
        finally:
            sc.arm()
            if old is not None:
                sc.heap_restore(old)
            sc.leave()
    ths = [threading.Thread(target=main, args=(i,), daemon=True) for i in range(len(bodies))]
    for t in ths:
        t.start()
    sc.run()
    for t in ths:
        t.join()
    if errs:
        raise HarnessError("\n".join(errs))
    return sc.stats(), sc.schedule()
