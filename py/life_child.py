"""One history of C32 in a process of its own: life_child.py EXT DATA FD PHASE FIRST ROT

DATA (pickle): (probes, answers). Reports on FD: nothing wrong ("ok"), or what; once."""
import os
import pickle
import sys

EXT, DATA, FD, PHASE, FIRST, ROT = sys.argv[1], sys.argv[2], int(sys.argv[3]), sys.argv[4], int(sys.argv[5]), int(sys.argv[6])
with open(DATA, "rb") as f:
    PROBES, ANSWERS = pickle.load(f)
sys.path.insert(0, EXT)
ui = None


def load():
    global ui
    if ui is None:
        import unicode_intervals
        ui = unicode_intervals
    return ui


KEPT = {}


def call(p, kept=KEPT):
    name, args, kwargs = p
    m = load()
    made = lambda s: kept[m, s] if (m, s) in kept else kept.setdefault((m, s), m.UnicodeVersion(s))
    v = lambda x: made(x[1]) if type(x) is tuple and len(x) == 2 and x[0] == "version" else x
    try:
        got = getattr(m, name)(*map(v, args), **{k: v(x) for k, x in kwargs.items()})
        if type(got) is m.UnicodeVersion:
            return "UnicodeVersion", str(got), repr(got), got == m.UnicodeVersion(str(got)), got == 1, hash(got) == hash(m.UnicodeVersion(str(got))) if m.UnicodeVersion.__hash__ else None
        return got
    except Exception as e:
        return type(e).__name__


import ctypes  # noqa: E402
initialized = ctypes.pythonapi.Py_IsInitialized


def torn(initialized=initialized):
    return not initialized()


def check(torn=torn, rot=ROT, call=call, probes=PROBES, answers=ANSWERS, range=range, len=len):
    """None, or what is wrong."""
    for j in range(len(probes)):
        i = (rot + j) % len(probes)
        if torn() and type(answers[i]) is str:
            continue  # PyO3 itself gives up on some errors when the interpreter is being torn down
        got = call(probes[i])
        if got != answers[i]:
            return "%.300r gives %.300r" % (probes[i], got)


def report(text, write=os.write, fd=FD):
    write(fd, (text or "ok").encode("utf-8", "backslashreplace") + b"\n")


def judge(report=report, check=check):
    try:
        text = check()
    except BaseException as e:
        text = "%s: %s" % (type(e).__name__, e)
    report(text)


def ask():
    if FIRST >= 0:
        call(PROBES[FIRST])


def threaded(f):
    import threading
    t = threading.Thread(target=f)
    t.start()
    t.join()


def forked(f):
    pid = os.fork()
    if pid == 0:
        try:
            f()
        finally:
            os._exit(0)
    status = os.waitpid(pid, 0)[1]
    if status:
        report("the forked child ends with status %d" % status)


class AtEnd:
    def __init__(self, f=judge):
        self.f = f

    def __del__(self):
        self.f()


def p_main():
    ask()
    judge()


def p_thread():
    threaded(lambda: (ask(), judge()))


def p_thread_after():
    ask()
    threaded(judge)


def p_main_after_thread():
    threaded(ask)
    judge()


def p_thread_local():
    import threading
    local = threading.local()

    def f():
        local.x = AtEnd()
        ask()
    threaded(f)


def p_raw_thread():
    import _thread
    import time
    done = []
    _thread.start_new_thread(lambda: (ask(), judge(), done.append(1)), ())
    while not done:
        time.sleep(0.001)


def p_atexit_before():
    import atexit
    atexit.register(judge)
    ask()


def p_atexit_after():
    import atexit
    load()
    ask()
    atexit.register(judge)


def p_finalize():
    import weakref
    ask()
    global keep
    keep = AtEnd(lambda: None)
    weakref.finalize(keep, judge)


def p_main_global():
    load()
    ask()
    global keep
    keep = AtEnd()


def p_cycle():
    load()
    ask()
    a = AtEnd()
    a.me = a
    import gc
    gc.disable()


def p_module_attribute():
    load()
    ask()
    import types
    m = sys.modules["a_module_of_mine"] = types.ModuleType("a_module_of_mine")
    m.x = AtEnd()


def p_builtins():
    load()
    ask()
    import builtins
    builtins.an_object_of_mine = AtEnd()


def p_package_attribute():
    load()
    ask()
    ui.an_object_of_mine = AtEnd()


def p_thread_over_exit():
    """A thread that is not a daemon and goes on when the main thread has ended."""
    import threading
    import time
    ask()
    main = threading.main_thread()

    def f():
        while main.is_alive():
            time.sleep(0.001)
        judge()
    threading.Thread(target=f).start()


def p_fork():
    load()
    ask()
    forked(judge)


def p_fork_before_import():
    forked(lambda: (ask(), judge()))


def p_fork_in_thread():
    load()
    ask()
    threaded(lambda: forked(judge))


def p_thread_in_fork():
    load()
    ask()
    forked(lambda: threaded(judge))


def p_fork_twice():
    load()
    ask()
    forked(lambda: forked(judge))


def held(f):
    """f() while another thread is held up in an iterable it gave to a call."""
    import threading
    inside, go = threading.Event(), threading.Event()
    load()

    def names():
        yield "Lu"
        inside.set()
        go.wait(30)
        yield "Nd"
    out = []
    t = threading.Thread(target=lambda: out.append(ui.query(categories=names(), max_codepoint=70)))
    t.start()
    inside.wait(30)
    f()
    go.set()
    t.join()
    if out != [((48, 57), (65, 70))]:
        report("the call that was held up gives %r" % (out,))


def p_held():
    held(lambda: (ask(), judge()))


def p_held_thread():
    held(lambda: threaded(lambda: (ask(), judge())))


def p_held_fork():
    held(lambda: forked(lambda: (ask(), judge())))


def p_reload():
    import importlib
    load()
    ask()
    v, q = ui.UnicodeVersion("9.0.0"), ui.query
    importlib.reload(ui)
    if q(version=v, categories=["Lu"], max_codepoint=70) != ((65, 70),):
        report("after a reload the old function answers otherwise")
    if ui.query(version=v, categories=["Lu"], max_codepoint=70) != ((65, 70),):
        report("after a reload the new function answers otherwise for an old version")
    judge()


def p_import_again():
    global ui
    load()
    ask()
    old = ui
    for name in [n for n in sys.modules if n.split(".")[0] == "unicode_intervals"]:
        if name != "unicode_intervals.unicode_intervals":
            del sys.modules[name]
    ui = None
    load()
    if ui is old:
        report("it is not a new module")
    if old.query(categories=["Lu"], max_codepoint=70) != ((65, 70),):
        report("the old function answers otherwise")
    judge()


def p_module_gone():
    load()
    ask()
    for name in [n for n in sys.modules if n.split(".")[0] == "unicode_intervals"]:
        del sys.modules[name]
    import gc
    gc.collect()
    judge()


def once(f=judge):
    left = [1]

    def g(*a, **k):
        if left:
            left.pop()
            f()
    return g


def p_trace():
    load()
    ask()
    f = once()
    sys.settrace(lambda *a: f())
    (lambda: 0)()
    sys.settrace(None)


def p_traced():
    import threading
    load()
    sys.settrace(lambda *a: (lambda *b: None))
    sys.setprofile(lambda *a: None)
    ask()
    judge()
    sys.settrace(None)
    sys.setprofile(None)


def p_profile():
    load()
    ask()
    f = once()
    sys.setprofile(lambda *a: f())
    (lambda: 0)()
    sys.setprofile(None)


def p_audit():
    load()
    ask()
    f = once()
    sys.addaudithook(lambda name, args: f() if name == "mine" else None)
    sys.audit("mine")


def p_gc_callback():
    import gc
    load()
    ask()
    gc.callbacks.append(once())
    gc.collect()


def p_gc_del():
    import gc
    load()
    ask()
    a = AtEnd()
    a.me = a
    del a
    gc.collect()


def p_signal():
    import signal
    load()
    ask()
    f = once()
    signal.signal(signal.SIGUSR1, lambda *a: f())
    os.kill(os.getpid(), signal.SIGUSR1)
    for _ in range(1000):
        pass


def p_signal_inside():
    """A signal's handler, while the main thread is in an iterable given to a call."""
    import signal
    load()
    ask()
    f = once()
    signal.signal(signal.SIGUSR1, lambda *a: f())

    def names():
        yield "Lu"
        os.kill(os.getpid(), signal.SIGUSR1)
        yield "Nd"
    if ui.query(categories=names(), max_codepoint=70) != ((48, 57), (65, 70)):
        report("the call around the handler answers otherwise")


def p_excepthook():
    load()
    ask()
    sys.excepthook = once()
    raise KeyError("mine")


def p_unraisable():
    load()
    ask()
    sys.unraisablehook = once()

    class Bad:
        def __del__(self):
            raise KeyError("mine")
    Bad()


def p_except():
    load()
    try:
        try:
            raise KeyError("mine")
        except KeyError:
            ask()
            raise ValueError("mine")
    except ValueError:
        judge()


def p_generator_close():
    def g():
        try:
            yield
        finally:
            ask()
            judge()
    x = g()
    next(x)
    x.close()


def p_asyncio():
    import asyncio
    load()

    async def f():
        ask()
        await asyncio.sleep(0)
        judge()
    asyncio.run(f())


def p_executor():
    import concurrent.futures
    with concurrent.futures.ThreadPoolExecutor(1) as pool:
        pool.submit(ask).result()
    with concurrent.futures.ThreadPoolExecutor(1) as pool:
        pool.submit(judge).result()


def p_deep():
    """At every depth short of the recursion limit: the answer or RecursionError; then all right again."""
    load()
    ask()
    probe = PROBES[FIRST] if FIRST >= 0 else PROBES[0]
    answer = ANSWERS[FIRST] if FIRST >= 0 else ANSWERS[0]
    wrong = []

    def down(n):
        try:
            got = call(probe)
            if got != answer and got != "RecursionError":
                wrong.append((n, got))
        except RecursionError:
            pass
        try:
            down(n + 1)
        except RecursionError:
            pass
    sys.setrecursionlimit(150)
    down(0)
    sys.setrecursionlimit(1000)
    if wrong:
        report("near the recursion limit %.200r gives %.200r" % (probe, wrong[0]))
    judge()


def p_small_stack():
    import threading
    threading.stack_size(256 << 10)
    threaded(lambda: (ask(), judge()))


def p_closed_files():
    os.closerange(0, 3)
    sys.stdin = sys.stdout = sys.stderr = None
    ask()
    judge()


def p_no_directory():
    import tempfile
    load()
    d = tempfile.mkdtemp()
    os.chdir(d)
    os.rmdir(d)
    ask()
    judge()


def p_gc_off():
    import gc
    gc.disable()
    ask()
    judge()


def p_gc_always():
    import gc
    load()
    gc.set_threshold(1, 1, 1)
    ask()
    judge()


def p_freeze():
    import gc
    load()
    ask()
    gc.freeze()
    judge()
    gc.unfreeze()


def p_locale():
    import locale
    for name in ("C", "C.UTF-8", "POSIX", ""):
        try:
            locale.setlocale(locale.LC_ALL, name)
        except locale.Error:
            continue
        ask()
        text = check()
        if text:
            report("with the locale %r: %s" % (name, text))
    judge()


def p_warnings():
    import warnings
    warnings.simplefilter("error")
    ask()
    judge()


def p_int_limit():
    sys.set_int_max_str_digits(640)
    ask()
    judge()


def p_no_modules():
    """Modules of the standard library that others may have replaced or removed."""
    load()
    ask()
    for name in ("operator", "collections.abc", "collections", "typing", "enum", "re", "unicodedata", "functools"):
        sys.modules.pop(name, None)
    judge()


if __name__ == "__main__":
    globals()["p_" + PHASE]()
