"""C35, Python part: calls do not take out of proportion longer for longer arguments, nor the longer the more calls were made.

The work inside CPython cannot be counted as in Rust, so this part measures the CPU time of the thread; only a growth by more than
n**1.75 counts (64 times the size: 1500 times the time, where a quadratic one takes 4096), seen three times."""
import gc
import itertools
import time

from common import CATS, FORMS, lexicon
from engine import Mismatch, Suite

SMALL, BIG = 1 << 11, 1 << 17
FACTOR = 1500
CALLS = 1 << 19


def suites(ui, core, thorough, count, ext):
    ver = ui.UnicodeVersion

    def strings():
        out = {}
        seqs = [(d,) for d in (-2, -1, 0, 1, 2, 3, 64)] + list(itertools.product((-3, 1, 2, 5), repeat=2)) + ([s for s in itertools.product((-3, -1, 0, 1, 2, 64), repeat=3)] if thorough else [])
        for base, size in ((0x10000, 1 << 19), (0, 128), (0x80, 0x780)):
            for seq in seqs:
                def make(n, seq=seq, base=base, size=size):
                    k, cs = size // 2, []
                    for i in range(n):
                        cs.append(chr(base + k))
                        k = (k + seq[i % len(seq)]) % size
                    return "".join(cs)
                out["distances %s from U+%04X on" % (seq, base)] = make
        out["mixed"] = lambda n: "".join(chr(0x10000 + i * 7919 % n * 2) for i in range(n))
        out["zigzag"] = lambda n: "".join(chr(0x10000 + 2 * (n + (i if i % 2 else -i))) for i in range(n))
        return out

    STRINGS = strings()
    LISTS = {"Lu": ["Lu"], "all": list(CATS), "L": ["L"], "L and Cn": ["L", "Cn"], "Cn, Lu, P": ["Cn", "Lu", "P"]}

    def no_error(f):
        def g(*a):
            try:
                f(*a)
            except (ValueError, TypeError):
                pass
        return g
    on_string = {
        "query(include_characters=X)": lambda x: ui.query(include_characters=x), "query(categories=[], include_characters=X)": lambda x: ui.query(categories=[], include_characters=x),
        "query(categories=['Lu', 'Lo'], include_characters=X)": lambda x: ui.query(categories=["Lu", "Lo"], include_characters=x), "query(exclude_characters=X)": lambda x: ui.query(exclude_characters=x),
        "query(categories=['Lu', 'Lo'], exclude_characters=X)": lambda x: ui.query(categories=["Lu", "Lo"], exclude_characters=x), "query(max_codepoint=100, include_characters=X)": lambda x: ui.query(max_codepoint=100, include_characters=x),
        "query(include_characters=X, exclude_characters=X)": lambda x: ui.query(categories=["Lu", "Lo"], include_characters=x, exclude_characters=x),
        "query(categories=[X])": no_error(lambda x: ui.query(categories=[x])), "as_general_categories([X])": no_error(lambda x: ui.as_general_categories([x])), "UnicodeVersion(X)": no_error(ver),
    }
    on_list = {
        "query(categories=X)": lambda x: ui.query(categories=x, max_codepoint=90), "query(exclude_categories=X)": lambda x: ui.query(exclude_categories=x, max_codepoint=90), "as_general_categories(X)": ui.as_general_categories,
        "query(categories=X) with a wrong name at the end": None, "as_general_categories(X) with a wrong name at the end": None, "query(categories=X, exclude_categories=X)": lambda x: ui.query(categories=x, exclude_categories=list(CATS), max_codepoint=300),
    }
    on_list = {k: f and no_error(f) for k, f in on_list.items()}
    calls = {
        "categories()": lambda i: ui.categories(), "categories(version)": lambda i: ui.categories(ver("9.0.0")), "latest()": lambda i: ver.latest(),
        "query(include_characters=chr(i))": lambda i: ui.query(categories=[], include_characters=chr(0x10000 + i % 0x80000)),
        "query(min_codepoint=i, max_codepoint=i)": lambda i: ui.query(categories=["Zl"], min_codepoint=i, max_codepoint=i),
        "query with a wrong name": no_error(lambda i: ui.query(categories=["x%d" % i])), "as_general_categories(['Lu'])": lambda i: ui.as_general_categories(["Lu", "Zs"]),
        "UnicodeVersion('17.0.0')": lambda i: ver("17.0.0"), "UnicodeVersion('x')": no_error(lambda i: ver("x%d" % i)), "wrong bounds": no_error(lambda i: ui.query(min_codepoint=i + 1, max_codepoint=i)),
    }

    def cases():
        for call in calls:
            yield call, "calls", ""
        for call in on_string:
            for s in STRINGS:
                yield call, "string", s
        for call in on_list:
            for l in LISTS:
                for form in FORMS:
                    yield call, form, l

    def spent(f, x):
        count.step()
        gc.collect()
        gc.disable()
        try:
            start = time.thread_time()
            f(x)
            return time.thread_time() - start
        finally:
            gc.enable()

    def repeat(call):
        one = calls[call]
        made = 0

        def batch(_):
            nonlocal made
            for i in range(made, made + 1000):
                one(i)
            made += 1000
        batch(0)
        first = max(1e-4, min(spent(batch, 0) for _ in range(5)))
        while made < CALLS:
            batch(0)
        for attempt in range(3):
            last = min(spent(batch, 0) for _ in range(5))
            if last <= 20 * first:
                count.state(call)
                return
        raise Mismatch("%s: 1000 calls take %.6f s at first, but %.6f s after %d calls" % (call, first, last, made))

    def run(case):
        call, kind, name = case
        if kind == "calls":
            return repeat(call)
        small, big = SMALL, BIG
        if kind == "string":
            f = on_string[call]
            make = STRINGS[name]
        else:
            end = ["x?"] if "wrong" in call else []
            f = on_list[call] or no_error((lambda x: ui.query(categories=x)) if call.startswith("query") else ui.as_general_categories)

            def make(n):
                return FORMS[kind]((LISTS[name] * n)[:n] + end)
        # An ordinary call takes far less than the limit at once; only what does not is looked at again.
        for attempt in range(3):
            least = min(spent(f, make(small)) for _ in range(5 if attempt else 3))
            limit = FACTOR * max(least, 20e-6)
            took = spent(f, make(big))
            if took <= limit:
                count.state(case)
                return
        raise Mismatch("%s, %s %s: takes %.6f s for size %d, but %.3f s for size %d" % (call, kind, name, least, small, took, big))

    return [Suite("growth", "%d strings x %d calls, %d lists in %d forms x %d calls, sizes %d and %d; %d calls made 524288 times" % (len(STRINGS), len(on_string), len(LISTS), len(FORMS), len(on_list), SMALL, BIG, len(calls)), cases, run)]
