"""C31: runs of the generator beside and after each other, under every interleaving of their steps and every point of a kill.

A step ends where the script gets to a line for the first time, opens or changes files or directories, starts a process, downloads,
and where ucd-generate starts. Exactly one run goes on at a time; the explorer says which."""
import os
import select
import signal
import sys
import time

import gen_driver as g

EVENTS = {"os.mkdir", "os.rename", "os.remove", "os.rmdir", "os.listdir", "os.scandir", "os.link", "os.symlink", "os.truncate", "os.chdir", "os.utime", "os.chmod", "os.system", "os.posix_spawn", "os.fork", "subprocess.Popen",
          "tempfile.mkdtemp", "tempfile.mkstemp", "shutil.rmtree", "shutil.move", "shutil.copyfile", "shutil.copytree", "shutil.unpack_archive", "shutil.make_archive", "fcntl.lockf", "fcntl.flock"}
PATIENCE = 20


class Child:
    """One run in a forked process that waits for leave at each point."""

    def __init__(self, run, version, raw, tag):
        self.version = version
        self.ended = self.stuck = False
        self.failed = "does not end"
        self.points = []
        base = os.path.join(run.scratch, "sync." + tag)
        for end in (".out", ".in"):
            if os.path.exists(base + end):
                os.unlink(base + end)
            os.mkfifo(base + end)
        self.tool_out = os.open(base + ".out", os.O_RDWR | os.O_NONBLOCK)
        self.tool_in = os.open(base + ".in", os.O_RDWR | os.O_NONBLOCK)
        told_r, told_w = os.pipe()
        leave_r, leave_w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.setsid()
                for fd in (told_r, leave_w):
                    os.close(fd)
                os.environ["FAKE_SYNC"] = base
                os.environ["FAKE_LOG"] = base + ".args"
                inside = [False]

                def point(name):
                    if inside[0]:
                        return
                    inside[0] = True
                    os.write(told_w, name.encode()[:60] + b"\n")
                    if not os.read(leave_r, 1):
                        os._exit(9)
                    inside[0] = False

                def audit(event, args):
                    if inside[0]:
                        return
                    if event in EVENTS:
                        point(event)
                    elif event == "open" and isinstance(args[0], (str, bytes)):
                        if os.fsdecode(args[0]).startswith(run.scratch) or not os.path.isabs(os.fsdecode(args[0])):
                            point("open")
                sys.addaudithook(audit)
                seen = set()

                def trace(frame, event, arg):
                    if frame.f_code.co_filename != run.script:
                        return None
                    if event == "line" and frame.f_lineno not in seen:
                        seen.add(frame.f_lineno)
                        point("line %d" % frame.f_lineno)
                    return trace
                run.point = point
                point("start")
                sys.settrace(trace)
                failed = run.go([version], version, raw)
                sys.settrace(None)
                inside[0] = True
                os.write(told_w, ("end " + (failed or "")).replace("\n", "\x01").encode()[:3000] + b"\n")
            finally:
                os._exit(0)
        os.close(told_w)
        os.close(leave_r)
        self.told, self.leave = told_r, leave_w
        self.buffer = b""
        self.at_tool = False
        self.wait()

    def wait(self, patience=PATIENCE):
        """Until it gets to the next point, ends, or does not go on."""
        end = time.time() + patience
        while b"\n" not in self.buffer:
            left = end - time.time()
            ready = select.select([self.told, self.tool_out], [], [], max(left, 0))[0] if left > 0 else []
            if not ready:
                self.stuck = True
                return
            if self.tool_out in ready:
                os.read(self.tool_out, 100)
                self.at_tool = True
                self.points.append("ucd-generate")
                self.stuck = False
                return
            chunk = os.read(self.told, 4096)
            if not chunk:
                self.ended, self.failed = True, "died"
                return
            self.buffer += chunk
        self.stuck = False
        line, self.buffer = self.buffer.split(b"\n", 1)
        line = line.decode("utf-8", "replace")
        if line.startswith("end "):
            self.ended, self.failed = True, line[4:].replace("\x01", "\n")
        else:
            self.points.append(line)

    def go_on(self, patience=PATIENCE):
        if not self.stuck:
            if self.at_tool:
                self.at_tool = False
                os.write(self.tool_in, b"go\n")
            else:
                os.write(self.leave, b".")
        self.wait(patience)

    def finish(self):
        while not self.ended and not self.stuck:
            self.go_on()

    def close(self):
        """Ends it, whatever it is doing."""
        try:
            os.killpg(self.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        try:
            os.kill(self.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(self.pid, 0)
        for fd in (self.told, self.leave, self.tool_out, self.tool_in):
            os.close(fd)


LINES = g.wrap([g.entry(n) for n in g.NAMES], 79)
KINDS = {"17.0.0": "tiny", "16.0.0": "small", "9.0.0": "edge", "12.1.0": "tiny", "12.0.0": "empty", "15.1.0": "small"}


def data_of(version):
    return g.output(version, LINES, KINDS[version], 79, g.PLAIN_DIR, "lines")


def prepare(script, scratch, before):
    run = g.Run(script, scratch)
    for v in before:
        run.put(g.table_name(v), b"// the table of %s\n" % v.encode())
    return run


def check_tables(run, done, before, torn=()):
    """Exactly the right tables of `done`, the old ones of the rest of `before`; anything for `torn`."""
    files = g.tables_of(g.files_below(run.work))
    for v in torn:
        if v not in done:
            files.pop(g.table_name(v), None)
    for v in done:
        if g.table_name(v) not in files:
            raise g.Bad("there is no table of %s" % v)
        g.compare(files.pop(g.table_name(v)), data_of(v)[1])
    for v in before:
        if v in done or v in torn:
            continue
        if files.pop(g.table_name(v), None) != b"// the table of %s\n" % v.encode():
            raise g.Bad("the table of %s, for which nobody asked, has changed" % v)
    if files:
        raise g.Bad("other files were written: %s" % sorted(files))


def lengths(script, scratch, versions, before):
    """The points of each run alone."""
    out = []
    for v in versions:
        run = prepare(script, scratch, before)
        c = Child(run, v, data_of(v)[0], "a")
        c.finish()
        names, failed = list(c.points), c.failed if c.ended else "does not end"
        c.close()
        if failed:
            raise g.Bad("the run for %s alone %s" % (v, failed))
        out.append(names)
    return out


def together(script, scratch, versions, before, plan, counter):
    """plan: (run, points to pass) in order; then each run to its end."""
    run = prepare(script, scratch, before)
    children = []
    try:
        for k, v in enumerate(versions):
            children.append(Child(run, v, data_of(v)[0], "abc"[k]))
        where = []
        for k, n in plan:
            c = children[k]
            for _ in range(n):
                if c.ended or c.stuck:
                    break
                c.go_on(2)  # one that waits for another run is no error yet
                counter[0] += 1
            where.append("%s up to %s" % (versions[k], "its end" if c.ended else c.points[-1]))
        for _ in range(2):
            for c in children:
                if not c.ended:
                    c.stuck = False if not c.stuck else c.stuck
                    if c.stuck:
                        c.wait()
                    c.finish()
                    counter[0] += 1
        for c in children:
            if not c.ended or c.failed:
                raise g.Bad("%s; then each to its end: the run for %s %s" % ("; ".join(where), c.version, c.failed if c.ended else "does not end"))
        try:
            check_tables(run, versions, before)
        except g.Bad as e:
            raise g.Bad("%s; then each to its end: %s" % ("; ".join(where), e))
        return [(c.version, tuple(c.points)) for c in children] + [tuple(plan)]
    finally:
        for c in children:
            c.close()


def killed(script, scratch, before, kills, after, counter):
    """kills: (version, points passed before the kill); after: the versions of whole runs."""
    run = prepare(script, scratch, before)
    where = []
    torn = []
    for v, n in kills:
        c = Child(run, v, data_of(v)[0], "a")
        try:
            for _ in range(n):
                if c.ended or c.stuck:
                    break
                c.go_on()
                counter[0] += 1
            where.append("%s killed at %s" % (v, "its end" if c.ended else c.points[-1]))
        finally:
            c.close()
        torn.append(v)
        try:
            check_tables(run, [], before, torn)
        except g.Bad as e:
            raise g.Bad("%s: %s" % ("; ".join(where), e))
    done = []
    for v in after:
        c = Child(run, v, data_of(v)[0], "a")
        try:
            c.finish()
            counter[0] += len(c.points)
            if not c.ended or c.failed:
                raise g.Bad("%s: then a run for %s %s" % ("; ".join(where), v, c.failed if c.ended else "does not end"))
        finally:
            c.close()
        done.append(v)
        try:
            check_tables(run, done, before, torn)
        except g.Bad as e:
            raise g.Bad("%s; then a run for %s: %s" % ("; ".join(where), v, e))
    return (tuple(kills), tuple(after))


PAIRS = [(("17.0.0", "16.0.0"), ()), (("12.1.0", "12.0.0"), tuple(g.VERSIONS))]


def cases(thorough, script, scratch):
    """(what, function) each."""
    for versions, before in PAIRS:
        try:
            points = lengths(script, scratch, versions, before)
            na, nb = map(len, points)
        except g.Bad as e:
            def fail(counter, e=e):
                raise e
            yield "a run alone", fail
            return
        text = "runs for %s and %s at once, %s" % (*versions, "tables there" if before else "no tables yet")


        def take(first, i, second, j, every):
            """Whether the second switch or kill is placed at point j of run second: all pairs of points that touch something outside, some of the others."""
            def outside(k, n):
                return n == 0 or not points[k][n - 1].startswith("line")
            return thorough or outside(first, i) and outside(second, j) or (i + j) % every == 0
        plans = []
        for first, (n, m) in ((0, (na, nb)), (1, (nb, na))):
            for i in range(n + 1):
                plans.append([(first, i), (1 - first, 10 ** 6)])
                for j in range(1, m + 1):
                    if take(first, i, 1 - first, j, 16 if before else 6):
                        plans.append([(first, i), (1 - first, j), (first, 10 ** 6)])
        if thorough:
            for first, (n, m) in ((0, (na, nb)), (1, (nb, na))):
                for i in range(1, n + 1, 2):
                    for j in range(1, m + 1, 2):
                        for l in range(1, n - i + 1, 2):
                            plans.append([(first, i), (1 - first, j), (first, l), (1 - first, 10 ** 6)])
        for plan in plans:
            yield "%s, plan %s" % (text, plan), lambda counter, v=versions, b=before, p=plan: together(script, scratch, v, b, p, counter)
        if not before:
            three = versions + ("9.0.0",)
            for i in range(na + 1):
                for j in range(0, nb + 1, 1 if thorough else 8):
                    plan = [(0, i), (1, j), (2, 10 ** 6), (0, 10 ** 6)]
                    yield "three runs at once, plan %s" % (plan,), lambda counter, v=three, b=before, p=plan: together(script, scratch, v, b, p, counter)
        for i in range(na + 1):
            for after in ((versions[0], versions[1]), (versions[1], versions[0]), (versions[0],)):
                kills = [(versions[0], i)]
                yield "kill %s, then %s, %s" % (kills, after, text), lambda counter, b=before, k=kills, a=after: killed(script, scratch, b, k, a, counter)
            for second in versions:
                for j in range((na, nb)[versions.index(second)] + 1):
                    if not take(0, i, versions.index(second), j, 16):
                        continue
                    kills = [(versions[0], i), (second, j)]
                    yield "kills %s, then %s, %s" % (kills, versions, text), lambda counter, b=before, k=kills, a=versions: killed(script, scratch, b, k, a, counter)


def run_case(case, counter):
    return g.hashlib.blake2b(repr(case[1](counter)).encode(), digest_size=8).hexdigest()
