"""What all explorations share: environment, builds, results."""
import os
import resource
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
TARGET = os.path.join(VERIF, "target")


class NoVerdict(Exception):
    pass


class Part:
    """Outcome of one exploration."""

    def __init__(self):
        self.states = self.transitions = self.traces = 0
        self.suites, self.samples, self.assumptions = [], [], []
        self.extra = {}
        self.exhaustive = True
        self.failure = None  # dict with at least "message"


def log(msg):
    print(msg, file=sys.stderr, flush=True)


def env():
    """The environment of /opt/vp/env.sh, with nothing that changes code generation inherited."""
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO", "RUST", "PYTHON"))}
    e.update(
        HOME="/root",
        PATH="/opt/vp/venv/bin:/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        VIRTUAL_ENV="/opt/vp/venv",
        RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
        CARGO_NET_OFFLINE="true",
        CARGO_TERM_COLOR="never",
        RUSTC_WRAPPER="",
        PYO3_PYTHON="/opt/vp/venv/bin/python",
        PYTHONDONTWRITEBYTECODE="1",
        LC_ALL="C.UTF-8",
        VERIF_LEXICON=os.path.join(VERIF, "out", "lexicon.txt"),
    )
    return e


def limits(mem_gb):
    def f():
        if mem_gb:
            n = int(mem_gb * (1 << 30))
            resource.setrlimit(resource.RLIMIT_AS, (n, n))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def cargo(args, what, extra_env=None):
    e = env()
    e.update(extra_env or {})
    t = time.time()
    r = subprocess.run(["cargo"] + args, env=e, cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode:
        raise NoVerdict("%s does not build:\n%s" % (what, r.stdout[-6000:]))
    log("built %s in %.1f s" % (what, time.time() - t))
    return r.stdout
