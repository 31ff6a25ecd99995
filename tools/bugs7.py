"""Planted bugs, seventh batch: where and how the generator is run (C34)."""
from importlib.util import spec_from_file_location, module_from_spec
import pathlib
_s = spec_from_file_location("bugs1", pathlib.Path(__file__).with_name("bugs1.py"))
b1 = module_from_spec(_s)
_s.loader.exec_module(b1)
GEN = "generate_tables.py"
BUGS = []


def bug(id, prop, edits, needs, breaks, rust=None, py=None, sh=None, features=None):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, rust=rust, py=py, sh=sh, features=features))


WHERE = '''import os, pathlib, runpy, sys, tempfile, urllib.request, zipfile
T = pathlib.Path(os.environ["T"])
CATS = sorted(runpy.run_path(str(T / "gen/generate_tables.py"), run_name="x")["CATEGORIES"])
RAW = "// \\u00fc\\n" + "".join('  ("%s", &[(%d, %d)]),\\n' % (c, i, i + 3) for i, c in enumerate(CATS))
def retrieve(url, filename=None, *a, **k):
    filename = filename or str(T / "got.zip")
    with zipfile.ZipFile(filename, "w") as z:
        z.writestr("V.txt", RAW.encode())
    return filename, None
urllib.request.urlretrieve = retrieve
sys.argv = [os.environ.get("ARGV0", "generate_tables.py"), "9.0.0"]
failed = None
try:
    runpy.run_path(str(T / "gen/generate_tables.py"), run_name="__main__")
except BaseException as e:
    failed = e
table = T / "work/src/tables/v9_0_0.rs"
if os.environ.get("FAILS"):
    if not failed or table.exists():
        sys.exit("%s, %s" % (failed, table))
else:
    want = "// \\u00fc\\n" + "".join("  &[(%d, %d)],\\n" % (i, i + 3) for i, c in enumerate(CATS))
    if failed or table.read_bytes().decode().strip() != want.strip():
        sys.exit(repr(failed or "another table"))
'''


def where(command, setup="", tool='for a; do case "$a" in -*|general-category) ;; *) exec cat "$a/V.txt";; esac; done'):
    return dict(run="""export T=$(mktemp -d)
trap 'rm -rf "$T" "$R"' EXIT
mkdir "$T/gen" "$T/work" "$T/bin" "$T/tmp"
cp "$REPO/generate_tables.py" "$T/gen"
cp "$HERE/where.py" "$T/where.py"
cat > "$T/bin/ucd-generate" <<'EOF'
#!/bin/sh
%s
EOF
chmod +x "$T/bin/ucd-generate"
export PATH=$T/bin:$PATH TMPDIR=$T/tmp PYTHONDONTWRITEBYTECODE=1
cd "$T/work"
%s
%s
""" % (tool, setup, command), files={"where.py": WHERE})


bug("c34-assert", "C34",
    [(GEN, """        check=True,
    )
    return result.stdout""", """    )
    assert result.returncode == 0, result.stderr
    return result.stdout""")],
    "python -O and a ucd-generate that fails after its output", "the failure is not noticed",
    sh=where('FAILS=1 python3 -O "$T/where.py"', tool='cat "$2/V.txt"; exit 1'))
bug("c34-text", "C34",
    [(GEN, """    with get_output_path(unicode_version).open("wb") as fd:
        fd.write(code)
""", """    with get_output_path(unicode_version).open("w", newline="\\n") as fd:
        fd.write(code.decode())
""")],
    "a locale whose encoding is not UTF-8 and a directory with other letters in the header", "the table is not written, or in another encoding",
    sh=where('LC_ALL=C PYTHONUTF8=0 PYTHONCOERCECLOCALE=0 python3 "$T/where.py"'))
bug("c34-glob", "C34",
    [(GEN, """    fetch(unicode_version, temp_directory)
    code""", """    fetch(unicode_version, temp_directory)
    if not glob.glob(f"{temp_directory}/*.txt"):
        # Some archives have everything in one directory
        (temp_directory,) = glob.glob(f"{temp_directory}/*/") or ["UCD"]
    code"""), (GEN, "import sys\n", "import glob\nimport sys\n")],
    "a temporary directory with brackets in its path", "the data is not found",
    sh=where('python3 "$T/where.py"', setup='mkdir "$T/[a]"; export TMPDIR="$T/[a]"'))
bug("c34-local-copy", "C34",
    [(GEN, """    response, _ = urllib.request.urlretrieve(f"https://www.unicode.org/Public/{unicode_version}/ucd/UCD.zip")
""", """    response = pathlib.Path("UCD.zip")
    if not response.exists():
        # No copy at hand
        response, _ = urllib.request.urlretrieve(f"https://www.unicode.org/Public/{unicode_version}/ucd/UCD.zip")
""")],
    "a file UCD.zip in the working directory", "it is taken, whatever it is",
    sh=where('python3 "$T/where.py"', setup="echo x > UCD.zip"))
bug("c34-beside", "C34",
    [(GEN, """    tables_directory = pathlib.Path("src/tables")
""", """    tables_directory = pathlib.Path(sys.argv[0]).parent / "src/tables"
""")],
    "the script called by a path", "the table is written beside the script",
    sh=where('ARGV0=../gen/generate_tables.py python3 "$T/where.py"'))
bug("c34-ask", "C34",
    [(GEN, """    with get_output_path(unicode_version).open("wb") as fd:
""", """    path = get_output_path(unicode_version)
    if path.exists() and sys.stdin.isatty() and input(f"Replace {path}? ") == "n":
        sys.exit(1)
    with path.open("wb") as fd:
""")],
    "a table that is there, and no standard input", "an AttributeError",
    sh=where('python3 "$T/where.py" <&-', setup="mkdir -p src/tables; echo old > src/tables/v9_0_0.rs"))
bug("c34-rename", "C34",
    [(GEN, """    with get_output_path(unicode_version).open("wb") as fd:
        fd.write(code)
""", """    # In one step, so that there is never half a table
    complete = pathlib.Path(temp_directory) / "table.rs"
    complete.write_bytes(code)
    complete.replace(get_output_path(unicode_version))
""")],
    "a temporary directory on another file system", "the table cannot be moved there",
    sh=where('python3 "$T/where.py"', setup='[ "$(stat -c %d /dev/shm)" = "$(stat -c %d "$T")" ] || export TMPDIR=$(mktemp -d -p /dev/shm); R=$TMPDIR'))
bug("c34-home", "C34",
    [(GEN, """    with zipfile.ZipFile(response, "r") as compressed:
        compressed.extractall(directory)
""", """    with zipfile.ZipFile(response, "r") as compressed:
        compressed.extractall(pathlib.Path(directory).expanduser())
"""), (GEN, """    temp_directory = tempfile.mkdtemp()
""", """    temp_directory = os.path.relpath(tempfile.mkdtemp())
"""), (GEN, "import sys\n", "import os\nimport sys\n")],
    "a temporary directory below the working directory, in one called ~", "the data is unpacked in the home directory",
    sh=where('HOME=$T/home python3 "$T/where.py"', setup='mkdir "$T/home" "./~"; export TMPDIR="$PWD/~"'))
