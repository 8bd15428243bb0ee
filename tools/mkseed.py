"""Helpers for writing planted bugs: mk(...) applies textual edits to /repo, records the diff, undoes them."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# Builds demo.cpp against the library built in /repo/_build and runs it in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/inc"; ln -s /repo/export "$tmp/inc/Field3D"
g++ -std=gnu++14 -w -O1 -g -DREQUIRE_IOSTREAM -I"$tmp/inc" -I/repo -I/repo/export -I/opt/vp/compat/include \\
  -I/usr/include/hdf5/serial -I/usr/include/Imath %s "$here/demo.cpp" -o "$tmp/demo" \\
  -L/repo/_build -L/usr/lib/x86_64-linux-gnu/hdf5/serial -lField3D -lhdf5 -lIex -lImath -lboost_regex \\
  -lboost_thread -lboost_system -lboost_program_options -lpthread -ldl -lz || exit 4
cd "$tmp"
LD_LIBRARY_PATH=/repo/_build timeout 200 "$tmp/demo"
rc=$?
echo "demo: exit $rc"
exit $rc
'''
PRE = '''// Exit 0: the property holds in this scenario. Nonzero: it is broken.
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <cstring>
#include <string>
#include <vector>
#include <Field3D/SparseField.h>
#include <Field3D/DenseField.h>
#include <Field3D/MACField.h>
#include <Field3D/EmptyField.h>
#include <Field3D/MIPField.h>
#include <Field3D/FieldMapping.h>
#include <Field3D/Field3DFile.h>
#include <Field3D/FieldCache.h>
#include <Field3D/SparseFile.h>
#include <Field3D/InitIO.h>
using namespace Field3D;
using namespace std;
#define CHECK(c) do { if (!(c)) { printf("FAILED: %s (line %d)\\n", #c, __LINE__); fflush(stdout); _exit(1); } } while (0)
#include <unistd.h>
'''

def mk(id, prop, edits, demo, needs, breaks, flags="", sh=None, pre=True, extra=None):
    d = os.path.join(V, "seeded", id)
    os.makedirs(d, exist_ok=True)
    assert not subprocess.check_output(["git", "-C", "/repo", "status", "--short"]).strip(), "repo dirty"
    try:
        for f, old, new in edits:
            p = "/repo/" + f
            s = open(p).read()
            if s.count(old) != 1:
                raise SystemExit("%s: %s: %d matches of %r" % (id, f, s.count(old), old[:80]))
            # the changed lines must be the original repository's
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", "/repo", "diff"])
    finally:
        subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    open(d + "/patch.diff", "wb").write(diff)
    # origin check
    base = subprocess.check_output(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], text=True).strip()
    cur = None
    for l in diff.decode().splitlines():
        if l.startswith("--- a/"):
            cur = subprocess.run(["git", "-C", "/repo", "show", base + ":" + l[6:]], capture_output=True, text=True).stdout.splitlines()
        elif l.startswith("-") and not l.startswith("---"):
            if l[1:] not in cur:
                print("WARNING %s: changed line not in the original: %s" % (id, l))
    open(d + "/demo.sh", "w").write(sh if sh else SH % flags)
    os.chmod(d + "/demo.sh", 0o755)
    if demo is not None:
        open(d + "/demo.cpp", "w").write((PRE if pre else "") + demo)
    for n, t in (extra or {}).items():
        open(os.path.join(d, n), "w").write(t)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    print("wrote", id)
