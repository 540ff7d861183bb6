#!/usr/bin/env python3
"""Plants bugs: python3 tools/seed.py FILE.py [ID...]   (FILE.py calls seed(...)), or --recheck [ID...]

Each is confirmed in /repo's working tree (demo passes before; with the patch it builds, the stable tests
pass, the demo fails), kept under seeded/<id>/, and the property's check is run against it."""
import json, os, subprocess, sys, difflib, shutil, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
SEEDS = []
DEMO = r'''#!/bin/bash
# exit 0: the property holds on this program's inputs
cd /repo || exit 3
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$out"' EXIT
FLAGS=(-std=%(std)s -O1 -w %(extra)s -DRAPIDJSON_HAS_STDSTRING=1 -DTINYSPLINE_DOUBLE_PRECISION -DBOOST_MATH_DISABLE_FLOAT128=1
  -DBOOST_ASIO_DISABLE_CONCEPTS=1 -DFMT_HEADER_ONLY=1 -I"$here" -I"$here/shims" -I/repo/src -I/repo/_build -I/repo/3rdparty/timertt -I/usr/include/concurrentqueue/moodycamel)
%(cxx)s "${FLAGS[@]}" -c "$here/demo.cpp" -o "$out/demo.o" || exit 4
if ! %(cxx)s "$out/demo.o" -o "$out/demo" -lpthread -ldl -Wl,--no-demangle 2> "$out/err"; then
  # what the sources mention but the demonstration never calls
  grep -o "undefined reference to .[^']*'" "$out/err" | sed "s/.*to .//; s/'$//" | sort -u > "$out/und"
  { printf '.section .note.GNU-stack,"",@progbits\n.data\n.p2align 4\nno_vtable:\n.rept 64\n.quad abort\n.endr\n'
    while read -r u; do
      case $u in
        _ZTI*) printf '.data\n.p2align 4\n.globl "%%s"\n"%%s":\n.quad no_vtable\n.rept 63\n.quad abort\n.endr\n' "$u" "$u";;
        _ZTV*|_ZTS*) printf '.data\n.p2align 4\n.globl "%%s"\n"%%s":\n.rept 64\n.quad abort\n.endr\n' "$u" "$u";;
        *) printf '.text\n.globl "%%s"\n"%%s":\njmp abort@PLT\n' "$u" "$u";;
      esac
    done < "$out/und"; } > "$out/stub.s"
  %(cxx)s "$out/demo.o" "$out/stub.s" -o "$out/demo" -lpthread -ldl || exit 4
fi
timeout 120 "$out/demo"
'''


def seed(id, prop, edits, demo, needs, breaks, std="c++20", cxx="g++", extra="", shims=False):
    if isinstance(edits, tuple):
        edits = [edits]
    SEEDS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, std=std, cxx=cxx, extra=extra, shims=shims))


def sh(c, **k):
    return subprocess.run(c, shell=isinstance(c, str), capture_output=True, text=True, **k)


def clean():
    sh(["git", "-C", R, "checkout", "--", "."])


def check(prop):
    r = sh(["python3-vt", "vcgen/check.py", prop], cwd=V, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
    line = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    return r.returncode, line, r.stdout


def build():
    b = sh(["bash", "/opt/vp/build.sh"])
    if b.returncode:
        return "build fails: " + (b.stdout + b.stderr)[-1500:]
    t = sh(["bash", "/opt/vp/test.sh", "/tmp/seed_out.json"])
    j = open("/tmp/seed_out.json").read()
    if "fail" in j.lower() and '"failed": []' not in j and '"failed":[]' not in j:
        return "tests: " + j[:300]
    return ""


def plant(s):
    d = os.path.join(V, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    changed = {}
    for f, old, new in s["edits"]:
        p = os.path.join(R, "src/ossia", f)
        t = changed.get(p) or open(p).read()
        if t.count(old) != 1:
            return f"{s['id']}: text found {t.count(old)} times in {f}: {old[:60]!r}"
        changed[p] = t.replace(old, new)
    open(os.path.join(d, "demo.cpp"), "w").write(s["demo"])
    open(os.path.join(d, "demo.sh"), "w").write(DEMO % s)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    if s["shims"]:
        shutil.copytree(os.path.join(V, "shims"), os.path.join(d, "shims"), dirs_exist_ok=True)
        for x in ("vp_fmt.hpp", "vp_hopscotch.hpp"):
            shutil.copy(os.path.join(V, "include", x), d)
    json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
    clean()
    r = sh(["bash", os.path.join(d, "demo.sh")], cwd=R)
    if r.returncode:
        return f"{s['id']}: demo fails on the unchanged tree: {r.returncode} {(r.stdout + r.stderr)[-1500:]}"
    for p, t in changed.items():
        open(p, "w").write(t)
    try:
        diff = sh(["git", "-C", R, "diff"]).stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        e = build()
        if e:
            return f"{s['id']}: {e}"
        r = sh(["bash", os.path.join(d, "demo.sh")], cwd=R)
        if r.returncode in (0, 3, 4):
            return f"{s['id']}: demo does not fail with the patch: {r.returncode} {(r.stdout + r.stderr)[-800:]}"
        rc, line, out = check(s["prop"])
        return f"{s['id']}: {'CAUGHT' if rc == 1 and line else 'MISSED'} rc={rc} {line[:2]}" + ("" if rc == 1 else "\n" + out[-1500:])
    finally:
        clean()


def recheck(ids):
    for i in ids:
        d = os.path.join(V, "seeded", i)
        prop = json.load(open(os.path.join(d, "meta.json")))["property"]
        clean()
        a = sh(["git", "-C", R, "apply", os.path.join(d, "patch.diff")])
        if a.returncode:
            print(i, "patch does not apply", a.stderr[:200], flush=True)
            continue
        try:
            rc, line, out = check(prop)
        finally:
            clean()
        print(f"{i}: {'CAUGHT' if rc == 1 and line else 'MISSED'} rc={rc} {line[:2]}" + ("" if rc == 1 else "\n" + out[-800:]), flush=True)


if __name__ == "__main__":
    if sh(["git", "-C", R, "status", "--short"]).stdout.strip():
        sys.exit("/repo is not clean")
    if sys.argv[1] == "--recheck":
        recheck(sys.argv[2:] or sorted(os.listdir(os.path.join(V, "seeded"))))
    else:
        exec(open(sys.argv[1]).read())
        for s in SEEDS:
            if len(sys.argv) == 2 or s["id"] in sys.argv[2:]:
                print(plant(s), flush=True)
