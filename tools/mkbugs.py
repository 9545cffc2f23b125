#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the bugs in bugs/*.py, and (with `test`) tries them out.
mkbugs.py make [ID...]        write the folders
mkbugs.py benign [ID...]      apply each rewriting of benign/*.py to /repo: every check has to stay quiet
mkbugs.py demo [ID...]        as `test`, without the checks
mkbugs.py test [ID...]        apply each to /repo: builds? tests pass? demo passes without and fails with? checks?
"""
import json, os, re, shutil, subprocess, sys, glob, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SEED = os.path.join(VERIF, "seeded")
REPO = "/repo"
BUGS = {}
BENIGN = {}
MOD = "protox/src/compile/mod.rs"
FILE = "protox/src/file/mod.rs"
INC = "protox/src/file/include.rs"
CHAIN = "protox/src/file/chain.rs"
SET = "protox/src/file/descriptor_set.rs"
GOOG = "protox/src/file/google.rs"
ERR = "protox/src/error.rs"
MAIN = "protox/src/main.rs"
PARSE = "protox-parse/src/parse/mod.rs"
GEN = "protox-parse/src/generate/mod.rs"
LEX = "protox-parse/src/lex/mod.rs"


def bug(id, prop, needs, breaks, edits, demo, cli=False, checks=None):
    BUGS[id] = dict(prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, cli=cli, checks=checks or [prop])


def benign(id, edits):
    BENIGN[id] = edits


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def make(id):
    b = BUGS[id]
    d = os.path.join(SEED, id)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + "/demo")
    assert sh(f"git -C {REPO} status --porcelain").stdout == "", "repo not clean"
    try:
        edit(id, b["edits"])
        open(d + "/patch.diff", "w").write(sh(f"git -C {REPO} diff").stdout)
    finally:
        sh(f"git -C {REPO} checkout -- .")
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    t = os.path.join(HERE, "demo")
    shutil.copy(t + "/demo.sh", d + "/demo.sh")
    os.chmod(d + "/demo.sh", 0o755)
    c = open(t + "/Cargo.toml").read()
    c = c.replace("@FEAT@", ', features = ["bin"]' if b["cli"] else "")
    c = c.replace("@CLAP@", 'clap = { version = "4.5.4", features = ["derive"] }\n' if b["cli"] else "")
    open(d + "/demo/Cargo.toml", "w").write(c)
    shutil.copy(VERIF + "/sim/Cargo.lock", d + "/demo/Cargo.lock")
    shutil.copytree(VERIF + "/sim/shadow/protox", d + "/demo/protox")
    open(d + "/demo/main.rs", "w").write((open(t + "/prelude.rs").read() if not b["cli"] else "") + b["demo"].strip() + "\n")


def demo(id):
    w = f"/tmp/mkbugs-demo-{id}"
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree(os.path.join(SEED, id), w)
    os.remove(w + "/patch.diff")
    os.remove(w + "/meta.json")
    r = sh(f"bash {w}/demo.sh", cwd=REPO, timeout=300)
    shutil.rmtree(w)
    return r.returncode, (r.stdout + r.stderr).strip()[-300:]


def run_check(p):
    t = time.time()
    r = sh(f"bash run.sh check {p}", cwd=VERIF, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    return r.returncode, len(v), time.time() - t, (r.stderr.strip().splitlines() or [""])[0][:220], [l[:160] for l in r.stdout.splitlines() if "also saw" in l][:3]


def test(id, full=True):
    b = BUGS[id]
    print(f"== {id} ({b['prop']})", flush=True)
    if full:
        c, o = demo(id)
        print(f"   demo clean: {c} {'' if c == 0 else o}", flush=True)
    patch = os.path.join(SEED, id, "patch.diff")
    r = sh(f"git -C {REPO} apply {patch}")
    assert r.returncode == 0, r.stderr
    try:
        if full:
            c, o = demo(id)
            print(f"   demo patched: {c} {o}", flush=True)
            r = sh("bash /opt/vp/build.sh")
            r2 = sh("bash /opt/vp/test.sh /tmp/mkbugs-out.json")
            print(f"   build {r.returncode} tests {r2.returncode} {r2.stdout.strip().splitlines()[-1:]}", flush=True)
        for p in b["checks"]:
            print("   check", p, run_check(p), flush=True)
    finally:
        sh(f"git -C {REPO} checkout -- .")


def edit(id, edits):
    for f, old, new in edits:
        p = os.path.join(REPO, f)
        s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))


def quiet(id):
    print(f"== {id}", flush=True)
    try:
        edit(id, BENIGN[id])
        r = sh("bash /opt/vp/build.sh")
        r2 = sh("bash /opt/vp/test.sh /tmp/mkbugs-out.json")
        print(f"   build {r.returncode} tests {r2.returncode} {r2.stdout.strip().splitlines()[-1:]}", flush=True)
        bad = 0
        for n in range(1, 18):
            c = run_check(f"C{n:02}")
            if c[0] != 0:
                bad += 1
                print(f"   ALARM C{n:02}", c, flush=True)
        print(f"   {bad} alarms", flush=True)
    finally:
        sh(f"git -C {REPO} checkout -- .")


def main():
    for f in sorted(glob.glob(HERE + "/bugs/*.py") + glob.glob(HERE + "/benign/*.py")):
        exec(compile(open(f).read(), f, "exec"), globals())
    what = sys.argv[1]
    ids = sys.argv[2:] or list(BENIGN if what == "benign" else BUGS)
    for i in ids:
        if what == "make":
            make(i)
        elif what == "test":
            test(i)
        elif what == "benign":
            quiet(i)
        elif what == "demo":
            BUGS[i]["checks"] = []
            make(i)
            test(i)
        elif what == "check":
            test(i, full=False)


main()
