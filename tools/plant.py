#!/usr/bin/env python3
"""Turn the definitions in tools/bugs*.py into /verif/seeded/<id>/, confirming each.

  plant.py [ID ...]     (re)build and confirm
  plant.py --hunt [ID ...] [--all]   run the property's quick check against each

Works in scratch copies of /repo, never in /repo itself.
"""
import importlib.util, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SCRATCH = "/tmp/plant"
PY = "/opt/venv/bin/python"


# break lines that only a fix in /repo added: hunted, but not kept in seeded/
OWN = set("""c06-expired-strict c06-late-refresh c06-unsent-wait c07-clear-event
c12-uncache-answered c13-socket-leak c15-user-lock c07-second-wait c14-empty-datagram
c15-lock-order c04-discovery-user c16-wall-clock c04-shared-flags c06-extends""".split())


def load():
    bugs = {}
    for f in sorted(os.listdir(HERE)):
        if re.match(r"bugs\d*\.py$", f):
            spec = importlib.util.spec_from_file_location(f[:-3], os.path.join(HERE, f))
            mod = importlib.util.module_from_spec(spec)
            spec.loader.exec_module(mod)
            for b in mod.BUGS:
                assert b["id"] not in bugs, b["id"]
                bugs[b["id"]] = b
    return bugs


def copy(name):
    d = os.path.join(SCRATCH, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(SCRATCH, exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", d], check=True)
    return d


def build(d):
    env = dict(os.environ, OPENSSL_CONF="/opt/vp/openssl-legacy.cnf")
    src = os.path.join(d, "snmp/cffi/openssl.py")
    if open(src).read() == open("/repo/snmp/cffi/openssl.py").read():
        return True
    code = ("import runpy, sys, shutil, tempfile; t = tempfile.mkdtemp();"
            "f = runpy.run_path(sys.argv[1])['ffi'].compile(tmpdir=t);"
            "import os; shutil.copy(f, os.path.join(sys.argv[2], 'snmp', os.path.basename(f)))")
    return subprocess.run([PY, "-B", "-c", code, src, d], env=env).returncode == 0


def stable(d, name):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPATH=d,
               OPENSSL_CONF="/opt/vp/openssl-legacy.cnf")
    xml, out = f"{SCRATCH}/{name}.xml", f"{SCRATCH}/{name}.json"
    subprocess.run([PY, "-m", "pytest", "-q", "-c", "/dev/null", f"--rootdir={d}", "-p",
                    "no:cacheprovider", "--import-mode=importlib", "-o", "python_files=*.py",
                    "--ignore=test/__main__.py", "--timeout=300",
                    "--continue-on-collection-errors", "-o", "junit_family=xunit2",
                    f"--junitxml={xml}", "test"], cwd=d, env=env,
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    subprocess.run(["/usr/bin/python3", "/opt/vp/results.py", out, f"junit:{xml}"],
                   stdout=subprocess.DEVNULL)
    base = names(json.load(open("/opt/vp/BASELINE.json")))
    return sorted(base - names(json.load(open(out))))


def names(d):
    for k in ("passed", "pass", "stable"):
        if k in d:
            return set(d[k])
    return set(k for k, v in d.get("tests", d).items() if v in ("pass", "passed", True))


def demo(folder, cwd):
    env = {k: v for k, v in os.environ.items() if k not in ("PYTHONPATH",)}
    env["SIM_NOTHING"] = "1"
    p = subprocess.run(["bash", os.path.join(folder, "demo.sh")], cwd=cwd, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    return p.returncode, p.stdout.decode(errors="replace")[-600:]


SH = """#!/bin/bash
# exit 0: behaves as it should; run in the source tree
here=$(cd "$(dirname "$0")" && pwd)
py=/opt/venv/bin/python; [ -x "$py" ] || py=python3
exec timeout 250 "$py" -B "$here/demo.py"
"""


def apply(b, d):
    for edit in b["edits"]:
        f, old, new = edit[:3]
        p = os.path.join(d, f)
        s = open(p).read()
        n = s.count(old)
        if n != (edit[3] if len(edit) > 3 else 1):
            return f"{f}: {n} matches for {old!r}"
        open(p, "w").write(s.replace(old, new))


def plant(b):
    d = copy(b["id"])
    try:
        err = apply(b, d)
        if err:
            return b["id"], "EDIT " + err
        diff = subprocess.run(["git", "-C", d, "diff"], stdout=subprocess.PIPE).stdout
        if not build(d):
            return b["id"], "BUILD"
        miss = stable(d, b["id"])
        if miss:
            return b["id"], f"TESTS {len(miss)} fail: {miss[:3]}"
        folder = os.path.join(ROOT, "seeded", b["id"])
        shutil.rmtree(folder, ignore_errors=True)
        os.makedirs(folder)
        open(os.path.join(folder, "patch.diff"), "wb").write(diff)
        for f in b.get("files", ("rig.py", "wire.py", "legacy.cnf")):
            shutil.copy(os.path.join(HERE, "demo", f), folder)
        open(os.path.join(folder, "demo.py"), "w").write(b["demo"].lstrip("\n"))
        open(os.path.join(folder, "demo.sh"), "w").write(SH)
        json.dump({"property": b["property"], "needs": b["needs"],
                   "what_it_breaks": b["breaks"]},
                  open(os.path.join(folder, "meta.json"), "w"), indent=1)
        rc0, out0 = demo(folder, "/repo")
        rc1, out1 = demo(folder, d)
        if rc0 != 0 or rc1 == 0:
            shutil.rmtree(folder)
            return b["id"], f"DEMO clean={rc0} patched={rc1}\n{out0}\n---\n{out1}"
        return b["id"], "ok: " + out1.strip().splitlines()[-1][:150] if out1.strip() else "ok"
    finally:
        shutil.rmtree(d, ignore_errors=True)


def hunt(b, props=None, tier="quick"):
    d = copy("h-" + b["id"])
    res = []
    try:
        err = apply(b, d)
        if err:
            return "EDIT " + err
        for p in props or [b["property"]]:
            t = time.monotonic()
            r = subprocess.run(["python3", os.path.join(ROOT, "check.py"), "--property", p,
                                "--tier", tier], cwd=ROOT,
                               env=dict(os.environ, SIM_REPO=d, VERIF_SEED="1"),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            out = r.stdout.decode(errors="replace")
            line = [x for x in out.splitlines() if x.startswith("seed ") or "problem" in x
                    or "not confirmed" in x]
            res.append(f"{b['id']} {p} rc={r.returncode} {time.monotonic() - t:.0f}s "
                       + (line[-1][:160] if line else ""))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return "\n".join(res)


def main():
    args = sys.argv[1:]
    bugs = load()
    ids = [a for a in args if not a.startswith("--")]
    sel = [bugs[i] for i in ids] if ids else list(bugs.values())
    if "--hunt" in args:
        props = [f"C{i:02}" for i in range(1, 18)] if "--all" in args else None
        for b in sel:
            print(hunt(b, props), flush=True)
        return
    if not ids:
        sel = [b for b in sel
               if b["id"] not in OWN and not os.path.exists(os.path.join(ROOT, "seeded", b["id"], "patch.diff"))]
    with ThreadPoolExecutor(6) as ex:
        for i, r in ex.map(plant, sel):
            print(i, r, flush=True)


if __name__ == "__main__":
    main()
