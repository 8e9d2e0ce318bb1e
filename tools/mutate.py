#!/usr/bin/env python3
"""Mutation analysis: which small changes of the library does no check notice?

  mutate.py list                    number of mutants per file
  mutate.py run OUT [FILTER] [N]    run up to N (random order) and append to OUT

A development aid: mutants are made in scratch copies; only those that pass the
stable tests are handed to the checks (with few runs each, until one notices).
"""
import ast, json, os, random, shutil, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = """snmp/manager/v1.py snmp/manager/v2c.py snmp/manager/v3.py snmp/manager/__init__.py
snmp/message/__init__.py snmp/message/v1.py snmp/message/v2c.py snmp/message/v3.py
snmp/dispatcher.py snmp/engine.py snmp/utils.py snmp/transport/__init__.py
snmp/transport/udp.py snmp/transport/generic/udp.py snmp/transport/posix/udp.py
snmp/security/usm/implementation.py snmp/security/usm/timekeeper.py
snmp/security/usm/users.py snmp/security/usm/credentials.py
snmp/security/usm/parameters.py snmp/security/usm/__init__.py
snmp/security/usm/priv/openssl/aes.py snmp/security/usm/priv/openssl/des.py
snmp/security/usm/priv/openssl/__init__.py snmp/security/usm/auth.py
snmp/pdu.py snmp/smi.py snmp/ber.py snmp/asn1.py""".split()
ORDER = "C09 C08 C06 C07 C15 C11 C02 C01 C13 C14 C12 C17 C16 C10 C03 C04 C05".split()
RUNS = {"C12": 80, "C15": 160, "C13": 250, "C01": 300, "C10": 250, "C09": 500}
DEFAULT = 400


def mutants(path):
    src = open(path).read()
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    raw = src.encode()
    pos = lambda line, col: off[line - 1] + col
    out = []

    def sub(node, text, kind):
        a, b = pos(node.lineno, node.col_offset), pos(node.end_lineno, node.end_col_offset)
        out.append((kind, node.lineno, a, b, text))

    def text(node):
        return raw[pos(node.lineno, node.col_offset):
                   pos(node.end_lineno, node.end_col_offset)].decode()
    tree = ast.parse(src)
    skip = set()
    for node in ast.walk(tree):
        if isinstance(node, (ast.FunctionDef,)):
            if node.name in ("__repr__", "__str__", "toString"):
                for n in ast.walk(node):
                    skip.add(n)
    infunc = set()
    for node in ast.walk(tree):
        if isinstance(node, ast.FunctionDef):
            for n in ast.walk(node):
                if n is not node:
                    infunc.add(n)
    CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=",
           ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in",
           ast.NotIn: "in"}
    for node in ast.walk(tree):
        if node in skip or node not in infunc:
            continue
        if isinstance(node, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete, ast.Raise)):
            if isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant):
                continue
            sub(node, "pass", "delete")
        elif isinstance(node, ast.Return) and node.value is not None:
            sub(node, "return None", "return-none") if not (
                isinstance(node.value, ast.Constant)) else None
            if isinstance(node.value, ast.Constant) and isinstance(node.value.value, bool):
                sub(node, f"return {not node.value.value}", "return-flip")
        elif isinstance(node, (ast.If, ast.While)):
            t = text(node.test)
            sub(node.test, f"not ({t})", "negate")
            sub(node.test, "True" if isinstance(node, ast.If) else "False", "const")
            if isinstance(node, ast.If):
                sub(node.test, "False", "const")
        elif isinstance(node, ast.With):
            item = node.items[0]
            a = pos(node.lineno, node.col_offset)
            e = node.items[-1]
            e = e.optional_vars or e.context_expr
            b = pos(e.end_lineno, e.end_col_offset)
            if item.optional_vars is None:
                out.append(("unlock", node.lineno, a, b, "if True"))
        elif isinstance(node, ast.Compare) and len(node.ops) == 1:
            op = CMP.get(type(node.ops[0]))
            if op:
                sub(node, f"{text(node.left)} {op} {text(node.comparators[0])}", "compare")
        elif isinstance(node, ast.BoolOp):
            op = " or " if isinstance(node.op, ast.And) else " and "
            sub(node, "(" + op.join(f"({text(v)})" for v in node.values) + ")", "boolop")
            for v in node.values:
                sub(node, "(" + (" and " if isinstance(node.op, ast.And) else " or ").join(
                    f"({text(x)})" for x in node.values if x is not v) + ")", "drop-term")
        elif isinstance(node, ast.Constant) and isinstance(node.value, (int, float)) \
                and not isinstance(node.value, bool):
            sub(node, repr(node.value + 1), "plus-one")
        elif isinstance(node, ast.BinOp) and isinstance(node.op, (ast.Add, ast.Sub)):
            op = "-" if isinstance(node.op, ast.Add) else "+"
            sub(node, f"{text(node.left)} {op} {text(node.right)}", "arith")
    res = []
    for kind, line, a, b, t in out:
        new = raw[:a] + t.encode() + raw[b:]
        try:
            compile(new, path, "exec")
        except SyntaxError:
            continue
        if new != raw:
            res.append((kind, line, raw[a:b].decode(), t, new))
    return res


def main():
    import plant
    repo = "/repo"
    if sys.argv[1] == "list":
        n = 0
        for f in FILES:
            m = mutants(os.path.join(repo, f))
            n += len(m)
            print(f, len(m))
        print(n)
        return
    outf = sys.argv[2]
    filt = sys.argv[3] if len(sys.argv) > 3 else ""
    limit = int(sys.argv[4]) if len(sys.argv) > 4 else 10 ** 9
    done = set()
    if os.path.exists(outf):
        for l in open(outf):
            d = json.loads(l)
            done.add((d["file"], d["kind"], d["line"], d["old"], d["new"]))
    todo = []
    for f in FILES:
        if filt in f:
            for m in mutants(os.path.join(repo, f)):
                if (f,) + m[:4] not in done:
                    todo.append((f,) + m)
    random.Random(7).shuffle(todo)
    todo = todo[:limit]
    from concurrent.futures import ThreadPoolExecutor
    plant.SCRATCH = "/tmp/mut"

    def test(item):
        i, (f, kind, line, old, new, data) = item
        d = plant.copy(f"m{i}")
        open(os.path.join(d, f), "wb").write(data)
        return i, d, plant.stable(d, f"m{i}")
    with ThreadPoolExecutor(5) as ex, open(outf, "a") as out:
        for base in range(0, len(todo), 10):
            chunk = list(enumerate(todo))[base:base + 10]
            for (i, d, miss), (_, (f, kind, line, old, new, data)) in zip(
                    ex.map(test, chunk), chunk):
                rec = {"file": f, "kind": kind, "line": line, "old": old, "new": new}
                t = time.monotonic()
                if miss:
                    rec["by"] = "tests"
                else:
                    rec["by"] = None
                    order = list(ORDER)
                    for p in order:
                        r = subprocess.run(
                            ["python3", os.path.join(ROOT, "check.py"), "--property", p,
                             "--runs", str(RUNS.get(p, DEFAULT)), "--jobs", "8"], cwd=ROOT,
                            env=dict(os.environ, SIM_REPO=d, VERIF_SEED="1",
                                     SIM_NOSHRINK="1"),
                            stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                        if r.returncode != 0:
                            rec["by"] = f"{p}:{r.returncode}"
                            break
                rec["s"] = round(time.monotonic() - t)
                out.write(json.dumps(rec) + "\n")
                out.flush()
                shutil.rmtree(d, ignore_errors=True)


main()
