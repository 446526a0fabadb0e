#!/usr/bin/env python3
"""mut.py OUT.jsonl [N per file] [substr of files ...]: mutate meshio's source, run the check of the file's property; survivors of the
check are run against the repository's tests of that format.  Works on copies (of /verif at /tmp/vmut, of /repo/src in /dev/shm)."""
import ast, json, os, random, shutil, subprocess, sys, concurrent.futures as cf
MAP = [("_vtk_common", ["C01", "C02"]), ("vtk/_", ["C01"]), ("vtu/", ["C02"]), ("_vtu", ["C02"]), ("gmsh/", ["C03"]), ("xdmf/time", ["C05"]), ("xdmf/", ["C04"]),
       ("cgns/", ["C06"]), ("h5m/", ["C06"]), ("hmf/", ["C06"]), ("med/", ["C06"]), ("exodus/", ["C07"]), ("abaqus/", ["C08"]), ("nastran/", ["C09"]),
       ("medit/", ["C10"]), ("ugrid/", ["C11"]), ("ply/", ["C12"]), ("stl/", ["C12"]), ("obj/", ["C12"]), ("off/", ["C12"]), ("wkt/", ["C12"]), ("neuroglancer/", ["C12"]),
       ("tecplot/", ["C13"]), ("avsucd/", ["C13"]), ("su2/", ["C13"]), ("mdpa/", ["C13"]), ("permas/", ["C13"]), ("flac3d/", ["C14"]), ("netgen/", ["C14"]),
       ("tetgen/", ["C14"]), ("dolfin/", ["C14"]), ("ansys/", ["C14"]), ("_mesh.py", ["C15", "C16"]), ("_helpers.py", ["C17"]), ("_cli/", ["C18"]), ("_files.py", ["C17"]),
       ("_common.py", ["C15", "C17", "C13", "C08"]), ("_cxml", ["C02", "C04"]), ("_xdmf", ["C04"]), ("svg/", ["C19"]), ("_svg", ["C19"])]
ONLY = {"med/": "med", "h5m/": "h5m", "cgns/": "cgns", "hmf/": "hmf", "ply/": "ply", "stl/": "stl", "obj/": "obj", "off/": "off", "neuroglancer/": "ng", "wkt/": "wkt", "tecplot/": "tec",
        "avsucd/": "avs", "su2/": "su2", "mdpa/": "mdpa", "permas/": "permas", "ansys/": "ans", "tetgen/": "tet", "dolfin/": "dol", "netgen/": "ng", "flac3d/": "flac"}
SRC = "/repo/src/meshio"
JOBS = int(os.environ.get("MJOBS", "6"))


# tests that fail on the unchanged tree (files missing here), one id per line
DESEL = " ".join(f"--deselect '{l.strip()}'" for l in open("/tmp/mutfail.txt")) if os.path.exists("/tmp/mutfail.txt") else ""


def prop_of(rel):
    for k, v in MAP:
        if rel.startswith(k) or ("/" not in k and k in rel):
            return v
    return None


CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.FloorDiv: "*", ast.Div: "*", ast.Mod: "//"}
SWAP = {"f8": "f4", "i8": "i4", "<f8": ">f8", "float64": "float32", "int64": "int32", "<i4": ">i4", "<": ">", ">": "<", "C": "F", "i4": "u4", "f4": "f8", "int32": "int64", "float32": "float64"}


def mutants(src):
    tree = ast.parse(src)
    lines = src.encode().split(b"\n")
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l) + 1)
    b = src.encode()

    def pos(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def seg(n):
        s, e = pos(n)
        return b[s:e].decode()
    out = []

    def add(n, new, what):
        s, e = pos(n)
        if b[s:e].decode() != new:
            out.append((s, e, new, f"{n.lineno}: {what}: {b[s:e].decode()[:70]!r} -> {new[:70]!r}"))

    def visit(n, infn, skip):
        if isinstance(n, (ast.FunctionDef,)):
            infn = True
        if isinstance(n, ast.Raise) or isinstance(n, ast.Assert):
            return
        if isinstance(n, ast.Call) and seg(n.func) in ("warn", "info", "error", "warnings.warn", "logging.warning", "register_format", "TypeError", "ReadError"):
            return
        if isinstance(n, ast.JoinedStr):
            for v in n.values:
                visit(v, infn, skip)
            return
        if isinstance(n, ast.If):
            rs = all(isinstance(x, ast.Raise) or (isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and seg(x.value.func) == "warn") for x in n.body)
            if not rs and infn:
                t = seg(n.test)
                add(n.test, "True", "cond")
                add(n.test, "False", "cond")
                visit(n.test, infn, skip)
            for x in n.body + n.orelse:
                visit(x, infn, skip)
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and infn:
            add(n, f"{seg(n.left)} {CMP[type(n.ops[0])]} {seg(n.comparators[0])}", "cmp")
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and infn and not isinstance(n.left, ast.Constant | ast.JoinedStr) or isinstance(n, ast.BinOp) and infn and isinstance(n.left, ast.Constant) and isinstance(n.left.value, int) and type(n.op) in BIN:
            add(n, f"({seg(n.left)} {BIN[type(n.op)]} {seg(n.right)})", "bin")
            if type(n.op) in (ast.Add, ast.Sub):
                add(n, f"({seg(n.left)})", "dropterm")
        if isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                add(n, str(not n.value), "bool")
            elif isinstance(n.value, int):
                add(n, str(n.value + 1), "const")
                if n.value > 0:
                    add(n, str(n.value - 1), "const")
            elif isinstance(n.value, str) and n.value in SWAP:
                add(n, repr(SWAP[n.value]), "str")
        if isinstance(n, ast.BoolOp) and infn:
            op = " or " if isinstance(n.op, ast.And) else " and "
            add(n, "(" + op.join(seg(v) for v in n.values) + ")", "boolop")
            for i in range(len(n.values)):
                add(n, seg(n.values[i]), "boolpart")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, seg(n.operand), "not")
        if isinstance(n, ast.Slice):
            if n.lower is not None:
                pass
        if isinstance(n, ast.Call) and infn:
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "astype", "strip", "lower", "newbyteorder", "T", "sort", "reshape", "flatten", "byteswap", "upper", "lstrip", "rstrip", "ravel", "squeeze", "tolist"):
                add(n, seg(n.func.value), "dropcall")
            if seg(n.func) in ("sorted", "np.sort", "np.unique", "reversed", "list", "np.asarray", "np.array", "np.ascontiguousarray", "int", "np.cumsum", "abs", "np.column_stack", "set", "np.flip") and n.args:
                add(n, seg(n.args[0]), "dropfn")
            if len(n.args) == 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                add(n, f"{seg(n.func)}({seg(n.args[1])}, {seg(n.args[0])}" + "".join(f", {seg(k)}" for k in n.keywords) + ")", "swapargs")
            for k in n.keywords:
                if k.arg and len(n.keywords) + len(n.args) > 1:
                    rest = [seg(a) for a in n.args] + [seg(q) for q in n.keywords if q is not k]
                    add(n, f"{seg(n.func)}({', '.join(rest)})", "dropkw")
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice) and infn:
            add(n, seg(n.value), "dropslice")
        if isinstance(n, (ast.Continue,)):
            add(n, "break", "continue")
            add(n, "pass", "continue")
        if isinstance(n, ast.Break):
            add(n, "pass", "break")
            add(n, "continue", "break")
        if infn and isinstance(n, (ast.AugAssign,)) :
            add(n, "pass", "delete")
        if infn and isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Subscript, ast.Attribute)):
            add(n, "pass", "delete")
        if infn and isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and seg(n.value.func) not in ("warn", "info", "error"):
            add(n, "pass", "delete")
        if infn and isinstance(n, ast.IfExp):
            add(n, seg(n.body), "ifexp")
            add(n, seg(n.orelse), "ifexp")
        if isinstance(n, (ast.List, ast.Tuple)) and infn and len(n.elts) >= 2 and all(isinstance(x, ast.Constant) for x in n.elts):
            e = [seg(x) for x in n.elts]
            e[-1], e[-2] = e[-2], e[-1]
            add(n, ("[%s]" if isinstance(n, ast.List) else "(%s)") % ", ".join(e), "swapelts")
            e = [seg(x) for x in n.elts][:-1]
            add(n, ("[%s]" if isinstance(n, ast.List) else "(%s,)") % ", ".join(e), "droplast")
        if isinstance(n, ast.Dict) and len(n.keys) >= 3 and not infn:
            # wrong entry of a table
            k = random.Random(len(out)).randrange(len(n.keys) - 1)
            add(n.values[k], seg(n.values[k + 1]), "dict")
        for ch in ast.iter_child_nodes(n):
            if isinstance(ch, ast.Expr) and isinstance(ch.value, ast.Constant):
                continue  # docstring
            visit(ch, infn, skip)
    visit(tree, False, False)
    seen, res = set(), []
    for s, e, new, what in out:
        t = (b[:s] + new.encode() + b[e:]).decode()
        if t in seen:
            continue
        seen.add(t)
        try:
            compile(t, "x", "exec")
        except (SyntaxError, ValueError):
            continue
        res.append((t, what))
    return res


def run(job):
    rel, text, what, k = job
    d = f"/dev/shm/mut{k}"
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo/src", d + "/src", ignore=shutil.ignore_patterns("__pycache__"))
    open(f"{d}/src/meshio/{rel}", "w").write(text)
    r = dict(file=rel, what=what, n=k, caught=None)
    try:
        fmt = rel.split("/")[0].lstrip("_").replace(".py", "")
        fmt = {"vtk_common": "vtk", "medit": "medit", "common": "mesh", "helpers": "helpers", "dolfin": "dolfin", "cxml": "vtu"}.get(fmt, fmt)
        q = subprocess.run(["bash", "-c", f"cp -a /repo/tests {d}/tests; cp /repo/pyproject.toml /repo/tox.ini {d}/ 2>/dev/null; cd {d} && PYTHONPATH={d}/src PYTHONDONTWRITEBYTECODE=1 timeout 300 /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider -p no:xdist --basetemp={d}/pt --timeout=60 --tb=no {DESEL} tests/test_{fmt}*.py 2>&1 | tail -4"], capture_output=True, text=True)
        if "failed" in q.stdout or "error" in q.stdout:
            r["caught"] = "tests"
            return r
        for p in prop_of(rel):
            os.makedirs(d + "/ev", exist_ok=True)
            try:
                q = subprocess.run(["./check.sh", p, "quick"] + [f"--only={v}" for k, v in ONLY.items() if rel.startswith(k)], cwd="/tmp/vmut", capture_output=True, text=True, timeout=900,
                                   env={**os.environ, "VP_REPO_SRC": d + "/src", "VP_JOBS": "1", "VP_FAILFAST": "1", "VP_EVIDENCE": d + "/ev"})
            except subprocess.TimeoutExpired:
                r["caught"] = r.get("caught") or "timeout"
                continue
            if q.returncode == 1 and "VIOLATION" in q.stdout:
                r["caught"] = p
                break
            if q.returncode != 0:
                r["rc"] = q.returncode
                r["err"] = (q.stdout + q.stderr)[-300:]
            notes = [l[:200] for l in q.stdout.splitlines() if l.startswith(("INCON", "UNDEC", "MISM", "ERROR"))]
            if notes:
                r["notes"] = notes[:3]
        if r["caught"] in (None, "timeout"):
            q = subprocess.run(["bash", "-c", f"cd {d} && PYTHONPATH={d}/src PYTHONDONTWRITEBYTECODE=1 timeout 600 /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider --basetemp={d}/pt --timeout=60 --tb=no {DESEL} tests 2>&1 | tail -4"], capture_output=True, text=True)
            o = q.stdout
            r["tests"] = o.strip().splitlines()[-2:] if o.strip() else ["?"]
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return r


def main():
    outp, n = sys.argv[1], int(sys.argv[2])
    subs = sys.argv[3:]
    jobs = []
    done = set()
    if os.path.exists(outp):
        for l in open(outp):
            x = json.loads(l)
            done.add((x["file"], x["what"]))
    for root, _, fs in os.walk(SRC):
        for f in sorted(fs):
            rel = os.path.relpath(os.path.join(root, f), SRC)
            if not f.endswith(".py") or f == "__init__.py" or prop_of(rel) is None or rel == "__about__.py":
                continue
            if subs and not any(s in rel for s in subs):
                continue
            ms = mutants(open(os.path.join(SRC, rel)).read())
            rnd = random.Random(rel + os.environ.get("MSEED", ""))
            rnd.shuffle(ms)
            for t, w in ms[:n]:
                if (rel, w) not in done:
                    jobs.append((rel, t, w))
    random.Random(1).shuffle(jobs)
    jobs = [(*j, k) for k, j in enumerate(jobs)]
    print(len(jobs), "mutants", flush=True)
    with cf.ThreadPoolExecutor(JOBS) as ex, open(outp, "a") as f:
        for r in (x.result() for x in cf.as_completed([ex.submit(run, j) for j in jobs])):
            f.write(json.dumps(r) + "\n")
            f.flush()


if __name__ == "__main__":
    main()
