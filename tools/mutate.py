"""Developer tool: systematic small mutations of the library, tried on scratch copies.

mutate.py OUT.jsonl [--list] [--match REGEX] [--par N] [--jobs N] [--scale X] [--skip OLD.jsonl]
Each mutant is run through the checks of the function it touches until one reports
a violation; survivors are to be read by a human.
"""

import argparse
import ast
import copy
import json
import os
import pathlib
import re
import shutil
import subprocess
from concurrent.futures import ThreadPoolExecutor

V = pathlib.Path(__file__).resolve().parent.parent
FILES = ["abc", "geometry", "logic", "optimize", "scene", "utils", "defaults"]
MAP = [
    (r"abc\.Plottable\.plot", "C26"),
    (r"abc\.Plottable", "C19 C26"),
    (r"abc\.Interactable", "C07 C02"),
    (r"geometry\.(un)?stack_leaves", "C23"),
    (r"geometry\.segments_intersect", "C06 C13 C12"),
    (r"geometry\.path_length", "C24 C12"),
    (r"geometry\.normalize", "C24 C07 C12"),
    (r"geometry\.closest_point", "C20"),
    (r"geometry\.Point\.bounding", "C19"),
    (r"geometry\.Point", "C26"),
    (r"geometry\.Vertex\.plot", "C26"),
    (r"geometry\.Vertex", "C22 C02 C23 C07 C13"),
    (r"geometry\.Ray\.rotate", "C25"),
    (r"geometry\.Ray\.plot", "C26"),
    (r"geometry\.Ray\.bound", "C19"),
    (r"geometry\.Ray", "C07"),
    (r"geometry\.Wall\.evaluate", "C08 C12"),
    (r"geometry\.Wall\.intersects", "C06 C02"),
    (r"geometry\.Wall", "C07 C02 C13 C22"),
    (r"geometry\.RIS\.plot", "C26"),
    (r"geometry\.RIS", "C08 C22 C12"),
    (r"geometry\.Path\.plot", "C26"),
    (r"geometry\.Path\.bound", "C19"),
    (r"geometry\.Path\.length", "C24"),
    (r"geometry\.Path\.from", "C22 C03 C23 C27"),
    (r"geometry\.Path", "C02 C13 C23"),
    (r"geometry\.parametric", "C22"),
    (r"geometry\.ImagePath", "C01 C12 C23"),
    (r"geometry\.(Fermat|Min)Path", "C22 C21 C12"),
    (r"logic\.(set_|enable_|disable_)", "C15"),
    (r"logic", "C14 C13 C15 C12"),
    (r"optimize", "C21 C22"),
    (r"scene\.(Readable|PyTreeDict)", "C16 C23 C27"),
    (r"scene\.all_path_cand", "C04"),
    (r"scene\.Scene\.(with|update|add|rename|filter)", "C16"),
    (r"scene\.Scene\.(get_object|stacked|from_stacked)", "C23 C16"),
    (r"scene\.Scene\.(from_geojson|_$)", "C18"),
    (r"scene\.Scene\.(from_walls|from_scene|random|basic|square)", "C17 C18"),
    (r"scene\.Scene\.plot", "C26"),
    (r"scene\.Scene\.bounding", "C19"),
    (r"scene\.Scene\.(get_closest|all_trans)", "C20"),
    (r"scene\.Scene\.all_path_cand", "C04 C03"),
    (r"scene\.Scene\.(all_|get_inter)", "C03 C09 C23"),
    (r"scene\.Scene\.accumulate_over", "C09 C23 C12"),
    (r"scene\.Scene\.accumulate_on", "C10 C11 C23"),
    (r"utils", "C24"),
    (r"defaults", "C02 C24 C21 C14 C06"),
    (r".*", "C27 C16 C23"),
]
PAIRS = [
    ("transmitters", "receivers"), ("tx", "rx"), ("minimum", "maximum"), ("min", "max"),
    ("logical_and", "logical_or"), ("logical_all", "logical_any"), ("all", "any"), ("argmin", "argmax"),
    ("floor", "ceil"), ("zeros", "ones"), ("true_value", "false_value"), ("is_true", "is_false"),
    ("greater", "less"), ("greater_equal", "less_equal"), ("xlim", "ylim"), ("tx_coords", "rx_coords"),
    ("origin", "dest"), ("min_order", "max_order"), ("vmin", "vmax"), ("append", "extend"),
]
SWAP = {a: b for p in PAIRS for a, b in (p, p[::-1])}
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.GtE], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.LtE], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.Pow: [ast.Mult], ast.FloorDiv: [ast.Div], ast.MatMult: [ast.Mult], ast.Mod: [ast.Div]}


def variants(node):
    """(description, function editing the node in place / returning a replacement)."""
    out = []

    def setter(attr, val):
        def f(n):
            setattr(n, attr, val)
            return n

        return f

    if isinstance(node, ast.Compare) and len(node.ops) == 1:
        for o in CMP.get(type(node.ops[0]), []):
            out.append((f"cmp->{o.__name__}", setter("ops", [o()])))
    if isinstance(node, ast.BinOp):
        for o in BIN.get(type(node.op), []):
            out.append((f"bin->{o.__name__}", setter("op", o())))
        if isinstance(node.op, (ast.Sub, ast.Div)):
            out.append(("swap operands", lambda n: ast.BinOp(n.right, n.op, n.left)))
        out.append(("left operand", lambda n: n.left))
    if isinstance(node, ast.UnaryOp):
        out.append(("drop unary", lambda n: n.operand))
    if isinstance(node, ast.BoolOp):
        out.append(("and<->or", setter("op", ast.Or() if isinstance(node.op, ast.And) else ast.And())))
        out.append(("first of bool", lambda n: n.values[0]))
    if isinstance(node, ast.Constant):
        v = node.value
        if isinstance(v, bool):
            out.append(("flip bool", setter("value", not v)))
        elif isinstance(v, (int, float)):
            out.append(("+1", setter("value", v + 1)))
            if v:
                out.append(("->0", setter("value", type(v)(0))))
            if isinstance(v, float) and v:
                out.append(("*2", setter("value", v * 2)))
        elif isinstance(v, str):
            out.append(("string", setter("value", v + "x")))
    if isinstance(node, ast.Call):
        for i, k in enumerate(node.keywords):
            def drop(n, i=i):
                del n.keywords[i]
                return n
            out.append((f"drop kw {k.arg}", drop))
        if len(node.args) >= 2 and not any(isinstance(a, ast.Starred) for a in node.args[:2]):
            def sw(n):
                n.args[0], n.args[1] = n.args[1], n.args[0]
                return n
            out.append(("swap args", sw))
        if node.args and not isinstance(node.args[0], ast.Starred):
            out.append(("first arg", lambda n: n.args[0]))
        for i, a in enumerate(node.args):
            if isinstance(a, ast.Starred):
                def drops(n, i=i):
                    del n.args[i]
                    return n
                out.append(("drop star", drops))
        if isinstance(node.func, ast.Attribute) and not isinstance(node.func.value, ast.Name):
            out.append(("method receiver", lambda n: n.func.value))
    if isinstance(node, ast.Attribute) and node.attr in SWAP:
        out.append(("attr", setter("attr", SWAP[node.attr])))
    if isinstance(node, ast.Name) and node.id in SWAP:
        out.append(("name", setter("id", SWAP[node.id])))
    if isinstance(node, ast.Slice):
        if node.lower is not None:
            out.append(("drop lower", setter("lower", None)))
        if node.upper is not None:
            out.append(("drop upper", setter("upper", None)))
    if isinstance(node, ast.IfExp):
        out.append(("then", lambda n: n.body))
        out.append(("else", lambda n: n.orelse))
    if isinstance(node, ast.If):
        out.append(("if True", setter("test", ast.Constant(True))))
        out.append(("if False", setter("test", ast.Constant(False))))
    if isinstance(node, ast.Tuple) and len(node.elts) == 2:
        out.append(("swap tuple", lambda n: ast.Tuple(n.elts[::-1], n.ctx)))
    if isinstance(node, ast.comprehension) and node.ifs:
        out.append(("drop comprehension if", setter("ifs", [])))
    if isinstance(node, (ast.Expr, ast.AugAssign)) and not (isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant)):
        out.append(("delete", lambda n: ast.Pass()))
    if isinstance(node, (ast.For, ast.While)):
        out.append(("break at end", lambda n: (n.body.append(ast.Break()), n)[1]))
    if isinstance(node, (ast.Continue,)):
        out.append(("continue->break", lambda n: ast.Break()))
    if isinstance(node, ast.FunctionDef):
        for i, d in enumerate(node.decorator_list):
            def dec(n, i=i):
                del n.decorator_list[i]
                return n
            out.append((f"drop @{ast.unparse(d)[:40]}", dec))
    return out


def sites(tree, mod):
    """Yields (where, path to node, index of variant, description)."""
    out = []

    def visit(node, path, where):
        if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
            where = f"{where}.{node.name}"
            if isinstance(node, ast.FunctionDef) and any("overload" in ast.unparse(d) for d in node.decorator_list):
                return
        for k, (d, _) in enumerate(variants(node)):
            out.append((where, path, k, d, getattr(node, "lineno", 0), ast.unparse(node)[:100].split("\n")[0] if not isinstance(node, ast.comprehension) else "comp"))
        for field, val in ast.iter_fields(node):
            if field in ("annotation", "returns", "decorator_list", "bases", "type_params", "type_comment"):
                continue
            if isinstance(val, list):
                for i, x in enumerate(val):
                    if isinstance(x, (ast.Import, ast.ImportFrom)) or not isinstance(x, ast.AST):
                        continue
                    if isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant):
                        continue
                    visit(x, [*path, (field, i)], where)
            elif isinstance(val, ast.AST):
                visit(val, [*path, (field, None)], where)

    visit(tree, [], mod)
    return [s for s in out if s[0] != mod or mod == "defaults"]


def mutate(tree, path, k):
    tree = copy.deepcopy(tree)
    parent, last, node = None, None, tree
    for field, i in path:
        parent, last = node, (field, i)
        node = getattr(node, field) if i is None else getattr(node, field)[i]
    new = variants(node)[k][1](node)
    if new is not node:
        f, i = last
        if i is None:
            setattr(parent, f, new)
        else:
            getattr(parent, f)[i] = new
    return ast.fix_missing_locations(tree)


def checks_for(where):
    for r, cs in MAP:
        if re.match(r, where):
            return cs.split()
    return []


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--match", default="")
    ap.add_argument("--par", type=int, default=2)
    ap.add_argument("--jobs", default="3")
    ap.add_argument("--scale", default="0.4")
    ap.add_argument("--skip")
    ap.add_argument("--stride", type=int, default=1)
    a = ap.parse_args()
    done = set()
    if a.skip and os.path.exists(a.skip):
        done = {json.loads(x)["id"] for x in open(a.skip)}
    todo = []
    for mod in FILES:
        src = pathlib.Path(f"/repo/differt2d/{mod}.py").read_text()
        tree = ast.parse(src)
        base = ast.unparse(tree)
        for n, (where, path, k, d, line, text) in enumerate(sites(tree, mod)):
            ident = f"{mod}:{n}"
            if a.match and not re.search(a.match, where):
                continue
            if ident in done:
                continue
            new = mutate(tree, path, k)
            try:
                code = ast.unparse(new)
                compile(code, mod, "exec")
            except Exception:
                continue
            if code == base:
                continue
            todo.append((ident, mod, where, d, line, text, code))
    todo = todo[:: a.stride]
    print(len(todo), "mutants")
    if a.list:
        for t in todo:
            print(*t[:6])
        return
    out = open(a.out, "a")

    def one(t):
        ident, mod, where, d, line, text, code = t
        w = pathlib.Path("/tmp/m") / ident.replace(":", "_")
        shutil.rmtree(w, ignore_errors=True)
        shutil.copytree("/repo", w, ignore=shutil.ignore_patterns(".git", "__pycache__", ".ruff_cache", "docs", "tests", "static"))
        (w / f"differt2d/{mod}.py").write_text(code)
        res, how = "SURVIVED", []
        for c in checks_for(where):
            p = subprocess.run([str(V / "check.sh"), c, "--no-evidence", "--scale", a.scale, "--jobs", a.jobs], env={**os.environ, "PBT_REPO": str(w), "PBT_FAST": "1"}, capture_output=True, text=True)
            how.append(p.returncode)
            if p.returncode == 1:
                res = c
                break
            if p.returncode == 2:
                how[-1] = "2 " + (p.stderr + p.stdout)[-300:]
                if "could not load" in p.stderr or "ImportError" in p.stderr or "Traceback" in p.stderr:
                    res = "ERROR"
                    break
        shutil.rmtree(w, ignore_errors=True)
        out.write(json.dumps({"id": ident, "where": where, "line": line, "what": d, "text": text, "res": res, "how": how}) + "\n")
        out.flush()

    with ThreadPoolExecutor(a.par) as ex:
        list(ex.map(one, todo))


main()
