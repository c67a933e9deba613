"""Development tool: systematic small mutations of pyqlaw on a scratch copy, judged by the checks (quick tier).
   usage: mutate.py SCRATCHDIR OUT.jsonl [file-regex] [sample-fraction] [seed]
   Runs a copy of /verif's committed work (so that /verif's evidence stays) against a copy of /repo. Not a registered check."""
import ast, sys, os, re, subprocess, json, random, shutil, time
W, OUT = sys.argv[1], sys.argv[2]
FILES = re.compile(sys.argv[3] if len(sys.argv) > 3 else "."); FRAC = float(sys.argv[4]) if len(sys.argv) > 4 else 1.0; SEED = int(sys.argv[5]) if len(sys.argv) > 5 else 0
CHECKS = {"_elements.py": "C01 C02 C03 C20", "_convergence.py": "C16 C12", "_integrate.py": "C05 C10", "_eom.py": "C04 C10", "_lyapunov.py": "C07 C10 C23", "_symbolic.py": "C06 C07 C08",
          "_perturbations.py": "C17 C18", "_plot_helper.py": "C24 C21", "_plot_methods.py": "C21", "_transformations.py": "C24 C21"}
QL = {"solve": "C10 C09 C12 C13 C14 C08 C11 C23 C27 C26 C15 C03 C22 C25", "evaluate_osculating_qdot": "C08", "interpolate_states": "C20", "get_cartesian_history": "C20", "save_to_dict": "C19", "default": "C19",
      "__init__": "C26 C12 C16 C15 C08 C09 C10 C21 C19 C20", "set_problem": "C26 C15 C13 C14", "mu": "C26", "elements_type": "C26", "integrator": "C26",
      "pretty": "C27", "pretty_results": "C27", "pretty_settings": "C27"}
SKIPF = set()
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/"], ast.Div: ["*"], ast.Pow: ["*"], ast.Mod: ["*"], ast.MatMult: []}
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">"], ast.Gt: [">=", "<"], ast.GtE: [">", "<"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"]}
NAMES = {"sin": "cos", "cos": "sin", "max": "min", "min": "max", "arctan2": "hypot", "sqrt": "abs", "tan": "sin", "exp": "abs", "abs": "sqrt", "arccos": "arcsin", "True": "False"}


def muts(path):
    src = open(path).read(); lines = src.splitlines(keepends=True); off = [0]
    for l in lines: off.append(off[-1] + len(l.encode()))
    b = src.encode(); pos = lambda ln, c: off[ln - 1] + c
    span = lambda n: (pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset))
    out = []
    tree = ast.parse(src)
    for p in ast.walk(tree):
        for ch in ast.iter_child_nodes(p): ch.parent = p

    def fn(n):
        f = None
        while hasattr(n, "parent"):
            n = n.parent
            if isinstance(n, (ast.FunctionDef,)): f = n.name if f is None or True else f
        return f

    def add(n, s, e, new, what): out.append((n.lineno, fn(n), s, e, new, what))
    for n in ast.walk(tree):
        if fn(n) is None and not isinstance(n, ast.FunctionDef): continue
        if isinstance(n, ast.BinOp) and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            s, e = span(n.left)[1], span(n.right)[0]
            mid = b[s:e].decode()
            sym = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.Pow: "**", ast.Mod: "%", ast.MatMult: "@"}.get(type(n.op))
            for o in BIN.get(type(n.op), []):
                add(n, s, e, mid.replace(sym, o, 1), f"{sym} -> {o}")
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            s, e = span(n.left)[1], span(n.comparators[0])[0]
            for o in CMP.get(type(n.ops[0]), []): add(n, s, e, f" {o} ", f"{b[s:e].decode().strip()} -> {o}")
        elif isinstance(n, ast.BoolOp):
            s, e = span(n.values[0])[1], span(n.values[1])[0]
            mid = b[s:e].decode(); o = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
            if mid.count(o[0]) == 1: add(n, s, e, mid.replace(*o), f"{o[0]} -> {o[1]}")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            s, e = span(n); s2 = span(n.operand)[0]
            add(n, s, s2, "", "drop unary")
        elif isinstance(n, ast.Constant) and not isinstance(n.value, (str, bytes)) and n.value is not None and n.value is not Ellipsis:
            s, e = span(n); v = n.value
            if isinstance(v, bool): add(n, s, e, str(not v), f"{v} -> {not v}")
            elif isinstance(v, int): add(n, s, e, str(v + 1), f"{v} -> {v+1}"); v and add(n, s, e, str(v - 1), f"{v} -> {v-1}")
            else: add(n, s, e, repr(v * 1.5 if v else 0.5), f"{v} -> {v*1.5 if v else .5}")
        elif isinstance(n, ast.Attribute) and n.attr in NAMES:
            s, e = span(n); add(n, e - len(n.attr), e, NAMES[n.attr], f"{n.attr} -> {NAMES[n.attr]}")
        elif isinstance(n, ast.Name) and n.id in NAMES:
            s, e = span(n); add(n, s, e, NAMES[n.id], f"{n.id} -> {NAMES[n.id]}")
        elif isinstance(n, (ast.Assign, ast.AugAssign)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
            s, e = span(n)
            if not b[s:e].startswith(b"print"): add(n, s, e, "pass", "delete: " + b[s:e].decode().split("\n")[0][:60])
        if isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
            (s0, e0), (s1, e1) = span(n.args[0]), span(n.args[1])
            if b[s0:e0] != b[s1:e1]: add(n, s0, e1, (b[s1:e1] + b[e0:s1] + b[s0:e0]).decode(), "swap first two arguments")
    return b, out


def main():
    shutil.rmtree(W, ignore_errors=True); os.makedirs(W)
    subprocess.run(f"git clone -q /verif {W}/v && cp -a /repo {W}/r", shell=True, check=True)
    todo = []
    for f in CHECKS | {"_qlaw.py": ""}:
        if not FILES.search(f): continue
        b, ms = muts(f"/repo/pyqlaw/{f}")
        for m in ms:
            if m[1] in SKIPF: continue
            todo.append((f, m))
    rng = random.Random(SEED); rng.shuffle(todo); todo = todo[:int(len(todo) * FRAC)]
    print(len(todo), "mutants", flush=True)
    for i, (f, (ln, fun, s, e, new, what)) in enumerate(todo):
        path = f"{W}/r/pyqlaw/{f}"; orig = open(f"/repo/pyqlaw/{f}", "rb").read()
        mut = orig[:s] + new.encode() + orig[e:]
        try: compile(mut, path, "exec")
        except SyntaxError: continue
        open(path, "wb").write(mut)
        cs = (CHECKS.get(f) or QL.get(fun, "C26 C15 C10")).split()
        killed, t0 = None, time.time()
        for c in cs:
            r = subprocess.run(["./check", c, "quick"], cwd=f"{W}/v", env=dict(os.environ, VQ_REPO=f"{W}/r", VERIF_SEED="1"), capture_output=True, text=True)
            if r.returncode:
                killed = (c, r.returncode, (r.stdout + r.stderr)[-200:] if r.returncode != 1 else r.stdout[:200]); break
        open(path, "wb").write(orig)
        rec = dict(file=f, line=ln, fun=fun, what=what, src=orig.splitlines()[ln - 1].decode().strip()[:120], killed=killed, t=round(time.time() - t0))
        open(OUT, "a").write(json.dumps(rec) + "\n")


main()
