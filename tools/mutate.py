#!/usr/bin/env python3
"""
Mutation campaign (development only): makes small changes of the code one at a
time in scratch copies, keeps those the test suite does not notice, and tells
which of them the checks do not notice either.

  mutate.py [--semantic] [--jobs N] [--limit N] [--out F] MODULE [QUALNAME...] -- CHECK...
"""
import ast, copy, json, os, re, shutil, subprocess, sys, random, concurrent.futures as cf
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
import bug
REPO = "/repo"
WORK = "/tmp/mutants"

CMP = {ast.Lt: [ast.LtE], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
       ast.Is: [ast.IsNot, ast.Eq], ast.IsNot: [ast.Is, ast.NotEq], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.FloorDiv: ast.Mult, ast.Mod: ast.FloorDiv, ast.BitOr: ast.BitAnd, ast.BitAnd: ast.BitOr}


def mutants(tree):
    "Yields (line, what, function that changes the tree and returns an undo)."
    for node in list(ast.walk(tree)):
        line = getattr(node, "lineno", 0)
        def setter(obj, attr, new):
            def do():
                old = getattr(obj, attr)
                setattr(obj, attr, new)
                return lambda: setattr(obj, attr, old)
            return do
        def item(lst, i, new):
            def do():
                old = list(lst)
                lst[i:i + 1] = new
                if not lst:
                    lst.append(ast.Pass())
                def undo():
                    lst[:] = old
                return undo
            return do
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            for n in CMP.get(type(node.ops[0]), []):
                yield line, f"{type(node.ops[0]).__name__}->{n.__name__}", setter(node, "ops", [n()])
        if isinstance(node, ast.BinOp) and type(node.op) in BIN:
            yield line, f"{type(node.op).__name__}->{BIN[type(node.op)].__name__}", setter(node, "op", BIN[type(node.op)]())
        if isinstance(node, ast.AugAssign) and type(node.op) in BIN:
            yield line, f"aug {type(node.op).__name__}->{BIN[type(node.op)].__name__}", setter(node, "op", BIN[type(node.op)]())
        if isinstance(node, ast.BoolOp):
            yield line, "and<->or", setter(node, "op", ast.Or() if isinstance(node.op, ast.And) else ast.And())
            for i in range(len(node.values)):
                if len(node.values) > 1:
                    yield line, f"drop operand {i}", item(node.values, i, []) if len(node.values) > 2 else setter(node, "values", [node.values[1 - i]] * 2)
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            yield line, "drop not", setter(node, "operand", ast.UnaryOp(ast.Not(), node.operand))
        if isinstance(node, ast.Constant):
            if node.value is True or node.value is False:
                yield line, f"{node.value}->{not node.value}", setter(node, "value", not node.value)
            elif isinstance(node.value, int):
                yield line, f"{node.value}->{node.value + 1}", setter(node, "value", node.value + 1)
                if node.value:
                    yield line, f"{node.value}->{node.value - 1}", setter(node, "value", node.value - 1)
        if isinstance(node, (ast.If, ast.While, ast.IfExp)):
            yield line, "cond True", setter(node, "test", ast.Constant(True))
            yield line, "cond False", setter(node, "test", ast.Constant(False))
        for field in ("body", "orelse", "finalbody"):
            lst = getattr(node, field, None)
            if isinstance(lst, list):
                for i, st in enumerate(lst):
                    if isinstance(st, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete, ast.Raise, ast.Continue, ast.Break)) and not (isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant)):
                        yield st.lineno, f"delete {ast.unparse(st)[:60]!r}", item(lst, i, [ast.Pass()])
                    if isinstance(st, ast.With):
                        yield st.lineno, "drop with", item(lst, i, st.body)
                    if isinstance(st, ast.Try) and st.handlers:
                        yield st.lineno, "drop try", item(lst, i, st.body + st.orelse + st.finalbody)
                    if isinstance(st, ast.Try) and st.finalbody and not st.handlers:
                        yield st.lineno, "finally without try", item(lst, i, st.body + st.finalbody)
                    if isinstance(st, ast.Return) and st.value is not None:
                        yield st.lineno, "return None", item(lst, i, [ast.Return(ast.Constant(None))])
                    if i and isinstance(st, (ast.Expr, ast.Assign, ast.AugAssign)) and isinstance(lst[i - 1], (ast.Expr, ast.Assign, ast.AugAssign)) and not isinstance(getattr(lst[i - 1], "value", None), ast.Constant):
                        def swap(lst=lst, i=i):
                            lst[i - 1], lst[i] = lst[i], lst[i - 1]
                            def undo():
                                lst[i - 1], lst[i] = lst[i], lst[i - 1]
                            return undo
                        yield st.lineno, "swap with line before", swap
        if isinstance(node, ast.ExceptHandler) and node.type is not None:
            yield line, "catch BaseException", setter(node, "type", ast.Name("BaseException", ast.Load()))
        if isinstance(node, ast.Call):
            n = node.func.id if isinstance(node.func, ast.Name) else ""
            if n in ("list", "tuple", "set", "dict", "sorted", "iter", "reversed") and len(node.args) == 1 and not node.keywords:
                def bare(node=node):
                    old = node.func
                    node.func = ast.Lambda(ast.arguments([], [ast.arg("x")], None, [], [], None, []), ast.Name("x", ast.Load()))
                    def undo():
                        node.func = old
                    return undo
                yield line, f"drop {n}()", bare
            if isinstance(node.func, ast.Attribute) and node.func.attr == "copy" and not node.args:
                def bare2(node=node):
                    old = node.func
                    node.func = ast.Lambda(ast.arguments([], [], None, [], [], None, []), old.value)
                    def undo():
                        node.func = old
                    return undo
                yield line, "drop .copy()", bare2


MEMO = """
def _memo(f):
    seen = {}
    def g(*a, **k):
        try:
            key = (tuple((type(x).__name__ in ("str", "bytes", "int", "float", "NoneType", "bool") and x or id(x)) for x in a), tuple(sorted(k.items())))
            hash(key)
        except TypeError:
            return f(*a, **k)
        if key not in seen:
            seen[key] = (f(*a, **k), a, k)
        return seen[key][0]
    return g

def _eager(f):
    def g(*a, **k):
        return iter(list(f(*a, **k)))
    return g

_shared = {}
def _reuse(key, new, clear):
    x = _shared.setdefault(key, new)
    if clear:
        x.clear()
    return x
"""


def semantic(tree):
    "The same, for changes of how things are done: caches, shared buffers, narrower locks, truth for identity, swallowed errors."
    def put(lst, i, new):
        def do():
            old = list(lst)
            lst[i:i + 1] = new
            def undo():
                lst[:] = old
            return undo
        return do
    def attr(obj, name, new):
        def do():
            old = getattr(obj, name)
            setattr(obj, name, new)
            return lambda: setattr(obj, name, old)
        return do
    n = 0
    for node in list(ast.walk(tree)):
        line = getattr(node, "lineno", 0)
        if isinstance(node, ast.FunctionDef) and not node.name.startswith("__"):
            gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(node))
            prop = any(isinstance(d, (ast.Name, ast.Attribute)) for d in node.decorator_list)
            yield line, f"{'eager' if gen else 'memoized'} {node.name}", attr(node, "decorator_list", node.decorator_list + [ast.Name("_eager" if gen else "_memo", ast.Load())])
        if isinstance(node, ast.Compare) and len(node.ops) == 1 and isinstance(node.comparators[0], ast.Constant) and node.comparators[0].value is None:
            if isinstance(node.ops[0], ast.Is):
                yield line, "is None -> not", attr(node, "ops", [ast.Is()]) if False else (lambda node=node: swapnode(node, ast.UnaryOp(ast.Not(), node.left)))
            elif isinstance(node.ops[0], ast.IsNot):
                yield line, "is not None -> bool", (lambda node=node: swapnode(node, ast.Call(ast.Name("bool", ast.Load()), [node.left], [])))
        if isinstance(node, (ast.If, ast.While, ast.IfExp)):
            t = node.test
            if isinstance(t, (ast.Name, ast.Attribute)):
                yield line, "truth -> is not None", attr(node, "test", ast.Compare(t, [ast.IsNot()], [ast.Constant(None)]))
            elif isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) and isinstance(t.operand, (ast.Name, ast.Attribute)):
                yield line, "not -> is None", attr(node, "test", ast.Compare(t.operand, [ast.Is()], [ast.Constant(None)]))
        if isinstance(node, ast.ExceptHandler) and isinstance(node.type, ast.Name):
            for new in ("Exception", "BaseException", "ValueError", "OSError", "KeyError"):
                if new != node.type.id:
                    yield line, f"except {node.type.id} -> {new}", attr(node, "type", ast.Name(new, ast.Load()))
        for field in ("body", "orelse", "finalbody"):
            lst = getattr(node, field, None)
            if not isinstance(lst, list):
                continue
            for i, st in enumerate(lst):
                if isinstance(st, ast.With):
                    if len(st.body) > 1:
                        yield st.lineno, "first statement before the with", put(lst, i, [st.body[0], ast.With(st.items, st.body[1:])])
                        yield st.lineno, "last statement after the with", put(lst, i, [ast.With(st.items, st.body[:-1]), st.body[-1]])
                        for j in range(1, len(st.body)):
                            yield st.lineno, f"with released at {j}", put(lst, i, [ast.With(st.items, st.body[:j]), ast.With(st.items, st.body[j:])])
                if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call):
                    yield st.lineno, f"twice {ast.unparse(st)[:50]!r}", put(lst, i, [st, st])
                if isinstance(st, (ast.Expr, ast.Return, ast.Assign)) and isinstance(st.value, ast.Call):
                    for e in ("OSError", "Exception"):
                        yield st.lineno, f"{e} suppressed in {ast.unparse(st)[:50]!r}", put(lst, i, [ast.Try([st], [ast.ExceptHandler(ast.Name(e, ast.Load()), None, [ast.Pass()])], [], [])])
                if isinstance(st, ast.Assign) and isinstance(node, (ast.FunctionDef, ast.With, ast.For, ast.While, ast.If)):
                    v = st.value
                    if isinstance(v, (ast.List, ast.Dict)) and not (getattr(v, "elts", None) or getattr(v, "keys", None)) or isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("set", "dict", "list", "defaultdict") and (not v.args or v.func.id == "defaultdict"):
                        n += 1
                        for clear in (True, False):
                            call = ast.Call(ast.Name("_reuse", ast.Load()), [ast.Constant(n), v, ast.Constant(clear)], [])
                            yield st.lineno, f"shared{' (cleared)' if clear else ''} {ast.unparse(st)[:50]!r}", attr(st, "value", call)
        if isinstance(node, (ast.Name, ast.Attribute)) and isinstance(getattr(node, "ctx", None), ast.Load):
            pass
    for node in list(ast.walk(tree)):
        if isinstance(node, ast.For) and isinstance(node.iter, (ast.Name, ast.Attribute)):
            yield node.lineno, "for over a list()", attr(node, "iter", ast.Call(ast.Name("list", ast.Load()), [node.iter], []))


def swapnode(node, new):
    "Turn node into another node in place; returns the undo."
    cls, old = node.__class__, dict(node.__dict__)
    node.__class__ = new.__class__
    node.__dict__.clear()
    node.__dict__.update(new.__dict__)
    node.__dict__.update(lineno=old.get("lineno"), col_offset=old.get("col_offset"), end_lineno=old.get("end_lineno"), end_col_offset=old.get("end_col_offset"))
    def undo():
        node.__class__ = cls
        node.__dict__.clear()
        node.__dict__.update(old)
    return undo


def named(tree, names):
    if not names:
        return [(1, 10 ** 9)]
    out = []
    def walk(node, prefix):
        for c in ast.iter_child_nodes(node):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                q = prefix + c.name
                if q in names:
                    out.append((c.lineno, c.end_lineno))
                walk(c, q + ".")
            else:
                walk(c, prefix)
    walk(tree, "")
    return out


def attempt(job):
    n, module, line, what, source, checks = job
    d = bug.copy(f"../mutants/m{n}")
    res = {"n": n, "module": module, "line": line, "what": what}
    try:
        with open(os.path.join(d, module), "w") as f:
            f.write(source)
        try:
            res["tests"] = bug.run_tests(d) or "pass"
        except Exception as e:
            res["tests"] = repr(e)[:100]
        if res["tests"] == "pass":
            res["caught"] = ""
            for c in checks:
                r = bug.sh(f"VERIF_REPLAYS={d}.replays VERIF_REPO={d} timeout 600 {bug.PY} -s check.py {c} --no-evidence --workers 2", cwd=HERE)
                if r.returncode:
                    why = next((x for x in r.stdout.splitlines() if f"{c}: seed" in x), r.stdout[-200:])
                    res["caught"] = f"{c} rc={r.returncode} {why[:160]}"
                    break
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(d + '.replays', ignore_errors=True)
    return res


def main():
    a = sys.argv[1:]
    jobs, limit, out = 4, 10 ** 9, "/tmp/mutants/out.jsonl"
    sem = "--semantic" in a
    if sem:
        a.remove("--semantic")
    while a and a[0].startswith("--") and a[0] != "--":
        o, v = a[:2]
        a = a[2:]
        if o == "--jobs": jobs = int(v)
        if o == "--limit": limit = int(v)
        if o == "--out": out = v
    i = a.index("--")
    module, names, checks = a[0], set(a[1:i]), a[i + 1:]
    os.makedirs(WORK, exist_ok=True)
    tree = ast.parse(open(os.path.join(REPO, module)).read())
    spans = named(tree, names)
    plain = ast.unparse(tree)
    todo = []
    seen = {plain}
    skip = os.environ.get("MUT_SKIP")      # kinds to leave out
    helpers = ast.parse(MEMO).body if sem else []
    at = next((k for k, x in enumerate(tree.body) if isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.Try)) or isinstance(x, ast.Assign)), 0)
    for line, what, do in (semantic if sem else mutants)(tree):
        if not any(x <= line <= y for x, y in spans):
            continue
        if skip and re.search(skip, what):
            continue
        undo = do()
        try:
            tree.body[at:at] = helpers
            s = ast.unparse(ast.fix_missing_locations(tree))
        except Exception:
            s = None
        del tree.body[at:at + len(helpers)]
        undo()
        if s is None or s in seen:
            continue
        seen.add(s)
        try:
            compile(s, "x", "exec")
        except SyntaxError:
            continue
        todo.append((line, what, s))
    random.Random(1).shuffle(todo)
    todo = todo[:limit]
    done = set()
    if os.path.exists(out):
        for l in open(out):
            r = json.loads(l)
            done.add((r["module"], r["line"], r["what"]))
    base = os.path.basename(module).replace(".", "")
    todo = [(f"{base}{k}", module, line, what, s, checks) for k, (line, what, s) in enumerate(todo) if (module, line, what) not in done]
    print(len(todo), "mutants")
    c = {"killed by tests": 0, "caught": 0, "MISSED": 0}
    with cf.ThreadPoolExecutor(jobs) as ex, open(out, "a") as f:
        for r in ex.map(attempt, todo):
            f.write(json.dumps(r) + "\n")
            f.flush()
            k = "killed by tests" if r["tests"] != "pass" else "caught" if r["caught"] else "MISSED"
            c[k] += 1
            if k == "MISSED":
                print(f"{r['module']}:{r['line']} {r['what']}", flush=True)
    print(c)

if __name__ == "__main__":
    main()
