#!/usr/bin/env python3
"""translate.py OUTDIR FILE...   turns Python-2 modules of /repo into modules that run under Python 3 with the
meaning they have under Python 2 (print statements, integer division, list-valued map/range/keys, has_key,
except X, e).  A file may be given as path or path=name."""
import sys, os, re, ast
def _prepare(src):
    out = []
    for l in src.split("\n"):
        m = re.match(r"[ \t]*", l)
        l = m.group(0).expandtabs(8) + l[m.end():]
        m = re.match(r"^(\s*|.*?:\s+)print(?:\s+(?!=)(.*)|\s*)$", l)
        if m and not l.lstrip().startswith("#") and not re.match(r"^\s*print\s*\(.*\)\s*(#.*)?$", l) and (l[:m.start(2)].strip() in ("print",) or re.match(r"^\s*(if|else|for|while|try|except|with|elif)\b.*:\s+print\b", l)):
            body = (m.group(2) or "").rstrip()
            body = re.sub(r",\s*$", "", body)
            if body.startswith(">>"):
                body = body.split(",", 1)[1] if "," in body else ""
            out.append(m.group(1) + "py2_print(" + body + ")")
            continue
        l = re.sub(r"^(\s*except\s+[^:,()]+),\s*(\w+)\s*:", r"\1 as \2:", l)
        l = re.sub(r"^(\s*except\s*\([^)]*\))\s*,\s*(\w+)\s*:", r"\1 as \2:", l)
        l = re.sub(r"^(\s*raise\s+[\w.]+)\s*,\s*(.+)$", r"\1(\2)", l)
        l = re.sub(r"(?<![\w.])(0[0-7]+)(?![\w.])", lambda k: "0o" + k.group(1)[1:] if k.group(1).strip("0") else k.group(1), l) if re.search(r"(?<![\w.'\"])0[0-7]{2,}(?![\w.'\"])", l) and not re.search(r"['\"].*0[0-7]{2,}", l) else l
        out.append(l)
    return "\n".join(out)
class _T(ast.NodeTransformer):
    def call(self, name, *args):
        return ast.Call(ast.Name(name, ast.Load()), list(args), [])
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div):
            return ast.copy_location(self.call("py2_div", n.left, n.right), n)
        return n
    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div) and isinstance(n.target, ast.Name):
            return ast.copy_location(ast.Assign([n.target], self.call("py2_floordiv_assign", ast.Name(n.target.id, ast.Load()), n.value)), n)
        return n
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and not n.keywords:
            if n.func.attr in ("keys", "values", "items") and not n.args:
                return ast.copy_location(self.call("py2_list", n), n)
            if n.func.attr == "has_key" and len(n.args) == 1:
                return ast.copy_location(self.call("py2_has", n.func.value, n.args[0]), n)
            if n.func.attr in ("iteritems", "itervalues", "iterkeys") and not n.args:
                n.func.attr = n.func.attr[4:]
        return n
def translate(src, name="?", patches=()):
    for a, b in patches:
        src = re.sub(a, b, src)
    text = _prepare(src)
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        tree = ast.parse(text, name)
    tree = ast.fix_missing_locations(_T().visit(tree))
    i = 0
    while i < len(tree.body) and (isinstance(tree.body[i], ast.ImportFrom) and tree.body[i].module == "__future__" or i == 0 and isinstance(tree.body[0], ast.Expr) and isinstance(tree.body[0].value, ast.Constant)):
        i += 1
    tree.body.insert(i, ast.ImportFrom("py2rt", [ast.alias("*", None)], 0))
    return ast.unparse(ast.fix_missing_locations(tree)) + "\n"
# spellings that the installed numpy no longer accepts
PATCHES = [(r"set_printoptions\(threshold=nan\)", "set_printoptions(threshold=sys.maxsize)"), (r"\bnp\.int\b(?!\d)", "int"), (r"\bnp\.float\b(?!\d)", "float"), (r"order=\['F'\]", "order='F'")]
HERE = os.path.dirname(os.path.abspath(__file__))
def install(outdir, files, repo="/repo", stubs=("py2rt.py", "h5py.py", "exceptions.py")):
    os.makedirs(outdir, exist_ok=True)
    for f in files:
        p, n = f.split("=") if "=" in f else (f, f)
        src = open(os.path.join(repo, p), encoding="utf-8", errors="replace").read()
        dst = os.path.join(outdir, n)
        os.makedirs(os.path.dirname(dst) or ".", exist_ok=True)
        with open(dst, "w") as o:
            o.write(translate(src, p, PATCHES))
    for s in stubs:
        with open(os.path.join(outdir, s), "w") as o:
            o.write(open(os.path.join(HERE, s)).read())
if __name__ == "__main__":
    install(sys.argv[1], sys.argv[2:], os.environ.get("VERIF_REPO", "/repo"))
