"""Mechanical extraction of the functions under contract from /repo's current source (AST)."""
import ast, os, hashlib

REPO = os.environ.get("PYVC_REPO", "/repo")
_cache = {}


class Module:
    def __init__(self, path):
        self.path = path
        full = os.path.join(REPO, path)
        with open(full, encoding="utf-8-sig") as f:
            self.src = f.read()
        self.tree = ast.parse(self.src)
        self.defs = {}
        self.consts = {}
        self.imports = {}
        for node in self.tree.body:
            self._top(node)

    def _top(self, node):
        if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
            self.defs[node.name] = node
        elif isinstance(node, ast.Assign) and len(node.targets) == 1 and isinstance(node.targets[0], ast.Name):
            self.consts[node.targets[0].id] = node.value
        elif isinstance(node, ast.AnnAssign) and isinstance(node.target, ast.Name) and node.value is not None:
            self.consts[node.target.id] = node.value
        elif isinstance(node, ast.Import):
            for a in node.names:
                self.imports[a.asname or a.name.split(".")[0]] = a.name
        elif isinstance(node, ast.ImportFrom):
            for a in node.names:
                self.imports[a.asname or a.name] = ("." * node.level) + (node.module or "") + ":" + a.name
        elif isinstance(node, (ast.If, ast.Try)):
            for b in node.body:
                self._top(b)

    def find(self, qual):
        """qualname such as Class.func or func.impl; 'func.impl#2' picks the second of that name"""
        cur = self.tree.body
        node = None
        for part in qual.split("."):
            nth = 1
            if "#" in part:
                part, k = part.split("#")
                nth = int(k)
            hits = []

            def walk(stmts):
                for s in stmts:
                    if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                        if s.name == part:
                            hits.append(s)
                    elif isinstance(s, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                        for fld in ("body", "orelse", "finalbody"):
                            walk(getattr(s, fld, []) or [])

            walk(cur)
            if len(hits) < nth:
                return None
            node = hits[nth - 1] if "#" in qual else hits[nth - 1]
            cur = node.body
        return node


def module(path):
    if path not in _cache:
        _cache[path] = Module(path)
    return _cache[path]


def find(target):
    path, qual = target.split("::")
    m = module(path)
    return m, m.find(qual)


def src_hash(node):
    return hashlib.sha256(ast.dump(node).encode()).hexdigest()[:16]
