"""Parses the repository source on every run; nothing of it is copied or cached."""
import ast, os

REPO = os.environ.get("VERIF_REPO", "/repo")


class Fn:
    def __init__(self, mod, qual, node, cls):
        self.mod, self.qual, self.node, self.cls = mod, qual, node, cls
        self.key = f"{mod.rel}:{qual}"
        self.is_gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(node))
        self.decos = [ast.unparse(d) for d in node.decorator_list]
    def __repr__(self):
        return self.key


def own_nodes(fn):
    """nodes of a function body without nested functions/lambdas"""
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        todo.extend(ast.iter_child_nodes(n))


class Cls:
    def __init__(self, mod, qual, node):
        self.mod, self.qual, self.node = mod, qual, node
        self.methods, self.attrs, self.inner = {}, {}, {}
        self.bases = [ast.unparse(b).split("[")[0] for b in node.bases]
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.methods[s.name] = Fn(mod, f"{qual}.{s.name}", s, self)
            elif isinstance(s, ast.ClassDef):
                self.inner[s.name] = Cls(mod, f"{qual}.{s.name}", s)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                self.attrs[s.target.id] = s.value
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = s.value


class Mod:
    def __init__(self, prog, rel):
        self.prog, self.rel = prog, rel
        path = os.path.join(prog.root, rel)
        with open(path, encoding="utf-8") as f:
            self.src = f.read()
        self.tree = ast.parse(self.src, path)
        self.funcs, self.classes, self.imports, self.consts = {}, {}, {}, {}
        self._scan(self.tree.body)
    def _scan(self, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.funcs[s.name] = Fn(self, s.name, s, None)
            elif isinstance(s, ast.ClassDef):
                self.classes[s.name] = Cls(self, s.name, s)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    self.imports[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
            elif isinstance(s, ast.ImportFrom):
                base = s.module or ""
                if s.level:
                    pkg = self.rel[:-3].split("/")[:-s.level]
                    base = ".".join(pkg + ([s.module] if s.module else []))
                for a in s.names:
                    self.imports[a.asname or a.name] = base + "." + a.name
            elif isinstance(s, (ast.Assign, ast.AnnAssign)):
                ts = s.targets if isinstance(s, ast.Assign) else [s.target]
                for t in ts:
                    if isinstance(t, ast.Name):
                        self.consts[t.id] = s.value
            elif isinstance(s, (ast.If, ast.Try)):
                self._scan(s.body)


class Program:
    def __init__(self, root=None):
        self.root = root or REPO
        self.mods = {}
    def mod(self, rel):
        if rel not in self.mods:
            self.mods[rel] = Mod(self, rel)
        return self.mods[rel]
    def resolve(self, dotted):
        """dotted import target -> ('mod'|'func'|'class'|'const', object) or None"""
        parts = dotted.split(".")
        for n in range(len(parts), 0, -1):
            for cand in ("/".join(parts[:n]) + ".py", "/".join(parts[:n]) + "/__init__.py"):
                if os.path.isfile(os.path.join(self.root, cand)):
                    m = self.mod(cand)
                    rest = parts[n:]
                    if not rest:
                        return ("mod", m)
                    return self.lookup(m, rest)
        return None
    def lookup(self, m, rest):
        name = rest[0]
        if name in m.classes:
            c = m.classes[name]
            for r in rest[1:]:
                if r in c.inner:
                    c = c.inner[r]
                elif r in c.methods:
                    return ("func", c.methods[r])
                else:
                    return None
            return ("class", c)
        if name in m.funcs and len(rest) == 1:
            return ("func", m.funcs[name])
        if name in m.consts and len(rest) == 1:
            return ("const", (m, m.consts[name]))
        if name in m.imports:
            return self.resolve(".".join([m.imports[name]] + rest[1:]))
        return None
    def fn(self, rel, qual):
        m = self.mod(rel)
        parts = qual.split(".")
        if len(parts) == 1:
            return m.funcs.get(qual)
        c = m.classes.get(parts[0])
        for p in parts[1:-1]:
            c = c.inner.get(p) if c else None
        return c.methods.get(parts[-1]) if c else None
    def mro(self, cls, seen=None):
        seen = seen if seen is not None else []
        if cls in seen:
            return seen
        seen.append(cls)
        for b in cls.bases:
            r = self.lookup(cls.mod, b.split(".")) or None
            if r and r[0] == "class":
                self.mro(r[1], seen)
        return seen
    def method(self, cls, name):
        for c in self.mro(cls):
            if name in c.methods:
                return c.methods[name]
        return None
    def class_attr(self, cls, name):
        for c in self.mro(cls):
            if name in c.attrs and c.attrs[name] is not None:
                return c, c.attrs[name]
        return None
