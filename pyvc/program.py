"""Loading of the program under verification: the real source files of /repo, parsed on every run.

Nothing is copied or rewritten: functions are interpreted from the AST of the file that CPython runs.
"""
import ast
import os
import builtins as _bi


class Unsupported(Exception):
    """The construct is outside the verified subset (never mapped to a violation)."""


class FuncInfo:
    __slots__ = ("name", "node", "module", "cls", "kind", "qual", "closure")

    def __init__(self, name, node, module, cls=None, kind="func", closure=None):
        self.name = name
        self.node = node
        self.module = module
        self.cls = cls
        self.kind = kind
        self.closure = closure
        self.qual = (module.name + "." if module else "") + (cls.qual_in_module + "." if cls else "") + name

    def __repr__(self):
        return "<func %s>" % self.qual


class ClassInfo:
    _next = [10]
    by_cid = {}

    def __init__(self, name, module=None, qual_in_module=None):
        self.name = name
        self.module = module
        self.qual_in_module = qual_in_module or name
        self.bases = []
        self.methods = {}
        self.attrs = {}      # class attribute -> AST expr
        self.nested = {}
        self.metaclass = None
        self.node = None
        self.builtin = None  # 'list' | 'dict' | 'set' | 'tuple' | 'object' | 'exception' ...
        self.cid = ClassInfo._next[0]
        ClassInfo._next[0] += 1
        ClassInfo.by_cid[self.cid] = self
        self._mro = None
        self._subs = None
        self.is_enum = False

    @property
    def qual(self):
        return (self.module.name + "." if self.module else "") + self.qual_in_module

    def mro(self):
        if self._mro is None:
            def merge(seqs):
                out = []
                seqs = [list(s) for s in seqs if s]
                while seqs:
                    for s in seqs:
                        c = s[0]
                        if not any(c in t[1:] for t in seqs):
                            break
                    else:
                        raise Unsupported("inconsistent MRO for " + self.name)
                    out.append(c)
                    seqs = [[x for x in t if x is not c] for t in seqs]
                    seqs = [t for t in seqs if t]
                return out
            self._mro = [self] + merge([b.mro() for b in self.bases] + [list(self.bases)])
        return self._mro

    def is_sub(self, other):
        return other in self.mro()

    def find(self, name):
        for c in self.mro():
            if name in c.methods:
                return c.methods[name]
        return None

    def find_attr(self, name):
        for c in self.mro():
            if name in c.attrs or name in c.nested:
                return c
        return None

    def base_builtin(self):
        for c in self.mro():
            if c.builtin in ("list", "dict", "set", "tuple"):
                return c.builtin
        return None

    def own_fields(self):
        """Mangled names of the instance attributes assigned as self.<x> anywhere in the class body."""
        out = []
        for f in self.methods.values():
            if not f.node.args.args:
                continue
            me = f.node.args.args[0].arg
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) \
                        and n.value.id == me:
                    m = mangle(self, n.attr)
                    if m not in out:
                        out.append(m)
        return out

    def all_fields(self):
        out = []
        for c in self.mro():
            for f in c.own_fields():
                if f not in out:
                    out.append(f)
        return out

    def __repr__(self):
        return "<class %s>" % self.name


def mangle(cls, name):
    if cls is not None and name.startswith("__") and not name.endswith("__"):
        return "_" + cls.name.lstrip("_") + name
    return name


class Module:
    def __init__(self, name, path, tree):
        self.name = name
        self.path = path
        self.tree = tree
        self.names = {}


class Program:
    def __init__(self, repo_src, verif):
        self.roots = {"opyenxes": repo_src, "specs": verif, "pyvc": verif}
        self.modules = {}
        self.builtin_classes = {}
        for n in ("object", "list", "dict", "set", "tuple", "str", "int", "bool", "float", "type", "bytes", "NoneType"):
            c = ClassInfo(n)
            c.builtin = n
            self.builtin_classes[n] = c
        obj = self.builtin_classes["object"]
        for n, c in self.builtin_classes.items():
            if c is not obj:
                c.bases = [obj]
        self.builtin_classes["bool"].bases = [self.builtin_classes["int"]]
        for n in ("datetime", "UUID", "ParseResult", "function", "Enum"):
            c = ClassInfo(n)
            c.builtin = n
            c.bases = [obj]
            self.builtin_classes[n] = c
        self.exc = {}
        for n in dir(_bi):
            t = getattr(_bi, n)
            if isinstance(t, type) and issubclass(t, BaseException):
                self._exc(t)
        self.classes_by_name = {}
        self.all_classes = list(self.builtin_classes.values())

    def _exc(self, t):
        if t.__name__ in self.exc:
            return self.exc[t.__name__]
        c = ClassInfo(t.__name__)
        c.builtin = "exception"
        self.exc[t.__name__] = c
        c.bases = [self._exc(b) for b in t.__bases__ if issubclass(b, BaseException)] or [self.builtin_classes["object"]]
        return c

    MODELS = {"io": "pyvc.models.io", "xml.sax": "pyvc.models.sax", "xml.sax.handler": "pyvc.models.sax",
              "xml.etree.ElementTree": "pyvc.models.etree", "xml.sax.xmlreader": "pyvc.models.xmlreader"}

    def path_of(self, name):
        name = self.MODELS.get(name, name)
        root = self.roots.get(name.split(".")[0])
        if root is None:
            return None
        p = os.path.join(root, *name.split("."))
        if os.path.isdir(p):
            p = os.path.join(p, "__init__.py")
            return p
        if os.path.exists(p + ".py"):
            return p + ".py"
        return None

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        p = self.path_of(name)
        if p is None:
            return None
        src = ""
        if os.path.exists(p):
            with open(p, encoding="utf-8-sig") as f:
                src = f.read()
        tree = ast.parse(src, p)
        m = Module(name, p, tree)
        self.modules[name] = m
        self._scan(m, tree.body)
        return m

    def _scan(self, m, body):
        for st in body:
            if isinstance(st, ast.FunctionDef):
                m.names[st.name] = ("func", FuncInfo(st.name, st, m))
            elif isinstance(st, ast.ClassDef):
                m.names[st.name] = ("class", self._mkclass(m, st, None))
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        m.names[a.asname] = ("module", a.name)
                    else:
                        m.names[a.name.split(".")[0]] = ("module", a.name.split(".")[0])
            elif isinstance(st, ast.ImportFrom):
                modn = st.module or ""
                if st.level:
                    base = m.name.split(".")
                    base = base[:-st.level] if not m.path.endswith("__init__.py") else base[:len(base) - st.level + 1]
                    modn = ".".join(base + ([st.module] if st.module else []))
                for a in st.names:
                    if a.name == "*":
                        sub = self.load(modn)
                        if sub:
                            for k in sub.names:
                                m.names[k] = ("from", modn, k)
                        continue
                    m.names[a.asname or a.name] = ("from", modn, a.name)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        m.names[t.id] = ("const", st.value)
            elif isinstance(st, ast.AnnAssign) and st.value is not None and isinstance(st.target, ast.Name):
                m.names[st.target.id] = ("const", st.value)
            elif isinstance(st, (ast.If, ast.Try)):
                self._scan(m, st.body)

    def _mkclass(self, m, node, outer):
        q = (outer.qual_in_module + "." if outer else "") + node.name
        c = ClassInfo(node.name, m, q)
        c.node = node
        for kw in node.keywords:
            if kw.arg == "metaclass":
                c.metaclass = kw.value
        c._base_exprs = node.bases
        self.all_classes.append(c)
        self.classes_by_name.setdefault(node.name, c)
        for st in node.body:
            if isinstance(st, ast.FunctionDef):
                kind = "method"
                for d in st.decorator_list:
                    dn = d.id if isinstance(d, ast.Name) else getattr(d, "attr", "?")
                    if dn == "staticmethod":
                        kind = "static"
                    elif dn in ("classmethod",):
                        kind = "class"
                    elif dn == "abstractclassmethod":
                        kind = "class"
                    elif dn == "property":
                        kind = "property"
                    elif dn in ("abstractmethod", "override"):
                        pass
                    else:
                        kind = "unsupported:" + dn
                c.methods[mangle(c, st.name)] = FuncInfo(st.name, st, m, c, kind)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        c.attrs[mangle(c, t.id)] = st.value
            elif isinstance(st, ast.AnnAssign) and st.value is not None and isinstance(st.target, ast.Name):
                c.attrs[mangle(c, st.target.id)] = st.value
            elif isinstance(st, ast.ClassDef):
                c.nested[st.name] = self._mkclass(m, st, c)
        return c

    def link(self):
        """Resolve base classes of every loaded class (loads what they need)."""
        done = set()
        while True:
            todo = [c for c in self.all_classes if hasattr(c, "_base_exprs") and id(c) not in done]
            if not todo:
                break
            for c in todo:
                done.add(id(c))
                bs = []
                for b in c._base_exprs:
                    r = self.static(c.module, b)
                    if isinstance(r, ClassInfo):
                        bs.append(r)
                        if r.name == "Enum":
                            c.is_enum = True
                if not bs:
                    bs = [self.builtin_classes["object"]]
                c.bases = bs

    def static(self, module, expr):
        if isinstance(expr, ast.Name):
            return self.lookup(module, expr.id)
        if isinstance(expr, ast.Attribute):
            b = self.static(module, expr.value)
            if isinstance(b, ClassInfo):
                return b.nested.get(expr.attr)
            if isinstance(b, str):
                mm = self.load(b)
                if mm:
                    return self.lookup(mm, expr.attr)
        return None

    EXTERN_CLASS = {
        ("datetime", "datetime"): "datetime",
        ("enum", "Enum"): "Enum",
        ("uuid", "UUID"): "UUID",
    }

    def lookup(self, module, name):
        """Static binding of a global name: ClassInfo, FuncInfo, module-name string, ('const', module, expr),
        ('extern', module, name) or None."""
        b = module.names.get(name)
        if b is None:
            if name in self.builtin_classes:
                return self.builtin_classes[name]
            if name in self.exc:
                return self.exc[name]
            return None
        if b[0] in ("func", "class"):
            return b[1]
        if b[0] == "module":
            return b[1]
        if b[0] == "const":
            return ("const", module, b[1], name)
        if b[0] == "from":
            sub = self.load(b[1])
            if sub is not None:
                if b[2] in sub.names:
                    return self.lookup(sub, b[2])
                sm = b[1] + "." + b[2]
                if self.path_of(sm):
                    self.load(sm)
                    return sm
                return None
            if (b[1], b[2]) in self.EXTERN_CLASS:
                return self.builtin_classes[self.EXTERN_CLASS[(b[1], b[2])]]
            return ("extern", b[1], b[2])
        return None

    def load_package(self, pkg="opyenxes"):
        root = self.roots[pkg]
        top = os.path.join(root, pkg)
        for d, _, fs in sorted(os.walk(top)):
            for f in sorted(fs):
                if f.endswith(".py"):
                    rel = os.path.relpath(os.path.join(d, f), root)[:-3].replace(os.sep, ".")
                    if rel.endswith(".__init__"):
                        rel = rel[:-9]
                    self.load(rel)
        self.link()

    def resolve_class(self, dotted):
        """'opyenxes.model.XLog.XLog' or 'XLog' or 'XesXmlParser.XesXmlHandler'."""
        if dotted in self.builtin_classes:
            return self.builtin_classes[dotted]
        if dotted in self.classes_by_name:
            return self.classes_by_name[dotted]
        parts = dotted.split(".")
        for i in range(len(parts), 0, -1):
            m = self.modules.get(".".join(parts[:i]))
            if m is not None:
                cur = None
                for p in parts[i:]:
                    cur = self.lookup(m, p) if cur is None else cur.nested.get(p)
                    if cur is None:
                        break
                if isinstance(cur, ClassInfo):
                    return cur
        if parts[0] in self.classes_by_name:
            cur = self.classes_by_name[parts[0]]
            for p in parts[1:]:
                cur = cur.nested.get(p) if cur else None
            return cur
        return None

    def subclasses(self, c):
        return [d for d in self.all_classes if (d is c or (d.bases and d.is_sub(c)))]
