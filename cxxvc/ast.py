"""Mechanical extraction: clang's own AST (JSON) of the current /repo sources.

Nothing is rewritten by hand: every function body that is verified is the one
clang parsed from the file in the tree, in the translation unit named in the
evidence.  Only declarations whose qualified name contains one of the filters
are dumped (clang's -ast-dump-filter); anything a verified function calls that
was not dumped is fetched with a filter of its own on demand.
"""
import hashlib
import json
import os
import subprocess
import tempfile


class ExtractError(Exception):
    pass


FUNC_KINDS = ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl",
              "CXXDestructorDecl", "CXXConversionDecl")
CLASS_KINDS = ("CXXRecordDecl", "ClassTemplateSpecializationDecl",
               "ClassTemplatePartialSpecializationDecl")


def ctype(n):
    """desugared type string of an AST node (or of a type dict)"""
    t = n.get("type", n) if isinstance(n, dict) and "kind" in n else n
    if not t:
        return ""
    return t.get("desugaredQualType") or t.get("qualType") or ""


class Func:
    def __init__(self, node, qual, cls, file):
        self.node, self.qual, self.cls, self.file = node, qual, cls, file
        self.name = node.get("name", "")
        self.kind = node["kind"]
        self.params = [x for x in node.get("inner", [])
                       if x.get("kind") == "ParmVarDecl"]
        self.body = None
        self.inits = []
        for x in node.get("inner", []):
            k = x.get("kind")
            if k == "CompoundStmt" or k == "CXXTryStmt":
                self.body = x
            elif k == "CXXCtorInitializer":
                self.inits.append(x)
        self.type = node.get("type", {}).get("qualType", "")
        self.ret = self.type.split("(")[0].strip()
        self.static = node.get("storageClass") == "static"
        self.mangled = node.get("mangledName", "")
        self.defaulted = node.get("explicitlyDefaulted")
        self.implicit = node.get("isImplicit", False)

    def __repr__(self):
        return "<Func %s %s>" % (self.qual, self.type)


class TU:
    def __init__(self, main, incs, filters=("FLPR", "anonymous namespace"),
                 defs=(), text=None):
        self.main, self.incs, self.defs = main, list(incs), list(defs)
        self.others = []
        self.funcs = []          # definitions
        self.by_id = {}          # any declaration, by clang id
        self.decl_qual = {}      # id -> qualified name
        self.decl_cls = {}
        self.def_of = {}         # mangled -> Func
        self.classes = {}        # qualified name -> node
        self.enums = {}          # enum const id -> value
        self.fetched = set()
        self._loc = [None, 0]
        self.bytes = 0
        if text is not None:
            fd, p = tempfile.mkstemp(suffix=".cc", prefix="cxxvc_")
            os.write(fd, text.encode())
            os.close(fd)
            self.tmp = p
            self.main = p
        for f in filters:
            self._load(f)

    # ------------------------------------------------------------ loading
    def _run(self, flt):
        cmd = ["setarch", "-R", "clang++", "-std=c++17", "-fsyntax-only", "-w"]
        cmd += ["-I" + i for i in self.incs] + ["-D" + d for d in self.defs]
        cmd += ["-Xclang", "-ast-dump=json", "-Xclang",
                "-ast-dump-filter=" + flt, self.main]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if p.returncode and b"setarch" in p.stderr:
            p = subprocess.run(cmd[2:], stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE)
        if p.returncode:
            raise ExtractError("clang failed on %s: %s" % (
                self.main, p.stderr.decode(errors="replace")[:2000]))
        return p.stdout.decode()

    def _load(self, flt):
        if flt in self.fetched:
            return
        self.fetched.add(flt)
        s = self._run(flt)
        self.bytes += len(s)
        dec = json.JSONDecoder()
        i, n = 0, len(s)
        while i < n:
            while i < n and s[i] in " \n\r\t":
                i += 1
            if i >= n:
                break
            o, i = dec.raw_decode(s, i)
            self._locs(o)
            self._index(o, [], None)

    def fetch(self, name):
        try:
            self._load(name)
        except ExtractError:
            pass

    def _locs(self, root):
        """clang prints file/line only when they change: make them explicit"""
        loc = self._loc

        def one(l):
            if not isinstance(l, dict):
                return
            if "expansionLoc" in l or "spellingLoc" in l:
                if "spellingLoc" in l:
                    one(l["spellingLoc"])
                if "expansionLoc" in l:
                    one(l["expansionLoc"])
                    l["line"] = l["expansionLoc"].get("line")
                    l["file"] = l["expansionLoc"].get("file")
                return
            if "offset" not in l:
                return
            if "file" in l:
                loc[0] = l["file"]
            if "line" in l:
                loc[1] = l["line"]
            l["file"], l["line"] = loc[0], loc[1]

        pre = "%d:" % len(self.fetched)
        stack = [root]
        while stack:
            x = stack.pop()
            if isinstance(x, list):
                stack.extend(reversed(x))
                continue
            if not isinstance(x, dict):
                continue
            # clang ids are only meaningful within one dump
            for k in ("id", "referencedMemberDecl", "previousDecl",
                      "parentDeclContextId"):
                if k in x:
                    x[k] = pre + x[k]
            for k in ("referencedDecl", "anyInit"):
                if k in x and "id" in x[k]:
                    x[k]["id"] = pre + x[k]["id"]
            one(x.get("loc"))
            r = x.get("range")
            if r:
                one(r.get("begin"))
                one(r.get("end"))
            inner = x.get("inner")
            if inner:
                stack.append(inner)

    def _index(self, n, scope, cls):
        if not isinstance(n, dict):
            return
        k = n.get("kind")
        if "id" in n and k and (k.endswith("Decl")):
            self.by_id[n["id"]] = n
        if k in FUNC_KINDS:
            parent = n.get("parentDeclContextId")
            pscope = scope
            pcls = cls
            if not scope and parent in self.decl_qual:
                pscope = [self.decl_qual[parent]]
                pcls = self.by_id.get(parent) if parent in self.by_id and \
                    self.by_id[parent]["kind"] in CLASS_KINDS else None
            elif parent in self.by_id and \
                    self.by_id[parent]["kind"] in CLASS_KINDS:
                pcls = self.by_id[parent]
                pscope = [self.decl_qual.get(parent, "")]
            if "previousDecl" in n and n["previousDecl"] in self.decl_qual:
                q = self.decl_qual[n["previousDecl"]]
                pcls = self.decl_cls.get(n["previousDecl"], pcls)
            else:
                q = "::".join([x for x in pscope if x] + [n.get("name", "")])
            self.decl_qual[n["id"]] = q
            self.decl_cls[n["id"]] = pcls
            f = Func(n, q, pcls, (n.get("loc") or {}).get("file"))
            f.tu = self
            n["_func"] = f
            if f.body is not None or (f.kind == "CXXConstructorDecl" and
                                      f.defaulted):
                if f.mangled not in self.def_of:
                    self.def_of[f.mangled] = f
                    self.funcs.append(f)
            # local classes / lambdas inside bodies
            for x in n.get("inner", []):
                self._index_body(x, scope + [n.get("name", "")])
            return
        if k in CLASS_KINDS:
            nm = n.get("name", "")
            if k.startswith("ClassTemplateSpec"):
                args = []
                for x in n.get("inner", []):
                    if x.get("kind") == "TemplateArgument":
                        args.append((x.get("type") or {}).get("qualType") or
                                    str(x.get("value", "?")))
                nm = nm + "<" + ", ".join(args) + ">"
            parent = n.get("parentDeclContextId")
            if not scope and parent in self.decl_qual:
                scope = [self.decl_qual[parent]]
            q = "::".join([x for x in scope if x] + [nm])
            self.decl_qual[n["id"]] = q
            if n.get("completeDefinition") or any(
                    y.get("kind") == "FieldDecl" for y in n.get("inner", [])):
                self.classes[q] = n
            elif q not in self.classes:
                self.classes.setdefault(q, n)
            for x in n.get("inner", []):
                self._index(x, scope + [nm], n)
            return
        if k == "NamespaceDecl":
            nm = n.get("name") or "(anonymous namespace)"
            if n.get("isInline"):
                nm = ""
            parent = n.get("parentDeclContextId")
            q = "::".join([x for x in scope if x] + ([nm] if nm else []))
            self.decl_qual[n["id"]] = q
            for x in n.get("inner", []):
                self._index(x, scope + [nm], None)
            return
        if k == "EnumDecl":
            v = -1
            for x in n.get("inner", []):
                if x.get("kind") == "EnumConstantDecl":
                    self.by_id[x["id"]] = x
                    ce = _const_value(x)
                    v = v + 1 if ce is None else ce
                    self.enums[x["id"]] = v
            q = "::".join([x for x in scope if x] + [n.get("name", "")])
            self.decl_qual[n["id"]] = q
            return
        if k in ("ClassTemplateDecl", "FunctionTemplateDecl", "LinkageSpecDecl",
                 "ExportDecl"):
            pat = True
            for x in n.get("inner", []):
                if k == "FunctionTemplateDecl" and x.get("kind") in FUNC_KINDS:
                    # first one is the uninstantiated pattern
                    if pat:
                        pat = False
                        x["_pattern"] = True
                        self.by_id[x["id"]] = x
                        continue
                if k == "ClassTemplateDecl" and x.get("kind") == \
                        "CXXRecordDecl":
                    self.by_id[x["id"]] = x
                    self.decl_qual[x["id"]] = "::".join(
                        [y for y in scope if y] + [x.get("name", "")])
                    continue
                self._index(x, scope, cls)
            return
        if k == "VarDecl":
            self.decl_qual[n["id"]] = "::".join(
                [x for x in scope if x] + [n.get("name", "")])
        for x in n.get("inner", []) or []:
            if isinstance(x, dict) and x.get("kind", "").endswith("Decl"):
                self._index(x, scope, cls)

    def _index_body(self, n, scope):
        """index declarations nested in function bodies"""
        stack = [n]
        while stack:
            x = stack.pop()
            if not isinstance(x, dict):
                continue
            k = x.get("kind", "")
            if k in CLASS_KINDS or k == "EnumDecl":
                self._index(x, scope, None)
                continue
            if k.endswith("Decl") and "id" in x:
                self.by_id[x["id"]] = x
            stack.extend(y for y in x.get("inner", []) or []
                         if isinstance(y, dict))

    # ------------------------------------------------------------ lookup
    def find(self, qual, nparams=None, pred=None):
        r = [f for f in self.funcs if f.qual == qual and
             (nparams is None or len(f.params) == nparams) and
             (pred is None or pred(f))]
        return r

    def func_by_decl(self, did, name=None, typ=None):
        """definition for a declaration id (possibly of another dump)"""
        n = self.by_id.get(did)
        if n is not None and n.get("kind") in FUNC_KINDS:
            f = self.def_of.get(n.get("mangledName"))
            if f is not None:
                return f
            q = self.decl_qual.get(did)
            for f in self.funcs:
                if f.qual == q and f.type == n["type"]["qualType"]:
                    return f
            return None
        if name is not None:
            c = [f for f in self.funcs if f.name == name and
                 (typ is None or f.type == typ)]
            if len(c) == 1:
                return c[0]
        return None

    def decl_like(self, kinds, name, typ):
        """a declaration of another dump, by name and type"""
        key = (name, typ)
        if getattr(self, "_dl_n", None) != len(self.by_id):
            self._dl = {}
            self._dl_n = len(self.by_id)
            for n in self.by_id.values():
                self._dl.setdefault((n.get("name"), n.get("type", {}).get(
                    "qualType")), []).append(n)
        for n in self._dl.get(key, ()):
            if n["kind"] in kinds:
                return n
        return None

    def method_of(self, cls, name, nargs):
        c = [f for f in self.funcs if f.name == name and f.cls is not None and
             self.decl_qual.get(f.cls["id"]) == cls and
             len(f.params) >= nargs]
        c2 = [f for f in c if len(f.params) == nargs]
        if len(c2) == 1:
            return c2[0]
        return c[0] if len(c) == 1 else None


def _const_value(n):
    for x in n.get("inner", []) or []:
        if x.get("kind") == "ConstantExpr" and "value" in x:
            return int(x["value"])
        if x.get("kind") == "IntegerLiteral":
            return int(x["value"])
        r = _const_value(x)
        if r is not None:
            return r
    return None


def line_of(n):
    r = n.get("range", {}).get("begin", {})
    return r.get("line") or (n.get("loc") or {}).get("line")


def file_of(n):
    r = n.get("range", {}).get("begin", {})
    return r.get("file") or (n.get("loc") or {}).get("file")
