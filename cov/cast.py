"""Extraction: the Clang AST (JSON) of /repo's sources, re-read on every run."""
import json, os, subprocess, hashlib, tempfile

REPO = os.environ.get("COV_REPO", "/repo")
CLANG = "clang++-18"


class ExtractError(Exception):
    pass


def _dump(path, flt, extra=()):
    cmd = [CLANG, "-std=c++20", "-I" + REPO, "-fsyntax-only", "-w", *extra,
           "-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=" + flt, path]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=REPO)
    if r.returncode != 0:
        raise ExtractError("clang failed on %s: %s" % (path, r.stderr.decode()[-2000:]))
    s = r.stdout.decode("utf-8", "replace")
    d = json.JSONDecoder()
    i, docs, n = 0, [], len(s)
    while True:
        while i < n and s[i].isspace():
            i += 1
        if i >= n:
            break
        o, i = d.raw_decode(s, i)
        docs.append(o)
    return docs


def _rename(n):
    if isinstance(n, dict):
        for k, v in n.items():
            if k in ("id", "parentDeclContextId", "previousDecl") and isinstance(v, str):
                n[k] = "b" + v
            else:
                _rename(v)
    elif isinstance(n, list):
        for x in n:
            _rename(x)


class TU:
    """One translation unit: functions, classes and globals by qualified name."""

    def __init__(self, rel, filters=("cottontail",), extra=()):
        self.rel = rel
        self.path = os.path.join(REPO, rel)
        self.funcs = {}      # qname -> [FunctionDecl nodes with bodies]
        self.decls = {}      # qname -> [all FunctionDecl nodes]
        self.classes = {}    # qname -> CXXRecordDecl node (definition)
        self.idq = {}        # decl id -> qname
        self.byid = {}       # decl id -> node
        self.globals = {}    # decl id -> VarDecl
        self.gname = {}      # qname -> VarDecl
        self.enums = {}      # enumerator id -> int value
        self.typedefs = {}
        self._file = None
        self._line = None
        for f in filters:
            for doc in _dump(self.path, f, extra):
                self._file = None
                self._loc(doc)
                self._walk(doc, "")
        # functions in unnamed namespaces outside the library's own: ids of another clang run are renamed apart
        for doc in _dump(self.path, "anonymous namespace", extra):
            self._file = None
            self._loc(doc)
            _rename(doc)
            for x in [doc] if doc.get("kind") == "FunctionDecl" else doc.get("inner", []) if doc.get("kind") == "NamespaceDecl" and not doc.get("name") else []:
                if x.get("kind") == "FunctionDecl" and "cottontail::" + x.get("name", "") not in self.decls:
                    self._walk(x, "")

    def _loc(self, n):
        # clang omits repeated file/line information: reconstruct in dump order
        st = self

        def one(l):
            if not isinstance(l, dict):
                return None
            if "spellingLoc" in l or "expansionLoc" in l:
                a = one(l.get("spellingLoc"))
                b = one(l.get("expansionLoc"))
                return b or a
            if "file" in l:
                st._file = l["file"]
            if "line" in l:
                st._line = l["line"]
            if "offset" in l:
                return (st._file, st._line)
            return None

        stack = [n]
        # recursive in key order
        def rec(n):
            for k in list(n.keys()):
                v = n[k]
                if k == "loc":
                    n["_loc"] = one(v)
                elif k == "range":
                    b = one(v.get("begin"))
                    one(v.get("end"))
                    n["_line"] = b
                elif k == "inner":
                    for c in v:
                        if c:
                            rec(c)
        import sys
        sys.setrecursionlimit(20000)
        rec(n)

    def _walk(self, n, q):
        k = n.get("kind")
        name = n.get("name", "")
        i = n.get("id")
        if i is not None:
            self.byid.setdefault(i, n)
        if k == "NamespaceDecl":
            nq = q + "::" + name if q and name else (name or q)
            for c in n.get("inner", []):
                self._walk(c, nq)
            return
        if k in ("CXXRecordDecl", "ClassTemplateSpecializationDecl"):
            nq = q + "::" + name if q else name
            self.idq[i] = nq
            n["_q"] = nq
            if n.get("completeDefinition"):
                self.classes[nq] = n
            for c in n.get("inner", []):
                self._walk(c, nq)
            return
        if k in ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl", "CXXConversionDecl"):
            pc = n.get("parentDeclContextId")
            cq = self.idq.get(pc, q) if pc else q
            nq = cq + "::" + name if cq else name
            self.idq[i] = nq
            n["_q"] = nq
            n["_cls"] = cq
            self.decls.setdefault(nq, []).append(n)
            if any(c.get("kind") in ("CompoundStmt", "CXXTryStmt") for c in n.get("inner", [])):
                self.funcs.setdefault(nq, []).append(n)
            self._inner_decls(n)
            return
        if k == "FunctionTemplateDecl":
            for c in n.get("inner", []):
                self._walk(c, q)
            return
        if k == "VarDecl":
            nq = q + "::" + name if q else name
            self.idq[i] = nq
            self.globals[i] = n
            if n.get("inner"):
                self.gname[nq] = n
            return
        if k == "EnumDecl":
            nq = q + "::" + name if q else name
            v = -1
            for c in n.get("inner", []):
                if c.get("kind") == "EnumConstantDecl":
                    e = _const(c)
                    v = e if e is not None else v + 1
                    self.enums[c["id"]] = v
            return
        if k in ("TypedefDecl", "TypeAliasDecl"):
            t = n.get("type", {})
            self.typedefs[name] = t.get("desugaredQualType", t.get("qualType"))
            return
        if k in ("LinkageSpecDecl", "ExportDecl", "FieldDecl", "ClassTemplateDecl", "UsingDecl"):
            for c in n.get("inner", []):
                if isinstance(c, dict) and c:
                    self._walk(c, q)
            return

    def _inner_decls(self, n):
        stack = [n]
        while stack:
            x = stack.pop()
            if not x:
                continue
            k = x.get("kind", "")
            if "id" in x:
                self.byid.setdefault(x["id"], x)
            if k == "CXXRecordDecl" and x is not n and x.get("completeDefinition"):
                nq = x.get("name", "") or "_local_" + x["id"]
                self.classes.setdefault(nq, x)
                self.idq.setdefault(x["id"], nq)
                for c in x.get("inner", []):
                    if c.get("kind") in ("CXXMethodDecl", "CXXConstructorDecl"):
                        cq = nq + "::" + c.get("name", "")
                        c["_q"], c["_cls"] = cq, nq
                        self.idq[c["id"]] = cq
                        self.decls.setdefault(cq, []).append(c)
                        if any(d.get("kind") == "CompoundStmt" for d in c.get("inner", [])):
                            self.funcs.setdefault(cq, []).append(c)
            stack.extend(x.get("inner", []))


def _const(n):
    if n.get("kind") == "ConstantExpr" and "value" in n:
        return int(n["value"])
    for c in n.get("inner", []):
        r = _const(c)
        if r is not None:
            return r
    return None


def body_of(f):
    for c in f.get("inner", []):
        if c.get("kind") in ("CompoundStmt", "CXXTryStmt"):
            return c
    return None


def params_of(f):
    return [c for c in f.get("inner", []) if c.get("kind") == "ParmVarDecl"]


def line_of(n):
    l = n.get("_line") or n.get("_loc")
    return l if l else (None, None)


def line_str(n, rel):
    f, l = line_of(n)
    f = f or rel
    if f.startswith(REPO + "/"):
        f = f[len(REPO) + 1:]
    return "%s:%s" % (f, l)
