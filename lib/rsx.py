"""Mechanical extraction of Rust items from /repo's current source.

A small Rust lexer and item indexer.  Nothing here interprets the code: it finds
items (fn/struct/enum/const/static/type/trait/impl/mod/macro), function
signatures, bodies and loops, and returns their exact text.
"""
import re, os

class LostAnchor(Exception):
    """The extraction could not find what the unit asks for (not a violation)."""

class Tok:
    __slots__ = ("k", "s", "a", "b", "line")
    def __init__(self, k, s, a, b, line):
        self.k, self.s, self.a, self.b, self.line = k, s, a, b, line
    def __repr__(self):
        return f"{self.k}:{self.s!r}"

_id = re.compile(r"[A-Za-z_\u0080-\uffff][A-Za-z0-9_\u0080-\uffff]*")
_num = re.compile(r"[0-9][0-9A-Za-z_]*(\.[0-9][0-9A-Za-z_]*)?")

def lex(src):
    """Tokens without whitespace/comments; kinds: id num str char life p."""
    toks, i, n, line = [], 0, len(src), 1
    def add(k, a, b):
        nonlocal line
        toks.append(Tok(k, src[a:b], a, b, line))
        line += src.count("\n", a, b)
    while i < n:
        c = src[i]
        if c == "\n":
            line += 1; i += 1; continue
        if c.isspace():
            i += 1; continue
        if src.startswith("//", i):
            j = src.find("\n", i)
            i = n if j < 0 else j
            continue
        if src.startswith("/*", i):
            d, j = 1, i + 2
            while j < n and d:
                if src.startswith("/*", j): d += 1; j += 2
                elif src.startswith("*/", j): d -= 1; j += 2
                else: j += 1
            line += src.count("\n", i, j); i = j; continue
        m = re.match(r'(?:b|c|br|cr|r)?(#*)"', src[i:i + 12])
        if m and (c == '"' or c in "bcr"):
            pre = m.group(0)
            raw = "r" in pre.split('"')[0]
            hashes = m.group(1)
            if not hashes or raw:
                j = i + len(pre)
                if raw:
                    e = src.find('"' + hashes, j)
                    e = e + 1 + len(hashes)
                else:
                    while src[j] != '"':
                        j += 2 if src[j] == "\\" else 1
                    e = j + 1
                add("str", i, e); i = e; continue
        m = re.match(r"b?'(\\(x[0-9a-fA-F]{2}|u\{[0-9a-fA-F_]+\}|.)|[^\\'])'", src[i:i + 16], re.S)
        if m and (c == "'" or (c == "b" and src[i + 1] == "'")):
            add("char", i, i + m.end()); i += m.end(); continue
        if c == "'":
            m = _id.match(src, i + 1)
            add("life", i, m.end()); i = m.end(); continue
        m = re.match(r"r#(?=[A-Za-z_])", src[i:i + 3])
        if m:
            m2 = _id.match(src, i + 2); add("id", i, m2.end()); i = m2.end(); continue
        m = _id.match(src, i)
        if m:
            add("id", i, m.end()); i = m.end(); continue
        m = _num.match(src, i)
        if m:
            e = m.end()
            # "0..n" is a range: _num needs a digit after the dot, so fine
            add("num", i, e); i = e; continue
        for p in ("..=", "...", "<<=", ">>=", "->", "=>", "::", "..", "&&", "||", "==", "!=", "<=", ">=",
                  "+=", "-=", "*=", "/=", "%=", "^=", "&=", "|=", "<<"):
            if src.startswith(p, i):
                add("p", i, i + len(p)); i += len(p); break
        else:
            add("p", i, i + 1); i += 1
    return toks

OPEN = {"(": ")", "[": "]", "{": "}"}

def match_close(toks, i):
    """index of the token closing the bracket opened at token i"""
    d = 0
    for j in range(i, len(toks)):
        s = toks[j].s
        if toks[j].k == "p":
            if s in OPEN: d += 1
            elif s in (")", "]", "}"):
                d -= 1
                if d == 0:
                    return j
    raise LostAnchor("unbalanced brackets")

def skip_generics(toks, i):
    """toks[i] is '<': index after the matching '>'"""
    d = 0
    while True:
        s = toks[i].s
        if s == "<": d += 1
        elif s == "<<": d += 2
        elif s == ">": d -= 1
        elif s in OPEN and toks[i].k == "p":
            i = match_close(toks, i)
        i += 1
        if d == 0:
            return i

class Item:
    def __init__(self, kind, name, file, src, toks, t0, t1, attrs, scope):
        self.kind, self.name, self.file, self.src = kind, name, file, src
        self.toks, self.t0, self.t1 = toks, t0, t1     # token range [t0, t1], t1 inclusive
        self.attrs = attrs                              # attribute texts
        self.full = ""                                  # the header of its impl, with generics: "From<io::Error> for Error"
        self.scope = scope                              # "" | "Type" | "Trait for Type" | "trait Trait"
    @property
    def text(self):
        return self.src[self.toks[self.t0].a:self.toks[self.t1].b]
    @property
    def line(self):
        return self.toks[self.t0].line
    @property
    def end_line(self):
        return self.toks[self.t1].line
    def __repr__(self):
        return f"<{self.kind} {self.scope}::{self.name}>"

ITEM_KW = {"fn", "struct", "enum", "const", "static", "type", "trait", "impl", "mod", "use", "extern", "union"}

def norm_impl_header(toks):
    """'impl<..> Trait<..> for Type<..> where ..' -> 'Trait for Type' (generics dropped)"""
    out, i = [], 0
    if toks and toks[0].s == "<":
        i = skip_generics(toks, 0)
    while i < len(toks):
        s = toks[i].s
        if s == "where": break
        if s == "<":
            i = skip_generics(toks, i); continue
        out.append(s); i += 1
    txt = " ".join(out)
    txt = re.sub(r"\s*::\s*", "::", txt)
    parts = txt.split(" for ")
    def last(p):
        p = p.strip()
        p = re.sub(r"^(dyn|&|mut)\s+", lambda m: "dyn " if m.group(1) == "dyn" else "", p)
        return p if " " in p else p.split("::")[-1]
    return " for ".join(last(p) for p in parts)

def full_impl_header(toks):
    i = skip_generics(toks, 0) if toks and toks[0].s == "<" else 0
    out = []
    for t in toks[i:]:
        if t.s == "where": break
        out.append(" for " if t.s == "for" else t.s)
    return "".join(out)

class File:
    def __init__(self, root, rel):
        self.rel = rel
        p = os.path.join(root, rel)
        if not os.path.exists(p):
            raise LostAnchor(f"file {rel} not found")
        self.src = open(p, encoding="utf-8").read()
        self.toks = lex(self.src)
        self.items = []
        self._scan(0, len(self.toks), "")
    def _scan(self, i, end, scope):
        T = self.toks
        while i < end:
            attrs = []
            start = i
            while i < end and T[i].s == "#":
                j = i + 1
                if T[j].s == "!": j += 1
                e = match_close(T, j)
                attrs.append(self.src[T[i].a:T[e].b]); i = e + 1
            t0 = i
            if i < end and T[i].s == "pub":
                i += 1
                if i < end and T[i].s == "(": i = match_close(T, i) + 1
            while i < end and (T[i].s in ("async", "unsafe", "default") or (T[i].s == "const" and T[i + 1].s in ("fn", "unsafe")) or
                   (T[i].s == "extern" and T[i + 1].k == "str")):
                i += 2 if T[i].s == "extern" else 1
            if i >= end: return
            kw = T[i].s
            cfg_test = any("cfg" in a and "test" in a for a in attrs)
            if kw == "impl":
                j = i + 1
                while T[j].s != "{":
                    j = skip_generics(T, j) if T[j].s == "<" else j + 1
                e = match_close(T, j)
                sc = norm_impl_header(T[i + 1:j])
                self.items.append(Item("impl", sc, self.rel, self.src, T, t0, e, attrs, scope))
                n0 = len(self.items)
                if not cfg_test: self._scan(j + 1, e, sc)
                for x in self.items[n0:]: x.full = full_impl_header(T[i + 1:j])
                i = e + 1
            elif kw == "trait":
                name = T[i + 1].s
                j = i + 1
                while T[j].s != "{":
                    j = skip_generics(T, j) if T[j].s == "<" else j + 1
                e = match_close(T, j)
                self.items.append(Item("trait", name, self.rel, self.src, T, t0, e, attrs, scope))
                if not cfg_test: self._scan(j + 1, e, "trait " + name)
                i = e + 1
            elif kw == "mod":
                name = T[i + 1].s
                if T[i + 2].s == ";":
                    i += 3; continue
                e = match_close(T, i + 2)
                if not cfg_test: self._scan(i + 3, e, scope)
                i = e + 1
            elif kw == "fn":
                name = T[i + 1].s
                j = i + 2
                while T[j].s not in ("{", ";"):
                    if T[j].s == "<": j = skip_generics(T, j)
                    elif T[j].s in ("(", "["): j = match_close(T, j) + 1
                    else: j += 1
                e = match_close(T, j) if T[j].s == "{" else j
                it = Item("fn", name, self.rel, self.src, T, t0, e, attrs, scope)
                it.kw, it.body = i, (j if T[j].s == "{" else None)
                if not cfg_test: self.items.append(it)
                i = e + 1
            elif kw in ("struct", "enum", "union"):
                name = T[i + 1].s
                j = i + 2
                while T[j].s not in ("{", ";"):
                    if T[j].s == "<": j = skip_generics(T, j)
                    elif T[j].s == "(": j = match_close(T, j) + 1
                    else: j += 1
                e = match_close(T, j) if T[j].s == "{" else j
                self.items.append(Item(kw, name, self.rel, self.src, T, t0, e, attrs, scope))
                i = e + 1
            elif kw in ("const", "static", "type", "use", "extern"):
                j = i + 1
                name = T[j].s
                if name in ("ref", "mut"): name = T[j + 1].s
                while T[j].s != ";":
                    j = match_close(T, j) + 1 if (T[j].s in OPEN and T[j].k == "p") else j + 1
                self.items.append(Item(kw, name, self.rel, self.src, T, t0, j, attrs, scope))
                i = j + 1
            elif T[i].k == "id" and T[i + 1].s == "!":       # item macro
                j = i + 2
                if T[j].k == "id": j += 1
                e = match_close(T, j)
                nm = kw
                self.items.append(Item("macro", nm, self.rel, self.src, T, t0, e, attrs, scope))
                i = e + 1
                if i < end and T[i].s == ";": i += 1
            else:
                i += 1
    def find(self, kind, name, scope=None):
        c = [x for x in self.items if x.kind == kind and x.name == name and (scope is None or x.scope == scope or "<" in scope and x.full == scope)]
        if len(c) != 1:
            raise LostAnchor(f"{self.rel}: {kind} {scope or ''}::{name}: {len(c)} found")
        return c[0]

class Loop:
    def __init__(self, kind, kw, brace, close):
        self.kind, self.kw, self.brace, self.close = kind, kw, brace, close

def find_loops(toks, b0, b1):
    """loops inside the body tokens (b0 = '{' , b1 = '}'), in source order"""
    out, i = [], b0 + 1
    while i < b1:
        t = toks[i]
        if t.k == "id" and t.s in ("for", "while", "loop") and not (t.s == "for" and toks[i + 1].s == "<"):
            j = i + 1
            while toks[j].s != "{":
                j = match_close(toks, j) + 1 if (toks[j].s in ("(", "[") and toks[j].k == "p") else j + 1
            out.append(Loop(t.s, i, j, match_close(toks, j)))
        i += 1
    return out

_repo_cache = {}
def get_file(root, rel):
    k = (root, rel)
    if k not in _repo_cache:
        _repo_cache[k] = File(root, rel)
    return _repo_cache[k]
