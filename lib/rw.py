"""Mechanical rewrites of function text that the verifier's subset needs.  None of them looks at what the code means.

rewrite(text, pattern, replacement): token pattern with holes `$x`; a hole matches a balanced, non-empty run of tokens
without `;`, `,` or `=>` at its top level; a pattern that begins with a hole takes the longest postfix expression
(a.b(c)[d]) that ends where the hole ends.  Every match is rewritten, also inside holes.
for_refs(text): `for &p in e {` -> `for p_r in e { let p = *p_r;`
for_index(text): `for x in &[mut] e {` -> `let mut x_k = 0; while x_k < e.len() { let x = at_mut(&mut e, x_k) [&e[x_k]]; x_k += 1;`
mut_self(text): `mut self` -> `self` and a local
byte_strings(text): b"ab" -> &[97u8, 98u8]
formats(text): format!("a{}b", x) -> joined(&joined(&"a", &(x)), &"b"), for literals with `{}` or `{name}` holes only and
  outside of error messages
legacy_consts(text): std::u16::MAX, u16::max_value() -> u16::MAX
crate_paths(text): crate::error::Error -> Error (the units have /repo's items at their top level)
str_match(text, n): `match e { "lit" [| "lit"] => A, .., x => Z }` -> if/else chain of string comparisons
"""
from rsx import lex, match_close, LostAnchor

def _pat(p):
    out = []
    i = 0
    import re
    p2 = re.sub(r"\$(\w+)", r"HOLE_\1", p)
    return [t.s for t in lex(p2)]

def _hole_ok(t): return not (t.k == "p" and t.s in (";", ",", "=>"))

def _match(toks, i, pat, k, holes, lim):
    """match pat[k:] at token i -> end index or None"""
    if k == len(pat): return i
    if i >= lim: return None
    p = pat[k]
    if p.startswith("HOLE_"):
        nm = p[5:]
        j = i
        while j < lim:
            t = toks[j]
            if not _hole_ok(t) or (t.k == "p" and t.s in (")", "]", "}")): return None
            j = match_close(toks, j) + 1 if t.k == "p" and t.s in ("(", "[", "{") else j + 1
            h2 = dict(holes)
            if nm in h2:
                a, b = h2[nm]
                if [x.s for x in toks[a:b]] != [x.s for x in toks[i:j]]: continue
            h2[nm] = (i, j)
            e = _match(toks, j, pat, k + 1, h2, lim)
            if e is not None:
                holes.clear(); holes.update(h2)
                return e
        return None
    if toks[i].s == p: return _match(toks, i + 1, pat, k + 1, holes, lim)
    return None

def _primary_starts(toks):
    """token indices where a postfix expression can begin"""
    for i, t in enumerate(toks):
        if t.k == "id" or t.k in ("num", "str", "char") or (t.k == "p" and t.s == "("):
            if i and toks[i - 1].k == "p" and toks[i - 1].s in (".", "::"): continue
            if t.s == "(" and i and (toks[i - 1].k == "id" and toks[i - 1].s not in KW or toks[i - 1].s in (")", "]", ">", "!")): continue
            if t.k == "id" and t.s in KW: continue
            yield i
KW = {"let", "mut", "ref", "if", "else", "match", "while", "for", "in", "loop", "return", "break", "continue", "as", "move", "fn", "pub", "impl", "where"}

def _postfix_ends(toks, i):
    """ends (exclusive) of the postfix expressions starting at i"""
    j = i
    if toks[j].k == "p" and toks[j].s == "(": j = match_close(toks, j) + 1
    else: j += 1
    yield j
    while j < len(toks):
        t = toks[j]
        if t.k == "p" and t.s in ("(", "["): j = match_close(toks, j) + 1
        elif t.k == "p" and t.s == "?": j += 1
        elif t.k == "p" and t.s == "!" and toks[j + 1].s in ("(", "["): j = match_close(toks, j + 1) + 1
        elif t.k == "p" and t.s in (".", "::"):
            if toks[j + 1].s == "<":
                from rsx import skip_generics
                j = skip_generics(toks, j + 1)
            else: j += 2
        else: return
        yield j

def rewrite(text, pattern, repl):
    pat = _pat(pattern)
    rep = pattern_repl(repl)
    n = 0
    pos = 0
    while True:
        toks = lex(text)
        hit = None
        if pat[0].startswith("HOLE_"):
            for i in _primary_starts(toks):
                if toks[i].a < pos: continue
                best = None
                for j in _postfix_ends(toks, i):
                    h = {pat[0][5:]: (i, j)}
                    e = _match(toks, j, pat, 1, h, len(toks))
                    if e is not None: best = (i, e, h)      # the longest receiver
                if best: hit = best; break
        else:
            for i, t in enumerate(toks):
                if t.a < pos or t.s != pat[0]: continue
                h = {}
                e = _match(toks, i, pat, 0, h, len(toks))
                if e is not None: hit = (i, e, h); break
        if not hit: return text, n
        i, e, h = hit
        n += 1
        if n > 500: raise Exception(f"rewrite does not end: {pattern}")
        a, b = toks[i].a, toks[e - 1].b
        new = ""
        first = None
        for part in rep:
            if part[0] == "t": new += part[1]
            else:
                if part[1] not in h: raise Exception(f"rewrite: unknown hole ${part[1]} in {repl}")
                x, y = h[part[1]]
                new += text[toks[x].a:toks[y - 1].b]
        text = text[:a] + new + text[b:]
        # go on inside the holes, but not at the same place
        pos = a + 1 if any(p[0] == "h" for p in rep) else a + len(new)

def pattern_repl(r):
    import re
    out = []
    for m in re.finditer(r"\$(\w+)|([^$]+)", r):
        out.append(("h", m.group(1)) if m.group(1) else ("t", m.group(2)))
    return out

def for_refs(text):
    n = 0
    while True:
        toks = lex(text)
        hit = None
        for i, t in enumerate(toks):
            if t.s == "for" and t.k == "id" and toks[i + 1].s == "&" and toks[i + 2].k == "id" and toks[i + 2].s != "mut" and toks[i + 3].s == "in": hit = i; break
        if hit is None: return text, n
        n += 1
        i = hit
        nm = toks[i + 2].s
        j = i + 4
        while toks[j].s != "{": j = match_close(toks, j) + 1 if toks[j].s in ("(", "[") and toks[j].k == "p" else j + 1
        text = text[:toks[i + 1].a] + nm + "_r" + text[toks[i + 2].b:toks[j].b] + f" let {nm} = *{nm}_r;" + text[toks[j].b:]

def for_index(text):
    n = 0
    while True:
        toks = lex(text)
        hit = None
        for i, t in enumerate(toks):
            if t.s == "for" and t.k == "id" and toks[i + 1].k == "id" and toks[i + 2].s == "in" and toks[i + 3].s == "&": hit = i; break
        if hit is None: return text, n
        n += 1
        i = hit
        nm = toks[i + 1].s
        mut = toks[i + 4].s == "mut"
        a = j = i + 5 if mut else i + 4
        while toks[j].s != "{": j = match_close(toks, j) + 1 if toks[j].s in ("(", "[") and toks[j].k == "p" else j + 1
        e = text[toks[a].a:toks[j - 1].b]
        item = f"at_mut(&mut {e}, {nm}_k)" if mut else f"&{e}[{nm}_k]"
        text = text[:toks[i].a] + f"let mut {nm}_k: usize = 0; while {nm}_k < {e}.len() {{ let {nm} = {item}; {nm}_k += 1;" + text[toks[j].b:]

def mut_self(text):
    """fn f(mut self, ..) { .. self .. } -> fn f(self, ..) { let mut self_ = self; .. self_ .. }"""
    toks = lex(text)
    for i, t in enumerate(toks):
        if t.s == "mut" and toks[i + 1].s == "self" and toks[i - 1].s == "(": break
        if t.s == "{": return text, 0
    else: return text, 0
    b = i
    while toks[b].s != "{": b += 1
    out, p = [], 0
    out.append(text[:t.a]); p = toks[i + 1].a
    out.append(text[p:toks[b].b]); p = toks[b].b
    out.append(" let mut self_ = self;")
    for x in toks[b + 1:]:
        if x.k == "id" and x.s == "self":
            out.append(text[p:x.a]); out.append("self_"); p = x.b
    out.append(text[p:])
    return "".join(out), 1

def str_match(text, n, eq="str_eq", tag=None):
    tag = n if tag is None else tag
    """the n-th `match` whose first arm is a string literal"""
    toks = lex(text)
    seen = -1
    for i, t in enumerate(toks):
        if t.s != "match" or t.k != "id": continue
        j = i + 1
        while toks[j].s != "{": j = match_close(toks, j) + 1 if toks[j].s in ("(", "[") and toks[j].k == "p" else j + 1
        k = j + 1
        if toks[k].k != "str": continue
        seen += 1
        if seen != n: continue
        close = match_close(toks, j)
        scrut = text[toks[i + 1].a:toks[j - 1].b]
        out, els = f"{{ let scrut_{tag} = {scrut}; ", False
        while k < close:
            lits, bind = [], None
            while True:
                if toks[k].k == "str": lits.append(toks[k].s)
                elif toks[k].k == "id": bind = toks[k].s
                else: raise LostAnchor("string match: pattern " + toks[k].s)
                k += 1
                if toks[k].s == "|": k += 1; continue
                break
            if toks[k].s != "=>": raise LostAnchor("string match: arm with a guard")
            k += 1
            b0 = k
            if toks[k].s == "{" :
                e = match_close(toks, k); k = e + 1
                if toks[k].s == ",": k += 1
                body = text[toks[b0].a:toks[e].b]
            else:
                while k < close and toks[k].s != ",": k = match_close(toks, k) + 1 if toks[k].s in ("(", "[", "{") and toks[k].k == "p" else k + 1
                body = "{ " + text[toks[b0].a:toks[k - 1].b] + " }"
                if k < close: k += 1
            if bind is None:
                out += ("else " if els else "") + "if " + " || ".join(f"{eq}(scrut_{tag}, {l})" for l in lits) + " " + body + " "
                els = True
            else:
                b = "" if bind == "_" else f"let {bind} = scrut_{tag}; "
                out += f"else {{ {b}{body} }} "
        out += "}"
        return text[:toks[i].a] + out + text[toks[close].b:]
    raise LostAnchor(f"string match {n} not found")

def str_matches(text):
    """every match on string literals whose arms are literals and one binding (others stay as they are)"""
    n = k = 0
    while True:
        try: text = str_match(text, n, tag=k); k += 1
        except LostAnchor as ex:
            if "not found" in str(ex): return text, k
            n += 1

def legacy_consts(text):
    """std::u16::MAX -> u16::MAX (the module of the same name holds the same constant)"""
    toks = lex(text); e = []; ints = {a + b for a in "ui" for b in ("8", "16", "32", "64", "128", "size")}
    for i in range(len(toks) - 4):
        if toks[i].s in ("std", "core") and toks[i + 1].s == "::" and toks[i + 2].s in ints and toks[i + 3].s == "::" and toks[i + 4].s in ("MAX", "MIN"):
            e.append((toks[i].a, toks[i + 2].a))
    for a, b in reversed(e): text = text[:a] + text[b:]
    toks = lex(text); f = []
    for i in range(len(toks) - 4):                        # u16::max_value() -> u16::MAX
        if toks[i].s in ints and toks[i + 1].s == "::" and toks[i + 2].s in ("max_value", "min_value") and toks[i + 3].s == "(" and toks[i + 4].s == ")":
            f.append((toks[i + 2].a, toks[i + 4].b, toks[i + 2].s[:3].upper()))
    for a, b, c in reversed(f): text = text[:a] + c + text[b:]
    return text, len(e) + len(f)

def crate_paths(text):
    toks = lex(text); e = []; i = 0
    while i < len(toks) - 1:
        if toks[i].k == "id" and toks[i].s == "crate" and toks[i + 1].s == "::" and not (i and toks[i - 1].s in ("use", "in")):
            j = i + 2
            while j + 1 < len(toks) and toks[j].k == "id" and toks[j].s.islower() and toks[j + 1].s == "::": j += 2
            e.append((toks[i].a, toks[j].a)); i = j
        i += 1
    for a, b in reversed(e): text = text[:a] + text[b:]
    return text, len(e)

def byte_strings(text):
    out, p, n = [], 0, 0
    for t in lex(text):
        if t.k == "str" and t.s.startswith(("b\"", "br")):
            v = eval(t.s if t.s.startswith("b\"") else "br" + t.s[2:].strip("#"))
            out.append(text[p:t.a]); out.append("&[" + ", ".join(f"{b}u8" for b in v) + "]"); p = t.b; n += 1
    return "".join(out) + text[p:], n


def repr_char(c): return "'\\''" if c == "'" else f"'{c}'"

def formats(text):
    """format! that is not the text of an error: a chain of joins of its literal parts and its arguments"""
    import re
    n = 0
    skip = 0
    while True:
        toks = lex(text)
        hit = None
        for i in range(len(toks) - 3):
            if not (toks[i].s == "format" and toks[i + 1].s == "!" and toks[i + 2].s == "(" and toks[i + 3].k == "str" and toks[i + 3].s.startswith('"')) or toks[i].a < skip: continue
            c = match_close(toks, i + 2)
            # enclosing calls
            err = False
            for k in range(i):
                if toks[k].s == "(" and toks[k].k == "p" and k and match_close(toks, k) > c and toks[k - 1].k == "id":
                    path = [toks[k - 1].s] + ([toks[k - 3].s] if toks[k - 2].s == "::" else [])
                    if {"Error", "Custom", "Err", "Io"} & set(path): err = True
            lit = toks[i + 3].s[1:-1]
            parts = re.split(r"(\{\{|\}\}|\{\w*\})", lit)
            if err or any("{" in x or "}" in x for x in parts[0::2]): continue
            args, a = [], i + 4
            if toks[a].s == ",":
                a += 1
                b = a
                while b <= c:
                    if b == c or toks[b].k == "p" and toks[b].s == ",":
                        if b > a: args.append(text[toks[a].a:toks[b - 1].b])
                        a = b + 1; b += 1; continue
                    b = match_close(toks, b) + 1 if toks[b].k == "p" and toks[b].s in ("(", "[", "{") else b + 1
            if any(re.match(r"\w+\s*=[^=]", x) for x in args): continue
            names = [x[1:-1] for x in parts[1::2] if x not in ("{{", "}}")]
            if sum(1 for x in names if x == "") != len(args) or any(x.isdigit() for x in names): continue
            hit = (i, c, parts, args); break
        if hit is None: return text, n
        i, c, parts, args = hit
        items, cur, q = [], "", 0
        for k, x in enumerate(parts):
            if k % 2 == 0: cur += x
            elif x == "{{": cur += "{"
            elif x == "}}": cur += "}"
            else:
                if cur: items.append(f'"{cur}"')
                cur = ""
                if x == "{}": items.append(f"({args[q]})"); q += 1
                else: items.append(x[1:-1])
        if cur or not items: items.append(f'"{cur}"')
        out = f"owned(&{items[0]})"
        if len(items) > 1:
            out = f"joined(&{items[0]}, &{items[1]})"
            for x in items[2:]: out = f"joined(&{out}, &{x})"
        lits = [x for x in items if x.startswith('"') and len(x) > 2 and "\\" not in x]
        if lits:
            facts = "".join(f"reveal_strlit({x}); assert({x}@ =~= seq![{', '.join(repr_char(ch) for ch in x[1:-1])}]); " for x in lits)
            out = "{ proof { broadcast use lemma_joined_char; " + facts + "} " + out + " }"
        n += 1
        text = text[:toks[i].a] + out + text[toks[c].b:]
        skip = toks[i].a
