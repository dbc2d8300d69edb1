"""Builds a Verus file from a unit template plus the functions extracted from
/repo's current source, runs Verus, and reports per-obligation results.

Template = Rust/Verus text; lines starting with //@ are directives:

  //@item FILE | KIND | NAME [| SCOPE]      emit that item's text (pub and attributes dropped)
  //@itemrw «A» => «B» [why]            like rw, for the items that follow (empty: none)
  //@derive FILE | KIND | NAME | Trait[,..] require these derives on the item (anchor)
  //@static FILE | NAME                     emit an immutable static as a constant
  //@const FILE | NAME | CONTRACT           emit a constant with a contract
  //@lazy FILE | NAME | CONTRACT            emit a lazy_static as a function of its initializer
  //@fn FILE | SCOPE | NAME [| or F2 | S2]  (the trait's default F2 | S2 where the impl defines no NAME) emit that function's text with contracts:
    //@ret r                                name the return value
    //@attr #[...]                          attribute for the emitted function
    //@spec                                 following lines: requires/ensures/decreases
    //@loop N                               following lines: invariants of loop N (0-based, source order)
    //@iter N name                          `for x in name: expr`
    //@closure K «a: T, b: U» «-> (o: V) ensures ..»   closure K (source order) gets typed parameters and a contract;
                                            its own patterns are bound in the body, its body stays
    //@nobody                               keep the signature only (a trait method's contract)
    //@tailcontinue N                       in loop N: `pat => continue` arms of the loop's last statement become `pat => ()`
    //@start | @loopstart N | @loopend N | @afterloop N | @end-of-body    proof text there
    //@before «TOKENS» [#k] / @after «TOKENS» [#k]    proof text before/after the statement-level token run
    //@sub «A» => «B» [why]             mechanical token replacement (recorded)
    //@sig «A» => «B» [why]             the same, in the signature only
    //@rw «A» => «B» [why]              token pattern with holes $x, applied everywhere in the function before all the rest (lib/rw.py)
    //@forindex                         `for x in &v` and `for x in &mut v` become index loops (lib/rw.py)
  (`for &x in e` always becomes `for x_r in e { let x = *x_r; ..`)
  //@rwall «A» => «B» [why]             like rw, for every function that follows in the unit
  //@end
"""
import re, os, json, subprocess, time, resource, hashlib
import rsx, rw
from rsx import LostAnchor, lex, get_file, find_loops, match_close

REPO = os.environ.get("VP_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

class Edit:
    def __init__(self, text):
        self.text, self.ins = text, []          # (pos, end, newtext, order)
    def insert(self, pos, s): self.ins.append((pos, pos, s, len(self.ins)))
    def replace(self, a, b, s): self.ins.append((a, b, s, len(self.ins)))
    def apply(self):
        out, p = [], 0
        for a, b, s, _ in sorted(self.ins, key=lambda x: (x[0], x[3])):
            if a < p: raise LostAnchor("overlapping edits")
            out.append(self.text[p:a]); out.append(s); p = b
        out.append(self.text[p:])
        return "".join(out)

def strip_pub_and_attrs(text):
    """drop visibility and attributes (also on fields); comments stay"""
    toks, e, i = lex(text), Edit(text), 0
    while i < len(toks):
        t = toks[i]
        if t.s == "pub" and t.k == "id":
            end = toks[i].b
            if i + 1 < len(toks) and toks[i + 1].s == "(" and toks[i + 2].s in ("crate", "super", "in", "self"):
                c = match_close(toks, i + 1); end = toks[c].b; e.replace(t.a, end, ""); i = c + 1; continue
            e.replace(t.a, end, "")
        elif t.s == "#" and i + 1 < len(toks) and toks[i + 1].s == "[":
            c = match_close(toks, i + 1)
            e.replace(t.a, toks[c].b, ""); i = c + 1; continue
        i += 1
    return e.apply()

def token_runs(toks, pat, lo=0, hi=None):
    p = [t.s for t in lex(pat)]
    hi = len(toks) if hi is None else hi
    return [i for i in range(lo, hi - len(p) + 1) if all(toks[i + k].s == p[k] for k in range(len(p)))], len(p)

def split_top(s):
    out, d, cur = [], 0, ""
    for c in s:
        if c in "(<[": d += 1
        elif c in ")>]": d -= 1
        if c == "," and d == 0: out.append(cur); cur = ""
        else: cur += c
    return out + ([cur] if cur.strip() else [])

def find_closures(toks, b0, b1):
    """(first token, [(pattern first, last)], body first, body last, is block) in source order"""
    out = []
    for i in range(b0 + 1, b1):
        t = toks[i]
        if t.k != "p" or t.s not in ("|", "||"): continue
        pv = toks[i - 1]
        if not ((pv.k == "p" and pv.s in ("(", ",", "=", "{", "=>", ";", "&&", "||")) or pv.s in ("move", "return")): continue
        pats, j = [], i + 1
        if t.s == "|":
            st = j
            while toks[j].s != "|":
                if toks[j].s in ("(", "[", "{") and toks[j].k == "p": j = match_close(toks, j) + 1; continue
                if toks[j].s == "<": j = rsx.skip_generics(toks, j); continue
                if toks[j].s == ",":
                    pats.append((st, j - 1)); st = j + 1
                j += 1
            if st < j: pats.append((st, j - 1))
            j += 1
        if toks[j].s == "->": 
            while toks[j].s != "{": j += 1
        block = toks[j].s == "{"
        if block: e = match_close(toks, j)
        else:
            e = j
            while True:
                if toks[e].k == "p" and toks[e].s in ("(", "[", "{"): e = match_close(toks, e) + 1; continue
                if toks[e].k == "p" and toks[e].s in (")", "]", "}", ",", ";"): break
                e += 1
            e -= 1
        out.append((i, pats, j, e, block))
    return out

# calls whose result depends on what a closure gives
VALUE_COMBINATORS = {"map", "and_then", "map_or", "map_or_else", "filter", "or_else", "unwrap_or_else", "is_some_and", "is_none_or", "is_ok_and", "is_err_and", "then", "any", "all",
                     "position", "find", "fold", "filter_map", "flat_map", "take_while", "skip_while", "sort_by", "sort_by_key", "min_by_key", "max_by_key", "retain", "for_each", "unwrap_or_default",
                     "or_insert_with", "and_modify", "zip", "map_while", "try_for_each", "find_map", "get_or_insert_with", "is_some_then"}

class FnSpec:
    def __init__(self, file, scope, name, line):
        self.file, self.scope, self.name, self.line = file, scope, name, line
        self.ret = None; self.attrs = []; self.spec = ""; self.loops = {}; self.iters = {}
        self.subs = []; self.tails = []; self.closures = []; self.nobody = False; self.rws = []; self.strmatch = []; self.assume = False; self.forindex = False

class Unit:
    def __init__(self, name, text):
        self.name = name
        self.text = text
        self.fns = []              # emitted functions: dict(name, scope, file, lines, gen range)
        self.items = []
        self.subs = []
        self.lost = []             # lost optional anchors (hints)
        self.formats = False
        self.auto = False          # closures without a contract get their own body as contract

PARTS = re.compile(r"\s*\|\s*")

def parse_template(path):
    base = os.path.dirname(path)
    out = []
    for ln in open(path).read().split("\n"):
        m = re.match(r"\s*//@include\s+(\S+)(?:\s+contracts\s+(\S+))?", ln)
        if m:
            sub = parse_template(os.path.join(base, m.group(1)))
            out += ["//@assume " + m.group(2)] + sub + ["//@assume"] if m.group(2) else sub
        else: out.append(ln)
    return out

def build(path, vacuity=False, auto=False):
    lines = parse_template(path)
    u = Unit(os.path.basename(path).rsplit(".", 1)[0], "")
    u.auto = auto
    out, i = [], 0
    rwall = []; itemrw = []
    assume = ""
    def lineno(): return sum(s.count("\n") + 1 for s in out) + 1
    while i < len(lines):
        ln = lines[i]
        st = ln.strip()
        if not st.startswith("//@"):
            out.append(ln); i += 1; continue
        cmd, _, rest = st[3:].strip().partition(" ")
        rest = rest.strip()
        if cmd == "item":
            p = PARTS.split(rest)
            it = get_file(REPO, p[0]).find(p[1], p[2], p[3] if len(p) > 3 else None)
            g0 = lineno()
            txt = rw.crate_paths(strip_pub_and_attrs(it.text))[0]
            for a, b, why in itemrw:
                txt, k = rw.rewrite(txt, a, b)
                if k: u.subs.append(f"{p[0]}::{p[2]}: `{a}` => `{b}`" + (f" ({why})" if why else ""))
            out.append(txt)
            u.items.append(dict(file=p[0], kind=p[1], name=p[2], line=it.line, end=it.end_line, gen=(g0, lineno() - 1)))
            i += 1
        elif cmd == "static":                        # an immutable static read as a constant
            p = PARTS.split(rest)
            it = get_file(REPO, p[0]).find("static", p[1])
            g0 = lineno()
            txt = strip_pub_and_attrs(it.text).strip()
            if not re.match(r"static\s+[A-Z]", txt): raise LostAnchor(f"{p[0]}: static {p[1]}")
            out.append("const" + re.sub(r"&\s*str\b", "&'static str", txt[len("static"):]))
            u.subs.append(f"{p[0]}: static {p[1]} => const")
            u.items.append(dict(file=p[0], kind="static", name=p[1], line=it.line, end=it.end_line, gen=(g0, lineno() - 1)))
            i += 1
        elif cmd == "lazy":                          # lazy_static! { static ref N: T = E; }  =>  fn N() -> (r: T) <contract> { E }
            p = PARTS.split(rest, 2)
            f = get_file(REPO, p[0])
            ks = [k for k in range(len(f.toks) - 4) if [t.s for t in f.toks[k:k + 4]] == ["static", "ref", p[1], ":"]]
            if len(ks) != 1: raise LostAnchor(f"{p[0]}: static ref {p[1]}: {len(ks)} found")
            k = ks[0] + 4
            e = k
            while f.toks[e].s != "=": e += 1
            z = e + 1
            while f.toks[z].s != ";": z = match_close(f.toks, z) + 1 if f.toks[z].k == "p" and f.toks[z].s in ("(", "[", "{") else z + 1
            g0 = lineno()
            out.append(f"fn {p[1]}() -> (r: {f.src[f.toks[k].a:f.toks[e].a]}) {p[2]} {{ {f.src[f.toks[e].b:f.toks[z].a]} }}")
            u.subs.append(f"{p[0]}: lazy static {p[1]} => a function of its initializer")
            ln0 = f.src[:f.toks[ks[0]].a].count("\n") + 1
            u.items.append(dict(file=p[0], kind="static ref", name=p[1], line=ln0, end=ln0, gen=(g0, lineno() - 1)))
            i += 1
        elif cmd == "const":                         # const N: T = E;  =>  exec const N: T <contract> { E }, byte strings as arrays
            p = PARTS.split(rest, 2)
            it = get_file(REPO, p[0]).find("const", p[1])
            m = re.match(r"\s*const\s+\w+\s*:\s*(.*?)\s*=\s*(.*);\s*$", strip_pub_and_attrs(it.text), re.S)
            if not m: raise LostAnchor(f"{p[0]}: const {p[1]}")
            ty, ex = re.sub(r"&\s*(?!')", "&'static ", m.group(1)), m.group(2)
            if re.fullmatch(r'b"(?:[^"\\]|\\.)*"', ex.strip()):
                ex = "&[" + ", ".join(f"{b}u8" for b in eval(ex.strip())) + "]"
            g0 = lineno()
            out.append(f"exec const {p[1]}: {ty} {p[2]} {{ {ex} }}")
            u.subs.append(f"{p[0]}: const {p[1]} => exec const with a contract, byte string as an array")
            u.items.append(dict(file=p[0], kind="const", name=p[1], line=it.line, end=it.end_line, gen=(g0, lineno() - 1)))
            i += 1
        elif cmd == "derive":
            p = PARTS.split(rest)
            it = get_file(REPO, p[0]).find(p[1], p[2])
            have = set(re.findall(r"\w+", " ".join(a for a in it.attrs if "derive" in a)))
            for d in p[3].split(","):
                if d.strip() not in have:
                    raise LostAnchor(f"{p[0]}: {p[2]} no longer derives {d}")
            i += 1
        elif cmd == "fn":
            p = PARTS.split(rest)
            if len(p) > 3:                           # FILE | SCOPE | NAME | or FILE2 | SCOPE2: the trait's default where the impl has no NAME
                if not any(x.kind == "fn" and x.name == p[2] and x.scope == p[1] for x in get_file(REPO, p[0]).items):
                    p = [p[3][2:].strip(), p[4], p[2]]
            fs = FnSpec(p[0], p[1] if p[1] != "-" else "", p[2], i)
            i += 1
            cur = None
            buf = {}
            def sink(key): 
                buf.setdefault(key, []); return key
            while True:
                if i >= len(lines): raise Exception(f"{path}: //@fn without //@end ({fs.name})")
                s = lines[i].strip()
                if s.startswith("//@"):
                    c, _, r = s[3:].strip().partition(" ")
                    r = r.strip()
                    cur = None
                    if c == "end": i += 1; break
                    elif c == "ret": fs.ret = r
                    elif c == "attr": fs.attrs.append(r)
                    elif c in ("sub", "sig"):
                        m = re.match(r"«(.*?)»\s*=>\s*«(.*?)»\s*(.*)$", r)
                        if not m: raise Exception(f"{path}:{i + 1}: bad {c}")
                        fs.subs.append((c, m.group(1), m.group(2), m.group(3)))
                    elif c == "iter":
                        n, nm = r.split(); fs.iters[int(n)] = nm
                    elif c == "nobody": fs.nobody = True
                    elif c == "rw": fs.rws.append(rwline(path, i, r))
                    elif c == "strmatch": fs.strmatch.append(int(r))
                    elif c == "forindex": fs.forindex = True
                    elif c == "closure":
                        m = re.match(r"(\d+)\s*«(.*?)»\s*«(.*?)»$", r)
                        if not m: raise Exception(f"{path}:{i + 1}: bad closure")
                        fs.closures.append((int(m.group(1)), m.group(2), m.group(3)))
                    elif c == "tailcontinue": fs.tails.append(int(r))
                    elif c in ("before", "after"):
                        m = re.match(r'«(.*?)»(?:\s*#(\d+))?$', r)
                        cur = sink((c, m.group(1), int(m.group(2) or 1)))
                    elif c in ("loop", "loopstart", "loopend", "afterloop", "beforeloop"): cur = sink((c, int(r)))
                    elif c in ("spec", "start", "end-of-body", "returns"): cur = sink((c,))
                    else: raise Exception(f"{path}:{i + 1}: unknown directive {c}")
                elif cur is not None: buf[cur].append(lines[i])
                i += 1
            fs.rws = rwall + fs.rws
            if assume:
                fs.attrs = ["#[verifier::external_body]"] + [a for a in fs.attrs if "loop_isolation" not in a]
                fs.closures, fs.tails, fs.iters, fs.strmatch, fs.assume = [], [], {}, [], True
                buf = {k: v for k, v in buf.items() if k[0] == "spec"}
            txt, info = emit_fn(u, fs, {k: "\n".join(v) for k, v in buf.items()}, vacuity)
            g0 = lineno()
            out.append(txt)
            info["gen"] = (g0, lineno() - 1)
            if assume: info["verified_in"] = assume; u.subs.append(f"{fs.file}::{fs.name}: contract only, verified in unit {assume}")
            u.fns.append(info)
        elif cmd == "assume":                        # contracts only: the functions that follow are verified in the named unit
            if rest: rw_outside = rwall
            else: rwall = rw_outside
            assume = rest; i += 1
        elif cmd == "itemrw":
            itemrw = itemrw + [rwline(path, i, rest)] if rest else []; i += 1
        elif cmd == "rwall":
            rwall = rwall + [rwline(path, i, rest)]; i += 1
        elif cmd == "formats":                       # from here on, format! outside of error messages has a contract
            u.formats = True; i += 1
        elif cmd in ("note", "unit"):
            i += 1
        else:
            raise Exception(f"{path}:{i + 1}: unknown directive {cmd}")
    u.text = "\n".join(out)
    return u

def rwline(path, i, r):
    m = re.match(r"«(.*?)»\s*=>\s*«(.*?)»\s*(.*)$", r)
    if not m: raise Exception(f"{path}:{i + 1}: bad rw")
    return m.group(1), m.group(2), m.group(3)

def emit_fn(u, fs, buf, vacuity):
    f = get_file(REPO, fs.file)
    it = f.find("fn", fs.name, fs.scope)
    text = it.text
    text, k = rw.mut_self(text)
    if k: u.subs.append(f"{fs.file}::{fs.name}: `mut self` => `self`, `let mut self_ = self;`")
    text, k = rw.for_refs(text)
    if k: u.subs.append(f"{fs.file}::{fs.name}: {k} `for &x in e` => `for x_r in e` + `let x = *x_r;`")
    text, k = rw.str_matches(text)
    if k: u.subs.append(f"{fs.file}::{fs.name}: {k} match on string literals => if/else chain of comparisons")
    text, k = rw.crate_paths(text)
    if k: u.subs.append(f"{fs.file}::{fs.name}: {k} `crate::module::name` => `name`")
    text, k = rw.legacy_consts(text)
    if k: u.subs.append(f"{fs.file}::{fs.name}: {k} `std::int::MAX` or `int::max_value()` (or MIN) => the type's constant")
    if u.formats:
        text, k = rw.formats(text)
        if k: u.subs.append(f"{fs.file}::{fs.name}: {k} `format!` => joined parts (std formatting as a function with a contract)")
    text, k = rw.byte_strings(text)
    if k: u.subs.append(f"{fs.file}::{fs.name}: {k} byte string literals => arrays of the same bytes")
    for a, b, why in fs.rws:
        text, k = rw.rewrite(text, a, b)
        if k: u.subs.append(f"{fs.file}::{fs.name}: `{a}` => `{b}`" + (f" ({why})" if why else ""))
    if fs.forindex:
        text, k = rw.for_index(text)
        if k: u.subs.append(f"{fs.file}::{fs.name}: {k} `for x in &[mut] v` => index loop over v")
    toks = lex(text)
    kw = next(k for k, t in enumerate(toks) if t.s == "fn" and t.k == "id")
    # body brace
    j = kw + 2
    while toks[j].s not in ("{", ";"):
        if toks[j].s == "<": j = rsx.skip_generics(toks, j)
        elif toks[j].s in ("(", "["): j = match_close(toks, j) + 1
        else: j += 1
    has_body = toks[j].s == "{"
    body, close = j, (match_close(toks, j) if has_body else j)
    e = Edit(text)
    bare = []
    # return name
    if fs.ret:
        d = None
        k = kw + 2
        while k < body:
            if toks[k].s == "<" : k = rsx.skip_generics(toks, k); continue
            if toks[k].s in ("(", "["): k = match_close(toks, k) + 1; continue
            if toks[k].s == "->": d = k; break
            k += 1
        if d is None: raise LostAnchor(f"{fs.file}: fn {fs.name} returns nothing")
        w = next((k for k in range(d, body) if toks[k].s == "where"), body)
        e.insert(toks[d + 1].a, f"({fs.ret}: ")
        e.insert(toks[w - 1].b, ")")
    # substitutions
    for c, a, b, why in fs.subs:
        lo, hi = (kw, body) if c == "sig" else (body, close)
        if fs.assume and c == "sub": continue
        hits, n = token_runs(toks, a, lo, hi)
        if not hits:
            u.lost.append(f"{fs.name}: substitution anchor `{a}` not found"); continue
        for h in hits:
            e.replace(toks[h].a, toks[h + n - 1].b, b)
        u.subs.append(f"{fs.file}::{fs.name}: `{a}` => `{b}`" + (f" ({why})" if why else ""))
    spec = buf.get(("spec",), "")
    if spec.strip():
        e.insert(toks[body].a, "\n" + spec + "\n")
    if fs.nobody and has_body:
        e.replace(toks[body].a, toks[close].b, ";"); has_body = False
    if fs.assume and has_body:
        e.replace(toks[body].a, toks[close].b, "{ unimplemented!() }")
    elif has_body:
        loops = find_loops(toks, body, close)
        # facts about variables a loop does not change stay known inside it: less depends on how the code is written
        if loops and not any("loop_isolation" in x for x in fs.attrs): fs.attrs = fs.attrs + ["#[verifier::loop_isolation(false)]", "#[verifier::allow_complex_invariants]"]
        want = {k[1] for k in buf if k[0] in ("loop", "loopstart", "loopend", "afterloop", "beforeloop")} | set(fs.iters)
        if want and max(want) >= len(loops):
            raise LostAnchor(f"{fs.file}: fn {fs.name}: {len(loops)} loops, the contract annotates {max(want) + 1}")
        nl = {k[1] for k in buf if k[0] == "loop"}
        if nl and len(loops) != max(nl) + 1:
            raise LostAnchor(f"{fs.file}: fn {fs.name}: {len(loops)} loops, the contract annotates {max(nl) + 1}")
        st = buf.get(("start",), "")
        hides = "".join(l + "\n" for l in st.split("\n") if l.strip().startswith("hide("))
        if vacuity: st = "\n" + hides + "proof { assert(false); } // VACUITY\n" + "\n".join(l for l in st.split("\n") if not l.strip().startswith("hide("))
        if st: e.insert(toks[body].b, "\n" + st + "\n")
        for k, v in buf.items():
            if k[0] == "loop": e.insert(toks[loops[k[1]].brace].a, "\n" + v + "\n")
            elif k[0] == "loopstart": e.insert(toks[loops[k[1]].brace].b, "\n" + v + "\n")
            elif k[0] == "loopend": e.insert(toks[loops[k[1]].close].a, "\n" + v + "\n")
            elif k[0] == "afterloop": e.insert(toks[loops[k[1]].close].b, "\n" + v + "\n")
            elif k[0] == "beforeloop": e.insert(toks[loops[k[1]].kw].a, "\n" + v + "\n")
            elif k[0] == "returns":              # before every `return`
                for h in range(body, close):
                    if toks[h].s != "return" or toks[h].k != "id": continue
                    q = h + 1
                    while not (toks[q].k == "p" and toks[q].s in (";", ",", "}")):
                        q = match_close(toks, q) + 1 if toks[q].k == "p" and toks[q].s in ("(", "[", "{") else q + 1
                    e.insert(toks[h].a, "{\n" + v + "\n"); e.insert(toks[q - 1].b, " }")
            elif k[0] == "end-of-body":          # before the value the body ends with
                j, at = body + 1, toks[body].b
                while j < close:
                    if toks[j].k == "p" and toks[j].s in ("(", "[", "{"):
                        c = match_close(toks, j)
                        if toks[j].s == "{" and c + 1 < close and (toks[c + 1].k == "id" and toks[c + 1].s != "else" or toks[c + 1].s == "("): at = toks[c].b
                        j = c + 1; continue
                    if toks[j].s == ";": at = toks[j].b
                    j += 1
                e.insert(at, "\n" + v + "\n")
            elif k[0] in ("before", "after"):
                hits, n = token_runs(toks, k[1], body, close)
                if len(hits) < k[2]:
                    u.lost.append(f"{fs.name}: hint anchor `{k[1]}` not found"); continue
                h = hits[k[2] - 1]
                if k[0] == "before": e.insert(toks[h].a, "\n" + v + "\n")
                else: e.insert(toks[h + n - 1].b, "\n" + v + "\n")
        if fs.closures:
            cl = find_closures(toks, body, close)
            for k, params, spec in fs.closures:
                if k >= len(cl): raise LostAnchor(f"{fs.file}: fn {fs.name}: closure {k} not found")
                a, pats, b0, b1, block = cl[k]
                names = [x.split(":")[0].strip() for x in split_top(params)]
                if len(names) != len(pats): raise LostAnchor(f"{fs.file}: fn {fs.name}: closure {k} has {len(pats)} parameters")
                binds = ""
                for nm, (x, y) in zip(names, pats):
                    pt = toks[x:y + 1]
                    colon = next((q for q, t in enumerate(pt) if t.s == ":"), None)
                    if colon: pt = pt[:colon]
                    ptxt = text[pt[0].a:pt[-1].b]
                    if ptxt == nm: continue
                    if pt[0].s == "&" and len(pt) > 1 and pt[1].s != "mut": binds += f" let {text[pt[1].a:pt[-1].b]} = *{nm};"
                    elif ptxt != "_": binds += f" let {ptxt} = {nm};"
                e.replace(toks[a].a, toks[b0].a, f"|{params}| {spec} {{{binds} ")
                e.insert(toks[b1].b, " }")
                u.subs.append(f"{fs.file}::{fs.name}: closure {k}: parameter patterns bound by let, types and contract added")
        for k in range(body, close):                     # string patterns (rw.str_matches leaves those it cannot rewrite)
            if toks[k].k != "str" or toks[k].s[0] != '"': continue
            if toks[k + 1].s in ("=>", "|") and toks[k - 1].s in ("{", ",", "}", "|"): bare.append((-1, False))
            if toks[k + 1].s == ")" and toks[k + 2].s in ("=>", "|") and toks[k - 1].s == "(" and toks[k - 2].s[:1].isupper(): bare.append((-1, False))
        done = {c[0] for c in fs.closures}
        for k, (a, pats, b0, b1, block) in enumerate(find_closures(toks, body, close)):
            if k in done or toks[a - 1].s != "(" and toks[a - 1].s != ",": continue
            j, d = a - 1, 0                              # the call it is an argument of
            while j > body:
                if toks[j].k == "p" and toks[j].s in (")", "]", "}"): d += 1
                if toks[j].k == "p" and toks[j].s in ("(", "[", "{"):
                    if d == 0: break
                    d -= 1
                j -= 1
            if toks[j].s != "(" or toks[j - 1].s not in VALUE_COMBINATORS: continue
            e0 = text[toks[b0].a:toks[b1].b]
            if block: e0 = e0.strip()[1:-1].strip()
            plain = not any(t.k == "p" and t.s in ("?", ";", "{", "!", "|", "||", "=>", "&", "+", "-", "*", "/", "%", "<<", ">>", "=") or t.s in ("return", "mut", "move", "match", "if") for t in lex(e0)) \
                and all(x == y or (x == y - 1 and toks[x].s == "_") for x, y in pats) and toks[b0 - 1].s in ("|", "||")
            bare.append((k, plain))
            if u.auto and plain and e0:
                e.insert(toks[b0].a, f"-> (o_{k}: _) ensures same_val(o_{k}, {e0}) " + ("" if block else "{ "))
                if not block: e.insert(toks[b1].b, " }")
                u.subs.append(f"{fs.file}::{fs.name}: closure {k}: its body as its contract")
        for n in fs.tails:
            lp = loops[n]
            for h in range(lp.brace, lp.close):
                if toks[h].s != "continue": continue
                k = h
                while k > lp.brace:                      # enclosing block
                    k -= 1
                    if toks[k].s == "{" and match_close(toks, k) > h: break
                q = match_close(toks, k) + 1
                if toks[q].s == ";": q += 1
                if toks[h - 1].s != "=>" or q != lp.close:
                    raise LostAnchor(f"{fs.file}: fn {fs.name}: continue is not in tail position")
                e.replace(toks[h].a, toks[h].b, "()")
                u.subs.append(f"{fs.file}::{fs.name}: `=> continue` in the loop body's last statement => `=> ()`")
        for n, nm in fs.iters.items():
            lp = loops[n]
            if lp.kind != "for": raise LostAnchor(f"{fs.name}: loop {n} is not a for loop")
            k = lp.kw
            while toks[k].s != "in": k = match_close(toks, k) + 1 if (toks[k].s in "([" and toks[k].k == "p") else k + 1
            e.insert(toks[k].b, f" {nm}: ")
    res = e.apply()
    res = strip_pub_and_attrs_keep(res, fs.attrs)
    return res, dict(bare=bare, name=fs.name, scope=fs.scope, file=fs.file, line=it.line, end=it.end_line, body=has_body,
                     loops=len(find_loops(toks, body, close)) if has_body else 0,
                     trusted=any("external_body" in a for a in fs.attrs))

def strip_pub_and_attrs_keep(text, attrs):
    toks = lex(text)
    i = 0
    if toks[0].s == "pub":
        i = 1
        if toks[1].s == "(": i = match_close(toks, 1) + 1
    return "\n".join(attrs + [text[toks[i].a:]])

def limit(mem_gb):
    def f():
        resource.setrlimit(resource.RLIMIT_AS, (int(mem_gb * 2 ** 30),) * 2)
        os.setsid()
    return f

def run_verus(path, rlimit=30, timeout=400, threads=4, extra=()):
    cmd = ["verus", path, "--output-json", "--time", "--rlimit", str(rlimit), "--multiple-errors", "20",
           "--num-threads", str(threads), *extra, "--", "--error-format=json"]
    cmd = [c for c in cmd if c != "--"]
    t = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True)
    try:
        so, se = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); so, se = p.communicate()
        return dict(status="timeout", cmd=cmd, wall=time.time() - t, errors=[], raw=se[-4000:], verified=0, failed=0, fns={})
    errs = []
    for l in se.split("\n"):
        if l.startswith("{"):
            try: d = json.loads(l)
            except Exception: continue
            if d.get("level") == "error" and d.get("spans"):
                errs.append(dict(msg=d["message"], spans=[(s["line_start"], s.get("label") or "", s["is_primary"], s["line_end"]) for s in d["spans"]],
                                 rendered=d.get("rendered", "")))
            elif d.get("level") == "error":
                errs.append(dict(msg=d["message"], spans=[], rendered=d.get("rendered", "")))
    try: j = json.loads(so)
    except Exception: j = None
    r = dict(cmd=cmd, wall=time.time() - t, errors=errs, raw=se[-6000:], verified=0, failed=0, fns={}, smt_ms=0)
    vr = (j or {}).get("verification-results", {})
    r["verified"], r["failed"] = vr.get("verified", 0) or 0, vr.get("errors", 0) or 0
    try:
        for m in j["times-ms"]["smt"]["smt-run-module-times"]:
            r["smt_ms"] += m.get("time", 0)
            for fb in m.get("function-breakdown", []):
                r["fns"][fb["function"]] = (fb.get("time", 0), fb.get("success"))
    except Exception: pass
    if j is None or vr.get("encountered-vir-error") or (not vr.get("success") and not r["failed"]):
        r["status"] = "unsupported"
    elif vr.get("success"): r["status"] = "ok"
    else: r["status"] = "failed"
    return r

VERIF_ERR = re.compile(r"(postcondition not satisfied|precondition not satisfied|assertion failed|invariant not satisfied|"
                       r"possible arithmetic (underflow|overflow)|decreases not satisfied|could not prove termination|loop invariant|"
                       r"unreachable|index out of bounds|possible division by zero|possible bit shift|recommendation not met)")

def verify_unit(path, workdir, vacuity=True, **kw):
    """-> dict(status= proved|failed|undecided, ...)

    A failed obligation gets two more chances before it counts as a failure: closures that have no contract are given their
    own body as contract, and the solver another seed and more resources.  A failure in a function with a closure that has
    no contract (so nothing is known about what it gives) is undecided."""
    res = verify_once(path, workdir, vacuity, False, **kw)
    if res["status"] != "failed" and res.get("why") != "solver resource limit": return res
    def open_closures(r):                    # the failing functions that have such closures; None if others fail too
        out = []
        for fn in r["fns"]:
            if any(e["fn"] == fn["name"] and e["where"].startswith(f"{fn['file']}:{fn['line']} ") for e in r["errors"]):
                if not fn.get("bare"): return None
                out.append(f"{fn['scope']}::{fn['name']}")
        return out or None
    which = open_closures(res)
    if which:
        r2 = verify_once(path, workdir, vacuity, True, **kw)
        r2["wall"] += res["wall"]
        if r2["status"] == "proved": return r2
        res["wall"] = r2["wall"]
    kw3 = dict(kw, rlimit=3 * kw.get("rlimit", 30), extra=("--smt-option", "smt.random_seed=17"))
    r3 = verify_once(path, workdir, vacuity, False, **kw3)
    if r3["status"] == "proved" or res["status"] == "undecided":
        r3["wall"] += res["wall"]; return r3
    res["wall"] += r3["wall"]
    if which:
        res["status"] = "undecided"; res["why"] = "closures or string patterns without a contract in: " + ", ".join(which)
    return res

def verify_once(path, workdir, vacuity, auto, **kw):
    os.makedirs(workdir, exist_ok=True)
    name = os.path.basename(path).rsplit(".", 1)[0]
    try:
        u = build(path, auto=auto)
    except LostAnchor as ex:
        return dict(unit=name, status="undecided", why=f"anchor lost: {ex}", fns=[], verified=0, failed=0, errors=[], subs=[], trusted=[], wall=0, smt_ms=0, obligations=[])
    gen = os.path.join(workdir, name + ".rs")
    open(gen, "w").write(u.text)
    r = run_verus(gen, **kw)
    res = dict(unit=name, gen=gen, sha=hashlib.sha256(u.text.encode()).hexdigest()[:16], fns=u.fns, items=u.items, subs=u.subs, lost=u.lost,
               verified=r["verified"], failed=r["failed"], wall=r["wall"], smt_ms=r.get("smt_ms", 0), cmd=" ".join(r["cmd"]),
               errors=[], trusted=scan_trusted(u.text), obligations=sorted(r["fns"].items()))
    if r["status"] == "ok":
        res["status"] = "proved"
        if vacuity:
            u2 = build(path, vacuity=True, auto=auto)
            g2 = os.path.join(workdir, name + "_vacuity.rs")
            open(g2, "w").write(u2.text)
            kw2 = dict(kw); kw2["rlimit"] = 10
            r2 = run_verus(g2, **kw2)
            res["wall"] += r2["wall"]
            if r2["status"] == "failed":
                hit = set()
                L = u2.text.split("\n")
                for er in r2["errors"]:
                    for (a, _, prim, b) in er["spans"]:
                        if "VACUITY" in L[a - 1]:
                            for fn in u2.fns:
                                if fn["gen"][0] <= a <= fn["gen"][1]: hit.add((fn["scope"], fn["name"]))
                miss = [f"{fn['scope']}::{fn['name']}" for fn in u2.fns if fn["body"] and not fn["trusted"] and (fn["scope"], fn["name"]) not in hit]
                res["vacuity_checked"] = len(hit)
                if miss:
                    res["status"] = "undecided"; res["why"] = "vacuous precondition in: " + ", ".join(miss)
            else:
                res["status"] = "undecided"; res["why"] = "vacuity run gave " + r2["status"] + r2["raw"][-500:]
        return res
    if r["status"] == "timeout":
        res["status"] = "undecided"; res["why"] = "verifier timeout"; return res
    real = False
    for er in r["errors"]:
        where = None
        for (a, lab, prim, b) in er["spans"]:
            for fn in u.fns:
                if fn["gen"][0] <= a <= fn["gen"][1] and (where is None or prim): where = fn
        tag = f"{where['file']}:{where['line']} {where['scope']}::{where['name']}" if where else "(template)"
        res["errors"].append(dict(where=tag, fn=where["name"] if where else None, msg=er["msg"], rendered=er["rendered"]))
    if r["status"] == "unsupported":
        res["status"] = "undecided"
        res["why"] = "outside the verifier's subset or does not type-check in the unit: " + "; ".join(
            f"{x['where']}: {x['msg']}" for x in res["errors"][:3]) + (r["raw"][-800:] if not res["errors"] else "")
        return res
    msgs = [x["msg"] for x in res["errors"]]
    if any("rlimit" in m.lower() or "resource limit" in m.lower() for m in msgs) and not any(VERIF_ERR.search(m) for m in msgs):
        res["status"] = "undecided"; res["why"] = "solver resource limit"
    elif u.lost:
        res["status"] = "undecided"; res["why"] = "proof annotations lost their anchors: " + "; ".join(u.lost)
    else:
        res["status"] = "failed"
    return res

def scan_trusted(text):
    """every trusted declaration in the generated unit, by name"""
    out = []
    L = text.split("\n")
    pat = re.compile(r"#\[verifier::(external_body|external|external_type_specification|external_trait_specification|external_fn_specification)[^\]]*\]|\bassume_specification\b|\badmit\(\)|\bassume\(|\bbroadcast axiom\b|\baxiom fn\b|#\[verifier::exec_allows_no_decreases_clause\]")
    for n, l in enumerate(L):
        for m in pat.finditer(l.split("//")[0] if "external" not in l else l):
            nm = ""
            for k in range(n, min(n + 6, len(L))):
                mm = re.search(r"(?:fn|struct|enum|trait|type)\s+(\w+)|assume_specification[^\[]*\[([^\]]+)\]", L[k])
                if mm: nm = (mm.group(1) or mm.group(2)).strip(); break
            out.append(f"{m.group(0).strip('#[](').replace('verifier::', '')} {nm}")
    seen = []
    for x in out:
        if x not in seen: seen.append(x)
    return seen

if __name__ == "__main__":
    import sys
    v = "-v" in sys.argv
    for p in [a for a in sys.argv[1:] if not a.startswith("-")]:
        r = verify_unit(p, "/tmp/vunits", vacuity=v, threads=8)
        print(r["unit"], r["status"], "verified", r["verified"], "failed", r["failed"], f"{r['wall']:.1f}s smt {r['smt_ms']}ms", r.get("why", ""), r.get("vacuity_checked", ""), r.get("lost", ""))
        for e in r["errors"]:
            print("  --", e["where"]); print(e["rendered"])
