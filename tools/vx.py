#!/usr/bin/env python3
"""Mechanical extraction of functions from /repo's current sources into a Verus file.

A template (verus/*.rs.in) is Verus text with directives, one block per extracted item:

  //@fn FILE NAME [in IMPL-HEADER-REGEX]     the item `fn NAME` (inside a matching impl block, if given)
  //@block FILE REGEX => HEADER              the braces after REGEX (a closure's body) as a function with that header
  //@expr FILE REGEX => HEADER               the expression after REGEX (a closure without braces), likewise
  //@item FILE REGEX                         any other item starting at REGEX and ending at its closing brace or ';'
  //@ret NAME                                names the result (Verus needs a name to speak about it)
  //@contract                                text up to the next directive goes between signature and body
  //@loop N                                  text goes between the head and the body of the N-th loop (1-based); //@loop? N WORD: only if it starts with that word
  //@before REGEX / //@after REGEX           ghost text inserted before/after the first match in the item (optional: //@before? ...)
  //@swap REGEX => TEXT ## reason            before the others: REGEX ends in an open bracket; replaces up to its partner
  //@pre REGEX => TEXT ## reason             like sub, but before the other directives look for their anchors
  //@sub REGEX => TEXT ## reason             textual substitution inside the item; each is reported
  //@mutself                                `mut self` (not yet read by Verus) as a local self_
  //@bytestr                                byte string literals as array literals (their view is not yet known to Verus)
  //@slices                                 slice patterns desugared (see slice_patterns)
  //@format                                 format! as the appends it abbreviates (see format_macro)
  //@abe                                    abe! and abev! as the items they abbreviate (see abe_macro)
  //@each A,B = a1,b1; a2,b2 .. //@endeach  the lines between, once per tuple, with {{A}}, {{B}} replaced (' @' for a comma)
  //@end
  //@only FILE N REGEX                       outside items: the file has exactly N such places (no other writer, say)
  //@need FILE REGEX                         outside items: the text must be there (what a stand-in restates)

The executable text is the text of /repo; only contracts, invariants, ghost blocks and the listed substitutions are
added. A directive whose anchor is gone raises Lost: the unit is then reported as undecided, never as a violation.
"""
import re, os, sys, json

REPO = os.environ.get("LK_REPO", "/repo")

class Lost(Exception):
    pass

def mask(s):
    """same length text with comments, strings and char literals blanked"""
    out = list(s)
    i, n = 0, len(s)
    def blank(a, b):
        for k in range(a, b):
            if out[k] != "\n":
                out[k] = " "
    while i < n:
        c = s[i]
        if s.startswith("//", i):
            j = s.find("\n", i)
            j = n if j < 0 else j
            blank(i, j); i = j
        elif s.startswith("/*", i):
            d, j = 1, i + 2
            while j < n and d:
                if s.startswith("/*", j): d += 1; j += 2
                elif s.startswith("*/", j): d -= 1; j += 2
                else: j += 1
            blank(i, j); i = j
        elif (m := re.compile(r'b?r(#*)"').match(s, i)) and (i == 0 or not (s[i-1].isalnum() or s[i-1] == "_")):
            j = s.find('"' + m.group(1), m.end())
            j = j + 1 + len(m.group(1))
            blank(i, j); i = j
        elif c == '"':
            j = i + 1
            while s[j] != '"':
                j += 2 if s[j] == "\\" else 1
            blank(i, j + 1); i = j + 1
        elif c == "'":
            m = re.compile(r"'(\\x[0-9a-fA-F]{2}|\\u\{[0-9a-fA-F]+\}|\\.|[^\\'])'").match(s, i)
            if m:
                blank(i, m.end()); i = m.end()
            else:
                i += 1
        else:
            i += 1
    return "".join(out)

def close(m, i):
    d = 0
    for k in range(i, len(m)):
        if m[k] in "{([": d += 1
        elif m[k] in "})]":
            d -= 1
            if d == 0: return k
    raise Lost("unbalanced braces")

def body_open(m, i):
    """the '{' opening the body of the item starting at i"""
    d = 0
    for k in range(i, len(m)):
        if m[k] in "([": d += 1
        elif m[k] in ")]": d -= 1
        elif m[k] == "{" and d == 0: return k
        elif m[k] == ";" and d == 0: raise Lost("item without a body")
    raise Lost("no body")

_cache = {}
def load(f):
    if f not in _cache:
        p = os.path.join(REPO, f)
        if not os.path.exists(p): raise Lost("file %s is gone" % f)
        s = open(p).read()
        _cache[f] = (s, mask(s))
    return _cache[f]

def find_fn(f, name, inn=None):
    s, m = load(f)
    spans = [(0, len(s))]
    if inn:
        spans = []
        for mm in re.finditer(inn, m):
            o = body_open(m, mm.start())
            spans.append((mm.start(), close(m, o)))
        if not spans: raise Lost("impl %s not found in %s" % (inn, f))
    hits = []
    for lo, hi in spans:
        for mm in re.compile(r"(?m)(?:pub(?:\([^)]*\))?\s+)?(?:const\s+)?(?:unsafe\s+)?fn\s+%s\b" % re.escape(name)).finditer(m, lo, hi):
            hits.append(mm.start())
    if not hits: raise Lost("fn %s not found in %s" % (name, f))
    a = hits[0]
    o = body_open(m, a)
    e = close(m, o)
    return s[a:e + 1], m[a:e + 1], o - a

def find_block(f, rx, head):
    s, m = load(f)
    mm = re.search(rx.strip(), s)
    if not mm: raise Lost("block %s not found in %s" % (rx, f))
    o = m.find("{", mm.end())
    if o < 0 or s[mm.end():o].strip(): raise Lost("block %s is no longer followed by a body in %s" % (rx, f))
    e = close(m, o)
    head = head.strip() + " "
    return head + s[o:e + 1], head + m[o:e + 1], len(head)

def find_expr(f, rx, head):
    s, m = load(f)
    mm = re.search(rx.strip(), s)
    if not mm: raise Lost("expression %s not found in %s" % (rx, f))
    d, k = 0, mm.end()
    while not (d == 0 and m[k] in ",)]};"):
        if m[k] in "{([": d += 1
        elif m[k] in "})]": d -= 1
        k += 1
    head = head.strip() + " "
    body = "{ " + s[mm.end():k].strip() + " }"
    return head + body, head + mask(body), len(head)

def find_item(f, rx):
    s, m = load(f)
    mm = re.search(rx, s)
    if not mm: raise Lost("item %s not found in %s" % (rx, f))
    a = mm.start()
    d = 0
    for k in range(a, len(m)):
        if m[k] in "([{": d += 1
        elif m[k] in ")]}":
            d -= 1
            if d == 0 and m[k] == "}" : return s[a:k + 1]
        elif m[k] == ";" and d == 0: return s[a:k + 1]
    raise Lost("item end")

def top_split(s, m, a, b, sep):
    """[a,b) split at sep outside brackets"""
    out, d, k, last = [], 0, a, a
    while k < b:
        if m[k] in "([{": d += 1
        elif m[k] in ")]}": d -= 1
        elif d == 0 and m.startswith(sep, k) and not (sep == "|" and m.startswith("||", k)):
            out.append((last, k)); last = k + len(sep)
        k += 1
    out.append((last, b))
    return out

def slice_patterns(s, rep, name):
    """`match SLICE { [p, q, rest @ ..] => .., [p] => .., x => .. }` (not yet read by Verus) as the match over
    (len, get(0), get(1), ..) that it abbreviates; an arm `_ => unreached()` is added, to be proved unreachable, when no
    catch-all is there"""
    n = 0
    pos = 0
    while True:
        m = mask(s)
        x = re.compile(r"\bmatch\b").search(m, pos)
        if not x: break
        pos = x.end()
        o = body_open(m, x.end())
        e = close(m, o)
        scrut = s[x.end():o].strip()
        # arms
        arms, k = [], o + 1
        while True:
            while k < e and m[k] in " \n\t,": k += 1
            if k >= e: break
            d, j = 0, k
            while not (d == 0 and m.startswith("=>", j)):
                if m[j] in "([{": d += 1
                elif m[j] in ")]}": d -= 1
                j += 1
            pat = (k, j)
            j += 2
            while m[j] in " \n\t": j += 1
            if m[j] == "{":
                c = close(m, j)
                # a block followed by an operator belongs to an expression
                r = c + 1
                while r < e and m[r] in " \n\t": r += 1
                if r >= e or m[r] not in "?.":
                    arms.append((pat, (j, c + 1))); k = c + 1; continue
            d, c = 0, j
            while c < e and not (d == 0 and m[c] == ","):
                if m[c] in "([{": d += 1
                elif m[c] in ")]}": d -= 1
                c += 1
            arms.append((pat, (j, c))); k = c
        if not any(m[a:b].lstrip().startswith("[") for (a, b), _ in arms): continue
        n += 1
        v = "sp%d" % n
        alts, top = [], 0
        for (a, b), body in arms:
            g = top_split(s, m, a, b, " if ")
            guard = s[g[1][0]:g[1][1]].strip() if len(g) > 1 else None
            here, lets, nest = [], "", []
            for (pa, pb) in top_split(s, m, g[0][0], g[0][1], "|"):
                pt = s[pa:pb].strip()
                if pt.startswith("["):
                    q = pa + (len(s[pa:pb]) - len(s[pa:pb].lstrip()))
                    els = [s[u:w].strip() for u, w in top_split(s, m, q + 1, close(m, q), ",") if s[u:w].strip()]
                    rest = [i for i, el in enumerate(els) if el.endswith("..")]
                    if rest and rest[0] != len(els) - 1: raise Lost("%s: slice pattern %s" % (name, pt))
                    if rest:
                        r = els.pop()
                        b_ = re.match(r"(?:ref\s+)?(\w+)\s*@\s*\.\.", r)
                        if b_: lets += "let %s = slice_from(%s, %d); " % (b_.group(1), v, len(els))
                    for i, el in enumerate(els):
                        if el.startswith("&["):
                            els[i] = "e%d_" % i; nest.append("same(e%d_, %s)" % (i, el))
                        elif el.startswith("["):
                            ob = s.index(el, q); sub_ = [s[u:w].strip() for u, w in top_split(s, m, ob + 1, close(m, ob), ",") if s[u:w].strip()]
                            tail_ = sub_.pop() if sub_ and sub_[-1].endswith("..") else None
                            if any(t.endswith("..") or not re.match(r"b'|\d", t) for t in sub_): raise Lost("%s: nested slice pattern %s" % (name, el))
                            els[i] = "e%d_" % i
                            nest.append("e%d_.len() %s %d" % (i, ">=" if tail_ else "==", len(sub_)))
                            nest += ["e%d_[%d] == %s" % (i, z, t) for z, t in enumerate(sub_)]
                            b_ = re.match(r"(?:ref\s+)?(\w+)\s*@\s*\.\.", tail_ or "")
                            if b_: lets += "let %s = slice_from(e%d_, %d); " % (b_.group(1), i, len(sub_))
                    top = max(top, len(els))
                    here.append((els, bool(rest)))
                elif re.fullmatch(r"[a-z]\w*", pt) and pt != "_":
                    lets += "let %s = %s; " % (pt, v); here.append(None)
                elif pt == "_": here.append(None)
                else: raise Lost("%s: pattern %s among slice patterns" % (name, pt))
            if nest:
                if len(here) > 1: raise Lost("%s: alternatives with nested slice patterns" % name)
                guard = " && ".join(nest + (["(%s)" % guard] if guard else []))
            alts.append((here, guard, lets, s[body[0]:body[1]]))
        out = []
        for here, guard, lets, body in alts:
            ps = []
            for h in here:
                if h is None: ps.append("_"); continue
                els, rest = h
                ps.append("(%s)" % ", ".join(["_" if rest else "%dusize" % len(els)] + ["Some(%s)" % el for el in els] + ["_"] * (top - len(els))))
            out.append("%s%s => { %s%s }" % (" | ".join(ps), " if " + guard if guard else "", lets, body))
        if not any(None in h and not g for h, g, _, _ in alts): out.append("_ => vstd::pervasive::unreached()")
        new = "{ let %s = %s; match (%s) {\n%s\n} }" % (v, scrut, ", ".join(["%s.len()" % v] + ["%s.get(%d)" % (v, i) for i in range(top)]), ",\n".join(out))
        s = s[:x.start()] + new + s[e + 1:]
        pos = x.start() + len("{ let %s = %s; match" % (v, scrut)) + 1
    if n: rep["substitutions"].append("%s: slice patterns as the match over length and elements they abbreviate (%d)" % (name, n))
    return s

def lit_bytes(t):
    return ", ".join("%du8" % c for c in t.encode().decode("unicode_escape").encode("latin1"))

def format_macro(s, rep, name):
    """format!("lit{x}lit{:02X}", y) as `fmt_new().lit(&[..]).arg(&(x)).lit(&[..]).arg_02X(&(y))`; write!(&mut w, ..) as
    `w.append_(..)`: the text between the braces is passed on byte for byte, the fields in their order"""
    n = 0
    while True:
        m = mask(s)
        x = re.compile(r"\b(?:std::)?(format|write)!\(").search(m)
        if not x: break
        e = close(m, x.end() - 1)
        parts = [s[a:b].strip() for a, b in top_split(s, m, x.end(), e, ",")]
        w = parts.pop(0) if x.group(1) == "write" else None
        if parts and parts[-1] == "": parts.pop()
        f = re.fullmatch(r'"((?:[^"\\]|\\.)*)"', parts[0], re.S)
        if not f: raise Lost("%s: format string %s" % (name, parts[0]))
        out, args, k, lit = "fmt_new()", parts[1:], 0, ""
        for tok in re.findall(r"\{\{|\}\}|\{[^{}]*\}|(?:[^{}\\]|\\.)+", f.group(1)):
            if tok in ("{{", "}}"): lit += tok[0]; continue
            if not tok.startswith("{"): lit += tok; continue
            if lit: out += ".lit(&[%s])" % lit_bytes(lit); lit = ""
            fld, _, spec = tok[1:-1].partition(":")
            spec = re.sub(r"\W", lambda c: "_%02x_" % ord(c.group(0)), spec)
            if fld == "":
                if k >= len(args): raise Lost("%s: format string %s" % (name, parts[0]))
                fld = args[k]; k += 1
            elif not re.fullmatch(r"[a-z_]\w*", fld): raise Lost("%s: format field %s" % (name, fld))
            out += ".arg%s(&(%s))" % ("_" + spec if spec else "", fld)
        if lit: out += ".lit(&[%s])" % lit_bytes(lit)
        if k != len(args): raise Lost("%s: format arguments" % name)
        if w is not None: out = "%s.append_(%s)" % (re.sub(r"^&mut\s+", "", w), out)
        s = s[:x.start()] + out + s[e + 1:]
        n += 1
    if n: rep["substitutions"].append("%s: format! as the appends it abbreviates (%d)" % (name, n))
    return s

ABE_MACRO = re.compile(r"\( \$e:expr \) => \{\s*core::iter::once\(\$crate::ast::ABE::Expr\(\$e\.into\(\)\)\)\s*\};.*"
    r"core::iter::once\(\$crate::ast::ABE::from_iter\(\$crate::abe!\(\$\(\$inner\)\*\)\)\)\.chain\( \$crate::abe!\(\$\(\$arg\)\*\)\)", re.S)

def abe_macro(s, rep, name):
    """abe!(..) and abev!(..) as the vector of items that crates/abe/src/abe_macro.rs makes of the tokens"""
    if not ABE_MACRO.search(load("crates/abe/src/abe_macro.rs")[0]): raise Lost("the abe! macro has changed")
    n = 0
    def items(s, m, a, b):
        out, k = [], a
        while k < b:
            c = s[k]
            if c in " \n\t": k += 1
            elif c == "{":
                e = close(m, k); out.append("abe_list(%s)" % items(s, m, k + 1, e)); k = e + 1
            elif c == "(":
                e = close(m, k); out.append("abe_expr(%s)" % s[k:e + 1]); k = e + 1
            elif c == ":": out.append("ABE::Ctr(Ctr::Colon)"); k += 1
            elif c == "/": out.append("ABE::Ctr(Ctr::FSlash)"); k += 1
            elif c == '"':
                e = k + 1
                while s[e] != '"': e += 2 if s[e] == "\\" else 1
                out.append("abe_expr(&[%s])" % lit_bytes(s[k + 1:e])); k = e + 1
            elif (w := re.compile(r"[A-Za-z_]\w*").match(s, k)):
                out.append("abe_expr(%s)" % w.group(0)); k = w.end()
            else: raise Lost("%s: abe! token %s" % (name, s[k:k + 10]))
        return "vec![%s]" % ", ".join(out)
    while True:
        m = mask(s)
        x = re.compile(r"\b(?:\$crate::|abe::)?abev?!\(").search(m)
        if not x: break
        e = close(m, x.end() - 1)
        s = s[:x.start()] + items(s, m, x.end(), e) + s[e + 1:]
        n += 1
    if n: rep["substitutions"].append("%s: abe! as the items it abbreviates (%d)" % (name, n))
    return s

def loops(m, o):
    r = []
    for mm in re.compile(r"\b(while|for|loop)\b").finditer(m, o):
        if mm.group(1) == "for" and re.match(r"for\s*<", m[mm.start():]): continue
        try:
            b = body_open(m, mm.end())
        except Lost:
            continue
        r.append((mm.start(), b))
    return r

def each(lines):
    out, i = [], 0
    while i < len(lines):
        mm = re.match(r"\s*//@each\s+([\w,\s]+?)\s*=\s*(.*)$", lines[i])
        if not mm: out.append(lines[i]); i += 1; continue
        e = next(k for k in range(i, len(lines)) if re.match(r"\s*//@endeach", lines[k]))
        names = [x.strip() for x in mm.group(1).split(",")]
        for tup in mm.group(2).split(";"):
            vals = dict(zip(names, [x.strip().replace(" @", ", ") for x in tup.split(",")]))
            out += [re.sub(r"\{\{(\w+)\}\}", lambda x: vals[x.group(1)] if x.group(1) in vals else x.group(0), ln) for ln in lines[i + 1:e]]
        i = e + 1
    return out

def build(path):
    """returns (text, report)"""
    def flat(p):
        out = []
        for ln in open(p).read().split("\n"):
            mm = re.match(r"\s*//@include\s+(\S+)", ln)   # shared specifications and assumed contracts of std
            out += flat(os.path.join(os.path.dirname(path), mm.group(1))) if mm else [ln]
        return out
    lines = each(flat(path))
    out, rep = [], {"functions": [], "items": [], "substitutions": []}
    i = 0
    while i < len(lines):
        ln = lines[i]
        m = re.match(r"\s*//@need\s+(\S+)\s+(.*)$", ln)
        if m:
            if not re.search(m.group(2), load(m.group(1))[0]): raise Lost("%s no longer reads %s" % m.groups())
            i += 1; continue
        m = re.match(r"\s*//@only\s+(\S+)\s+(\d+)\s+(.*)$", ln)
        if m:
            k = len(re.findall(m.group(3), load(m.group(1))[1]))
            if k != int(m.group(2)): raise Lost("%s has %d places that read %s, not %s" % (m.group(1), k, m.group(3), m.group(2)))
            i += 1; continue
        m = re.match(r"\s*//@(fn|item|block|expr)\s+(\S+)\s+(.*)$", ln)
        if not m:
            out.append(ln); i += 1; continue
        kind, f, rest = m.groups()
        dirs, cur = [], None
        i += 1
        while not re.match(r"\s*//@end", lines[i]):
            d = re.match(r"\s*//@(\w+\??)\s*(.*)$", lines[i])
            if d:
                cur = [d.group(1), d.group(2), []]; dirs.append(cur)
            elif cur is not None:
                cur[2].append(lines[i])
            i += 1
        i += 1
        if kind == "item":
            t = find_item(f, rest)
            rep["items"].append("%s: %s" % (f, rest))
            for n, arg, _ in dirs:
                if n in ("sub", "sub?", "pre"):
                    t = do_sub(t, arg, rep, rest, n == "sub?")
            out.append(t)
            continue
        if kind == "expr":
            # the expression of a closure without braces, given the header of a function
            rx, _, head = rest.partition(" => ")
            name = re.search(r"fn (\w+)", head).group(1)
            s, mk, o = find_expr(f, rx, head)
        elif kind == "block":
            # the body of a closure, given the header of a function
            rx, _, head = rest.partition(" => ")
            name = re.search(r"fn (\w+)", head).group(1)
            s, mk, o = find_block(f, rx, head)
        else:
            mm = re.match(r"(\w+)(?:\s+in\s+(.*))?$", rest)
            name, inn = mm.group(1), mm.group(2)
            s, mk, o = find_fn(f, name, inn)
        rep["functions"].append("%s::%s" % (f, name))
        pres = [(n, arg) for n, arg, _ in dirs if n in ("pre", "pre?", "swap", "swap?")]
        if pres:
            for n, arg in pres:
                s = do_swap(s, arg, rep, name, n.endswith("?")) if n.startswith("swap") else do_sub(s, arg, rep, name, n.endswith("?"))
            mk = mask(s); o = body_open(mk, 0)
        if any(n == "mutself" for n, _, _ in dirs):
            h, b = s[:o], s[o + 1:]
            if not re.search(r"\bmut self\b", h): raise Lost("%s no longer takes mut self" % name)
            s = re.sub(r"\bmut self\b", "self", h) + "{ let mut self_ = self; " + re.sub(r"\bself\b", "self_", b)
            rep["substitutions"].append("%s: mut self as a local" % name)
            mk = mask(s); o = body_open(mk, 0)
        for d_, fn_ in (("format", format_macro), ("abe", abe_macro)):
            if any(n == d_ for n, _, _ in dirs):
                s = fn_(s, rep, name)
                mk = mask(s); o = body_open(mk, 0)
        if any(n == "bytestr" for n, _, _ in dirs):
            s, k = re.subn(r'(?<!\w)b"((?:[^"\\]|\\.)*)"', lambda x: "&[%s]" % ", ".join("%du8" % c for c in x.group(1).encode().decode("unicode_escape").encode("latin1")), s)
            if k: rep["substitutions"].append("%s: byte string literals as arrays (%d)" % (name, k))
            mk = mask(s); o = body_open(mk, 0)
        if any(n == "slices" for n, _, _ in dirs):
            s = slice_patterns(s, rep, name)
            mk = mask(s); o = body_open(mk, 0)
        ins = []   # (position, text)
        specd = set()
        for n, arg, txt in dirs:
            txt = "\n".join(txt)
            if n == "ret":
                sig = mk[:o]
                # the '->' at bracket depth 0
                d, pos = 0, None
                k = 0
                while k < len(sig):
                    if sig[k] in "([": d += 1
                    elif sig[k] in ")]": d -= 1
                    elif sig.startswith("->", k) and d == 0: pos = k; break
                    k += 1
                if pos is None: raise Lost("fn %s has no result" % name)
                w = re.compile(r"\bwhere\b").search(sig, pos)
                end = w.start() if w else o
                ty = s[pos + 2:end].strip()
                ins.append((pos, end, "-> (%s: %s)\n" % (arg.strip(), ty)))
            elif n == "contract":
                ins.append((o, o, txt + "\n"))
            elif n in ("loop", "loop?"):
                ls = loops(mk, o)
                a = arg.split()
                k = int(a[0])
                if k > len(ls) or (len(a) > 1 and not mk.startswith(a[1], ls[k - 1][0])):
                    if n == "loop?": continue
                    raise Lost("fn %s: loop %d is gone" % (name, k))
                specd.add(k)
                ins.append((ls[k - 1][1], ls[k - 1][1], "\n" + txt + "\n"))
            elif n in ("before", "after", "before?", "after?"):
                x = re.compile(arg.strip()).search(s, o)
                if not x:
                    if n.endswith("?"): continue
                    raise Lost("fn %s: anchor %s is gone" % (name, arg))
                p = x.start() if n.startswith("before") else x.end()
                ins.append((p, p, "\n" + txt + "\n"))
        n_loops = len(loops(mk, o))
        if len(specd) < n_loops: raise Lost("fn %s: %d loops, %d with a specification" % (name, n_loops, len(specd)))
        for a, b, t in sorted(ins, key=lambda x: (-x[0], -x[1])):
            s = s[:a] + t + s[b:]
        for n, arg, _ in dirs:
            if n in ("sub", "sub?"):
                s = do_sub(s, arg, rep, name, n.endswith("?"))
        s = re.sub(r"(?m)^\s*#!?\[(track_caller|inline[^\]]*|instrument[^\]]*)\]\s*$", "", s)
        out.append(s)
    return "\n".join(out), rep

def do_swap(t, arg, rep, name, opt=False):
    """replaces REGEX (ending in an open bracket) up to the bracket's partner"""
    arg, _, why = arg.partition(" ## ")
    a, _, b = arg.partition(" => ")
    rx, k, p = re.compile(a.strip()), 0, 0
    while True:
        m = mask(t)
        x = rx.search(t, p)
        if not x: break
        if m[x.end() - 1] not in "{([": p = x.end(); continue
        e = close(m, x.end() - 1)
        r = x.expand(b.strip())
        t = t[:x.start()] + r + t[e + 1:]
        p = x.start() + len(r)
        k += 1
    if k == 0 and not opt: raise Lost("%s: anchor %s is gone" % (name, a))
    if k: rep["substitutions"].append("%s: %s (%d)" % (name, why.strip() or arg, k))
    return t

def do_sub(t, arg, rep, name, opt=False):
    arg, _, why = arg.partition(" ## ")
    a, _, b = arg.partition(" => ")
    t2, k = re.subn(a.strip(), b.strip(), t)
    if k == 0:
        if opt: return t
        raise Lost("%s: substitution anchor %s is gone" % (name, a))
    rep["substitutions"].append("%s: %s (%d)" % (name, why.strip() or arg, k))
    return t2

if __name__ == "__main__":
    t, r = build(sys.argv[1])
    open(sys.argv[2], "w").write(t)
    print(json.dumps(r, indent=1))
