#!/usr/bin/env python3
"""Mechanical extraction of Rust items from /repo and splicing of contracts.

A *template* (verus/*.rs) is a Verus file whose ghost parts (spec functions, lemmas, assumed
contracts on dependencies) are written out and whose executable parts are directives:

  //@fn FILE | CONTAINER | NAME        a function, extracted from /repo on every run
  //@item FILE | KIND | NAME           a struct/enum/const/type, extracted on every run
  ... option lines (all start with //@) until
  //@end

Options of //@fn
  //@as NAME                 emit under another name (trait methods made inherent)
  //@ret NAME                name the returned value in the contract  (default: r)
  //@sig OLD => NEW          token rewrite in the signature only
  //@rewrite OLD => NEW      token rewrite in the body  ($x matches a balanced token run)
  //@desugar opt.map ...     inline the closure of an Option/Result combinator as the match it stands for
                             (for.it, for.range, while.let: the loop and match that `for` and `while let` stand for)
  //@inline FILE | CONT | NAME   put the body of a function that takes a closure where it is called, and the closure's
                           body where that function calls it (its arguments bound first)
  //@use RULESET             apply a named rule set (see //@rules)
  //@spec                    following non-//@ lines are the contract (requires/ensures)
  //@loop N [iter NAME]      following lines are the contract of the N-th loop (0-based, textual order)
  //@hint WHERE              following lines are ghost code: WHERE is one of
                             start | before-loop N | loop-start N | loop-end N | after-loop N |
                             before PATTERN | after PATTERN   (PATTERN: token sequence; first match)
Rule sets: //@rules NAME ... lines "OLD => NEW" ... //@end
Nothing else of the function's text changes; attributes and doc comments are dropped.
"""
import re

class LostAnchor(Exception):
    pass

# ---------------------------------------------------------------- lexer
TOK = re.compile(r'''
  (?P<ws>\s+)
 |(?P<lc>//[^\n]*)
 |(?P<bc>/\*)
 |(?P<rstr>\b(?:b|c|br|cr|r)\#+"|\b(?:br|cr|r)")
 |(?P<str>(?:b|c)?"(?:[^"\\]|\\.)*")
 |(?P<chr>b?'(?:[^'\\\n]|\\(?:x[0-9a-fA-F]{2}|u\{[^}]*\}|.))')
 |(?P<life>'[A-Za-z_][A-Za-z0-9_]*)
 |(?P<num>\d[\dA-Za-z_]*(?:\.\d[\dA-Za-z_]*)?)
 |(?P<id>(?:r\#)?[A-Za-z_][A-Za-z0-9_]*)
 |(?P<p>.)
''', re.X | re.S)

class Tok:
    __slots__ = ("k", "t", "s", "e")
    def __init__(self, k, t, s, e):
        self.k, self.t, self.s, self.e = k, t, s, e
    def __repr__(self):
        return self.t

def lex(src):
    out, i, n = [], 0, len(src)
    while i < n:
        m = TOK.match(src, i)
        k = m.lastgroup
        if k == "bc":
            d, j = 1, i + 2
            while d and j < n:
                if src.startswith("/*", j): d += 1; j += 2
                elif src.startswith("*/", j): d -= 1; j += 2
                else: j += 1
            i = j
            continue
        if k == "rstr":
            h = m.group().count("#")
            j = src.index('"' + "#" * h, m.end()) + 1 + h
            out.append(Tok("str", src[i:j], i, j)); i = j
            continue
        e = m.end()
        if k == "num" and "." in m.group():
            # "0..n" and "x.0.1": do not swallow a range; "1.foo()" likewise
            pass
        if k not in ("ws", "lc"):
            out.append(Tok(k, m.group(), i, e))
        i = e
    return out

OPEN, CLOSE = {"(": ")", "[": "]", "{": "}"}, {")": "(", "]": "[", "}": "{"}

def match_close(toks, i):
    d = 0
    for j in range(i, len(toks)):
        t = toks[j].t
        if toks[j].k == "p":
            if t in OPEN: d += 1
            elif t in CLOSE:
                d -= 1
                if d == 0: return j
    raise LostAnchor("unbalanced")

def norm(src):
    return " ".join(t.t for t in lex(src))

# ---------------------------------------------------------------- items
class Item:
    def __init__(self, **kw): self.__dict__.update(kw)

def parse_items(src, toks, lo, hi, container, out, cfgtest=False):
    i = lo
    while i < hi:
        start = i
        attrs = []
        while i < hi and toks[i].t == "#":
            j = i + 1
            if toks[j].t == "!": j += 1
            c = match_close(toks, j)
            attrs.append(norm(src[toks[i].s:toks[c].e]))
            i = c + 1
        if i >= hi: break
        head = i
        if toks[i].t == "pub":
            i += 1
            if i < hi and toks[i].t == "(": i = match_close(toks, i) + 1
        quals = i
        while i < hi and toks[i].t in ("unsafe", "async", "default", "extern") or (i < hi and toks[i].t == "const" and toks[i+1].t in ("fn", "unsafe", "async")) or (i < hi and toks[i].k == "str"):
            i += 1
        if i >= hi: break
        kw = toks[i].t
        test = cfgtest or any(a.replace(" ", "") in ("#[cfg(test)]", "#[test]") for a in attrs)
        if kw == "fn":
            name = toks[i+1].t
            j = i + 2
            while toks[j].t not in ("{", ";"):
                j = match_close(toks, j) + 1 if toks[j].t in "([" else j + 1
            if toks[j].t == "{": c = match_close(toks, j)
            else: c = j
            out.append(Item(kind="fn", name=name, container=container, start=toks[start].s, head=toks[head].s,
                            end=toks[c].e, body=(toks[j].s if toks[j].t == "{" else None), test=test, attrs=attrs))
            i = c + 1
        elif kw in ("struct", "enum", "union"):
            name = toks[i+1].t
            j = i + 2
            while toks[j].t not in ("{", ";"):
                j = match_close(toks, j) + 1 if toks[j].t in "([" else j + 1
            c = match_close(toks, j) if toks[j].t == "{" else j
            out.append(Item(kind=kw, name=name, container=container, start=toks[start].s, head=toks[head].s, end=toks[c].e, test=test, attrs=attrs))
            i = c + 1
        elif kw in ("impl", "trait", "mod"):
            j = i
            while toks[j].t not in ("{", ";"):
                j = match_close(toks, j) + 1 if toks[j].t in "([" else j + 1
            if toks[j].t == ";": i = j + 1; continue
            c = match_close(toks, j)
            hdr = " ".join(t.t for t in toks[i:j])
            out.append(Item(kind=kw, name=hdr, container=container, start=toks[start].s, head=toks[head].s, end=toks[c].e, test=test, attrs=attrs))
            sub = container if kw == "mod" else hdr
            parse_items(src, toks, j + 1, c, sub, out, test)
            i = c + 1
        elif kw == "macro_rules":
            j = i
            while toks[j].t not in ("{", "("): j += 1
            i = match_close(toks, j) + 1
            if i < hi and toks[i].t == ";": i += 1
        else:  # const static type use macro!{} etc.
            name = toks[i+1].t if i + 1 < hi else ""
            j = i
            while j < hi and toks[j].t != ";":
                if toks[j].t in OPEN:
                    c = match_close(toks, j)
                    if toks[j].t == "{" and kw not in ("use", "const", "static", "type", "let"):
                        j = c; break
                    j = c + 1
                else: j += 1
            j = min(j, hi - 1)
            out.append(Item(kind=kw, name=name, container=container, start=toks[start].s, head=toks[head].s, end=toks[j].e, test=test, attrs=attrs))
            i = j + 1

def expand_macros(src, toks, items):
    """Expand, by token substitution, every item-level invocation m!(a, b, ..) of a single-arm
    macro_rules! m { ($x:frag, $y:frag) => { items } } of the same file; the expansions are appended
    to the text and their items become extractable."""
    macros = {}
    for i, t in enumerate(toks):
        if t.t == "macro_rules" and toks[i+1].t == "!" and toks[i+3].t in OPEN:
            name, o = toks[i+2].t, i + 3
            c = match_close(toks, o)
            p = o + 1
            if toks[p].t not in OPEN: continue
            pc = match_close(toks, p)
            if [x.t for x in toks[pc+1:pc+3]] != ["=", ">"]: continue
            b = pc + 3; bc = match_close(toks, b)
            if any(x.t not in (";",) for x in toks[bc+1:c]): continue      # several arms
            ps, k, simple = [], p + 1, True
            while k < pc:
                if toks[k].t == "$" and toks[k+1].k == "id" and toks[k+2].t == ":": ps.append(toks[k+1].t); k += 4
                elif toks[k].t == ",": k += 1
                else: simple = False; break
            if simple: macros[name] = (ps, src[toks[b].e:toks[bc].s], (toks[i].s, toks[c].e))
    add = []
    depth = 0
    for i, t in enumerate(toks):
        if t.k == "p" and t.t in OPEN: depth += 1
        elif t.k == "p" and t.t in CLOSE: depth -= 1
        elif depth == 0 and t.t in macros and toks[i+1].t == "!" and (i == 0 or toks[i-1].t != "!"):
            ps, body, _ = macros[t.t]
            o = i + 2; c = match_close(toks, o)
            args, a, k = [], o + 1, o + 1
            while k <= c:
                if k == c or toks[k].t == ",":
                    if k > a: args.append(src[toks[a].s:toks[k-1].e])
                    a = k + 1; k += 1
                else: k = match_close(toks, k) + 1 if toks[k].t in OPEN else k + 1
            if len(args) != len(ps): continue
            text = body
            for q, v in sorted(zip(ps, args), key=lambda x: -len(x[0])): text = re.sub(r"\$" + q + r"\b", lambda _: v, text)
            add.append(text)
    for text in add:
        base = len(src) + 1
        src = src + "\n" + text
        sub = []
        t2 = lex(text)
        parse_items(text, t2, 0, len(t2), "", sub)
        for it in sub:
            it.start += base; it.head += base; it.end += base
            if getattr(it, "body", None) is not None: it.body += base
            items.append(it)
    return src

_cache = {}
def load(path):
    if path not in _cache:
        src = open(path, encoding="utf-8").read()
        toks = lex(src)
        items = []
        parse_items(src, toks, 0, len(toks), "", items)
        src = expand_macros(src, toks, items)
        _cache[path] = (src, items)
    return _cache[path]

def norm_hdr(h):
    return " ".join(t.t for t in lex(h))

def strip_hdr_generics(h):
    return h

def find(path, kind, container, name):
    src, items = load(path)
    c = norm_hdr(container)
    r = [it for it in items if it.kind == kind and it.name == name and not it.test and (kind != "fn" and not c or it.container == c)]
    if not r:
        raise LostAnchor(f"{path}: no {kind} {name} in [{container}]")
    return src, r[0]

# ---------------------------------------------------------------- token rewriting
def pat_match(pt, toks, i):
    """Match pattern tokens pt at toks[i:]; returns (end_index, bindings) or None."""
    def go(pi, ti, b):
        if pi == len(pt): return ti, b
        p = pt[pi]
        if p.startswith("$"):
            one = p.endswith("!")            # $x! : exactly one token
            name = p[1:].rstrip("!*~")
            star = p[-1] in "*~"             # $x* : possibly empty;  $x~ : possibly empty, statements too
            if one:
                if ti < len(toks) and toks[ti].t not in CLOSE:
                    e = ti + 1
                    return go(pi + 1, e, {**b, name: (ti, e)})
                return None
            e = ti
            if star:
                r = go(pi + 1, e, {**b, name: (ti, e)})
                if r: return r
            while e < len(toks) and toks[e].t not in CLOSE:
                if toks[e].t == ";" and not p.endswith("~"): return None
                e = (match_close(toks, e) + 1) if toks[e].t in OPEN and toks[e].k == "p" else e + 1
                if pi + 1 == len(pt):
                    pass
                r = go(pi + 1, e, {**b, name: (ti, e)})
                if r: return r
            return None
        if ti < len(toks) and toks[ti].t == p:
            return go(pi + 1, ti + 1, b)
        return None
    return go(0, i, {})

def pat_toks(p):
    out = []
    for w in re.findall(r"\$\w+[!*~]?|(?:(?!\$\w).)+", p, re.S):
        if re.match(r"\$\w", w): out.append(w)
        else: out += [t.t for t in lex(w)]
    return out

def rewrite(text, old, new, limit=200):
    """Rewrite every non-overlapping occurrence, repeatedly (nested matches too)."""
    pt = pat_toks(old)
    count, frm = 0, 0
    while count < limit:
        toks = lex(text)
        hit = None
        for i in range(len(toks)):
            if toks[i].s < frm: continue
            if toks[i].t == pt[0] or pt[0].startswith("$"):
                m = pat_match(pt, toks, i)
                if m: hit = (i, m); break
        if not hit: break
        i, (e, b) = hit
        rep = new
        for k in sorted(b, key=len, reverse=True):
            a, z = b[k]
            s = text[toks[a].s:toks[z-1].e] if z > a else ""
            rep = rep.replace("$" + k, s)
        text = text[:toks[i].s] + rep + text[toks[e-1].e:]
        # continue inside the replacement only if the rule cannot loop on its own output
        frm = toks[i].s if not contains(rep, pt) else toks[i].s + len(rep)
        count += 1
    return text, count

def contains(text, pt):
    toks = lex(text)
    def at(i):
        try: return pat_match(pt, toks, i)
        except LostAnchor: return None
    return any(at(i) for i in range(len(toks)) if toks[i].t == pt[0]) if not pt[0].startswith("$") else True

def find_pat(text, pat, frm=0):
    pt = pat_toks(pat)
    toks = lex(text)
    for i in range(len(toks)):
        if toks[i].s < frm: continue
        m = pat_match(pt, toks, i)
        if m: return toks[i].s, toks[m[0]-1].e
    return None

# ---------------------------------------------------------------- closure inlining
# METHOD -> template over $R (receiver), $P (closure parameter pattern), $B (closure body)
DESUGAR = {
    "opt.map": ("map", "(match $R { Some($P) => Some($B), None => None })"),
    "opt.and_then": ("and_then", "(match $R { Some($P) => $B, None => None })"),
    "opt.ok_or_else": ("ok_or_else", "(match $R { Some(__v) => Ok(__v), None => Err($B) })"),
    "opt.unwrap_or_else": ("unwrap_or_else", "(match $R { Some(__v) => __v, None => $B })"),
    "opt.filter": ("filter", "(match $R { Some(__v) => if { let $P = &__v; $B } { Some(__v) } else { None }, None => None })"),
    # an entry API's and_modify applies the closure to the value held, if any
    "entry.and_modify": ("and_modify", "(match $R { Entry::Occupied(mut __o) => { let $P = __o.get_mut(); $B; Entry::Occupied(__o) } Entry::Vacant(__w) => Entry::Vacant(__w) })"),
    "entry.or_insert_with": ("or_insert_with", "(match $R { Entry::Occupied(__o) => __o.into_mut(), Entry::Vacant(__w) => __w.insert($B) })"),
    "it.for_each": ("for_each", "for $P in $R { $B }"),
    "res.map": ("map", "(match $R { Ok($P) => Ok($B), Err(__e) => Err(__e) })"),
    "res.map_err": ("map_err", "(match $R { Ok(__v) => Ok(__v), Err($P) => Err($B) })"),
    "res.and_then": ("and_then", "(match $R { Ok($P) => $B, Err(__e) => Err(__e) })"),
    "res.unwrap_or_else": ("unwrap_or_else", "(match $R { Ok(__v) => __v, Err($P) => $B })"),
    "res.or_else": ("or_else", "(match $R { Ok(__v) => Ok(__v), Err($P) => $B })"),
}

def receiver_start(toks, dot):
    """Index of the first token of the postfix expression whose method call dot is toks[dot]."""
    i = dot - 1
    while i >= 0:
        t = toks[i]
        if t.t == "?": i -= 1; continue
        if t.k == "p" and t.t in CLOSE and t.t != "}":
            d = 0
            while True:
                if toks[i].k == "p" and toks[i].t in CLOSE: d += 1
                elif toks[i].k == "p" and toks[i].t in OPEN:
                    d -= 1
                    if d == 0: break
                i -= 1
            # call or index: the callee precedes; otherwise a parenthesised primary
            p = toks[i-1] if i > 0 else None
            if p is not None and (p.k == "id" and p.t not in ("return", "match", "if", "in", "let", "while", "else", "mut", "ref", "break", "move") or p.t in (")", "]", "?", "!", ">")) :
                if p.t == "!": i -= 2
                elif p.t == ">":   # turbofish
                    d = 0; i -= 1
                    while True:
                        if toks[i].t == ">": d += 1
                        elif toks[i].t == "<":
                            d -= 1
                            if d == 0: break
                        i -= 1
                    i -= 3
                else: i -= 1
                continue
        # primary reached (identifier, literal, parenthesised)
        p = toks[i-1] if i > 0 else None
        if p is not None and p.t == "." and not (i >= 2 and toks[i-2].t == "."): i -= 2; continue
        if p is not None and p.t == ":" and toks[i-2].t == ":": i -= 3; continue
        return i
    return 0

def for_loops(text):
    """for P in E BODY  =>  { let mut __itN = E; loop { match __itN.next() { Some(P) => BODY None => break } } }"""
    n = 0
    while True:
        toks = lex(text)
        hit = next((i for i, t in enumerate(toks) if t.k == "id" and t.t == "for" and toks[i+1].t != "<"), None)
        if hit is None: return text, n
        j = hit + 1
        while toks[j].t != "in": j = match_close(toks, j) + 1 if toks[j].t in OPEN else j + 1
        P = text[toks[hit].e:toks[j].s].strip()
        b = j + 1
        while toks[b].t != "{": b = match_close(toks, b) + 1 if toks[b].t in ("(", "[") else b + 1
        c = match_close(toks, b)
        E, B = text[toks[j].e:toks[b].s].strip(), text[toks[b].s:toks[c].e]
        m = re.fullmatch(r"(?:(.*)\.zip\(\s*)?(\w+)\s*\.iter_mut\(\)\s*\)?", E, re.S)
        if m:
            # a mutable iterator over a vector lends its elements in turn: the element is moved out for the body and in again after it
            if any(t.k == "id" and t.t in ("break", "continue") for t in toks[b:c]): raise LostAnchor("break or continue in a loop over iter_mut()")
            other, Y = m.group(1), m.group(2)
            if other:
                q = re.fullmatch(r"\(\s*(\w+)\s*,\s*(\w+)\s*\)", P)
                if not q: raise LostAnchor("pattern of a zipped loop")
                P1, P2 = q.groups()
            else: P1, P2 = None, P
            body = f"let mut __e{n} = {Y}.take_at(__k{n}); {{ let {P2} = &mut __e{n}; {B} }} {Y}.put_at(__k{n}, __e{n}); __k{n} = __k{n} + 1;"
            if other:
                new = f"let mut __it{n} = {other}; let mut __k{n}: usize = 0; loop {{ match __it{n}.next() {{ Some({P1}) => {{ if __k{n} >= {Y}.len() {{ break; }} {body} }} None => {{ break; }} }} }}"
            else:
                new = f"let mut __k{n}: usize = 0; loop {{ if __k{n} >= {Y}.len() {{ break; }} {body} }}"
            text = text[:toks[hit].s] + new + text[toks[c].e:]
            n += 1
            continue
        text = text[:toks[hit].s] + f"let mut __it{n} = {E}; loop {{ match __it{n}.next() {{ Some({P}) => {B} None => {{ break; }} }} }}" + text[toks[c].e:]
        n += 1

def for_ranges(text):
    """for P in A..B BODY  =>  { let mut __rN = A; let __sN = B; loop { if __rN >= __sN { break; } let P = __rN; __rN = __rN + 1; BODY } }"""
    n, frm = 0, 0
    while True:
        toks = lex(text)
        hit = next((i for i, t in enumerate(toks) if t.s >= frm and t.k == "id" and t.t == "for" and toks[i+1].t != "<"), None)
        if hit is None: return text, n
        j = hit + 1
        while toks[j].t != "in": j = match_close(toks, j) + 1 if toks[j].t in OPEN else j + 1
        b, d = j + 1, None
        while toks[b].t != "{":
            if toks[b].t == "." and toks[b+1].t == "." and d is None: d = b
            b = match_close(toks, b) + 1 if toks[b].t in ("(", "[") else b + 1
        if d is None or d == j + 1 or toks[d+2].t in ("=", "{"): frm = toks[hit].e; continue
        c = match_close(toks, b)
        P, A, B, body = text[toks[hit].e:toks[j].s].strip(), text[toks[j].e:toks[d].s].strip(), text[toks[d+1].e:toks[b].s].strip(), text[toks[b].s:toks[c].e]
        text = text[:toks[hit].s] + f"{{ let __s{n} = {B}; let mut __r{n} = {A}; loop {{ if __r{n} >= __s{n} {{ break; }} let {P} = __r{n}; __r{n} = __r{n} + 1; {body} }} }}" + text[toks[c].e:]
        n += 1

def while_lets(text):
    """while let P = E BODY  =>  loop { match E { P => BODY _ => { break; } } }"""
    n = 0
    while True:
        toks = lex(text)
        hit = next((i for i, t in enumerate(toks) if t.t == "while" and toks[i+1].t == "let"), None)
        if hit is None: return text, n
        j = hit + 2
        while toks[j].t != "=": j = match_close(toks, j) + 1 if toks[j].t in OPEN else j + 1
        b = j + 1
        while toks[b].t != "{": b = match_close(toks, b) + 1 if toks[b].t in ("(", "[") else b + 1
        c = match_close(toks, b)
        P, E, B = text[toks[hit+1].e:toks[j].s].strip(), text[toks[j].e:toks[b].s].strip(), text[toks[b].s:toks[c].e]
        text = text[:toks[hit].s] + f"loop {{ match {E} {{ {P} => {B} _ => {{ break; }} }} }}" + text[toks[c].e:]
        n += 1

def inline_closures(text, names):
    n = 0
    for name in names:
        if name == "while.let":
            text, k = while_lets(text)
            n += k
            continue
        if name == "for.range":
            text, k = for_ranges(text)
            n += k
            continue
        if name == "for.it":
            text, k = for_loops(text)
            n += k
            continue
        meth, tpl = DESUGAR[name]
        frm = 0
        while True:
            toks = lex(text)
            hit = None
            for i in range(1, len(toks) - 3):
                if toks[i].s >= frm and toks[i].t == "." and toks[i+1].t == meth and toks[i+2].t == "(" and (toks[i+3].t == "|" or toks[i+3].t == "move"):
                    hit = i; break
            if hit is None: break
            i = hit
            c = match_close(toks, i + 2)
            a = i + 3
            if toks[a].t == "move": a += 1
            if toks[a+1].t == "|" : pz = a + 1
            else:
                pz = a + 1
                while toks[pz].t != "|": pz = match_close(toks, pz) + 1 if toks[pz].t in OPEN else pz + 1
            P = text[toks[a].e:toks[pz].s].strip()
            # drop a type annotation of a simple closure parameter
            ptoks = lex(P)
            if len(ptoks) > 2 and ptoks[0].k == "id" and ptoks[1].t == ":": P = ptoks[0].t
            end = toks[c-1].e if toks[c-1].t != "," else toks[c-2].e
            B = text[toks[pz].e:end].strip()
            if any(t.t in ("return", "?") for t in lex(B)): frm = toks[i].e; continue
            st = receiver_start(toks, i)
            R = text[toks[st].s:toks[i].s].strip()
            if "//" in R: R += "\n"
            rep = tpl.replace("$R", "\0R").replace("$P", "\0P").replace("$B", "\0B")
            rep = rep.replace("\0R", R).replace("\0P", P or "_").replace("\0B", B)
            text = text[:toks[st].s] + rep + text[toks[c].e:]
            n += 1
    return text, n

def split_args(text, toks, lo, hi):
    """The texts between the commas of toks[lo:hi] (a comma between the bars of a closure does not count)."""
    out, a, z, bar = [], lo, lo, False
    while z < hi:
        if toks[z].t == "|" and (bar or z == a or toks[z-1].t in ("move", ",")): bar = not bar
        if toks[z].t == "," and not bar: out.append(text[toks[a].s:toks[z-1].e]); a = z + 1
        z = match_close(toks, z) + 1 if toks[z].t in OPEN else z + 1
    if a < hi: out.append(text[toks[a].s:toks[hi-1].e])
    return out

def inline_calls(text, src, it, name):
    """name(A, |P..| B)  =>  { let a = A; <body of name, with each call f(E..) as { let P = E;.. B }> }"""
    sig, body = re.sub(r"//[^\n]*", "", src[it.head:it.body]), src[it.body:it.end]
    st = lex(sig)
    i = next(k for k, t in enumerate(st) if t.t == "(" and st[k-1].t in (name, ">"))
    params = [re.sub(r"^mut\s+", "", x.split(":", 1)[0].strip()) for x in split_args(sig, st, i + 1, match_close(st, i))]
    bt = lex(body)
    if any(t.t == "return" for t in bt): raise LostAnchor(f"{name} returns in its midst")
    def type_after(toks, k):
        e = k
        while e < len(toks) and not (toks[e].t in (",", "{", "where") or toks[e].t == ">" and toks[e-1].t != "-" and not any(t.t == "<" for t in toks[k:e])):
            e = match_close(toks, e) + 1 if toks[e].t in OPEN and toks[e].t != "{" else e + 1
        return "".join(sig[toks[k].s:toks[e-1].e].split())
    rets = [k + 2 for k, t in enumerate(st) if t.t == "-" and st[k+1].t == ">"]
    pc = match_close(st, i)
    outer = next((type_after(st, k) for k in rets if k == pc + 3), "()")
    clos = next((type_after(st, k) for k in rets if k != pc + 3), "()")
    own = {t.t for k, t in enumerate(bt) if t.k == "id" and (bt[k-1].t in ("let", "mut", "for", "Some") or bt[k-2].t == "Some")} | set(params)
    n = 0
    while True:
        toks = lex(text)
        hit = next((k for k, t in enumerate(toks) if t.t == name and toks[k+1].t == "(" and toks[k-1].t != "fn"), None)
        if hit is None: return text, n
        c = match_close(toks, hit + 1)
        args = split_args(text, toks, hit + 2, c)
        if len(args) != len(params): raise LostAnchor(f"arguments of {name}")
        new, lets = body, ""
        for p, a in zip(params, args):
            m = re.match(r"(?:move\s*)?\|(.*?)\|\s*(.*)$", a, re.S)
            if not m: lets += f"let {p} = {a}; " if p != a else ""; continue
            at = lex(m.group(1))
            ps = [x.split(":")[0].strip() for x in split_args(m.group(1), at, 0, len(at))]
            inner = lex(m.group(2))
            if any(t.t == "return" for t in inner): raise LostAnchor("return in the closure")
            bound = {x for x in ps} | {t.t for k, t in enumerate(inner) if t.k == "id" and k and inner[k-1].t in ("let", "mut")}
            clash = ({t.t for k, t in enumerate(inner) if t.k == "id" and not (k and inner[k-1].t == ".") and inner[k+1:k+2] and inner[k+1].t not in (":", "(")} & own) - bound
            if clash: raise LostAnchor(f"names of {name} in the closure: {clash}")
            while True:
                nt = lex(new)
                h = next((k for k, t in enumerate(nt) if t.t == p and nt[k+1].t == "(" and nt[k-1].t != "."), None)
                if h is None: break
                e = match_close(nt, h + 1)
                es = split_args(new, nt, h + 2, e)
                if len(es) != len(ps): raise LostAnchor("arguments of the closure")
                tmp = "".join(f"let __c{k} = {x}; " for k, x in enumerate(es)) + "".join(f"let {x} = __c{k}; " for k, x in enumerate(ps))
                new = new[:nt[h].s] + "{ " + tmp + f"let __r: {clos} = {m.group(2)}; __r }}" + new[nt[e].e:]
        text = text[:toks[hit].s] + "{ " + lets + f"let __r: {outer} = {new}; __r }}" + text[toks[c].e:]
        n += 1

# ---------------------------------------------------------------- function emission
def loops(text):
    """[(kw_start, in_end_or_None, brace_open, brace_close)] in textual order."""
    toks = lex(text)
    out = []
    for i, t in enumerate(toks):
        if t.k == "id" and t.t in ("while", "loop", "for"):
            if t.t == "for" and (i + 1 < len(toks) and toks[i+1].t == "<"): continue
            j = i + 1
            inpos = None
            ok = True
            while j < len(toks) and toks[j].t != "{":
                if toks[j].t in ("(", "["): j = match_close(toks, j) + 1; continue
                if toks[j].t == "in" and t.t == "for" and inpos is None: inpos = toks[j].e
                if toks[j].t in (";", "}"): ok = False; break
                j += 1
            if not ok or j >= len(toks): continue
            if t.t == "for" and inpos is None: continue
            c = match_close(toks, j)
            st = t.s
            if i >= 2 and toks[i-1].t == ":" and toks[i-2].k == "life": st = toks[i-2].s
            out.append((st, inpos, toks[j].s, toks[c].s))
    return out

def loop_kind(text, st, inpos, bo, bc):
    """What a loop's contract was written for: a `for`, a `while` and a bare loop know different things behind them."""
    if text[st:bo].split(":")[-1].split()[0] == "while": return "while"
    return "for" if inpos is not None or re.match(r"\{\s*(match __it\d+\.next|if __[kr]\d)", text[bo:]) else "loop"

KINDS = None
def kinds_of(template, key):
    global KINDS
    import json, os
    if KINDS is None:
        p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "verus", "loops.json")
        KINDS = json.load(open(p)) if os.path.exists(p) else {}
    return KINDS.get(os.path.basename(template), {}).get(key)

def bare_closures(text):
    """Closures of the source that nothing has given a contract: `|x| ..` with neither types nor `->`."""
    toks = lex(text)
    out = []
    for i, t in enumerate(toks):
        if t.t != "|" or i == 0: continue
        p = toks[i-1].t
        if p not in ("(", ",", "=", "move", "return", "{", ";"): continue
        j = i + 1
        while j < len(toks) and toks[j].t != "|" and toks[j].t not in (";", "{", "}", ":"): j += 1
        if j < len(toks) and toks[j].t == "|" and not (j + 2 < len(toks) and toks[j+1].t == "-" and toks[j+2].t == ">"):
            out.append(text[t.s:toks[j].e])
    return out

def lift_pattern_params(sig, body, log):
    """fn f(T(x): T) {..}  =>  fn f(__p0: T) { let T(x) = __p0; ..}"""
    toks = lex(sig)
    i = next(k for k, t in enumerate(toks) if t.t == "fn") + 2
    if toks[i].t == "<":
        d = 0
        while True:
            if toks[i].t == "<": d += 1
            if toks[i].t == ">" and toks[i-1].t != "-": d -= 1
            i += 1
            if d == 0: break
    c = match_close(toks, i)
    a, n, cuts = i + 1, 0, []
    while a < c:
        z, d = a, 0
        while z < c and not (toks[z].t == "," and d == 0):
            if toks[z].t == "<": d += 1
            if toks[z].t == ">" and toks[z-1].t != "-": d -= 1
            z = match_close(toks, z) + 1 if toks[z].t in OPEN else z + 1
        if a + 1 < z and toks[a].t not in ("Ghost", "Tracked") and toks[a].k == "id" and toks[a+1].t in ("(", "{") or toks[a].t == "(":
            e = a + 1
            while toks[e].t != ":" or toks[e+1].t == ":" or toks[e-1].t == ":":
                e = match_close(toks, e) + 1 if toks[e].t in OPEN else e + 1
            cuts.append((toks[a].s, toks[e-1].e, n))
        n += 1
        a = z + 1
    lets = ""
    for s, e, n in reversed(cuts):
        lets = f" let {sig[s:e]} = __p{n};" + lets
        log.append((sig[s:e], f"__p{n} with a let pattern", 1))
        sig = sig[:s] + f"__p{n}" + sig[e:]
    if lets: body = body[0] + lets + body[1:]
    return sig, body

def emit_fn(src, it, opt, probe=False):
    text = src[it.head:it.end]
    # drop attributes inside the body and doc comments (comments are kept: harmless)
    body_off = it.body - it.head
    sig, body = text[:body_off], text[body_off:]
    sig = re.sub(r"//[^\n]*", "", sig)
    log = []
    for old, new in opt.get("sig", []):
        sig, n = rewrite(sig, old, new)
        log.append((old, new, n))
    for isrc, iit in opt.get("inline", []):
        body, n = inline_calls(body, isrc, iit, iit.name)
        if n: log.append((f"{iit.name}(.. closure)", "its body", n))
    for old, new in opt.get("rules", []):
        body, n = rewrite(body, old, new)
        if n: log.append((old, new, n))
    if opt.get("desugar"):
        body, n = inline_closures(body, opt["desugar"])
        if n: log.append((" ".join(opt["desugar"]) + " closures", "match", n))
    sig, body = lift_pattern_params(sig, body, log)
    # name
    toks = lex(sig)
    fi = next(i for i, t in enumerate(toks) if t.t == "fn")
    if opt.get("as"):
        sig = sig[:toks[fi+1].s] + opt["as"] + sig[toks[fi+1].e:]
        toks = lex(sig)
    # return type
    ret = opt.get("ret", "r")
    j = fi + 2
    if toks[j].t == "<":
        d = 0
        while True:
            if toks[j].t == "<": d += 1
            if toks[j].t == ">" and toks[j-1].t != "-": d -= 1
            j += 1
            if d == 0: break
    pc = match_close(toks, j)
    k = pc + 1
    where = next((x for x in range(k, len(toks)) if toks[x].t == "where"), None)
    wtext = ""
    endsig = len(sig)
    if where is not None:
        wtext = sig[toks[where].s:]
        endsig = toks[where].s
    if k + 1 < len(toks) and toks[k].t == "-" and toks[k+1].t == ">" :
        rt = sig[toks[k+1].e:endsig].strip()
        sig2 = sig[:toks[k].s] + f"-> ({ret}: {rt})"
    else:
        sig2 = sig[:endsig].rstrip()
    if wtext.strip(): sig2 += "\n" + wtext
    lost = []
    # ghost hints and loop contracts
    ins = []  # (pos, order, text)
    ls = loops(body)
    nloops = len(ls)
    for n, (itn, lines) in opt.get("loops", {}).items():
        if n >= nloops: lost.append(f"loop {n}"); continue
        st, inpos, bo, bc = ls[n]
        if itn and inpos is not None: ins.append((inpos, 0, f" {itn}: "))
        ins.append((bo, 0, "\n" + "\n".join(lines) + "\n"))
    unann = [n for n in range(nloops) if n not in opt.get("loops", {})] + bare_closures(body)
    kinds = [loop_kind(body, *l) for l in ls]
    if opt.get("kinds") is not None and kinds != opt["kinds"]: unann.append(f"loops {' '.join(opt['kinds'])} became {' '.join(kinds)}")
    for where_, lines in opt.get("hints", []):
        g = "\n" + "\n".join(lines) + "\n"
        w = where_.split(None, 1)
        if w[0] == "start": ins.append((1, 1, g)); continue
        if w[0] in ("before-loop", "loop-start", "loop-end", "after-loop"):
            n = int(w[1])
            if n >= nloops: lost.append(where_); continue
            st, inpos, bo, bc = ls[n]
            pos = {"before-loop": st, "loop-start": bo + 1, "loop-end": bc, "after-loop": bc + 1}[w[0]]
            ins.append((pos, 1, g)); continue
        if w[0] in ("before", "after"):
            f = find_pat(body, w[1])
            if not f: lost.append(where_); continue
            ins.append((f[0] if w[0] == "before" else f[1], 1, g)); continue
        raise SystemExit("bad hint " + where_)
    if probe: ins.append((1, 0, "\nproof { assert(false); }\n"))
    for pos, o, t in sorted(ins, key=lambda x: (-x[0], -x[1])):
        body = body[:pos] + t + body[pos:]
    spec = "\n".join(opt.get("spec", []))
    pre = "".join(a + "\n" for a in opt.get("vattrs", []))
    # a function nothing is claimed of: its body is not looked at
    if "#[verifier::external_body]" in opt.get("vattrs", []):
        return pre + sig2 + "\n{ unimplemented!() }", dict(lost=[], loops=0, unannotated=[], rewrites=[], kinds=[], unclaimed=True)
    return pre + sig2 + "\n" + spec + "\n" + body, dict(lost=lost, loops=nloops, unannotated=unann, rewrites=log, kinds=kinds)

# ---------------------------------------------------------------- templates
def split_rule(s):
    a, b = s.split("=>>") if "=>>" in s else s.split("=>", 1)
    return a.strip(), b.strip()

def render(template, repo, probe=False, only=None, rules=None):
    """Returns (text, functions, lost). functions: list of dicts with generated line ranges."""
    lines = open(template, encoding="utf-8").read().split("\n")
    out, fns, lost = [], [], []
    rules = dict(rules or {})
    # //@define NAME, and //@if NAME | //@if !NAME .. //@else .. //@fi : units share includes
    defs = rules.setdefault("#defs", set())
    kept, on = [], True
    for l in lines:
        w = l.split()
        if w[:1] == ["//@define"]: defs.add(w[1])
        elif w[:1] == ["//@if"]: on = (w[1].lstrip("!") in defs) != w[1].startswith("!")
        elif w[:1] == ["//@else"]: on = not on
        elif w[:1] == ["//@fi"]: on = True
        elif on: kept.append(l)
    lines = kept
    i = 0
    import os
    while i < len(lines):
        l = lines[i]
        s = l.strip()
        if s.startswith("//@include "):
            inc = os.path.join(os.path.dirname(template), s[len("//@include "):].strip())
            t, f, lo = render(inc, repo, probe, only, rules)
            base = len(out)
            for x in f: x["gen"] = (x["gen"][0] + base, x["gen"][1] + base)
            out += t.split("\n"); fns += f; lost += lo
            # rule sets defined in the include are visible here
            rules.update(render.last_rules)
            i += 1; continue
        if s.startswith("//@rules "):
            name = s.split()[1]; rs = []
            i += 1
            while lines[i].strip() != "//@end":
                t = lines[i].strip()
                if t and not t.startswith("// "): rs.append(split_rule(t))
                i += 1
            rules[name] = rs
            i += 1; continue
        if s.startswith("//@item "):
            f, kind, name = [x.strip() for x in s[len("//@item "):].split("|")]
            opts = []
            i += 1
            while lines[i].strip() != "//@end":
                opts.append(lines[i]); i += 1
            i += 1
            cont = ""
            if "::>" in name: cont, name = [x.strip() for x in name.split("::>")]
            try:
                src, it = find(os.path.join(repo, f), kind, cont, name)
            except LostAnchor as e:
                lost.append(str(e)); continue
            text = src[it.head:it.end]
            # drop inner attributes (#[serde(..)], #[error(..)], derives)
            toks = lex(text); cuts = []
            for a, t in enumerate(toks):
                if t.t == "#" and a + 1 < len(toks) and toks[a+1].t == "[":
                    cuts.append((t.s, toks[match_close(toks, a + 1)].e))
            for a, b in reversed(cuts): text = text[:a] + text[b:]
            for o in opts:
                o = o.strip()
                if o.startswith("//@rewrite "):
                    a, b = split_rule(o[len("//@rewrite "):]); text, _ = rewrite(text, a, b)
                elif o.startswith("//@attr "):
                    text = o[len("//@attr "):] + "\n" + text
            out += text.split("\n")
            continue
        if s.startswith("//@fn "):
            parts = [x.strip() for x in s[len("//@fn "):].split("|")]
            f, cont, name = parts
            opt = {"sig": [], "rules": [], "loops": {}, "hints": [], "vattrs": []}
            i += 1
            mode = None
            post = []
            while lines[i].strip() != "//@end":
                t = lines[i].strip()
                if t.startswith("//@"):
                    w, _, rest = t[3:].partition(" ")
                    rest = rest.strip()
                    mode = None
                    if w == "as": opt["as"] = rest
                    elif w == "ret": opt["ret"] = rest
                    elif w == "sig": opt["sig"].append(split_rule(rest))
                    elif w == "rewrite": opt["rules"].append(split_rule(rest))
                    elif w == "use": opt["rules"] += rules[rest]
                    elif w == "desugar": opt.setdefault("desugar", []).extend(rest.split())
                    elif w == "inline": opt.setdefault("inlines", []).append([x.strip() for x in rest.split("|")])
                    elif w == "attr": opt["vattrs"].append(rest)
                    elif w == "spec": mode = opt.setdefault("spec", [])
                    elif w == "loop":
                        ps = rest.split()
                        itn = ps[2] if len(ps) > 2 and ps[1] == "iter" else None
                        mode = []
                        opt["loops"][int(ps[0])] = (itn, mode)
                    elif w == "hint":
                        mode = []
                        opt["hints"].append((rest, mode))
                    elif w == "optional": opt["optional"] = True
                    else: raise SystemExit(f"{template}:{i+1}: unknown directive {t}")
                elif mode is not None: mode.append(lines[i])
                elif t: raise SystemExit(f"{template}:{i+1}: stray line {t!r}")
                i += 1
            i += 1
            key = " | ".join((f, norm_hdr(cont), name, opt.get("as") or name))
            opt["kinds"] = kinds_of(template, key)
            try:
                src, it = find(os.path.join(repo, f), "fn", cont, name)
                opt["inline"] = [find(os.path.join(repo, x), "fn", y, z) for x, y, z in opt.get("inlines", [])]
                text, meta = emit_fn(src, it, opt, probe)
            except LostAnchor as e:
                lost.append(str(e)); continue
            a = len(out) + 1
            out += text.split("\n")
            fns.append(dict(file=f, container=norm_hdr(cont), name=name, as_=opt.get("as") or name, gen=(a, len(out)), key=key, template=os.path.basename(template),
                            line=src[:it.head].count("\n") + 1, **meta))
            lost += [f"{f}: {name}: anchor lost: {x}" for x in meta["lost"]]
            continue
        out.append(l)
        i += 1
    render.last_rules = rules
    return "\n".join(out), fns, lost

if __name__ == "__main__":
    import sys, glob, json, os
    if sys.argv[1] == "loops":  # the loops the contracts are written for, from the tree they are written against
        d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "verus")
        KINDS, out = {}, {}
        for u in sorted(glob.glob(d + "/*.rs")):
            for x in render(u, "/repo")[1]:
                if x["kinds"]: out.setdefault(x["template"], {})[x["key"]] = x["kinds"]
        with open(d + "/loops.json", "w") as o: json.dump(out, o, indent=1, sort_keys=True); o.write("\n")
        sys.exit()
    t, f, l = render(sys.argv[1], "/repo", probe="--probe" in sys.argv)
    print(t)
    if "-v" in sys.argv:
        for x in f: print("//", x, file=sys.stderr)
    for x in l: print("// LOST", x, file=sys.stderr)
