"""A small Rust tokenizer, item finder and token-level rewriter (stdlib only).

Everything the verifier sees is cut from the current sources by this module;
see DESIGN.md, "Extraction".
"""
import os
import re

TOK = re.compile(r"""
    (?P<ws>\s+)
  | (?P<lc>//[^\n]*)
  | (?P<bc>/\*)
  | (?P<str>b?"(?:\\.|[^"\\])*")
  | (?P<rstr>b?r(?P<h>\#*)".*?"(?P=h))
  | (?P<chr>'(?:\\(?:x[0-9a-fA-F]{2}|u\{[^}]*\}|.)|[^'\\])')
  | (?P<life>'[A-Za-z_]\w*)
  | (?P<num>\d[\d_]*(?:\.\d[\d_]*|\.(?![.\w]))?(?:[eE][+-]?\d+)?\w*)
  | (?P<id>(?:r\#)?[A-Za-z_]\w*)
  | (?P<op>\.\.=|\.\.\.|<<=|>>=|==>|<==>|&&&|\|\|\||=~=|::|->|=>|==|!=|<=|>=|&&|\|\||\+=|-=|\*=|/=|%=|\^=|&=|\|=|\.\.|.)
""", re.X | re.S)

# `<<` and `>>` are left as single angle brackets so that generics balance.


class Tok(object):
    __slots__ = ("s", "ws", "kind", "line")

    def __init__(self, s, ws, kind, line=0):
        self.s, self.ws, self.kind, self.line = s, ws, kind, line

    def __repr__(self):
        return self.s


def tokenize(src):
    """Tokens without comments; each keeps a reduced form of the whitespace before it."""
    out, i, ws = [], 0, ""
    n = len(src)
    line, at = 1, 0
    while i < n:
        m = TOK.match(src, i)
        k = m.lastgroup if m.lastgroup != "h" else "rstr"
        if m.group("ws") is not None:
            ws += m.group("ws")
            i = m.end()
            continue
        if m.group("lc") is not None:
            i = m.end()
            continue
        if m.group("bc") is not None:
            d, j = 1, m.end()
            while d and j < n:
                if src.startswith("/*", j):
                    d += 1
                    j += 2
                elif src.startswith("*/", j):
                    d -= 1
                    j += 2
                else:
                    j += 1
            i = j
            ws += " "
            continue
        for g in ("str", "rstr", "chr", "life", "num", "id", "op"):
            if m.group(g) is not None:
                k = g
                break
        w = ws
        if "\n" in w:
            w = "\n" + w.rsplit("\n", 1)[1]
        line += src.count("\n", at, i)
        at = i
        out.append(Tok(m.group(0), w, k, line))
        ws = ""
        i = m.end()
    return out


OPEN = {"(": ")", "[": "]", "{": "}"}
CLOSE = {")", "]", "}"}


def match_close(t, i):
    """index of the token closing the bracket at i"""
    d = 0
    for j in range(i, len(t)):
        if t[j].s in OPEN:
            d += 1
        elif t[j].s in CLOSE:
            d -= 1
            if d == 0:
                return j
    raise ValueError("unbalanced")


def text(toks):
    return "".join(x.ws + x.s for x in toks)


def strs(toks):
    return [x.s for x in toks]


class Item(object):
    def __init__(self, kind, name, toks, file, selfty=None, trait=None, impl_head=None, test=False):
        self.kind, self.name, self.toks, self.file = kind, name, toks, file
        self.selfty, self.trait, self.impl_head, self.test = selfty, trait, impl_head, test
        self.line = toks[0].line if toks else 0


def skip_angle(t, i):
    d = 0
    while i < len(t):
        if t[i].s == "<":
            d += 1
        elif t[i].s == ">":
            d -= 1
            if d == 0:
                return i
        elif t[i].s in OPEN:
            i = match_close(t, i)
        i += 1
    return i


def type_head(toks):
    """last path identifier of a type, ignoring references and generics"""
    i, last = 0, None
    while i < len(toks):
        s = toks[i].s
        if s == "<":
            break
        if toks[i].kind == "id" and s not in ("mut", "dyn"):
            last = s
        i += 1
    return last


def items(t, file, selfty=None, trait=None, head=None, test=False):
    """all items (recursively through mod and impl/trait bodies)"""
    out, i, n = [], 0, len(t)
    while i < n:
        st = i
        istest = test
        # attributes
        while i < n and t[i].s == "#":
            j = i + 1
            if t[j].s == "!":
                j += 1
            e = match_close(t, j)
            a = [x.s for x in t[j:e + 1]]
            if "cfg" in a and "test" in a:
                istest = True
            i = e + 1
        body_start = i
        if i < n and t[i].s == "pub":
            i += 1
            if i < n and t[i].s == "(":
                i = match_close(t, i) + 1
        while i < n and t[i].s in ("unsafe", "const", "default", "async") and i + 1 < n and t[i + 1].s in ("fn", "unsafe", "impl", "trait"):
            i += 1
        if i >= n:
            break
        s = t[i].s
        if s == "fn":
            name = t[i + 1].s
            j = i
            while t[j].s not in ("{", ";"):
                if t[j].s in ("(", "["):
                    j = match_close(t, j)
                j += 1
            e = match_close(t, j) if t[j].s == "{" else j
            out.append(Item("fn", name, t[body_start:e + 1], file, selfty, trait, head, istest))
            i = e + 1
        elif s in ("struct", "enum", "union"):
            name = t[i + 1].s
            j = i
            while t[j].s not in ("{", ";"):
                if t[j].s in ("(", "["):
                    j = match_close(t, j)
                j += 1
            e = match_close(t, j) if t[j].s == "{" else j
            it = Item(s, name, t[body_start:e + 1], file, test=istest)
            it.attrs = [x.s for x in t[st:body_start]]
            out.append(it)
            i = e + 1
        elif s == "mod":
            j = i + 2
            if t[j].s == ";":
                i = j + 1
            else:
                e = match_close(t, j)
                out += items(t[j + 1:e], file, None, None, None, istest)
                i = e + 1
        elif s in ("impl", "trait"):
            j = i + 1
            if s == "impl" and t[j].s == "<":
                j = skip_angle(t, j) + 1
            k = j
            while t[k].s != "{":
                if t[k].s in ("(", "["):
                    k = match_close(t, k)
                k += 1
            e = match_close(t, k)
            if s == "trait":
                out += items(t[k + 1:e], file, None, t[j].s, t[i:k], istest)
            else:
                hd = t[j:k]
                wi = next((x for x, y in enumerate(hd) if y.s == "where"), len(hd))
                fi, d = None, 0
                for x, y in enumerate(hd[:wi]):
                    if y.s == "<":
                        d += 1
                    elif y.s == ">":
                        d -= 1
                    elif y.s == "for" and d == 0:
                        fi = x
                if fi is None:
                    ty, tr = type_head(hd[:wi]), None
                else:
                    ty, tr = type_head(hd[fi + 1:wi]), type_head(hd[:fi])
                    out_tr = "".join(y.s for y in hd[:fi])
                    tr = (tr, out_tr)
                out += items(t[k + 1:e], file, ty, tr, t[i:k], istest)
            i = e + 1
        elif s == "pin_project" and t[i + 1].s == "!":
            # pin_project! { item } stands for the item
            e = match_close(t, i + 2)
            out += items(t[i + 3:e], file, None, None, None, istest)
            i = e + 1
        else:
            # use, const, static, type, macro call, macro_rules ...
            j = i
            while j < n and t[j].s != ";":
                if t[j].s in OPEN:
                    j = match_close(t, j)
                    if t[j].s == "}" and t[i].s in ("macro_rules",) or (t[j].s == "}" and t[i].kind == "id" and i + 1 < n and t[i + 1].s == "!"):
                        break
                j += 1
            i = j + 1
    return out


class Sources(object):
    def __init__(self, root):
        self.items = []
        for d, _, fs in sorted(os.walk(os.path.join(root, "src"))):
            for f in sorted(fs):
                if f.endswith(".rs"):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, root)
                    with open(p) as h:
                        self.items += items(tokenize(h.read()), rel)

    def find(self, kind, name, selfty=None, trait=None, file=None):
        """trait: None = inherent or free; 'X' = that trait (prefix match on the whole trait path)"""
        c = [x for x in self.items if not x.test and x.kind == kind and x.name == name]
        if kind == "fn":
            c = [x for x in c if x.selfty == selfty]
            if trait is None:
                c = [x for x in c if x.trait is None or selfty is None]
            else:
                c = [x for x in c if x.trait is not None and (x.trait == trait or (isinstance(x.trait, tuple) and trait in (x.trait[0], x.trait[1].replace(" ", ""))))]
        if file and len(c) > 1:
            c2 = [x for x in c if x.file == file]
            c = c2 or c
        if len(c) != 1:
            return None
        return c[0]


# ---------------------------------------------------------------- rewriting

def mk(src):
    t = tokenize(src)
    return t


def match_at(t, i, pat):
    """match token pattern at i; $x one token, $*x shortest balanced run. -> (end, binds) or None"""
    def rec(i, p, b):
        if p == len(pat):
            return i, b
        q = pat[p]
        if q.startswith("$*"):
            j = i
            while True:
                r = rec(j, p + 1, dict(b, **{q: t[i:j]}))
                if r:
                    return r
                if j >= len(t) or t[j].s in CLOSE:
                    return None
                j = match_close(t, j) + 1 if t[j].s in OPEN else j + 1
        if i >= len(t):
            return None
        if q.startswith("$"):
            if q in b and b[q][0].s != t[i].s:
                return None
            if t[i].kind not in ("id", "num", "life"):
                return None
            return rec(i + 1, p + 1, dict(b, **{q: [t[i]]}))
        if t[i].s == q:
            return rec(i + 1, p + 1, b)
        return None
    return rec(i, 0, {})


def pat_tokens(s):
    out = []
    for m in re.finditer(r"\$\*?\w+|\S+", s):
        w = m.group(0)
        if w.startswith("$"):
            out.append(w)
        else:
            out += [x.s for x in tokenize(w)]
    return out


def rewrite(t, pat, rep):
    """replace every occurrence of token pattern by replacement (both strings, space separated tokens)"""
    p = pat_tokens(pat)
    out, i = [], 0
    while i < len(t):
        r = match_at(t, i, p)
        if r and r[0] > i:
            e, b = r
            new = []
            for w in re.finditer(r"\$\*?\w+|[^\s]+", rep):
                w = w.group(0)
                if w.startswith("$"):
                    sub = rewrite(b[w], pat, rep)
                    new += [Tok(x.s, x.ws if k else " ", x.kind) for k, x in enumerate(sub)]
                else:
                    new += [Tok(x.s, " " if k == 0 else x.ws, x.kind) for k, x in enumerate(tokenize(w))]
            if new:
                new[0] = Tok(new[0].s, t[i].ws, new[0].kind)
            out += new
            i = e
        else:
            out.append(t[i])
            i += 1
    return out


def strip_attrs_vis(t):
    """drop attributes and visibility"""
    out, i = [], 0
    while i < len(t):
        if t[i].s == "#" and i + 1 < len(t) and t[i + 1].s in ("[", "!"):
            j = i + 1
            if t[j].s == "!":
                j += 1
            if t[j].s == "[":
                i = match_close(t, j) + 1
                continue
        if t[i].s == "pub" and t[i].kind == "id":
            ws = t[i].ws
            i += 1
            if i < len(t) and t[i].s == "(" and t[i + 1].s in ("crate", "super", "self", "in"):
                i = match_close(t, i) + 1
            t[i] = Tok(t[i].s, ws, t[i].kind)
            continue
        out.append(t[i])
        i += 1
    return out


def recv_start(t, i):
    """start of the postfix expression that ends just before the `.` at i"""
    j = i - 1
    while j >= 0:
        if t[j].s in (")", "]"):
            d, k = 1, j - 1
            while d:
                if t[k].s in (")", "]", "}"):
                    d += 1
                elif t[k].s in OPEN:
                    d -= 1
                k -= 1
            j = k  # before the group
            if j >= 0 and (t[j].kind == "id" and t[j].s not in KWS or t[j].s in (")", "]")):
                continue
            return j + 1
        if t[j].s == "?":
            j -= 1
            continue
        if t[j].kind in ("id", "num") and t[j].s not in KWS:
            if j and t[j - 1].s in (".", "::"):
                j -= 2
                if t[j].s == ">":
                    return None
                continue
            return j
        return None if t[j].s == "}" else j + 1
    return 0


KWS = ("return", "match", "if", "else", "in", "let", "mut", "while", "loop", "break", "move", "ref", "box", "as", "yield")


def option_maps(t):
    """closures passed to the combinators of Option and Ordering, written out"""
    i = 0
    while i < len(t):
        if t[i].s == "." and i + 2 < len(t) and t[i + 1].s in ("map", "then_with", "and_then", "unwrap_or_else", "or_else", "map_or", "is_some_and") and t[i + 2].s == "(":
            e = match_close(t, i + 2)
            st = recv_start(t, i)
            name = t[i + 1].s
            args = split_args(t[i + 3:e])
            new = None
            if st is not None and args:
                recv = t[st:i]
                f = args[-1]
                pat = None
                if f[0].s == "move":
                    f = f[1:]
                if f[0].s == "||":
                    pat, body = [], f[1:]
                elif f[0].s == "|":
                    k = 1
                    while f[k].s != "|":
                        k += 1
                    pat, body = f[1:k], f[k + 1:]
                    if any(x.s == ":" for x in pat):
                        pat = pat[:[x.s for x in pat].index(":")]
                elif all(x.kind == "id" or x.s == "::" for x in f):
                    pat, body = mk("o"), f + mk("( o )")
                    if name in ("then_with", "unwrap_or_else", "or_else"):
                        pat, body = [], f + mk("( )")
                if pat is not None and not any(x.s in ("return", "?") for x in body):
                    if name == "then_with":
                        new = recv + mk(". then (") + body + mk(")")
                    elif name == "map":
                        new = mk("match") + recv + mk("{ Some (") + pat + mk(") => Some (") + body + mk(") , None => None }")
                    elif name == "and_then":
                        new = mk("match") + recv + mk("{ Some (") + pat + mk(") =>") + body + mk(", None => None }")
                    elif name == "is_some_and":
                        new = mk("match") + recv + mk("{ Some (") + pat + mk(") =>") + body + mk(", None => false }")
                    elif name == "map_or" and len(args) == 2:
                        new = mk("match") + recv + mk("{ Some (") + pat + mk(") =>") + body + mk(", None =>") + args[0] + mk("}")
                    elif name == "unwrap_or_else":
                        new = mk("match") + recv + mk("{ Some ( o ) => o , None =>") + body + mk("}")
                    elif name == "or_else":
                        new = mk("match") + recv + mk("{ Some ( o ) => Some ( o ) , None =>") + body + mk("}")
            if new is not None:
                if name != "then_with" and e + 1 < len(t) and t[e + 1].s in (".", "?"):
                    new = mk("(") + new + mk(")")
                new = [Tok(x.s, x.ws if x.ws or k else " ", x.kind, getattr(x, "line", 0)) for k, x in enumerate(new)]
                new[0] = Tok(new[0].s, t[st].ws, new[0].kind, getattr(t[st], "line", 0))
                t = t[:st] + new + t[e + 1:]
                i = st
                continue
        i += 1
    return t


LOG_MACROS = ("error", "warn", "info", "debug", "trace", "println", "eprintln", "print", "eprint")
ASSERTS = {"assert": 1, "debug_assert": 1, "assert_eq": 2, "debug_assert_eq": 2, "assert_ne": 2, "debug_assert_ne": 2}


def split_args(t):
    out, cur, i = [], [], 0
    while i < len(t):
        if t[i].s in OPEN:
            e = match_close(t, i)
            cur += t[i:e + 1]
            i = e + 1
            continue
        if t[i].s == ",":
            out.append(cur)
            cur = []
        else:
            cur.append(t[i])
        i += 1
    if cur:
        out.append(cur)
    return out


def macros(t, may=False):
    """logging statements vanish; asserts and panics become calls with preconditions
    (may: assert! is a refusal, which needs no proof and holds afterwards; may="all": so are debug_assert! and panic!)"""
    out, i = [], 0

    def refuses(name):
        return may == "all" or (may and not name.startswith("debug"))
    while i < len(t):
        if t[i].kind == "id" and i + 2 < len(t) and t[i + 1].s == "!" and t[i + 2].s in OPEN and not (i and t[i - 1].s in ("::",) and False):
            name = t[i].s
            e = match_close(t, i + 2)
            args = split_args(t[i + 3:e])
            ws = t[i].ws
            if name in LOG_MACROS:
                i = e + 1
                if i < len(t) and t[i].s == ";":
                    i += 1
                else:
                    out += [Tok("(", ws, "op"), Tok(")", "", "op")]
                continue
            if name in ASSERTS:
                k = ASSERTS[name]
                fn = {"assert": "rt_assert", "debug_assert": "rt_assert", "assert_eq": "rt_eq", "debug_assert_eq": "rt_eq",
                      "assert_ne": "rt_ne", "debug_assert_ne": "rt_ne"}[name]
                if refuses(name):
                    fn = "rt_refuse" if fn == "rt_assert" else fn
                out += [Tok(fn, ws, "id"), Tok("(", "", "op")]
                if k == 1:
                    out += macros(args[0], may)
                else:
                    op = "==" if fn == "rt_eq" else "!="
                    out[-2] = Tok("rt_refuse" if refuses(name) else "rt_assert", ws, "id")
                    out += macros(args[0], may) + [Tok(op, " ", "op")] + macros(args[1], may)
                out += [Tok(")", "", "op")]
                i = e + 1
                continue
            if name in ("panic", "unreachable", "unimplemented", "todo"):
                out += [Tok("rt_stop" if may == "all" else "rt_panic", ws, "id"), Tok("(", "", "op"), Tok(")", "", "op")]
                i = e + 1
                continue
            if name == "matches":
                # matches!(e, pat) -> (match e { pat => true, _ => false })
                toks = [Tok("(", ws, "op"), Tok("match", "", "id")] + macros(args[0], may) + [Tok("{", " ", "op")]
                pat = []
                for k, a in enumerate(args[1:]):
                    if k:
                        pat.append(Tok(",", "", "op"))
                    pat += a
                toks += pat + [Tok("=>", " ", "op"), Tok("true", " ", "id"), Tok(",", "", "op"), Tok("_", " ", "id"), Tok("=>", " ", "op"),
                               Tok("false", " ", "id"), Tok("}", " ", "op"), Tok(")", "", "op")]
                toks[2] = Tok(toks[2].s, " ", toks[2].kind)
                out += toks
                i = e + 1
                continue
        out.append(t[i])
        i += 1
    return out
