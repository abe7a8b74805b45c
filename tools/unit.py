"""Contract units: weave the contracts of a template into the code of /repo's current tree, run Verus.

A template is a Verus file.  Between `//@@ fn|struct|enum NAME key=val..` and `//@@ end` it holds the
annotated text of one item of the repository: annotations stand inside /*@ ... @*/, the rest is the base
text they were written against.  What is verified is never the base text: the item is cut from the current
sources, put through the declared rewrites, and the annotations are re-inserted by aligning the two token
sequences.
"""
import json
import os
import re
import signal
import subprocess
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import rustsrc as R  # noqa: E402

ANN = re.compile(r"/\*@(.*?)@\*/", re.S)


class Lost(Exception):
    """an item or an anchor of an annotation is gone: undecided"""

    def __init__(self, msg, label=None):
        Exception.__init__(self, msg)
        self.label = label


class Section(object):
    def __init__(self, kind, name, opts, subs, body, line):
        self.kind, self.name, self.opts, self.subs, self.body, self.line = kind, name, opts, subs, body, line

    @property
    def label(self):
        o = self.opts
        s = (o.get("self", "") + "::" if o.get("self") else "") + self.name
        return s + (" (%s)" % o["trait"] if o.get("trait") else "") + (" [%s]" % o["rename"] if o.get("rename") else "")


def expand(path):
    """lines of a template with its includes"""
    out = []
    for l in open(path).read().rstrip("\n").split("\n"):
        s = l.strip()
        if s.startswith("//@@ include "):
            out += expand(os.path.join(os.path.dirname(path), s[13:].strip()))
        else:
            out.append(l)
    return out


def parse_template(path):
    """-> list of str | Section, global subs"""
    parts, subs, cur, text = [], [], None, []
    for n, l in enumerate(expand(path), 1):
        s = l.strip()
        if s.startswith("//@@ "):
            w = s[5:].strip()
            if w.startswith("sub ") or w.startswith("global "):
                m = re.match(r"(sub|global) `(.*?)` => `(.*?)`$", w)
                if not m:
                    raise ValueError("%s:%d: bad substitution" % (path, n))
                (cur.subs if m.group(1) == "sub" else subs).append((m.group(2), m.group(3)))
            elif w == "end":
                cur.body = "\n".join(cur.body)
                parts.append(cur)
                cur = None
            else:
                f = w.split()
                parts.append("\n".join(text) + "\n")
                text = []
                cur = Section(f[0], f[1], dict(x.split("=", 1) for x in f[2:]), [], [], n)
        elif cur is not None:
            cur.body.append(l)
        else:
            text.append(l)
    parts.append("\n".join(text) + "\n")
    return parts, subs


def name_return(t):
    """fn ... -> T {   becomes   fn ... -> (ret: T) {"""
    i = 0
    while t[i].s != "fn":
        i += 1
    i += 2
    if t[i].s == "<":
        i = R.skip_angle(t, i) + 1
    i = R.match_close(t, i) + 1
    if i < len(t) and t[i].s == "->":
        j, d = i + 1, 0
        while not (d == 0 and t[j].s in ("{", ";", "where")):
            if t[j].s in ("(", "["):
                j = R.match_close(t, j)
            elif t[j].s == "<":
                d += 1
            elif t[j].s == ">":
                d -= 1
            j += 1
        ty = t[i + 1:j]
        new = [R.Tok("(", " ", "op"), R.Tok("ret", "", "id"), R.Tok(":", "", "op")] + ty + [R.Tok(")", "", "op")]
        t = t[:i + 1] + new + t[j:]
    return t


def body_index(t):
    """index of the body `{` of a fn"""
    i = 0
    while t[i].s not in ("{", ";"):
        if t[i].s in ("(", "["):
            i = R.match_close(t, i)
        i += 1
    return i


def mut_params(t):
    """`mut x: T` parameters become `x: T` + `let mut x = x;` (Verus cannot state contracts over them)"""
    i = 0
    while t[i].s != "fn":
        i += 1
    i += 2
    if t[i].s == "<":
        i = R.skip_angle(t, i) + 1
    e = R.match_close(t, i)
    names, j, out = [], i + 1, t[:i + 1]
    while j < e:
        if t[j].s == "mut" and t[j - 1].s in ("(", ",") and t[j + 1].kind == "id" and t[j + 2].s == ":":
            names.append(t[j + 1].s)
            j += 1
            continue
        out.append(t[j])
        j += 1
    out += t[e:]
    if names:
        b = body_index(out)
        ins = []
        for n in names:
            ins += R.tokenize(" let mut %s = %s;" % (n, n))
        out = out[:b + 1] + ins + out[b + 1:]
    return out


def transform(item, subs, lsubs, opts={}):
    """opts: rename=NAME; asserts=may|all: assert! (all: also debug_assert! and panic!) is a refusal (may panic, holds
    afterwards) instead of an obligation"""
    t = R.macros(R.strip_attrs_vis(list(item.toks)), {"may": True, "all": "all"}.get(opts.get("asserts"), False))
    for p, r in list(lsubs) + list(subs):
        t = R.option_maps(t) if p == "OPTION" else R.rewrite(t, p, r)
    if item.kind == "fn":
        t = [x for x in t]
        if opts.get("rename"):
            k = [x.s for x in t].index("fn") + 1
            t[k] = R.Tok(opts["rename"], t[k].ws, "id", t[k].line)
        while t[0].s in ("unsafe", "const", "async", "default"):
            t = t[1:]
        t = mut_params(name_return(t))
    return t


def split_base(body):
    """-> base tokens, [(index of the base token it precedes, text)]"""
    toks, anns, pos = [], [], 0
    for m in ANN.finditer(body):
        toks += R.tokenize(body[pos:m.start()])
        anns.append((len(toks), m.group(1)))
        pos = m.end()
    toks += R.tokenize(body[pos:])
    return toks, anns


def align(b, c):
    """global alignment of token lists; returns dict base index -> current index"""
    if [x.s for x in b] == [x.s for x in c]:
        return {i: i for i in range(len(b))}, True
    n, m = len(b), len(c)
    W = {"{": 3, "}": 3, ";": 2, "(": 1, ")": 1, ",": 1}
    KW = {"loop", "while", "for", "match", "if", "else", "let", "return", "break", "continue", "fn"}

    def sc(x, y):
        if x.s == y.s:
            if x.s in KW:
                return 8
            return W.get(x.s, 4 if x.kind in ("id", "num", "str") else 2)
        if x.kind == "id" and y.kind == "id" and x.s not in KW and y.s not in KW:
            return 1
        return -1
    prev = [0] * (m + 1)
    back = []
    for i in range(1, n + 1):
        cur = [0] * (m + 1)
        bk = bytearray(m + 1)
        x = b[i - 1]
        for j in range(1, m + 1):
            s = sc(x, c[j - 1])
            best, w = prev[j], 1
            if cur[j - 1] > best:
                best, w = cur[j - 1], 2
            if s > 0 and prev[j - 1] + s > best:
                best, w = prev[j - 1] + s, 3
            cur[j] = best
            bk[j] = w
        back.append(bk)
        prev = cur
    mp, i, j = {}, n, m
    while i and j:
        w = back[i - 1][j]
        if w == 3:
            mp[i - 1] = j - 1
            i -= 1
            j -= 1
        elif w == 2:
            j -= 1
        else:
            i -= 1
    return mp, False


def renames(b, c, mp):
    """identifiers renamed consistently between base and current"""
    f, ok = {}, {}
    bi = set(x.s for x in b if x.kind == "id")
    for i, j in mp.items():
        if b[i].kind == "id":
            f.setdefault(b[i].s, {}).setdefault(c[j].s, 0)
            f[b[i].s][c[j].s] += 1
    cs = set(x.s for x in c)
    for k, v in f.items():
        t = max(v, key=v.get)
        if t != k and k not in cs and t not in bi and re.match(r"[a-z_]\w*$", t):
            ok[k] = t
    return ok


LOOPKW = ("loop", "while", "for")


def weave(sec, cur):
    """annotations of `sec` into the token list `cur`; returns text, exact?"""
    base, anns = split_base(sec.body)
    if not base:
        return R.text(cur), False
    mp, exact = align(base, cur)
    rn = {} if exact else renames(base, cur, mp)
    bb = body_index(base) if sec.kind == "fn" else None
    cb = body_index(cur) if sec.kind == "fn" else None
    ins = {}

    def put(j, text):
        for k, v in rn.items():
            text = re.sub(r"(?<![\w.])%s(?!\w)" % re.escape(k), v, text)
        ins.setdefault(j, []).append(text)
    for i, text in anns:
        if exact:
            put(i, text)
        elif bb is not None and i == bb:
            put(cb, text)
        elif i < len(base) and base[i].s == "{" and any(x in text for x in ("invariant", "decreases")):
            # a loop header: the brace itself must be matched, to a brace that opens a loop body
            j = mp.get(i)
            if j is None or cur[j].s != "{":
                raise Lost("loop contract in %s has lost its loop" % sec.label, sec.label)
            put(j, text)
        else:
            l, r = mp.get(i - 1), mp.get(i)
            if l is not None and cur[l].s != base[i - 1].s and base[i - 1].kind != "id":
                l = None
            if text.startswith(">") and r is not None:
                put(r, text[1:])
            elif l is not None:
                put(l + 1, text)
            elif r is not None:
                put(r, text)
            else:
                raise Lost("annotation in %s has lost its anchor" % sec.label, sec.label)
    out = []
    for k, x in enumerate(cur):
        for a in ins.get(k, []):
            out.append(" " + a.lstrip(">") + " ")
        out.append(x.ws + x.s)
    for a in ins.get(len(cur), []):
        out.append(" " + a)
    return "".join(out), exact


def headonly(sec, cur):
    """signature and contract of a function, body left out"""
    base, anns = split_base(sec.body)
    bb, cb = body_index(base), body_index(cur)
    rn = {}
    mp, exact = align(base[:bb], cur[:cb])
    if not exact:
        rn = renames(base[:bb], cur[:cb], mp)
    spec = ""
    for i, text in anns:
        if i == bb:
            for k, v in rn.items():
                text = re.sub(r"(?<![\w.])%s(?!\w)" % re.escape(k), v, text)
            spec += " " + text.lstrip(">")
    return "#[verifier::external_body] " + R.text(cur[:cb]).lstrip() + spec + "\n{ unimplemented!() }"


def rank_fn(sec, cur):
    """spec function: the position of a (fieldless) variant in the enum as declared"""
    b = [i for i, x in enumerate(cur) if x.s == "{"][0]
    names = [a[0].s for a in R.split_args(cur[b + 1:R.match_close(cur, b)])]
    return "spec fn %s(v: %s) -> int { match v { %s } }\n" % (
        sec.opts["rank"], sec.name, ", ".join("%s::%s => %d" % (sec.name, n, i) for i, n in enumerate(names)))


class Unit(object):
    def __init__(self, path, repo):
        self.path, self.repo = path, repo
        self.name = os.path.splitext(os.path.basename(path))[0]
        self.src = R.Sources(repo)

    def item(self, sec):
        if "inner" in sec.opts:
            # a fn declared in the body of another (or moved out of it, next to it)
            o = self.src.find("fn", sec.opts["inner"], sec.opts.get("self"), sec.opts.get("trait"), sec.opts.get("file"))
            if o is None:
                return None
            t = o.toks
            for i in range(body_index(t), len(t) - 1):
                if t[i].s == "fn" and t[i + 1].s == sec.name:
                    j = i
                    while t[j].s not in ("{", ";"):
                        j = (R.match_close(t, j) if t[j].s in ("(", "[") else j) + 1
                    return R.Item("fn", sec.name, t[i:R.match_close(t, j) + 1], o.file)
            return self.src.find("fn", sec.name, None, None, sec.opts.get("file"))
        return self.src.find(sec.kind, sec.opts.get("as", sec.name), sec.opts.get("self"), sec.opts.get("trait"), sec.opts.get("file"))

    def build(self, skip=()):
        """`skip`: functions whose body is left out (assumed contract): undecided by proof"""
        parts, subs = parse_template(self.path)
        out, spans, line = [], [], 1
        self.sections, self.lost, self.changed = [], [], []
        for p in parts:
            if isinstance(p, Section):
                it = self.item(p)
                if it is None:
                    raise Lost("%s %s not found" % (p.kind, p.label))
                for d in p.opts.get("derives", "").split(","):
                    if d and d not in getattr(it, "attrs", ()):
                        raise Lost("%s no longer derives %s" % (p.label, d))
                cur = transform(it, subs, p.subs, p.opts)
                if p.label in skip:
                    t, exact = headonly(p, cur), False
                else:
                    t, exact = weave(p, cur)
                if not exact:
                    self.changed.append(p.label)
                self.sections.append((p, it, exact))
                s = t.lstrip("\n") + "\n"
                if p.opts.get("rank"):
                    s += rank_fn(p, cur)
                spans.append((line, line + s.count("\n"), p, it))
            else:
                s = p
            out.append(s)
            line += s.count("\n")
        self.spans = spans
        return "".join(out)

    def owner(self, line):
        for a, b, p, it in self.spans:
            if a <= line < b:
                return p, it
        return None, None


def fill(path, repo):
    """development helper: fill empty sections of a unit and the files it includes with the transformed current text"""
    u = Unit(path, repo)
    parts, subs = parse_template(path)
    secs = [p for p in parts if isinstance(p, Section)]
    k = [0]

    def one(f):
        lines = open(f).read().rstrip("\n").split("\n")
        out, i = [], 0
        while i < len(lines):
            out.append(lines[i])
            s = lines[i].strip()
            if s.startswith("//@@ include "):
                one(os.path.join(os.path.dirname(f), s[13:].strip()))
            elif s.startswith("//@@ ") and s[5:].split()[0] in ("fn", "struct", "enum"):
                j = i + 1
                while lines[j].strip() != "//@@ end":
                    j += 1
                body = lines[i + 1:j]
                if not any(x.strip() and not x.strip().startswith("//@@") for x in body):
                    sec = secs[k[0]]
                    it = u.item(sec)
                    if it is None:
                        print("NOT FOUND", sec.label)
                    else:
                        body = [x for x in body if x.strip()] + R.text(transform(it, subs, sec.subs, sec.opts)).lstrip("\n").split("\n")
                out += body
                k[0] += 1
                i = j
                continue
            i += 1
        open(f, "w").write("\n".join(out) + "\n")
    one(path)


# ------------------------------------------------------------------ Verus

SEMANTIC = (
    ("postcondition not satisfied", "postcondition"),
    ("precondition not satisfied", "precondition"),
    ("invariant not satisfied", "loop invariant"),
    ("assertion failed", "assertion"),
    ("assertion not satisfied", "assertion"),
    ("arithmetic underflow/overflow", "no arithmetic overflow"),
    ("possible division by zero", "no division by zero"),
    ("possible bit shift", "shift in range"),
    ("decreases not satisfied", "termination"),
    ("could not prove termination", "termination"),
    ("unreachable", "unreachability"),
    ("loop ensures not satisfied", "loop ensures"),
    ("might not be allowed at this call-site", "opens invariants"),
    ("requires not satisfied", "precondition"),
    ("ensures not satisfied", "postcondition"),
)


def run_verus(path, rlimit=150, extra=(), confirm=True, deadline=None, stop=lambda: False):
    """Verus on one file.  A failure (or an exceeded resource limit) has to repeat under other solver seeds (unless an
    input that fails is known already: stop()); a failure there is no time left to repeat is left undecided."""
    def left():
        return 200 if deadline is None else min(200, deadline - time.time())
    r = run_verus1(path, rlimit, extra, left())
    only_rl = r["unsup"] and all("rlimit" in e["msg"] or "Resource limit" in e["msg"] for e in r["unsup"]) if r.get("unsup") is not None else False
    if confirm and (r["status"] == "failed" or only_rl):
        for seed in (7, 23):
            if stop():
                break
            if left() < r["wall"] and left() < 60:
                if r["status"] == "failed":
                    r["status"], r["why"] = "undecided", "no time to repeat: " + "; ".join(e["msg"] for e in r["errors"])
                break
            r2 = run_verus1(path, rlimit, list(extra) + ["--smt-option", "smt.random_seed=%d" % seed], left())
            r2["wall"] += r["wall"]
            r2["smt"] += r["smt"]
            if r2["status"] == "ok" or (r2["status"] == "failed" and r["status"] == "undecided"):
                r = r2
                if r["status"] == "ok":
                    break
            else:
                r["wall"], r["smt"] = r2["wall"], r2["smt"]
    return r


def run_verus1(path, rlimit=150, extra=(), limit=200):
    t0 = time.time()
    cmd = ["verus", path, "--output-json", "--time", "--multiple-errors", "4", "--rlimit", str(rlimit), "--error-format=json", "--no-report-long-running"] + list(extra)
    pr = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=os.path.dirname(path), start_new_session=True)
    try:
        sout, serr = pr.communicate(timeout=max(10, limit))
    except subprocess.TimeoutExpired:
        # the solvers too: they would run on
        os.killpg(pr.pid, signal.SIGKILL)
        pr.communicate()
        return dict(status="undecided", why="verus timeout", errors=[], unsup=[], verified=0, nerr=0, wall=time.time() - t0, smt=0, cmd=" ".join(cmd))
    p = subprocess.CompletedProcess(cmd, pr.returncode, sout, serr)
    err = p.stderr.decode("utf8", "replace")
    try:
        js = json.loads(p.stdout.decode("utf8", "replace"))
    except ValueError:
        js = {}
    res = js.get("verification-results", {})
    diags = []
    for l in err.split("\n"):
        if l.startswith("{"):
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get("level") == "error" and not d.get("message", "").startswith("aborting due"):
                diags.append(d)
    smt = 0
    tm = js.get("times-ms", {})
    smt = tm.get("smt", {}).get("total", 0) if isinstance(tm.get("smt"), dict) else 0
    errors, unsup = [], []
    for d in diags:
        kind = next((k for s, k in SEMANTIC if s in d["message"]), None)
        sp = d.get("spans", [])
        prim = [x for x in sp if x.get("is_primary")] or sp
        lines = [x["line_start"] for x in sp]
        e = dict(kind=kind, msg=d["message"], line=prim[0]["line_start"] if prim else 0, lines=lines,
                 labels=[(x["line_start"], x.get("label") or "", (x.get("text") or [{}])[0].get("text", "").strip()) for x in sp],
                 rendered=d.get("rendered", ""))
        (errors if kind else unsup).append(e)
    st = "ok"
    why = ""
    if unsup or (not res and not errors):
        st = "undecided"
        why = unsup[0]["msg"] if unsup else "verus gave no result: " + err[-300:]
        # a resource limit on one function does not void failures of others, but nothing is claimed
    elif errors:
        st = "failed"
    elif not res.get("success"):
        st, why = "undecided", "verus reported no success: " + err[-300:]
    return dict(status=st, why=why, errors=errors, unsup=unsup, verified=res.get("verified", 0), nerr=res.get("errors", 0),
                wall=time.time() - t0, smt=smt / 1000.0, cmd=" ".join(["verus", os.path.basename(path)] + cmd[2:]), stderr=err)


def vacuity_text(src):
    """assert(false) at the entry of every exec/proof function; -> text, list of (line, name)"""
    out, names, pos = [], [], 0
    skip = None
    pat = re.compile(r"(?m)^[ \t]*((?:#\[[^\n]*\]\s*)*)(?:pub\s+|broadcast\s+)*((?:open\s+|closed\s+|uninterp\s+)*(?:proof\s+|spec\s+|exec\s+)?)(?:const\s+|unsafe\s+)?fn\s+(\w+)")
    for m in pat.finditer(src):
        head = src[max(0, m.start() - 200):m.end()]
        prevline = src[:m.start()].rstrip().rsplit("\n", 1)[-1]
        if m.group(3) in ("main", "rt_panic") or "spec" in m.group(2) or "external_body" in m.group(1) or "external_body" in prevline or "assume_specification" in head.rsplit("\n", 1)[-1]:
            continue
        # the body brace: first `{` at depth 0 that is the start of the last block of the item
        i, d, last = m.end(), 0, None
        while i < len(src):
            ch = src[i]
            if ch in "([":
                d += 1
            elif ch in ")]":
                d -= 1
            elif ch == ";" and d == 0:
                break
            elif ch == "{" and d == 0:
                # skip a balanced block; it is the body if what follows is not a clause continuation
                k, dd = i, 0
                while True:
                    if src[k] == "{":
                        dd += 1
                    elif src[k] == "}":
                        dd -= 1
                        if dd == 0:
                            break
                    k += 1
                nxt = src[k + 1:].lstrip()
                if nxt[:1] in (",", "&", "|", "=", ".", ")") or nxt.startswith("else") or nxt.startswith("decreases") or nxt[:1] == "{":
                    i = k + 1
                    continue
                last = i
                break
            i += 1
        if last is not None:
            names.append((last, m.group(3)))
    for p, n in names:
        out.append(src[pos:p + 1])
        out.append(" assert(false);")
        pos = p + 1
    out.append(src[pos:])
    lines = [(src.count("\n", 0, p) + 1, n) for p, n in names]
    return "".join(out), lines


ASSUME = re.compile(r"external_body|assume_specification|admit\(\)|assume\(|axiom fn|external_type_specification|external_trait_specification|uninterp")


def assumptions(src):
    out = []
    lines = src.split("\n")
    for i, l in enumerate(lines):
        if ASSUME.search(l):
            s = l.strip()
            if s.startswith("#["):
                s += " " + " ".join(x.strip() for x in lines[i + 1:i + 3])
            out.append(re.sub(r"\s+", " ", s)[:160])
    return out


if __name__ == "__main__":
    if sys.argv[1] == "fill":
        fill(sys.argv[2], "/repo")
    elif sys.argv[1] == "gen":
        u = Unit(sys.argv[2], sys.argv[4] if len(sys.argv) > 4 else "/repo")
        open(sys.argv[3], "w").write(u.build())
        print("changed:", u.changed)
    elif sys.argv[1] == "run":
        u = Unit(sys.argv[2], sys.argv[3] if len(sys.argv) > 3 else "/repo")
        p = "/verif/build/%s_dev.rs" % u.name
        s = u.build()
        open(p, "w").write(s)
        r = run_verus(p)
        print("changed:", u.changed)
        for e in r["errors"] + r.get("unsup", []):
            print(e["rendered"])
        print(r["status"], r["why"], "verified", r["verified"], "errors", r["nerr"], "wall %.1f smt %.1f" % (r["wall"], r["smt"]))
        if r["status"] == "ok":
            v, names = vacuity_text(s)
            p2 = "/verif/build/%s_vac.rs" % u.name
            open(p2, "w").write(v)
            r2 = run_verus(p2, confirm=False)
            hit = set(x for e in r2["errors"] for x in e["lines"])
            bad = [n for l, n in names if l not in hit]
            print("vacuity: %d functions, %d refuted; vacuous: %s" % (len(names), len(names) - len(bad), bad), r2["why"])
            for e in r2["unsup"]:
                print(e["rendered"])
