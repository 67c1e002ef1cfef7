"""Verus units: functions taken from /repo's current source on every run, with contracts woven in.

A unit is a file <unit>.rs beside this one: a Verus file in which lines

  //@ item <file> <kind> <name> [in <container>]
  //@   <directive> ...
  //@   | text
  //@ end

stand for an item of the repository, copied from its text token by token (comments and
attributes other than derive dropped). Directives, all of them additions for the verifier:

  ret <name>              the name of the result in the contract
  spec                    requires/ensures/decreases of the function
  loop <n>                invariant/decreases of its n-th loop
  before <tokens>         ghost code before the n-th place where these tokens stand
  after <tokens>
  start / loopstart <n>   ghost code at the start of the function's / n-th loop's body
  arms <match ..>         ghost code at the end of each arm of this match, whose value is ()
  parts <n> <match ..>    n copies of the function, in each of which all but one n-th of the arms of this match
                          are assumed away; together they are all of it
  attr                    text in front of the item
  iter <n> <name>         names the iterator of the n-th loop
  each <tokens>           ghost code before every call `tokens ( .. ) ;`, in which $0 stands for
                          the argument, $k for its place among those of its block, $n for their number
  subst <tokens> => <tokens>   replaces tokens; stated in the evidence as dropped
  macros                  expands the macro_rules of the function's own body
  slices                  matches on slice patterns `[p, q, ..]`, `[.., p, q]` become matches on
                          `front2(&x)`, `back2(&x)`, which give the first or last two elements, if there
  ranges                  `x[a..b]` behind `&`, or in front of a method, becomes `range(&x, a, b)`
                          (range_from, range_to), `x[a..b].copy_from_slice(y)` becomes `overwrite`
  mutself <name>          a parameter `mut self` becomes `self` and a variable of that name
  refpats                 in arms of matches, the pattern `Some(&x)` becomes `Some(x)` and x in the arm `*x`
  optmap                  `x.map(|p| e)`, `x.map(f)`, and_then and unwrap_or_else of an option become the matches they stand for
  results                 the same of `x.map_err(|p| e)` and `x.ok_or_else(|| e)`
  resmap                  the same of `x.map(f)` and `x.and_then(|p| e)?` of a result and of `x.map_or(d, |p| e)` and `x.map_or_else(|| d, |p| e)` of an option
  derived                 in what a derive has written, the paths to traits and types of the crate and of std::io stand without
                          their modules (as everywhere in the expanded source), Cow<'static, Wtf8Str> as Str
  touch <name>            the value of the body is named and `touch(name)`, which does nothing, called after it
  foreach <name>          `x.for_each(move |p| e);` becomes the loop it stands for
  forloop <n> <name>      the n-th loop, a `for`, becomes the `while let` it stands for
  collect <how> <name>    `x.map(|p| e).collect()` becomes the loop it stands for, which fills a vector of that name
                          (how: vec), or leaves with the first error (try), or fills a map (map)
  errors                  `Invalid("..", e)` becomes `Invalid("..", Text)`: what an error says is left out
  floats                  literals of floats become `flt(bits of the f32, bits of the f64)`
  bytes                   literals of bytes become numbers
  attribute               in what derive(AttributeEnum) has written, the names of attributes, constants and literals of bytes and
                          strings, become the variants of `Name` of the same name, matched and made by `name_of`, `name_str`;
                          the reader of `vec` a `Rest`, and the writer that appends to `vec`, which is empty, `vec` itself
  cut <kind> <name>       an item within the function is left out (it is an item of its own)
  bare                    the derive attributes are dropped
  drop <text>             says what is not taken over
  assume <text>           says what is assumed

The file `@expanded` is the source of the crate after the compiler has expanded its macros
and derives (rustc -Zunpretty=expanded); in it the paths crate::a::b::X and std::io::X are X.

`//@ present <file> <tokens>`: these tokens have to stand in that file, as what is assumed says.
`//@ consts <file>`: all constants at the top of that file.
`//@ include <file>` puts another file of this directory there.

If something to annotate is not there any more, the unit is not decided unless it verifies
all the same. Units that the verifier does not accept as its language are not decided either.
"""
import concurrent.futures, json, os, re, struct, subprocess, threading, time

class Lost(Exception):
    pass

class T(str):
    """A token; `sp`: a blank or comment stood before it."""
    sp = True

TOK = re.compile(r"""
   (?P<ws>\s+)
 | (?P<lc>//[^\n]*)
 | (?P<bc>/\*)
 | (?P<str>b?r(?P<h>\#*)".*?"(?P=h)|b?"(?:\\.|[^"\\])*")
 | (?P<chr>b?'(?:\\(?:u\{[0-9a-fA-F_]*\}|x[0-9a-fA-F]{2}|.)|[^'\\])')
 | (?P<life>'[A-Za-z_]\w*)
 | (?P<num>\d[\w]*(?:\.\d[\w]*)?)
 | (?P<id>(?:r\#)?[A-Za-z_]\w*)
 | (?P<p>\.\.=|\.\.\.|<<=|>>=|::|->|=>|==|!=|<=|>=|&&|\|\||\+=|-=|\*=|/=|%=|\^=|&=|\|=|<<|\.\.|.)
""", re.X | re.S)

def lex(s):
    """Tokens without comments and blanks."""
    out, i, sp = [], 0, True
    while i < len(s):
        m = TOK.match(s, i)
        if m.group("bc"):
            d, i = 1, m.end()
            while d:
                n = re.compile(r"/\*|\*/").search(s, i)
                d += 1 if n.group() == "/*" else -1
                i = n.end()
            sp = True
            continue
        t = m.group()
        # ranges like 0..5 are no floats
        if m.group("num") and "." in t and s[m.start() + t.index(".") + 1: m.start() + t.index(".") + 2] == ".":
            t = t[: t.index(".")]
        if m.group("ws") or m.group("lc"):
            sp = True
        else:
            t = T(t)
            t.sp, sp = sp, False
            out.append(t)
        i = m.start() + len(t)
    return out

OPEN, CLOSE = {"(": ")", "[": "]", "{": "}"}, {")", "]", "}"}

def match(t, i):
    """The index of the bracket that closes the one at i."""
    d = 0
    for j in range(i, len(t)):
        if t[j] in OPEN:
            d += 1
        elif t[j] in CLOSE:
            d -= 1
            if d == 0:
                return j
    raise Lost("unbalanced")

def find_seq(t, seq, lo=0, hi=None):
    hi = len(t) if hi is None else hi
    n = len(seq)
    return [i for i in range(lo, hi - n + 1) if t[i:i + n] == seq]

def body_of(t, i):
    """The opening brace of an item that starts at i, or its semicolon."""
    j, ang = i, 0
    while True:
        if j >= len(t):
            raise Lost("no body")
        if t[j] in ("(", "["):
            j = match(t, j)
        elif t[j] in ("{", ";"):
            return j
        j += 1

def find_item(t, kind, name, lo=0, hi=None):
    """Start and end (inclusive) of the item, visibility left out."""
    hits = []
    for i in find_seq(t, [kind, name], lo, hi):
        if i > 0 and t[i - 1] in (".", "::"):
            continue
        hits.append(i)
    if not hits:
        raise Lost("no %s %s" % (kind, name))
    if len(hits) > 1:
        raise Lost("more than one %s %s" % (kind, name))
    i = hits[0]
    b = body_of(t, i)
    if kind in ("const", "static") :
        while t[b] != ";":
            b = match(t, b) + 1 if t[b] in OPEN else b + 1
    e = match(t, b) if t[b] == "{" else b
    s = i
    while s > 0 and t[s - 1] in ("const", "unsafe"):
        s -= 1
    return s, e

def container(t, text, kind, name):
    """The one block behind these tokens in which the item is."""
    seq = lex(text)
    hits = [i + len(seq) for i in find_seq(t, seq) if t[i + len(seq)] == "{"]
    hits = [i for i in hits if find_seq(t, [kind, name], i, match(t, i))]
    if len(hits) != 1:
        raise Lost("%d times %s with %s" % (len(hits), text, name))
    return hits[0], match(t, hits[0])

def attrs_before(t, s):
    """The tokens of derive attributes in front of s (behind a visibility)."""
    i = s
    while i > 0 and t[i - 1] in ("pub",):
        i -= 1
    if i > 0 and t[i - 1] == ")":
        j = i - 1
        while t[j] != "(":
            j -= 1
        if t[j - 1] == "pub":
            i = j - 1
    out = []
    while i > 0 and t[i - 1] == "]":
        j, d = i - 1, 0
        while True:
            d += {"]": 1, "[": -1}.get(t[j], 0)
            if d == 0:
                break
            j -= 1
        if t[j - 1] != "#":
            break
        if t[j + 1] == "derive":
            out = t[j - 1:i] + out
        i = j - 1
    return out

# ---- macro_rules inside of a function, of the simple kinds that occur

def split_rules(t):
    rules, i = [], 0
    while i < len(t):
        a = match(t, i)
        pat = t[i + 1:a]
        if t[a + 1] != "=>":
            raise Lost("macro")
        b = match(t, a + 2)
        rules.append((pat, t[a + 3:b]))
        i = b + 1
        if i < len(t) and t[i] == ";":
            i += 1
    return rules

def expand(t):
    macros, out, i = {}, [], 0
    while i < len(t):
        if t[i] == "macro_rules" and t[i + 1] == "!":
            b = match(t, i + 3)
            macros[t[i + 2]] = split_rules(t[i + 4:b])
            i = b + 1
            continue
        if t[i] in macros and i + 1 < len(t) and t[i + 1] == "!":
            b = match(t, i + 2)
            args, cur, d = [], [], 0
            for x in t[i + 3:b]:
                d += (x in OPEN) - (x in CLOSE)
                if x == "," and d == 0:
                    args.append(cur)
                    cur = []
                else:
                    cur.append(x)
            if cur or args:
                args.append(cur)
            for pat, rep in macros[t[i]]:
                names = [pat[k + 1] for k in range(len(pat)) if pat[k] == "$"]
                if any(x not in ("$", ":", ",", "expr", "ident", "ty", "pat", "tt", "literal", "block") and x not in names for x in pat):
                    raise Lost("macro pattern " + " ".join(pat))
                if len(names) == len(args):
                    break
            else:
                raise Lost("macro call")
            sub, k = [], 0
            while k < len(rep):
                if rep[k] == "$":
                    a = args[names.index(rep[k + 1])]
                    sub += a if len(a) == 1 else ["("] + a + [")"]
                    k += 2
                else:
                    sub.append(rep[k])
                    k += 1
            # an expression: in a block, as the hygiene of the macro keeps its names apart
            # (checked: the replacement binds no name that its arguments use)
            bound = {sub[k + 1] for k in range(len(sub) - 1) if sub[k] == "let"}
            if bound & {x for a in args for x in a}:
                raise Lost("macro hygiene")
            t = t[:i] + ["{"] + sub + ["}"] + t[b + 1:]
            continue
        out.append(t[i])
        i += 1
    return out

def split_commas(t):
    out, cur, d = [], [], 0
    for x in t:
        d += (x in OPEN) - (x in CLOSE)
        if x == "," and d == 0:
            out.append(cur)
            cur = []
        else:
            cur.append(x)
    return out + [cur] if cur else out

def slices(t):
    i = 0
    while i < len(t):
        if t[i] == "match":
            o = i + 1
            while t[o] != "{":
                o = match(t, o) + 1 if t[o] in ("(", "[") else o + 1
            e = match(t, o)
            if t[o + 1] == "[":
                body, k, form = [], o + 1, None
                while k < e:
                    if t[k] == "[":
                        m = match(t, k)
                        ps = split_commas(t[k + 1:m])
                        if ps and ps[0] == [".."]:
                            f, ps = "back%d" % (len(ps) - 1), ps[1:]
                        elif ps and ps[-1] == [".."]:
                            f, ps = "front%d" % (len(ps) - 1), ps[:-1]
                        else:
                            raise Lost("slice pattern")
                        if form not in (None, f) or any(".." in q and len(q) > 1 and q[-1] == ".." for q in ps):
                            raise Lost("slice patterns of several forms")
                        form = f
                        body += ["Some", "(", "("]
                        for q in ps:
                            body += q + [","]
                        body += [")", ")"]
                        k = m + 1
                    elif t[k] == "_":
                        body.append("_")
                        k += 1
                    else:
                        raise Lost("pattern")
                    # up to the end of the arm
                    while t[k] != "=>":
                        body.append(t[k])
                        k += 1
                    body.append("=>")
                    k += 1
                    if t[k] == "{":
                        m = match(t, k)
                        body += t[k:m + 1]
                        k = m + 1
                    else:
                        while k < e and t[k] != ",":
                            m = match(t, k) if t[k] in OPEN else k
                            body += t[k:m + 1]
                            k = m + 1
                    if k < e and t[k] == ",":
                        k += 1
                    body.append(",")
                t = t[:i + 1] + [form, "(", "&"] + t[i + 1:o] + [")", "{"] + body + t[e:]
        i += 1
    return t

def ranges(t):
    i = 0
    while i < len(t):
        if t[i] == "[" and i > 0 and re.match(r"[A-Za-z_]\w*$", t[i - 1]) and t[i - 1] not in ("in", "return", "match", "mut"):
            e = match(t, i)
            d, at = 0, None
            for k in range(i + 1, e):
                d += (t[k] in OPEN) - (t[k] in CLOSE)
                if d == 0 and t[k] == "..":
                    at = k
            if at is not None:
                a, b = t[i + 1:at], t[at + 1:e]
                s = i - 1
                while s >= 2 and t[s - 1] == "." and re.match(r"[A-Za-z_]\w*$", t[s - 2]):
                    s -= 2
                path = t[s:i]
                args = (a + [","] if a else []) + (b if b else [])
                name = "range" if a and b else "range_from" if a else "range_to" if b else "range_all"
                if t[e + 1:e + 3] == [".", "copy_from_slice"] and a and b:
                    m = match(t, e + 3)
                    t = t[:s] + ["overwrite", "(", "&", "mut"] + path + [","] + args + [","] + t[e + 4:m] + [")"] + t[m + 1:]
                elif t[s - 1] == "&":
                    t = t[:s - 1] + [name, "(", "&"] + path + [","] + args + [")"] + t[e + 1:]
                elif t[e + 1] == ".":
                    t = t[:s] + [name, "(", "&"] + path + [","] + args + [")"] + t[e + 1:]
                else:
                    raise Lost("range")
        i += 1
    return t

def refpats(t):
    i = 0
    while i + 4 < len(t):
        if t[i:i + 3] == ["Some", "(", "&"] and t[i + 4] == ")" and re.match(r"[a-z_]\w*$", t[i + 3]):
            x = t[i + 3]
            k = i + 5
            while k < len(t) and t[k] not in ("=>", ";", "="):
                k += 1
            if t[k] == "=":
                raise Lost("reference pattern")
            if t[k] == "=>":
                k += 1
                if t[k] == "{":
                    e = match(t, k) + 1
                else:
                    e = k
                    while t[e] != "," and t[e] not in CLOSE:
                        e = match(t, e) + 1 if t[e] in OPEN else e + 1
                arm = []
                for y in t[i + 5:e]:
                    arm += ["(", "*", y, ")"] if y == x else [y]
                t = t[:i] + ["Some", "(", x, ")"] + arm + t[e:]
        i += 1
    return t

def receiver(t, i):
    """Where the receiver of the method call at i (its dot) starts."""
    s = i
    while s > 0:
        if t[s - 1] == "?":
            s -= 1
        elif t[s - 1] in (")", "]"):
            d, k = 0, s - 1
            while True:
                d += (t[k] in CLOSE) - (t[k] in OPEN)
                if d == 0:
                    break
                k -= 1
            s = k
        elif t[s - 1] in (".", "::") or re.match(r"[A-Za-z_]\w*$", t[s - 1]) and t[s - 1] not in ("return", "in", "match", "unsafe", "mut", "if", "while", "else"):
            s -= 1
        else:
            break
    return s

def optmap(t):
    i, n = 0, 0
    while i < len(t):
        if t[i] == "." and t[i + 1] in ("map", "and_then", "unwrap_or_else") and t[i + 2] == "(":
            e = match(t, i + 2)
            how = t[i + 1]
            s = receiver(t, i)
            some = ["Some", "("] if how == "map" else []
            end = [")"] if how == "map" else []
            if t[i + 3] in ("|", "||", "move"):
                k = i + 3 + (t[i + 3] == "move")
                if t[k] == "||":
                    p, pat = k, []
                else:
                    p = t.index("|", k + 1)
                    pat = t[k + 1:p]
                body = t[p + 1:e]
                if body and body[-1] == ",":
                    body = body[:-1]
                if "return" in body or "?" in body:
                    raise Lost("closure of " + how)
            else:
                pat = ["v%d_" % n]
                n += 1
                body = t[i + 3:e] + ["("] + pat + [")"]
            if how == "unwrap_or_else":
                v = "v%d_" % n
                n += 1
                new = ["{", "Some", "(", v, ")", "=>", v, ",", "None", "=>"] + body + [",", "}"]
            else:
                new = ["{", "Some", "("] + pat + [")", "=>"] + some + body + end + [",", "None", "=>", "None", ",", "}"]
            t = t[:s] + ["(", "match"] + t[s:i] + new + [")"] + t[e + 1:]
            i = s
        i += 1
    return t

def results(t):
    i = 0
    while i < len(t):
        if t[i] == "." and t[i + 1] in ("map_err", "ok_or_else") and t[i + 2] == "(" and t[i + 3] in ("|", "||"):
            e = match(t, i + 2)
            s = receiver(t, i)
            if t[i + 3] == "||":
                p, pat = i + 3, []
            else:
                p = t.index("|", i + 4)
                pat = t[i + 4:p]
            body = t[p + 1:e]
            if "return" in body or "?" in body:
                raise Lost("closure of " + t[i + 1])
            good, bad = ("Ok", ["Err", "("] + (pat or ["_"]) + [")"]) if t[i + 1] == "map_err" else ("Some", ["None"])
            t = t[:s] + ["(", "match"] + t[s:i] + ["{", good, "(", "v_", ")", "=>", "Ok", "(", "v_", ")", ","] + bad + ["=>", "Err", "("] + body + [")", ",", "}", ")"] + t[e + 1:]
            i = s
        i += 1
    return t

def closing(t, e):
    """Where the bracket that closes at e opens."""
    d, k = 0, e
    while True:
        d += (t[k] in CLOSE) - (t[k] in OPEN)
        if d == 0:
            return k
        k -= 1

def resmap(t):
    i = 0
    while i < len(t):
        if t[i] == "." and t[i + 1] in ("and_then", "map_or", "map_or_else", "map") and t[i + 2] == "(":
            e, how = match(t, i + 2), t[i + 1]
            if t[i - 1] == "}":
                s = closing(t, i - 1)
                if t[s - 1] not in ("(", ",", "=", "=>", "{"):
                    raise Lost("receiver of " + how)
            else:
                s = receiver(t, i)
            args = split_commas(t[i + 3:e])
            if how == "map" and len(args) == 1 and args[0][0] not in ("|", "||", "move"):
                new = ["Ok", "(", "v_", ")", "=>", "Ok", "("] + args[0] + ["(", "v_", ")", ")", ",", "Err", "(", "e_", ")", "=>", "Err", "(", "e_", ")", ","]
            elif how == "and_then" and len(args) == 1 and args[0][0] == "|" and t[e + 1] == "?" and "return" not in args[0]:
                # what is returned with `?` within is returned by the one behind
                k = args[0].index("|", 1)
                new = ["Ok", "("] + args[0][1:k] + [")", "=>"] + args[0][k + 1:] + [",", "Err", "(", "e_", ")", "=>", "Err", "(", "e_", ")", ","]
            elif how == "map_or" and len(args) == 2 and args[1][0] == "|" and "return" not in args[1] and "?" not in args[1]:
                k = args[1].index("|", 1)
                new = ["Some", "("] + args[1][1:k] + [")", "=>"] + args[1][k + 1:] + [",", "None", "=>"] + args[0] + [","]
            elif how == "map_or_else" and len(args) == 2 and args[0][0] == "||" and args[1][0] == "|" and not {"return", "?"} & set(args[0] + args[1]):
                k = args[1].index("|", 1)
                new = ["Some", "("] + args[1][1:k] + [")", "=>"] + args[1][k + 1:] + [",", "None", "=>"] + args[0][1:] + [","]
            else:
                i += 1
                continue
            t = t[:s] + ["(", "match"] + t[s:i] + ["{"] + new + ["}", ")"] + t[e + 1:]
            i = s
        i += 1
    return t

def foreach(t, name):
    for i in range(len(t)):
        if t[i:i + 3] == [".", "for_each", "("]:
            e = match(t, i + 2)
            k = i + 3 + (t[i + 3] == "move")
            if t[k] != "|" or not re.match(r"[A-Za-z_]\w*$", t[i - 1]) or t[i - 2] in (".", "::"):
                break
            p = t.index("|", k + 1)
            if "return" in t[p:e] or "?" in t[p:e]:
                break
            return t[:i - 1] + ["let", "mut", name, "=", t[i - 1], ";", "while", "let", "Some", "("] + t[k + 1:p] + [")", "=", name, ".", "next", "(", ")", "{"] + t[p + 1:e] + [";", "}"] + t[e + 1:]
    raise Lost("for_each")

def forloop(t, n, name):
    ls = loop_bodies(t, body_of(t, 0), len(t))
    if n >= len(ls) or t[ls[n][0]] != "for":
        raise Lost("no for loop %d" % n)
    i, b = ls[n]
    j = i + 1
    while t[j] != "in":
        j = match(t, j) + 1 if t[j] in OPEN else j + 1
    return t[:i] + ["let", "mut", name, "="] + t[j + 1:b] + [";", "while", "let", "Some", "("] + t[i + 1:j] + [")", "=", name, ".", "next", "(", ")"] + t[b:]

def collect(t, how, name):
    for i in range(len(t)):
        if t[i:i + 3] == [".", "map", "("] and t[i + 3] in ("|", "move"):
            e = match(t, i + 2)
            if t[e + 1:e + 5] != [".", "collect", "(", ")"]:
                continue
            k = i + 3 + (t[i + 3] == "move")
            p = t.index("|", k + 1)
            s = receiver(t, i)
            pat, body = t[k + 1:p], t[p + 1:e]
            if "return" in body or "?" in body:
                raise Lost("closure of collect")
            if how == "map":
                fill = [name, ".", "put", "(", "("] + body + [")", ")", ";"]
            else:
                fill = [name, ".", "push", "(", "("] + body + [")"] + (["?"] if how == "try" else []) + [")", ";"]
            new = ["{", "let", "mut", name, "=", "IndexMap" if how == "map" else "Vec", "::", "new", "(", ")", ";", "for"] + pat + ["in"] + t[s:i] + ["{"] + fill + ["}"]
            new += (["Ok", "(", name, ")"] if how == "try" else [name]) + ["}"]
            return t[:s] + new + t[e + 5:]
    raise Lost("collect")

def errors(t):
    i = 0
    while i < len(t):
        if t[i] == "Invalid" and t[i + 1] == "(" and t[i + 2].startswith('"'):
            e = match(t, i + 1)
            t = t[:i + 3] + [",", "Text", ")"] + t[e + 1:]
        i += 1
    return t

def attribute(t):
    names, out, i = {}, [], 0
    cow = lex('::std::borrow::Cow::Borrowed(::wtf_8::Wtf8Str::new(')
    reader = lex('&[u8] = vec.as_ref()')
    writer = lex('let mut __inner_writer = ::Cursor::new(&mut vec); let mut inner_writer = &mut __inner_writer;')
    cst = lex(": &'static [u8] =")
    while i < len(t):
        if t[i] == "const" and t[i + 2:i + 2 + len(cst)] == cst and t[i + 2 + len(cst)].startswith('"'):
            n = i + 2 + len(cst)
            names[t[i + 1]] = t[n][1:-1]
            if t[n + 1:n + 6] != lex(".as_bytes();"):
                raise Lost("attribute")
            i = n + 6
        elif t[i] in names:
            out += ["Name", "::", names[t[i]]]
            i += 1
        elif t[i:i + 5] == lex("attribute_name.as_bytes()"):
            out += lex("name_of(&attribute_name)")
            i += 5
        elif t[i:i + len(cow)] == cow and t[i + len(cow)].startswith('"'):
            i += len(cow)
            out += lex("name_str(Name::%s)" % t[i][1:-1])
            i += 3
        elif t[i:i + len(reader)] == reader:
            out += lex("Rest = rest(&vec)")
            i += len(reader)
        elif t[i:i + len(writer)] == writer:
            i += len(writer)
        elif t[i] == "inner_writer":
            out += lex("&mut vec")
            i += 1
        else:
            out.append(t[i])
            i += 1
    return out

def floats(t):
    out = []
    for i, x in enumerate(t):
        m = re.match(r"(\d[\d_]*\.\d[\d_]*)(f32|f64)?$", x)
        if m:
            v = float(m.group(1).replace("_", ""))
            neg = bool(out) and out[-1] == "-" and len(out) > 1 and out[-2] in ("(", "=", "==", "!=", ",", "=>")
            if neg:
                out.pop()
                v = -v
            out += ["flt", "(", str(struct.unpack(">I", struct.pack(">f", v))[0]), ",", str(struct.unpack(">Q", struct.pack(">d", v))[0]), ")"]
        else:
            out.append(x)
    return out

def render(t):
    out = []
    for i, x in enumerate(t):
        if isinstance(x, tuple):
            out.append("\n" + x[0] + "\n")
        else:
            # only shifts and the like depend on what is next to what
            apart = getattr(x, "sp", True) or x != ">" or i == 0 or t[i - 1] != ">"
            out.append((" " if apart else "") + x + ("\n" if x in ("{", "}", ";", ",") else ""))
    return "".join(out)

LOOPS = ("for", "while", "loop")

def loop_bodies(t, lo, hi):
    """(keyword, opening brace) of the loops in order. `for` of bounds and impls does not occur in bodies."""
    out = []
    for i in range(lo, hi):
        if isinstance(t[i], tuple):
            continue
        if t[i] in LOOPS and not (t[i] == "for" and t[i + 1] == "<"):
            j = i + 1
            while t[j] != "{":
                if t[j] == "if" and t[j - 1] != "else":
                    # an if within the header
                    while t[j] != "{":
                        j = match(t, j) + 1 if t[j] in ("(", "[") else j + 1
                    j = match(t, j) + 1
                    while t[j] == "else":
                        while t[j] != "{":
                            j = match(t, j) + 1 if t[j] in ("(", "[") else j + 1
                        j = match(t, j) + 1
                else:
                    j = match(t, j) + 1 if t[j] in ("(", "[") else j + 1
            out.append((i, j))
    return out

def ghostly(t):
    """An expression over u8 as ghost code, where sums and differences are integers: these,
    in brackets, are cast back; and the differences, which must not be negative."""
    out, subs, i = [], [], 0
    while i < len(t):
        if t[i] == "(":
            e = match(t, i)
            inner, s = ghostly(t[i + 1:e])
            subs += s
            d = 0
            ops = []
            for k, x in enumerate(inner):
                d += (x in OPEN) - (x in CLOSE)
                if d == 0 and x in ("-", "+") and k > 0:
                    ops.append(k)
            if ops:
                out += ["(", "("] + inner + [")", "as", "u8", ")"]
                if len(ops) == 1 and inner[ops[0]] == "-":
                    subs.append((inner[:ops[0]], inner[ops[0] + 1:]))
            else:
                out += ["("] + inner + [")"]
            i = e + 1
        else:
            out.append(t[i])
            i += 1
    return out, subs

LOCK, SOURCES = threading.Lock(), {}

def tokens(repo, path):
    """The tokens of a file of the repository, or of its expanded source."""
    with LOCK:
        if (repo, path) not in SOURCES:
            if path == "@expanded":
                env = dict(os.environ, RUSTC_BOOTSTRAP="1", CARGO_TARGET_DIR=os.environ.get("VERIF_EXPAND", "/tmp/vs/expand"), CARGO_NET_OFFLINE="true", RUSTFLAGS="")
                p = subprocess.run(["cargo", "rustc", "--offline", "--quiet", "--lib", "--profile", "check", "--", "-Zunpretty=expanded"], cwd=repo, env=env, capture_output=True, text=True, timeout=600)
                if p.returncode != 0:
                    raise Lost("the source is not expanded: " + p.stderr[-500:])
                text = p.stdout
            else:
                text = open(os.path.join(repo, path)).read()
            t = lex(text)
            if path == "@expanded":
                out, i = [], 0
                while i < len(t):
                    if t[i] == "crate" and t[i + 1] == "::" and (i == 0 or t[i - 1] != "::"):
                        i += 2
                        while t[i + 1] == "::" and re.match(r"[a-z_0-9]+$", t[i]):
                            i += 2
                    elif t[i:i + 4] == ["std", "::", "io", "::"]:
                        i += 4
                    else:
                        out.append(t[i])
                        i += 1
                t = out
            SOURCES[repo, path] = t
        return list(SOURCES[repo, path])

class Unit:
    def __init__(self, name, here):
        self.name, self.lost, self.dropped, self.assumed, self.functions, self.names = name, [], [], [], [], []
        self.text = open(os.path.join(here, name + ".rs")).read()
        self.text = re.sub(r"^//@ include (\S+)$", lambda m: open(os.path.join(here, m.group(1))).read().rstrip(), self.text, flags=re.M)

    def build(self, repo, smoke=None):
        self.copies = {}
        out, lines, i = [], self.text.split("\n"), 0
        self.lost, self.dropped, self.assumed, self.functions = [], [], [], []
        while i < len(lines):
            m = re.match(r"\s*//@ (item|drop|assume|present|consts) (.*)", lines[i])
            if not m:
                out.append(lines[i])
                i += 1
                continue
            if m.group(1) == "present":
                path, toks = m.group(2).split(" ", 1)
                if not find_seq(tokens(repo, path), lex(toks)):
                    raise Lost("%s: no `%s`" % (path, toks))
                i += 1
                continue
            if m.group(1) == "consts":
                t, k = tokens(repo, m.group(2)), 0
                while k < len(t):
                    if t[k] in OPEN:
                        k = match(t, k)
                    elif t[k] == "const" and t[k + 1] != "fn":
                        e = t.index(";", k)
                        out.append("pub" + render(t[k:e + 1]).replace("\n", " "))
                        k = e
                    k += 1
                i += 1
                continue
            if m.group(1) == "drop":
                self.dropped.append(m.group(2))
                i += 1
                continue
            if m.group(1) == "assume":
                self.assumed.append(m.group(2))
                i += 1
                continue
            head, dirs = m.group(2), []
            i += 1
            while not re.match(r"\s*//@ end", lines[i]):
                d = re.match(r"\s*//@\s+(\|)? ?(.*)", lines[i])
                if d.group(1):
                    dirs[-1][1].append(d.group(2))
                else:
                    dirs.append((d.group(2), []))
                i += 1
            i += 1
            out.append(self.item(repo, head, dirs, smoke))
        return "\n".join(out)

    def item(self, repo, head, dirs, smoke):
        m = re.match(r"(\S+) (\w+) (\w+)(?: in (.*))?$", head)
        path, kind, name, cont = m.groups()
        t = tokens(repo, path)
        lo, hi = 0, None
        if cont:
            lo, hi = container(t, cont, kind, name)
        s, e = find_item(t, kind, name, lo, hi)
        derive = attrs_before(t, s) if kind in ("enum", "struct") else []
        t = t[s:e + 1]
        words = {d[0].split(" ")[0] for d in dirs}
        # attributes within
        k = 0
        while k < len(t):
            if t[k] == "#" and t[k + 1] == "[":
                t = t[:k] + t[match(t, k + 1) + 1:]
            else:
                k += 1
        for d, txt in dirs:
            if d.startswith("cut "):
                w = d.split(" ")
                x, y = find_item(t, w[1], w[2], 1)
                t = t[:x] + t[y + 1:]
        if "macros" in words:
            t = expand(t)
        if "floats" in words:
            t = floats(t)
        if "bytes" in words:
            t = [T("%du8" % ord(x[2])) if re.match(r"b'[^\\\\]'$", x) else x for x in t]
        if "attribute" in words:
            t = attribute(t)
            d = "what derive(AttributeEnum) has written: names of attributes stand as variants of an enum, the reader of a body and the writer into an empty vector as stand-ins of the same effect"
            if d not in self.dropped:
                self.dropped.append(d)
        if "errors" in words:
            t = errors(t)
        pre = ""
        for w, f in (("slices", slices), ("ranges", ranges), ("refpats", refpats), ("results", results), ("resmap", resmap), ("optmap", optmap)):
            if w in words:
                t = f(t)
        for d, txt in dirs:
            if d.startswith("forloop "):
                w = d.split(" ")
                t = forloop(t, int(w[1]), w[2])
            elif d.startswith("mutself "):
                w = d.split(" ")[1]
                b = body_of(t, 0)
                if "mut" in t[:b] and t[t.index("mut") + 1] == "self":
                    h = t[:t.index("mut")] + t[t.index("mut") + 1:b]
                    t = h + ["{", "let", "mut", w, "=", "self", ";"] + [w if x == "self" else x for x in t[b + 1:]]
            elif d.startswith("touch "):
                b = body_of(t, 0)
                t = t[:b] + ["{", "let", "r_", "="] + t[b:] + [";", "touch", "(", d.split(" ")[1], ")", ";", "r_", "}"]
            elif d.startswith("collect "):
                w = d.split(" ")
                t = collect(t, w[1], w[2])
            elif d.startswith("foreach "):
                t = foreach(t, d.split(" ")[1])
        if "derived" in words:
            for a, b in (("Cow<'static, Wtf8Str>", "Str"),):
                a, b = lex(a), lex(b)
                for x in reversed(find_seq(t, a)):
                    t = t[:x] + b + t[x + len(a):]
            d = "what a derive has written: modules of paths left out, Cow<'static, Wtf8Str> stands as Str"
            if d not in self.dropped:
                self.dropped.append(d)
        for d, txt in dirs:
            if d.startswith("subst "):
                a, b = d[6:].split(" => ")
                a, b = lex(a), lex(b)
                at = find_seq(t, a)
                if not at:
                    self.lost.append("%s: no `%s`" % (name, " ".join(a)))
                for x in reversed(at):
                    t = t[:x] + b + t[x + len(a):]
                self.dropped.append("%s: `%s` stands as `%s`" % (name, d[6:].split(" => ")[0], d[6:].split(" => ")[1]))
            elif d == "attr":
                pre = "\n".join(txt)
            elif d.startswith("drop "):
                self.dropped.append(name + ": " + d[5:])
            elif d.startswith("assume "):
                self.assumed.append(name + ": " + d[7:])
        if kind == "fn":
            self.functions.append("%s (%s)" % (name, path))
            self.names.append(str(t[t.index("fn") + 1]))
            b = body_of(t, 0)
            ins = []
            if smoke == len(self.functions) - 1 and "spec" not in words:
                ins.append((b, "ensures false,"))
            for d, txt in dirs:
                w = d.split(" ")
                text = "\n".join(txt)
                if w[0] == "spec":
                    if smoke == len(self.functions) - 1:
                        text = re.sub(r"\bensures\b", "ensures false, ", text, count=1) if "ensures" in text else text + "\nensures false,"
                    ins.append((b, text))
                elif w[0] in ("loop", "loopstart"):
                    ls = loop_bodies(t, b, len(t))
                    n = int(w[1])
                    if n >= len(ls):
                        self.lost.append("%s: no loop %d" % (name, n))
                        continue
                    ins.append((ls[n][1] + (w[0] == "loopstart"), text))
                elif w[0] == "iter":
                    ls = loop_bodies(t, b, len(t))
                    n = int(w[1])
                    if n >= len(ls) or t[ls[n][0]] != "for":
                        self.lost.append("%s: no loop %d" % (name, n))
                        continue
                    j = ls[n][0] + 1
                    while t[j] != "in":
                        j = match(t, j) + 1 if t[j] in OPEN else j + 1
                    ins.append((j + 1, w[2] + ":"))
                elif w[0] == "each":
                    seq = lex(d[5:]) + ["("]
                    at = find_seq(t, seq)
                    if not at:
                        self.lost.append("%s: no `%s`" % (name, " ".join(seq)))
                    block = {}
                    for x in at:
                        k, dep = x, 0
                        while not (t[k] == "{" and dep == 0):
                            dep += (t[k] in CLOSE) - (t[k] in OPEN)
                            k -= 1
                        block.setdefault(k, []).append(x)
                    for xs in block.values():
                        for k, x in enumerate(xs):
                            o = x + len(seq) - 1
                            arg, subs = ghostly(t[o + 1:match(t, o)])
                            out = []
                            for line in txt:
                                if line.startswith("$sub "):
                                    out += [line[5:].replace("$x", render(a)).replace("$y", render(c)) for a, c in subs]
                                else:
                                    out.append(line.replace("$0", render(arg)))
                            ins.append((x, "\n".join(out).replace("$k", str(k)).replace("$n", str(len(xs)))))
                elif w[0] == "arms":
                    seq = lex(d[5:]) + ["{"]
                    at = find_seq(t, seq)
                    if len(at) != 1:
                        self.lost.append("%s: no `%s`" % (name, " ".join(seq)))
                        continue
                    k = at[0] + len(seq)
                    end = match(t, k - 1)
                    while k < end:
                        while t[k] != "=>":
                            k = match(t, k) + 1 if t[k] in OPEN else k + 1
                        k += 1
                        ins.append((k, "{"))
                        if t[k] == "{":
                            k = match(t, k) + 1
                        else:
                            while k < end and t[k] != ",":
                                k = match(t, k) + 1 if t[k] in OPEN else k + 1
                        ins.append((k, "; " + text + " }"))
                        if k < end and t[k] == ",":
                            k += 1
                elif w[0] == "start":
                    ins.append((b + 1, text))
                elif w[0] in ("before", "after"):
                    seq = lex(d[len(w[0]) + 1:])
                    at = find_seq(t, seq)
                    if not at:
                        self.lost.append("%s: no `%s`" % (name, " ".join(seq)))
                    for x in at:
                        ins.append((x + (len(seq) if w[0] == "after" else 0), text))
                elif w[0] == "ret":
                    r = [k for k in range(b) if t[k] == "->"]
                    if not r:
                        self.lost.append(name + ": no result")
                        continue
                    # the arrow of the function itself is the last one outside of brackets
                    ins.append((r[-1] + 1, "(%s: " % w[1]))
                    ins.append((b, ") "))
            # at the same place in the order given, but the result's bracket first
            order = sorted(range(len(ins)), key=lambda k: (ins[k][0], 0 if ins[k][1] == ") " else 1, k))
            for k in reversed(order):
                t.insert(ins[k][0], (ins[k][1],))
            for d, txt in dirs:
                if d.startswith("parts "):
                    vis = "pub " if "pub" in words else ""
                    return self.parts(t, d[6:], vis, pre, name)
        else:
            pre = ("" if "bare" in words else render(derive)) + pre
        vis = "pub " if "pub" in words else ""
        return pre + "\n" + vis + render(t)

    def parts(self, t, d, vis, pre, name):
        """Copies of a function, in each of which only some arms of a match are left to be proved."""
        n, seq = int(d.split(" ")[0]), lex(d.split(" ", 1)[1]) + ["{"]
        self.copies[len(self.functions) - 1] = n
        at = find_seq(t, seq)
        if len(at) != 1:
            self.lost.append("%s: no `%s`" % (name, " ".join(seq)))
            return pre + "\n" + vis + render(t)
        def close(i):
            d = 0
            for j in range(i, len(t)):
                if not isinstance(t[j], tuple):
                    d += (t[j] in OPEN) - (t[j] in CLOSE)
                    if d == 0:
                        return j
        k = at[0] + len(seq)
        end, starts = close(k - 1), []
        while k < end:
            while t[k] != "=>":
                k = close(k) + 1 if t[k] in OPEN else k + 1
            starts.append(k + 1)
            k += 1
            # to the end of the arm
            while k < end and t[k] != "=>":
                if t[k] in OPEN and not isinstance(t[k], tuple):
                    k = close(k)
                k += 1
            if k >= end:
                break
            # back to where the pattern started is not needed: only the arrow counts
        out, size = [], (len(starts) + n - 1) // n
        for part in range(n):
            u = list(t)
            for j in reversed(range(len(starts))):
                if j // size != part:
                    x = starts[j]
                    # the body of the arm is a block of its own, which `arms` has put there
                    if isinstance(u[x], tuple) and u[x][0] == "{":
                        e, d = x, 0
                        while True:
                            w = u[e][0] if isinstance(u[e], tuple) else u[e]
                            d += (w in OPEN) - (w in CLOSE) if not isinstance(u[e], tuple) else w.count("{") - w.count("}")
                            if d == 0:
                                break
                            e += 1
                        u[x:e + 1] = [("{ proof { assume(false); } }",)]
                    else:
                        raise Lost("parts without arms")
            u[u.index(name)] = name + ("_part%d" % part if part else "")
            out.append(pre + "\n" + vis + render(u))
        return "\n".join(out)

HARD = re.compile(r"precondition not satisfied|postcondition not satisfied|assertion failed|invariant not satisfied|possible arithmetic|possible bit shift|decreases not satisfied|possible division|unreachable|recommendation not met|could not prove termination|assertion not satisfied|constructed value may fail|index out of bounds")

def verus(path, run, timeout, *more):
    t = time.time()
    rc, out = run(["verus", path, "--output-json", "--time", "--rlimit", "60", "--multiple-errors", "4", *more], timeout)
    res = {}
    m = re.search(r"^\{.*^\}", out, re.S | re.M)
    if m:
        try:
            res = json.loads(m.group(0)).get("verification-results", {})
        except ValueError:
            pass
    return rc, out, res, time.time() - t

def decide(units, repo, build, run, thorough=False):
    here = os.path.dirname(os.path.abspath(__file__))
    os.makedirs(build, exist_ok=True)
    os.environ.setdefault("VERIF_EXPAND", os.path.join(build, "expand"))
    ret = []
    for name in units:
        u = Unit(name, here)
        r = {"unit": name, "status": "undecided", "why": "", "obligations": 0, "discharged": 0, "seconds": 0.0, "functions": [], "dropped": [], "assumed": [], "output": ""}
        ret.append(r)
        try:
            text = u.build(repo)
        except (Lost, OSError, IndexError) as e:
            r["why"] = "not found in the source: %s" % e
            continue
        r["functions"], r["dropped"], r["assumed"] = u.functions, u.dropped, u.assumed
        path = os.path.join(build, name + ".rs")
        open(path, "w").write(text)
        rc, out, res, secs = verus(path, run, 300)
        r["seconds"] = round(secs, 2)
        r["output"] = out
        ok, bad = res.get("verified", 0), res.get("errors", 0)
        r["obligations"], r["discharged"] = ok + bad, ok
        errs = [e for e in re.findall(r"^error.*(?:\n\s+-->.*)?", out, re.M) if not e.startswith("error: aborting")]
        if rc == 0 and res.get("success") and bad == 0 and ok > 0:
            # the contract must not be provable from a contradiction
            r["status"] = "proved"
            def false_of(f):
                spath = os.path.join(build, "%s_smoke_%d.rs" % (name, f))
                open(spath, "w").write(Unit(name, here).build(repo, smoke=f))
                # only that function, and those of the same name, again
                got = verus(spath, run, 300, "--verify-root", "--verify-function", "*%s*" % u.names[f])
                if not got[2].get("errors", 0) and not got[2].get("verified", 0):
                    got = verus(spath, run, 300)
                return f, got
            with concurrent.futures.ThreadPoolExecutor(6) as pool:
                for f, (src, sout, sres, ssecs) in pool.map(false_of, smokes(u, thorough)):
                    r["seconds"] = round(r["seconds"] + ssecs, 2)
                    if sres.get("errors", 0) < u.copies.get(f, 1):
                        r["status"], r["why"] = "undecided", "vacuous: false is provable of %s" % u.functions[f]
        elif bad and all(HARD.search(e) for e in errs) and not u.lost and not re.search(r"Resource limit|rlimit\) exceeded", out):
            r["status"] = "failed"
            r["why"] = "; ".join(e.replace("\n", " ") for e in errs)[:600]
        else:
            r["why"] = ("the annotations do not fit any more: %s; " % "; ".join(u.lost) if u.lost else "") + "; ".join(e.replace("\n", " ") for e in errs)[:600]
    return ret

def smokes(u, thorough):
    """Functions with a contract of their own; or all, those with the contract of their trait too."""
    items = [m.group(0) for m in re.finditer(r"//@ item \S+ fn (\w+).*?//@ end", u.text, re.S)]
    return [k for k, m in enumerate(items) if thorough or re.search(r"//@\s+spec", m)]

if __name__ == "__main__":
    import subprocess, sys
    def run(cmd, timeout, **k):
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout)
        return p.returncode, p.stdout + p.stderr
    for r in decide(sys.argv[1:], os.environ.get("VERIF_REPO", "/repo"), "/tmp/vs/build", run, bool(os.environ.get("THOROUGH"))):
        o = r.pop("output")
        print(json.dumps(r, indent=1))
        if r["status"] != "proved":
            print(o[:int(os.environ.get("N", "4000"))])
