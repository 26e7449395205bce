"""A small Rust lexer and item finder: enough to cut items out of a source file
without changing a byte of them."""
import re

TOKEN = re.compile(
    r"""(?P<ws>\s+)
|(?P<lc>//[^\n]*)
|(?P<bc>/\*)
|(?P<raw>b?r(?P<h>\#*)")
|(?P<str>b?"(?:\\.|[^"\\])*")
|(?P<chr>b?'(?:\\(?:x[0-9a-fA-F]{2}|u\{[^}]*\}|.)|[^'\\])')
|(?P<life>'[A-Za-z_]\w*)
|(?P<id>(?:r\#)?[A-Za-z_]\w*)
|(?P<num>\d(?:[\w]|\.(?=\d))*)
|(?P<op>\.\.=|\.\.\.|<<=|>>=|::|->|=>|\.\.|&&|\|\||==|!=|<=|>=|\+=|-=|\*=|/=|%=|\^=|&=|\|=|[^\s\w])
""",
    re.X | re.S,
)


class Tok:
    __slots__ = ("k", "s", "a", "b")

    def __init__(self, k, s, a, b):
        self.k, self.s, self.a, self.b = k, s, a, b

    def __repr__(self):
        return "%s@%d" % (self.s, self.a)


class LexError(Exception):
    pass


def lex(src):
    """All tokens except white space and comments"""
    out, i, n = [], 0, len(src)
    while i < n:
        m = TOKEN.match(src, i)
        if not m:
            raise LexError("cannot read %r" % src[i : i + 20])
        k = m.lastgroup
        if m.group("h") is not None and m.group("raw"):
            k = "raw"
        end = m.end()
        if k == "bc":
            depth, j = 1, end
            while depth:
                a, b = src.find("/*", j), src.find("*/", j)
                if b < 0:
                    raise LexError("open comment")
                if 0 <= a < b:
                    depth, j = depth + 1, a + 2
                else:
                    depth, j = depth - 1, b + 2
            i = j
            continue
        if k == "raw":
            close = '"' + m.group("h")
            j = src.find(close, end)
            if j < 0:
                raise LexError("open raw string")
            end = j + len(close)
            out.append(Tok("str", src[i:end], i, end))
        elif k not in ("ws", "lc"):
            out.append(Tok(k, src[i:end], i, end))
        i = end
    return out


OPEN = {"(": ")", "[": "]", "{": "}"}
CLOSE = {v: k for k, v in OPEN.items()}


def match_table(toks):
    """index of the matching bracket for each bracket token"""
    st, tab = [], {}
    for i, t in enumerate(toks):
        if t.k != "op":
            continue
        if t.s in OPEN:
            st.append(i)
        elif t.s in CLOSE:
            if not st or OPEN[toks[st[-1]].s] != t.s:
                raise LexError("unbalanced %s at %d" % (t.s, t.a))
            j = st.pop()
            tab[i], tab[j] = j, i
    if st:
        raise LexError("unbalanced")
    return tab


def skip_generics(toks, i):
    """i at '<': index after the matching '>' ('->' is one token, so it does not count)"""
    depth = 0
    while True:
        s = toks[i].s
        if s == "<":
            depth += 1
        elif s == "<<=":
            raise LexError("generics")
        elif s == ">":
            depth -= 1
        elif s == ">=":
            depth -= 1
        i += 1
        if depth == 0:
            return i


class Item:
    """kind, name, tok range [i, j), body token range for impl/mod/fn"""

    def __init__(self, kind, name, i, j, body=None, head=None, start_attr=None):
        self.kind, self.name, self.i, self.j = kind, name, i, j
        self.body, self.head = body, head
        self.attr_i = start_attr
        self.children = []


KW = {"fn", "struct", "enum", "impl", "mod", "trait", "use", "const", "static", "type", "extern", "macro_rules", "union"}
QUAL = {"pub", "unsafe", "async", "default"}


def last_ident(toks, i, j):
    """last path identifier of a type, ignoring generics: `crate::x::Foo<'a>` -> Foo"""
    name, k = None, i
    while k < j:
        t = toks[k]
        if t.s == "<":
            k = skip_generics(toks, k)
            continue
        if t.s == "where":
            break
        if t.k == "id" and t.s not in ("dyn", "mut", "impl"):
            name = t.s
        k += 1
    return name


def items(toks, tab, i, j):
    """items of the token range"""
    out = []
    while i < j:
        start = i
        # attributes
        while i < j and toks[i].s == "#":
            i += 1
            if toks[i].s == "!":
                i += 1
            i = tab[i] + 1
            if i < j and toks[i - 1].s == "]" and start == i:
                pass
        attr_end = i
        if i >= j:
            break
        # qualifiers
        while i < j and (toks[i].s in QUAL or (toks[i].s == "const" and toks[i + 1].s in ("fn", "unsafe"))
                         or (toks[i].s == "extern" and toks[i + 1].k == "str" and toks[i + 2].s == "fn")):
            if toks[i].s == "extern":
                i += 2
                continue
            i += 1
            if i < j and toks[i].s == "(" and toks[i - 1].s == "pub":
                i = tab[i] + 1
        kw = toks[i].s if i < j else ""
        k = i
        # find end of the item
        while k < j:
            s = toks[k].s
            if s == ";":
                k += 1
                break
            if s in ("(", "["):
                k = tab[k] + 1
                continue
            if s == "{":
                e = tab[k] + 1
                if kw in ("use", "const", "static", "type"):
                    k = e
                    continue
                k = e
                break
            k += 1
        end = k
        it = None
        if kw == "impl":
            p = i + 1
            if toks[p].s == "<":
                p = skip_generics(toks, p)
            b = p
            fr = None
            while toks[b].s != "{":
                if toks[b].s == "for" and toks[b + 1].s != "<":
                    fr = b
                if toks[b].s == "<":
                    b = skip_generics(toks, b)
                    continue
                if toks[b].s == "where":
                    break
                b += 1
            hb = b
            while toks[b].s != "{":
                b = skip_generics(toks, b) if toks[b].s == "<" else (tab[b] + 1 if toks[b].s in "([" else b + 1)
            if fr is None:
                name = last_ident(toks, p, hb)
            else:
                name = "%s@%s" % (last_ident(toks, p, fr), last_ident(toks, fr + 1, hb))
            it = Item("impl", name, start, end, body=(b, tab[b]), head=(i, b), start_attr=attr_end)
            it.children = items(toks, tab, b + 1, tab[b])
        elif kw in ("fn", "struct", "enum", "mod", "trait", "union"):
            name = toks[i + 1].s
            body = None
            if toks[end - 1].s == "}":
                body = (tab[end - 1], end - 1)
            it = Item(kw, name, start, end, body=body, head=(i, end), start_attr=attr_end)
            if kw in ("mod", "trait") and body:
                it.children = items(toks, tab, body[0] + 1, body[1])
        elif kw == "const":
            it = Item(kw, toks[i + 1].s, start, end, start_attr=attr_end)
        else:
            it = Item(kw or "other", None, start, end, start_attr=attr_end)
        out.append(it)
        i = end
    return out


def pattern_find(toks, tab, i, j, pat):
    """All matches of the token pattern (list of strings; `$name` matches a non-empty,
    balanced run, as short as possible; the same name has to match the same text)."""

    def same(a, b):
        return [t.s for t in toks[a[0] : a[1]]] == [t.s for t in toks[b[0] : b[1]]]

    def go(p, k, env):
        if p == len(pat):
            return k, env
        x = pat[p]
        if x.startswith("$"):
            e = k
            while e < j:
                s = toks[e].s
                if s in CLOSE:
                    break
                if s in ";" and e > k and not x.startswith("$$"):
                    break
                e = tab[e] + 1 if s in OPEN else e + 1
                if x in env:
                    if not same(env[x], (k, e)):
                        continue
                    r = go(p + 1, e, env)
                else:
                    r = go(p + 1, e, dict(env, **{x: (k, e)}))
                if r:
                    return r
            return None
        if k < j and toks[k].s == x:
            return go(p + 1, k + 1, env)
        return None

    res, k = [], i
    while k < j:
        r = go(0, k, {})
        if r and r[0] > k:
            res.append((k, r[0], r[1]))
            k = r[0]
        else:
            k += 1
    return res


def lex_pattern(text):
    out = []
    ts = lex(text)
    k = 0
    while k < len(ts):
        if ts[k].s == "$":
            if ts[k + 1].s == "$":
                out.append("$$" + ts[k + 2].s)
                k += 3
            else:
                out.append("$" + ts[k + 1].s)
                k += 2
        else:
            out.append(ts[k].s)
            k += 1
    return out
