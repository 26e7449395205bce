"""Splices the contracts of /verif/contracts into a scratch copy of the real crate.

The code that is verified is the text of /repo/src, byte for byte, except for
  * what the contracts add (requires/ensures/invariants/proof blocks/ghost code),
  * the name given to a returned value in a signature,
  * the rewrites listed in the contract files as `@replace ... @with ...`: token
    patterns which have to match exactly the stated number of times.
A function whose anchor is lost is reported as such and is not verified.
"""
import os
import re
import shutil
from rustlex import lex, match_table, items, pattern_find, lex_pattern, LexError, OPEN


class FnContract:
    def __init__(self, name, props, mode):
        self.name, self.props, self.mode = name, props, mode
        self.ret, self.spec, self.loops, self.proofs, self.replaces = None, "", [], [], []
        self.attrs, self.dup_as, self.free, self.priv, self.sup = "", None, False, False, False
        self.closures = []
        self.vc = None


class FileContract:
    def __init__(self, path):
        self.path, self.types, self.append, self.fns, self.prelude = path, [], [], [], ""
        self.noiter = False


def parse_vc(path, files):
    cur_file = cur = None
    sink = None
    buf = []

    def flush():
        nonlocal sink, buf
        if sink:
            sink("".join(buf))
        sink, buf = None, []

    pend_pat = None
    for ln, line in enumerate(open(path), 1):
        if not line.startswith("@"):
            if line.startswith("@@"):
                line = line[1:]
            buf.append(line)
            continue
        flush()
        w = line[1:].split()
        d = w[0]
        if d == "file":
            cur_file = files.setdefault(w[1], FileContract(w[1]))
            cur = None
        elif d == "type":
            cur_file.types.append((w[1], " ".join(w[2:])))
        elif d == "append":
            sink = cur_file.append.append
        elif d in ("fn", "trusted", "dup"):
            kv = dict(x.split("=", 1) for x in w[2:] if "=" in x)
            cur = FnContract(w[1], set(filter(None, kv.get("props", "").split(","))), "trusted" if d == "trusted" else "verify")
            cur.dup_as = kv.get("as")
            cur.free = "free" in w
            cur.priv, cur.sup = "priv" in w, "super" in w
            cur.vc = "%s:%d" % (os.path.basename(path), ln)
            cur_file.fns.append(cur)
        elif d == "ret":
            cur.ret = w[1]
        elif d == "attrs":
            cur.attrs = line[1:].split(None, 1)[1].strip()
        elif d == "spec":
            c = cur

            def f(t, c=c):
                c.spec = t

            sink = f
        elif d == "loop":
            c, n, nm = cur, int(w[1]), (w[2] if len(w) > 2 else None)

            def f(t, c=c, n=n, nm=nm):
                c.loops.append((n, nm, t))

            sink = f
        elif d == "closure":
            c, n = cur, int(w[1])

            def f(t, c=c, n=n):
                c.closures.append((n, t.strip()))

            sink = f
        elif d == "proof":
            c, place = cur, w[1:]

            def f(t, c=c, place=place):
                c.proofs.append((place, t))

            sink = f
        elif d == "replace":
            n = (None if w[1] == "any" else int(w[1])) if len(w) > 1 else 1

            def f(t, n=n):
                nonlocal pend_pat
                pend_pat = (t.strip(), n)

            sink = f
        elif d == "with":
            c = cur

            def f(t, c=c):
                c.replaces.append((pend_pat[0], t.rstrip("\n"), pend_pat[1]))

            sink = f
        elif d == "noiter":
            cur_file.noiter = True
        elif d in ("end", "note"):
            pass
        else:
            raise SystemExit("%s:%d: unknown directive %s" % (path, ln, d))
    flush()
    return files


class Lost(Exception):
    pass


def apply_replaces(text, reps, used):
    for pat, rep, n in reps:
        toks = lex(text)
        tab = match_table(toks)
        p = lex_pattern(pat)
        ms = pattern_find(toks, tab, 0, len(toks), p)
        if n is not None and len(ms) != n:
            raise Lost("rewrite pattern found %d times instead of %d: %s" % (len(ms), n, " ".join(pat.split())[:100]))
        for a, b, env in reversed(ms):
            r = rep

            def sub(m):
                k = "$" + m.group(1)
                if k not in env:
                    k = "$" + k
                if k not in env:
                    raise Lost("unbound " + k)
                i, j = env[k]
                return text[toks[i].a : toks[j - 1].b] if j > i else ""

            r = re.sub(r"\$(\w+)", sub, r)
            text = text[: toks[a].a] + r + text[toks[b - 1].b :]
        if ms:
            used.append((pat, rep))
    return text


# Macros of the standard library which end in a panic: reaching one is what has to be excluded.
BUILTIN = [
    ("panic ! ( $x )", "vstd::pervasive::unreached()"),
    ("unreachable ! ( $x )", "vstd::pervasive::unreached()"),
    ("unreachable ! ( )", "vstd::pervasive::unreached()"),
    ("panic ! ( )", "vstd::pervasive::unreached()"),
]
ASSERTS = {"assert_eq": "==", "debug_assert_eq": "==", "assert_ne": "!=", "debug_assert_ne": "!=", "debug_assert": None, "assert": None}


def apply_builtin(text, used):
    for pat, rep in BUILTIN:
        while True:
            toks = lex(text)
            tab = match_table(toks)
            ms = pattern_find(toks, tab, 0, len(toks), lex_pattern(pat))
            if not ms:
                break
            a, b, _ = ms[-1]
            text = text[: toks[a].a] + rep + text[toks[b - 1].b :]
            used.append((pat, rep))
    while True:
        toks = lex(text)
        tab = match_table(toks)
        for k in range(len(toks) - 2):
            if toks[k].s in ASSERTS and toks[k + 1].s == "!" and toks[k + 2].s == "(":
                e = tab[k + 2]
                # split the arguments at top level commas
                args, st, x = [], k + 3, k + 3
                while x < e:
                    if toks[x].s == ",":
                        args.append((st, x))
                        st = x + 1
                    x = tab[x] + 1 if toks[x].s in OPEN else x + 1
                if st < e:
                    args.append((st, e))
                txt = [text[toks[i].a : toks[j - 1].b] for i, j in args]
                op = ASSERTS[toks[k].s]
                rep = "crate::v_assert(%s)" % (txt[0] if op is None else "(%s) %s (%s)" % (txt[0], op, txt[1]))
                used.append((toks[k].s + " ! ( .. )", "crate::v_assert(..)"))
                text = text[: toks[k].a] + rep + text[toks[e].b :]
                break
        else:
            return text


def fn_parts(toks, tab):
    """indices: after params, arrow or None, type end, body open, for a function text"""
    k = 0
    while toks[k].s == "#":
        k = tab[k + 1] + 1
    while toks[k].s != "fn":
        k += 1
    k += 2
    from rustlex import skip_generics

    if toks[k].s == "<":
        k = skip_generics(toks, k)
    if toks[k].s != "(":
        raise Lost("signature")
    k = tab[k] + 1
    arrow = None
    if toks[k].s == "->":
        arrow = k
        k += 1
        while toks[k].s not in ("where", "{", ";"):
            if toks[k].s == "<":
                k = skip_generics(toks, k)
            elif toks[k].s in OPEN:
                k = tab[k] + 1
            else:
                k += 1
    tend = k
    while toks[k].s != "{":
        if toks[k].s == "<":
            k = skip_generics(toks, k)
        elif toks[k].s in OPEN:
            k = tab[k] + 1
        else:
            k += 1
    return arrow, tend, k


def loops_of(toks, tab, i, j):
    out = []
    k = i
    while k < j:
        t = toks[k]
        if t.k == "id" and t.s in ("for", "while", "loop") and not (t.s == "for" and toks[k + 1].s == "<"):
            b = k + 1
            inn = None
            while toks[b].s != "{":
                if toks[b].s == "in" and inn is None:
                    inn = b
                b = tab[b] + 1 if toks[b].s in ("(", "[") else b + 1
            # a loop which came with a rewrite has its invariants already
            if not any(toks[x].s in ("invariant", "decreases", "invariant_except_break") for x in range(k, b)):
                out.append((k, inn, b, tab[b]))
        k += 1
    return out


def closures_of(toks, tab, i, j):
    """(first bar, params, body start, body end) of the closures, in order"""
    out = []
    k = i
    while k < j:
        t = toks[k]
        if t.s in ("|", "||") and toks[k - 1].s in ("(", ",", "=", "{", ";", "=>", "move", "return"):
            if t.s == "||":
                b, params = k + 1, []
            else:
                params, st, x = [], k + 1, k + 1
                while toks[x].s != "|":
                    if toks[x].s == ",":
                        params.append((st, x))
                        st = x + 1
                    x = tab[x] + 1 if toks[x].s in OPEN else x + 1
                if st < x:
                    params.append((st, x))
                b = x + 1
            if toks[b].s == "->":
                pass
            e = b
            while e < j and toks[e].s not in (",", ";", ")", "]", "}"):
                e = tab[e] + 1 if toks[e].s in OPEN else e + 1
                if toks[e - 1].s == "}" and tab[e - 1] == b:
                    break
            out.append((k, params, b, e))
        k += 1
    return out


def apply_closures(text, cs, used):
    if not cs:
        return text
    toks = lex(text)
    tab = match_table(toks)
    _, _, body = fn_parts(toks, tab)
    found = closures_of(toks, tab, body, tab[body])
    edits = []
    for n, t in cs:
        if n >= len(found):
            raise Lost("closure %d is missing" % n)
        k, params, b, e = found[n]
        for q, (x, y) in enumerate(params):
            # a type given in the code goes away, the contract gives it
            z = x
            while z < y and toks[z].s != ":":
                z = tab[z] + 1 if toks[z].s in OPEN else z + 1
            t = t.replace("$%d" % (q + 1), text[toks[x].a : toks[min(z, y) - 1].b])
        if "$" in t:
            raise Lost("closure %d has other parameters" % n)
        bt = text[toks[b].a : toks[e - 1].b]
        if toks[b].s != "{" or tab[b] != e - 1:
            bt = "{ " + bt + " }"
        edits.append((toks[k].a, toks[e - 1].b, t + " " + bt))
    if len(found) != len(cs):
        raise Lost("%d closures where the contract knows %d" % (len(found), len(cs)))
    for a, b, t in sorted(edits, reverse=True):
        text = text[:a] + t + text[b:]
    return text


def apply_mut_self(text, used):
    """`mut self` is not known to the verifier: the same with a local variable"""
    toks = lex(text)
    tab = match_table(toks)
    _, _, body = fn_parts(toks, tab)
    for k in range(body - 1):
        if toks[k].s == "mut" and toks[k + 1].s == "self" and toks[k - 1].s in ("(", ","):
            break
    else:
        return text
    out = text[: toks[k].a] + text[toks[k + 1].a : toks[body].b] + " let mut v_self = self;"
    p = toks[body].b
    for t in toks[body + 1 :]:
        if t.s == "self":
            out += text[p : t.a] + "v_self"
            p = t.b
    used.append(("mut self", "self, with let mut v_self = self"))
    return out + text[p:]


def build_fn(text, c, probe=False, demote=False, hollow=False):
    """text of one function (attributes included) with its contract spliced in"""
    used = []
    mode = c.mode
    if demote:
        mode = "demoted"
    if mode == "verify":
        text = apply_replaces(text, c.replaces, used)
        text = apply_closures(text, c.closures, used)
        text = apply_builtin(text, used)
    elif mode == "demoted":
        # the body stays as it is, rewrites of the signature are kept
        toks = lex(text)
        tab = match_table(toks)
        _, _, body = fn_parts(toks, tab)
        cut = toks[body].a
        sig, rest = text[:cut], text[cut:]
        for rep in c.replaces:
            try:
                sig = apply_replaces(sig, [rep], used)
            except (Lost, LexError):
                pass
        # ... unless it does not even compile next to the annotated code
        text = sig + ("{ unimplemented!() }" if hollow else rest)
    if mode in ("verify", "demoted", "trusted"):
        text = apply_mut_self(text, used)
    toks = lex(text)
    tab = match_table(toks)
    arrow, tend, body = fn_parts(toks, tab)
    ins = []  # (pos, order, text)
    if c.ret:
        if arrow is None:
            raise Lost("no returned value")
        ins.append((toks[arrow + 1].a, 0, "(%s: " % c.ret))
        ins.append((toks[tend - 1].b, 0, ")"))
    if c.dup_as:
        k = next(i for i, t in enumerate(toks) if t.s == "fn")
        ins.append((toks[k + 1].b, 0, "\0DUP"))
        if not c.free and not c.priv and not any(t.s == "pub" for t in toks[:k]):
            ins.append((toks[k].a, 0, "pub(super) " if c.sup else "pub(crate) "))
    spec = c.spec
    if spec.strip():
        ins.append((toks[body].a, 1, "\n" + spec.rstrip() + "\n"))
    if mode == "verify":
        lps = loops_of(toks, tab, body, tab[body])
        for n, nm, inv in c.loops:
            if n >= len(lps):
                raise Lost("loop %d is missing" % n)
            k, inn, b, e = lps[n]
            if nm:
                if inn is None:
                    raise Lost("loop %d is not a for loop" % n)
                ins.append((toks[inn].b, 0, " %s:" % nm))
            ins.append((toks[b].a, 1, "\n" + inv.rstrip() + "\n"))
        if len(lps) != len({n for n, _, _ in c.loops}):
            raise Lost("%d loops where the contract knows %d" % (len(lps), len(c.loops)))
        for place, ptxt in c.proofs:
            ptxt = "\n" + ptxt.rstrip() + "\n"
            if place[0] == "start":
                ins.append((toks[body].b, 1, ptxt))
            elif place[0] == "end":
                ins.append((toks[tab[body]].a, 0, ptxt))
            elif place[0] == "loop":
                if int(place[1]) >= len(lps):
                    raise Lost("loop " + place[1])
                k, inn, b, e = lps[int(place[1])]
                if place[2] == "start":
                    ins.append((toks[b].b, 1, ptxt))
                elif place[2] == "end":
                    ins.append((toks[e].a, 0, ptxt))
                elif place[2] == "before":
                    # before a label, if any
                    p = k
                    if p >= 2 and toks[p - 1].s == ":" and toks[p - 2].k == "life":
                        p -= 2
                    ins.append((toks[p].a, 0, ptxt))
                elif place[2] == "after":
                    ins.append((toks[e].b, 1, ptxt))
            elif place[0] in ("before", "after", "in"):
                pat = lex_pattern(" ".join(place[1:]))
                ms = pattern_find(toks, tab, body, tab[body], pat)
                if len(ms) != 1:
                    raise Lost("proof anchor found %d times: %s" % (len(ms), " ".join(place[1:])))
                if place[0] == "before":
                    ins.append((toks[ms[0][0]].a, 0, ptxt))
                else:
                    ins.append((toks[ms[0][1] - 1].b, 1, ptxt))
        if probe:
            ins.append((toks[body].b, 2, "\n/*PROBE*/ assert(false);\n"))
    ins.sort(key=lambda x: (x[0], x[1]))
    out, p = [], 0
    for pos, _, t in ins:
        out.append(text[p:pos])
        if t == "\0DUP":
            # replace the name: the identifier just emitted
            s = out[-1]
            s = re.sub(r"\w+$", c.dup_as, s)
            out[-1] = s
        else:
            out.append(t)
        p = pos
    out.append(text[p:])
    text = "".join(out)
    attrs = c.attrs
    if mode in ("trusted", "demoted"):
        attrs = (attrs + "\n" if attrs else "") + "#[verifier::external_body]"
    if attrs:
        text = attrs + "\n" + text
    return text, used


def find_items(toks, tab):
    out = {}

    def walk(its, prefix, chain):
        counts = {}
        for it in its:
            if it.kind in ("mod",) and it.name in ("tests", "test"):
                continue
            if it.kind == "mod":
                walk(it.children, prefix + it.name + "::", chain + [it])
            elif it.kind in ("impl", "trait"):
                n = counts.get(it.name, 0)
                counts[it.name] = n + 1
                nm = it.name if n == 0 or "@" not in it.name else "%s#%d" % (it.name, n)
                for ch in it.children:
                    if ch.name:
                        out.setdefault(prefix + nm + "::" + ch.name, (ch, it))
            elif it.name:
                out.setdefault(prefix + it.name, (it, None))

    walk(items(toks, tab, 0, len(toks)), "", [])
    return out


def doc_start(src, a):
    """start of the comment lines directly above the item at `a`"""
    while True:
        n = src.rfind("\n", 0, a)
        if n < 0 or src[n + 1 : a].strip():
            return a
        prev = src.rfind("\n", 0, n) + 1
        if src[prev:n].strip().startswith("//"):
            a = prev + len(src[prev:n]) - len(src[prev:n].lstrip())
        else:
            return a


def splice_file(path, src, fc, demoted, probe, info, hollow=()):
    """returns the new text of the file"""
    toks = lex(src)
    tab = match_table(toks)
    idx = find_items(toks, tab)
    edits = []  # (a, b, text)
    marks = info["functions"]

    def span(it):
        return toks[it.i].a, toks[it.j - 1].b

    for name, attrs in fc.types:
        if name not in idx:
            info["lost"].append({"fn": "type " + name, "file": path, "why": "not found", "props": []})
            continue
        it, _ = idx[name]
        if attrs.startswith("wrap"):
            a, b = span(it)
            edits.append((a, b, "verus! { %s %s }" % (attrs[4:], src[a:b])))
            continue
        edits.append((toks[it.i].a, toks[it.i].a, "#[vstd::prelude::verus_verify]%s " % attrs))
    trait_impls = {}
    for c in fc.fns:
        key = "%s::%s" % (path, re.sub(r"\w+$", c.dup_as, c.name) if c.dup_as else c.name)
        rec = {"fn": key, "file": path, "mode": c.mode, "props": sorted(c.props), "rewrites": [], "vc": c.vc}
        if c.name not in idx:
            info["lost"].append(dict(rec, why="function not found"))
            continue
        it, imp = idx[c.name]
        a, b = span(it)
        text = src[a:b]
        try:
            try:
                new, used = build_fn(text, c, probe, demote=key in demoted, hollow=key in hollow)
            except (Lost, LexError, IndexError) as e:
                info["lost"].append(dict(rec, why=str(e)))
                if c.dup_as:
                    continue
                new, used = build_fn(text, c, probe, demote=True, hollow=key in hollow)
                rec["mode"] = "demoted"
        except (Lost, LexError, IndexError) as e:
            continue
        if key in demoted:
            rec["mode"] = "demoted"
        rec["rewrites"] = [{"pattern": p, "replacement": r} for p, r in used]
        rec["src_line"] = src.count("\n", 0, a) + 1
        rec["has_requires"] = bool(re.search(r"\brequires\b", c.spec))
        marks.append(rec)
        new = "/*VF:%s*/ %s /*VE:%s*/" % (key, new, key)
        if c.dup_as:
            # an inherent copy of a trait function: generics of the impl are kept
            head = src[toks[imp.head[0]].a : toks[imp.body[0]].a]
            ht = lex(head)
            k = 1
            from rustlex import skip_generics

            if ht[1].s == "<":
                k = skip_generics(ht, 1)
            fr = k
            while ht[fr].s != "for":
                fr = skip_generics(ht, fr) if ht[fr].s == "<" else fr + 1
            gen = ""
            if k > 1 and not c.free:
                # parameters only the trait uses go to the function
                names = {t.s for t in ht[fr + 1 :]}
                parts, depth, cur = [], 0, []
                for t in ht[2 : k - 1]:
                    depth += {"<": 1, "(": 1, "[": 1, ">": -1, ")": -1, "]": -1}.get(t.s, 0)
                    if t.s == "," and depth == 0:
                        parts.append(cur)
                        cur = []
                    else:
                        cur.append(t)
                if cur:
                    parts.append(cur)
                keep = [q for q in parts if next(t.s for t in q if t.s != "const") in names]
                move = [q for q in parts if q not in keep]
                if move:
                    txt = lambda qs: ", ".join(head[q[0].a : q[-1].b] for q in qs)
                    head2 = "impl%s " % ("<%s>" % txt(keep) if keep else "")
                    gen = "<%s>" % txt(move)
                    new = re.sub(r"(\bfn\s+%s\s*)\(" % re.escape(c.dup_as), lambda m: m.group(1) + gen + "(", new, count=1)
            head = (head2 + head[ht[fr].b :]) if gen else head[: ht[k].a] + head[ht[fr].b :]
            new = "\nvstd::prelude::verus! {\n%s{\n%s\n}\n}\n" % (head, new) if not c.free else "\nvstd::prelude::verus! {\n%s\n}\n" % new
            e = toks[imp.j - 1].b
            edits.append((e, e, new))
        elif imp is None:
            edits.append((a, b, "verus! {\n%s\n}\n" % new))
        elif "@" in imp.name:
            trait_impls.setdefault(id(imp), (imp, []))[1].append((it, a, b, new))
        else:
            head = src[toks[imp.head[0]].a : toks[imp.body[0]].a]
            edits.append((doc_start(src, a), b, ""))
            e = toks[imp.j - 1].b
            edits.append((e, e, "\nverus! {\n%s{\n%s\n}\n}\n" % (head, new)))
    for imp, fs in trait_impls.values():
        ia, ib = toks[imp.i].a, toks[imp.j - 1].b
        sub = []
        done = {id(f[0]) for f in fs}
        for it, a, b, new in fs:
            sub.append((a, b, new))
        for ch in imp.children:
            if ch.kind == "fn" and id(ch) not in done:
                a = toks[ch.i].a
                sub.append((a, a, "#[verifier::external_body] "))
        t, p = [], ia
        for a, b, new in sorted(sub):
            t.append(src[p:a])
            t.append(new)
            p = b
        t.append(src[p:ib])
        edits.append((ia, ib, "vstd::prelude::verus! {\n%s\n}\n" % "".join(t)))
    out, p = [], 0
    for n, (a, b, new) in sorted(enumerate(edits), key=lambda x: (x[1][0], x[1][1], x[0])):
        if a < p:
            raise Lost("overlapping edits")
        out.append(src[p:a])
        out.append(new)
        p = b
    out.append(src[p:])
    text = "".join(out)
    text += "\n#[allow(unused_imports)] use vstd::prelude::*;\n"
    if not fc.noiter:
        text += "#[allow(unused_imports)] use vstd::std_specs::iter::IteratorSpec;\n"
    for t in fc.append:
        text += t
    return text


def splice(repo_src, out_dir, vc_dir, demoted=(), probe=False, hollow=()):
    files = {}
    for f in sorted(os.listdir(vc_dir)):
        if f.endswith(".vc"):
            parse_vc(os.path.join(vc_dir, f), files)
    shutil.rmtree(out_dir, ignore_errors=True)
    shutil.copytree(repo_src, out_dir)
    info = {"functions": [], "lost": []}
    for rel, fc in files.items():
        p = os.path.join(out_dir, os.path.relpath(rel, "src"))
        if not os.path.exists(p):
            for c in fc.fns:
                info["lost"].append({"fn": "%s::%s" % (rel, c.name), "file": rel, "why": "file is missing", "props": sorted(c.props), "mode": c.mode})
            continue
        src = open(p).read()
        try:
            text = splice_file(rel, src, fc, demoted, probe, info, hollow)
        except LexError as e:
            info["lost"].append({"fn": rel, "file": rel, "why": "cannot read: %s" % e, "props": sorted({x for c in fc.fns for x in c.props}), "mode": "verify"})
            continue
        open(p, "w").write(text)
    # line ranges in the emitted files
    for rel in files:
        p = os.path.join(out_dir, os.path.relpath(rel, "src"))
        if not os.path.exists(p):
            continue
        start = {}
        for n, line in enumerate(open(p), 1):
            for m in re.finditer(r"/\*V([FE]):(.*?)\*/", line):
                if m.group(1) == "F":
                    start[m.group(2)] = n
                else:
                    for r in info["functions"]:
                        if r["fn"] == m.group(2):
                            r["out"] = [start[m.group(2)], n]
    return info, files
