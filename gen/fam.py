"""Families of cases, one group per property.  A family is a function
(seed, n) -> list of cases; n scales its size.  FAMS maps a property to its
families with their quick and thorough sizes; MC maps it to the cases whose
complete behaviours are enumerated both by TLC and on the real code."""
import copy, itertools, random
from . import lang, msg, case, rand

T = {"t": "true"}
F = {"t": "false"}


def lit(v):
    return {"k": "lit", "v": {"t": "i", "v": v} if isinstance(v, int) else {"t": "f", "v": str(v)} if isinstance(v, float) else {"t": "s", "v": v}}


def var(n):
    return {"k": "var", "p": ("v", n)}


def op(o, l, r):
    return {"k": "bin", "op": o, "l": l, "r": r}


def st(n, v, **k):
    return dict({"c": "set", "name": n, "v": v}, **k)


def note(tag):
    """appends a tag to the global trace variable"""
    return st("global.t", [("g", "t"), tag])


def iff(t, b, el=None):
    c = {"c": "if", "br": [{"t": t, "b": b}]}
    if el is not None:
        c["el"] = el
    return c


def ask(n):
    return {"t": "mailboxexists", "names": [n]}


def mk(cid, cmds, inc=None, rng=None, style=0, message=None, rt=None, ctx=None, **kw):
    main = lang.emit(rand.flatten(cmds), rng, style)
    incs = [(l, n, lang.emit(rand.flatten(b), rng, style)) for l, n, b in inc or []]
    return case.Case(cid, main, incs, message, rt, ctx, **kw)


def prof(**k):
    """profile: dict values are merged into the default weights"""
    p = {}
    for a, b in k.items():
        if isinstance(b, dict) and isinstance(rand.DEFAULT.get(a), dict) and not b.pop("__only", False):
            d = dict(rand.DEFAULT[a])
            d.update(b)
            p[a] = d
        else:
            p[a] = b
    return p


def rnd(name, **k):
    p = prof(**k)

    def f(seed, n):
        return [rand.G(seed * 1000003 + i, p).case("%s-%d-%d" % (name, seed, i)) for i in range(n)]
    f.__name__ = name
    return f


def only(**k):
    return dict(k, __only=True)


QUERIES = {"duplicate": 2, "mailboxexists": 3, "mailboxidexists": 1, "specialuse_exists": 2, "metadata": 1, "metadataexists": 1,
           "validextlist": 1}

# ------------------------------------------------------------------ P01
ENDERS = [("keep", {"c": "keep"}), ("keepf", {"c": "keep", "flags": ["\\Seen", "x"]}), ("discard", {"c": "discard"}),
          ("file", {"c": "fileinto", "folder": "A"}), ("filec", {"c": "fileinto", "folder": "B", "copy": True}),
          ("filef", {"c": "fileinto", "folder": "C", "flags": ["y"]}),
          ("redir", {"c": "redirect", "addr": "a@b.com"}), ("redirc", {"c": "redirect", "addr": "a@b.com", "copy": True}),
          ("redirbad", {"c": "redirect", "addr": "nobody"}), ("redirme", {"c": "redirect", "addr": "Me@example.com"}),
          ("redirl", {"c": "redirect", "addr": "urn:x@list.org", "list": True}),
          ("reject", {"c": "reject", "ext": False, "reason": "no"}), ("ereject", {"c": "reject", "ext": True, "reason": "no"}),
          ("stop", {"c": "stop"}), ("error", {"c": "error", "msg": "boom"}), ("ret", {"c": "return"}),
          ("setflag", {"c": "setflag", "flags": ["z", "w"]}), ("addh", {"c": "addheader", "n": "X-New", "v": "1"}),
          ("incstop", {"c": "include", "name": "stopper"}), ("incdisc", {"c": "include", "name": "discarder"}),
          ("incgone", {"c": "include", "name": "gone"}), ("incerr", {"c": "include", "name": "failer"}),
          ("unk", {"c": "invalid", "src": "frobnicate \"x\";", "name": "frobnicate"}),
          ("increc", {"c": "include", "name": "rec"})]
END_INCS = [("personal", "stopper", [{"c": "stop"}]), ("personal", "discarder", [{"c": "discard"}, {"c": "return"}]),
            ("personal", "failer", [{"c": "addheader", "n": "X-Z", "v": "q"}, {"c": "error", "msg": "inner"}]),
            ("personal", "rec", [{"c": "include", "name": "rec"}])]


def endings(seed, n):
    """short sequences of actions that touch the final disposition; n limits the sample of length 3 and 4"""
    r = random.Random(seed)
    out = []
    seqs = [list(x) for k in (0, 1, 2) for x in itertools.product(range(len(ENDERS)), repeat=k)]
    r.shuffle(seqs)
    seqs = seqs[:n] if n < len(seqs) else seqs + [[r.randrange(len(ENDERS)) for _ in range(r.choice([3, 4, 5]))] for _ in range(n - len(seqs))]
    for i, s in enumerate(seqs):
        cm = [dict(ENDERS[j][1]) for j in s]
        if r.random() < .35:
            cm.insert(r.randint(0, len(cm)), {"c": r.choice(["setflag", "setflag", "addflag", "removeflag"]), "flags": None})
        for c in cm:
            if "flags" in c:
                c["flags"] = r.choice([["q"], ["q"], ["a", "b"], [""], ["a b"], ["\\Seen", "x", "z"], ["z"]])
        k = r.random()
        if k < .2 and cm:
            cm = [iff(ask("Q"), cm[:1], cm[1:] or None)] + cm[1:]
        elif k < .3 and len(cm) > 1:
            cm = [{"c": "fep", "b": cm, "label": ""}]
        rt = {"max_redirects": r.choice([1, 1, 2]), "max_out_messages": r.choice([1, 3])}
        if r.random() < .25:
            rt["cpu_limit"] = r.randint(0, 8)
        if any(ENDERS[j][0] == "unk" for j in s):
            rt["caps"] = sorted(lang.EXTRA_CAPS)
        out.append(mk("end-%d-%d" % (seed, i), cm, END_INCS, rt=rt, ctx={"user": "me@example.com"}, dfs=2))
    return out


# ------------------------------------------------------------------ P02
def budgets(seed, n):
    """the same script under every budget from nothing to more than it needs"""
    r = random.Random(seed)
    out = []
    i = 0
    while len(out) < n:
        g = rand.G(seed * 7919 + i, prof(cmds={"while": 3, "fep": 1, "break": 2, "continue": 2, "include": 2, "let": 2, "eval": 1, "return": .3},
                                         tests={"eval": 2, "mailboxexists": 2}, jumps=True, len=(1, 3)))
        i += 1
        lims = sorted(r.sample(range(0, 60), 5)) + [r.randint(60, 300)]
        rs = g.r.getstate()
        for lim in lims:
            g.r.setstate(rs)
            g.p["rt"] = {}
            g.cnt, g.loop, g.labels = 0, [], []
            c = g.case("bud-%d-%d-%d" % (seed, i, lim))
            c.h["runtime"]["cpu_limit"] = lim
            c.s["rt"]["cpu"] = lim
            out.append(c)
    return out[:n]


def endless(seed, n):
    """scripts that never end by themselves"""
    r = random.Random(seed)
    bodies = [lambda: [], lambda: [note("x")], lambda: [{"c": "continue"}], lambda: [iff(ask("Q"), [{"c": "continue"}])],
              lambda: [{"c": "eval", "e": {"k": "call", "fn": "xc", "ext": 2, "as": []}}],
              lambda: [{"c": "while", "e": lit(1), "b": [{"c": "break"}]}], lambda: [{"c": "fep", "b": [note("y"), {"c": "continue"}], "label": ""}],
              lambda: [{"c": "fep", "b": [], "label": ""}], lambda: [{"c": "include", "name": "leaf"}],
              lambda: [{"c": "fileinto", "folder": "x", "copy": True}],
              lambda: [iff({"t": "allof", "ts": [T, {"t": "not", "x": F}]}, [{"c": "while", "e": lit(0), "b": [note("n")]}])]]
    out = []
    for i in range(n):
        b = []
        for _ in range(r.randint(1, 2)):
            b += r.choice(bodies)()
        k = r.random()
        cm = [{"c": "while", "e": lit(1), "b": b}]
        if k < .3:
            cm = [{"c": "fep", "b": cm, "label": ""}]
        elif k < .5:
            cm = [{"c": "include", "name": "loop"}]
        pre = r.choice([[], [{"c": "discard"}], [{"c": "fileinto", "folder": "f"}], [{"c": "keep", "flags": ["k"]}]])
        out.append(mk("endl-%d-%d" % (seed, i), pre + cm, [("personal", "leaf", [note("l")]), ("personal", "loop", [{"c": "while", "e": lit(1), "b": b}])],
                      rt={"cpu_limit": r.choice([0, 1, 5, 50, 200]), "max_nested_includes": 4}, answers=[r.random() < .5 for _ in range(5)],
                      extfns=XF, fnc=[C1], maxsteps=900))
    return out


XF = [{"name": "xa", "id": 0, "args": 1}, {"name": "xb", "id": 1, "args": 2}, {"name": "xc", "id": 2, "args": 0}, {"name": "xd", "id": 3, "args": 4}]
C1 = {"p": "const", "v": {"t": "i", "v": 1}}


# ------------------------------------------------------------------ P03
def trees(seed, n):
    """test trees over questions to the host; every vector of answers"""
    r = random.Random(seed)
    q = itertools.count()

    def tree(d):
        k = r.random()
        if d == 0 or k < .2:
            return r.choice([T, F, None, None, None, None]) or ask("m%d" % next(q))
        if k < .45:
            return {"t": "not", "x": tree(d - 1)}
        return {"t": r.choice(["allof", "anyof"]), "ts": [tree(d - 1) for _ in range(r.randint(1, 3))]}
    out = []
    for i in range(n):
        q = itertools.count()
        long = r.random() < .25
        br = [{"t": tree(1 if long else 3), "b": [note("b%d" % j)] + ([iff(tree(1 if long else 2), [note("i")], [note("j")] if r.random() < .5 else None)] if r.random() < .3 else [])}
              for j in range(r.choice([4, 5, 6, 8]) if long else r.choice([1, 1, 1, 2, 3]))]
        c = {"c": "if", "br": br}
        if r.random() < .6:
            c["el"] = [note("e")]
        out.append(mk("tree-%d-%d" % (seed, i), [c, note("z")], dfs=4, dflt=r.random() < .5))
    return out


def shapes(seed, n):
    """nested loops and branches with jumps; a trace variable records what ran"""
    r = random.Random(seed)
    out = []
    for i in range(n):
        cnt = itertools.count()
        pre = []

        def blk(d, loops, labs):
            b = []
            for _ in range(r.randint(1, 3)):
                b += cmd(d, loops, labs)
            return b

        def cond():
            k = r.random()
            if k < .4:
                return ask("m")
            if k < .6:
                return {"t": "eval", "e": op(r.choice(["<", "=="]), var(r.choice(["n0", "n1"])), lit(r.choice([1, 2])))}
            return r.choice([T, F, {"t": "not", "x": ask("n")}, {"t": "anyof", "ts": [ask("a"), ask("b")]}])

        def cmd(d, loops, labs):
            k = r.random()
            x = next(cnt)
            if d == 0 or k < .25:
                return [note("%d" % (x % 10))]
            if k < .5:
                br = [{"t": cond(), "b": blk(d - 1, loops, labs)} for _ in range(r.choice([1, 1, 2, 3]))]
                c = {"c": "if", "br": br}
                if r.random() < .5:
                    c["el"] = blk(d - 1, loops, labs)
                return [c]
            if k < .68:
                v = "n%d" % x
                lim = r.choice([1, 2, 3])
                body = [{"c": "let", "name": v, "e": op("+", var(v), lit(1))}] + blk(d - 1, loops + ["w"], labs)
                pre.append(st(v, "0"))
                return [{"c": "let", "name": v, "e": lit(0)}, {"c": "while", "e": op("<", var(v), lit(lim)), "b": body}]
            if k < .8 and loops.count("f") < 2:
                lab = "L%d" % x if r.random() < .5 else ""
                return [{"c": "fep", "b": [note("p")] + blk(d - 1, loops + ["f"], labs + [lab]), "label": lab}]
            if k < .94 and loops:
                if "w" in loops and r.random() < .5:
                    return [iff(cond(), [note("c"), {"c": "continue"}])] if r.random() < .7 else [{"c": "continue"}]
                ls = [y for y in labs if y]
                b = {"c": "break", "label": r.choice(ls)} if ls and r.random() < .5 else {"c": "break"}
                return [iff(cond(), [note("k"), b])] if r.random() < .7 else [b]
            if k > .97:
                return [iff(cond(), [{"c": r.choice(["stop", "return"])}])]
            return [note("s")]
        b = blk(3, [], [])
        g = rand.G(seed * 31 + i, {"msgs": {"multi": 1}})
        g.msize = 0
        out.append(mk("shape-%d-%d" % (seed, i), [st("n0", "0"), st("n1", "1")] + pre + b + [note("end")], message=g.message(),
                      answers=[r.random() < .5 for _ in range(8)], dflt=r.random() < .5, rt={"cpu_limit": 3000}))
    return out


# ------------------------------------------------------------------ P04
def graphs(seed, n):
    """include graphs: calls with and without :once, returns, stops, missing scripts, variables on both sides"""
    r = random.Random(seed)
    out = []
    names = [("personal", "a"), ("personal", "b"), ("global", "a"), ("personal", "c"), ("personal", "gone")]

    def body(me):
        b = []
        for _ in range(r.randint(1, 4)):
            k = r.random()
            if k < .4:
                l, x = r.choice(names)
                c = {"c": "include", "name": x if r.random() < .8 else [("g", "nm")], "global": l == "global", "once": r.random() < .3, "opt": r.random() < .3}
                b.append(iff(ask("q"), [c], [c] if r.random() < .3 else None) if r.random() < .3 else c)
            elif k < .55:
                b.append(st("v", [("v", "v"), me]))
            elif k < .65:
                b.append(iff({"t": "string", "m": {"mt": "matches"}, "src": ["xay%s" % me], "keys": ["x*y*"]}, [note("m")], [note("n")]))
            elif k < .75:
                b.append(note([me, "."][r.random() < .5]))
                b.append(st("global.t", [("g", "t"), "(", ("v", "v"), ",", ("m", 1), ")"]))
            elif k < .82:
                b.append(r.choice([{"c": "return"}, iff(ask("r"), [{"c": "return"}]), iff(ask("s"), [{"c": "stop"}]), {"c": "stop"} if r.random() < .3 else {"c": "return"}]))
            elif k < .9:
                b.append({"c": "fep", "b": [{"c": "include", "name": r.choice(["a", "c"])}, note("f"), iff(ask("b"), [{"c": "break"}])], "label": ""})
            else:
                b.append(note(me))
        return b
    for i in range(n):
        incs = [(l, x, body(x if l == "personal" else "G")) for l, x in names[:4]]
        if r.random() < .15:  # a chain of scripts, missing ones on the way
            k = r.randint(3, 7)
            chain = [("personal", "d%d" % j, (body("d%d" % j)[:1] if r.random() < .3 else []) +
                      [{"c": "include", "name": x, "opt": True} for x in r.choice([["gone"], [], ["gone", "c"]])] +
                      [{"c": "include", "name": "d%d" % (j + 1), "opt": r.random() < .5, "once": r.random() < .3}, note(str(j))]) for j in range(k)]
            out.append(mk("inc-%d-%d" % (seed, i), [st("v", "0"), {"c": "include", "name": "d0"}, note("|")], incs + chain,
                          rt={"max_nested_includes": r.choice([2, k - 1, k, k + 1, 9]), "cpu_limit": 200}, answers=[r.random() < .5 for _ in range(6)], ack=r.random() < .8, maxsteps=600))
            continue
        out.append(mk("inc-%d-%d" % (seed, i), [st("global.nm", r.choice(["a", "b", "c", "", "gone"])), st("v", "0")] + body("M") + [note("|"), st("global.t", [("g", "t"), ("v", "v"), ("m", 1), ("m", 0)])],
                      incs, rt={"max_nested_includes": r.choice([1, 2, 3, 4, 6]), "cpu_limit": 200},
                      answers=[r.random() < .5 for _ in range(6)], dflt=r.random() < .5, ack=r.random() < .8, maxsteps=600))
    return out


# ------------------------------------------------------------------ P05
NAMES = ["a", "A", "b", "B", "c", "ab", "d", "e"]


def scopes(seed, n):
    """assignments and references in nested blocks, :local, global, included scripts"""
    r = random.Random(seed)
    out = []

    def show():
        vs = r.sample(NAMES, 3)
        return st("global.t", [("g", "t"), "[", ("v", vs[0]), ",", ("v", vs[1]), ",", ("v", vs[2]), "]"])

    def many():
        """a block with many variables of its own that grow from what they were"""
        vs = ["n%d" % i for i in range(r.choice([3, 4, 5, 6]))]
        r.shuffle(vs)
        b = [st(v, [("v", v), r.choice("12")]) for v in vs]
        b.append(st("global.t", [("g", "t"), "("] + [x for v in vs for x in (("v", v), ".")] + [")"]))
        if r.random() < .4:
            b = [iff(T, b)]
        if r.random() < .6:
            return [iff(ask("n"), [note("n")] + b) if r.random() < .3 else iff(T, b), iff(T, copy.deepcopy(b)) if r.random() < .5 else {"c": "fep", "b": copy.deepcopy(b), "label": ""}]
        return [{"c": "fep", "b": b, "label": ""}]

    def blk(d, glob, vis=()):
        b = []
        vis = set(vis)
        for _ in range(r.randint(1, 4)):
            k = r.random()
            x = r.choice(NAMES)
            if k < .06 and d:
                b += many()
            elif k < .3:
                vis.add(x.lower())
                b.append(st(x, r.choice(["1", "x", [("v", r.choice(NAMES)), "y"], [("v", r.choice(NAMES))]]), **({"local": True} if r.random() < .25 else {})))
            elif k < .36:
                ok = [y for y in NAMES if y.lower() in vis]
                b.append({"c": "let", "name": x, "e": op("+", var(r.choice(ok)) if ok else lit("q"), lit("z"))})
                vis.add(x.lower())
            elif k < .38:
                ok = [y for y in NAMES if y.lower() in vis]
                if ok:
                    b.append({"c": "let", "name": x, "e": var(r.choice(ok))})
                    b.append(st("global.t", [("g", "t"), "=", ("v", x)]))
                    vis.add(x.lower())
            elif k < .45:
                b.append({"c": "addflag", "var": x, "flags": r.sample(["f1", "f2", "f3", "f4"], 2)})
                vis.add(x.lower())
            elif k < .475:
                b.append(st("envelope." + r.choice(["to", "from", "envid"]), r.choice(["n@w.org", [("v", x), "@w.org"], "a@b.com"])))
                b.append(iff({"t": "envelope", "m": {"mt": r.choice(["is", "contains"])}, "part": "all", "fields": [r.choice(["to", "to", "from", "envid"])], "keys": [r.choice(["n@w.org", "a@b.com", "c@d.org", "@w"])]}, [note("E")], [note("e")]))
                b.append(st("global.t", [("g", "t"), "<", ("e", r.choice(["to", "from"])), ">"]))
            elif k < .5:
                b.append(st("global." + x, [("v", x), "g"]))
            elif k < .54:
                b.append(st("global.t", [("g", "t"), "{", ("g", x), "}"]))
            elif k < .75 and d:
                b.append({"c": "if", "br": [{"t": r.choice([T, T, F, ask("q")]), "b": blk(d - 1, glob, vis)}], **({"el": blk(d - 1, glob, vis)} if r.random() < .4 else {})})
            elif k < .8 and d:
                b.append({"c": "fep", "b": blk(d - 1, glob, vis), "label": ""})
            elif k < .86 and glob:
                b.append({"c": "include", "name": "s"})
            else:
                b.append(show())
        return b
    for i in range(n):
        g1 = [{"c": "global", "names": r.sample(["a", "b", "C", "ab"], r.choice([1, 2]))}] if r.random() < .6 else []
        g2 = [{"c": "global", "names": r.sample(["a", "B", "c"], r.choice([1, 2]))}] if r.random() < .6 else []
        main = blk(3, True) + [show()]
        out.append(mk("scope-%d-%d" % (seed, i), g1 + main, [("personal", "s", g2 + blk(1, False) + [show()])],
                      answers=[r.random() < .5 for _ in range(6)], rt={"cpu_limit": 500},
                      ctx=dict({"globals": [[v, {"t": "s", "v": "H" + v}] for v in r.sample(["a", "c", "zz"], 1)]} if r.random() < .3 else {},
                               envelope=[["from", "f@x.org"]] * r.choice([0, 1]) + [["to", r.choice(["a@b.com", "c@d.org"])] for _ in range(r.choice([0, 1, 2, 3]))])))
    return out


TEXTS = ["", "a", "abc", "ABC", "aBc dEf", "éÉxyz", "a*b?c\\d", "x.y[z](w)", "100%", "a/b?c=d&e", "ab ab ab", "éé é", "-_.~", "a\\b\"c", "ÀÉÎ",
         "tab\there", "x" * 20, "é" * 12, "!#'()*,;:@&=+|", "^|{}[]~`<>", "a!b#c@d", "ßa", "ßx ß", "x  "]


def modifiers(seed, n):
    """set with every choice and order of modifiers, and small size limits"""
    r = random.Random(seed)
    ks = ["lower", "upper", "lowerfirst", "upperfirst", "quotewildcard", "quoteregex", "encodeurl", "length", "replace"]
    out = []
    for i in range(n):
        b = [st("s", r.choice(TEXTS)), st("p", r.choice(["a", "b", "", "é"]), local=True), st("y", "YY", local=True)]
        if r.random() < .6:
            b = [b[0], iff(T, b[1:])]
        for j in range(6):
            ms = r.sample(ks, r.choice([1, 1, 2, 2, 3, 4]))
            if "upper" in ms and ("replace" in ms or "lower" in ms):
                ms.remove("upper")
            if "upperfirst" in ms and "lowerfirst" in ms:
                ms.remove("upperfirst")
            mods = [(m, r.choice(["a", "b", "ab", "é", [("v", "p")], "", " "]), r.choice(["", "Z", "aa", [("v", "y")], "É"])) if m == "replace" else (m,) for m in ms]
            v = r.choice([[("v", "s")], r.choice(TEXTS), ["<", ("v", "s"), "é>"], [("v", "s"), ("v", "s")]])
            b.append(st("global.r%d" % j, v, mods=mods))
            if r.random() < .3:
                b.append({"c": "let", "name": "q%d" % j, "e": op("+", {"k": "var", "p": ("g", "r%d" % j)}, lit("é"))})
                b.append(st("global.u%d" % j, [("v", "q%d" % j)]))
        out.append(mk("mod-%d-%d" % (seed, i), b, rt={"max_variable_size": r.choice([1, 2, 3, 5, 8, 13, 40, 4096])}))
    return out


# ------------------------------------------------------------------ P06
def captures(seed, n):
    """match tests and references in different blocks"""
    r = random.Random(seed)
    out = []

    def mt():
        g = rand.G(r.randrange(1 << 30), {"mt": {"matches": 3, "regex": 2, "is": 1, "contains": 1}})
        g.msize = 0
        m = g.clause()
        src = r.choice(["aXbXc", "abab", "foo@bar.com", "x", "", "aéb", "a\tb", "ababab", "abcdef"])
        ks = g.keys(m)
        if m["mt"] == "matches" and r.random() < .5:
            ks = [r.choice(["*", "a*b*", "*X*X*", "?*", "*@*.*", "a*", "*b", "??*", "a?*b*", "[*", "?????*", "*?*?*?", "??????", "*b*b*b*"])]
        return {"t": "string", "m": m, "src": [src], "keys": ks}

    def show():
        a, b = r.sample([0, 1, 2, 3, 4, 5, 6], 2)
        return st("global.t", [("g", "t"), "[", ("m", a), ",", ("m", b), "]"])

    def blk(d):
        b = []
        for _ in range(r.randint(1, 4)):
            k = r.random()
            if k < .5 and d:
                t = mt()
                if r.random() < .3:
                    t = {"t": r.choice(["allof", "anyof"]), "ts": [mt(), r.choice([T, F, mt()])]}
                elif r.random() < .25:
                    t = {"t": r.choice(["allof", "anyof", "anyof"]), "ts": [mt() for _ in range(r.choice([3, 4, 5, 6]))]}
                if r.random() < .2:
                    t = {"t": "not", "x": t}
                b.append({"c": "if", "br": [{"t": t, "b": blk(d - 1)}] + ([{"t": mt(), "b": blk(d - 1)}] if r.random() < .3 else []),
                          **({"el": blk(d - 1)} if r.random() < .5 else {})})
            elif k < .6:
                b.append({"c": "include", "name": "s"})
            elif k < .65:
                b.append({"c": "deleteheader", "n": "X-A", "m": {"mt": "matches"}, "pats": ["*q*", "z*"]})
            elif k < .75:
                x = r.choice(["a", "b", "c"])
                b.append(st(x, [("v", x), r.choice(["1", ("m", 1)])]))
                b.append(st("global.t", [("g", "t"), "<", ("v", x), ">"]))
            else:
                b.append(show())
        return b
    for i in range(n):
        out.append(mk("cap-%d-%d" % (seed, i), blk(3) + [show()], [("personal", "s", blk(1) + [show()])], answers=[True, False] * 3))
    return out


# ------------------------------------------------------------------ P07
VALS = ["", "a", "A", "ab", "aB", "AB", "abc", "xaby", "10", "9", "010", "+5", "-3", "2.5", "2.50", "1e3x", " 5", "5 ", "é", "É", "aé", "a b", "*", "a*", "?", "a\\b", "\\",
        "0", "-0", "00", "99", "100", "1a", "zzz", "Z", "[", "{", "@", "`", "ab\r\ncd", "12.5", "-2.5", ".", "1.2.3"]


def compares(seed, n):
    """direct probes: every match type and comparator over pairs of values and keys"""
    r = random.Random(seed)
    out = []
    for i in range(n):
        b = []
        for j in range(12):
            mt = r.choice(["is", "is", "contains", "matches", "matches", "value", "value", "regex", "count"])
            m = {"mt": mt}
            if mt in ("is", "value"):
                m["cmp"] = r.choice(["i;ascii-casemap", "i;octet", "i;ascii-numeric"])
            elif mt in ("contains", "matches"):
                m["cmp"] = r.choice(["i;ascii-casemap", "i;octet"])
            if mt in ("value", "count"):
                m["rel"] = r.choice(["gt", "ge", "lt", "le", "eq", "ne"])
            if mt == "count":
                m["cmp"] = "i;ascii-numeric"
            g = rand.G(r.randrange(1 << 30))
            src = [r.choice(VALS) if r.random() < .7 else [("v", r.choice(["v1", "v2", "v3"]))] for _ in range(r.choice([1, 1, 2, 3]))]
            if mt == "regex":
                ks = [[g.regex()] for _ in range(r.choice([1, 2]))]
            elif mt == "matches":
                ks = [r.choice(rand.GLOBS + ["a*b", "*\\?", "a\\", "\\a*", "**", "*?*", "?*?", "a**b", "*a*a*", "*[*", "*.*"]) for _ in range(r.choice([1, 1, 2]))]
            elif mt == "count":
                ks = [r.choice(["0", "1", "2", "3"]) for _ in range(r.choice([1, 2]))]
            else:
                ks = [r.choice(VALS) if r.random() < .6 else [("v", r.choice(["v1", "v2", "v3"]))] for _ in range(r.choice([1, 1, 2, 3]))]
                if r.random() < .3 and isinstance(src[0], str):
                    ks[0] = r.choice([src[0].upper() if src[0].isascii() else src[0], src[0][1:], src[0][:-1], src[0]])
                    if ks[0].strip("-").strip(".").replace(".", "", 1).isdigit() and (ks[0].strip("-")[0] == "." or ks[0][-1] == "."):
                        ks[0] = src[0]      # "2." and ".5": not said to be numbers, nor not to be
            t = {"t": "string", "m": m, "src": src, "keys": ks}
            if r.random() < .25:
                t = {"t": "not", "x": t}
            b.append(iff(t, [st("global.r%d" % j, "1")]))
        pre = [st("v1", r.choice(VALS)), st("v2", r.choice(VALS)), {"c": "let", "name": "v3", "e": lit(r.choice([0, 5, 10, 100]))}]
        out.append(mk("cmp-%d-%d" % (seed, i), pre + b))
    return out


# ------------------------------------------------------------------ P13
RADDR = ["a@b.com", "x@y.org", "me@example.com", "ME@Example.COM", "Me <me@example.com>", "nope", "a@b", "<q@r.com>", "\"Q R\" <q@r.com>", "a b@c.com", "a@b@c.com",
         "@x.com", "", "a@b.", "a@.com", ".@.", "\"a@b\"@c.com", "x@y.org,z@y.org", "q@r.com>", "<q@r.com", " sp@ace.com ", "a@b.c@d.e", "é@x.org", "\"a.b\"", "a\"b@c.d", "\"q@r\"@x.com", "\"q@r\"@s@x.com", "q@\"r\".com", "\"a\\\"b@c\"@d.e", "a@b@\"c\".d",
         "x@y.z <u@host>", "x@y <u@h.st>", "A. B <u@host>", "<x@y.z><u@host>", "x.y <u@host", "\"x@y.z\" <u@host>", "x@y.z (c) <u@h>", "u@host <x.y>"] + ["a@b.com", "x@y.org", "me@example.com", "q@r.net"] * 6


def redirects(seed, n):
    r = random.Random(seed)
    out = []
    for i in range(n):
        b = []
        for _ in range(r.randint(1, 5)):
            g = rand.G(r.randrange(1 << 30), {"raddr": RADDR, "bignum": True})
            c = g.c_redirect()
            if isinstance(c["addr"], list):
                c["addr"] = r.choice(RADDR)
            if r.random() < .15:
                c["addr"] = [("e", "from")]
            b.append(c)
            if r.random() < .25:
                b.append(r.choice([{"c": "addheader", "n": "X-N", "v": "1"}, {"c": "fileinto", "folder": "F", "copy": True}, {"c": "keep"}, {"c": "discard"},
                                   {"c": "addheader", "n": "Received", "v": "by q"}, {"c": "deleteheader", "n": "Received", "m": {"mt": "is"}},
                                   iff(ask("q"), [{"c": "redirect", "addr": "n@n.org"}])]))
        hs = [msg.addr("From", [("", "al@x.org")])] + [msg.text("X-F%d" % k, "q") for k in range(r.choice([0] * 6 + [9, 25, 60]))] + \
            [msg.text(r.choice(["Received", "received"]), "from a by b%d" % k) for k in range(r.choice([0, 1, 2, 3, 4]))] + [msg.text("Subject", "s")]
        if r.random() < .3:
            r.shuffle(hs)
        for c in b:
            if isinstance(c.get("addr"), str) and r.random() < .3:
                c["addr"] = [("g", "h"), c["addr"]]
        out.append(mk("red-%d-%d" % (seed, i), b, message=msg.simple(hs), rt={"max_redirects": r.choice([0, 1, 2, 3, 3, 4]), "max_out_messages": r.choice([0, 1, 2, 4, 4, 4]),
                      "max_received_headers": r.choice([0, 1, 2, 3, 10, 10])}, ctx={"user": r.choice(["me@example.com", "Me@Example.com", "x@y.org", ""]), "envelope": [["from", r.choice(["a@b.com", "x@y.org", "bad"])]]},
                      answers=[r.random() < .5 for _ in range(4)]))
    return out


# ------------------------------------------------------------------ P16
def flags(seed, n):
    r = random.Random(seed)
    every = ["\\Seen", "\\SEEN", "a", "A", "b", "a b", "b A", " a  b ", "", "c", "a\tb", "\\Seen a", "é", "É", "ab", "$x", "a\r\nb", "ab abc", "abc", "a\u00a0b", "longflag1", "LongFlag12", "longflag1 b"]
    out = []
    for i in range(n):
        b = []
        fl = every if r.random() < .4 else r.choice([["a", "A", "ab", "abc", "a ab", "AB b"], ["longflag1", "LongFlag12", "longflag1 b", "LONGFLAG1"], ["\\Seen", "\\SEEN x", "x", "\\seen"], ["\u00e9", "\u00c9", "\u00c9A \u00e9a", "\u00e9b", "b"]])
        many = r.random() < .4
        if many:
            for v in r.sample(["x", "global.fs_y", "global.fs_z", None], 3):
                c = {"c": "setflag", "flags": [r.choice(fl) for _ in range(r.choice([1, 2, 3]))]}
                if v:
                    c["var"] = v
                b.append(c)
        for j in range(r.randint(2, 7)):
            k = r.random()
            if many and r.random() < .4:
                vs = r.sample(["x", "global.fs_y", "global.fs_z"], r.choice([1, 2, 2, 3]))
                m = {"mt": "count", "rel": r.choice(["eq", "eq", "ge", "lt"]), "cmp": "i;ascii-numeric"}
                b.append(iff({"t": "hasflag", "m": m, "vars": vs, "keys": [str(r.choice([1, 2, 2, 3, 3, 4, 5, 6]))]}, [note("Y")], [note("N")]))
                continue
            fs = [r.choice(fl) if r.random() < .8 else [("v", "v")] for _ in range(r.choice([1, 1, 2, 3]))]
            tgt = r.choice([None, None, "x", "global.fs_y"])
            if k < .6:
                c = {"c": r.choice(["setflag", "addflag", "addflag", "removeflag"]), "flags": fs}
                if tgt:
                    c["var"] = tgt
                b.append(c)
            elif k < .8:
                mt = r.choice(["is", "is", "contains", "matches", "count", "count"])
                m = {"mt": mt}
                ks = fs
                if mt == "count":
                    m.update(rel=r.choice(["eq", "ge", "lt"]), cmp="i;ascii-numeric")
                    ks = [r.choice(["0", "1", "2", "3", "4", "5"])]
                elif mt == "matches":
                    ks = [r.choice(["*", "a*", "?", "\\\\*"])]
                elif r.random() < .4:
                    m["cmp"] = "i;octet"
                vs = r.choice([None, None, ["x"], ["global.fs_y"], ["x", "global.fs_y"], ["x", "global.fs_z", "global.fs_y"], ["global.fs_z", "x"]])
                b.append(iff({"t": "hasflag", "m": m, "vars": vs, "keys": ks}, [note("Y")], [note("N")]))
            elif k < .9:
                b.append({"c": "fileinto", "folder": "F", "copy": True, **({"flags": fs if r.random() < .7 else r.choice([[""], [[("v", "e")]], [" "], [[("v", "e"), " "], ""]])} if r.random() < .5 else {})})
            elif k < .94:
                # flags put there as text: several times, in any case
                b.append(st(r.choice(["x", "global.fs_y", "global.fs_z"]), " ".join(r.choice(fl) for _ in range(r.choice([1, 2, 3, 4])))))
            else:
                b.append(st("global.fs_w%d" % j, [("v", "x"), " | ", ("g", "fs_y")]))
        if r.random() < .5:
            b.append({"c": "keep", **({"flags": [r.choice(fl + ["", " "])]} if r.random() < .5 else {})})
        out.append(mk("flag-%d-%d" % (seed, i), [st("v", r.choice(["a", "b c", "", "C"])), st("x", "")] + b, rt={"max_variable_size": 9 if not any(c["c"] == "removeflag" for c in b) and r.random() < .4 else 4096}))
    return out


# ------------------------------------------------------------------ P17
def exprs(seed, n):
    out = []
    for i in range(n):
        r = random.Random(seed * 104729 + i)
        g = rand.G(r.randrange(1 << 30), {"vars": ["a", "b", "c"]})
        pre = [st("a", r.choice(["", "1", "x", "10", "2.5", "é", "-1.5", "-3", "-0.5"])), {"c": "let", "name": "b", "e": r.choice([lit(r.choice([0, 3, 7])), op("-", lit(0), lit(r.choice([2.5, 0.5, 4]))), {"k": "un", "op": "-", "x": lit(r.choice([1.5, 2]))}])},
               {"c": "let", "name": "c", "e": r.choice([{"k": "arr", "xs": [lit(1), lit("x"), lit(2)]}, lit("q"), {"k": "arr", "xs": [lit("k")]}])}]
        b = []
        for j in range(4):
            e = g.expr(4)
            if r.random() < .2:
                # one division of things written exactly; its result is written exactly too
                at = lambda: r.choice([var("a"), var("b"), lit(r.choice([0, 1, 3, 7, 10, 0.5, 1.5, 2.5, "", "x", "2.5"])), {"k": "un", "op": "-", "x": lit(r.choice([1, 2.5]))},
                                       op("+", var("b"), lit(r.choice([1, 2.5]))), op("-", lit(1), lit(r.choice([0.5, 3])))])
                by = r.choice([lit(r.choice([0, 1, 2, 4, 5, 0.5, 2.5, "", "4", "2.5", "q"])), {"k": "un", "op": "-", "x": lit(r.choice([2, 2.5]))}])
                e = r.choice([op("/", at(), by), op("==", op("/", at(), by), at()), op("+", at(), op("/", lit(5), lit(2))), op("-", op("/", at(), lit(2)), op("/", at(), lit(4)))])
            k = r.random()
            if k < .5:
                b += [{"c": "let", "name": "r%d" % j, "e": e}, st("global.r%d" % j, [("v", "r%d" % j)])]
            elif k < .6:
                b.append({"c": "let", "name": "global.x%d" % j, "e": e} if False else {"c": "eval", "e": e})
            elif k < .85:
                t = {"t": "eval", "e": e}
                if r.random() < .4:
                    t = {"t": r.choice(["allof", "anyof"]), "ts": [ask("q"), t, ask("w")]}
                b.append(iff(t, [note("T")], [note("F")]))
            else:
                b += [{"c": "let", "name": "k%d" % j, "e": lit(0)},
                      {"c": "while", "e": op("&&", op("<", var("k%d" % j), lit(2)), e), "b": [{"c": "let", "name": "k%d" % j, "e": op("+", var("k%d" % j), lit(1))}, note("w")]}]
        out.append(mk("expr-%d-%d" % (seed, i), pre + b, extfns=XF, answers=[r.random() < .5 for _ in range(4)], rng=r, style=1 if r.random() < .5 else 0,
                      fnc=[r.choice([C1, {"p": "const", "v": {"t": "i", "v": 0}}, {"p": "const", "v": {"t": "s", "v": "q"}}, {"p": "count"}, {"p": "cat"}, {"p": "id"},
                                     {"p": "const", "v": {"t": "s", "v": ""}}]) for _ in range(3)],
                      ctx={"globals": [["g1", {"t": "s", "v": "G"}]], "envelope": [["from", "f@x.org"]]}))
    return out


# ------------------------------------------------------------------ P18
def questions(seed, n):
    """tests that ask, every vector of answers"""
    p = prof(tests=only(duplicate=3, mailboxexists=3, mailboxidexists=1, specialuse_exists=2, header=1, string=1, address=1, envelope=1, validextlist=1, true=.5),
             mt={"list": 4, "regex": 0}, cmds=only(set=1, keep=1, fileinto=2, addheader=1, **{"if": 5}), len=(1, 3), maxdepth=2, kw={"dfs": 4})
    return [rand.G(seed * 65537 + i, p).case("ask-%d-%d" % (seed, i)) for i in range(n)]


# ------------------------------------------------------------------ P12
def rewrites(seed, n):
    """one rewriting at a chosen part, then everything is looked at and delivered"""
    r = random.Random(seed)
    out = []
    for i in range(n):
        g = rand.G(r.randrange(1 << 30), prof(msgs={"multi": 3, "bodies": 1}, cmds=only(set=1), replies=False, crlf=.25))
        m = g.message()
        g.msize = m[1]["size"]
        g.predecl, g.flat = [], False
        what = lambda: g.c_replace() if r.random() < .75 else g.c_enclose()
        sub = r.choice(["plain", "html", "octet-stream"])
        at = iff({"t": "header", "m": {"mt": "is"}, "names": ["Content-Type"], "mo": {"k": "subtype"}, "keys": [sub], "idx": 0, "any": False}, [what()] + ([{"c": "break"}] if r.random() < .4 else []))
        look = [{"c": "extracttext", "name": "x"}, st("global.t", [("g", "t"), "[", ("v", "x"), "]"])]
        if m[1]["parts"][0]["k"] == "multi" and r.random() < .35:
            # nothing drawn at random gets into these: their sizes can be asked
            what = lambda: dict(g.c_replace(), **({"mime": True} if r.random() < .4 else {}))
            sz = m[1]["size"]
            ask_size = [iff({"t": "size", "over": r.random() < .5, "lim": max(0, sz + d)}, [note("%d" % j)]) for j, d in enumerate(sorted(r.randint(-130, 160) for _ in range(10)))]
            rep = iff(at["br"][0]["t"], [what()])
            b = [{"c": "fep", "b": [rep] + r.choice([ask_size, []]), "label": ""}] + ask_size + [{"c": "keep"}]
            out.append(mk("rw-%d-%d" % (seed, i), b, message=m, ctx={"globals": [["t", {"t": "s", "v": ""}], ["g1", {"t": "s", "v": "q\r\nX-Evil: 2"}]]}, rt={"protected": r.choice([[], ["X-A"]])}))
            continue
        b = [{"c": "fep", "b": look + [at] + look, "label": ""}] if r.random() < .75 else [what()]
        if r.random() < .3:
            b.append(r.choice([{"c": "addheader", "n": "X-N", "v": "1"}, {"c": "deleteheader", "n": "X-A", "m": {"mt": "is"}}, {"c": "fileinto", "folder": "F", "copy": True}, what()]))
        if r.random() < .5:
            b.append({"c": "fep", "b": look, "label": ""})
        if r.random() < .5:
            b.append(iff({"t": "header", "m": {"mt": "contains"}, "names": [r.choice(["Subject", "From", "To", "Cc", "X-A", "Received"])], "keys": [r.choice(["ab", "a", "e", "@"])], "idx": 0, "any": r.random() < .4}, [note("H")]))
        b.append(r.choice([{"c": "keep"}, {"c": "fileinto", "folder": "A"}, {"c": "redirect", "addr": "a@b.com", "copy": True}]))
        out.append(mk("rw-%d-%d" % (seed, i), b, message=m, ctx={"user": "me@example.com", "fullname": r.choice(["", "Me"]), "globals": [["t", {"t": "s", "v": ""}], ["g1", {"t": "s", "v": "q\r\nX-Evil: 2"}]]},
                      rt={"max_header_size": r.choice([6, 1024]), "protected": r.choice([[], ["X-A", "reply-to"]])}))
    return out


CONV = ["text/plain", "text/html", "text/csv", "text/calendar", "image/png", "TEXT/Plain", "Text/HTML", "multipart/mixed", "message/rfc822", "application/octet-stream", "text/xml", "text/p", "text/plain2"]


def converts(seed, n):
    """conversions of parts of messages of every shape, asked and told, with rewriting before and after"""
    r = random.Random(seed)
    out = []

    def leaf(root=False):
        hs = [] if root else [msg.text("X-P", "p%d" % r.randrange(9))] if r.random() < .5 else []
        x = r.random()
        k = None
        body = "".join(" ".join(r.choice(["ab", "x", "Hello", "1<2", "a&b", "é", "<p>", "z"]) for _ in range(r.choice([1, 2, 3]))) + "\r\n" for _ in range(r.choice([0, 1, 1, 2, 3])))
        if x < .15:
            pass
        elif x < .5:
            hs.append(msg.ctype(r.choice(["text", "text", "Text"]), r.choice(["plain", "plain", "PLAIN"]), r.choice([[], [("charset", "utf-8")], [("name", "a.txt")]])))
        elif x < .8:
            hs.append(msg.ctype("text", r.choice(["html", "HTML"]), r.choice([[], [("charset", "utf-8")]])))
            body = r.choice(["<p>ab</p>", "<p>ab <b>cd</b></p>", "plain", "<b>x</b>"])
        elif x < .95:
            hs.append(msg.ctype("text", r.choice(["csv", "calendar", "x-y"])))
        else:
            hs.append(msg.ctype("image", "png"))
            body = "PNG"
        if r.random() < .3:
            hs.append(msg.text("Content-Disposition", r.choice(["inline", "attachment"])))
            hs[-1]["ct"] = {"t": hs[-1]["v"], "s": "", "at": []}
        if r.random() < .2:
            hs.append(msg.text("Content-Description", "about it"))
        return hs, body, r.choice([None, None, "quoted-printable", "base64"]) if body.isascii() else r.choice(["quoted-printable", "base64"])

    def tree(d, top):
        if d == 0 or r.random() < (.25 if top else .6):
            if not top and r.random() < .12:
                x = tree(max(d - 1, 0), [])
                if x["k"] != "msg":     # see known/nested.json
                    return msg.attached([], x)
            hs, body, enc = leaf(bool(top))
            i = r.randrange(len(hs) + 1)
            return msg.leaf(hs[:i] + (top or []) + hs[i:], body, enc=enc)
        return msg.multi(top or [], [tree(d - 1, []) for _ in range(r.choice([1, 2, 2, 3]))], "b%d-%d" % (d, r.randrange(99)), preamble=r.choice(["", "pre\r\n"]), epilogue=r.choice(["", "epi\r\n"]))

    for i in range(n):
        top = [msg.addr("From", [("", "a@b.com")]), msg.addr("To", [("", "me@example.com")]), msg.text("Subject", r.choice(["ab", "Hi there"]))] + ([msg.text("X-A", "1"), msg.text("X-Content", "2")] if r.random() < .5 else [])
        if r.random() < .3:
            top.append(msg.text("MIME-Version", "1.0"))
        raw, m = msg.build(tree(r.choice([0, 1, 2, 3]), top))
        g = rand.G(r.randrange(1 << 30), prof(msgs={"multi": 3}, cmds=only(set=1), replies=False))

        def conv():
            x = r.random()
            a, b = ("text/plain", "text/html") if x < .5 else ("text/html", "text/plain") if x < .75 else (r.choice(CONV[2:4]), "text/html") if x < .85 else (r.choice(CONV), r.choice(CONV[:2] + CONV))
            if r.random() < .15:
                a, b = [("g", "ty")], b
            c = {"from": a, "to": b if r.random() < .85 else b.upper()}
            y = r.random()
            t = dict(c, t="convert")
            if y < .4:
                return iff(t, [note("Y")], [note("N")])
            if y < .5:
                return iff({"t": "not", "x": t}, [note("n")], [note("y")])
            if y < .6:
                return iff({"t": r.choice(["allof", "anyof"]), "ts": [t, dict(t, **{"from": r.choice(CONV[:2])})]}, [note("Y")], [note("N")])
            return dict(c, c="convert")

        look = r.choice([
            [{"c": "fep", "b": [iff(hdt("Content-Type", [s], "contains"), [note(s)]) for s in ("plain", "html", "charset")] + [iff({"t": "exists", "names": [r.choice(["X-P", "Subject", "Content-Disposition", "Content-Transfer-Encoding"])], "any": False}, [note("e")])], "label": ""}],
            [iff(hdt(h, ["*"], "matches"), [note(h)]) for h in ("Subject", "X-Content", "Content-Type")],
            [iff({"t": "size", "over": r.random() < .5, "lim": max(0, m["size"] + d)}, [note(str(j))]) for j, d in enumerate((-60, -20, -1, 0, 1, 30, 60))],
            [{"c": "fep", "b": [{"c": "extracttext", "name": "x"}, st("global.t", [("g", "t"), "[", ("v", "x"), "]"])], "label": ""}], []])
        deliver = lambda: r.choice([{"c": "keep"}, {"c": "fileinto", "folder": "A"}, {"c": "fileinto", "folder": "B", "copy": True}, {"c": "redirect", "addr": "a@b.com", "copy": True}])
        b = [conv()]
        if r.random() < .5:
            b.insert(0, r.choice([{"c": "addheader", "n": "X-N", "v": "1"}, {"c": "deleteheader", "n": "X-A", "m": {"mt": "is"}}, deliver(), {"c": "deleteheader", "n": "Subject", "m": {"mt": "is"}}]))
        if r.random() < .3:
            b.append(deliver())
        b += look
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            b.append(r.choice([conv(), {"c": "addheader", "n": "X-N", "v": "2", "last": True}, {"c": "enclose", "v": "see"}, {"c": "deleteheader", "n": "X-Content", "m": {"mt": "is"}}, conv()]))
        b.append(deliver())
        out.append(mk("cv-%d-%d" % (seed, i), b, message=(raw, m), ctx={"user": "me@example.com", "globals": [["t", {"t": "s", "v": ""}], ["ty", {"t": "s", "v": r.choice(CONV[:2])}]]}))
    return out


def rewalks(seed, n):
    return walks(seed, n, True)



# ------------------------------------------------------------------ P08
def hdt(name, keys, mt="is", **k):
    return {"t": "header", "m": {"mt": mt, **k.pop("m", {})}, "names": name if isinstance(name, list) else [name], "keys": keys, "idx": 0, "any": False, "mo": {"k": ""}, **k}


def sizes(seed, n):
    """fields added and removed, the size asked for after each step near what it should be"""
    r = random.Random(seed)
    out = []
    for i in range(n):
        fs = [msg.text(r.choice(["X-A", "X-B", "Subject"]), r.choice(["one", "two words here", "\u00e9\u00e9", ""]) or "v", fold=r.choice([None, None, 1])) for _ in range(r.randint(1, 5))]
        fs = [f for f in fs if f["rn"] != "Subject"] + [f for f in fs if f["rn"] == "Subject"][:1]
        if any(ord(ch) > 127 for f in fs for ch in f["v"]):
            fs = [f if f["v"].isascii() else msg.text(f["rn"], "ascii") for f in fs]
        hs = [msg.addr("From", [("", "a@b.com")])] + fs
        if r.random() < .4:
            m = msg.build(msg.multi(hs, [msg.leaf([msg.text("X-P", "%d" % j), msg.ctype("text", "plain")], "t%d\r\n" % j) for j in range(2)], "w"))
        else:
            m = msg.simple(hs)
        cnt = itertools.count()
        cur = [m[1]["size"]]
        have = [(f["n"], f["v"], len(f["raw"].encode())) for f in fs]

        def look():
            o = []
            for _ in range(r.choice([1, 2, 2, 3])):
                x = "%d" % (next(cnt) % 10)
                o.append(iff({"t": "size", "over": r.random() < .5, "lim": max(0, cur[0] + r.choice([-2, -1, 0, 1, 2]))}, [note(x)], [note("-")] if r.random() < .3 else None))
            return o

        def step():
            k = r.random()
            if k < .5:
                nm, v = r.choice(["X-A", "X-B", "X-New", "x-a"]), r.choice(["", "v", "new value", "\u00e9", "\u20acuro"])
                cur[0] += len(nm) + 4 + len(v.encode())
                have.append((nm.lower(), v, len(nm) + 4 + len(v.encode())))
                return [{"c": "addheader", "n": nm, "v": v, "last": r.random() < .5}]
            nm = r.choice(["X-A", "x-b", "X-New", "Subject", "X-None"])
            v = r.choice([None, None] + [h[1] for h in have])
            gone = [h for h in have if h[0] == nm.lower() and v in (None, h[1])]
            for h in gone:
                have.remove(h)
                cur[0] -= h[2]
            return [{"c": "deleteheader", "n": nm, "m": {"mt": "is"}, **({"pats": [v]} if v is not None else {})}]
        b, sub = [], []
        for _ in range(r.randint(2, 5)):
            if r.random() < .15:
                b += [{"c": "include", "name": "s"}] + look()
            else:
                b += step() + (look() if r.random() < .8 else [])
            if r.random() < .15:
                b.append(iff(ask("q"), [note("+")]))
        cur0 = cur[0]
        sub = look()
        cur[0] = cur0
        b += look()
        if r.random() < .5:
            b.append(iff(ask("z"), look()))
        if m[1]["parts"][0]["k"] == "multi" and r.random() < .5:
            b.append({"c": "fep", "b": [iff(hdt("X-P", ["1"]), step() + look())], "label": ""})
            b += look()
        out.append(mk("size-%d-%d" % (seed, i), b, [("personal", "s", sub)], message=m, answers=[r.random() < .5 for _ in range(3)], rt={"protected": r.choice([[], [], ["X-B"]])}))
    return out


def deeps(seed, n):
    """deep messages: tests over the current part and all below it, by field, type, parameter and content"""
    r = random.Random(seed)
    out = []
    for i in range(n):
        cnt = itertools.count()
        nb = itertools.count()

        def part(d, inner=False):
            x = "%d" % next(cnt)
            hs = [msg.text("X-P", x)] + ([msg.text(r.choice(["X-Q", "X-R", "x-q"]), r.choice("abc"))] if r.random() < .6 else [])
            k = r.random()
            if d and k < .62:
                return msg.multi(hs, [part(d - 1, inner) for _ in range(r.choice([1, 2, 2, 3]))], "w%d" % next(nb), r.choice(["mixed", "related"]))
            if k > .85 and not inner:
                sub = msg.leaf([msg.text("X-P", "i" + x), msg.ctype("text", "plain")], "inner%s\r\n" % x) if r.random() < .5 else \
                    msg.multi([msg.text("X-P", "i" + x)], [part(1, True) for _ in range(2)], "w%d" % next(nb))
                return msg.attached(hs, sub)
            t = r.choice([("text", "plain"), ("text", "plain"), ("TEXT", "Plain"), ("text", "html"), ("Text", "HTML"), ("application", "octet-stream"), ("Application", "XML"), ("image", "png"), None])
            at = r.choice([[], [], [("charset", "utf-8")], [("name", "f%s.txt" % x)], [("x-p", r.choice("ab")), ("name", "n")]])
            hs += [msg.ctype(*t, at)] if t else []
            if r.random() < .4:
                hs.append(msg.ctype("attachment", "", [("filename", "g%s" % x)], name="Content-Disposition"))
            html = t and t[1].lower() in ("html", "xml")
            return msg.leaf(hs, "<p>t%s</p>" % x if html else "t%s\r\n" % x)
        top = [msg.addr("From", [("", "a@b.com")]), msg.text("X-P", "top")]
        m = msg.build(msg.multi(top, [part(r.choice([2, 3])) for _ in range(r.choice([1, 2, 3]))], "w"))
        tot = next(cnt)
        some = lambda: "%d" % r.randrange(tot)
        cn = itertools.count()

        def test():
            k = r.random()
            anyp = r.random() < .7
            if k < .2:
                return hdt(["X-P"] + (["X-Q"] if r.random() < .3 else []), [r.choice([some(), some(), "i" + some(), "top"])], any=anyp, idx=r.choice([0, 0, 1, -1, 2, -2]))
            if k < .3:
                return hdt(r.choice(["X-Q", "X-P", ["X-Q", "x-r"]]), [str(r.randrange(tot + 2))], "count", m={"rel": r.choice(["eq", "ge", "lt"]), "cmp": "i;ascii-numeric"}, any=anyp)
            if k < .4:
                return {"t": "exists", "any": anyp, "names": r.sample(["X-Q", "X-R", "x-p", "X-None", "Content-Disposition", "Content-Type"], r.choice([1, 2]))}
            if k < .6:
                mo = r.choice([{"k": "type"}, {"k": "subtype"}, {"k": "contenttype"}, {"k": "param", "ps": [r.choice(["charset", "name", "X-P", "filename"])]}, {"k": "param", "ps": ["name", "x-p"]}])
                nm = [r.choice(["Content-Type", "content-disposition"])]
                if r.random() < .35:
                    return hdt(nm, [str(r.randrange(4 if "disp" in nm[0] else tot + 1))], "count", m={"rel": r.choice(["eq", "ge", "lt"]), "cmp": "i;ascii-numeric"}, any=anyp, mo=mo)
                return hdt(nm, r.sample(["text", "plain", "html", "text/plain", "image/png", "multipart", "related", "a", "b", "utf-8", "n", "f%s.txt" % some(), "g" + some(), "attachment", "xml"], r.choice([1, 2])), any=anyp, mo=mo)
            tr = r.choice(["content", "content", "text", "raw"])
            t = {"t": "body", "m": {"mt": "contains"}, "tr": tr, "subj": False, "keys": [r.choice(["t", "inner", "X-P: "]) + some()]}
            if tr == "content":
                t["cts"] = r.sample(["text", "TEXT", "text/plain", "Text/Plain", "text/html", "multipart", "message", "message/rfc822", "application/xml", "APPLICATION", "image", "multipart/related", ""], r.choice([1, 1, 2]))
                if r.random() < .3:
                    t["m"] = {"mt": "count", "rel": r.choice(["eq", "ge", "lt"]), "cmp": "i;ascii-numeric"}
                    t["keys"] = [str(r.randrange(tot + 1))]
            return t

        def looks(k):
            return [iff(test(), [note("%d" % (next(cn) % 10))], [note("-")] if r.random() < .4 else None) for _ in range(k)]
        b = looks(r.choice([2, 4, 6]))
        inner = [iff(hdt("X-P", r.sample([str(j) for j in range(tot)], min(tot, 3))), looks(r.choice([2, 3])))]
        if r.random() < .3:
            inner.append({"c": "fep", "b": looks(2), "label": ""})
        b.append({"c": "fep", "b": inner, "label": ""})
        if r.random() < .3:
            b += looks(1)
        out.append(mk("deep-%d-%d" % (seed, i), b, message=m, rt={"cpu_limit": 5000}))
    return out


def members(seed, n):
    """addresses of every shape, in lists and groups, on several fields of one name"""
    r = random.Random(seed)
    out = []
    ads = ["a@b.com", "A@B.com", "a+x@b.com", "a+x+y@B.COM", "c@d.org", "root", "+x@b.com", "a+@b.com", "c+X@d.org", "nobody", "x.y+z-1@sub.d.org"]
    num = {"cmp": "i;ascii-numeric"}
    for i in range(n):
        pool = ads if r.random() < .5 else r.sample(ads, 4)
        ad = lambda: [(r.choice(["", "", "N", "Q, R", "a@b.com"]), r.choice(pool)) for _ in range(r.choice([1, 2, 3, 4, 5]))]
        gr = lambda: r.choice([None, None, ("Team", False), ("Our Team", True)])
        hs = [msg.addr(nm, ad(), gr(), r.choice([None, None, 4])) for nm in r.sample(["From", "To", "Cc", "To", "Cc", "Sender", "Reply-To", "Bcc", "Resent-To"], r.choice([2, 3, 4, 5]))]
        if r.random() < .3:
            m = msg.build(msg.multi(hs, [msg.leaf([msg.addr("To", ad(), gr()), msg.addr("X-To", ad())], "one\r\n"), msg.leaf([msg.addr("cc", ad())], "two\r\n")], "w"))
        else:
            m = msg.simple(hs)

        def test():
            nm = r.choice([["To"], ["cc"], ["From", "Sender"], ["To", "Cc"], ["Reply-To", "bcc", "resent-to"], ["To"]])
            t = {"t": "address", "m": {"mt": "is"}, "names": nm, "part": r.choice(["all", "localpart", "domain", "user", "detail", "detail"]), "idx": r.choice([0, 0, 0, 1, 2, -1, -2]), "any": r.random() < .15}
            k = r.random()
            keys = ["a", "c", "x", "x+y", "y", "", "b.com", "d.org", "sub.d.org", "root", "nobody", "X", "z-1", "a@b.com", "a+x@b.com", "N"]
            if k < .4:
                t["m"] = {"mt": r.choice(["is", "is", "contains"]), **({"cmp": "i;octet"} if r.random() < .4 else {})}
            elif k < .6:
                t["m"] = {"mt": "count", "rel": r.choice(["eq", "ge", "lt", "ne"]), **num}
                keys = [str(j) for j in range(9)]
            elif k < .75:
                t["m"] = {"mt": "value", "rel": r.choice(["gt", "ge", "lt", "le", "eq", "ne"]), **({"cmp": "i;octet"} if r.random() < .4 else {})}
            elif k < .95:
                t["m"] = {"mt": "matches"}
                keys = ["*", "?", "?*", "*+*", "*.com", "a*", "*x", "*@*"]
            else:
                t["m"] = {"mt": "list"}
                keys = ["l1", "l2"]
            t["keys"] = r.sample(keys, r.choice([1, 1, 2]))
            return t if r.random() < .85 else {"t": "not", "x": t}
        b = []
        if r.random() < .3:
            b.append({"c": "addheader", "n": r.choice(["To", "Cc"]), "v": r.choice(ads[:5] + ["N <c@d.org>", "a@b.com, c@d.org"]), "last": r.random() < .5})
        if r.random() < .2:
            b.append({"c": "deleteheader", "n": r.choice(["To", "Cc"]), "m": {"mt": "is"}, "idx": r.choice([1, -1, 2])})
        for j in range(r.choice([3, 5, 7])):
            t = test()
            b.append(iff(t, [note("%d" % j)] + ([st("global.t", [("g", "t"), "<", ("m", 1), ">"])] if t.get("m", {}).get("mt") == "matches" and r.random() < .6 else []), [note("-")] if r.random() < .3 else None))
        if m[1]["parts"][0]["k"] == "multi" and r.random() < .5:
            b.append({"c": "fep", "b": [iff(test(), [note("p")])], "label": ""})
        out.append(mk("member-%d-%d" % (seed, i), b, message=m, answers=[r.random() < .5 for _ in range(8)], ctx={"globals": [["t", {"t": "s", "v": ""}]]}))
    return out


# ------------------------------------------------------------------ P11
def walks(seed, n, edits=False):
    """nested part loops over deep messages, left and resumed in every way, each part visited leaves its mark
    (edits: parts are replaced, extended and shortened while loops stand at them)"""
    r = random.Random(seed)
    out = []
    for i in range(n):
        cnt = itertools.count()

        def part(d):
            x = "%d" % next(cnt)
            hs = [msg.text("X-P", x)] + ([msg.text("X-Q", r.choice("ab"))] if r.random() < .5 else [])
            k = r.random()
            if d and k < .5:
                return msg.multi(hs, [part(d - 1) for _ in range(r.choice([1, 2, 2, 3]))], "w" + x)
            if k > .93:
                return msg.attached(hs, msg.leaf([msg.text("X-P", "i" + x)], "inner\r\n"))
            return msg.leaf(hs + [msg.ctype("text", "plain")], "t%s\r\n" % x)
        top = [msg.addr("From", [("", "a@b.com")]), msg.text("X-P", "top")]
        m = msg.build(msg.multi(top, [part(r.choice([2, 2, 2, 3])) for _ in range(r.choice([1, 2, 2, 3, 4]))], "w") if r.random() < .95 else msg.leaf(top, "t\r\n"))
        labs = itertools.count()

        def hd(name, keys, mt="is"):
            return {"t": "header", "m": {"mt": mt}, "names": [name], "keys": keys, "idx": 0, "any": False, "mo": {"k": ""}}

        def mark(t):
            return iff(hd("X-P", ["*"], "matches"), [st("global.t", [("g", "t"), t, ("m", 1)])], [note(t + "-")])

        def cond():
            k = r.random()
            return hd("X-P", r.sample([str(j) for j in range(9)], r.choice([1, 2, 3]))) if k < .5 else hd("X-Q", [r.choice("ab")]) if k < .8 else ask("q") if k < .9 else T

        def leave(labels, inwhile):
            k = r.random()
            if k < .45 and any(labels):
                c = {"c": "break", "label": r.choice([x for x in labels if x])}
            elif k < .7:
                c = {"c": "break"}
            elif k < .85 and inwhile:
                c = {"c": "continue"}
            elif k < .9:
                c = {"c": "return"}
            else:
                c = {"c": "include", "name": "sub"}
            return iff(cond(), [c]) if r.random() < .9 else iff(cond(), [note("e")], [c])

        def edit():
            k = r.random()
            c = {"c": "replace", "mime": r.random() < .2, "v": r.choice(["new", "X-P: r\r\n\r\nz"])} if k < .65 else {"c": "addheader", "n": "X-P", "v": r.choice("yz"), "last": r.random() < .5} if k < .85 else \
                {"c": "deleteheader", "n": r.choice(["X-Q", "X-P"]), "idx": r.choice([0, 1, -1])} if k < .97 else {"c": "enclose", "v": "e"}
            return [iff(hd("X-P", r.sample([str(j) for j in range(9)], r.choice([1, 1, 2]))), [c])] + ([{"c": "extracttext", "name": "x"}, st("global.t", [("g", "t"), "=", ("v", "x")])] if r.random() < .4 else [])

        def loop(d, labels, inwhile):
            lab = "L%d" % next(labs) if r.random() < .6 else ""
            b = [mark("(")]
            for _ in range(r.choice([1, 2, 2, 3])):
                k = r.random()
                if edits and r.random() < .5:
                    b += edit()
                if k < .45 and d:
                    x = loop(d - 1, labels + [lab], inwhile)
                    b += [iff(cond(), x)] if r.random() < .3 else x
                elif k < .6 and d and not inwhile:
                    v = "n%d" % next(labs)
                    pre.append(st(v, "0"))
                    b += [{"c": "let", "name": v, "e": lit(0)}, {"c": "while", "e": op("<", var(v), lit(r.choice([1, 2]))), "b":
                          [{"c": "let", "name": v, "e": op("+", var(v), lit(1))}] + loop(d - 1, labels + [lab], True) + [mark("w")]}]
                else:
                    b.append(leave(labels + [lab], inwhile))
                b.append(mark(","))
            return [{"c": "fep", "b": b, "label": lab}, mark(")")]
        pre = [st("x", "")] if edits else []
        body = loop(2, [], False)
        if r.random() < .5:
            body += loop(1, [], False)
        sub = loop(1, [], False) + [mark(".")]
        out.append(mk("walk-%d-%d" % (seed, i), pre + body + [note("end")], [("personal", "sub", sub)], message=m,
                      answers=[r.random() < .5 for _ in range(6)], dflt=r.random() < .5, rt={"cpu_limit": 4000}, ctx={"globals": [["t", {"t": "s", "v": ""}]]}))
    return out


# ------------------------------------------------------------------ P14, P15
REPLYRT = {"vacation_expiry": [86400, 7], "vacation_use_orig_rcpt": [True, False], "vacation_subject": ["Automated reply", "Away"], "vacation_prefix": ["Auto: ", "", "R\u00e9: "],
           "max_out_messages": [0, 1, 2, 3, 6], "max_received_headers": [1, 2, 10], "max_header_size": [8, 1024], "max_redirects": [2],
           "notify_uris": [["mailto"], ["mailto", "tel"], [], ["xmpp:me@example.com?message", "http"]]}
WANTED = [("To", "me@example.com"), ("Cc", "ME@example.com"), ("Bcc", "me@example.com"), ("Resent-To", "me@example.com"), ("Resent-Cc", "me@example.com"), ("Resent-Bcc", "me@example.com")]
MARKS = [lambda r: msg.text(r.choice(["List-Id", "List-Post", "List-Help", "List-Unsubscribe", "List-Archive", "List-Owner", "List-Subscribe"]), "<l.x.org>"),
         lambda r: msg.text("Auto-Submitted", r.choice(["no", "No", "auto-replied", "auto-generated", "auto-notified", "nope"])),
         lambda r: msg.text("X-Auto-Response-Suppress", r.choice(["All", "OOF", "DR, oof", "AutoReply", "none", "Alls", "all,DR", "DR;x, oof", "x all", " , ALL ,", "oof;", "a,b,oOf"])),
         lambda r: msg.text("Precedence", r.choice(["bulk", "Bulk", "list", "junk", "bulky", "list bulk", "BULK"])),
         lambda r: msg.text("Received", "from a by b")]


def vacations(seed, n):
    """messages one mark away from being answered, answered twice, under exact limits"""
    r = random.Random(seed)
    out = []
    fromme = ["al@x.org", "AL@X.org", "mailer-daemon@x.org", "MAILER-DAEMON", "owner-x@y.org", "a-request@y.org", "x-owner@y.org", "me@example.com", "Me@Example.Com", "alias@me.org", ""]
    for i in range(n):
        g = rand.G(r.randrange(1 << 30), prof(cmds=only(set=1), crlf=.2))
        g.predecl, g.flat = [], False
        hs = [msg.addr("From", [(r.choice(["", "Al"]), r.choice(["al@x.org", "AL@X.org", "other@x.org"]))]), msg.text("Subject", r.choice(["s", "", "L" * r.choice([250, 258, 300]), "re \u00e9", "\u00e9" * r.choice([256, 257, 300])]))]
        if r.random() < .3:
            hs.append(msg.addr("Sender", [(r.choice(["", "S. Al"]), r.choice(["al@x.org", "AL@X.org", "other@x.org"]))] + ([("", "al@x.org")] if r.random() < .2 else [])))
        h, a = r.choice(WANTED)
        hs.append(msg.addr(h, [("", "zz@y.org")] * r.choice([0, 1]) + [("Me", a if r.random() < .8 else r.choice(["alias@me.org", "no@y.org"]))]))
        for _ in range(r.choice([0, 0, 0, 1, 1, 2])):
            hs.append(r.choice(MARKS)(r))
        if r.random() < .5:
            hs.append(msg.ident("Message-ID", ["m1@x.org"]))
        if r.random() < .3:
            hs.append(msg.ident("References", ["r1@x.org", "r2@x.org"]))
        r.shuffle(hs)
        b = []
        for k in range(r.choice([1, 1, 2, 3])):
            c = g.c_vacation()
            if r.random() < .5:
                c.pop("addresses", None)
            b.append(c)
            if r.random() < .3:
                b.append(r.choice([{"c": "keep"}, {"c": "discard"}, {"c": "addheader", "n": "Auto-Submitted", "v": "auto-replied"}, {"c": "deleteheader", "n": "List-Id", "m": {"mt": "is"}}, {"c": "fileinto", "folder": "Z"},
                                   {"c": "addheader", "n": "To", "v": "me@example.com"} if False else {"c": "stop"}, {"c": "redirect", "addr": "q@r.com"}, {"c": "set", "name": "envelope.from", "v": "new@x.org"}]))
        env = [["from", r.choice(fromme + ["al@x.org"] * 10)], ["to", r.choice(["me@example.com", "bob@y.org", ""])]]
        if r.random() < .4:
            env.append(["orcpt", r.choice(["alias@me.org", "me@example.com"])])
            if r.random() < .5:
                env.insert(0, env.pop())
        if r.random() < .2:
            b.insert(0, {"c": "setflag", "flags": [r.choice(["\\Seen", "a b"])]})
        out.append(mk("vac-%d-%d" % (seed, i), b, message=msg.simple(hs), rt={k: r.choice(v) for k, v in REPLYRT.items()} if r.random() < .6 else {},
                      ctx={"user": r.choice(["me@example.com"] * 5 + [""]), "fullname": r.choice(["", "Me M"]), "envelope": env, "globals": [["g1", {"t": "s", "v": "G\r\nX-Evil: 1"}]]},
                      answers=[r.random() < .35 for _ in range(4)], dflt=r.random() < .3))
    return out


def notices(seed, n):
    """notifications by every kind of method, several in a row, under exact limits"""
    r = random.Random(seed)
    out = []
    for i in range(n):
        g = rand.G(r.randrange(1 << 30), prof(cmds=only(set=1), crlf=.25))
        g.predecl, g.flat = [], False
        hs = [msg.addr("From", [("", "al@x.org")]), msg.addr("To", [("", "me@example.com")])] + ([msg.text("Subject", r.choice(["s", "L" * 258, "\u00e9", "two words"]))] if r.random() < .8 else [])
        if r.random() < .15:
            hs.append(msg.text("Auto-Submitted", r.choice(["no", "NO", "auto-replied"])))
        b = []
        for k in range(r.choice([1, 1, 2, 3])):
            b.append(g.c_notify())
            if r.random() < .3:
                b.append(r.choice([{"c": "keep"}, {"c": "discard"}, {"c": "fileinto", "folder": "Z"}, {"c": "redirect", "addr": "q@r.com"}, {"c": "addheader", "n": "X-N", "v": "1"},
                                   {"c": "addheader", "n": "Auto-Submitted", "v": "auto-replied"}, iff(g.t_validnotify(), [note("V")], [note("v")]), iff(g.t_notifycap(), [note("C")], [note("c")])]))
        out.append(mk("ntf-%d-%d" % (seed, i), b, message=msg.simple(hs), rt={k: r.choice(v) for k, v in REPLYRT.items()} if r.random() < .6 else {},
                      ctx={"user": "me@example.com", "fullname": r.choice(["", "Me M"]), "envelope": [["from", "al@x.org"]],
                           "globals": [["empty", {"t": "s", "v": ""}], ["g1", {"t": "s", "v": r.choice(["3", "1", "G\r\nX-Evil: 1", "Me@Example.com"])}], ["t", {"t": "s", "v": ""}]]}))
    return out


# ------------------------------------------------------------------ P25
def count(x, rel="eq"):
    return {"mt": "count", "rel": rel, "cmp": "i;ascii-numeric"}, [str(x)]


def days(seed, n):
    """few date fields, at midnight, in odd zones or written by the script; every part asked with the right key and with near ones"""
    r = random.Random(seed)
    out = []
    for i in range(n):
        g = rand.G(r.randrange(1 << 30), {"mt": {"is": 1}})
        ds = []
        for _ in range(r.choice([2, 3])):
            d = g.rdate()
            if r.random() < .45:
                d.update(h=0, mi=0, s=0)
            d["z"] = r.choice([0, 0, -60, 60, -30, 30, -480, 330, -210, 660, -660])
            ds.append((msg.date_text(d), d))
        hs = [msg.addr("From", [("", "a@b.com")])]
        at = r.choice(["Date", "X-Date"])
        hs.append(msg.date(at, ds[0][1], r.random() < .7))
        two = r.random() < .4
        if two:
            hs.append(msg.date("X-Date" if at == "X-Date" else "Resent-Date", ds[1][1]))
        r.shuffle(hs)
        b = []
        cnt = itertools.count()
        last = ds[-1]

        def ask_(name, d):
            dp = r.choice(rand.G.DP)
            z = r.choice(["original", "original", g.zone(dp)])
            m = {"mt": r.choice(["is", "is", "is", "value", "matches"])}
            v = rand.date_part(d, dp, z)
            near = [v]
            for dd in (1, -1):
                y = dict(d, s=max(0, min(59, d["s"] + dd)), mi=max(0, min(59, d["mi"] + dd)))
                near.append(rand.date_part(y, dp, z))
            if dp == "julian" or dp == "weekday":
                near += [str(int(v) + 1), str(abs(int(v) - 1))]
            if m["mt"] == "value":
                m["rel"] = r.choice(["ge", "le", "eq", "gt", "lt"])
            t = {"t": "date", "m": m, "idx": 0, "any": False, "zone": z, "dp": dp, "name": name, "keys": [r.choice([v, v, r.choice(near)])]}
            if r.random() < .1:
                t["m"], t["keys"] = count(r.choice([0, 1, 2]))
            return iff(t, [note("%d" % (next(cnt) % 10))], [note("-")] if r.random() < .4 else None)
        b += [ask_(at, ds[0][1]) for _ in range(3)]
        if two:
            b += [ask_("X-Date" if at == "X-Date" else "Resent-Date", r.choice(ds[:2])[1]) for _ in range(2)]
        if r.random() < .7:
            b.append({"c": "addheader", "n": r.choice(["X-New", at]), "v": r.choice([last[0], [("g", "gdt")]]), "last": r.random() < .5})
            b += [ask_(r.choice(["X-New", at]), last[1]) for _ in range(3)]
        out.append(mk("day-%d-%d" % (seed, i), b, message=msg.simple(hs), dates=[[t, d] for t, d in ds], ctx={"globals": [["t", {"t": "s", "v": ""}], ["gdt", {"t": "s", "v": last[0]}]]}))
    return out


def facts(seed, n):
    """verdicts of any fineness; annotations and items given by the host twice, in other cases and for other mailboxes"""
    r = random.Random(seed)
    out = []
    anns = ["/private/x", "/PRIVATE/X", "/shared/y", "/private/z"]
    mbs = ["INBOX", "inbox", "Junk", "junk", ""]
    vals = ["v1", "v2", "V1", "10", "9", "", "v1 v2"]
    for i in range(n):
        spam = r.choice([0, 1, 2, 5, 9, 10, 11] + [1000 + k for k in (0, 1, 10, 11, 100, 102, 103, 204, 205, 206, 307, 308, 512, 700, 921, 922, 1000, 1013, 1014, 1015, 1024)] + [1000 + r.randint(0, 1024)])
        virus = r.randint(0, 5)
        rtm = [[r.choice(mbs), r.choice(anns), r.choice(vals)] for _ in range(r.choice([0, 1, 2, 3]))]
        cxm = [[r.choice(mbs), r.choice(anns), r.choice(vals)] for _ in range(r.choice([0, 1, 2]))]
        k = spam - 1000
        pcts = [(100 * k + 1023) // 1024 if k >= 0 else 10 * spam, 100 * k // 1024 if k >= 0 else 0, 0, 1, 100, 50]
        nums = [10 * k // 1024 if k >= 0 else spam, 0, 1, 2, 9, 10, 5]
        b = []
        for j in range(r.randint(4, 8)):
            q = r.random()
            m = r.choice([{"mt": "is"}, {"mt": "is", "cmp": "i;ascii-numeric"}] + [{"mt": "value", "rel": x, "cmp": "i;ascii-numeric"} for x in ("ge", "le", "eq", "ne", "gt", "lt")])
            if q < .3:
                pct = r.random() < .6
                t = {"t": "spamtest", "m": m, "pct": pct, "key": str(max(0, r.choice((pcts if pct else nums)[:2] * 3 + (pcts if pct else nums)) + r.choice([0, 0, 0, 1, -1])))}
                if r.random() < .2:
                    t["m"] = {"mt": "count", "rel": r.choice(["eq", "ge", "lt", "gt"]), "cmp": "i;ascii-numeric"}
                    t["key"] = r.choice(["0", "2"])
            elif q < .4:
                t = {"t": "virustest", "m": m, "key": str(max(0, virus + r.choice([0, 0, 1, -1])))}
                if r.random() < .2:
                    t["m"] = {"mt": "count", "rel": r.choice(["eq", "ge", "lt", "gt"]), "cmp": "i;ascii-numeric"}
                    t["key"] = r.choice(["0", "2"])
            elif q < .7:
                x = r.choice(rtm + cxm + [["Junk", "/none", ""]])
                t = {"t": "metadata", "m": {"mt": r.choice(["is", "is", "contains", "matches"])}, "mbox": r.choice([x[0], x[0], x[0].swapcase()]) or None, "ann": r.choice([x[1], x[1].upper(), x[1].lower(), r.choice(anns)]),
                     "keys": r.sample([y for y in [x[2]] * 3 + vals if y or True], r.choice([1, 1, 2]))}
            else:
                x = r.choice(rtm + cxm + [["Junk", "/none", ""]])
                t = {"t": "metadataexists", "mbox": r.choice([x[0], x[0], x[0].swapcase()]) or None, "anns": [x[1]] if r.random() < .4 else [r.choice([x[1], x[1].upper(), x[1].title()])] + [r.choice([y[1] for y in rtm + cxm] + anns) for _ in range(r.choice([0, 1, 2]))]}
            b.append(iff(t if r.random() < .85 else {"t": "not", "x": t}, [note("%d" % j)], [note("-")] if r.random() < .4 else None))
        out.append(mk("fact-%d-%d" % (seed, i), b, ctx={"spam": spam, "virus": virus, "metadata": cxm, "globals": [["t", {"t": "s", "v": ""}]]}, rt={"metadata": rtm}))
    return out


def asks(seed, n):
    """questions whose values differ in case, in blanks or not at all"""
    r = random.Random(seed)
    out = []
    vs = ["a@b.com", "A@b.com", "a@B.COM", "c@d.org", "", " id ", "id", "two words"]
    for i in range(n):
        ad = lambda: [(r.choice(["", "N"]), r.choice(["a@b.com", "A@b.com", "c@d.org", "a+x@b.com"])) for _ in range(r.choice([1, 2, 3, 4]))]
        hs = [msg.addr("From", ad()), msg.addr("To", ad(), r.choice([None, None, ("Team", True)])), msg.addr("Cc", ad())] + [msg.text("X-A", r.choice(vs[:4] + ["two words"])) for _ in range(r.choice([1, 2, 3, 4]))]
        if r.random() < .5:
            hs.append(msg.ident("Message-ID", ["m@x.org"]))
        days = [{"y": r.choice([2023, 2024]), "mo": 5, "d": r.choice([6, 7]), "h": r.choice([9, 10]), "mi": 0, "s": 0, "z": 0} for _ in range(3)]
        dts = [r.choice(days) for _ in range(r.choice([0, 2, 3, 4]))]
        hs += [msg.date("X-Date", d) for d in dts]
        xid = [msg.text(r.choice(["X-Id", "x-id"]), r.choice(["q", "w 1"]))]
        if r.random() < .5:
            hs += xid if r.random() < .7 else []
            m = msg.build(msg.multi(hs, [msg.leaf([msg.text("X-P", "1")] + (xid if r.random() < .5 else []), "one\r\n"), msg.multi([], [msg.leaf(xid if r.random() < .5 else [], "two\r\n")], "v")], "w"))
        else:
            m = msg.simple(hs + (xid if r.random() < .7 else []))
        lists = lambda: r.sample(["urn:l1", "urn:l2", "tag:x"], r.choice([1, 2]))
        L = lambda: {"mt": "list", **({"cmp": r.choice(["i;octet", "i;ascii-casemap", "i;ascii-numeric"])} if r.random() < .4 else {})}
        b = []
        for j in range(r.choice([1, 2, 3, 4])):
            k = r.random()
            if k < .3:
                t = {"t": "duplicate", "by": "uniqueid", "v": r.choice([" id", "id ", "id", "", [("g", "sp"), "x"], "Id"])} if r.random() < .6 else {"t": "duplicate", "by": "header", "v": r.choice(["X-Id", "Message-ID", "x-id"])}
                if r.random() < .5:
                    t["handle"] = r.choice(["h", " h", "h ", "", [("g", "sp"), "h"]])
                if r.random() < .4:
                    t["seconds"] = r.choice([1, 3600])
                t["last"] = r.random() < .3
            elif k < .5:
                t = {"t": "string", "m": L(), "src": [r.choice(vs) for _ in range(r.choice([1, 2, 3, 4]))], "keys": lists()}
            elif k < .75:
                t = {"t": "address", "m": L(), "names": r.sample(["From", "To", "cc"], r.choice([1, 2])), "part": r.choice(["all", "localpart", "domain", "user", "detail"]), "keys": lists(), "idx": r.choice([0, 0, 1, -1]), "any": False}
            elif k < .85:
                t = {"t": "header", "m": L(), "names": r.sample(["X-A", "From", "X-None"], r.choice([1, 2])), "keys": lists(), "idx": r.choice([0, 0, 2, -1]), "any": False}
            elif dts and k < .95:
                t = {"t": "date", "m": L(), "idx": r.choice([0, 0, 0, 2, -1]), "any": False, "zone": r.choice(["original", 0, 0]), "dp": r.choice(["year", "day", "date", "hour", "weekday"]), "name": r.choice(["X-Date", "x-date"]), "keys": lists()}
            elif k < .92:
                t = {"t": "envelope", "m": L(), "part": r.choice(["all", "localpart", "domain"]), "fields": r.sample(["from", "to"], r.choice([1, 2])), "keys": lists()}
            else:
                t = {"t": r.choice(["mailboxexists", "mailboxidexists"]), "names": [r.choice(["A", "a", "A ", "", "A/B"]) for _ in range(r.choice([1, 2, 3]))]}
            if r.random() < .25:
                t = {"t": "not", "x": t}
            b.append(iff(t, [note("%d" % j)], [note("-")]))
        if m[1]["parts"][0]["k"] == "multi" and r.random() < .4:
            b = [{"c": "fep", "b": b, "label": ""}]
        out.append(mk("asks-%d-%d" % (seed, i), b, message=m, dates=[[msg.date_text(d), d] for d in days], answers=[r.random() < .5 for _ in range(8)],
                      ctx={"globals": [["t", {"t": "s", "v": ""}], ["sp", {"t": "s", "v": " "}]], "envelope": [["from", r.choice(["a@b.com", ""])]] + [["to", r.choice(["A@b.com", "a@b.com", "c@d.org"])] for _ in range(r.choice([1, 2, 3]))]}))
    return out


# ------------------------------------------------------------------ P21
def stored(seed, n):
    """cases of every other family, run from a script that went through a serialisation"""
    r = random.Random(seed)
    fs = [f for p in sorted(FAMS) if p not in ("P21", "P22", "P02") for f, _, _ in FAMS[p]]
    out = []
    for k, f in enumerate(fs):
        cs = f(seed + 100, max(4, n // len(fs) * 2))
        r.shuffle(cs)
        for c in cs[:max(2, n // len(fs))]:
            c.h.pop("dfs", None)
            c.s["dfs"] = 0
            c.h["via"] = ["serde", "rkyv", "both"][len(out) % 3]
            out.append(c)
    return out


def hoists(seed, n):
    """cases of every other family with some of their literal texts given through variables instead:
    local to the script, to its outermost block, or global"""
    r = random.Random(seed)
    fs = [f for p in sorted(FAMS) if p not in ("P21", "P22", "P02", "P19", "P20") for f, _, _ in FAMS[p] if f is not hoists]
    out = []
    for k, f in enumerate(fs):
        lang.HOIST = (random.Random(seed * 1000 + k), r.choice([.4, .7, .95]), ["l", "l", "l", "b", "g"])
        try:
            cs = f(seed + 300, max(4, n // len(fs) * 2))
        finally:
            lang.HOIST = None
        r.shuffle(cs)
        out += cs[:max(2, n // len(fs))]
    return out


# ------------------------------------------------------------------ P22
MIXED = dict(cmds=dict(include=2, addheader=2, deleteheader=1, replace=.5, enclose=.3, convert=.3, fep=1.5, vacation=1, notify=1, redirect=2, let=2, eval=1, extracttext=.7, **{"while": 1}),
             tests=dict(size=0, string=4, mailboxexists=2, duplicate=1, currentdate=1, environment=1), jumps=True, replies=True, len=(2, 7), mparams=["charset", "name"])


def sharing(seed, n):
    """several executions of one compiled script under one runtime: one after another, advanced
    alternately in a random order, on several threads, or in every order of their first calls"""
    r = random.Random(seed)
    out = []
    i = 0
    while len(out) < n:
        i += 1
        mode = r.choices(["order", "every", "threads", "after", "pause"], [5, 1.5, 3, 1.5, .1])[0]
        pr = dict(prof(**MIXED), msgs={"multi": 2, "simple": 2, "bodies": 1})
        seeds = [r.randrange(1 << 30) for _ in range(2 if mode in ("every", "pause") else r.choice([2, 3, 4]))]
        base = rand.G(seeds[0], pr).case("x")
        ms = []
        for j, s in enumerate(seeds):
            g = rand.G(s, dict(pr))
            o = g.case("x")
            same = r.random() < .25
            ms.append(base.vary("sh-%d-%d.%d" % (seed, i, j), message=None if same else o.args[2], ctx=None if same else o.args[4],
                                answers=[r.random() < .5 for _ in range(6)], dflt=r.random() < .5, fnc=o.args[5]["fnc"], ack=r.random() < .8))
        k = len(ms)
        if mode == "after":
            case.Group(ms, "order", order=[])
        elif mode == "order":
            case.Group(ms, "order", order=[r.randrange(k) for _ in range(r.choice([6, 12, 24]))])
        elif mode == "pause":
            case.Group(ms, "order", order=[0, 1, 0, 1], pause=1200)
        elif mode == "every":
            case.Group(ms, "every", calls=3)
        else:
            case.Group(ms, "threads", rounds=2)
        out += ms
    return out


# ------------------------------------------------------------------ table
EDIT = dict(addheader=3, deleteheader=3)
# ------------------------------------------------------------------ P19
USES = {"fileinto": lambda r: {"c": "fileinto", "folder": r.choice("AB")}, "copy": lambda r: {"c": "redirect", "addr": "x@y.org", "copy": True},
        "imap4flags": lambda r: {"c": "addflag", "flags": ["f%d" % r.randint(1, 3)]}, "editheader": lambda r: {"c": "addheader", "n": "X-P", "v": "1"},
        "ereject": lambda r: {"c": "reject", "ext": True, "reason": "no"}, "vnd.none": lambda r: unknown(r), "vnd.other": lambda r: unknown(r),
        "mailbox": lambda r: iff(ask("Q"), [note("q")]), "vacation": lambda r: {"c": "keep"}, "spamtestplus": lambda r: {"c": "keep"}, "encoded-character": lambda r: note("e")}


def unknown(r):
    n = r.choice(["frobnicate", "do_it", "x.y"])
    a = r.choice(["", ' "s"', " :tag 5", ' ["a", "b"] :z', " not x"])
    return {"c": "invalid", "src": n + a + r.choice([";", " { keep; stop; }", " { frob; if x { discard; } }"]), "name": n}


def permits(seed, n):
    """scripts that ask what is permitted, require it in the branch that may, and do what the host does not know"""
    out = []
    for i in range(n):
        r = random.Random(seed * 31337 + i)
        cnt = [0]

        def tag():
            cnt[0] += 1
            return note("n%d" % cnt[0])

        def cond(d=0):
            x = r.random()
            cs = r.sample(sorted(USES), r.choice([1, 1, 2]))
            if x < .55:
                return {"t": "ihave", "caps": cs + (["variables"] if r.random() < .1 else [])}
            if x < .65:
                k = r.choice(["frobtest", "is_it"])
                return {"t": "unknown", "src": k + r.choice(["", ' "s"', " :tag", ' ["a", "b"]', " (x, y)"]), "name": k}
            if x < .75:
                return {"t": r.choice(["true", "false"])}
            if x < .85:
                return {"t": "not", "x": cond(d + 1)}
            return {"t": r.choice(["allof", "anyof"]), "ts": [cond(d + 1) for _ in range(2)]}

        deep = i % 4 == 1

        def block(d, dec=()):
            b = []
            dec = set(dec)
            for _ in range(r.choice([1, 2, 2, 3]) if not deep or d < 2 else 1):
                x = r.random()
                if deep and d < 7 and r.random() < .7:
                    # declared at one depth, used at depths below it
                    if r.random() < .7:
                        cs = r.sample(sorted(USES), 1)
                        b.append({"c": "require", "caps": cs})
                        dec |= set(cs)
                    for c in r.sample(sorted(dec), min(len(dec), r.choice([0, 1, 2]))):
                        b.append(USES[c](r))
                    b.append(iff(T if r.random() < .5 else cond(), block(d + 1, dec), block(d + 1, dec) if r.random() < .15 else None))
                elif dec and r.random() < .4:
                    b.append(USES[r.choice(sorted(dec))](r))
                elif x < .3:
                    b.append(tag())
                elif x < .6 and d < 3:
                    t = cond()
                    inner = block(d + 1)
                    if t["t"] == "ihave" and r.random() < .8:
                        cs = [c for c in t["caps"] if c in USES]
                        inner = [{"c": "require", "caps": cs}] + [USES[c](r) for c in cs] + inner
                    b.append(iff(t, inner, block(d + 1) if r.random() < .5 else None))
                elif x < .8:
                    cs = r.sample(sorted(USES), r.choice([1, 1, 2]))
                    b.append({"c": "require", "caps": cs})
                    b += [USES[c](r) for c in cs]
                elif x < .88:
                    b.append(unknown(r))
                elif x < .94:
                    b.append({"c": "include", "name": r.choice(["one", "two"])})
                else:
                    b.append({"c": r.choice(["keep", "stop"])})
            return b
        body = block(0)
        incs = [("personal", "one", [tag()] + block(2)), ("personal", "two", [{"c": "require", "caps": r.sample(sorted(USES), 1)}, tag()])]
        rt = {"nocaps": r.sample(sorted(set(USES) - {"vnd.none", "vnd.other"}), r.choice([0, 1, 2, 4])), "max_redirects": 5, "max_out_messages": 5}
        if r.random() < .05:
            rt["nocaps"].append(r.choice(["variables", "ihave", "include"]))
        rt["caps"] = sorted(lang.EXTRA_CAPS | set(r.sample(["vnd.none", "vnd.other"], r.choice([0, 0, 1, 2]))))
        out.append(mk("permit-%d-%d" % (seed, i), body, incs, rng=r, style=1, rt=rt, ctx={"user": "me@example.com"}, dfs=2 if i % 3 == 0 else 0))
    return out


# ------------------------------------------------------------------ P26
HVARS = {"addr": ["text", "all", "name", "localpart", "domain", "user", "detail", "raw", "raw_name", "exists"],
         "text": ["text", "text", "raw", "raw_name", "exists", "type"], "date": ["text", "date", "date", "raw"], "id": ["text", "id", "id", "raw"],
         "refs": ["text", "text", "raw"], "ctype": ["text", "type", "subtype", "attr", "attr", "raw"]}
HNAMES = {"addr": ["From", "To", "Cc", "X-List", "Sender", "Reply-To"], "text": ["Subject", "X-A", "x-a", "X-B", "X-None", "Comments"], "date": ["Date", "X-Date"],
          "id": ["Message-ID", "X-Id"], "refs": ["References", "In-Reply-To"], "ctype": ["Content-Type", "Content-Disposition"]}
HTXT = ["Test", "a  b", "x", "10", "two words here", "\u00e9t\u00e9 ok", "a@b.com", ""]


def msgvars(seed, n):
    """header fields, parts and bodies read through variables, before and after the script changes them"""
    r = random.Random(seed)
    out = []
    for i in range(n):
        g = rand.G(r.randrange(1 << 30), prof())
        dates = []

        def date():
            d = g.rdate()
            while not 1971 <= d["y"] <= 2036:
                d = g.rdate()
            dates.append(d)
            return d

        def addrs():
            return [(r.choice(["", "", "Al", "Al, B", "Me X"]), r.choice(["a@b.com", "u+det@x.org", "M.e@Example.COM", "nobody"])) for _ in range(r.choice([1, 1, 2, 3]))]

        def field():
            k = r.choice(["addr", "addr", "text", "text", "text", "date", "id", "refs"])
            nm = r.choice(HNAMES[k])
            if k == "addr":
                return msg.addr(nm, addrs())
            if k == "date":
                return msg.date(nm, date())
            if k in ("id", "refs"):
                return msg.ident(nm, ["%s%d@x.org" % (c, r.randint(1, 9)) for c in "abc"[:r.choice([1, 1, 2, 3]) if nm != "Message-ID" else 1]])
            v = r.choice(HTXT)
            return msg.text(nm, v, fold=r.choice([None, None, 2]) if v.isascii() and "  " not in v else None, enc=bool(v) and r.random() < .2 and "  " not in v)

        def fields(lo, hi):
            hs, seen = [], set()
            for _ in range(r.randint(lo, hi)):
                h = field()
                if h["n"] in seen and h["n"] in ("message-id", "date", "references", "in-reply-to"):
                    continue
                seen.add(h["n"])
                hs.append(h)
            return hs

        def leaf():
            hs = fields(0, 2)
            t = r.choice([("text", "plain"), ("text", "plain"), ("text", "html"), ("text", "html"), ("image", "png"), ("application", "octet-stream"), ("text", "csv"), None])
            if t:
                hs.append(msg.ctype(*t, [("charset", "utf-8")] * (t[0] == "text") + [("name", r.choice(["f.txt", "a b"]))] * (r.random() < .25) + [(r.choice(["x-p", "x-p-q", "x"]), r.choice(["f", "p q"]))] * (r.random() < .3)))
                if r.random() < .25:
                    hs.append(msg.ctype(r.choice(["attachment", "inline"]), "", [("filename", "f1")] * (r.random() < .5), name="Content-Disposition"))
            r.shuffle(hs)
            body = r.choice(["<p>ab</p>", "<p>a <b>bold</b> yes</p>"] if t == ("text", "html") else ["Test body.\r\n", "a < b\r\n\r\nab", "x", "10", "l1\r\nl2\r\n"] + ["\u00e9"] * (t is not None))
            enc = r.choice([None, None, "base64", "quoted-printable"])
            return msg.leaf(hs, body, enc=None if body.endswith("\r\n") and enc == "base64" else enc)

        def part(d, b):
            k = r.random()
            if d and k < .4:
                return msg.multi(fields(0, 1), [part(d - 1, b + str(j)) for j in range(r.choice([1, 2]))], "v" + b, r.choice(["mixed", "related", "related"]))
            if k > .9:
                return msg.attached(fields(0, 1), msg.leaf([msg.text("Subject", "inner")], "inner\r\n"))
            return leaf()
        top = fields(2, 7) + [msg.text("X-Top", "1")]
        if r.random() < .35:
            x = leaf()
            x["h"] = top + x["h"]
            m = msg.build(x)
        else:
            m = msg.build(msg.multi(top, [part(1, str(j)) for j in range(r.choice([1, 2, 3]))], "v", r.choice(["mixed", "mixed", "related"])))

        def ref():
            if r.random() < .2:
                return ("part", r.choice(["part.text", "part.raw", "body.text", "body.html", "body.to_text", "body.to_html"]))
            if r.random() < .06:
                return ("h", {"names": [], "part": r.choice(["raw", "text"])})
            k = r.choice(["addr", "addr", "addr", "text", "text", "date", "id", "refs", "ctype"])
            ns = r.sample(HNAMES[k], r.choice([1, 1, 1, 2]))
            return ("h", {"names": ns, "hi": r.choice([-1, -1, -1, 0, 0, 1, 2, -2, 3, -3]), "pi": r.choice([-1, -1, -1, 0, 0, 1, 2, -2, 3]), "part": r.choice(HVARS[k]),
                          "attr": r.choice(["charset", "Name", "filename", "boundary", "x-p", "X-P-q"]), "zero": r.random() < .3})
        cnt = itertools.count()
        reps = []

        def look():
            k = r.random()
            if reps and k < .4:
                return st("global.g%d" % next(cnt), [("part", r.choice(["body.text", "body.html", "body.to_text", "body.to_html"]))])
            if k < .45:
                return st("global.g%d" % next(cnt), [ref()])
            if k < .6:
                return st("global.t", [("g", "t"), "|", ref(), ";"])
            if k < .7:
                return {"c": "let", "name": "v", "e": op(r.choice(["==", "+", "<"]), {"k": "var", "p": ref()}, lit(r.choice(["Test", "10", ""])))}
            if k < .85:
                return iff({"t": "string", "m": {"mt": r.choice(["is", "contains", "matches", "count"]), "rel": "ge"}, "src": [[ref()]] + [[ref()]] * (r.random() < .3), "keys": [r.choice(["Test", "1", "", "*", "*@*", "a@b.com", "2"])]}, [note("y")], [note("n")])
            if k < .93:
                return {"c": "fileinto", "folder": ["F", ref()], "copy": True, "create": False}
            return st("global.t", [ref(), ("g", "t")])

        def change(top):
            k = r.random()
            if k < .6:
                kd = r.choice(["addr", "addr", "text", "text", "date"])
                v = r.choice(["Al <a@b.com>", "x@y.org", "\"Q R\" <q+d@r.com>, z@z.net"]) if kd == "addr" else r.choice(["Test", "new text", "10", "a   b", "\u00e9"]) if kd == "text" or not dates else msg.date_text(r.choice(dates))
                return {"c": "addheader", "n": r.choice(HNAMES[kd] if kd != "date" else ["X-Date"]), "v": v, "last": r.random() < .5}
            if k < .8:
                nm = r.choice(["X-A", "Subject", "To", "X-List", "X-Date"])
                return {"c": "deleteheader", "n": nm, "idx": r.choice([0, 1, -1])}
            if m[1]["parts"][0]["k"] != "multi":
                return st("v", "w")
            if top:
                return {"c": "fep", "b": [iff({"t": "header", "m": {"mt": "is"}, "names": ["Content-Type"], "mo": {"k": r.choice(["subtype", "type"])}, "keys": [r.choice(["plain", "html", "text", "multipart", "mixed", "related", "image"])], "idx": 0, "any": False}, [replace()])], "label": ""}
            return replace()

        def replace():
            # not at the top of the message, which would be given a fresh date and identifier
            return iff({"t": "not", "x": {"t": "header", "m": {"mt": "is"}, "names": ["X-Top"], "keys": ["1"], "idx": 0, "any": False, "mo": {"k": ""}}}, [rep1()])

        def rep1():
            reps.append(1)
            return {"c": "replace", "v": r.choice(["new text", "<p>new</p>", "X-A: n\r\n\r\nnew body", "Content-Type: text/html\r\n\r\n<p>q</p>"]), "mime": False}
        cm = [st("v", "")]
        for _ in range(r.randint(2, 5)):
            k = r.random()
            if k < .55:
                cm.append(look())
            elif k < .8:
                cm.append(change(True))
            else:
                b = [st("global.t", [("g", "t"), "-", ref()]), look()]
                if r.random() < .3:
                    b.append(change(False))
                    b.append(look())
                cm.append({"c": "fep", "b": b, "label": ""})
        cm.append(look())
        out.append(mk("mvar-%d-%d" % (seed, i), cm, message=m, dates=[[msg.date_text(d), d] for d in dates], ctx={"globals": [["t", {"t": "s", "v": ""}]]}, rt={"cpu_limit": 4000}))
    return out


FAMS = {
    "P01": [(endings, 1000, 9000), (rnd("p01mix", cmds={"reject": 1, "discard": 2, "keep": 2, "fileinto": 4, "redirect": 4, "stop": 1, "error": .7, "include": 1, "return": .5, "setflag": 2, "addheader": 1.5},
                                       tests={"mailboxexists": 2}, rt={"max_redirects": [1, 2, 5], "max_out_messages": [1, 3], "cpu_limit": [5000, 5000, 12, 25]}), 500, 6000)],
    "P02": [(budgets, 500, 5000), (endless, 250, 2000)],
    "P03": [(walks, 150, 3000), (trees, 130, 1500), (shapes, 450, 5000)],
    "P04": [(graphs, 700, 8000)],
    "P05": [(scopes, 500, 6000), (hoists, 900, 9000), (modifiers, 250, 3000)],
    "P06": [(captures, 700, 8000)],
    "P07": [(compares, 250, 4000), (rnd("p07mix", cmds=only(set=2, fileinto=1, **{"if": 5}), tests={"environment": 1, "metadata": 1, "spamtest": 1, "virustest": 1}), 400, 5000)],
    "P08": [(rnd("p08hdr", cmds=only(set=1, fileinto=1, addheader=1, deleteheader=1, fep=1, **{"if": 6}), maxdepth=2, tests=only(header=5, address=4, envelope=2, exists=3, size=1), ptree=.1, mime=.25, any=.2), 800, 9000),
            (rnd("p08body", cmds=only(set=.5, fileinto=.5, fep=2, addheader=.5, **{"if": 6}), maxdepth=2, tests=only(body=6, header=1), msgs={"bodies": 1}, mt={"regex": 1}), 400, 5000), (deeps, 250, 4000), (members, 250, 4000)],
    "P09": [(rnd("p09ver", cmds=only(keep=3, fileinto=5, redirect=3, addheader=4, deleteheader=2, discard=.5, include=1, stop=.3, reject=.3, **{"if": 2, "set": .5}), len=(3, 8),
                 rt={"max_redirects": [2, 5], "max_out_messages": [3, 6]}), 900, 9000)],
    "P10": [(rnd("p10edit", cmds=only(addheader=5, deleteheader=6, fileinto=3, keep=1, fep=1, **{"if": 2}), tests=only(header=3, exists=2, size=1, true=1), len=(3, 8), maxdepth=2,
                 rt={"protected": [[], ["X-A"], ["x-b", "Subject"]], "max_header_size": [4, 1024]}), 800, 9000), (sizes, 300, 5000)],
    "P11": [(rnd("p11fep", cmds=only(fep=5, set=2, fileinto=2, addheader=1, **{"if": 4, "break": 2, "continue": 1, "while": 1, "include": 1, "return": .5}), msgs={"multi": 1}, jumps=True,
                 tests=only(header=4, exists=2, true=1, mailboxexists=1), mime=.4, len=(1, 3)), 500, 6000), (walks, 180, 3000), (shapes, 150, 3000)],
    "P12": [(rewalks, 130, 2500), (rnd("p12edit", cmds=only(replace=3, enclose=1.5, convert=1.2, extracttext=2, fep=4, addheader=2, deleteheader=1, keep=2, set=3, fileinto=2, discard=.3, **{"if": 3}),
                 tests=only(header=4, exists=2, true=1, address=1, string=2), msgs={"multi": 3, "simple": 1, "bodies": 1}, mparams=["charset", "name"], len=(2, 6)), 700, 8000),
            (rewrites, 200, 3000), (converts, 300, 4000)],
    "P13": [(redirects, 900, 9000)],
    "P14": [(rnd("p14vac", cmds=only(vacation=5, set=1, keep=1, fileinto=1, discard=.3, redirect=.5, addheader=1, deleteheader=.7, fep=.3, **{"if": 1}),
                 tests=only(header=2, mailboxexists=2, true=1), replies=True, len=(2, 6), rt=REPLYRT), 900, 9000), (vacations, 350, 4000)],
    "P15": [(rnd("p15notify", cmds=only(notify=6, set=1, keep=1, fileinto=1, discard=.3, redirect=.5, addheader=1, deleteheader=.7, **{"if": 2}),
                 tests=only(header=1, validnotify=3, notifycap=3, true=1), replies=True, len=(2, 6), rt=REPLYRT), 350, 5000), (notices, 250, 3000)],
    "P16": [(flags, 700, 8000)],
    "P17": [(exprs, 600, 8000)],
    "P18": [(asks, 300, 5000), (questions, 250, 3000)],
    "P19": [(permits, 400, 5000)],
    "P20": [(rnd("p20lim", cmds=only(set=5, let=2, fep=1, extracttext=1, addheader=3, vacation=2, notify=2, redirect=3, enclose=.4, replace=.4, setflag=1, addflag=1, fileinto=1, keep=.5, **{"if": 2}),
                 tests=only(string=4, header=2, true=1), pmods=.6, jumps=True, replies=True, len=(3, 8), maxdepth=2, mime=0, mparams=["charset"],
                 rt=dict(REPLYRT, max_variable_size=[1, 3, 5, 9, 40], max_header_size=[1, 3, 8, 30], max_out_messages=[0, 1, 2, 3], max_redirects=[0, 1, 2, 5])), 500, 6000)],
    "P21": [(stored, 500, 6000)],
    "P22": [(sharing, 300, 3000)],
    "P23": [(rnd("p23any", cmds=dict(rand.DEFAULT["cmds"], include=1, fep=1, vacation=.5, notify=.5), tests=dict(rand.DEFAULT["tests"], body=1)), 60, 1000)],
    "P24": [(rnd("p24inj", cmds=only(addheader=4, replace=1.5, enclose=1.5, vacation=3, notify=3, set=2, fileinto=2, keep=1, **{"if": 3}), tests=only(header=5, string=1), crlf=.5, replies=True, hostile=True,
                 hvals=["*", "*x*", "a*"], words=rand.WORDS + ["a\r\nX-Evil: 3", "x\ny", "\r\n\r\nz"], len=(2, 6), maxdepth=2, mime=0, rt={"max_header_size": [8, 1024], "notify_uris": [["mailto"]]}), 500, 6000)],
    "P25": [(rnd("p25date", dates=True, tests=only(date=8, currentdate=3, true=.5), cmds=only(set=2, adddate=1, fileinto=1, deleteheader=.5, fep=.5, **{"if": 6}), msgs={"simple": 2, "multi": 2}), 600, 8000),
            (rnd("p25fact", tests=only(environment=5, metadata=4, metadataexists=4, spamtest=3, virustest=3), cmds=only(set=1, fileinto=1, **{"if": 6})), 500, 6000), (days, 300, 5000), (facts, 300, 5000)],
    "P26": [(msgvars, 600, 8000)],
}
EXTRA = {}
