"""Surface syntax trees of Sieve scripts: printing them as source text and as
the record the specification executes.  The two are produced side by side, so a
script's meaning never depends on parsing its text again.

Templates (strings with references) are either a Python str or a list of
pieces: str, ("v",name) ("m",n) ("g",name) ("e",item) ("env",name)
("h",{names,hi,pi,part}) ("part",) ("rx",text,ast,groups).
"""
import copy
import random
import re

BASE_CAPS = {"envelope", "envelope-dsn", "envelope-deliverby", "fileinto", "encoded-character",
    "comparator-elbonia", "comparator-i;ascii-casemap", "comparator-i;ascii-numeric", "comparator-i;octet",
    "body", "convert", "copy", "relational", "date", "index", "duplicate", "variables", "editheader",
    "foreverypart", "mime", "replace", "enclose", "extracttext", "enotify", "redirect-dsn",
    "redirect-deliverby", "environment", "reject", "ereject", "extlists", "subaddress", "vacation",
    "vacation-seconds", "fcc", "mailbox", "mailboxid", "mboxmetadata", "servermetadata", "special-use",
    "imap4flags", "ihave", "imapsieve", "include", "regex", "spamtest", "spamtestplus", "virustest"}
EXTRA_CAPS = {"vnd.stalwart.while", "vnd.stalwart.expressions"}
KNOWN_CAPS = BASE_CAPS | EXTRA_CAPS

ENV_SRC = {"from": "from", "to": "to", "bytimeabsolute": "by_time_absolute", "bytimerelative": "by_time_relative",
           "bymode": "by_mode", "bytrace": "by_trace", "notify": "notify", "orcpt": "orcpt", "ret": "ret", "envid": "envid"}
ENV_TEST = {"from": "from", "to": "to", "bytimeabsolute": "bytimeabsolute", "bytimerelative": "bytimerelative",
            "bymode": "bymode", "bytrace": "bytrace", "notify": "notify", "orcpt": "orcpt", "ret": "ret", "envid": "envid"}


def esc(s):
    return s.replace("\\", "\\\\").replace('"', '\\"')


def lit_piece(s):
    """A string constant that reads as a number is a number."""
    if len(s) <= 9 and re.fullmatch(r"0|-?[1-9][0-9]*", s):
        return {"k": "i", "n": int(s)}
    if len(s) <= 8 and re.fullmatch(r"-?(0|[1-9][0-9]*)\.[0-9]*[1-9]", s):
        return {"k": "f", "s": s}
    return {"k": "t", "s": s}


# ---------------------------------------------------------------- regex trees
def rx_src(items):
    out = ""
    for it in items:
        k = it["k"]
        if k == "c":
            out += ("\\" if it["c"] in ".*+?()[]{}|^$\\" else "") + it["c"]
        elif k == "any":
            out += "."
        elif k == "set":
            out += "[" + ("^" if it["neg"] else "") + it["cs"] + "]"
        elif k == "grp":
            out += "(" + "|".join(rx_src(a) for a in it["alts"]) + ")"
        elif k == "rep":
            lo, hi = it["lo"], it["hi"]
            q = {(0, 99): "*", (1, 99): "+", (0, 1): "?"}.get((lo, hi), "{%d,%d}" % (lo, hi))
            out += rx_src([it["x"]]) + q + ("?" if it["lazy"] else "")
        elif k == "bol":
            out += "^"
        elif k == "eol":
            out += "$"
    return out


def rx(items):
    n = 0

    def walk(its):
        nonlocal n
        for it in its:
            if it["k"] == "grp":
                n += 1
                it["n"] = n
                for a in it["alts"]:
                    walk(a)
            elif it["k"] == "rep":
                walk([it["x"]])
    walk(items)
    return ("rx", rx_src(items), items, n)


class Emit:
    """One script."""

    def __init__(self, rng=None, style=0, auto=True):
        self.blocks = [{"p": 0, "c": []}]
        self.decl, self.ev, self.out = [], [], []
        self.nid = 0
        self.caps = set()
        self.rng, self.style, self.auto = rng, style, auto
        self.ind = 0
        self.b = 1
        self.cid = 0
        self.seen = None
        self.reqs = {}      # block -> index of its require command record
        self.have = []      # stack of sets of declared capabilities

    # -- small helpers
    def id(self):
        self.nid += 10
        return self.nid

    def need(self, *c):
        for x in c:
            if not any(x in h for _, h in self.have_chain()):
                self.caps.add(x)

    def line(self, s):
        self.out.append("  " * self.ind + s)

    def kw(self, s):
        if self.style and self.rng.random() < .3:
            return "".join(c.upper() if self.rng.random() < .5 else c for c in s)
        return s

    def q(self, s):
        return '"' + s + '"'

    def piece(self, p):
        if isinstance(p, str):
            return esc(p), {"k": "t", "s": p}
        k = p[0]
        if k == "v":
            self.need("variables")
            return "${%s}" % p[1], {"k": "v", "n": p[1].lower()}
        if k == "g":
            self.need("variables")
            return "${global.%s}" % p[1], {"k": "g", "n": p[1].lower()}
        if k == "m":
            self.need("variables")
            i = self.id()
            self.ev.append({"k": "ref", "id": i, "n": p[1], "b": 0})
            return "${%d}" % p[1], {"k": "m", "n": p[1], "id": i}
        if k == "e":
            self.need("variables")
            return "${envelope.%s}" % ENV_SRC[p[1]], {"k": "e", "n": p[1]}
        if k == "env":
            self.need("variables")
            return "${env.%s}" % p[1], {"k": "env", "n": p[1].lower()}
        if k == "h":
            self.need("variables")
            d = p[1]
            names = d["names"]
            s = "header." + (":".join(names) or "*")
            if not names:
                hi = pi = 0
            else:
                hi, pi = d.get("hi", -1), d.get("pi", -1)
            part = d.get("part", "text")
            # written indexes: 0 stands for "*" here, a written 0 means 1
            if hi != -1 and names:
                s += "[%s]" % ("*" if hi == 0 else "0" if hi == 1 and d.get("zero") else hi)
            s += {"text": "", "all": ".addr", "name": ".name", "localpart": ".addr.addr.local", "domain": ".addr.addr.domain",
                  "user": ".addr.addr.user", "detail": ".addr.addr.detail",
                  "attr": ".attr." + d.get("attr", "")}.get(part, "." + part)
            if pi != -1 and names:
                w = "[%s]" % ("*" if pi == 0 else "0" if pi == 1 and d.get("zero") else pi)
                s += w if part != "text" or hi != -1 else ".text" + w
            return "${%s}" % s, {"k": "h", "names": [n.lower() for n in names], "hi": hi, "pi": pi, "part": part,
                                 "attr": d.get("attr", "").lower()}
        if k == "part":
            self.need("variables")
            return "${%s}" % p[1], {"k": "part", "v": p[1]}
        raise ValueError(p)

    def tm(self, t):
        """template -> (quoted source, spec value)"""
        if isinstance(t, Lit):
            return self.tm(t.to)
        if isinstance(t, str):
            if self.seen is not None:
                self.seen.append(t)
            return self.q(esc(t)), [lit_piece(t)]
        if len(t) == 1 and not isinstance(t[0], str) and t[0][0] == "rx":
            return self.q(esc(t[0][1])), [{"k": "rx", "s": t[0][1], "ast": t[0][2], "ng": t[0][3]}]
        if len(t) == 0:
            return '""', [{"k": "t", "s": ""}]
        if all(isinstance(p, str) for p in t):
            return self.tm("".join(t))
        src, sp = "", []
        for p in t:
            if p == "":
                continue
            a, b = self.piece(p)
            src += a
            sp.append(b)
        return self.q(src), sp

    def tms(self, ts):
        """list of templates -> (source list, spec list)"""
        if isinstance(ts, str):
            ts = [ts]
        r = [self.tm(t) for t in ts]
        if len(r) == 1 and not (self.style and self.rng.random() < .3):
            src = r[0][0]
        else:
            src = "[" + ", ".join(x[0] for x in r) + "]"
        return src, [x[1] for x in r]

    def opt(self, tag, t, cap=None):
        if t is None:
            return "", []
        s, v = self.tm(t)
        if cap:
            self.need(cap)
        return " %s %s" % (tag, s), [v]

    # -- names of variables
    def target(self, name, local=False):
        n = name.lower()
        if n.startswith("global."):
            return {"ns": "global", "n": n[7:]}
        if n.startswith("envelope."):
            x = n[9:]
            inv = {v: k for k, v in ENV_SRC.items()}
            return {"ns": "envelope", "n": inv[x]}
        self.decl.append({"k": "l" if local else "b", "n": n, "id": self.cid, "b": self.b})
        return {"ns": "", "n": n}

    # -- match clause
    def clause(self, m):
        s = ""
        mt, cmp = m.get("mt", "is"), m.get("cmp", "i;ascii-casemap")
        if mt in ("value", "count"):
            self.need("relational")
            s += " :%s %s" % (self.kw(mt), self.q(m["rel"]))
        elif mt == "regex":
            self.need("regex")
            s += " :regex"
        elif mt == "list":
            self.need("extlists")
            s += " :list"
        elif mt != "is" or (self.rng and self.rng.random() < .5):
            s += " :" + self.kw(mt)
        if "cmp" in m and not (cmp == "i;ascii-casemap" and m.get("nocmp")):
            s += " :comparator " + self.q(cmp)
            if cmp == "i;ascii-numeric":
                self.need("comparator-i;ascii-numeric")
        return s, {"mt": mt, "rel": m.get("rel", "eq"), "cmp": cmp}

    def idxopts(self, t):
        s = ""
        i = t.get("idx", 0)
        if i:
            self.need("index")
            s += " :index %d" % abs(i) + (" :last" if i < 0 else "")
        if t.get("any"):
            self.need("mime")
            s += " :mime :anychild"
        return s

    # -- tests
    def test(self, t):
        k = t["t"]
        i = self.id()
        if k in ("true", "false"):
            return self.kw(k), {"t": k, "id": i}
        if k == "not":
            s, x = self.test(t["x"])
            return self.kw("not") + " " + s, {"t": k, "id": i, "x": x}
        if k in ("allof", "anyof"):
            r = [self.test(x) for x in t["ts"]]
            return self.kw(k) + " (" + ", ".join(x[0] for x in r) + ")", {"t": k, "id": i, "ts": [x[1] for x in r]}
        if k == "paren":
            s, x = self.test(t["x"])
            return "(" + s + ")", x
        r = getattr(self, "t_" + k)(t)
        sp = dict(r[1])
        sp.update(t=k, id=i)
        if "m" in sp and sp["m"]["mt"] in ("matches", "regex"):
            self.ev.append({"k": "test", "id": i, "n": 0, "b": 0})
        return r[0], sp

    def t_header(self, t):
        c, m = self.clause(t["m"])
        mo = t.get("mo", {"k": ""})
        x = self.idxopts({"idx": t.get("idx", 0)})
        sm = {"k": mo["k"], "ps": []}
        if t.get("any") or mo["k"]:
            self.need("mime")
            x += " :mime"
            if t.get("any"):
                x += " :anychild"
            if mo["k"] == "param":
                s, v = self.tms(mo["ps"])
                sm["ps"] = v
                x += " :param " + s
            elif mo["k"]:
                x += " :" + mo["k"]
        ns, nv = self.tms(t["names"])
        ks, kv = self.tms(t["keys"])
        return "%s%s%s %s %s" % (self.kw("header"), c, x, ns, ks), \
            {"m": m, "idx": t.get("idx", 0), "any": bool(t.get("any")), "mo": sm, "names": nv, "keys": kv}

    def apart(self, p):
        if p in ("user", "detail"):
            self.need("subaddress")
        return "" if p == "all" and self.rng and self.rng.random() < .5 else " :" + p

    def t_address(self, t):
        c, m = self.clause(t["m"])
        p = t.get("part", "all")
        x = self.apart(p) + self.idxopts(t)
        ns, nv = self.tms(t["names"])
        ks, kv = self.tms(t["keys"])
        return "%s%s%s %s %s" % (self.kw("address"), c, x, ns, ks), \
            {"m": m, "idx": t.get("idx", 0), "any": bool(t.get("any")), "part": p, "names": nv, "keys": kv}

    def t_envelope(self, t):
        self.need("envelope")
        for f in t["fields"]:
            if f in ("notify", "orcpt", "ret", "envid"):
                self.need("envelope-dsn")
            elif f.startswith("by"):
                self.need("envelope-deliverby")
        c, m = self.clause(t["m"])
        p = t.get("part", "all")
        x = self.apart(p)
        ks, kv = self.tms(t["keys"])
        f = [self.q(ENV_TEST[a]) for a in t["fields"]]
        return "%s%s%s [%s] %s" % (self.kw("envelope"), c, x, ", ".join(f), ks), \
            {"m": m, "part": p, "fields": t["fields"], "keys": kv}

    def t_exists(self, t):
        x = ""
        if t.get("any"):
            self.need("mime")
            x = " :mime :anychild"
        ns, nv = self.tms(t["names"])
        return self.kw("exists") + x + " " + ns, {"any": bool(t.get("any")), "names": nv}

    def t_size(self, t):
        return "%s :%s %s" % (self.kw("size"), "over" if t["over"] else "under", t.get("txt", t["lim"])), \
            {"over": t["over"], "lim": t["lim"]}

    def t_string(self, t, word="string"):
        self.need("variables" if word == "string" else "environment")
        c, m = self.clause(t["m"])
        ss, sv = self.tms(t["src"])
        ks, kv = self.tms(t["keys"])
        return "%s%s %s %s" % (self.kw(word), c, ss, ks), {"m": m, "src": sv, "keys": kv}

    def t_environment(self, t):
        """names are constants; the value is looked up"""
        self.need("environment")
        c, m = self.clause(t["m"])
        ns = "[" + ", ".join(self.q(esc(n)) for n in t["names"]) + "]" if len(t["names"]) > 1 else self.q(esc(t["names"][0]))
        ks, kv = self.tms(t["keys"])
        return "environment%s %s %s" % (c, ns, ks), \
            {"m": m, "src": [[{"k": "env", "n": n.lower()}] for n in t["names"]], "keys": kv}

    def t_hasflag(self, t):
        self.need("imap4flags")
        c, m = self.clause(t["m"])
        v, tg = "", []
        if t.get("vars"):
            self.need("variables")
            tg = [self.target(n, bool(t.get("local"))) for n in t["vars"]]
            v = (" :local" if t.get("local") else "") + " " + ("[" + ", ".join(self.q(n) for n in t["vars"]) + "]" if len(tg) > 1 else self.q(t["vars"][0]))
        ks, kv = self.tms(t["keys"])
        return "%s%s%s %s" % (self.kw("hasflag"), c, v, ks), {"m": m, "vars": tg, "keys": kv}

    def t_duplicate(self, t):
        self.need("duplicate")
        s, h = "", []
        v = []
        hs, h = self.opt(":handle", t.get("handle"))
        by = t.get("by", "default")
        if by != "default":
            a, v = self.tm(t["v"])
            s += " :%s %s" % (by, a)
        s += hs
        if t.get("seconds") is not None:
            s += " :seconds %d" % t["seconds"]
        if t.get("last"):
            s += " :last"
        e = t.get("seconds")
        return self.kw("duplicate") + s, {"by": by, "v": v, "handle": h, "expiry": [e] if e is not None else [], "last": bool(t.get("last"))}

    def t_mailboxexists(self, t):
        self.need("mailbox")
        s, v = self.tms(t["names"])
        return "mailboxexists " + s, {"names": v}

    def t_mailboxidexists(self, t):
        self.need("mailboxid")
        s, v = self.tms(t["names"])
        return "mailboxidexists " + s, {"names": v}

    def t_specialuse_exists(self, t):
        self.need("special-use")
        m, mv = "", []
        if t.get("mbox") is not None:
            a, b = self.tm(t["mbox"])
            m, mv = " " + a, [b]
        s, v = self.tms(t["attrs"])
        return "specialuse_exists%s %s" % (m, s), {"mbox": mv, "attrs": v}

    def t_metadata(self, t):
        c, m = self.clause(t["m"])
        a, mb = "", []
        if t.get("mbox") is not None:
            self.need("mboxmetadata")
            x, v = self.tm(t["mbox"])
            a, mb = " " + x, [v]
            w = "metadata"
        else:
            self.need("servermetadata")
            w = "servermetadata"
        x, an = self.tm(t["ann"])
        ks, kv = self.tms(t["keys"])
        return "%s%s%s %s %s" % (w, c, a, x, ks), {"m": m, "mbox": mb, "ann": an, "keys": kv}

    def t_metadataexists(self, t):
        a, mb = "", []
        if t.get("mbox") is not None:
            self.need("mboxmetadata")
            x, v = self.tm(t["mbox"])
            a, mb = " " + x, [v]
            w = "metadataexists"
        else:
            self.need("servermetadata")
            w = "servermetadataexists"
        s, v = self.tms(t["anns"])
        return "%s%s %s" % (w, a, s), {"mbox": mb, "anns": v}

    def t_spamtest(self, t):
        self.need("spamtest")
        if t.get("pct"):
            self.need("spamtestplus")
        c, m = self.clause(t["m"])
        s, v = self.tm(t["key"])
        return "spamtest%s%s %s" % (" :percent" if t.get("pct") else "", c, s), {"m": m, "pct": bool(t.get("pct")), "key": v}

    def t_virustest(self, t):
        self.need("virustest")
        c, m = self.clause(t["m"])
        s, v = self.tm(t["key"])
        return "virustest%s %s" % (c, s), {"m": m, "key": v}

    def t_validextlist(self, t):
        self.need("extlists")
        s, v = self.tms(t["names"])
        return "valid_ext_list " + s, {"names": v}

    def t_validnotify(self, t):
        self.need("enotify")
        s, v = self.tms(t["uris"])
        return "valid_notify_method " + s, {"uris": v}

    def t_notifycap(self, t):
        self.need("enotify")
        c, m = self.clause(t["m"])
        u, uv = self.tm(t["uri"])
        n, nv = self.tm(t["cap"])
        ks, kv = self.tms(t["keys"])
        return "notify_method_capability%s %s %s %s" % (c, u, n, ks), {"m": m, "uri": uv, "cap": nv, "keys": kv}

    def t_body(self, t):
        self.need("body")
        c, m = self.clause(t["m"])
        tr = t.get("tr", "text")
        s, v = " :" + tr, []
        if tr == "content":
            a, v = self.tms(t["cts"])
            s = " :content " + a
        elif tr == "text" and self.rng and self.rng.random() < .4:
            s = ""
        if t.get("subj"):
            s += " :subject"
        ks, kv = self.tms(t["keys"])
        return "%s%s%s %s" % (self.kw("body"), c, s, ks), {"m": m, "tr": tr, "cts": v, "subj": bool(t.get("subj")), "keys": kv}

    def t_date(self, t):
        self.need("date")
        c, m = self.clause(t["m"])
        x = self.idxopts(t)
        z = t.get("zone")
        if z == "original":
            x += " :originalzone"
        elif z:
            x += " :zone " + self.q(z)
        n, nv = self.tm(t["name"])
        ks, kv = self.tms(t["keys"])
        zz = 99999 if z == "original" else 0 if not z else (int(z[1:3]) * 60 + int(z[3:5])) * (-1 if z[0] == "-" else 1)
        return "date%s%s %s %s %s" % (c, x, n, self.q(t["dp"]), ks), \
            {"m": m, "idx": t.get("idx", 0), "any": bool(t.get("any")), "zone": zz, "name": nv, "dp": t["dp"].lower(), "keys": kv}

    def t_currentdate(self, t):
        self.need("date")
        c, m = self.clause(t["m"])
        z = t.get("zone")
        x = " :zone " + self.q(z) if z else ""
        ks, kv = self.tms(t["keys"])
        zz = 0 if not z else (int(z[1:3]) * 60 + int(z[3:5])) * (-1 if z[0] == "-" else 1)
        return "currentdate%s%s %s %s" % (c, x, self.q(t["dp"]), ks), {"m": m, "zone": zz, "dp": t["dp"].lower(), "keys": kv}

    def t_ihave(self, t):
        self.need("ihave")
        s = "[" + ", ".join(self.q(c) for c in t["caps"]) + "]"
        return "ihave " + s, {"caps": t["caps"]}

    def t_vacation(self, t):
        self.need("vacation")
        raise NotImplementedError

    def t_unknown(self, t):
        self.need("ihave")
        return t["src"], {"name": t["name"]}

    def t_eval(self, t):
        self.need("vnd.stalwart.expressions")
        s, e = self.expr(t["e"])
        return "eval " + self.q(esc(s)), {"e": e}

    # -- expressions; the tree carries its own parentheses through precedence
    PREC = {"*": 7, "/": 7, "+": 6, "-": 6, ">": 5, ">=": 5, "<": 5, "<=": 5, "==": 4, "!=": 4, "^": 3, "&&": 2, "||": 1}

    def expr(self, e, ctx=0):
        k = e["k"]
        if k == "lit":
            v = e["v"]
            if v["t"] == "s":
                return "'" + v["v"].replace("\\", "\\\\").replace("'", "\\'") + "'", {"k": "lit", "v": v}
            return str(v["v"]), {"k": "lit", "v": v}
        if k == "var":
            p = e["p"]
            s, sp = self.piece(p)
            return s[2:-1], {"k": "var", "p": sp}
        if k == "un":
            s, x = self.expr(e["x"], 9)
            return e["op"] + s, {"k": "un", "op": e["op"], "x": x}
        if k == "bin":
            p = self.PREC[e["op"]]
            ls, l = self.expr(e["l"], p)
            rs, r = self.expr(e["r"], p + 1)
            sp = self.rng.choice([" ", ""]) if self.rng and self.style else " "
            s = ls + sp + e["op"] + sp + rs
            if p < ctx or e.get("par"):
                s = "(" + s + ")"
            return s, {"k": "bin", "op": e["op"], "l": l, "r": r}
        if k == "arr":
            r = [self.expr(x) for x in e["xs"]]
            return "[" + ", ".join(x[0] for x in r) + "]", {"k": "arr", "xs": [x[1] for x in r]}
        if k == "idx":
            a, av = self.expr(e["a"], 9)
            i, iv = self.expr(e["i"])
            return "%s[%s]" % (a, i), {"k": "idx", "a": av, "i": iv}
        if k == "call":
            r = [self.expr(x) for x in e["as"]]
            return "%s(%s)" % (e["fn"], ", ".join(x[0] for x in r)), \
                {"k": "call", "fn": e["fn"], "ext": e.get("ext", -1), "as": [x[1] for x in r]}
        raise ValueError(k)

    # -- commands
    def block(self, cmds, par):
        self.blocks.append({"p": par, "c": []})
        b = len(self.blocks)
        self.ev.append({"k": "open", "b": b, "id": 0, "n": 0})
        save = self.b
        self.b = b
        self.ind += 1
        self.body(cmds, b)
        self.ind -= 1
        self.b = save
        self.ev.append({"k": "close", "b": b, "id": 0, "n": 0})
        return b

    def body(self, cmds, b):
        for c in cmds:
            self.b = b
            sp = self.cmd(c)
            if sp is not None:
                self.blocks[b - 1]["c"].append(sp)

    def cmd(self, c):
        i = self.id()
        self.cid = i
        if self.style and self.rng.random() < .15:
            self.line(self.rng.choice(["# comment; if true { stop; }", "/* note \n * \" stop; */", "#"]))
        r = getattr(self, "c_" + c["c"])(c)
        if r is None:
            return None
        sp = dict(r)
        sp.update(c=c["c"] if "c" not in r else r["c"], id=i)
        return sp

    def stmt(self, s):
        self.line(s + (" " if self.style and self.rng.random() < .2 else "") + ";")

    def flags_opt(self, c):
        if c.get("flags") is None:
            return "", []
        self.need("imap4flags")
        s, v = self.tms(c["flags"])
        return " :flags " + s, v

    def c_keep(self, c):
        s, v = self.flags_opt(c)
        self.stmt(self.kw("keep") + s)
        return {"flags": v}

    def c_fileinto(self, c):
        self.need("fileinto")
        s, v = self.flags_opt(c)
        if c.get("copy"):
            self.need("copy")
            s = " :copy" + s
        if c.get("create"):
            self.need("mailbox")
            s += " :create"
        a, mb = self.opt(":mailboxid", c.get("mbid"), "mailboxid")
        u, su = self.opt(":specialuse", c.get("su"), "special-use")
        f, fv = self.tm(c["folder"])
        self.stmt(self.kw("fileinto") + s + a + u + " " + f)
        return {"folder": fv, "copy": bool(c.get("copy")), "create": bool(c.get("create")), "flags": v, "mbid": mb, "su": su}

    def c_redirect(self, c):
        s = ""
        if c.get("copy"):
            self.need("copy")
            s += " :copy"
        if c.get("list"):
            self.need("extlists")
            s += " :list"
        n = c.get("notify")
        nv = []
        if n:
            self.need("redirect-dsn")
            s += " :notify " + self.q(n)
            its = [x.strip().lower() for x in n.split(",")]
            nv = its
        r = c.get("ret", "default")
        if r != "default":
            self.need("redirect-dsn")
            s += " :ret " + self.q(r.upper())
        bt = c.get("bytime", {"t": "none"})
        if bt["t"] != "none":
            self.need("redirect-deliverby")
            if bt["t"] == "rel":
                s += " :bytimerelative %d" % bt["limit"]
            else:
                s += " :bytimeabsolute " + self.q(bt["src"])
            if bt["mode"] != "default":
                s += " :bymode " + self.q(bt["mode"])
            if bt["trace"]:
                s += " :bytrace"
            bt = {k: bt[k] for k in ("t", "limit", "mode", "trace")}
            bt["limit"] = str(bt["limit"])
        a, av = self.tm(c["addr"])
        self.stmt(self.kw("redirect") + s + " " + a)
        return {"addr": av, "copy": bool(c.get("copy")), "list": bool(c.get("list")), "notify": nv, "ret": r, "bytime": bt}

    def mods(self, ms, allow_url=True):
        s, v = "", []
        for m in ms:
            if m[0] == "replace":
                f, fv = self.tm(m[1])
                r, rv = self.tm(m[2])
                s += " :replace %s %s" % (f, r)
                v.append({"m": "replace", "f": fv, "r": rv})
            else:
                if m[0] == "encodeurl":
                    self.need("enotify")
                if m[0] == "quoteregex":
                    self.need("regex")
                s += " :" + self.kw(m[0])
                if not any(x["m"] == m[0] for x in v):
                    v.append({"m": m[0], "f": [], "r": []})
        return s, v

    def c_set(self, c):
        self.need("variables")
        s, mv = self.mods(c.get("mods", []))
        if c.get("local"):
            s = " :local" + s
        tg = self.target(c["name"], bool(c.get("local")))
        v, vv = self.tm(c["v"])
        self.stmt("%s%s %s %s" % (self.kw("set"), s, self.q(c["name"]), v))
        return {"name": tg, "mods": mv, "v": vv}

    def c_let(self, c):
        self.need("variables", "vnd.stalwart.expressions")
        tg = self.target(c["name"])
        s, e = self.expr(c["e"])
        self.stmt("let %s %s" % (self.q(c["name"]), self.q(esc(s))))
        return {"name": tg, "e": e}

    def c_eval(self, c):
        self.need("vnd.stalwart.expressions")
        s, e = self.expr(c["e"])
        self.stmt("eval " + self.q(esc(s)))
        return {"e": e}

    def c_if(self, c):
        br = []
        b0 = self.b
        cid = self.cid
        for n, x in enumerate(c["br"]):
            s, t = self.test(x["t"])
            self.line("%s %s {" % (self.kw("if") if n == 0 else "} " + self.kw("elsif"), s))
            br.append({"t": t, "b": self.block(x["b"], b0)})
            self.cid = cid
            self.b = b0
        el = []
        if c.get("el") is not None:
            self.line("} %s {" % self.kw("else"))
            el = [self.block(c["el"], b0)]
            self.b = b0
        self.line("}")
        return {"br": br, "el": el}

    def c_while(self, c):
        self.need("vnd.stalwart.while", "vnd.stalwart.expressions")
        b0 = self.b
        s, e = self.expr(c["e"])
        self.line("while %s {" % self.q(esc(s)))
        b = self.block(c["b"], b0)
        self.b = b0
        self.line("}")
        return {"e": e, "b": b}

    def c_fep(self, c):
        self.need("foreverypart")
        b0 = self.b
        lab = c.get("label", "")
        self.line("foreverypart%s {" % (" :name " + self.q(lab) if lab else ""))
        b = self.block(c["b"], b0)
        self.b = b0
        self.line("}")
        return {"b": b, "label": lab}

    def c_break(self, c):
        lab = c.get("label", "")
        if lab:
            self.need("foreverypart")
        self.stmt("break" + (" :name " + self.q(lab) if lab else ""))
        return {"label": lab}

    def c_continue(self, c):
        self.need("vnd.stalwart.while")
        self.stmt("continue")
        return {}

    def c_return(self, c):
        self.need("include")
        self.stmt("return")
        return {}

    def c_stop(self, c):
        self.stmt(self.kw("stop"))
        return {}

    def c_discard(self, c):
        self.stmt(self.kw("discard"))
        return {}

    def c_reject(self, c):
        ext = bool(c.get("ext"))
        w = "ereject" if ext else "reject"
        self.need(w)
        s, v = self.tm(c["reason"])
        self.stmt(w + " " + s)
        return {"ext": ext, "reason": v}

    def c_error(self, c):
        self.need("ihave")
        s, v = self.tm(c["msg"])
        self.stmt("error " + s)
        return {"msg": v}

    def c_invalid(self, c):
        """an unknown command (legal with ihave)"""
        self.need("ihave")
        self.line(c["src"])
        return {"name": c["name"]}

    def c_require(self, c):
        """explicit require"""
        self.stmt("require [" + ", ".join(self.q(esc(x)) for x in c["caps"]) + "]")
        new = []
        for x in c["caps"]:
            for y in ([x, "spamtest"] if x == "spamtestplus" else [x]):
                if not any(y in h for _, h in self.have_chain()) and y not in new:
                    new.append(y)
        self.have.append((self.b, set(new)))
        if not new:
            return None
        if self.b in self.reqs:
            self.reqs[self.b]["caps"] += new
            return None
        r = {"caps": list(new)}     # the list is shared: later requires extend it
        self.reqs[self.b] = r
        return r

    def have_chain(self):
        ch = set()
        b = self.b
        while b:
            ch.add(b)
            b = self.blocks[b - 1]["p"]
        return [(b, h) for b, h in self.have if b in ch]

    def c_global(self, c):
        self.need("include", "variables")
        self.stmt("global [" + ", ".join(self.q(n) for n in c["names"]) + "]")
        for n in c["names"]:
            self.decl.append({"k": "g", "n": n.lower(), "id": self.cid, "b": self.b})
        return {}

    def c_include(self, c):
        self.need("include")
        s = " :global" if c.get("global") else (" :personal" if self.rng and self.rng.random() < .3 else "")
        if c.get("once"):
            s += " :once"
        if c.get("opt"):
            s += " :optional"
        n, v = self.tm(c["name"])
        self.stmt("include%s %s" % (s, n))
        return {"name": v, "global": bool(c.get("global")), "once": bool(c.get("once")), "opt": bool(c.get("opt"))}

    def c_addheader(self, c):
        self.need("editheader")
        n, nv = self.tm(c["n"])
        v, vv = self.tm(c["v"])
        self.stmt("addheader%s %s %s" % (" :last" if c.get("last") else "", n, v))
        return {"n": nv, "v": vv, "last": bool(c.get("last"))}

    def c_deleteheader(self, c):
        self.need("editheader")
        x = ""
        if c.get("idx"):
            x += " :index %d" % abs(c["idx"]) + (" :last" if c["idx"] < 0 else "")
        if c.get("any"):
            self.need("mime")
            x += " :mime :anychild"
        cl, m = self.clause(c.get("m", {"mt": "is"}))
        n, nv = self.tm(c["n"])
        ps, pv = "", []
        if c.get("pats"):
            ps, pv = self.tms(c["pats"])
            ps = " " + ps
        else:
            cl = cl if m["mt"] != "is" else ""
        self.stmt("deleteheader%s%s %s%s" % (x, cl, n, ps))
        return {"n": nv, "idx": c.get("idx", 0), "any": bool(c.get("any")), "m": m, "pats": pv}

    def flagcmd(self, c):
        self.need("imap4flags")
        v, tg = "", []
        if c.get("var"):
            self.need("variables")
            tg = [self.target(c["var"], bool(c.get("local")))]
            v = (" :local" if c.get("local") else "") + " " + self.q(c["var"])
        s, fv = self.tms(c["flags"])
        self.stmt("%s%s %s" % (self.kw(c["c"]), v, s))
        return {"var": tg, "flags": fv}
    c_setflag = c_addflag = c_removeflag = flagcmd

    def convert(self, c):
        self.need("convert")
        f, fv = self.tm(c["from"])
        t, tv = self.tm(c["to"])
        return "%s %s %s %s" % (self.kw("convert"), f, t, self.rng.choice(['""', '["charset=utf-8"]', '["a=1", "b=2"]']) if self.rng else '""'), {"from": fv, "to": tv}

    def t_convert(self, t):
        return self.convert(t)

    def c_convert(self, c):
        s, sp = self.convert(c)
        self.stmt(s)
        return sp

    def c_replace(self, c):
        self.need("replace")
        a, sv = self.opt(":subject", c.get("subject"))
        f, fv = self.opt(":from", c.get("from"))
        v, vv = self.tm(c["v"])
        self.stmt("replace%s%s%s %s" % (" :mime" if c.get("mime") else "", a, f, v))
        return {"mime": bool(c.get("mime")), "subject": sv, "from": fv, "v": vv}

    def c_enclose(self, c):
        self.need("enclose")
        a, sv = self.opt(":subject", c.get("subject"))
        h, hv = "", []
        if c.get("headers"):
            h, hv = self.tms(c["headers"])
            h = " :headers " + h
        v, vv = self.tm(c["v"])
        self.stmt("enclose%s%s %s" % (a, h, v))
        return {"subject": sv, "headers": hv, "v": vv}

    def c_extracttext(self, c):
        self.need("extracttext", "variables")
        s, mv = self.mods(c.get("mods", []))
        if c.get("local"):
            s = " :local" + s
        if c.get("first") is not None:
            s += " :first %d" % c["first"]
        tg = self.target(c["name"], bool(c.get("local")))
        self.stmt("extracttext%s %s" % (s, self.q(c["name"])))
        return {"name": tg, "mods": mv, "first": [c["first"]] if c.get("first") is not None else []}

    def c_vacation(self, c):
        self.need("vacation")
        s = ""
        d = c.get("days")
        sec = c.get("seconds")
        if d is not None:
            s += " :days %d" % d
        if sec is not None:
            self.need("vacation-seconds")
            s += " :seconds %d" % sec
        a, sj = self.opt(":subject", c.get("subject"))
        f, fr = self.opt(":from", c.get("from"))
        h, hd = self.opt(":handle", c.get("handle"))
        ad, adv = "", []
        if c.get("addresses") is not None:
            ad, adv = self.tms(c["addresses"])
            ad = " :addresses " + ad
        fc = ""
        fv = {"on": False}
        if c.get("fcc") is not None:
            fc, fv = self.fcc(c["fcc"])
        r, rv = self.tm(c["reason"])
        self.stmt("vacation%s%s%s%s%s%s%s %s" % (s, a, f, h, ad, " :mime" if c.get("mime") else "", fc, r))
        ex = -1 if d is None and sec is None else (d * 86400 if d is not None else sec)
        return {"expiry": ex, "subject": sj, "from": fr, "handle": hd, "addresses": adv, "mime": bool(c.get("mime")),
                "fcc": fv, "reason": rv}

    def fcc(self, f):
        self.need("fcc")
        m, mv = self.tm(f["mailbox"])
        s = " :fcc " + m
        if f.get("create"):
            self.need("mailbox")
            s += " :create"
        fl = []
        if f.get("flags") is not None:
            self.need("imap4flags")
            x, fl = self.tms(f["flags"])
            s += " :flags " + x
        a, mb = self.opt(":mailboxid", f.get("mbid"), "mailboxid")
        u, su = self.opt(":specialuse", f.get("su"), "special-use")
        return s + a + u, {"on": True, "mailbox": mv, "create": bool(f.get("create")), "flags": fl, "mbid": mb, "su": su}

    def c_notify(self, c):
        self.need("enotify")
        f, fr = self.opt(":from", c.get("from"))
        i, im = self.opt(":importance", c.get("importance"))
        m, mg = self.opt(":message", c.get("message"))
        o, ov = "", []
        if c.get("options") is not None:
            o, ov = self.tms(c["options"])
            o = " :options " + o
        fc, fv = "", {"on": False}
        if c.get("fcc") is not None:
            fc, fv = self.fcc(c["fcc"])
        me, mv = self.tm(c["method"])
        self.stmt("notify%s%s%s%s%s %s" % (f, i, o, m, fc, me))
        return {"from": fr, "importance": im, "message": mg, "options": ov, "fcc": fv, "method": mv}

    # -- whole script
    def script(self, cmds):
        self.ev.append({"k": "open", "b": 1, "id": 0, "n": 0})
        self.b = 1
        self.body(cmds, 1)
        self.ev.append({"k": "close", "b": 1, "id": 0, "n": 0})
        src = "\n".join(self.out) + "\n"
        if self.auto and self.caps:
            caps = sorted(self.caps)
            if "spamtestplus" in caps and "spamtest" in caps:
                caps.remove("spamtestplus")
                caps.insert(0, "spamtestplus")
                caps.remove("spamtest")
                rc = []
                for x in caps:
                    rc += ["spamtestplus", "spamtest"] if x == "spamtestplus" else [x]
            else:
                rc = caps
            if self.style and self.rng.random() < .3:
                src = "".join("require %s;\n" % self.q(x) for x in caps) + src
            else:
                src = "require [" + ", ".join(self.q(x) for x in caps) + "];\n" + src
            if 1 in self.reqs:      # requires of one block are carried out together, at the first
                rc = rc + [x for x in self.reqs[1]["caps"] if x not in rc]
                self.blocks[0]["c"] = [c for c in self.blocks[0]["c"] if c["c"] != "require"]
            self.blocks[0]["c"].insert(0, {"c": "require", "caps": rc, "id": 0})
        return src, {"blocks": self.blocks, "decl": self.decl, "ev": self.ev}


HOIST = None


def emit(cmds, rng=None, style=0, auto=True):
    if HOIST:
        cmds = hoisted(cmds, rng, style, auto)
    e = Emit(rng, style, auto)
    return e.script(cmds)


def hoisted(cmds, rng, style, auto):
    """the same script with some of its literal texts given through variables assigned at its start"""
    r, p, kinds = HOIST
    e = Emit(random.Random(1), style, auto)
    e.seen = []
    e.script(copy.deepcopy(cmds))
    lits = sorted({x for x in e.seen if x and len(x) < 200 and "${" not in x})
    pick = {}
    pre = []
    for x in lits:
        if r.random() < p:
            k = r.choice(kinds)
            nm = "hv%d" % len(pick)
            pick[x] = [("g", nm)] if k == "g" else [("v", nm)]
            pre.append({"c": "set", "name": ("global." if k == "g" else "") + nm, "v": [KEEP, x], **({"local": True} if k == "l" else {})})
    cmds = subst(cmds, pick)
    i = 0
    while i < len(cmds) and cmds[i]["c"] == "require":
        i += 1
    loc = [c for c in pre if c.get("local")]
    if loc and r.random() < .8:     # a variable of the script, assigned within a block
        pre = [c for c in pre if not c.get("local")] + [{"c": "if", "br": [{"t": {"t": "true"}, "b": loc}]}]
    return cmds[:i] + pre + cmds[i:]


KEEP = ""


class Lit(str):
    """a literal text to be given through a variable where a template may stand"""
    to = None


def subst(x, pick):
    if isinstance(x, Lit):
        return x
    if isinstance(x, str):
        if x in pick:
            y = Lit(x)
            y.to = pick[x]
            return y
        return x
    if isinstance(x, list):
        return [subst(y, pick) for y in x]
    if isinstance(x, dict):
        return {k: subst(v, pick) for k, v in x.items()}
    return x
