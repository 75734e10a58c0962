"""Random scripts, messages and configurations, steered by a profile of weights."""
import datetime, random
from . import lang, msg, case

WORDS = ["", "x", "X", "ab", "aB", "abc", "xaby", "10", "9", "-3", "2.5", "010", "é", "xÉ", "a b", "foo@bar.com", "*", "a*", "a?c",
         "a.b", "a\\b", "aXbXc", "ababab", "yes", "NO", "a\tb"]
KEYW = ["x", "ab", "AB", "abc", "10", "9", "2.5", "é", "É", "foo@bar.com", "yes", "", "a*", "a"]
GLOBS = ["*", "a*", "*b", "a*c", "*b*", "?", "??", "a?c", "?*", "*?", "*@*.*", "x*y*", "\\*", "a\\?c", "*\\**", "", "*a*b*", "ab", "?b?",
         "*é*", "[a]", "*X*X*", "*ab"]
LISTS = ["urn:list1", "addressbook:x"]
MBOX = ["INBOX", "Junk", "Sent", "A/B"]
FLAGS = ["\\Seen", "\\seen", "x", "X", "y", "a b", "\\Flagged y", "x x", "  z ", "", "\\Deleted"]
HN = ["Subject", "subject", "X-A", "x-a", "X-B", "From", "To", "Cc", "Received", "X-None", "Content-Type"]
ADDRS = ["alice@example.org", "Bob+tag@Example.com", "carol@example.net", "user+a+b@sub.example.com", "postmaster@localhost.dom"]


class G:
    def __init__(self, seed, prof=None):
        self.r = random.Random(seed)
        self.p = dict(DEFAULT)
        if prof:
            self.p.update(prof)
        self.vars = self.p.get("vars", ["a", "b", "Cc"])
        self.depth = 0
        self.loop = []          # "while" / "fep", innermost last
        self.labels = []
        self.cnt = 0
        self.incs = []
        self.nfn = 0
        self.dates = []
        self.flat = False       # no declarations below the top level (loops with jumps)

    def ch(self, xs):
        return self.r.choice(xs)

    def pick(self, w):
        ks = list(w)
        return self.r.choices(ks, [w[k] for k in ks])[0]

    def maybe(self, p):
        return self.r.random() < p

    # -- texts
    def word(self):
        return self.ch(self.p.get("words", WORDS))

    def ref(self):
        k = self.pick(self.p["refs"])
        if k == "v":
            return ("v", self.ch(self.vars))
        if k == "m":
            return ("m", self.ch([0, 1, 1, 2, 3]))
        if k == "g":
            return ("g", self.ch(["g1", "gA", "zz"]))
        if k == "e":
            return ("e", self.ch(["from", "to", "ret", "envid"]))
        if k == "env":
            return ("env", self.ch(["name", "Domain", "none"]))
        return self.word()

    def t(self, lits=None):
        """template"""
        lits = lits or self.p.get("words", WORDS)
        x = self.r.random()
        if x < self.p["plit"]:
            return self.ch(lits)
        if x < self.p["plit"] + (1 - self.p["plit"]) * .5:
            return [self.ref()]
        return [p for p in (self.ch(["", "<", "a"]), self.ref(), self.ch(["", "-", "b "]), self.ref(), self.ch(["", ">"]))
                if p != ""]

    def ts(self, lits=None, n=3):
        return [self.t(lits) for _ in range(self.r.randint(1, n))]

    # -- match clauses
    def clause(self, mts=None):
        m = {"mt": self.pick(mts or self.p["mt"])}
        if self.maybe(.5):
            m["cmp"] = self.ch(["i;ascii-casemap", "i;octet"] + (["i;ascii-numeric"] if m["mt"] in ("is", "value") else []))
        if m["mt"] in ("value", "count"):
            m["rel"] = self.ch(["gt", "ge", "lt", "le", "eq", "ne"])
        if m["mt"] == "count" and self.maybe(.7):
            m["cmp"] = "i;ascii-numeric"
        return m

    def keys(self, m, vals=()):
        if m["mt"] == "regex":
            return [[self.regex()] for _ in range(self.r.randint(1, 2))]
        if m["mt"] == "matches":
            return self.ts(GLOBS + list(vals)[:3], 2)
        if m["mt"] == "list":
            return [self.ch(LISTS) for _ in range(self.r.randint(1, 2))]
        if m["mt"] == "count":
            return self.ts(["0", "1", "2", "3"], 2)
        return self.ts(self.p.get("words", KEYW) + list(vals), 3)

    def rxitems(self, d):
        out = []
        for _ in range(self.r.randint(1, 3)):
            k = self.r.random()
            if k < .4:
                it = {"k": "c", "c": self.ch("abxX@.é")}
            elif k < .55:
                it = {"k": "any"}
            elif k < .7:
                it = {"k": "set", "cs": self.ch(["ab", "xyz", "0123456789", "aX"]), "neg": self.maybe(.3)}
            elif d > 0:
                it = {"k": "grp", "n": 0, "alts": [self.rxitems(d - 1) for _ in range(self.r.randint(1, 2))]}
            else:
                it = {"k": "c", "c": self.ch("ab")}
            if self.maybe(.35) and (it["k"] != "grp" or plain(it)):
                lo, hi = self.ch([(0, 99), (1, 99), (0, 1), (1, 2)])
                it = {"k": "rep", "x": it, "lo": lo, "hi": hi, "lazy": self.maybe(.25)}
            out.append(it)
        return out

    def regex(self):
        its = self.rxitems(2)
        if self.maybe(.3):
            its = [{"k": "bol"}] + its
        if self.maybe(.3):
            its = its + [{"k": "eol"}]
        return lang.rx(its)

    # -- tests
    def test(self, d=2):
        k = self.pick(self.p["tests"])
        if d > 0 and self.maybe(self.p["ptree"]):
            k = self.ch(["not", "allof", "anyof", "not"])
        if k == "not":
            return {"t": "not", "x": self.test(d - 1)}
        if k in ("allof", "anyof"):
            return {"t": k, "ts": [self.test(d - 1) for _ in range(self.r.randint(1, 3))]}
        return getattr(self, "t_" + k)()

    def t_true(self):
        return {"t": "true"}

    def t_false(self):
        return {"t": "false"}

    def idx(self):
        return self.ch([0, 0, 0, 1, 2, -1, -2, 3]) if self.p.get("index", True) else 0

    def hnames(self):
        hn = self.p.get("hnames", HN)
        # an enclosing message has a random boundary
        return [n for n in hn if n != "Content-Type"] if self.p["cmds"].get("enclose") else hn

    def t_header(self):
        m = self.clause()
        t = {"t": "header", "m": m, "names": [self.ch(self.hnames()), [self.ch([("g", "g1"), ("env", "vnd.h"), ("g", "gh")])]] if self.maybe(.2) else [self.ch(self.hnames()) for _ in range(self.r.randint(1, 2))],
             "keys": self.keys(m, self.p.get("hvals", [])), "idx": self.idx(), "any": self.maybe(self.p.get("any", .1))}
        if self.maybe(self.p.get("mime", .15)):
            t["mo"] = self.ch([{"k": "type"}, {"k": "subtype"}, {"k": "contenttype"}, {"k": "param", "ps": [self.ch(self.p.get("mparams", ["charset", "name", "x-p", "boundary"]))]}])
            t["names"] = ["Content-Type"] if self.maybe(.8) else ["Content-Disposition"]
            t["keys"] = self.keys(m, ["text", "plain", "html", "text/plain", "multipart", "mixed", "utf-8", "a.txt"])
        return t

    def t_address(self):
        m = self.clause()
        return {"t": "address", "m": m, "names": [self.ch(["From", "To", "Cc", "to", "Sender"]) for _ in range(self.r.randint(1, 2))],
                "part": self.ch(["all", "localpart", "domain", "user", "detail"]),
                "keys": self.keys(m, ADDRS + ["alice", "example.org", "EXAMPLE.COM", "Bob", "tag", "user"]), "idx": self.idx(), "any": self.maybe(.1)}

    def t_envelope(self):
        m = self.clause()
        return {"t": "envelope", "m": m, "part": self.ch(["all", "localpart", "domain", "user", "detail"]),
                "fields": [self.ch(["from", "to", "orcpt", "ret", "envid", "notify", "bymode"]) for _ in range(self.r.randint(1, 2))],
                "keys": self.keys(m, ADDRS + ["alice", "example.org", "full", "id1"])}

    def t_exists(self):
        return {"t": "exists", "any": self.maybe(.15), "names": [self.ch(self.hnames()), [self.ch([("g", "g1"), ("env", "vnd.h"), ("g", "gh")])]] if self.maybe(.2) else [self.ch(self.hnames()) for _ in range(self.r.randint(1, 3))]}

    def t_size(self):
        s = self.msize + self.ch([-1, 0, 1, -50, 50, 20])
        return {"t": "size", "over": self.maybe(.5), "lim": max(s, 0)}

    def t_string(self):
        m = self.clause()
        return {"t": "string", "m": m, "src": self.ts(), "keys": self.keys(m)}

    def t_environment(self):
        m = self.clause()
        return {"t": "environment", "m": m, "names": [self.ch(["name", "Domain", "host", "none", "vnd.x"])],
                "keys": self.keys(m, ["Stalwart Sieve", "example.com", "h1"])}

    def t_hasflag(self):
        m = self.clause({k: v for k, v in self.p["mt"].items() if k not in ("list", "regex")})
        ks = self.ts(FLAGS, 2) if m["mt"] not in ("matches", "count") else self.keys(m)
        return {"t": "hasflag", "m": m, "vars": [self.ch(self.fvars()) for _ in range(self.r.randint(1, 2))] if self.maybe(.4) and not self.flat else None, "keys": ks}

    def fvars(self):
        return self.p.get("fvars", ["fl", "a"])

    def t_duplicate(self):
        by = self.ch(["default", "header", "uniqueid"])
        t = {"t": "duplicate", "by": by}
        if by == "header":
            t["v"] = self.ch(["Message-ID", "X-Id", "X-None"])
        if by == "uniqueid":
            t["v"] = self.t()
        if self.maybe(.4):
            t["handle"] = self.t()
        if self.maybe(.4):
            t["seconds"] = self.ch([1, 60, 86400])
        t["last"] = self.maybe(.3)
        return t

    def t_mailboxexists(self):
        return {"t": "mailboxexists", "names": self.ts(MBOX, 2)}

    def t_mailboxidexists(self):
        return {"t": "mailboxidexists", "names": self.ts(["i1", "i2"], 2)}

    def t_specialuse_exists(self):
        return {"t": "specialuse_exists", "mbox": self.t(MBOX) if self.maybe(.5) else None, "attrs": self.ts(["\\Junk", "\\Sent"], 2)}

    def t_metadata(self):
        m = self.clause({k: v for k, v in self.p["mt"].items() if k != "list"})
        return {"t": "metadata", "m": m, "mbox": self.ch(["INBOX", "Junk"]) if self.maybe(.5) else None,
                "ann": self.ch(["/private/x", "/PRIVATE/X", "/shared/y", "/none"]), "keys": self.keys(m, ["v1", "v2", "sv"])}

    def t_metadataexists(self):
        return {"t": "metadataexists", "mbox": self.ch(["INBOX", "Junk"]) if self.maybe(.5) else None,
                "anns": [self.ch(["/private/x", "/shared/y", "/none"]) for _ in range(self.r.randint(1, 2))]}

    def t_spamtest(self):
        m = self.clause({"value": 4, "is": 1, "count": 1})
        return {"t": "spamtest", "m": m, "pct": self.maybe(.4), "key": self.ch(["0", "1", "2", "3", "5", "9", "10", "50", "90", "100"])}

    def t_virustest(self):
        m = self.clause({"value": 4, "is": 1, "count": 1})
        return {"t": "virustest", "m": m, "key": self.ch(["0", "1", "2", "3", "4", "5"])}

    def t_validextlist(self):
        return {"t": "validextlist", "names": self.ts(LISTS, 2)}

    # -- dates
    def rdate(self):
        r = self.r
        y = self.ch([1970, 1972, 1999, 2000, 2004, 2023, 2024, 2025, 2100, r.randint(1971, 2200)])
        mo = self.ch([1, 2, 2, 3, 12, r.randint(1, 12)])
        last = [31, 29 if y % 4 == 0 and (y % 100 or y % 400 == 0) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][mo - 1]
        d = self.ch([1, last, r.randint(1, last)])
        if y == 1970 and mo == 1:
            d = max(d, 3)
        return {"y": y, "mo": mo, "d": d, "h": self.ch([0, 23, 12, r.randint(0, 23)]), "mi": self.ch([0, 59, r.randint(0, 59)]),
                "s": r.randint(0, 59), "z": self.ch([0, 0, 60, -60, 330, -300, 660, -660, 345, -30, 545])}

    def zone(self, dp):
        z = ["+0000", "+0100", "-0100", "+1400", "-1200", "-0800"]
        if dp not in ("zone", "std11", "iso8601"):      # mail-parser misstates zones with minutes
            z += ["+0530", "-0330", "+0045", "-0030"]
        return self.ch([None] + z)

    def dkeys(self, m, dp, ds, zone):
        """keys likely to match one of the dates"""
        vs = [date_part(d, dp, zone) for d in ds] or ["2024"]
        v = self.ch(vs)
        if m["mt"] == "count":
            return self.ts(["0", "1", "2", "3"], 2)
        if m["mt"] == "list":
            return [self.ch(LISTS)]
        if m["mt"] in ("matches", "regex"):
            return self.ts([v, v[:2] + "*", "*" + v[-2:], "?" * len(v), "*:*", "20*", "*-*-*"], 2)
        if m["mt"] == "contains":
            return self.ts([v, v[1:3], v[:2], "0", ":"], 2)
        return self.ts(vs + [v, v.lstrip("0") or "0", "10", "2024", v + "0"], 3)

    DP = ["year", "month", "day", "date", "julian", "hour", "minute", "second", "time", "iso8601", "std11", "zone", "weekday"]

    def dclause(self):
        m = self.clause({"is": 5, "contains": 2, "matches": 3, "regex": 1, "value": 3, "count": 2, "list": 1})
        if m["mt"] == "regex":
            m["mt"] = "matches"
        return m

    def t_date(self):
        m = self.dclause()
        dp = self.ch(self.DP)
        z = self.zone(dp)
        if self.maybe(.25):
            z = "original"
        return {"t": "date", "m": m, "idx": self.idx(), "any": self.maybe(.2), "zone": z, "dp": self.ch([dp, dp, dp.upper()]),
                "name": self.ch(["Date", "date", "X-Date", "X-Date", "Resent-Date", "Subject", "X-None", [("g", "gd")]]),
                "keys": self.dkeys(m, dp, [d for _, d in self.dates], z)}

    def t_currentdate(self):
        m = self.dclause()
        dp = self.ch([x for x in self.DP if x not in ("minute", "second", "time", "iso8601", "std11")] + ["minute"])
        z = self.zone(dp)
        n = datetime.datetime.now(datetime.timezone.utc)
        now = {"y": n.year, "mo": n.month, "d": n.day, "h": n.hour, "mi": n.minute, "s": n.second, "z": 0}
        return {"t": "currentdate", "m": m, "zone": z, "dp": dp, "keys": self.dkeys(m, dp, [now], z)}

    def c_adddate(self):
        t, d = self.ch(self.dates)
        return {"c": "addheader", "n": self.ch(["X-Date", "Resent-Date"]), "v": self.ch([t, t, [("g", "gdt")], "no date"]), "last": self.maybe(.4)}

    # -- bodies
    BODIES = ["Test body.\r\n", "ab\r\nabc 10\r\n", "x", "10", "aXbXc é", "foo@bar.com\r\n", "", "a b\r\n\r\nab", "yes", "€5 中文 ab"]
    HTMLS = ["<p>ab</p>", "<p>x</p><p>10</p>", "<p>a <b>bold</b> yes</p>", "<p>foo@bar.com</p>"]

    def t_body(self):
        m = self.clause({"is": 3, "contains": 5, "matches": 4, "regex": 2, "value": 1, "count": 3})
        tr = self.ch(["text", "raw", "content", "content"])
        t = {"t": "body", "m": m, "tr": tr, "subj": self.maybe(.1) and tr != "raw"}
        if tr == "content":
            t["cts"] = self.ts(["text", "text/plain", "TEXT/html", "multipart", "message", "message/rfc822", "application", "application/xml", "multipart/mixed", "application/octet-stream",
                                "", "image", "text/", "a/b/c"], 2)
        t["keys"] = self.keys(m, ["Test", "body", "ab", "Content-Type", "bold", "preamble", "inner", "abc 10", "*body*", "*inner*", "*ab*"] + self.BODIES)
        if m["mt"] == "contains" and self.maybe(.6):
            t["keys"] = self.ts(["Test", "body", "ab", "part", "Content-Type", "bold", "pream", "epil", "inner", "10", "<p>", "--b", "=C3", "Subject"], 2)
        return t

    def bleaf(self, b):
        h = [msg.text("X-A", "p" + b)] if self.maybe(.3) else []
        t = self.ch([("text", "plain"), ("text", "plain"), ("text", "html"), ("application", "octet-stream"), ("application", "xml"), ("text", "csv"), None])
        at = []
        if t and t[0] == "text":
            at = [("charset", "utf-8")]
        if t:
            h.append(msg.ctype(*t, at))
        body = self.ch(self.HTMLS) if t in (("text", "html"), ("application", "xml")) else self.ch(self.BODIES)
        enc = self.ch([None, "base64", "quoted-printable"])
        if not t and not body.isascii():
            body = "ab"
        if body == "" or body.endswith("\r\n"):
            enc = None if enc == "base64" or body == "" else enc
        return msg.leaf(h, body, enc=enc)

    def btree(self, hs, d, b):
        kids = []
        for i in range(self.r.randint(1, 3)):
            x = self.r.random()
            if d > 1 and x < .25:
                kids.append(self.btree([], d - 1, b + str(i)))
            elif d > 1 and x < .45:
                ih = [msg.addr("From", [("", "in@example.org")]), msg.text("Subject", "inner")]
                kids.append(msg.attached([], self.btree(ih, d - 1, b + "m" + str(i)) if self.maybe(.4) else self.bmsg(ih, b + str(i))))
            else:
                kids.append(self.bleaf(b + str(i)))
        return msg.multi(hs, kids, "bnd" + b, self.ch(["mixed", "related", "digestx"]), preamble=self.ch(["", "a preamble\r\n", "ab\r\n"]),
                         epilogue=self.ch(["", "an epilogue\r\n"]))

    def bmsg(self, hs, b):
        x = self.bleaf(b)
        x["h"] = hs + x["h"]
        return x

    def t_ihave(self):
        return {"t": "ihave", "caps": [self.ch(["fileinto", "copy", "relational", "vnd.none", "enotify"]) for _ in range(self.r.randint(1, 2))]}

    def t_eval(self):
        return {"t": "eval", "e": self.expr()}

    # -- expressions
    def lit(self):
        k = self.r.random()
        if k < .6:
            return {"k": "lit", "v": {"t": "i", "v": self.ch([0, 1, 2, 3, 10, 7])}}
        if k < .75:
            return {"k": "lit", "v": {"t": "f", "v": self.ch(["0.5", "1.5", "2.5"])}}
        return {"k": "lit", "v": {"t": "s", "v": self.ch(["", "a", "ab", "10", "é", "x y", "2.5"])}}

    def expr(self, d=3):
        k = self.r.random()
        if d == 0 or k < .2:
            if self.maybe(.45):
                return {"k": "var", "p": self.ch([("v", self.ch(self.vars)), ("g", "g1"), ("e", "from")])}
            return self.lit()
        if k < .3:
            return {"k": "un", "op": self.ch(["!", "!", "-"]), "x": self.expr(d - 1)}
        if k < .75 or not self.p.get("calls", True):
            op = self.ch(["+", "-", "*", "==", "!=", "<", "<=", ">", ">=", "&&", "||", "^", "+", "&&", "||"])
            return {"k": "bin", "op": op, "l": self.expr(d - 1), "r": self.expr(d - 1), "par": self.maybe(.15)}
        if k < .93:
            f = self.ch(self.p.get("fns", [("f_cat", 2, -1), ("f_id", 1, -1), ("f_len", 1, -1), ("f_one", 0, -1), ("xa", 1, 0), ("xb", 2, 1), ("xc", 0, 2), ("xd", 4, 3), ("f_four", 4, -1)]))
            return {"k": "call", "fn": f[0], "ext": f[2], "as": [self.expr(d - 1) for _ in range(f[1])]}
        if k < .97:
            return {"k": "arr", "xs": [self.expr(d - 1) for _ in range(self.r.randint(1, 3))]}
        return {"k": "idx", "a": {"k": "var", "p": ("v", self.ch(self.vars))}, "i": {"k": "lit", "v": {"t": "i", "v": self.ch([0, 1, 2])}}}

    # -- commands
    def block(self, n=None):
        n = n if n is not None else self.r.randint(*self.p.get("blen", (1, 3)))
        self.depth += 1
        out = []
        for _ in range(n):
            c = self.cmd()
            if c is not None:
                out.append(c)
        self.depth -= 1
        return out

    def cmd(self):
        w = self.p["cmds"]
        if self.depth >= self.p.get("maxdepth", 3):
            w = {k: v for k, v in w.items() if k not in ("if", "while", "fep")}
        k = self.pick(w)
        return getattr(self, "c_" + k)()

    def c_keep(self):
        return {"c": "keep", "flags": self.ts(FLAGS, 2) if self.maybe(.3) else None}

    def c_discard(self):
        return {"c": "discard"}

    def c_stop(self):
        return {"c": "stop"}

    def c_return(self):
        return {"c": "return"}

    def c_error(self):
        return {"c": "error", "msg": self.t()}

    def c_reject(self):
        return {"c": "reject", "ext": self.maybe(.5), "reason": self.t()}

    def c_fileinto(self):
        c = {"c": "fileinto", "folder": self.t(MBOX), "copy": self.maybe(.4), "create": self.maybe(.2)}
        if self.maybe(.25):
            c["flags"] = self.ts(FLAGS, 2)
        if self.maybe(.15):
            c["mbid"] = self.t(["id1"])
        if self.maybe(.15):
            c["su"] = self.t(["\\Junk"])
        return c

    def c_redirect(self):
        c = {"c": "redirect", "addr": self.t(self.p.get("raddr", ["a@b.com", "x@y.org", "me@example.com", "ME@Example.COM", "nope", "a@b", "<q@r.com>",
                                           "\"Q R\" <q@r.com>", "a b@c.com", "a@b@c.com", "@x.com", ""])), "copy": self.maybe(.4), "list": self.maybe(.15)}
        if c["list"]:
            c["addr"] = self.ch(LISTS + ["x@y.org"])
        if self.maybe(.25):
            c["notify"] = self.ch(["NEVER", "SUCCESS", "FAILURE,DELAY", "success, failure", "Never", "nEver", "Delay ,SUCCESS", " FAILURE , Delay,success "])
        if self.maybe(.25):
            c["ret"] = self.ch(["full", "hdrs"])
        if self.maybe(.2):
            c["bytime"] = {"t": "rel", "limit": self.ch([1, 600, 0, 4294967297 if self.p.get("bignum") else 7]), "mode": self.ch(["notify", "return"]), "trace": self.maybe(.5)}
        elif self.maybe(.15):
            src, lim = self.deadline()
            c["bytime"] = {"t": "abs", "src": src, "limit": lim, "mode": self.ch(["notify", "return"]), "trace": self.maybe(.5)}
        return c

    def deadline(self):
        """a time in the form of RFC 3339 and the seconds it stands for"""
        r = self.r
        if self.maybe(.15):
            return self.ch(["tomorrow", "2024-13-01T00:00:00Z", "2024-02-03", "2024-02-03T25:00:00Z"]), "0"
        t = datetime.datetime(r.randint(1971, 2036), r.randint(1, 12), r.randint(1, 28), r.randint(0, 23), r.randint(0, 59), r.randint(0, 59))
        z = self.ch([0, 0, 60, -60, 330, -210, 660, -660, -5, 30])
        secs = int((t - datetime.datetime(1970, 1, 1)).total_seconds()) - 60 * z
        zs = self.ch(["Z", "+00:00"]) if z == 0 else "%s%02d:%02d" % ("-" if z < 0 else "+", abs(z) // 60, abs(z) % 60)
        return t.strftime("%Y-%m-%dT%H:%M:%S") + self.ch(["", "", ".25"]) + zs, str(secs)

    def name(self):
        return self.ch(self.vars)

    def c_set(self):
        if self.flat and self.depth > 1:
            n = self.ch(self.vars)
        else:
            n = self.ch(self.vars + (["global.g1", "global.gA"] if self.maybe(.3) else []) +
                        (["envelope.from", "envelope.envid", "envelope.to", "envelope.to"] if self.maybe(.12) and self.p.get("setenv", True) else []))
        c = {"c": "set", "name": n, "v": self.t()}
        if n.startswith("envelope."):
            c["v"] = self.ch(["new@example.org", "z@z.net"])
        elif self.maybe(self.p.get("pmods", .3)):
            ms = []
            ks = ["lower", "upper", "lowerfirst", "upperfirst", "quotewildcard", "quoteregex", "encodeurl", "length", "replace"]
            ks = self.r.sample(ks, self.r.randint(1, 3))
            if "upper" in ks and ("replace" in ks or "lower" in ks):
                ks.remove("upper")
            if "upperfirst" in ks and "lowerfirst" in ks:
                ks.remove("upperfirst")
            for k in ks:
                ms.append((k, self.ch(["a", "b", "X", "ab", [("v", self.ch(self.vars))]]), self.t(["", "Z", "aa"])) if k == "replace" else (k,))
            if ms:
                c["mods"] = ms
        if self.maybe(.1) and "." not in n:
            c["local"] = True
        return c

    def c_let(self):
        return self.seen({"c": "let", "name": self.ch(self.vars), "e": self.expr()}, .3)

    def c_eval(self):
        return {"c": "eval", "e": self.expr()}

    def flagcmd(self, k):
        c = {"c": k, "flags": self.ts(FLAGS, 3)}
        if self.maybe(.35) and not self.flat:
            c["var"] = self.ch(self.fvars() + ["global.fl"])
            if k == "removeflag":     # the order of what remains is open: not for variables read as text
                c["var"] = self.ch(["fl", "global.fl"])
        return c

    def c_setflag(self):
        return self.flagcmd("setflag")

    def c_addflag(self):
        return self.flagcmd("addflag")

    def c_removeflag(self):
        return self.flagcmd("removeflag")

    def c_addheader(self):
        return {"c": "addheader", "n": self.t(["X-New", "Subject", "X-A", "Original-Subject", "X-New", "Received"]) if self.maybe(0) else
                self.ch(["X-New", "Subject", "X-A", "x-b", "Original-Subject", [("g", "gh")]]), "v": self.t(), "last": self.maybe(.4)}

    def c_deleteheader(self):
        m = self.clause({"is": 2, "contains": 2, "matches": 2, "value": 1, "regex": 1})
        c = {"c": "deleteheader", "n": self.ch(["X-A", "X-B", "Subject", "x-new", "Received", "Original-From", "X-None"]), "idx": self.idx(),
             "m": m}
        if self.maybe(.6):
            c["pats"] = self.keys(m, self.p.get("hvals", []))
        else:
            c["m"] = {"mt": "is"}
        return c

    # -- rewriting, replies, notifications
    CRLFS = ["a\r\nX-Evil: 1", "x\ny", "b\r\n\r\nbody", "\r\n", "q\rz"]

    def hv(self, pool):
        """a header value, sometimes with line breaks in it (through a variable as well)"""
        k = self.r.random()
        if k < self.p.get("crlf", .1):
            return self.ch(self.CRLFS)
        if k < self.p.get("crlf", .1) + .1:
            return [self.ch(["pre ", ""]), self.ch([("v", self.ch(self.vars)), ("g", "g1"), ("e", "from")])]
        return self.ch(pool)

    def c_replace(self):
        c = {"c": "replace", "mime": self.maybe(.25), "v": self.t(["new text", "ab\r\nabc", "", "X-H: v\r\n\r\nab"])}
        if self.maybe(.4):
            c["subject"] = self.hv(["New subject", "", "é s", "S" * 40])
        if self.maybe(.4):
            c["from"] = self.hv(["n@new.org", "\"N\" <n@new.org>", ""])
        return c

    def c_enclose(self):
        c = {"c": "enclose", "v": self.t(["cover", "ab\r\nab", ""])}
        if self.maybe(.5):
            c["subject"] = self.hv(["Encl", "", "é s"])
        if self.maybe(.6):
            c["headers"] = [self.ch(["X-A: e1", "X-New:v", "x-b :  w ", "reply-to: r@r.org", "From: q@q.org", "date: today", "MESSAGE-ID: <i@i>", "X A: 1", "Original-Subject: o",
                                     "NoColon", "X-E:", "X-U: é:2", ": v", "Comments: c\r\nX-Evil: 1", [("g", "g1"), ": v"], ["X-A:", ("v", self.ch(self.vars))]])
                            for _ in range(self.r.randint(1, 3))]
        return c

    def c_convert(self):
        return {"c": "convert", "from": self.ch(["text/plain", "text/plain", "text/html", "TEXT/HTML", "text/csv"]), "to": self.ch(["text/html", "text/html", "text/plain", "Text/Plain"])}

    def c_extracttext(self):
        c = {"c": "extracttext", "name": self.ch(self.vars)}
        if self.maybe(.5):
            c["first"] = self.ch([0, 1, 2, 3, 4, 5, 9, 100])
        if self.maybe(.4):
            ks = self.r.sample(["lower", "upperfirst", "quotewildcard", "quoteregex", "length"], self.r.randint(1, 3))
            c["mods"] = [(k,) for k in ks]
        return self.seen(c)

    def seen(self, c, p=.6):
        """a command that stores into a variable, often followed by one that shows what it holds"""
        if "." in c["name"] or not self.maybe(p):
            return c
        return {"c": "block", "b": [c, {"c": "set", "name": "global.xs", "v": [("g", "xs"), "<", ("v", c["name"]), ">"]}]}

    def fccopt(self):
        f = {"mailbox": self.t(MBOX)}
        if self.maybe(.3):
            f["create"] = True
        if self.maybe(.4):
            f["flags"] = self.ts(FLAGS, 2)
        if self.maybe(.2):
            f["mbid"] = self.t(["id1"])
        if self.maybe(.2):
            f["su"] = self.t(["\\Sent"])
        return f

    def c_vacation(self):
        c = {"c": "vacation", "reason": self.t(["I am away", "away\r\nback later", "é", ""])}
        k = self.r.random()
        if k < .25:
            c["days"] = self.ch([0, 1, 3, 7, 30])
        elif k < .5:
            c["seconds"] = self.ch([0, 1, 60, 3600, 1800000])
        if self.maybe(.35):
            c["subject"] = self.hv(["Gone", "", "é away", "L" * 300])
        if self.maybe(.35):
            c["from"] = self.hv(["me@other.org", "\"Me\" <me@example.com>", ""])
        if self.maybe(.3):
            c["handle"] = self.t(["h1", "", "H 2"])
        if self.maybe(.4):
            c["addresses"] = self.ts(self.ME + ["", "who@where.org"], 3)
        c["mime"] = self.maybe(.2)
        if c["mime"]:
            c["reason"] = "Content-Type: text/html\r\n\r\n<p>away</p>"
        if self.maybe(.25):
            c["fcc"] = self.fccopt()
        return c

    ME = ["me@example.com", "ME@Example.com", "bob@example.com", "me@second.org"]
    URIS = ["mailto:a@b.com", "MAILTO:x@y.org", "mailto:a@b.com,c@d.org", "mailto:a@b.com?subject=Hi%20there", "mailto:a@b.com?cc=c@d.org&bcc=e@f.org,a@B.com",
            "mailto:?to=t@t.org&body=text%0D%0Amore", "mailto:a@b.com?X-P=1&x-q=a%0D%0AX-Evil:%201", "mailto:a%40b.com", "mailto:Bob%20%3Cb@b.com%3E",
            "mailto:a@b.com?from=evil@x.org&Subject=one&SUBJECT=two&date=now&message-id=%3Ci@i%3E", "mailto:a@b.com?subject=", "mailto:a@b.com?x-end",
            "mailto:a@b.com,A@B.COM,<c@d.org>", "mailto:a@b.com?X%20Y=1&X%3A%20Z=2", "mailto:a@b.com?reply-to=r@r.org&importance=high",
            "mailto:a@b.com?cc=%22Q%22%20%3Cq@q.org%3E", "mailto:a@b.com?cc=c@d.org&subject=s", "mailto:a @b.com?subject=a b",
            "mailto:a@b.com,c%2Cd@e.org", "mailto:nobody", "mailto:", "mailto:a@b@c.com", "mailto:a@b.com?bad name=1", "mailto:a@b.com?x=%zz", "mailto:a@b.com?cc=none", "mailto:@b.com", "mailto:,a@b.com",
            "mailto:a@b.com?bcc=x@y.org&x-p=1&x-q=2&cc=c@d.org", "mailto:a@b.com?subject=s&x-p=1&bcc=x@y.org,z@y.org&x-r=3&x-s=4", "mailto:a@b.com?x-p=1&x-P=2&X-p=3", "mailto:a@b.com?=x", "mailto:?subject=x", "mailto:a@b.com?x&y=1", "mailto:a@b.com%", "mailto:a@b.com?cc=",
            "xmpp:me@example.com?message", "tel:+1234", "https://x.org/a?b=c", "http:x", "sms:1", "noscheme", "tel:", ":x", ""]
    GOODURIS = [u for u in URIS if u.split(":")[0].lower() in ("xmpp", "tel", "https", "http", "mailto")]

    def uri(self):
        """a method; those the compiler would refuse are computed at run time"""
        u = self.ch(self.URIS)
        if self.maybe(self.p.get("mailtos", .3)):
            u = self.mailto()
        if self.maybe(.3) or u not in GOODCONST:
            i = self.r.randint(0, len(u))
            return [x for x in [u[:i], ("g", "empty"), u[i:]] if x]
        return u

    def mailto(self):
        """a mailto URI with several recipients, some of them the same, and fields"""
        pool = ["a@b.com", "A@B.com", "c@d.org", "C%40d.org", "e@f.org", "e@F.ORG", "x%2By@q.org", "g_h@i-j.net"]
        al = lambda: self.ch([",", ",", "%2C"]).join(self.ch(pool) for _ in range(self.r.choice([1, 1, 2, 3])))
        ps = []
        for _ in range(self.r.randint(0, 4)):
            k = self.ch(["cc", "bcc", "to", "CC", "Bcc", "subject", "body", "X-P", "x-q", "In-Reply-To"])
            ps.append("%s=%s" % (k, al() if k.lower() in ("cc", "bcc", "to") else self.ch(["v", "two%20words", "q%26a", "%C3%A9" if False else "w", "50%25", "a%0D%0AX-E:%201", "plus+sign", "a%3Db"])))
        return "mailto:" + (al() if self.maybe(.85) else "") + ("?" + "&".join(ps) if ps else "")

    def c_notify(self):
        c = {"c": "notify", "method": self.uri()}
        if self.maybe(.35):
            c["from"] = self.ch(["me@example.com", "\"Me M\" <ME@example.com>", "spoof@evil.org", [("g", "g1")], [self.ch(self.CRLFS), " ", ("g", "empty"), "me@example.com"]])
        if self.maybe(.4):
            c["importance"] = self.ch(["1", "2", "3", [("g", "empty"), self.ch(["1", "1 ", " 1", "01", "3", "high", "2"])], [("g", "g1")]])
        if self.maybe(.5):
            c["message"] = self.hv(["You got mail", "", "é m", "M" * 256, "M" * 270])
        if self.maybe(.2):
            c["options"] = self.ts(["o=1", "p=2"], 2)
        if self.maybe(.25):
            c["fcc"] = self.fccopt()
        return c

    def t_validnotify(self):
        return {"t": "validnotify", "uris": [self.uri() for _ in range(self.r.randint(1, 2))]}

    def t_notifycap(self):
        m = self.clause({"is": 4, "contains": 2, "matches": 2, "regex": 1, "value": 1, "count": 1})
        return {"t": "notifycap", "m": m, "uri": self.uri(), "cap": self.ch(["online", "ONLINE", "other"]),
                "keys": self.keys(m, ["maybe", "yes", "no", "MAYBE", "may*", "*b?", "may"])}

    def jumps(self):
        return self.p["jumps"]

    def c_if(self):
        n = self.r.choices([1, 2, 3], [5, 3, 1])[0]
        br = []
        for _ in range(n):
            t = self.test()
            b = self.block()
            br.append({"t": t, "b": b})
        c = {"c": "if", "br": br}
        if self.maybe(.5):
            c["el"] = self.block()
        return c

    def c_while(self):
        self.cnt += 1
        n = "i%d" % self.cnt
        lim = self.ch([0, 1, 2, 3])
        self.predecl.append(n)
        self.loop.append("while")
        b = self.block()
        self.loop.pop()
        inc = {"c": "let", "name": n, "e": {"k": "bin", "op": "+", "l": {"k": "var", "p": ("v", n)}, "r": {"k": "lit", "v": {"t": "i", "v": 1}}}}
        b = [inc] + b if self.maybe(.7) or self.p["jumps"] else b + [inc]
        cond = {"k": "bin", "op": "<", "l": {"k": "var", "p": ("v", n)}, "r": {"k": "lit", "v": {"t": "i", "v": lim}}}
        return {"c": "block", "b": [{"c": "let", "name": n, "e": {"k": "lit", "v": {"t": "i", "v": 0}}}, {"c": "while", "e": cond, "b": b}]}

    def c_fep(self):
        if sum(1 for x in self.loop if x == "fep") >= 2:
            return self.c_keep()
        lab = self.ch(["", "", "L1", "L2"])
        if lab in self.labels:
            lab = ""
        self.loop.append("fep")
        self.labels.append(lab)
        b = self.block()
        self.labels.pop()
        self.loop.pop()
        return {"c": "fep", "b": b, "label": lab}

    def c_break(self):
        if not self.loop:
            return None
        labs = [x for x in self.labels if x]
        if labs and self.maybe(.4):
            return {"c": "break", "label": self.ch(labs)}
        return {"c": "break"}

    def c_continue(self):
        return {"c": "continue"} if "while" in self.loop else None

    def c_include(self):
        if not self.incs:
            return None
        l, n = self.ch(self.incs)
        return {"c": "include", "global": l == "global", "name": n if self.maybe(.8) else [n], "once": self.maybe(.3), "opt": self.maybe(.3)}

    def c_global(self):
        return None

    def c_invalid(self):
        return None

    # -- a whole script
    def body(self, n=None):
        self.predecl = []
        self.flat = bool(self.p["jumps"])
        self.depth = 0
        b = flatten(self.block(n if n is not None else self.r.randint(*self.p.get("len", (2, 6)))))
        pre = []
        if self.p.get("global") and self.maybe(.6):
            pre.append({"c": "global", "names": [self.ch(["g1", "gA", self.ch(self.vars)])]})
        if self.flat:
            pre += [{"c": "set", "name": v, "v": ""} for v in self.vars if not any(p["c"] == "global" and v.lower() in [x.lower() for x in p["names"]] for p in pre)]
            pre += [{"c": "set", "name": v, "v": "0"} for v in self.predecl]
        return pre + b

    # -- messages
    def message(self):
        r = self.r
        k = self.pick(self.p.get("msgs", {"simple": 3, "multi": 2}))
        hs = [msg.addr("From", [("Alice", "alice@example.org")] if self.maybe(.5) else [("", ADDRS[0])]),
              msg.addr("To", [(self.ch(["", "Bob B."]), self.ch(ADDRS)) for _ in range(r.randint(1, 3))], self.ch([("Team", False), ("Our Team", True)]) if self.maybe(self.p.get("groups", .12)) else None)]
        if self.maybe(.3):
            hs.append(msg.addr("Cc", [("", self.ch(ADDRS))]))
        hs.append(msg.text("Subject", self.ch(["Hello", "ab", "10", "aXbXc", "é x", "abc"]), enc=self.maybe(0)))
        for _ in range(r.randint(0, 4)):
            hs.append(msg.text(self.ch(["X-A", "X-B", "x-a"]), self.ch(["ab", "abc", "10", "9", "x", "a b c", "foo@bar.com"])))
        for _ in range(r.randint(0, 2)):
            hs.append(msg.text("Received", "from a by b; Mon, 1 Jan 2024 00:00:00 +0000"))
        if self.maybe(.5):
            hs.append(msg.ident("Message-ID", ["m1@example.org"]))
        if self.maybe(.3):
            hs.append(msg.text("X-Id", "q"))
        if self.p.get("replies"):
            self.replyfields(hs)
        if self.p.get("hostile"):
            hs = [msg.text("Subject", self.ch(["a\r\nX-Evil: 1", "b\r\n\r\nbody", "x\ny", "q\rz", "plain"]), enc=True) if h["rn"] == "Subject" and self.maybe(.7) else h for h in hs]
            if self.maybe(.5):
                hs.append(msg.text("X-A", self.ch(["u\r\nX-Evil: 2", "\r\n\r\n", "é\nx"]), enc=True))
        for t, d in self.dates[:-1]:
            if self.maybe(.8):
                h = msg.date(self.ch(["Date", "X-Date", "X-Date", "Resent-Date"]), d, self.maybe(.7))
                if h["rn"] != "Date" or not any(x["rn"] == "Date" for x in hs):
                    hs.append(h)
        r.shuffle(hs)
        if k == "simple":
            if self.maybe(.3):
                hs.append(msg.ctype("text", self.ch(["plain", "html"]), [("charset", "utf-8")]))
            m = msg.leaf(hs, self.ch(["Test body.\r\n", "ab\r\nabc 10\r\n", "x\r\n"]))
        elif k == "bodies":
            m = self.btree(hs, 3, "b") if self.maybe(.75) else self.bmsg(hs, "b")
        else:
            m = self.tree(hs, 2, "b")
        return msg.build(m)

    def replyfields(self, hs):
        """fields that matter to automatic answers"""
        r = self.r
        if self.maybe(.75):
            hs.append(msg.addr(self.ch(["To", "To", "Cc", "Bcc", "Resent-To", "Resent-Cc"]), [(self.ch(["", "Me M"]), self.ch(self.ME + ADDRS)) for _ in range(r.randint(1, 2))]))
        for p, f in [(.04, lambda: msg.text(self.ch(["List-Id", "List-Post", "list-help", "List-Unsubscribe", "List-Archive", "List-Owner", "List-Subscribe"]), "<x.list.org>")),
                     (.1, lambda: msg.text(self.ch(["Auto-Submitted", "auto-submitted"]), self.ch(["no", "NO", "auto-replied", "auto-generated", "no"]))),
                     (.1, lambda: msg.text("X-Auto-Response-Suppress", self.ch(["All", "DR, OOF", "AutoReply", "none", "DR,oof , RN", "Alls"]))),
                     (.1, lambda: msg.text("Precedence", self.ch(["bulk", "BULK", "list", "normal", "bulky"]))),
                     (.2, lambda: msg.ident("References", ["r1@x.org", "r2@x.org"][:r.randint(1, 2)])),
                     (.15, lambda: msg.addr("Sender", [("S", self.ch(ADDRS))])),
                     (.05, lambda: msg.text("X-List-Id", "x")),
                     (.1, lambda: msg.addr("Reply-To", [("", "rt@x.org")]))]:
            if self.maybe(p):
                hs.append(f())

    def tree(self, hs, d, b):
        kids = []
        for i in range(self.r.randint(1, 3)):
            if d > 1 and self.maybe(.35):
                kids.append(self.tree([msg.text("X-A", "n%s%d" % (b, i))] if self.maybe(.4) else [], d - 1, b + str(i)))
            else:
                t = self.ch([("text", "plain"), ("text", "html"), ("text", "plain"), ("application", "octet-stream"), None])
                h = []
                if self.maybe(.4):
                    h.append(msg.text("X-A", "p%s%d" % (b, i)))
                if t:
                    at = [("charset", "utf-8")] if t[0] == "text" else [("name", "a.txt")]
                    h.append(msg.ctype(*t, at if self.maybe(.6) else []))
                body = "part %s%d ab" % (b, i)
                if t and t[1] == "html":
                    body = "<p>part %s%d</p>" % (b, i)
                kids.append(msg.leaf(h, body))
        return msg.multi(hs, kids, "bnd" + b, self.ch(["mixed", "related"]), epilogue="")

    def rtconf(self):
        rt = {}
        r = self.p.get("rt", {})
        for k, v in r.items():
            if self.maybe(.7):
                rt[k] = self.ch(v)
        if self.p.get("extlists", True):
            rt["ext_lists"] = [LISTS[0]]
        rt["env"] = [["domain", "example.com"], ["vnd.x", "10"], ["vnd.h", "X-A"]]
        rt["metadata"] = [["INBOX", "/private/x", "v1"], ["", "/private/x", "sv"], ["Junk", "/shared/y", "10"]]
        return rt

    def replyctx(self):
        fr = ADDRS + ["ALICE@example.org", "alice@example.org", "MAILER-DAEMON@x.org", "owner-l@x.org", "l-request@x.org", "", "me@example.com", "Me@Example.com", "request@x.org", "mailer@x.org"]
        c = {"envelope": [["from", self.ch(fr)], ["to", self.ch(self.ME + ADDRS)]], "user": self.ch(["me@example.com"] * 4 + [""]),
             "globals": [["empty", {"t": "s", "v": ""}], ["g1", {"t": "s", "v": self.ch([self.word(), self.ch(self.CRLFS), "1", "3", "me@example.com"])}], ["gh", {"t": "s", "v": "x-b"}]]}
        if self.maybe(.4):
            c["fullname"] = self.ch(["Me M.", "É"])
        if self.maybe(.3):
            c["envelope"].append(["orcpt", self.ch(self.ME + ADDRS)])
        self.r.shuffle(c["envelope"])
        return c

    def ctxconf(self):
        if self.p.get("replies"):
            return self.replyctx()
        c = {"envelope": [["from", self.ch(ADDRS)], ["to", self.ch(ADDRS)]], "user": "me@example.com",
             "env": [["host", "h1"]] + ([["domain", self.ch(["", "ctx.org"])]] if self.maybe(.3) else []), "spam": self.r.randint(0, 11) if self.maybe(.8) else 0, "virus": self.r.randint(0, 5),
             "metadata": [["INBOX", "/shared/y", "v2"]]}
        if c["spam"] == 11:
            c["spam"] = 0
        if self.maybe(.4):
            c["envelope"] += [["envid", "id1"], ["ret", "full"]]
        if self.maybe(.12):
            c["envelope"].insert(self.r.randint(0, len(c["envelope"])), ["to", self.ch(ADDRS)])
        if self.dates:
            c["globals"] = [["gd", {"t": "s", "v": self.ch(["X-Date", "date", "no name"])}], ["gdt", {"t": "s", "v": self.dates[0][0]}]]
        elif self.maybe(.3):
            c["globals"] = [["g1", {"t": "s", "v": self.word()}], ["gh", {"t": "s", "v": "x-b"}]]
        return c

    def case(self, cid):
        self.msize = 0
        if self.p.get("dates"):
            ds = [self.rdate() for _ in range(self.r.randint(2, 4))]
            self.dates = [(msg.date_text(d), d) for d in ds]
        m = self.message()
        self.msize = m[1]["size"]
        incs = []
        if self.p["cmds"].get("include"):
            self.incs = [("personal", "one"), ("global", "one"), ("personal", "two"), ("personal", "gone")]
            for l, n in self.incs[:3]:
                b = self.body(self.r.randint(1, 3))
                incs.append((l, n, lang.emit(b, self.r, self.p.get("style", 1))))
        main = lang.emit(self.body(), self.r, self.p.get("style", 1))
        kw = {"answers": [self.maybe(.5) for _ in range(6)], "dflt": self.maybe(.5),
              "extfns": [{"name": "xa", "id": 0, "args": 1}, {"name": "xb", "id": 1, "args": 2}, {"name": "xc", "id": 2, "args": 0}, {"name": "xd", "id": 3, "args": 4}],
              "fnc": [self.ch([{"p": "const", "v": {"t": "i", "v": 1}}, {"p": "const", "v": {"t": "s", "v": "q"}}, {"p": "const", "v": {"t": "i", "v": 0}}, {"p": "count"}, {"p": "cat"}, {"p": "id"}])
                      for _ in range(2)]}
        kw.update(self.p.get("kw", {}))
        if self.dates:
            kw["dates"] = [[t, d] for t, d in self.dates]
        return case.Case(cid, main, incs, m, self.rtconf(), self.ctxconf(), **kw)


def date_part(d, dp, zone):
    """text of a part of a date as a script would compare it (only used to pick plausible keys)"""
    t = datetime.datetime(d["y"], d["mo"], d["d"], d["h"], d["mi"], d["s"])
    z = d["z"]
    if zone != "original":
        nz = 0 if not zone else (int(zone[1:3]) * 60 + int(zone[3:5])) * (-1 if zone[0] == "-" else 1)
        t += datetime.timedelta(minutes=nz - z)
        z = nz
    zs = "%s%02d%02d" % ("-" if z < 0 else "+", abs(z) // 60, abs(z) % 60)
    q = {"y": t.year, "mo": t.month, "d": t.day, "h": t.hour, "mi": t.minute, "s": t.second, "z": z}
    return {"year": t.strftime("%Y"), "month": t.strftime("%m"), "day": t.strftime("%d"), "date": t.strftime("%Y-%m-%d"),
            "julian": str((t.date() - datetime.date(1858, 11, 17)).days), "hour": t.strftime("%H"), "minute": t.strftime("%M"),
            "second": t.strftime("%S"), "time": t.strftime("%H:%M:%S"), "std11": msg.date_text(q), "zone": zs,
            "iso8601": t.strftime("%Y-%m-%dT%H:%M:%S") + ("Z" if z == 0 else zs[:3] + ":" + zs[3:]), "weekday": str((t.weekday() + 1) % 7)}[dp]


# methods a script may name literally
GOODCONST = {u for u in G.URIS[:18]} | {"xmpp:me@example.com?message", "tel:+1234", "https://x.org/a?b=c", "http:x", "mailto:a@b.com?cc="}


def plain(it):
    """a group that always consumes something and contains no repetition"""
    return all(a and all(x["k"] in ("c", "any", "set") for x in a) for a in it["alts"])


def flatten(cs):
    out = []
    for c in cs:
        if c["c"] == "block":
            out += flatten(c["b"])
        else:
            if c["c"] == "if":
                c = dict(c, br=[dict(x, b=flatten(x["b"])) for x in c["br"]])
                if c.get("el") is not None:
                    c["el"] = flatten(c["el"])
            elif "b" in c:
                c = dict(c, b=flatten(c["b"]))
            out.append(c)
    return out


DEFAULT = {
    "plit": .5,
    "refs": {"v": 6, "m": 3, "g": 1, "e": 1, "env": 1},
    "mt": {"is": 4, "contains": 3, "matches": 4, "regex": 2, "value": 2, "count": 1},
    "ptree": .3,
    "jumps": False,
    "tests": {"true": 1, "false": 1, "header": 4, "address": 2, "envelope": 2, "exists": 2, "size": 1, "string": 4, "hasflag": 2},
    "cmds": {"keep": 2, "discard": 1, "fileinto": 3, "redirect": 1, "set": 5, "if": 5, "addflag": 1, "setflag": 1, "removeflag": 1, "addheader": 1, "deleteheader": 1, "stop": .3},
}
