"""A test case: what the harness runs, and the same case as the specification
reads it."""
from . import lang, msg

DEF_RT = {"cpu_limit": 5000, "max_nested_includes": 3, "max_redirects": 1, "max_out_messages": 3,
          "max_received_headers": 10, "max_variable_size": 4096, "max_header_size": 1024,
          "vacation_expiry": 30 * 86400, "duplicate_expiry": 7 * 86400, "vacation_use_orig_rcpt": False,
          "vacation_subject": "Automated reply", "vacation_prefix": "Auto: ", "caps": [], "nocaps": [],
          "protected": [], "ext_lists": [], "notify_uris": [], "env": [], "metadata": []}


def default_msg():
    return msg.simple([msg.addr("From", [("", "alice@example.org")]), msg.addr("To", [("", "bob@example.com")]),
                       msg.text("Subject", "Hello")])


class Case:
    def __init__(self, cid, main, inc=None, message=None, rt=None, ctx=None, **kw):
        """main: (src, spec); inc: list of (loc, name, (src, spec)); message: (raw, spec)"""
        self.id = cid
        self.args = (main, inc, message, rt, ctx, dict(kw))
        self.group = None
        rt = dict(rt or {})
        ctx = dict(ctx or {})
        message = message or default_msg()
        caps = set(lang.EXTRA_CAPS) if "caps" not in rt else set(rt["caps"])
        rt["caps"] = sorted(caps)
        full = dict(DEF_RT)
        full.update(rt)
        allowed = (lang.BASE_CAPS | caps) - set(full["nocaps"])
        hctx = {}
        if ctx.get("user"):
            hctx["user"] = ctx["user"]
        if ctx.get("fullname"):
            hctx["fullname"] = ctx["fullname"]
        for k in ("envelope", "env", "metadata"):
            if ctx.get(k):
                hctx[k] = ctx[k]
        if ctx.get("globals"):
            hctx["globals"] = ctx["globals"]
        if "spam" in ctx:
            hctx["spam"] = ctx["spam"]
        if "virus" in ctx:
            hctx["virus"] = ctx["virus"]
        self.h = {"id": cid, "src": main[0], "message": message[0], "runtime": rt, "ctx": hctx}
        if inc:
            self.h["inc"] = [{"loc": l, "name": n, "src": s[0]} for l, n, s in inc]
        for k, v in kw.items():
            if k != "spec":
                self.h[k] = v
        self.h["compiler"] = dict({"max_includes": 500}, **kw.get("compiler", {}))
        scripts = {"main": main[1]}
        for l, n, s in inc or []:
            scripts[("g/" if l == "global" else "p/") + n] = s[1]
        spam = ctx.get("spam", 0)
        fnc = [p["v"] for p in kw.get("fnc", []) if p["p"] == "const"]
        self.s = {
            "id": cid, "dates": kw.pop("dates", []), "dfs": kw.get("dfs", 0), "dflt": bool(kw.get("dflt")),
            "fnc": fnc if len(fnc) == len(kw.get("fnc", [])) and fnc else [{"t": "i", "v": 0}], "scripts": scripts, "msg": message[1],
            "rt": {"maxvar": full["max_variable_size"], "maxhdr": full["max_header_size"], "maxinc": full["max_nested_includes"],
                   "maxred": full["max_redirects"], "maxout": full["max_out_messages"], "maxrecv": full["max_received_headers"],
                   "dupexp": full["duplicate_expiry"], "cpu": full["cpu_limit"],
                   "protected": ["original-subject", "original-from"] + [x.lower() for x in full["protected"]],
                   "caps": sorted(allowed), "known": sorted(lang.KNOWN_CAPS), "extlists": full["ext_lists"],
                   "notifyuris": full["notify_uris"],
                   "env": [["name", "Stalwart Sieve"]] + [[n.lower(), v] for n, v in full["env"]],
                   "metadata": full["metadata"], "vacexp": full["vacation_expiry"],
                   "vacorcpt": full["vacation_use_orig_rcpt"], "vacsubj": full["vacation_subject"], "vacpre": full["vacation_prefix"],
                   "host": "conf.host"},
            "ctx": {"env": [[n.lower(), v] for n, v in ctx.get("env", [])], "envelope": ctx.get("envelope", []),
                    "globals": ctx.get("globals", []), "user": ctx.get("user", ""), "fullname": ctx.get("fullname", ""),
                    "metadata": ctx.get("metadata", []),
                    "spam": spam_rec(spam), "virus": ["unknown", "clean", "replaced", "cured", "maybe", "definite"][ctx.get("virus", 0)]},
        }

    def vary(self, cid, message=None, ctx=None, **kw):
        """the same script and configuration with another message, context or answers"""
        main, inc, m, rt, c, k = self.args
        return Case(cid, main, inc, message or m, rt, c if ctx is None else ctx, **dict(k, **kw))


class Group:
    """executions that share one runtime and one set of compiled scripts"""

    def __init__(self, members, mode, **kw):
        self.members = members
        lead = members[0].h
        self.h = {k: lead[k] for k in ("src", "inc", "runtime", "compiler", "via", "extfns") if k in lead}
        self.h.update(group=[m.h for m in members], mode=mode, **kw)
        for m in members:
            m.group = self
        self.rename()

    def rename(self):
        self.id = self.h["id"] = self.members[0].id + "/group"


def spam_rec(n):
    return n
