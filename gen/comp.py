"""Scripts for the compiler: octets, limits, and whether the specification's walk
over their tokens (Compile.tla) allows what the compiler says of them."""
import json, os, random, re, shutil
from . import run, fam, rand, lang, case

O0 = {"nocap": False, "maxscript": 1 << 20, "maxstring": 4096, "maxname": 32, "maxblocks": 15, "maxtests": 15, "maxparts": 3, "maxmatch": 30,
      "maxlocal": 128, "maxheader": 1024, "maxincs": 6}
OPT = {"nocap": "no_capability_check", "maxscript": "max_script_size", "maxstring": "max_string_size", "maxname": "max_variable_name_size",
       "maxblocks": "max_nested_blocks", "maxtests": "max_nested_tests", "maxparts": "max_nested_foreverypart", "maxmatch": "max_match_variables",
       "maxlocal": "max_local_variables", "maxheader": "max_header_size", "maxincs": "max_includes"}
EXT = [{"name": "xa", "id": 0, "args": 1}, {"name": "xb", "id": 1, "args": 2}, {"name": "xc", "id": 2, "args": 0}, {"name": "xd", "id": 3, "args": 4}]
MESSAGES = [
    b"From: a@b.com\r\nTo: c@d.org\r\nSubject: x y\r\nDate: Tue, 3 Mar 2020 10:11:12 +0100\r\n\r\nbody text\r\n",
    "From: <a@b.com>\r\nTo: c@d.org\r\nSubject: =?utf-8?q?=C3=A9?= x\r\nX-A: 1\r\nX-A: 2\r\nMIME-Version: 1.0\r\nContent-Type: multipart/mixed; boundary=\"q\"\r\n\r\n"
    "--q\r\nContent-Type: text/plain; charset=utf-8\r\n\r\nh\u00e9\r\n--q\r\nContent-Type: message/rfc822\r\n\r\nSubject: in\r\n\r\nz\r\n--q--\r\n".encode()]
# messages at the edges of what can be parsed
ODD = [b"", b"\r\n", b"\n", b"x", b"Subject", b"Subject:", b":\r\n\r\n", b"Subject: a\r\n b\r\n\tc\r\n\r\n", b"\xff\xfe: \x80\r\n\r\n\x00\xff", b"From: <\r\nTo: ,,;:@\r\nDate: x\r\n\r\n",
       b"Date: Fri, 99 Foo 99999 99:99:99 +9999\r\nDate: 1\r\nReceived: by x; Fri, 31 Feb 0000 24:60:61 -2400\r\n\r\n",
       b"Content-Type: multipart/mixed; boundary=\"\"\r\n\r\n--\r\n----\r\n", b"Content-Type: multipart/mixed; boundary=a\r\n\r\n--a\r\n--a--", b"Content-Type: multipart/mixed\r\n\r\nx",
       b"Content-Type: multipart/mixed; boundary=a\r\n\r\n--a\r\nContent-Type: multipart/mixed; boundary=a\r\n\r\n--a\r\n\r\nx\r\n--a--\r\n--a--\r\n",
       b"Content-Type: message/rfc822\r\n\r\nContent-Type: message/rfc822\r\n\r\nSubject: deep\r\n\r\nx", b"Content-Type: text/html; charset=nope\r\nContent-Transfer-Encoding: base64\r\n\r\n####",
       b"Subject: " + b"a" * 70000 + b"\r\n\r\nx", b"From: g: a@b.c, \"q\\\"\" <d@e>;\r\nTo: (c (d)) x@y\r\nMessage-ID: <\r\nReferences: <a> <b\r\nIn-Reply-To: x\r\n\r\n",
       b"Subject: =?x?y?z?= =?utf-8?b?/w==?= =?utf-8?q?=?=\r\nContent-Disposition: ;;=;\r\nContent-Type: /;=\r\n\r\nx", b"A: 1\nB: 2\n\nbody\n", b"List-Id: x\r\n" * 50 + b"\r\n",
       b"Content-Type: multipart/digest; boundary=d\r\n\r\npre\r\n--d\r\n\r\nSubject: 1\r\n\r\nx\r\n--d\r\n\r\n--d--\r\npost"]


class Src:
    """one source for the compiler; laid out like a Case for reports and replays"""

    def __init__(self, fam_, src, o=None, via="", caps=True, messages=MESSAGES, big=False):
        self.fam, self.b, self.o = fam_, (src.encode() if isinstance(src, str) else bytes(src)), dict(O0, **(o or {}))
        self.big = big
        self.s, self.group, self.id = None, None, fam_
        self.h = {"id": "", "hex": self.b.hex(), "compiler": {OPT[k]: v for k, v in self.o.items()}, "extfns": EXT, "messages": [m.hex() for m in messages], "via": via,
                  "maxsteps": 8000, "src": self.b.decode("utf-8", "replace")[:4000], "o": self.o,
                  "runtime": {"caps": sorted(lang.EXTRA_CAPS)} if caps else {}, "ctx": {"user": "c@d.org", "envelope": [["from", "a@b.com"], ["to", "c@d.org"]]}}


def judge(srcs, wd, chunk=1500, timeout=600):
    """compile the sources and let TLC decide -> (violations, statistics)"""
    for i, c in enumerate(srcs):
        c.id = c.h["id"] = "%s#%d" % (c.fam, i)
    recs = {r["id"]: r for r in run.harness(srcs, wd)}
    viol, st = [], {"states": 0, "generated": 0, "accepted": 0, "rejected": 0, "open": 0, "kinds": {}}
    todo = []
    for c in srcs:
        r = recs[c.id]
        cm = r["compile"]
        why = None
        bad = [x["out"]["k"] for x in r["steps"]]
        if r["run"] in ("hang", "crash") or "hang" in bad:
            why = "the compiler or an execution of the script does not come back (%s)" % r["run"]
        elif cm["kind"] == "Panic":
            why = "the compiler panics"
        elif not cm["same"]:
            why = "compiling the same source twice gives different results"
        elif bad:
            why = "an accepted script fails at run time: %s" % bad[0]
        elif not cm["ok"] and not (0 if cm["kind"] == "ScriptTooLong" else 1) <= cm["line"] <= c.b.count(b"\n") + 1:
            why = "the error names line %d of %d" % (cm["line"], c.b.count(b"\n") + 1)
        if why:
            viol.append((c, why, r))
        else:
            todo.append((c, r))
    for k in range(0, len(todo), chunk):
        part = todo[k:k + chunk]
        v, any_ = walk(part, wd, timeout, st)
        st["open"] += any_
        viol += v
    for c, r in todo:
        st["accepted" if r["compile"]["ok"] else "rejected"] += 1
        if not r["compile"]["ok"]:
            st["kinds"][r["compile"]["kind"]] = st["kinds"].get(r["compile"]["kind"], 0) + 1
    return viol, st


def walk(part, wd, timeout, st):
    d = os.path.join(wd, "ctlc")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    with open(os.path.join(d, "cases.ndjson"), "w") as f:
        for c, r in part:
            f.write(json.dumps({"b": [] if c.big else list(c.b), "big": c.big, "lines": c.b.count(b"\n") + 1, "o": c.o, "r": {k: r["compile"][k] for k in ("ok", "kind", "line")}}) + "\n")
    out = run.tlc("CompileTrace", d, timeout=timeout)
    if os.environ.get("KEEPOUT"):
        open(os.path.join(wd, "tlc_out.txt"), "w").write(out)
    shutil.rmtree(d, ignore_errors=True)
    s = run.stats(out)
    st["states"] += s["states"]
    st["generated"] += s["generated"]
    if "Model checking completed. No error has been found." not in out:
        why = "\n".join(re.findall(r"Error: .*(?:\n(?!Error|State |/).*){0,12}", out))[:3000]
        if len(part) == 1 or "TLC_TIMEOUT" in out:
            open(os.path.join(run.ROOT, "work", "compile_error.txt"), "w").write(out)
            raise run.ToolError("the specification cannot be evaluated on %r: %s" % (part[0][0].b[:300], why))
        k = len(part) // 2
        a, b = walk(part[:k], wd, timeout, st), walk(part[k:], wd, timeout, st)
        return a[0] + b[0], a[1] + b[1]
    acc, outs = set(), {}
    for m in re.finditer(r'^"@(\w+) (\d+) (.*)"$', out, re.M):
        i = int(m.group(2)) - 1
        if m.group(1) == "ACCEPT":
            acc.add(i)
        else:
            outs.setdefault(i, set()).add(m.group(1) + " " + m.group(3).replace('\\"', '"'))
    viol, open_ = [], 0
    for i, (c, r) in enumerate(part):
        if i not in acc:
            viol.append((c, "the compiler says %s; allowed: %s" % (
                "accepted" if r["compile"]["ok"] else "%s at line %d" % (r["compile"]["kind"], r["compile"]["line"]),
                "; ".join(sorted(outs.get(i, {"nothing"})))[:500]), r))
        elif any(x.startswith("any") for x in outs[i]) or {x[:3] for x in outs[i]} == {"acc", "rej"}:
            open_ += 1
    return viol, open_


# ------------------------------------------------------------------ the grammar, for making scripts
MATCH = [("is", ""), ("contains", ""), ("matches", ""), ("value", 'rel'), ("count", 'rel'), ("regex", ""), ("comparator", "cmp")]
MATCHL = MATCH + [("list", "")]
INDEX = [("index", "num"), ("last", "")]
MIME = [("mime", ""), ("anychild", "")]
MOPTS = [("type", ""), ("subtype", ""), ("contenttype", ""), ("param", "strs")]
ADDR = [("localpart", ""), ("domain", ""), ("all", ""), ("user", ""), ("detail", "")]
FCC = [("create", ""), ("specialuse", "str"), ("mailboxid", "str"), ("fcc", "str"), ("flags", "strs")]
MODS = [("lower", ""), ("upper", ""), ("lowerfirst", ""), ("upperfirst", ""), ("quotewildcard", ""), ("quoteregex", ""), ("length", ""),
        ("replace", "str str"), ("local", "")]
CMDS = {
    "fileinto": ([("copy", ""), ("create", ""), ("flags", "strs"), ("mailboxid", "str"), ("specialuse", "str")], "str"),
    "redirect": ([("copy", ""), ("list", ""), ("bytrace", ""), ("bymode", "bymode"), ("bytimerelative", "num"), ("bytimeabsolute", "str"), ("ret", "ret"),
                  ("notify", "dsn")], "str"),
    "replace": ([("mime", ""), ("subject", "str"), ("from", "str")], "str"),
    "enclose": ([("subject", "str"), ("headers", "strs")], "str"),
    "extracttext": ([("first", "num")] + MODS, "var"),
    "convert": ([], "str str strs"),
    "addheader": ([("last", "")], "hname str"),
    "deleteheader": (MATCH + INDEX + MIME, "hname strs"),
    "set": (MODS + [("encodeurl", "")], "var str"),
    "notify": ([("from", "from"), ("message", "str"), ("importance", "str"), ("options", "strs")] + FCC, "uri"),
    "reject": ([], "str"), "ereject": ([], "str"),
    "vacation": ([("mime", ""), ("days", "num"), ("seconds", "num"), ("subject", "str"), ("from", "str"), ("handle", "str"), ("addresses", "strs")] + FCC, "str"),
    "error": ([], "str"), "discard": ([], ""), "stop": ([], ""), "return": ([], ""), "keep": ([("flags", "strs")], ""),
    "include": ([("once", ""), ("optional", ""), ("personal", ""), ("global", "")], "str"),
    "eval": ([], "expr"), "let": ([], "var expr"), "setflag": ([], "var strs"), "addflag": ([], "strs"), "removeflag": ([], "var strs"),
    "global": ([], "consts"), "require": ([], "caps"),
}
TESTS = {
    "address": (ADDR + [("name", "")] + MATCHL + INDEX + MIME, "hnames strs"), "header": (MATCHL + INDEX + MIME + MOPTS, "hnames strs"),
    "exists": (MIME, "hnames"), "envelope": (ADDR + MATCHL + [("zone", "zone")], "env strs"),
    "body": (MATCH + [("raw", ""), ("text", ""), ("content", "strs"), ("subject", "")], "strs"), "convert": ([], "str str strs"),
    "date": (MATCHL + INDEX + MIME + [("zone", "zone"), ("originalzone", "")], "hname part strs"),
    "currentdate": (MATCHL + [("zone", "zone")], "part strs"),
    "duplicate": ([("handle", "str"), ("header", "hname"), ("uniqueid", "str"), ("seconds", "num"), ("last", "")], ""),
    "string": (MATCHL, "strs strs"), "environment": (MATCH, "name strs"), "notify_method_capability": (MATCH, "uri2 ocap strs"),
    "valid_notify_method": ([], "strs"), "valid_ext_list": ([], "strs"), "ihave": ([], "caps"), "mailboxexists": ([], "strs"),
    "metadata": (MATCH, "str str strs"), "metadataexists": ([], "str strs"), "servermetadata": (MATCH, "str strs"), "servermetadataexists": ([], "strs"),
    "mailboxidexists": ([], "strs"), "spamtest": (MATCH + [("percent", "")], "str"), "virustest": (MATCH, "str"), "eval": ([], "expr"),
    "hasflag": (MATCH + [("local", "")], "var strs"), "specialuse_exists": ([], "str strs"), "size": ([("over", "num"), ("under", "num")], ""),
    "true": ([], ""), "false": ([], ""),
}
VALUES = {
    "str": ['"x"', '"a b"', '"INBOX"', '"${v}"', '"1"', '""', '"a@b.com"'], "strs": ['"x"', '["x", "y"]', '["a"]', '["${v}", "b*"]', '"\\\\Seen"'],
    "num": ["1", "10k", "0", "2M", "100"], "rel": ['"gt"', '"eq"', '"ne"', '"le"'], "cmp": ['"i;octet"', '"i;ascii-casemap"', '"i;ascii-numeric"'],
    "bymode": ['"notify"', '"Return"'], "dsn": ['"never"', '"success,failure"', '"DELAY"'], "ret": ['"full"', '"HDRS"'], "from": ['"a@b.com"'],
    "uri": ['"mailto:a@b.com"'], "uri2": ['"mailto:a@b.com"'], "ocap": ['"online"'], "var": ['"v"', '"vv"', '"global.g"', '"T.x"', '"envelope.from"'],
    "hname": ['"Subject"', '"X-A"'], "hnames": ['"Subject"', '["From", "To"]'], "env": ['"from"', '["To", "From"]', '"envid"', '"bymode"'],
    "zone": ['"+0100"', '"-0330"'], "part": ['"year"', '"Weekday"', '"iso8601"'], "name": ['"domain"', '"x.y"'], "consts": ['"g"', '["g", "H"]'],
    "caps": ['"fileinto"', '["copy", "vnd.x"]'], "expr": ['"1 + 2"', '"f_len(\'a\') >= xa(3)"', '"v && !f_one()"'],
}
WRONG = ["5", '"x"', '["x", "y"]', "[]", '["x" "y"]', '["x",]', "[5]", '"${v}"', '"gt"', '""', '"a"', '"x y"', '"a:b"', '"."', '"x.y"', '"${99}"', '"${1}"',
         ":is", "foo", "99999999999", "1x", '"2"', '"1.5"', '["a", "${2}"]', '"%{hex:41}"', '"from"', '"+2500"', '"1 +"', '"(a"', "70000", "65534",
         "text:\nx\n.\n", '["x", 5]', '["x"', "(", "{", "}", ";", ",", '"global.x"', '"foo.x"', '"global."', '"env.x"', '"${v}${w}"']
ALLCAPS = sorted(lang.KNOWN_CAPS)


def value(r, ty):
    return r.choice(VALUES[ty])


def tagtext(r, t):
    return ":" + t[0] + "".join(" " + value(r, x) for x in t[1].split())


def req(caps):
    return "require [%s];\n" % ", ".join('"%s"' % c for c in caps) if caps else ""


def form(r, is_test, body, pre=""):
    """a test needs an if around it"""
    return "%sif %s {\n keep;\n}\n" % (pre, body) if is_test else "%s%s;\n" % (pre, body)


EXCLUSIVE = [set(x for x, _ in MATCHL) - {"comparator"}, {"localpart", "domain", "all", "user", "detail", "name"}, {"raw", "text", "content"},
             {"zone", "originalzone"}, {"bytimerelative", "bytimeabsolute"}, {"days", "seconds"}, {"personal", "global"}, {"header", "uniqueid"},
             {"type", "subtype", "contenttype", "param"}, {"over", "under"}]


def compatible(tags):
    return not any(len(g & set(tags)) > 1 for g in EXCLUSIVE)


def sentence(r, is_test, name, tags=None, pos=None):
    tab = TESTS if is_test else CMDS
    ts, ps = tab[name]
    if tags is None:
        k = r.choice([0, 0, 1, 1, 2, 3])
        tags = r.sample(ts, min(k, len(ts)))
        if name == "size":
            tags = [r.choice(ts)]
        while not compatible([t[0] for t in tags]):
            tags = tags[1:]
    pos = [value(r, x) for x in ps.split()] if pos is None else pos
    return " ".join([name] + [tagtext(r, t) for t in tags] + pos)


def capscan(text):
    """capabilities a sentence may need (too many is harmless)"""
    return ALLCAPS


def table(seed, n):
    """each command and test: its arguments one by one with and without capabilities"""
    r = random.Random(seed)
    out = []
    for is_test, tab in ((False, CMDS), (True, TESTS)):
        for name, (ts, ps) in sorted(tab.items()):
            pos = ps.split()
            sp = lambda **k: sentence(r, is_test, name, **k)
            base = [] if name != "size" else [ts[0]]
            go = lambda body, caps=ALLCAPS, pre="", o=None: out.append(Src("table:" + name, req(caps) + form(r, is_test, body, pre), o))
            go(sp(tags=base))
            go(sp(tags=base), [])
            go(sp(tags=base), [], o={"nocap": True})
            for t in ts:
                go(sp(tags=[t]))
                go(sp(tags=[t]), [])
                go(sp(tags=[t, t]))
                go(sp(tags=[t, r.choice(ts)]))
                go(sp(tags=[(t[0].upper(), t[1])]))
                go(sp(tags=[(t[0] + "x", t[1])]))
                if t[1]:
                    go(sp(tags=[(t[0], "")]))
                    for w in r.sample(WRONG, 3):
                        go(" ".join([name, ":" + t[0], w] + [value(r, x) for x in pos]))
            for k in range(len(pos)):
                full = [value(r, x) for x in pos]
                go(sp(tags=base, pos=full[:k]))
                go(sp(tags=base, pos=full[:k] + full[k + 1:]))
                for w in WRONG:
                    go(sp(tags=base, pos=full[:k] + [w] + full[k + 1:]))
            go(sp(tags=base, pos=[value(r, x) for x in pos] + ['"extra"']))
            go(sp(tags=base, pos=[value(r, x) for x in pos] + [r.choice(ts)[0] if ts else "3"]))
    if n < len(out):
        out = r.sample(out, n)
    return out


def caps(seed, n):
    """one capability less than all, or exactly one, or declared in some block"""
    r = random.Random(seed * 7 + 1)
    out = []
    for k in range(n):
        is_test = r.random() < .5
        name = r.choice(sorted(TESTS if is_test else CMDS))
        s = sentence(r, is_test, name)
        f = r.random()
        if f < .4:
            c = r.choice(ALLCAPS)
            cs = [x for x in ALLCAPS if x != c]
            src = req(cs) + form(r, is_test, s)
        elif f < .6:
            src = req(r.sample(ALLCAPS, r.choice([1, 2, 4, 20]))) + form(r, is_test, s)
        elif f < .8:
            # declared in a block: visible below it and not after it
            inner = form(r, is_test, s)
            blk = "if %s {\n%s%s}\n" % (r.choice(["true", "not false", 'ihave "fileinto"']), req(ALLCAPS), inner if r.random() < .5 else "keep;\n")
            src = ('require "ihave";\n' if r.random() < .5 else "") + blk + (inner if r.random() < .6 else "")
        else:
            extra = r.choice(["vnd.stalwart.unknown", "nonsense", "comparator-i;octet", "encoded-character", "vnd.stalwart.expressions", "spamtestplus", "Fileinto", ""])
            src = "require [%s];\n" % ", ".join('"%s"' % c for c in r.sample(ALLCAPS, r.choice([3, 10])) + [extra]) + form(r, is_test, s)
        out.append(Src("caps", src, {"nocap": r.random() < .1}))
    return out


# ------------------------------------------------------------------ structure
class Tree:
    """random block structure with labels, jumps, variables and limits"""

    def __init__(self, r, wild=.08):
        self.r, self.wild, self.n = r, wild, 0

    def test(self, d=0):
        r = self.r
        x = r.random()
        if x < .25 and d < 6:
            return "%s (%s)" % (r.choice(["allof", "anyof"]), ", ".join(self.test(d + 1) for _ in range(r.choice([1, 2, 2, 3]))))
        if x < .35:
            return "not " + self.test(d)
        if x < .75:
            return r.choice(["true", "false", "size :over 1k"])
        return sentence(r, True, r.choice(sorted(TESTS)))

    def block(self, d, parts, loops, labels):
        r = self.r
        out = []
        for _ in range(r.choice([1, 1, 2, 3])):
            out.append(self.cmd(d, parts, loops, labels))
        return "".join(out)

    def cmd(self, d, parts, loops, labels):
        r = self.r
        x = r.random()
        w = r.random() < self.wild
        body = lambda **k: "{\n" + self.block(d + 1, k.get("p", parts), k.get("l", loops), k.get("lab", labels)) + "}\n"
        if x < .2 and d < 7:
            s = "if %s %s" % (self.test(), body())
            for _ in range(r.choice([0, 0, 1, 2])):
                s += "elsif %s %s" % (self.test(), body())
            if r.random() < .4:
                s += "else " + body()
            if w:
                s += r.choice(["else { keep; }\n", "elsif true { keep; }\n", "else keep;\n"])
            return s
        if x < .32 and d < 7 and (parts < 4 or w):
            lab = r.choice(["a", "b", "A", "c", ""]) if r.random() < .5 else None
            if lab in labels and not w:
                lab = None
            return "foreverypart %s%s" % ("" if lab is None else ':name "%s" ' % lab, body(p=parts + 1, l=loops + ["p"], lab=labels + ([] if lab is None else [lab])))
        if x < .4 and d < 7:
            return 'while "%s" %s' % (r.choice(["0", "v < 0", "v", "1 > 2"]), body(l=loops + ["w"]))
        if x < .48 and (loops or w):
            if labels and r.random() < .5 or w:
                return 'break :name "%s";\n' % r.choice(labels + (["zz"] if w or not labels else []))
            return "break;\n"
        if x < .53 and ("w" in loops or w):
            return "continue;\n"
        if x < .7:
            self.n += 1
            v = r.choice(["v", "w", "V", "x%d" % (self.n % 9), "y%d" % self.n])
            if r.random() < .3:
                return 'let "%s" "%s";\n' % (v, r.choice(["1", "v + 1", "w", "'a'"]))
            return 'set %s"%s" "x${v}";\n' % (":local " if r.random() < .3 else "", v)
        if x < .75:
            return 'global %s;\n' % r.choice(['"v"', '"g"', '["g", "h"]', '"w"'])
        if x < .8 and w:
            return sentence(r, False, "require") + ";\n"
        return sentence(r, False, r.choice(sorted(CMDS))) + ";\n"


def trees(seed, n):
    out = []
    for i in range(n):
        r = random.Random(seed * 10007 + i)
        t = Tree(r, r.choice([0, .02, .1, .3]))
        src = (req(ALLCAPS) if r.random() < .9 else "") + 'set "v" "1"; set "w" "2";\n' + t.block(0, 0, [], [])
        o = {}
        if r.random() < .6:
            for k, lo, hi in (("maxblocks", 1, 5), ("maxtests", 1, 3), ("maxparts", 0, 3), ("maxlocal", 2, 9), ("maxincs", 0, 2), ("maxmatch", 0, 3), ("maxname", 2, 4)):
                if r.random() < .35:
                    o[k] = r.randint(lo, hi)
        out.append(Src("trees", src, o))
    return out


def limits(seed, n):
    """one more, one less and exactly as much as each limit"""
    out = []
    for i in range(n):
        r = random.Random(seed * 20011 + i)
        d = r.choice([-1, 0, 1, 2, -2])
        k = r.choice(sorted(set(O0) - {"nocap"}))
        R = req(ALLCAPS)
        L = r.randint(2, 7)
        o = {k: L}
        m = max(L + d, 0)
        jitter = r.choice(["", "keep;\n", "# c\n", "/* x\n */"])
        if k == "maxscript":
            src = R + "keep;"
            o[k] = len(src) - d
        elif k == "maxstring":
            s = "a" * m
            o[k] = L = L + 30
            s = "a" * (L + d)
            form_ = r.randint(0, 4)
            if form_ == 0:
                src = R + 'fileinto "%s";' % s
            elif form_ == 1:
                src = R + "fileinto text:\n%s\n.\n;" % s[:-1]
            elif form_ == 2:
                src = R + 'if header "Subject" ["x", "%s"] { keep; }' % s
            elif form_ == 3:
                src = R + 'fileinto "%s";' % ("\\" + "\\".join("b" * len(s)))
            else:
                src = R + 'fileinto "%s";' % ("é" * (len(s) // 2) + "x" * (len(s) % 2))
        elif k == "maxname":
            nm = "v" * m if m else "v"
            src = R + r.choice(['set "%s" "x";', 'set :local "%s" "x";', 'global "%s";', 'set "global.%s" "x";', 'let "%s" "1";', 'extracttext "%s";', 'addflag "%s" "x";',
                                'global ["a", "%s"];', 'setflag "%s" ["x", "y"];', 'if hasflag "%s" "x" { keep; }', 'set "t.%s" "x";']) % nm
        elif k in ("maxblocks", "maxparts", "maxtests"):
            if k == "maxtests":
                t = "true"
                for _ in range(m):
                    t = "%s(%s)" % (r.choice(["allof", "anyof", "not anyof", "not allof"]), r.choice([t, "false, " + t, t + ", true"]))
                src = R + "%s %s { keep; }" % (r.choice(["if", "if false { keep; } elsif"]), t)
                if r.random() < .3:
                    src = R + "if allof(%s, true) { keep; }" % t.replace("not anyof", "anyof")
            else:
                src = "keep;"
                for j in range(m):
                    h = "foreverypart" if k == "maxparts" else r.choice(["if true", "foreverypart", 'while "0"', "if false { keep; } else"])
                    src = "%s {\n%s%s%s}" % (h, r.choice(["", "keep;\n", "if true { keep; }\n"]) if k != "maxblocks" else "", src, r.choice(["", "keep;\n"]))
                if k == "maxparts" and r.random() < .5:
                    src = "foreverypart { keep; }\n" + src + "\nforeverypart { if true { foreverypart { keep; } } }"
                src = R + jitter + src
        elif k == "maxlocal":
            parts = []
            for j in range(m):
                parts.append(r.choice(['set "v%d" "x";', 'let "v%d" "1";', 'extracttext "v%d";', 'set "V%d" "y";', 'addflag "v%d" "x";', 'set :local "v%d" "x";']) % j)
            if r.random() < .5:
                cut = r.randint(0, len(parts))
                src = R + "\n".join(parts[:cut]) + "\nif true {\n" + "\n".join(parts[cut:]) + "\n}"
                if r.random() < .5:
                    src += "\nif true { set \"z1\" \"1\"; }\nif true { set \"z2\" \"1\"; }"
            else:
                src = R + "\n".join(parts + r.sample(parts, min(2, len(parts)))) + 'set "global.g" "x"; set "t.t" "x";'
        elif k == "maxmatch":
            src = R + r.choice(['if header :matches "x" "*" { set "a" "${%d}"; }', 'set "a" "x${%d}${1}";', 'keep; redirect "${%d}@x.com";',
                                'if true { if string "${%d}" "x" { stop; } }']) % m
        elif k == "maxheader":
            src = R + r.choice(['addheader "X-A" "%s";', 'addheader :last "X-A" "%s";']) % ("h" * m)
        else:
            src = R + "".join(r.choice(['include "a%d";\n', 'if true { include :personal :once "b%d"; }\n', 'include :global "c%d";\n']) % j for j in range(m)) + jitter
        out.append(Src("limits:" + k, src, o))
    return out


EXPRV = ["v", "w", "nope", "true", "false", "1", "2.5", "0", "'a'", '\\"b\\"', "f_len", "f_one", "xa", "xb", "xc", "f_cat", "global.g", "env.x", "envelope.from", "body.text",
         "part.raw", "T.q", "envelope.zz", "foo.bar", "12ab", "_x", "1.2.3", "header.subject", "V"]
EXPRO = ["+", "-", "*", "/", "&&", "||", "!", "==", "!=", "<", "<=", ">", ">=", "&", "|", "^", "(", ")", "[", "]", ",", "'", "=", "~", "@", "\\\\", "."]


def gexpr(r, d=0):
    x = r.random()
    if d > 3 or x < .35:
        return r.choice(["v", "w", "1", "2.5", "'a b'", "V", "global.g", "env.name", "true", "xc()", "f_one()", "[]", "t.a", "envelope.from", "'x'"])
    if x < .55:
        return gexpr(r, d + 1) + r.choice([" ", ""]) + r.choice(["+", "-", "*", "/", "&&", "||", "==", "!=", "<", "<=", ">", ">=", "^", "=>", "=<"]) + " " + gexpr(r, d + 1)
    if x < .65:
        return "(" + gexpr(r, d + 1) + ")"
    if x < .72:
        return r.choice(["!", "-"]) + gexpr(r, d + 1)
    if x < .85:
        f, n = r.choice([("f_len", 1), ("f_id", 1), ("f_cat", 2), ("xa", 1), ("xb", 2), ("xc", 0), ("f_four", 4), ("xd", 4)])
        if r.random() < .1:
            n = r.randint(0, 3)
        return f + "(" + ", ".join(gexpr(r, d + 1) for _ in range(n)) + ")"
    if x < .93:
        return "[" + ", ".join(gexpr(r, d + 1) for _ in range(r.randint(0, 3))) + "]"
    return r.choice(["v", "w", "[1, 2]", "(v)", "xa(1)"]) + "[" + gexpr(r, d + 1) + "]"


def exprs(seed, n):
    out = []
    for i in range(n):
        r = random.Random(seed * 30011 + i)
        if r.random() < .6:
            e = gexpr(r)
            if r.random() < .5:
                ts = re.findall(r"'[^']*'|[A-Za-z0-9_.]+|[<>=!]=|&&|\|\||\s+|.", e)
                j = r.randrange(len(ts))
                m = r.random()
                if m < .4:
                    del ts[j]
                elif m < .7:
                    ts.insert(j, r.choice(EXPRO + EXPRV))
                else:
                    ts[j] = r.choice(EXPRO + EXPRV)
                e = "".join(ts)
        else:
            e = " ".join(r.choice(EXPRO if r.random() < .5 else EXPRV) for _ in range(r.randint(1, 6)))
        e = e.replace('"', "'") if '\\"' not in e else e
        tmpl = r.choice(['let "x" "%s";', 'if eval "%s" { keep; }', 'while "%s" { break; }', 'eval "%s";'])
        out.append(Src("exprs", req(ALLCAPS) + 'set "v" "1"; set "w" "b";\n' + tmpl % e + "\nkeep;\n"))
    return out


VOCAB = ["keep", "if", "elsif", "else", "not", "anyof", "allof", "true", "false", "stop", "discard", "require", "foreverypart", "while", "break", "continue", "{", "}", "(", ")",
         "[", "]", ",", ";", ":is", ":matches", ":name", ":over", ":flags", ":mime", ":local", '"x"', '"${v}"', '"a b"', '"fileinto"', "5", "1k", "header", "size", "set",
         "fileinto", "redirect", "exists", "foo", ":bar", '["a", "b"]', '"1"', "text:\nab\n..c\n.\n", "# note\n", "/* n */", "\n", "global", "include", "let", '"v"', "return",
         "ihave", '"ihave"', "address", "envelope", "currentdate", ":value", '"gt"', "string", "hasflag", "addflag", "duplicate", "vacation", "notify", "mailboxexists", "test", "x.y"]


def soup(seed, n):
    out = []
    for i in range(n):
        r = random.Random(seed * 40009 + i)
        src = " ".join(r.choice(VOCAB) for _ in range(r.randint(1, 14)))
        out.append(Src("soup", (req(ALLCAPS) if r.random() < .6 else "") + src + r.choice(["", ";", "\n;\n", "{ keep; }", " }"])))
    return out


TOK = re.compile(r'/\*.*?\*/|#[^\n]*\n|text:[^\n]*\n(?:.*?\n)??\.\r?\n|"(?:[^"\\]|\\.)*"|:?[A-Za-z0-9_.$]+|\s+|.', re.S)


BACK = {v: k for k, v in OPT.items()}


def valid_sources(seed, n):
    """printed scripts of all families (all of them well-formed): [(source, limits)]"""
    out = []
    fs = [f for p in sorted(fam.FAMS) for f, _, _ in fam.FAMS[p]]
    k = max(1, n // len(fs) + 1)
    for i, f in enumerate(fs):
        for c in f(seed * 50021 + i, k)[:k]:
            o = {BACK[x]: y for x, y in c.h.get("compiler", {}).items()}
            out += [(x, o) for x in [c.h["src"]] + [y["src"] for y in c.h.get("inc", [])] if len(x) < 3000]
    random.Random(seed).shuffle(out)
    return out[:n]


def valid(seed, n):
    return [Src("valid", s, o, via=random.Random(i).choice(["", "serde", "rkyv"])) for i, (s, o) in enumerate(valid_sources(seed, n))]


def mutants(seed, n):
    """small changes to well-formed scripts"""
    out = []
    base = [x for x, _ in valid_sources(seed + 77, max(30, n // 12))] + [x.b.decode() for x in trees(seed + 5, max(10, n // 12))]
    base = [x for x in base if len(x) < 1200] or base
    for i in range(n):
        r = random.Random(seed * 60013 + i)
        src = r.choice(base)
        ts = TOK.findall(src)
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            if not ts:
                break
            j = r.randrange(len(ts))
            x = r.random()
            if x < .25:
                del ts[j]
            elif x < .4:
                ts.insert(j, ts[j])
            elif x < .55:
                k = r.randrange(len(ts))
                ts[j], ts[k] = ts[k], ts[j]
            elif x < .75:
                ts[j] = r.choice(VOCAB)
            elif x < .85:
                ts.insert(j, " " + r.choice(VOCAB) + " ")
            else:
                w = ts[j]
                k = r.randint(0, len(w))
                c = r.choice(["\\", '"', "\0", "*/", "/*", "#", "%", "$", "{", "}", "\n", "é", ":", "A", "-", "'", "\x7f", "\xff"])
                ts[j] = w[:k] + c + w[k + (1 if r.random() < .5 else 0):]
        src = "".join(ts)
        if r.random() < .1:
            src = src[:r.randint(0, len(src))]
        out.append(Src("mutants", src.encode("latin-1", "replace") if r.random() < .05 else src, {"maxincs": 500}))
    return out


def octets(seed, n):
    out = []
    al = [b'"', b"\\", b"\n", b"\r", b";", b"{", b"}", b"[", b"]", b"(", b")", b",", b":", b"#", b"/*", b"*/", b" ", b"\t", b"text:", b".", b"..", b"keep", b"if", b"true", b"1", b"k",
          b"a", b"Z", b"_", b"$", b"${", b"%{", b"\0", b"\xff", b"\xc3\xa9", b"-", b"'", b"@", b"=", b"stop", b"require"]
    for i in range(n):
        r = random.Random(seed * 70001 + i)
        if r.random() < .2:
            src = bytes(r.randrange(256) for _ in range(r.randint(0, 40)))
        else:
            src = b"".join(r.choice(al) for _ in range(r.randint(0, 20)))
        if r.random() < .3:
            src = b"keep;\n" * r.randint(1, 3) + src
        out.append(Src("octets", src, {"maxstring": r.choice([4096, 5])}))
    return out


def ihave(seed, n):
    """unknown commands, tests and tags, with and without ihave in force"""
    out = []
    for i in range(n):
        r = random.Random(seed * 80021 + i)
        args = lambda: " ".join(r.choice([":tag", '"s"', "5", '["a", "b"]', "x", "(x, y)", "[1]"]) for _ in range(r.randint(0, 3)))
        cmd = lambda: "%s %s%s\n" % (r.choice(["foo", "Bar", "foo_bar", "x.y"]), args(),
                                     r.choice([";", ";", " { keep; }", " { foo { } bar; }", "", " { keep;", " }"]) if r.random() < .9 else "")
        tst = lambda: r.choice(["foo %s", "not bar %s", "allof(true, foo %s)", "anyof(foo %s, bar, true)", "not (true)", "not anyof(foo %s)"]).replace("%s", args())
        parts = []
        for _ in range(r.randint(1, 3)):
            parts.append(r.choice([cmd, lambda: "if %s { keep; }\n" % tst(), lambda: "keep;\n", lambda: "if true { %s }\n" % cmd(),
                                   lambda: "if false { keep; } elsif %s { %s }\n" % (tst(), cmd())])())
        body = "".join(parts)
        f = r.random()
        if f < .5:
            src = 'require "ihave";\n' + body
        elif f < .7:
            src = body
        elif f < .85:
            src = 'if true { require "ihave";\n%s}\n%s' % (body, cmd() if r.random() < .4 else "")
        else:
            src = 'require "ihave";\nif ihave "%s" {\n%s} else { %s }\n' % (r.choice(["vnd.x", "fileinto", "foo"]), body, cmd() if r.random() < .5 else "keep;")
        out.append(Src("ihave", src, {"nocap": r.random() < .1}))
    return out


def robust(seed, n):
    """accepted scripts of every command and test on odd messages"""
    out = []
    for i in range(n):
        r = random.Random(seed * 90001 + i)
        body = []
        for _ in range(r.randint(1, 4)):
            if r.random() < .5:
                name = r.choice(sorted(set(CMDS) - {"stop", "return", "discard", "error", "require", "include", "global", "reject", "ereject"}))
                body.append(sentence(r, False, name) + ";\n")
            else:
                body.append("if %s%s { %s; }\n" % (r.choice(["", "", "not "]), sentence(r, True, r.choice(sorted(TESTS))), r.choice(["keep", 'addheader "X-Z" "1"', 'fileinto "a"'])))
        src = "".join(body)
        if r.random() < .5:
            src = "foreverypart {\n%s}\n" % src
        if r.random() < .3:
            src = 'set "v" "1";\n' + src + "".join(body)
        ms = [r.choice(ODD) for _ in range(3)]
        m = bytearray(r.choice(MESSAGES + ODD))
        for _ in range(r.randint(1, 6)):
            if m:
                j = r.randrange(len(m))
                m[j:j + r.choice([0, 1, 1, 5])] = r.choice([b"", b"\r\n", b"\n", b":", b"--q", b"\0", b"\xe9", b" ", b"\"", b"<", b";", b"=", b"a@b", b",", b"(", b"=?"])
        ms.append(bytes(m))
        out.append(Src("robust", req(ALLCAPS) + src, messages=ms, via=r.choice(["", "serde", "rkyv"]), o={"maxparts": 9}))
    return out


def deep(seed, n):
    """sources far larger or deeper than ordinary ones: only the outcome being clean is checked"""
    r = random.Random(seed)
    N = 3000 + r.randrange(1000)
    top = {k: 1 << 20 for k in ("maxstring", "maxblocks", "maxtests", "maxparts")}
    big = lambda c: str(r.choice([(1 << 64) - 1, (1 << 63) - 1, 1 << 63, (1 << 64), (1 << 32), (1 << 31) - 1, 10 ** 30, 18446744073709551615])) + c
    ex = lambda p, m="1", q="", k=None: 'let "x" "%s%s%s";' % (p * N, m, q * N)
    S = ["if " + "not " * N + "true { keep; }", "if " + "(" * N + "true" + ")" * N + " { keep; }", "if " + "anyof(" * N + "true" + ")" * N + " { keep; }",
         "if " + "not allof(false, " * N + "true" + ")" * N + " { keep; }", "if " + "not anyof(" * (N - 1) + "true" + ")" * N + " { keep; }", "foo " + "{" * N + "}" * N,
         "foo " + "{" * N + "}" * (N - 1), "if foo " + "(" * N + ")" * N + "{ keep; }", "if true {" * N + "keep;" + "}" * N, 'while "0" {' * N + "keep;" + "}" * N,
         "foreverypart {" * 500 + "keep;" + "}" * 500, "if false {}" + "elsif false { }\n" * N, ex("(", q=")"), ex("!"), ex("-"), ex("[", q="]"), ex("1+"), ex("1 && "), ex("v || "),
         ex("xa(", q=")"), ex("f_id(", q=")"), ex("", "v", "[1]"), ex("", "(v)", "[1]"), ex("f_cat(1, ", q=")"), "if header [" + '"a",' * N + '"b"] "c" { keep; }',
         "/*" + "*" * N * 3 + "x*/ keep;", 'set "a" "' + "${a}" * N + '";', 'set "a" "' + "${" * N + '";', 'set "a" "' + "${" * N + "}" * N + '";', 'set "a" "' + "%{hex:41}" * N + '";',
         'set "a" "' + "%{hex:" * N + '";', 'set "a" "' + "%{unicode:ffffffff ff}" * N + '";', 'if header :regex "a" "' + "(" * N + ")" * N + '" { keep; }',
         'if header :regex "subject" "a{500}{9}" { keep; }', 'if header :matches "subject" "' + "*a" * 20 + '" { keep; }', 'set "a" "${header.' + "a" * N + '}";',
         'set "a" "${header.' + "a:" * N + '}";', 'set "a" "${header.a[' + "9" * 100 + ']}";', 'set "a" "${header.subject[' + big("") + '].raw[' + big("") + ']}";', "set " + ":lower " * N + '"a" "b";',
         "foreverypart { " + "break;" * N + "}", 'notify "mailto:' + "a@b.com," * N + "?" + "cc=a@b.com&" * 100 + '";', "if size :over " + "9" * N + " {}", "if size :over %s {}" % big("G"),
         'vacation :days %s "x"; keep;' % big(""), 'vacation :seconds %s "x"; keep;' % big(""), 'if duplicate :seconds %s { stop; }' % big(""), 'redirect :bytimerelative %s "b@c.com";' % big(""),
         'redirect :bytimeabsolute "%s" "b@c.com";' % big(""), 'if header :index %s "a" "b" {}' % big(""), 'extracttext :first %s "b"; fileinto "${b}";' % big(""),
         'if currentdate :zone "+%s" "year" "1" {}' % big(""), 'if date :zone "${v}" "date" "year" "1" {}', 'if currentdate :zone "-1200" "iso8601" "1" {}',
         ex("%s * " % big("")), ex("%s + " % big("")), 'let "x" "-%s - 9223372036854775807";' % big(""), 'let "x" "9223372036854775807 + 1"; let "y" "x * x"; let "z" "0 - x - 2"; let "w" "z / 0"; let "u" "z / -1";',
         'let "x" "[1, 2]"; let "y" "x[9223372036854775807]"; let "z" "x[-1]"; let "w" "x[0 - 9223372036854775807]"; let "u" "x[%s]";' % big(""),
         'if string :value "gt" :comparator "i;ascii-numeric" "%s" "%s" { keep; }' % (big(""), big("")), 'if header :count "ge" "a" "%s" { keep; }' % big(""), 'if spamtest :value "ge" "%s" { keep; }' % big("")]
    if n < len(S):
        S = r.sample(S, n)
    pre = req(ALLCAPS) + 'set "v" "1";\n'
    return [Src("deep", pre + s, top, big=True, messages=MESSAGES[:1]) for s in S]


def check(fams):
    def f(seed, thorough, wd):
        srcs = []
        names = []
        for g, q, t in fams:
            cs = g(seed, t if thorough else q)
            names.append({"family": "compile:" + g.__name__, "cases": len(cs)})
            srcs += cs
        viol, st = judge(srcs, wd)
        return viol, {"compile": dict(st, sources=len(srcs), families=names)}
    return f


CHECKS = {"P19": [(caps, 900, 8000), (ihave, 700, 6000), (table, 900, 6000)], "P20": [(limits, 1200, 12000), (trees, 150, 2000)],
        "P23": [(table, 900, 6000), (trees, 200, 2500), (mutants, 900, 9000), (soup, 500, 5000), (octets, 600, 8000), (exprs, 500, 5000), (valid, 150, 2500),
                (ihave, 200, 2000), (limits, 150, 1500), (caps, 150, 1500), (deep, 100, 100), (robust, 700, 8000)],
        "P21": [(robust, 300, 3000)]}
for _p, _f in CHECKS.items():
    fam.EXTRA[_p] = check(_f)
