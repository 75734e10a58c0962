"""Scripts as text.  What these scripts mean is read off their octets by the
specification (Reading.tla); nothing here knows it.  A text the specification
does not read, or leaves open, is dropped (and counted)."""
import json, os, random, re, shutil
from . import case, comp, fam, lang, msg, rand, run

HEAD = ["variables", "encoded-character", "fileinto", "imap4flags", "duplicate"]
GLOBALS = [["g", {"t": "s", "v": "G1"}], ["v", {"t": "s", "v": "V1"}]]


class Text(case.Case):
    """a case whose program the specification reads from the source"""

    def __init__(self, cid, src, inc=None, maybe=False, **kw):
        super().__init__(cid, (src, None), inc and [(l, n, (x, None)) for l, n, x in inc], kw.pop("message", None), kw.pop("rt", None), kw.pop("ctx", None), **kw)
        self.maybe = maybe      # may be ill-formed
        self.texts = {"main": src}
        for l, n, x in inc or []:
            self.texts[("g/" if l == "global" else "p/") + n] = x


# ------------------------------------------------------------------ strings
FRAG = ["a", "b", "X", " ", "x y", "é", "0", "7", "-", ".", "..", "1.5", "10", "-5", "$", "{", "}", "%", "%{v}", "#", "/*", "*/", ";", "stop;", "'", "@", "[", "]", ",", "(", ")", "?", "*", "text:", "hex:41",
        "${v}", "${V}", "${g}", "${global.g}", "${GLOBAL.g}", "${t.g}", "${global.v}", "${w_1}", "${none}", "${_x}", "${v", "${", "${}", "${ v}", "${v }", "${v!}", "${doh!}", "$${v}", "$${", "${v}}", "{${v}}", "${v}${v}", "${${v}}",
        "${hex:41}", "${hex:61 62}", "${HEX: 42  43 }", "${Hex:7a}", "${hex:7A 7a}", "${hex:0a}", "${hex:9}", "${hex:\t41\n42}", "${hex:41\r\n42 }", "${hex:4}${hex:30}", "${hex:400}", "${hex:41 400}", "${hex:41 4g}", "${hex:}", "${hex: }",
        "${hex:41", "${hex:4${hex:30}}", "${hex:41,42}", "${hex 41}", "${ hex:41}", "${hex:C3 A9}", "${hex:c3}${hex:a9}", "${hex:24}{v}", "${hex:24 7B}v}", "${hex:24}{hex:41}", "${v${hex:7d}", "${hex:24}${v}", "${hex:31 30}", "${hex:5c}", "${hex:22}",
        "${unicode:41}", "${UNICODE: 61 0062 }", "${Unicode:e9}", "${unicode:000000041}", "${unicode:20ac}", "${unicode:}", "${unicode:4 zz}", "${unicode:3C0 41}", "${unicode:cool}", "${unicode:D7}", "${unicode", "${unicode:00C9}x",
        "${envelope.from}", "${envelope.to}", "${envelope.notify}", "${env.name}", "${ENV.Name}", "$a", "${hex:2E}", "${unicode:2e}", "${hex:0d 0a}"]
QUOT = ["\\\\", '\\"', "\\n", "\\r\\n", "\\t", "\\x", "\\.", "\\5", "\\$", "\\ ", "\\é", "\\;", "\\\\n", "\\\\\\\\", "\n", "\r\n", "\t", "\\\n", "\\}", "\\a"]


def quoted(r, n):
    return '"' + "".join(r.choice(FRAG if r.random() < .75 else QUOT) for _ in range(n)) + '"'


def block(r, n):
    nl = r.choice(["\n", "\r\n", "\r\n"])
    ls = []
    for _ in range(n):
        x = r.choice(["", "", "", ".", "..", "...", ". ", ".a", "..b", "a.", ".${v}", "\"", "\\n", "\\", ".5", "-", ".${hex:41}", "${hex:41\r\n42}"])
        ls.append(x + "".join(r.choice(FRAG) for _ in range(r.choice([0, 0, 1, 2, 3]))))
    # a line that is a lone dot ends the text
    ls = [("." + x if x == "." else x) for x in ls]
    return "text:" + r.choice(["", " ", "\t", " # note", "#"]) + nl + "".join(x + r.choice([nl, nl, nl, "\n"]) for x in ls) + "." + nl


def string(r):
    if r.random() < .3:
        return block(r, r.choice([0, 1, 1, 2, 3]))
    return quoted(r, r.choice([0, 1, 1, 2, 2, 3, 4, 6]))


def strings(seed, n):
    """strings in every form, kept in global variables and used as folders, keys and flags"""
    out = []
    for i in range(n):
        r = random.Random(seed * 90001 + i)
        s = [comp.req(HEAD), 'set "v" %s;\n' % r.choice(['"V"', '"v2"', '"${hex:41}"', '""', quoted(r, 2)]), 'set "w_1" "W";\n', 'set "global.g" "G";\n']
        for j in range(r.choice([3, 4, 5, 6])):
            x = r.random()
            if x < .6:
                s.append('set "global.r%d" %s;\n' % (j, string(r)))
            elif x < .7:
                s.append("fileinto %s%s;\n" % (r.choice(["", ":copy ", ":flags %s " % string(r)]), string(r)))
            elif x < .8:
                s.append("if string :%s %s [%s, %s] { set \"global.t%d\" \"Y\"; }\n" % (r.choice(["is", "contains", "matches"]), string(r), string(r), quoted(r, 1), j))
            elif x < .9:
                s.append("set :%s \"global.q%d\" %s;\n" % (r.choice(["length", "upperfirst", "quotewildcard", "lowerfirst"]), j, string(r)))
            else:
                s.append("addflag [%s, %s];\n" % (string(r), quoted(r, 1)))
        out.append(Text("strings-%d-%d" % (seed, i), "".join(s).replace(":copy", ":flags \"c\""), maybe=True, ctx={"globals": r.sample(GLOBALS, r.choice([0, 1, 2])), "envelope": [["from", "f@x.org"], ["to", "t@y.org"]]}))
    return out


# ------------------------------------------------------------------ numbers
def numbers(seed, n):
    """numbers with and without multipliers, compared with the size of the message and given to the host"""
    out = []
    for i in range(n):
        r = random.Random(seed * 90011 + i)
        size = r.choice([1023, 1024, 1025, 2048, 2047, 2049, 3072, 500, 1000])
        hdr = [msg.addr("From", [("", "a@x.org")]), msg.text("Subject", "s")]
        base = msg.simple(hdr, "")
        m = msg.simple(hdr, "y" * (size - base[1]["size"]))
        s = [comp.req(HEAD)]
        for j in range(5):
            k = r.choice([size, size - 1, size + 1, size // 1024, size // 1024 + 1, 0, 1])
            t = str(k) + (r.choice(["k", "K"]) if k < 5 else "") if r.random() < .8 else r.choice(["1m", "1M", "0K", "0", "1g", "00%d" % size, "0002K", "1048576", "4G", "3g", "2048M", "4194304k", "99999999999", "2g", "0g"])
            s.append("if size :%s %s { set \"global.s%d\" \"Y\"; }\n" % (r.choice(["over", "under", "OVER"]), t, j))
            if r.random() < .3:
                s.append("if duplicate :uniqueid \"u%d\" :seconds %s { set \"global.d%d\" \"Y\"; }\n" % (j, r.choice(["1m", "10K", "2m", "1000", "0", "7k", "3M", "007", "1g", "1G", "1023m"]), j))
        out.append(Text("numbers-%d-%d" % (seed, i), "".join(s), message=m, answers=[r.random() < .5 for _ in range(5)]))
    return out


# ------------------------------------------------------------------ programs
def tokens(src):
    return [t for t in comp.TOK.findall(src) if not t.isspace() and not t.startswith(("/*", "#"))]


def filler(r, must):
    x = r.choice(["", "", "", " ", " ", " ", "\n", "\t", "  ", "\r\n", " \n ", "/* x */", "/**/", "/***/", "/* ** / * */", "# c\n", "#\n", "#;}\r\n", " /* \" */ ", "/*\n*/", "/*/ */", "/* /* */", "/* # */ ", "# /* \n", "#\"\n", "/* * */",
                  "/* stop; *\n/ */"])
    return x if x or not must else " "


def respelled(r, ts, noise=.25, enc=.1):
    """the same tokens, spaced and written otherwise"""
    out, last, req = "", "", False
    for t in ts:
        req = t.lower() == "require" or (req and t != ";")
        w = re.fullmatch(r":?[A-Za-z0-9_.$]+", t)
        must = bool(w and re.search(r"[A-Za-z0-9_.$:]$", last)) or (t.startswith(":") and bool(re.search(r"[A-Za-z0-9_.$]$", last))) or (t.startswith("text:") and bool(re.search(r"\w$", last)))
        f = filler(r, must) if r.random() < noise else (" " if must or r.random() < .5 else "")
        if w and r.random() < noise and not t.startswith("text:"):
            t = "".join(c.upper() if r.random() < .5 else c.lower() for c in t)
        if t.startswith('"') and r.random() < noise and not req:
            b = t[1:-1]
            if "\\" not in b and "${" not in b and b:
                y = r.random()
                k = r.randrange(len(b))
                if y < enc:
                    t = '"' + b[:k] + "${%s:%s}" % (r.choice([("hex", " ".join("%02x" % o for o in b[k].encode())), ("unicode", "%x" % ord(b[k])), ("HEX", " ".join("%X" % o for o in b[k].encode())), ("Unicode", "%06X" % ord(b[k]))])) + b[k + 1:] + '"'
                elif y > .5 and b[k] not in "nrtNRT{\n\r":
                    t = '"' + b[:k] + "\\" + b[k:] + '"'
        out += f + t
        last = f + t
    return out + r.choice(["", "\n", " ", "# end", "\n# end\n", "/* end */"])


WITH = dict.fromkeys("header uniqueid handle seconds index comparator value count flags mailboxid specialuse param notify ret bymode bytimerelative bytimeabsolute name days subject from addresses fcc zone importance first options message content quickread".split(), 1)
WITH["replace"] = 2


def shuffled(r, ts):
    """the same tokens with the tags of commands and tests in another order"""
    out, k = [], 0

    def group(k):
        """end of the tag at k and its arguments"""
        w = 0 if body and ts[k].lower() == ":subject" else WITH.get(ts[k][1:].lower(), 0)
        k += 1
        for _ in range(w):
            if k < len(ts) and ts[k] == "[":
                while k < len(ts) and ts[k] != "]":
                    k += 1
            k += 1
        return k
    while k < len(ts):
        gs, body = [], k and ts[k - 1].lower() == "body"
        while k < len(ts) and ts[k].startswith(":"):
            e = group(k)
            gs.append(ts[k:e])
            k = e
        if len(gs) > 1 and not any(g[0].lower() == ":replace" for g in gs):
            r.shuffle(gs)
        out += sum(gs, [])
        if k < len(ts):
            out.append(ts[k])
            k += 1
    return out


SUB = dict(mt=fam.only(**{"is": 4, "contains": 3, "matches": 3, "value": 1, "count": 1}),
           tests=fam.only(**{"true": 1, "false": 1, "header": 3, "address": 2, "envelope": 1, "exists": 2, "size": 2, "string": 4, "hasflag": 2, "environment": 1, "mailboxexists": 1}),
           cmds=fam.only(keep=1, discard=.5, fileinto=3, redirect=.7, set=5, addflag=1, setflag=1, removeflag=.7, addheader=.7, deleteheader=.7, stop=.3, include=.8, fep=.5, reject=.1, **{"if": 6}), style=1, len=(1, 4), ptree=.5)
SWAPS = [("is", "contains"), ("over", "under"), ("allof", "anyof"), ("true", "false"), ("elsif", "else"), ("keep", "stop"), ("keep", "discard"), ("setflag", "addflag"), ("localpart", "domain"), ("contains", "matches"), ("not", ""), ("", "not"),
         ("copy", ""), ("last", ""), ("matches", "is"), ("if", "if not")]


def mutated(r, ts):
    ts = list(ts)
    for _ in range(r.choice([1, 1, 2, 3])):
        if len(ts) < 3:
            break
        j = r.randrange(len(ts))
        x = r.random()
        if x < .3:
            a, b = r.choice(SWAPS)
            if r.random() < .5:
                a, b = b, a
            js = [k for k, t in enumerate(ts) if t.lower().lstrip(":") == a] if a else [k for k, t in enumerate(ts) if t.lower() in ("true", "false", "header", "string", "size", "exists", "allof", "anyof")]
            if js:
                j = r.choice(js)
                c = ":" if ts[j].startswith(":") else ""
                ts[j:j + 1] = ([c + w for w in b.split()] if a else [b, ts[j]])
        elif x < .5:
            # a command somewhere else
            k = r.randrange(len(ts))
            ts[j:j] = r.choice([["keep", ";"], ["stop", ";"], ['set', '"a"', '"x"', ";"], ["if", "true", "{", "}"], ["if", "not", "true", "{", "stop", ";", "}"], ["discard", ";"], ["set", '"global.z"', '"${a}${b}"', ";"],
                                ["fileinto", '"Z"', ";"], ["elsif", "true", "{", "keep", ";", "}"], ["else", "{", "}"]])
        elif x < .65:
            del ts[j]
        elif x < .8:
            # braces elsewhere
            js = [k for k, t in enumerate(ts) if t == "}"]
            if js:
                del ts[r.choice(js)]
                ks = [k for k, t in enumerate(ts) if t == ";"]
                if ks:
                    ts.insert(r.choice(ks) + 1, "}")
        else:
            js = [k for k, t in enumerate(ts) if t.startswith('"') and not "require" in [x.lower() for x in ts[max(0, k - 12):k]]]
            if js:
                ts[r.choice(js)] = r.choice(['""', '"x"', '"${a}"', '"10"', '"ab"', '"Subject"', quoted(r, 2)])
    return ts


def programs(seed, n):
    """random programs, written otherwise and changed a little"""
    out = []
    p = fam.prof(**SUB)
    for i in range(n):
        r = random.Random(seed * 90017 + i)
        c = rand.G(seed * 1000003 + i, p).case("x")
        mut = r.random() < .5
        main = tokens(c.h["src"])
        if r.random() < .7:
            main = ["require", "[", '"encoded-character"', "]", ";"] + main
        main = mutated(r, main) if mut else shuffled(r, main)
        incs = [(x["loc"], x["name"], respelled(r, tokens(x["src"]))) for x in c.h.get("inc", [])]
        _, _, m, rt, ctx, kw = c.args
        t = Text("programs-%d-%d" % (seed, i), respelled(r, main), incs, maybe=mut, message=m, rt=rt, ctx=ctx, **kw)
        out.append(t)
    return out


def retold(seed, n):
    """the cases of every other family, their scripts written otherwise"""
    out = []
    fs = [f for pid in sorted(fam.FAMS) for f, _, _ in fam.FAMS[pid]]
    k = -(-n // len(fs))
    for j, f in enumerate(fs):
        for i, c in enumerate(f(seed * 8209 + j, k)):
            r = random.Random((seed * 90023 + j) * 1009 + i)
            noise = r.choice([.05, .25]), r.choice([0, 0, 0, .1])
            mut = r.random() < .4
            main = tokens(c.h["src"])
            main = respelled(r, mutated(r, main) if mut else shuffled(r, main), *noise)
            incs = [(x["loc"], x["name"], respelled(r, shuffled(r, tokens(x["src"])), *noise)) for x in c.h.get("inc", [])]
            _, _, m, rt, ctx, kw = c.args
            out.append(Text("retold-%d-%s-%d" % (seed, f.__name__, i), main, incs, maybe=mut, message=m, rt=rt, ctx=ctx, **kw))
    return out[:n]


# ------------------------------------------------------------------ reading
def fill(cases, wd, timeout=600):
    """let the specification read the scripts of the cases -> (cases it reads, statistics)"""
    todo = [c for c in cases if isinstance(c, Text)]
    if not todo:
        return cases, None
    srcs = sorted({x for c in todo for x in c.texts.values()})
    d = os.path.join(wd, "read")
    progs, why, st = {}, {}, {"texts": len(srcs), "states": 0, "generated": 0}
    for k in range(0, len(srcs), 1500):
        part = srcs[k:k + 1500]
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        with open(os.path.join(d, "texts.ndjson"), "w") as f:
            for x in part:
                f.write(json.dumps({"b": list(x.encode())}) + "\n")
        out = run.tlc("ReadTrace", d, timeout=timeout)
        if "Model checking completed. No error has been found." not in out:
            open(os.path.join(run.ROOT, "work", "read_error.txt"), "w").write(out)
            raise run.ToolError("the specification cannot read the scripts:\n" + "\n".join(re.findall(r"Error: .*(?:\n(?!Error|State |/).*){0,12}", out))[:3000])
        s = run.stats(out)
        st["states"] += s["states"]
        st["generated"] += s["generated"]
        for m in re.finditer(r'^"@OPEN (\d+) (.*)"$', out, re.M):
            why[part[int(m.group(1)) - 1]] = m.group(2)
        for i, x in enumerate(part):
            f = os.path.join(d, "prog%d.json" % (i + 1))
            if os.path.exists(f):
                progs[x] = json.load(open(f))
        shutil.rmtree(d, ignore_errors=True)
    good = []
    for c in cases:
        if isinstance(c, Text):
            if not all(x in progs for x in c.texts.values()):
                continue
            c.s["scripts"] = {k: progs[x] for k, x in c.texts.items()}
        good.append(c)
    st.update(read=len([c for c in good if isinstance(c, Text)]), left_open=len(cases) - len(good))
    if "WHY" in globals():
        globals()["WHY"].update(why)
    if os.environ.get("KEEPOUT"):
        import collections
        print(collections.Counter(why.values()).most_common(40))
    return good, st


FAMS = [(strings, 700, 9000), (numbers, 200, 1500), (programs, 500, 8000), (retold, 270, 5000)]
