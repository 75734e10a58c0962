"""Messages: raw octets together with the parts, header fields and texts they
contain, in the form Msg.tla describes."""
import base64, datetime


def qp(s):
    o = ""
    for b in s.encode():
        if 33 <= b <= 126 and b != 61 or b == 32:
            o += chr(b)
        elif b in (13, 10):
            o += chr(b)
        else:
            o += "=%02X" % b
    return o


class H(dict):
    pass


def text(name, value, fold=None, enc=False):
    """Unstructured field. fold: position of a blank to fold at."""
    raw = value
    if enc:
        raw = "=?utf-8?q?" + "".join(c if c.isalnum() and ord(c) < 128 else "_" if c == " " else
                                     "".join("=%02X" % b for b in c.encode()) for c in value) + "?="
    if fold is not None:
        i = raw.find(" ", fold)
        if i > 0:
            raw = raw[:i] + "\r\n " + raw[i + 1:]
    return {"n": name.lower(), "rn": name, "raw": "%s: %s\r\n" % (name, raw), "old": True, "v": value}


def addr(name, items, group=None, fold=None):
    """items: list of (display name or "", address); group: (name, only the second half of them)"""
    t = []
    for n, a in items:
        if n:
            q = '"%s"' % n if any(c in n for c in ',.@()') else n
            t.append("%s <%s>" % (q, a))
        else:
            t.append(a)
    v = ", ".join(t)
    if group:
        # the last items stand in a group
        k = len(t) // 2 if group[1] else 0
        v = ", ".join(t[:k] + ["%s: %s;" % (group[0], ", ".join(t[k:]))])
    h = text(name, v, fold=fold)
    h["ad"] = [{"nm": n, "a": a} if n or "@" in a else {"nm": a, "a": ""} for n, a in items]
    return h


def ident(name, ids):
    h = text(name, " ".join("<%s>" % i for i in ids))
    h["idv"] = ids[0] if ids else ""
    h["ids"] = list(ids)
    return h


DOW = ["Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"]
MON = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"]


def date_text(d, dow=True):
    """d: {y, mo, d, h, mi, s, z}"""
    w = DOW[datetime.date(d["y"], d["mo"], d["d"]).weekday()] + ", " if dow else ""
    z = abs(d["z"])
    return "%s%d %s %04d %02d:%02d:%02d %s%02d%02d" % (w, d["d"], MON[d["mo"] - 1], d["y"], d["h"], d["mi"], d["s"],
                                                       "-" if d["z"] < 0 else "+", z // 60, z % 60)


def date(name, d, dow=True):
    h = text(name, date_text(d, dow))
    h["dt"] = d
    return h


def ctype(t, s, at=(), name="Content-Type"):
    v = "%s/%s" % (t, s) if s else t
    for n, x in at:
        v += '; %s="%s"' % (n, x) if not x.isalnum() else "; %s=%s" % (n, x)
    h = text(name, v)
    h["ct"] = {"t": t.lower(), "s": s.lower(), "at": [{"n": n.lower(), "v": x} for n, x in at]}
    return h


def leaf(headers, body, k=None, enc=None, charset=None):
    """k: text, html or bin (by content type when None)"""
    ct = next((h["ct"] for h in headers if "ct" in h and h["n"] == "content-type"), None)
    if k is None:
        k = "text" if ct is None or (ct["t"] == "text" and ct["s"] != "html") else "html" if ct["t"] == "text" else "bin"
    hs = list(headers)
    raw = body
    if enc == "base64":
        raw = "\r\n".join(base64.b64encode(body.encode()).decode()[i:i + 60] for i in range(0, 4 * ((len(body.encode()) + 2) // 3), 60)) or ""
        hs.append(text("Content-Transfer-Encoding", "base64"))
    elif enc == "quoted-printable":
        raw = qp(body)
        hs.append(text("Content-Transfer-Encoding", "quoted-printable"))
    xml = bool(ct) and ct["t"] == "application" and "xml" in ct["s"]
    return {"h": hs, "k": k, "txt": body if k in ("text", "html") else "", "raw": raw, "kids": [], "dec": body,
            "htxt": html_text(body) if k == "html" or xml else "", "xml": xml}


def html_text(s):
    """text of the simple HTML the generators write: <p>..</p> paragraphs and <b>..</b>"""
    if "<" not in s:
        return " ".join(s.split())
    s = s.replace("<b>", "").replace("</b>", "")
    return s.replace("<p>", "").replace("</p>", "\n")


def attached(headers, inner):
    """a message/rfc822 part holding the message `inner` (a tree)"""
    return {"h": list(headers) + [ctype("message", "rfc822")], "k": "msg", "inner": inner, "kids": []}


def multi(headers, kids, boundary, sub="mixed", preamble="", epilogue=""):
    return {"h": list(headers) + [ctype("multipart", sub, [("boundary", boundary)])], "k": "multi", "kids": kids,
            "sub": sub, "bd": boundary, "pre": preamble, "epi": epilogue}


def build(root):
    """-> (raw message, spec message)"""
    raw, parts = layout(root)
    return raw, {"parts": parts, "size": len(raw.encode())}


def layout(root):
    parts = []

    def inline(p, sub, first):
        """is the leaf shown inline?  sub: subtype of the multipart it is in, first: it is the first there"""
        ct = next((h["ct"] for h in p["h"] if h["n"] == "content-type"), {"t": "text", "s": "plain", "at": []})
        cd = next((h["ct"] for h in p["h"] if h["n"] == "content-disposition"), {"t": "inline"})
        media = ct["t"] in ("image", "audio", "video")
        if not (media or ct["t"] == "text" and ct["s"] in ("plain", "html")) or cd["t"] == "attachment":
            return False
        return first or sub != "related" and (media or not any(a["n"] == "name" for a in ct["at"]))

    def walk(p, sub="", first=True):
        i = len(parts)
        parts.append(None)
        head = "".join(h["raw"] for h in p["h"]) + "\r\n"
        body = ""
        sp = {"h": p["h"], "k": p["k"], "ch": [], "txt": "", "raw": "", "segs": [], "nw": False, "sep": True, "bd": "",
              "tail": "", "msg": [], "head": head, "dec": "", "htxt": "", "xml": False,
              "inl": p["k"] in ("text", "html", "bin") and inline(p, sub, first)}
        if p["k"] == "multi":
            b = p["bd"]
            segs = [p["pre"] + "--%s\r\n" % b]
            body += segs[0]
            for n, c in enumerate(p["kids"]):
                ci, craw = walk(c, p["sub"], n == 0)
                sp["ch"].append(ci)
                body += craw
                last = n == len(p["kids"]) - 1
                s = "\r\n--%s%s\r\n" % (b, "--" if last else "")
                if last:
                    s += p["epi"]
                segs.append(s)
                body += s
            sp["segs"] = segs
            sp["bd"] = b
        elif p["k"] == "msg":
            body, sp["msg"] = layout(p["inner"])
            sp["raw"] = body
        else:
            for k in ("txt", "raw", "dec", "htxt", "xml"):
                sp[k] = p[k]
            body += p["raw"]
        sp["body"] = body
        parts[i] = sp
        return i, head + body
    _, raw = walk(root)
    return raw, parts


def simple(headers, body="Test message.\r\n"):
    return build(leaf(headers, body))
