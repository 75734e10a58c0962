#!/usr/bin/env python3
"""Writes known/*.json: the minimal failing input of every recorded finding."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
from gen import fam, msg  # noqa: E402
from gen.fam import mk, st, iff, note, op, var, lit, T  # noqa: E402

M = msg.simple([msg.addr("From", [("", "al@x.org")]), msg.text("X-A", "high"), msg.text("Subject", "s")])
MP = msg.build(msg.multi([msg.addr("From", [("", "al@x.org")])], [msg.leaf([], "the first part"), msg.leaf([], "the second part")], "bb"))

# a message that holds a message that is nothing but a message, and another message
NEST = msg.build(msg.multi([msg.addr("From", [("", "al@x.org")])], [msg.attached([], msg.attached([], msg.leaf([], "innermost"))), msg.attached([], msg.leaf([], "second"))], "bb"))


def string(mt, src, keys, **m):
    return {"t": "string", "m": dict(m, mt=mt), "src": src, "keys": keys}


def cnt(n):
    return [{"c": "let", "name": n, "e": op("+", var(n), lit(1))}]


Y, N = [note("Y")], [note("N")]
ALL = {
    "nonnum": [iff({"t": "header", "m": {"mt": "value", "rel": "gt", "cmp": "i;ascii-numeric"}, "names": ["X-A"], "keys": ["5"]}, Y, N)],
    "stringkeys": [iff(string("is", ["a"], ["a", "b"]), Y, N)],
    "nocapture": [iff(string("matches", ["xyz"], ["*y*"]), Y), iff(string("matches", ["b"], ["b"]), Y), st("global.t", ["[", ("m", 1), "]"])],
    "nearest": [iff(string("matches", ["abc"], ["a*"]), [iff(string("matches", ["q"], ["z*"]), Y), st("global.t", ["[", ("m", 1), "]"])])],
    "leavevar": [{"c": "let", "name": "i", "e": lit(0)},
                 {"c": "while", "e": op("<", var("i"), lit(2)), "b": cnt("i") + [
                     {"c": "while", "e": lit(1), "b": [iff(T, [st("x", [("v", "x"), "1"]), st("global.t", [("v", "x")]), {"c": "break"}])]}]}],
    "leavecap": [{"c": "let", "name": "i", "e": lit(0)},
                 {"c": "while", "e": op("<", var("i"), lit(2)), "b": cnt("i") + [
                     iff(string("matches", [[("v", "i")]], ["1"]), [iff(string("matches", ["x"], ["*"]), [st("global.a", [("m", 1)]), {"c": "continue"}])]),
                     iff(T, [iff(string("matches", ["x"], ["y*"]), Y), st("global.t", ["[", ("m", 1), "]"])])]}],
    "spamcount": [iff({"t": "spamtest", "m": {"mt": "count", "rel": "eq", "cmp": "i;ascii-numeric"}, "pct": False, "key": "1"}, Y, N)],
    "prologue": [iff({"t": "body", "m": {"mt": "contains"}, "tr": "content", "cts": ["multipart"], "keys": ["first part"]}, Y, N)],
    "nested": [{"c": "addheader", "n": "X-N", "v": "1"}, {"c": "keep"}],
    "existsbadname": [st("global.zz", "no name"), iff({"t": "exists", "names": ["Subject", [("g", "zz")]]}, Y, N)],
}


def main():
    d = os.path.join(ROOT, "known")
    os.makedirs(d, exist_ok=True)
    for k, b in ALL.items():
        c = mk("known-" + k, b, message=MP if k == "prologue" else NEST if k == "nested" else M, ctx={"spam": 3})
        with open(os.path.join(d, k + ".json"), "w") as f:
            json.dump({"h": c.h, "s": c.s}, f, ensure_ascii=False, indent=1)


main()
