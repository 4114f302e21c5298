"""Tokens.tla <-> code: trees of tokens, made into output tokens by the real factory, dumped, written as
JSON, and read back by the factory."""
import copy
import json
import os
import random
import shutil
import tempfile
from lx import rng_for, dump
from latex2json.structure.token_factory import TokenFactory
from latex2json.structure.tokens.base import TextToken
from latex2json.structure.tokens.types import TokenType
from latex2json.tex_reader import TexReader, ProcessingResult

TAILS = ["", "", "", " and more", "\nline", " \"q\"", " \\cmd{x}", " é", " 字", " \u2028", " \U0001F600", "\t", " </a>", " {}", " null", " 'it'", "\\", " \u00a0x", "$x$"]
STYLES = ["bold", "italic", "color=red", "color={HTML:FF0000}", "sub\"q"]
NUMBERS = ["1", "2.3", "A.1", "I", "S1-é"]


class Build:
    def __init__(self, key, given):
        self.key, self.given = key, given        # given: as the parser hands it over; otherwise as it is dumped

    def r(self, v):
        return random.Random("%s/%d" % (self.key, v))

    def word(self, v):
        return "w%dz" % v + self.r(-v).choice(TAILS)

    def common(self, d, r):
        if r.random() < .3:
            d["styles"] = r.sample(STYLES, r.randint(1, 3))
        if r.random() < .3:
            d["labels"] = ["l%d" % r.randint(1, 99) for _ in range(r.randint(1, 3))]

    def kind(self, t, r):
        enum = r.random() < .3
        return TokenType(t) if self.given and enum and t in TokenType._value2member_map_ else t

    def leaf(self, ev):
        r, t = self.r(ev["v"]), ev["t"]
        w = self.word(ev["v"])
        if t in ("plain", "mark"):
            return {"type": "text" if t == "plain" else t, "content": w}
        d = {"type": self.kind(t, r), "content": w}
        self.common(d, r)
        if t == "diagram":
            d["name"] = r.choice(["tikzpicture", "picture"])
        elif t == "code":
            if r.random() < .5:
                d["title"] = r.choice(["Listing", "", "a.py"])
            if r.random() < .5:
                d["display"] = r.choice(["inline", "block"])
        elif t == "includegraphics" and r.random() < .5:
            d["page"] = r.choice([0, 1, 12])
        elif t == "includepdf" and r.random() < .5:
            d["pages"] = r.choice(["1-3", "", "-"])
        elif t == "command":
            d["command"] = r.choice(["\\foo", "\\bar@x"])
            if r.random() < .5:
                del d["content"]
        return d

    def fields(self, d, t, v, r):
        def maybe(k, vals, p=.5):
            x = r.random() < p
            y = r.choice(vals)
            if x:
                d[k] = y
        if t in ("section", "paragraph"):
            d["level"] = r.choice([0, 1, 2, 5])
        if t in ("environment", "list", "algorithm"):
            maybe("name", ["abc", "x*", ""])
        if t == "math_env":
            d["name"] = r.choice(["Theorem", "lemma"])
        if t in ("section", "paragraph", "math_env", "figure", "table", "algorithm", "equation"):
            maybe("numbering", NUMBERS)
        if t == "list":
            x, y = r.random() < .5, r.choice([1, 2, 7])
            if x or not self.given:
                d["depth"] = y if x else 1
        if t == "caption":
            maybe("title", ["Figure", "", "Table"])
        if t in ("citation", "ref"):
            d["content"] = [self.word(v * 100 + i) for i in range(r.randint(0, 3))]
        if t == "url":
            d["content"] = self.word(v)
        if t == "equation":
            d["content"] = self.word(v)
            maybe("display", ["inline", "block"])
            maybe("align", [True, False])
        if t == "bibitem":
            d["cite_key"] = r.choice(["a:1", "Knuth-84", "é"])
            x, y = r.random() < .5, r.choice(["bibtex", "bibitem"])
            if x or not self.given:
                d["format"] = y if x else "bibitem"
            maybe("label", ["[1]", "", "Smith (1990)"])
            maybe("fields", [{"year": "1999"}, {}, {"note": "", "year": "1"}, {"author": "A \"B\" C", "title": "é"}])
        if t in ("date", "unknown"):
            d["weight"] = 3

    def build(self, evs):
        """the tokens that the events are"""
        top, stack = [], []

        def put(x):
            (stack[-1]["kids"] if stack else top).append(x)
        for ev in evs:
            e = ev["e"]
            if e == "open":
                stack.append(dict(t=ev["t"], v=ev["v"], d={}, slot=None, kids=None))
            elif e == "slot":
                f = stack[-1]
                f["slot"], f["kids"] = ev["s"], []
                f["d"][ev["s"]] = f["kids"]
            elif e == "leaf":
                put(self.leaf(ev))
            elif e == "str":
                f = stack[-1]
                f["d"][f["slot"]] = self.word(ev["v"]) if ev["v"] else ""
            elif e == "row":
                put("row")
            elif e == "cstr":
                put(self.word(ev["v"]) if self.r(ev["v"]).random() < .8 else "")
            elif e == "cnone":
                put(None)
            elif e == "close":
                f = stack.pop()
                put(self.close(f))
        return top

    def close(self, f):
        t, d, r = f["t"], f["d"], self.r(f["v"])
        if t in ("cell", "part"):
            return d["content"]
        if t == "span":
            rows, cols, drop = r.randint(1, 4), r.randint(1, 4), r.choice(["rowspan", "colspan", "", ""])
            out = {"content": d["content"], "rowspan": rows, "colspan": cols}
            if drop and self.given:
                del out[drop]
            elif drop:
                out[drop] = 1
            return out
        out = {"type": "nothing-known" if t == "unknown" else self.kind(t, r)}
        self.common(out, r)
        self.fields(out, t, f["v"], r)
        if "ph" in d:
            out["placeholders"] = {"___PH%d___" % f["v"]: d.pop("ph")}
        if "proof" in d:
            p = d.pop("proof")
            if p:
                out["proof"] = p[0]
        if t == "tabular":
            rows = []
            for x in d["content"]:
                if x == "row":
                    rows.append([])
                else:
                    rows[-1].append(x)
            d["content"] = rows
        out.update(d)
        return out


def factory():
    f = TokenFactory()
    f.register_custom_type("mark", lambda data: TextToken(content=data["content"]))
    return f


def differ(a, b, path=""):
    if type(a) is not type(b):
        return "%s is %r, expected %r" % (path, a, b)
    if isinstance(a, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b:
                return "%s.%s is %s" % (path, k, "missing (%r)" % (b[k],) if k in b else "too much (%r)" % (a[k],))
            x = differ(a[k], b[k], path + "." + k)
            if x:
                return x
    elif isinstance(a, list):
        for i, (x, y) in enumerate(zip(a, b)):
            z = differ(x, y, "%s[%d]" % (path, i))
            if z:
                return z
        if len(a) != len(b):
            return "%s has %d, expected %d" % (path, len(a), len(b))
    elif a != b:
        return "%s is %r, expected %r" % (path, a, b)
    return None


def check_tokens(case):
    r = rng_for(case)
    key = str(r.random())
    given = Build(key, True).build(case["doc"])
    want = Build(key, False).build(case["out"])
    kept = copy.deepcopy(given)
    bad = []

    def same(what, got, exp=None):
        x = differ(got, want if exp is None else exp)
        if x:
            bad.append("%s: %s\ngiven %s" % (what, x, json.dumps(kept, default=str)[:1500]))
    f = factory()
    tokens = [t for t in (f.create(x) for x in given) if t is not None]
    same("the tokens", [dump(t) for t in tokens])
    if given != kept:
        bad.append("what is handed to the factory is changed: %s" % json.dumps(kept, default=str)[:800])
    colours = r.choice([None, {}, {"tint": {"format": "gray", "value": "0.5"}, "é": {"format": "HTML", "value": "FF\"00"}}])
    reader, res = TexReader(), ProcessingResult(tokens=tokens, color_map=colours)
    text = reader.to_json(res)
    data = json.loads(text)
    same("the JSON", data["tokens"])
    if data["color_map"] != colours or set(data) != {"tokens", "color_map"}:
        bad.append("the JSON has %r and the colours %r, expected %r" % (sorted(data), data.get("color_map"), colours))
    back = [f.create(x) for x in data["tokens"]]
    same("read back", [dump(t) for t in back])
    same("what has been read", [dump(t) for t in tokens])          # nothing that follows changes it
    if r.random() < .1:
        d = tempfile.mkdtemp(prefix="l2jtok_")
        try:
            p = os.path.join(d, "a", "é", "out.json")
            reader.save_to_json(res, p)
            with open(p, encoding="utf-8") as fh:
                same("the file", json.load(fh)["tokens"])
        finally:
            shutil.rmtree(d, ignore_errors=True)
    if TokenFactory().create({"type": "mark", "content": "x"}) is not None:
        bad.append("a type registered with one factory is known to another")
    return bad
