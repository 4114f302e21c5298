"""Access to the implementation under test (public entry points only) and tree helpers."""
import os, random, re, json, hashlib, sys
from core import quiet_repo
quiet_repo()
from latex2json.parser.tex_parser import LatexParser
from latex2json.structure.builder import TokenBuilder


def rng_for(case):
    h = hashlib.sha256(json.dumps(case, sort_keys=True).encode()).digest()
    return random.Random(int.from_bytes(h[:8], "big"))


_P = {}


def parse_build(text, preprocess=True, fresh=False, merge=False):
    """LaTeX text -> list of JSON-able token dicts, as the reader would produce them.
    By default a worker re-uses one parser and clears it (as the reader does)."""
    if fresh or "p" not in _P:
        p, b = LatexParser(), TokenBuilder()
        if not fresh:
            _P["p"], _P["b"] = p, b
    else:
        p, b = _P["p"], _P["b"]
    p.clear()
    b.clear()
    b.merge_proof_environments = merge
    try:
        toks = p.parse(text, preprocess=preprocess)
        out = b.build(toks)
        return [dump(t) for t in out]
    except BaseException:
        _P.clear()
        raise


def merge_proofs(x):
    """What the output is when proofs are merged: each is kept with the theorem directly before it"""
    if isinstance(x, dict):
        return {k: merge_proofs(v) for k, v in x.items()}
    if not isinstance(x, list):
        return x
    out = []

    def env(t):
        return isinstance(t, dict) and t.get("type") == "math_env"
    for t in x:
        t = merge_proofs(t)
        if out and env(t) and t["name"].lower() == "proof" and env(out[-1]) and out[-1]["name"].lower() != "proof" and "proof" not in out[-1]:
            out[-1]["proof"] = t
        else:
            out.append(t)
    return out


def dump(t):
    return t if isinstance(t, str) else t.model_dump(mode="json", exclude_none=True)


def walk(tok, fn, parent=None):
    """Pre-order walk over title and content of token dicts."""
    if isinstance(tok, list):
        for t in tok:
            walk(t, fn, parent)
        return
    if isinstance(tok, dict):
        fn(tok, parent)
        for key in ("title", "content"):
            if isinstance(tok.get(key), (list, dict)):
                walk(tok[key], fn, tok)


def flat_text(tok, math=True):
    """All visible characters below a token, in order."""
    if isinstance(tok, str):
        return tok
    if isinstance(tok, list):
        return "".join(flat_text(t, math) for t in tok)
    if isinstance(tok, dict):
        return flat_text(tok.get("title", ""), math) + flat_text(tok.get("content", ""), math)
    return ""


def squeeze(s):
    return re.sub(r"\s+", " ", s).strip()


def nospace(s):
    return re.sub(r"\s+", "", s)
