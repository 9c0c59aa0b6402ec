"""Numbers and texts in the code of /repo; which of them are new against the tree the checks were written for.

The bounded replay draws inputs from them: a change that treats some inputs differently usually names them.
"""
import collections, json, os, re, sys

TOKEN = re.compile(r"""
    //[^\n]*|/\*.*?\*/
  | (?P<raw>b?r(\#*)"(?P<rawtext>.*?)"\2)
  | b?"(?P<text>(?:\\.|[^"\\])*)"
  | b?'(?P<chr>\\u\{[0-9a-fA-F]+\}|\\.|[^'\\])'
  | (?P<max>\b[ui](?:8|16|32|64|128|size)::(?:MAX|MIN)\b)
  | \bas\s+(?P<cast>[ui](?:8|16|32|64|128|size)|f32|f64)\b
  | (?P<shift>\b1(?:_?[ui]\d+)?\s*<<\s*(?P<by>\d+))
  | \b(?P<num>0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|\d[\d_]*(?:\.\d[\d_]*)?(?:[eE][+-]?\d+)?)(?:_?[uif](?:8|16|32|64|128|size))?\b
  | [A-Za-z_]\w*
""", re.X | re.S)
BITS = {"8": 8, "16": 16, "32": 32, "64": 64, "128": 128, "size": 64}


def sources(repo):
    for d in ("core/src", "cli/src", "web/src"):
        for p, ds, fs in os.walk(os.path.join(repo, d)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(".rs"):
                    yield os.path.join(p, f)


def literals(repo):
    c = collections.Counter()
    for f in sources(repo):
        for m in TOKEN.finditer(open(f, encoding="utf8", errors="replace").read()):
            if m.group("rawtext") is not None:
                c["s:" + m.group("rawtext")] += 1
            elif m.group("text") is not None:
                c["s:" + re.sub(r"\\(.)", lambda q: {"n": "\n", "t": "\t"}.get(q.group(1), q.group(1)), m.group("text"))] += 1
            elif m.group("chr") is not None:
                c["s:" + m.group("chr")] += 1
            elif m.group("max"):
                t = m.group("max")
                b = BITS[re.search(r"[ui](\d+|size)", t).group(1)] - (t[0] == "i")
                c[f"n:{min(2 ** b, 2 ** 128 - 1)}"] += 1
            elif m.group("cast"):
                t = m.group("cast")
                b = {"f32": 24, "f64": 53}.get(t) or BITS[t[1:]] - (t[0] == "i")
                c[f"n:{min(2 ** b, 2 ** 128 - 1)}"] += 1
            elif m.group("shift"):
                c[f"n:{2 ** min(int(m.group('by')), 127)}"] += 1
            elif m.group("num"):
                t = m.group("num").replace("_", "")
                try:
                    v = int(t, 0) if re.fullmatch(r"0[xbo].*|\d+", t) and not re.fullmatch(r"0\d+", t) else int(float(t))
                    if v < 2 ** 128:
                        c[f"n:{v}"] += 1
                    if "." in t or "e" in t:
                        c[f"n:{min(int(float(t) * 1000), 2 ** 128 - 1)}"] += 1
                except (ValueError, OverflowError):
                    pass
    return c


def dictionary(repo, baseline):
    now = literals(repo)
    old = collections.Counter(json.load(open(baseline)))
    new = now - old
    pick = lambda c, k: sorted(x[2:] for x in c if x.startswith(k))
    short = lambda v: [s for s in v if 0 < len(s) < 60]
    words = lambda v: sorted({w for s in short(v) for w in re.findall(r"[A-Za-z_]\w*", s) if w != s})
    return {"nums": pick(now, "n:"), "strs": short(pick(now, "s:")), "new_nums": pick(new, "n:"),
            "new_strs": short(pick(new, "s:")) + words(pick(new, "s:"))}


if __name__ == "__main__":
    json.dump(dict(sorted(literals(sys.argv[1]).items())), open(sys.argv[2], "w"), indent=0, ensure_ascii=True)
