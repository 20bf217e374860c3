"""All header lists up to length 2 (quick) / 3 over an alphabet with one line per special character (quotes, backslash, shell
metacharacters, '=', tabs, leading dash, long, non-ASCII) are written by the grey and colour writers (to files and over
existing ones), read back and compared verbatim and in order; chains of read-and-rewrite histories keep all earlier lines; item
requests over present, absent, repeated and differently cased names are compared with a reference lookup."""
import itertools

import numpy as np

from mc.core import check, same, scratch
from raytools import io

RULE = "one case per (header list, writer) or (header, item request); non-trivial: at least one line or item"
LINES = ["KEY= value", "it's", 'say "hi"', "back\\slash", "a 'b' \"c\" \\d", "$HOME `ls` $(ls)", "a;b|c&d>e<f",
         "\tTAB= 1", "two  spaces", "*?[a]{b}", "#comment", "-d", "--", "%s%n", "x=y=z", "tail ", "é=ü", "L" * 600,
         "SOFTWARE= RADIANCE 5.4a", "rpict /RADIANCE/x.oct", "!bang", "(paren)", "~", "\\", "'", '"', "''", "a,b", "pfilt -1 -e 2"]


def body(h, f):
    """lines recorded below the file entry, without the first indent"""
    check(h[0].strip() == f + ":", f"first line {h[0]!r}")
    out = []
    for i in h[1:]:
        check(i.startswith("\t"), f"line {i!r} not below the file")
        out.append(i[1:])
    return out


def verify(lines, ch):
    a = np.arange(6.).reshape(2, 3) + 1
    v = a if ch == 1 else np.stack((a, a * 2, a * .5))
    w = io.array2hdr if ch == 1 else io.carray2hdr
    w(v, "plain.hdr")
    w(v, "h.hdr", header=list(lines))
    b = body(io.hdr_header("h.hdr"), "h.hdr")
    p = body(io.hdr_header("plain.hdr"), "plain.hdr")
    # what the writer itself records surrounds the lines
    k = [i for i, x in enumerate(b) if x in p]
    got = [x for i, x in enumerate(b) if not (x in p)]
    check(got == list(lines), f"stored {got!r} instead of {list(lines)!r}")
    check(len(k) == len(p), "entries of the writer")
    same(io.hdr2carray("h.hdr"), io.hdr2carray("plain.hdr"), "pixels changed by the header")
    im, h = io.hdr2carray("h.hdr", header=True)
    check(h == io.hdr_header("h.hdr"), "header with the pixels")


def g_lists(ctx, n, k, parts):
    with scratch():
        i = 0
        for ln in range(1, n + 1):
            alpha = LINES if ln < 3 else LINES[:12]
            for ls in itertools.product(alpha, repeat=ln):
                i += 1
                if i % parts != k or len(set(ls)) < len(ls):
                    continue
                for ch in (1, 3) if ln == 1 else (1 + 2 * (i // parts % 2),):
                    ctx.run([ls, ch], verify, ls, ch)


def g_history(ctx, n):
    """read with header, append one line, write again: nothing gets lost"""
    with scratch():
        for ls in itertools.permutations(LINES[:9], n):
            def go():
                a = np.ones((2, 2))
                io.array2hdr(a, "0.hdr", header=[ls[0]])
                for i, l in enumerate(ls[1:]):
                    img, h = io.hdr2carray(f"{i}.hdr", header=True)
                    io.carray2hdr(img, f"{i + 1}.hdr", header=h + [l])
                h = io.hdr_header(f"{n - 1}.hdr")
                pos = -1
                for l in ls:
                    at = [i for i, x in enumerate(h) if x.lstrip("\t") == l.lstrip("\t")]
                    check(len(at) == 1, f"{l!r} found {len(at)} times")
                    check(at[0] > pos, "order changed")
                    pos = at[0]
            ctx.run([ls], go)


ENT = [("EXPOSURE", "2.5"), ("LuminanceRGB", "0.2 0.7 0.1"), ("Software", "a = b"), ("primaries", "1 2 3 4")]
LONG = [("note", n, " ".join(f"w{i:04d}" for i in range(n))) for n in (20, 24, 26, 40, 300, 700, 1500)] + \
    [("view_note", 1, "x" * n) for n in (130, 150, 151, 4090, 5000)] + [("formatted", 2, "a b"), ("pvalues", 2, "c d")]
ASK = ["EXPOSURE", "exposure", "LUMINANCERGB", "luminancergb", "software", "Software", "absent", "primaries", "view"]


def g_items(ctx, n):
    with scratch():
        a = np.ones((2, 2))
        for k in range(0, len(ENT) + 1):
            for ents in itertools.permutations(ENT, k):
                for sep in ("=", "= "):
                    h = [f"{x}{sep}{y}" for x, y in ents]
                    io.array2hdr(a, "i.hdr", header=h + ["VIEW= -vta -vh 180 -vv 180"])
                    ref = {x.lower(): y for x, y in ents}
                    for m in range(1, n + 1):
                        for ask in itertools.product(ASK, repeat=m):
                            if "view" in ask:
                                continue
                            if m > 1 and (k not in (2, 4) or ents != tuple(sorted(ents))):
                                continue

                            def go():
                                e = [ref.get(q.lower(), "") for q in ask]
                                got = io.hdr_header("i.hdr", items=list(ask))
                                check(list(got) == e, f"items {got!r} instead of {e!r}")
                            ctx.run([h, ask], go)

        for name, k, val in LONG:
            for extra in ((), ("A= 1",), ("A= 1", "note2= b")):
                for sep in ("=", "= "):
                    def go():
                        io.array2hdr(a, "l.hdr", header=[*extra, name + sep + val])
                        got = io.hdr_header("l.hdr", items=["a", name, "absent", name.upper()])
                        check(got == ["1" if extra else "", val, "", val], f"items {got!r} for a value of {len(val)} characters")
                    ctx.run([name, len(val), extra, sep], go)

        # names holding blanks, dashes or several words; also as part of one another
        names = ["a key", "a", "key", "two words more", "A-b", "k\u00e9y", "view", "-vta", "rpict"]
        for pair in itertools.permutations(names[:6], 2):
            for sep in ("=", "= ", " = "):
                def blanks():
                    io.array2hdr(a, "b.hdr", header=[f"{x}{sep}v {i}=1" for i, x in enumerate(pair)])
                    ref = {x.lower(): f"v {i}=1" for i, x in enumerate(pair)}
                    if sep == " = ":
                        # the blank before the sign may count as part of the name
                        q = [p for p in pair] + [p + " " for p in pair]
                        g = io.hdr_header("b.hdr", items=q)
                        check(len(g) == 4, "number of items")
                        for i, p in enumerate(pair):
                            check(ref[p.lower()] in (g[i].strip(), g[i + 2].strip()), f"items {g!r} of {q!r}")
                        return
                    q = [*pair, *[p.upper() for p in pair], *names[:6]]
                    got = io.hdr_header("b.hdr", items=q)
                    check(list(got) == [ref.get(p.lower(), "") for p in q], f"items {got!r} of {q!r}")
                ctx.run(["blanks", pair, sep], blanks)

        # entries of one word have no value and do not disturb the others
        for k in range(1, 4):
            for ents in itertools.permutations(["flag", "key= 1 2", "word two", "-x"], k):
                def single():
                    io.array2hdr(a, "w.hdr", header=list(ents))
                    got = io.hdr_header("w.hdr", items=["flag", "key", "-x", "none", "FLAG"])
                    check(list(got) == ["", "1 2" if "key= 1 2" in ents else "", "", "", ""], f"items {got!r} of {ents!r}")
                ctx.run(["words", ents], single)

        # names beginning or ending in any printable character
        odd = [c for c in map(chr, range(33, 127)) if not c.isalnum() and c != "="]
        for c in odd:
            for nm in (c + "k", "k" + c, c + "k" + c, c + c, "k" + c + "l"):
                if nm.endswith(":"):
                    nm += "x"

                def special():
                    h = ["a= 1", nm + "= v w", "b= 2", "k= 3"]
                    io.array2hdr(a, "o.hdr", header=h)
                    got = io.hdr_header("o.hdr", items=["b", nm, "a", "k", "kl"])
                    check(list(got) == ["2", "v w", "1", "3", ""], f"items {got!r} of {h!r}")
                    check(io.header_items(h, [nm, "k"]) == ["v w", "3"], "header_items")
                ctx.run(["special", nm], special)

        def raw():
            h = ["\t" + f"{x}= {y}" for x, y in ENT] + ["f.hdr:", "\tcmd -x"]
            for r in itertools.permutations(range(len(ENT)), 2):
                q = [ENT[i][0].upper() for i in r]
                check(io.header_items(h, q) == [ENT[i][1] for i in r], "header_items of a list")
        ctx.run(["header_items"], raw)


def groups(tier):
    n = 2 if tier == "quick" else 3
    g = [(f"lists{k}", g_lists, n, k, 8) for k in range(8)]
    return g + [("history", g_history, 3 if n == 2 else 4), ("items", g_items, 2 if n == 2 else 3)]
