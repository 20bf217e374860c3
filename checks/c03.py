"""Explicit-state exploration of header texts: all well-formed nested headers up to length 5 (quick) / 6 over an alphabet with
one line per behaviour (EXPOSURE, commands with shared keys, VIEW, pvalue, FORMAT, nested file names, temporary file names), and
all (also malformed) line sequences up to length 3 / 4 over a larger alphabet (continuation lines, blanks, wide lines, jumps in
indentation). Every header is cleaned repeatedly until a fixed point is reached (at most 4 passes); words per key, duplicates,
views, widths and names are compared with what the input lists. Chains of cleaned image rewrites are run on real files."""
import itertools
import re

import numpy as np

from mc.core import check, scratch
from raytools import io
from raytools.io import CleanHeader, clean_header

RULE = "one case per header text; non-trivial: at least one content line"
NEAR = ["FORMATTED=a 1", "FORMAT2 b", "pvalues=c", "pvalue.sh d", "VIEWS=e", "VIEW2= f", "VIEW g", "..x h", "clasp_tm i"]
C = ["EXPOSURE=2", "x 1", "x 2", "y a b", "VIEW= -vta 1", "VIEW= -vta 2", "pvalue -r"]
TMP = r"\S*clasp_tmp[^\s:]*"


def walk(n, depth=0, maxd=3, content=C):
    """all well-formed texts of n lines: content at any open depth, or a nested file below it"""
    if n == 0:
        yield ()
        return
    for d in range(depth + 1):
        for c in content:
            for r in walk(n - 1, d, maxd, content):
                yield ("\t" * d + c,) + r
        if d < maxd:
            for r in walk(n - 1, d + 1, maxd, content):
                yield ("\t" * d + "a.hdr:",) + r


def isfile(x):
    return re.match(r".+:$", x.strip()) is not None


def key(x):
    x = x.strip()
    return x.split("=")[0] if "=" in x else (x.split() or [""])[0]


def kind(x):
    k = key(x)
    return "file" if isfile(x) else "view" if k == "VIEW" else "own" if k in ("pvalue", "FORMAT") else "text"


def words(x):
    return re.sub(TMP, "<stdin>", x).replace("=", " ").split()


def pairs(lines):
    """{(key, word)} of the content, continuation lines attributed to the key they continue"""
    out, k = set(), None
    for x in lines:
        if kind(x) != "text" or not x.strip():
            continue
        w = words(x)
        if w[0] != "...":
            k = w[0]
        else:
            w = w[1:]
        out |= {(k, t) for t in w}
    return out


def verify(ctx, ls, formed, width=150):
    o = clean_header(list(ls)) if width == 150 else CleanHeader(list(ls), headerwidth=width).header
    check(isinstance(o, list) and all(isinstance(i, str) for i in o), f"not a list of lines {o!r}")
    if width == 150:
        check(CleanHeader("\n".join(ls)).header == o, "text and list of lines differ")
    views = [x.strip()[5:] for x in ls if kind(x) == "view"]
    got = [x for x in o if key(x) == "VIEW"]
    check(got == ([f"VIEW={views[-1]}"] if views else []), f"views {got!r} of {views!r}")
    check(not any(kind(x) == "own" for x in o), "writer's own entries kept")
    check(not any("clasp_tmp" in x for x in o), "temporary name kept")
    check(all(isfile(x) is False or not x.rstrip(":").endswith("/") for x in o), "file name lost")
    a, b = pairs(ls), pairs(o)
    if formed:
        check(a == b, f"words per key: lost {sorted(a - b)}, gained {sorted(b - a)}: {o!r}")
    else:
        w0, w1 = {t for x in ls if kind(x) == "text" for t in words(x)} - {"..."}, {t for x in o if kind(x) == "text" for t in words(x)}
        check(not (w0 - w1), f"lost {sorted(w0 - w1)} in {o!r}")
        check(not (w1 - w0 - {"..."}), f"gained {sorted(w1 - w0)} in {o!r}")
    for x in o:
        check(key(x) == "VIEW" or len(x) <= width, f"line of {len(x)} characters")
    ks = [words(x)[0] for x in ls if x.strip()]
    if formed and not any(i == j for i, j in zip(ks, ks[1:])):
        t = [x.strip() for x in o if not isfile(x)]
        check(len(set(t)) == len(t), f"repeated line in {o!r}")
    # fixed point
    p, k = o, 0
    while True:
        ctx.trans()
        ctx.state(tuple(p))
        q = clean_header(p) if width == 150 else CleanHeader(p, headerwidth=width).header
        if q == p:
            break
        p, k = q, k + 1
        check(k <= 4, f"no fixed point after {k} passes: {o!r} {q!r}")
    a2 = pairs(p)
    check({t for _, t in a2} - {"..."} == {t for _, t in b} - {"..."}, f"words lost by repeated cleaning {p!r}")


def g_formed(ctx, n, k, parts):
    i = 0
    for m in range(1, n + 1):
        for ls in walk(m):
            i += 1
            if i % parts == k:
                ctx.run([ls], verify, ctx, ls, True)


WIDE = "wide " + " ".join(f"w{i}" for i in range(80))
L = ["/p/a.hdr:", "\tb.hdr:", "\t\tc:", "    d.hdr:", "\tEXPOSURE=2", "EXPOSURE=3", "\tx y z", "x y z", "\t\tx y z", "VIEW= -vta 1",
     "\tVIEW= -vta 2", "pvalue -r", "\tFORMAT=f", "", " ", "FORMATTED=a", "pvalues p", "VIEWS= z", "x", "x q", "k= v", "k=v", "k=v=w", "   ...  more",
     "q=" + " ".join(f"v{i}" for i in range(60)), WIDE, "\tcat /tmp/clasp_tmpab12 out", "/tmp/clasp_tmp9z:"]


def g_any(ctx, n, k, parts):
    i = 0
    for m in range(1, n + 1):
        for ls in itertools.product(L, repeat=m):
            i += 1
            if i % parts == k and any(x.strip() for x in ls):
                ctx.run([ls], verify, ctx, ls, False)


def g_near(ctx, n):
    """entries whose key resembles one with a special meaning"""
    for m in range(1, n + 1):
        for ls in itertools.product(NEAR + ["VIEW= -vta 1", "x 1"], repeat=m):
            if len(set(ls)) == m:
                for d in ("", "\t"):
                    ctx.run([ls, d], verify, ctx, (["a.hdr:"] if d else []) + [d + x for x in ls], True)


def g_width(ctx):
    for width in (60, 80, 150, 400):
        for nw in range(1, 90):
            for head in ("cmd ", "KEY="):
                for d in (0, 1, 2):
                    ls = tuple("\t" * i + f"f{i}.hdr:" for i in range(d)) + \
                        ("\t" * d + head + " ".join(f"word{i}" for i in range(nw)),)
                    ctx.run([width, nw, head, d], verify, ctx, ls, True, width)


def g_chain(ctx, n):
    a = np.ones((3, 2))
    with scratch():
        texts = [ls for m in (2, 3) for ls in walk(m, content=C[:2] + C[4:5])][::7][:n] + [
            ["c.hdr:", "\ta.hdr:", "\t\tEXPOSURE=2", "\t\tVIEW= -vta 1", "\t" + WIDE, "/tmp/clasp_tmpab x"]]

        for ls in texts:
            def go():
                io.array2hdr(a, "0.hdr", header=list(ls), clean=True)
                size = []
                for i in range(5):
                    im, _ = io.hdr2array(f"{i}.hdr", header=True)
                    h = io.hdr_header(f"{i}.hdr", clean=True)
                    size.append(h)
                    ctx.trans()
                    io.array2hdr(im, f"{i + 1}.hdr", header=h, clean=True)
                check(len(size[-1]) <= len(size[1]), f"header grows from {size[1]!r} to {size[-1]!r}")
                check(pairs(size[-1]) == pairs(size[0]) == pairs(ls), f"{size[-1]!r} from {ls!r}")
                v = [x.strip() for x in ls if kind(x) == "view"]
                check([x for x in size[-1] if kind(x) == "view"] == v[-1:], "view")
            ctx.run([ls], go)


def nest(ls):
    """[(names of the enclosing files, entry)] by indentation"""
    out, st = [], {}
    for x in ls:
        d = len(x) - len(x.lstrip("\t"))
        up = [st[i] for i in sorted(st) if i < d]
        if isfile(x):
            st = {i: st[i] for i in st if i < d}
            st[d] = x.strip()[:-1].rsplit("/", 1)[-1]
        else:
            out.append((tuple(up), re.sub(r"\s*=\s*", "=", x.strip())))
    return out


NAMES = ("f0.hdr", "..", "a b.pic", ".", "c:d", "-e", "f'g", "=h", "i.hdr")


def g_tree(ctx, n, k, parts):
    """entries stay in order under the file they came from; a repeated one moves to a file around its first place"""
    i = 0
    for m in range(1, n + 1):
        for shape in walk(m, content=["K"]):
            i += 1
            if i % parts != k:
                continue
            c = [j for j, x in enumerate(shape) if x.strip() == "K"]
            if not c:
                continue

            def build(name):
                return ["\t" * (len(x) - len(x.lstrip())) + (f"/p/q{j}/{NAMES[j]}:" if isfile(x) else name(j)) for j, x in enumerate(shape)]
            for name in (lambda j: f"k{j}={j} v", lambda j: f"cmd{j} -x {j}", lambda j: f"word{j}"):
                ls = build(name)

                def go():
                    o = CleanHeader(ls).header
                    want = nest(ls)
                    got = nest(o)
                    check([x for _, x in got] == [x for _, x in want], f"entries {o!r}")
                    for (a, x), (b, _) in zip(got, want):
                        check(a[-1:] == b[-1:], f"{x!r} stands under {a} instead of {b}: {o!r}")
                        check(all(t in b for t in a), f"{x!r} stands under {a}, which are not all of {b}: {o!r}")
                    check(CleanHeader(ls, outtab="  ").header == [x.replace("\t", "  ") for x in o], "another tab for the output")
                    four = ["    " * (len(x) - len(x.lstrip())) + x.lstrip() for x in ls]
                    check(CleanHeader(four).header == o, "indented by spaces")
                    two = ["  " * (len(x) - len(x.lstrip())) + x.lstrip() for x in ls]
                    check(CleanHeader(two, spacespertab=2).header == o, "indented by two spaces")
                ctx.run([ls], go)
            for j, l in itertools.combinations(c, 2):
                if l - j == 1:
                    continue
                ls = build(lambda q: f"k{j if q == l else q}= v")

                def twice():
                    o = CleanHeader(ls).header
                    want, got = nest(ls), nest(o)
                    x = f"k{j}=v"
                    check(sorted(y for _, y in got) == sorted({y for _, y in want}), f"entries {o!r}")
                    rest = [w for w in want if w[1] != x]
                    g = [w for w in got if w[1] != x]
                    check([y for _, y in g] == [y for _, y in rest], f"order of the other entries {o!r}")
                    for (a, y), (b, _) in zip(g, rest):
                        check(a[-1:] == b[-1:], f"{y!r} stands under {a} instead of {b}: {o!r}")
                    first = [w for w, y in want if y == x][0]
                    at = [w for w, y in got if y == x][0]
                    check(all(t in first for t in at) and at[-1:] == first[:-1][-1:], f"{x!r} of {first} stands under {at}: {o!r}")
                ctx.run([ls, "twice"], twice)


def groups(tier):
    q = tier == "quick"
    g = [(f"formed{k}", g_formed, 5 if q else 6, k, 8 if q else 16) for k in range(8 if q else 16)]
    g += [(f"any{k}", g_any, 3 if q else 4, k, 4 if q else 16) for k in range(4 if q else 16)]
    g += [(f"tree{k}", g_tree, 6 if q else 7, k, 4 if q else 8) for k in range(4 if q else 8)]
    return g + [("near", g_near, 3 if q else 4), ("width", g_width), ("chain", g_chain, 20 if q else 200)]
