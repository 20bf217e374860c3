"""conversion-graph exploration: nodes are coordinate systems, edges library
calls; from a lattice given in one node every path up to a length is walked and
in each node reached the values must equal the reference values of that node"""
import numpy as np

from mc.core import close


def explore(ctx, tag, nodes, edges, start, maxlen, tol=1e-9, npts=None):
    """nodes: {name: reference array}; edges: [(src, dst, label, fn)].
    Walks every path of 1..maxlen edges from start, comparing after each edge
    (a path is checked once per extension: prefix values are reused)."""
    npts = npts or len(nodes[start])

    def step(node, val, path):
        if len(path) == maxlen:
            return
        for src, dst, label, fn in edges:
            if src != node:
                continue
            p = path + [label]

            def go():
                out = fn(np.array(val))
                t = tol[dst] if isinstance(tol, dict) else tol
                close(out, nodes[dst], atol=t, rtol=t,
                      msg=f"{'->'.join(p)} does not reach the reference {dst}")
                return out
            out = ctx.run([tag, p], go)
            ctx.trans(npts)
            ctx.trace(npts)
            if out is not None:
                step(dst, np.array(out, dtype=float), p)

    for n in nodes:
        for r in np.round(np.asarray(nodes[n], float).reshape(npts, -1), 9):
            ctx.state((tag, n, r.tobytes()))
    step(start, nodes[start], [])
