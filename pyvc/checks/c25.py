"""C25: intersections of vertices and edges are shapes at exactly the common points."""
import contextlib

import numpy as np

from ..harness import Unit, Bounded
from .c09 import Stub, dist_seg, same_vec
from .c12 import arr
from .common import *

PID = "C25"
IMPORTS = ["topology.operations.vertex_operations", "topology.operations.edge_operations", "topology.operations.domain_operations", "topology.vertex", "topology.edge", "topology.domain"]
V = "topology.operations.vertex_operations."
X = "topology.operations.edge_operations."
O = "topology.operations.domain_operations."
TOL = 1e-6
NEW = 900


def near(E, u, v, tol=TOL):
    u = np.asarray(u, dtype=object)
    if u.shape != (3,):
        return False
    return E.conj([E.and_(u[k] - v[k] <= tol, v[k] - u[k] <= tol) for k in range(3)])


def apart(E, u, v, gap=0.05):
    """two points that are different: in some coordinate they are at least `gap` apart"""
    return E.disj([c for k in range(3) for c in (u[k] - v[k] >= gap, v[k] - u[k] >= gap)])


def exact(E, u, v):
    return E.conj([E.eq(u[k], v[k]) for k in range(3)])


def vertex(tag, p):
    from topology.vertex import Vertex

    return Vertex(tag, p)


def edge(tag, u, v):
    from topology.edge import Edge

    return Edge(tag, arr([u, v]))


def state(shapes):
    return [(s, s.tag, s.physical_tag, getattr(s, "point", None), None if getattr(s, "point", None) is None else list(s.point), list(s.boundary_shapes)) for s in shapes]


def same_value(x, y):
    return x is y or (isinstance(x, Sym) and isinstance(y, Sym) and x.n is y.n) or (not isinstance(x, Sym) and not isinstance(y, Sym) and x == y)


def unchanged(E, before, text="the given shapes are not modified"):
    ok = True
    for s, t, ph, p, vals, bs in before:
        ok = ok and s.tag == t and s.physical_tag == ph and len(s.boundary_shapes) == len(bs) and all(x is y for x, y in zip(s.boundary_shapes, bs))
        if p is not None:
            ok = ok and len(s.point) == len(vals) and all(same_value(x, y) for x, y in zip(s.point, vals))
    E.prove(text, bool(ok))


def point(E, name):
    return E.vec(name, 3, lo=-1000, hi=1000, gen=lambda r: r.choice([r.uniform(-3, 3), float(r.randint(-3, 3))]))


def other_point(E, name, p):
    """a point equal to p, very near to it, or anywhere"""
    if E.symbolic:
        return point(E, name)
    kind = E.rng.choice(["same", "near", "one", "any"])
    q = p.copy()
    if kind == "near":
        q = q + E.nrng.uniform(-1, 1, 3) * 10 ** E.rng.uniform(-5.5, 0)
    if kind == "one":
        q[E.rng.randint(0, 2)] += E.rng.choice([-1, 1]) * 10 ** E.rng.uniform(-5, 1)
    if kind == "any":
        return point(E, name)
    return np.array([E.real("%s%d" % (name, k), gen=lambda r, k=k: float(q[k])) for k in range(3)])


def tags(E):
    return E.choice("tags", [(0, 0), (0, 1), (7, 7), (1, 0), (-3, 5), (2**31, 2**31)])


# ---------------------------------------------------------------- predicates on vertices and edges
def unit_same_vertex(E):
    import topology.operations.vertex_operations as m

    p = point(E, "p")
    q = other_point(E, "q", p)
    t = tags(E)
    u, v = vertex(t[0], p), vertex(t[1], q)
    E.cover()
    before = state([u, v])
    same = bool(m.vertex_with_same_geometry_q(u, v))
    eq = exact(E, p, q) if E.symbolic else bool(np.array_equal(p, q))
    close = near(E, p, q)
    E.prove("equal points have the same geometry", E.implies(eq, same))
    E.prove("points apart do not", E.implies(same, close))
    strong = bool(m.vertex_strong_equality_q(u, v))
    E.prove("strongly equal only with the same tag and place", E.implies(strong, E.and_(t[0] == t[1], close)))
    E.prove("same tag and same place: strongly equal", E.implies(E.and_(t[0] == t[1], eq), strong))
    unchanged(E, before)


def unit_same_vertex_eps(E):
    """a given tolerance is the tolerance that decides"""
    import topology.operations.vertex_operations as m

    p = E.vec("p", 3, lo=-1, hi=1)
    eps = E.choice("eps", [0.11, 0.01])
    d = E.vec("d", 3, lo=-1, hi=1) if E.symbolic else E.vec("d", 3, lo=-eps * 2.5, hi=eps * 2.5)
    q = p + d
    E.cover()
    same = bool(m.vertex_with_same_geometry_q(vertex(0, p), vertex(1, q), eps))
    inside = E.conj([E.and_(d[k] <= eps, d[k] >= -eps) for k in range(3)])
    limit = E.conj([E.and_(d[k] <= 3 * eps, d[k] >= -3 * eps) for k in range(3)])
    E.prove("points within the tolerance have the same geometry", E.implies(inside, same))
    E.prove("points beyond twice the tolerance do not", E.implies(same, limit))


def unit_same_edge(E):
    import topology.operations.edge_operations as m

    p0, p1 = point(E, "p"), point(E, "q")
    r0 = other_point(E, "r", p0)
    r1 = other_point(E, "s", p1)
    te = E.choice("edge tags", [(3, 3), (3, 4)])
    ta = E.choice("vertex tags", [((0, 1), (0, 1)), ((0, 1), (5, 9)), ((1, 0), (9, 5)), ((0, 1), (9, 5))])
    e = edge(te[0], vertex(ta[0][0], p0), vertex(ta[0][1], p1))
    f = edge(te[1], vertex(ta[1][0], r0), vertex(ta[1][1], r1))
    E.cover()
    before = state([e, f] + list(e.boundary_shapes) + list(f.boundary_shapes))
    ee = (p0, p1) if ta[0][0] < ta[0][1] else (p1, p0)
    ff = (r0, r1) if ta[1][0] < ta[1][1] else (r1, r0)
    same = bool(m.edge_with_same_geometry_q(e, f))
    eq = E.conj([exact(E, u, v) if E.symbolic else bool(np.array_equal(u, v)) for u, v in zip(ee, ff)])
    close = E.conj([near(E, u, v) for u, v in zip(ee, ff)])
    E.prove("equal ends (in the order of their tags): same geometry", E.implies(eq, same))
    E.prove("an end apart: another geometry", E.implies(same, close))
    strong = bool(m.edge_strong_equality_q(e, f))
    alike = te[0] == te[1] and sorted(ta[0]) == sorted(ta[1])
    E.prove("strongly equal only with the same tags and places", E.implies(strong, E.and_(alike, close)))
    E.prove("same tags and same places: strongly equal", E.implies(E.and_(alike, eq), strong))
    unchanged(E, before)


def unit_collapse(E):
    """a coinciding object becomes equal to the tool; otherwise nothing happens"""
    import topology.operations.edge_operations as me
    import topology.operations.vertex_operations as mv

    p = point(E, "p")
    q = other_point(E, "q", p)
    t = tags(E)
    u, v = vertex(t[0], p), vertex(t[1], q)
    u.physical_tag = 4
    r = None
    eq = exact(E, p, q) if E.symbolic else bool(np.array_equal(p, q))
    close = near(E, p, q)
    if E.choice("dimension", [0, 1]) == 0:
        E.cover()
        before = state([u])
        was = state([v])
        r = mv.collapse_vertex(u, v)
        tool, obj = u, v
    else:
        w = point(E, "w")
        te = E.choice("edge tags", [(3, 3), (3, 4)])
        e = edge(te[0], u, vertex(2**33, w))
        f = edge(te[1], v, vertex(2**33, w))
        e.physical_tag = 6
        E.cover()
        before = state([e, u])
        was = state([f, v])
        r = me.collapse_edge(e, f)
        tool, obj = e, f
    if r is None:
        E.prove("refused only when they do not coincide", E.not_(eq))
        unchanged(E, was, "a refused object is not modified")
    else:
        E.prove("collapsed only when they coincide", close)
        E.prove("the object is returned", r is obj)
        E.prove("the object has the tag of the tool", obj.tag == tool.tag)
        if obj is v:
            E.prove("the object is at the place of the tool", near(E, obj.point, p))
        else:
            E.prove("the object has the ends of the tool", [x.tag for x in obj.boundary_shapes] == [x.tag for x in tool.boundary_shapes])
        E.prove("the object equals the tool", bool(obj == tool))
        if t[0] != t[1] if obj is v else te[0] != te[1]:
            E.prove("the object takes over the physical tag of the tool", obj.physical_tag == tool.physical_tag)
    unchanged(E, before, "the tool is not modified")


# ---------------------------------------------------------------- a vertex with a vertex or an edge
def unit_vertex_vertex(E):
    import topology.operations.vertex_operations as m

    p = point(E, "p")
    q = other_point(E, "q", p)
    t = tags(E)
    tool, obj = vertex(t[0], p), vertex(t[1], q)
    tag = E.choice("tag", [NEW, t[1]])
    E.cover()
    before = state([tool, obj])
    r = m.vertex_vertex_intersection(tool, obj, tag)
    eq = exact(E, p, q) if E.symbolic else bool(np.array_equal(p, q))
    if r is None:
        E.prove("no intersection only for points that differ", E.not_(eq))
    else:
        E.prove("an intersection only at a common point", near(E, p, q))
        E.prove("located at the common point", near(E, r.point, p))
        E.prove("the object itself or a new vertex with the given tag", E.or_(r is obj, E.and_(r is not tool, r.tag == tag)))
        E.prove("the object itself exactly when the tags agree", E.implies(eq, (r is obj) == (t[0] == t[1])))
    unchanged(E, before)


def line_contract(E, ghost):
    """point_line_intersection by contract (C09): ghost lists (p, a, b, on, R)"""

    def stub(p, a, b, *rest, **kw):
        E.contract("point_line_intersection (C09)")
        for P, A, B, on, R in ghost:
            if same_vec(E, p, P) and (same_vec(E, a, A) and same_vec(E, b, B) or same_vec(E, a, B) and same_vec(E, b, A)):
                return R if on else None
        raise Unsupported("another point or segment")

    return stub


def unit_vertex_edge(E):
    import topology.operations.vertex_operations as m

    a, b = point(E, "a"), point(E, "b")
    E.assume(apart(E, a, b, 0.5))
    kind = E.choice("place", ["a", "b", "inside", "off"])
    if E.symbolic:
        p = {"a": a, "b": b}[kind].copy() if kind in ("a", "b") else point(E, "p")
        if kind in ("inside", "off"):
            E.assume([apart(E, p, a, 1e-3), apart(E, p, b, 1e-3)])
    else:
        s = E.rng.uniform(0.01, 0.99)
        base = {"a": a, "b": b, "inside": a + s * (b - a), "off": a + E.rng.choice([-0.3, 0.4, 1.7]) * (b - a) + E.rng.choice([0.0, 1.0]) * E.nrng.uniform(-1, 1, 3)}[kind]
        p = np.array([E.real("p%d" % k, gen=lambda r, k=k: float(base[k])) for k in range(3)])
        if kind == "off":
            E.assume(dist_seg(p, a, b) > 1e-3)
    ta = E.choice("end tags", [(0, 1), (4, 2)])
    tp = E.choice("tool tag", [ta[0], ta[1], 77])
    va, vb, tool = vertex(ta[0], a), vertex(ta[1], b), vertex(tp, p)
    e = edge(5, va, vb)
    E.cover()
    before = state([e, va, vb, tool])
    on = kind != "off"
    R = p if kind == "inside" else (a if kind == "a" else b)
    if E.symbolic and kind == "inside":
        R = np.array([E.fresh("on_edge") for _ in range(3)], dtype=object)
        E.assume(near(E, R, p))
    with Stub(m, point_line_intersection=line_contract(E, [(p, a, b, on, R)])) if E.symbolic else contextlib.nullcontext():
        r = m.vertex_edge_intersection(tool, e, NEW)
        rb = m.vertex_edge_boundary_intersection(tool, e, NEW)
    own = {"a": va, "b": vb}.get(kind)
    E.prove("none exactly off the edge", (r is None) == (not on))
    E.prove("none on the boundary exactly off the ends", (rb is None) == (own is None))
    for x in (r, rb):
        if x is None:
            continue
        E.prove("located at the common point", near(E, x.point, p))
        E.prove("a vertex", x.dimension == 0)
        if own is not None and own.tag == tp:
            E.prove("the edge's own end", x is own)
        else:
            E.prove("a new vertex with the given tag", x.tag == NEW and x is not va and x is not vb and x is not tool)
    unchanged(E, before)


# ---------------------------------------------------------------- two edges
def unit_edge_edge(E):
    edge_edge(E, ["end-end", "end-inside", "inside-end", "cross", "apart"])


def unit_edge_edge_tag(E):
    edge_edge(E, ["end-end", "end-inside"], only_tag=True)


def edge_edge(E, kinds, only_tag=False):
    import topology.operations.edge_operations as m
    import topology.operations.vertex_operations as mv

    kind = E.choice("meeting", kinds)
    k, l = E.choice("tool end", [0, 1]), E.choice("object end", [0, 1])
    same = kind == "end-end" and not only_tag and E.choice("the same vertex", [False, True])
    if E.symbolic:
        T = [point(E, "t0"), point(E, "t1")]
        S = [point(E, "s0"), point(E, "s1")]
        if kind == "end-end":
            S[l] = T[k].copy()
        pts = [(u, v) for i, u in enumerate(T + S) for j, v in enumerate(T + S) if j < i and not (kind == "end-end" and u is S[l] and v is T[k])]
        E.assume([apart(E, u, v, 1e-3) for u, v in pts])
        C = np.array([E.fresh("cross") for _ in range(3)], dtype=object) if kind == "cross" else {"end-end": S[l], "end-inside": T[k], "inside-end": S[l]}.get(kind)
        if kind in ("end-inside", "inside-end"):
            R = np.array([E.fresh("on") for _ in range(3)], dtype=object)
            E.assume(near(E, R, C))
    else:
        g = E.nrng
        while True:
            C = g.uniform(-5, 5, 3)
            d1, d2 = g.uniform(-1, 1, 3), g.uniform(-1, 1, 3)
            if np.linalg.norm(np.cross(d1, d2)) > 0.2:
                break
        x, y, z, w = g.uniform(0.3, 2, 4)
        T = [C - x * d1, C + y * d1]
        S = [C - z * d2, C + w * d2]
        if kind in ("end-end", "end-inside"):
            T[k] = C.copy()
        if kind in ("end-end", "inside-end"):
            S[l] = C.copy()
        if kind == "apart":
            o = E.rng.choice(["lift", "beyond"])
            sh = np.cross(d1, d2) * E.rng.choice([-1, 1]) * g.uniform(0.05, 1) if o == "lift" else d2 * (E.rng.choice([-1, 1]) * 3.0)
            S = [s + sh for s in S]
        T = [np.array([E.real("t%d%d" % (i, j), gen=lambda r, i=i, j=j: float(T[i][j])) for j in range(3)]) for i in range(2)]
        S = [np.array([E.real("s%d%d" % (i, j), gen=lambda r, i=i, j=j: float(S[i][j])) for j in range(3)]) for i in range(2)]
        if kind == "end-end":
            S[l] = T[k].copy()
    sw = E.choice("tags descend", [False, True])
    tt, ts = ([1, 0] if sw else [0, 1]), ([13, 12] if sw else [12, 13])
    if same:
        ts[l] = tt[k]
    tv = [vertex(t, p) for t, p in zip(tt, T)]
    sv = [vertex(t, p) for t, p in zip(ts, S)]
    e, f = edge(30, *tv), edge(31, *sv)
    E.cover()
    before = state([e, f] + tv + sv)
    if E.symbolic:
        ghost = []
        for i in range(2):
            on = (kind in ("end-end", "end-inside")) and i == k
            ghost.append((T[i], S[0], S[1], on, None if not on else (S[l] if kind == "end-end" else R)))
            on = (kind in ("end-end", "inside-end")) and i == l
            ghost.append((S[i], T[0], T[1], on, None if not on else (T[k] if kind == "end-end" else R)))

        def lines(p, q, c, d, *rest, **kw):
            """line_line_intersection by contract (C10)"""
            E.contract("line_line_intersection (C10)")
            ab = [(same_vec(E, p, U[i]) and same_vec(E, q, U[1 - i])) and any(same_vec(E, c, W[j]) and same_vec(E, d, W[1 - j]) for j in (0, 1)) for U, W in ((T, S), (S, T)) for i in (0, 1)]
            if not any(ab):
                raise Unsupported("another pair of segments")
            if kind == "apart":
                return None
            return np.array([C if kind in ("cross", "end-end") else R], dtype=object)

        with Stub(mv, point_line_intersection=line_contract(E, ghost)), Stub(m, line_line_intersection=lines, point_line_intersection=line_contract(E, ghost)):
            r = m.edge_edge_intersection(e, f, NEW)
    else:
        r = m.edge_edge_intersection(e, f, NEW)
    if only_tag:
        E.prove("the new vertex has the given tag", r is not None and r.tag == NEW)
        return
    E.prove("none exactly when the edges are apart", (r is None) == (kind == "apart"))
    if r is not None:
        E.prove("a vertex at a point of space", r.dimension == 0 and np.shape(r.point) == (3,))
        E.prove("located at the common point", near(E, r.point, C))
        if same:
            E.prove("the shared vertex", r is sv[l] or r is tv[k])
        else:
            E.prove("a new vertex", not any(r is v for v in tv + sv))
            if kind in ("inside-end", "cross"):
                E.prove("the new vertex has the given tag", r.tag == NEW)
    unchanged(E, before)


# ---------------------------------------------------------------- lists
def setting(E, n, k):
    """n tool vertices, k edges (one after the other); ghost: what each pair has in common"""
    vs = [vertex(i + 1, np.array([float(i), 0.0, 0.0])) for i in range(k + 1)]
    es = [edge(30 + i, vs[i], vs[i + 1]) for i in range(k)]
    tools = [vertex(500 + i, np.array([0.1 * i, 7.0, 0.0])) for i in range(n)]
    return vs, es, tools


def unit_lists(E):
    import topology.operations.vertex_operations as m

    n, k = E.choice("vertices", [0, 1, 2, 3]), E.choice("edges", [1, 2])
    vs, es, tools = setting(E, n, k)
    what = {}
    for e in es:
        for t in tools:
            what[e.tag, t.tag] = E.choice("%d %d" % (e.tag, t.tag), ["none", "new", "own0", "own1"] if n < 3 else ["none", "new", "own1"])
    start = E.choice("start", [NEW, -5])
    E.cover()
    before = state(vs + es + tools)

    def pair(v_tool, edge_object, tag=None, eps=None):
        E.contract("vertex_edge_intersection")
        w = what[edge_object.tag, v_tool.tag]
        if w == "none":
            return None
        if w == "new":
            return vertex(tag, v_tool.point)
        return edge_object.boundary_shapes[int(w[3])]

    with Stub(m, vertex_edge_intersection=pair):
        out = m.vertices_edges_intersection(arr(tools), arr(es), start)
    E.prove("one result per edge, in order", len(out) == k and all(o[0] is e for o, e in zip(out, es)))
    fresh = []
    for (e, got, by) in out:
        want = [t for t in tools if what[e.tag, t.tag] != "none"]
        E.prove("the vertices that meet the edge, in order", [id(x) for x in by] == [id(t) for t in want])
        E.prove("one intersection each", len(got) == len(want))
        for g, t in zip(got, want):
            w = what[e.tag, t.tag]
            if w == "new":
                fresh.append(g)
                E.prove("at the place of the tool", np.array_equal(g.point, t.point) and g is not t)
            else:
                E.prove("the edge's own end", g is e.boundary_shapes[int(w[3])])
    E.prove("new tags start at the given one", all(g.tag >= start for g in fresh))
    E.prove("no new tag is used twice", len({int(g.tag) for g in fresh}) == len(fresh))
    unchanged(E, before)


def unit_domain(E):
    import topology.operations.domain_operations as m
    from topology.domain import Domain

    n, k = E.choice("vertices", [1, 2]), E.choice("edges", [1, 2, 3])
    vs, es, tools = setting(E, n, k)
    obj, tool = Domain(1), Domain(E.choice("tool dimension", [0, 1]))
    for s in (vs, es):
        obj.append_shapes(arr(s))
    tool.append_shapes(arr(tools))
    res, tag = [], NEW
    for e in es:
        got, by = [], []
        for t in tools:
            w = E.choice("%d %d" % (e.tag, t.tag), ["none", "new", "own"])
            if w == "none":
                continue
            got.append(vertex(tag, t.point) if w == "new" else e.boundary_shapes[1])
            tag += 1
            by.append(t)
        res.append((e, arr(got) if got else np.array([]), arr(by) if by else np.array([])))
    E.cover()

    def stub(vertices_tool, edges_object, tag=None, eps=None):
        E.contract("vertices_edges_intersection")
        E.prove("all vertices of the tool", sorted(id(v) for v in vertices_tool) == sorted(map(id, tools)))
        E.prove("all edges of the object", [id(e) for e in edges_object] == [id(e) for e in es])
        return res

    before = state(vs + es + tools)
    with Stub(m, vertices_edges_intersection=stub):
        r = m.domain_intersection(tool, obj, NEW)
    want = {id(v) for _, got, _ in res for v in got}
    if r is None:
        E.prove("nothing only when nothing meets", not want)
    else:
        have = [s for d in r.shapes for s in d]
        E.prove("exactly the common vertices, once each", sorted(id(s) for s in have) == sorted(want))
        E.prove("vertices in their slot", len(r.shapes[0]) == len(want))
    unchanged(E, before)


# ---------------------------------------------------------------- real code on random configurations
def bounded_meetings(B):
    import topology.operations.domain_operations as do
    import topology.operations.edge_operations as me
    import topology.operations.vertex_operations as mv

    while B.more() and B.evaluations < (20000 if B.thorough else 1500):
        rng, g = B.rng, B.nrng
        n = rng.randint(1, 4)
        ids = rng.sample(range(0, 80), 3 * n)
        sc = rng.choice([1.0, 1.0, 30.0])
        es = []
        for i in range(n):
            while True:
                a, b = sc * g.uniform(-3, 3, 3), sc * g.uniform(-3, 3, 3)
                if rng.random() < 0.4:
                    a, b = np.round(a), np.round(b)
                if np.linalg.norm(a - b) > 0.3:
                    break
            es.append(edge(ids[3 * i], vertex(ids[3 * i + 1], a), vertex(ids[3 * i + 2], b)))
        tools, kinds = [], []
        for i in range(rng.randint(1, 5)):
            e = rng.choice(es)
            a, b = e.boundary_points()
            kind = rng.choice(["in", "a", "b", "own", "beyond", "off"])
            s = rng.choice([0.5, 0.25, rng.uniform(0.01, 0.99)])
            p = {"in": a + s * (b - a), "a": a.copy(), "b": b.copy(), "own": a.copy(), "beyond": a + rng.choice([-0.1, 1.2]) * (b - a), "off": g.uniform(-3, 3, 3)}[kind]
            tools.append(vertex(e.boundary_shapes[0].tag if kind == "own" else 100 + i, p))
        for i in range(len(tools)):
            for e in es:
                d = dist_seg(tools[i].point, *e.boundary_points())
                if 1e-9 < d < 1e-4:
                    kinds.append("unclear")
        if kinds:
            continue
        desc = dict(edges=[(e.tag, [(v.tag, v.point.tolist()) for v in e.boundary_shapes]) for e in es], tools=[(v.tag, v.point.tolist()) for v in tools])
        shapes = es + [v for e in es for v in e.boundary_shapes] + tools

        def run():
            before = [(s.tag, [id(x) for x in s.boundary_shapes], None if s.dimension else s.point.tolist()) for s in shapes]
            for e in es:
                a, b = e.boundary_points()
                for t in tools:
                    on = dist_seg(t.point, a, b) < 1e-9
                    r = mv.vertex_edge_intersection(t, e, NEW)
                    assert (r is None) == (not on), "vertex on edge"
                    if on:
                        assert np.shape(r.point) == (3,) and np.allclose(r.point, t.point, atol=1e-8), "place"
                        own = [v for v in e.boundary_shapes if v.tag == t.tag and np.allclose(v.point, t.point, atol=1e-9)]
                        assert (r is own[0]) if own else r.tag == NEW, "own end or new vertex"
            out = mv.vertices_edges_intersection(arr(tools), arr(es), NEW)
            fresh = []
            assert [o[0] for o in out] == es
            for e, got, by in out:
                want = [t for t in tools if dist_seg(t.point, *e.boundary_points()) < 1e-9]
                assert [id(x) for x in by] == [id(x) for x in want], "vertices on the edge"
                assert len(got) == len(want)
                for x, t in zip(got, want):
                    assert np.allclose(x.point, t.point, atol=1e-8)
                    if not any(x is v for v in e.boundary_shapes):
                        fresh.append(x)
            assert len({int(x.tag) for x in fresh}) == len(fresh) and all(x.tag >= NEW for x in fresh), "new tags"
            obj = do.create_domain(1, arr(es + [v for e in es for v in e.boundary_shapes]))
            tl = do.create_domain(1, arr(tools))
            shared = len({v.tag for e in es for v in e.boundary_shapes} & {t.tag for t in tools}) == 0
            if shared:
                r = do.domain_intersection(tl, obj, NEW)
                total = sum(len(o[1]) for o in out)
                # nothing in common: no domain, or one without shapes
                assert (0 if r is None else len(r.shapes[0])) == total, "domain intersection holds every vertex"
            after = [(s.tag, [id(x) for x in s.boundary_shapes], None if s.dimension else s.point.tolist()) for s in shapes]
            assert before == after, "the given shapes are modified"

        B.case("vertices", desc, run)

        # two edges
        C = sc * g.uniform(-3, 3, 3) if rng.random() < 0.6 else np.round(g.uniform(-3, 3, 3))
        d1, d2 = (g.uniform(-1, 1, 3), g.uniform(-1, 1, 3)) if rng.random() < 0.5 else (np.eye(3)[rng.randint(0, 2)], g.integers(-2, 3, 3).astype(float))
        if np.linalg.norm(np.cross(d1, d2)) < 0.1 * np.linalg.norm(d1) * np.linalg.norm(d2) or np.linalg.norm(d2) == 0:
            continue
        x, y, z, w = g.uniform(0.2, 2, 4)
        T, S = [C - x * d1, C + y * d1], [C - z * d2, C + w * d2]
        kind = rng.choice(["end-end", "end-inside", "inside-end", "cross", "lift", "beyond", "behind"])
        k, l = rng.randint(0, 1), rng.randint(0, 1)
        if kind in ("end-end", "end-inside"):
            T[k] = C.copy()
        if kind in ("end-end", "inside-end"):
            S[l] = C.copy()
        if kind == "lift":
            nn = np.cross(d1, d2)
            S = [s + nn / np.linalg.norm(nn) * 10 ** rng.uniform(-3, 0) for s in S]
        if kind == "beyond":
            S = [s + d2 * (z + 0.1) for s in S]
        if kind == "behind":
            T = [t - d1 * (y + 0.1) for t in T]
        tg = rng.sample(range(0, 50), 4)
        own = kind == "end-end" and rng.random() < 0.5
        if own:
            tg[2 + l] = tg[k]
        tv, sv = [vertex(tg[i], T[i]) for i in range(2)], [vertex(tg[2 + i], S[i]) for i in range(2)]
        e, f = edge(60, *tv), edge(61, *sv)
        desc = dict(kind=kind, tool=[(v.tag, v.point.tolist()) for v in tv], object=[(v.tag, v.point.tolist()) for v in sv])

        new = []

        def two():
            before = [(s.tag, [id(q) for q in s.boundary_shapes], None if s.dimension else s.point.tolist()) for s in [e, f] + tv + sv]
            new.clear()
            for u, o in ((e, f), (f, e)):
                r = me.edge_edge_intersection(u, o, tag=NEW)
                assert (r is None) == (kind in ("lift", "beyond", "behind")), "edges meet"
                if r is not None:
                    assert np.shape(r.point) == (3,), ("a point of space", np.shape(r.point))
                    assert np.allclose(r.point, C, atol=1e-8), "place"
                    if own:
                        assert r is sv[l] or r is tv[k], "the shared vertex"
                    else:
                        new.append((u is f, r))
            after = [(s.tag, [id(q) for q in s.boundary_shapes], None if s.dimension else s.point.tolist()) for s in [e, f] + tv + sv]
            assert before == after, "the given edges are modified"

        B.case("edges", desc, two)

        def numbered(at_end):
            def run():
                for swapped, r in new:
                    end_of_tool = kind == "end-end" or kind == ("inside-end" if swapped else "end-inside")
                    if end_of_tool == at_end:
                        assert r.tag == NEW, ("tag", r.tag)
            return run

        B.case("tag of a crossing", desc, numbered(False))
        B.case("tag at an end of the tool", desc, numbered(True))


MODS = ["topology.operations.vertex_operations", "topology.operations.edge_operations", "topology.operations.domain_operations", "topology.vertex", "topology.edge", "topology.domain", "topology.shape"]
GEO = "coordinates of at most 1000"
UNITS = [
    Unit("vertices with the same geometry", unit_same_vertex, [V + "vertex_with_same_geometry_q", V + "vertex_strong_equality_q"], modules=MODS, samples=200, assumptions=[GEO, "tags from a stated list"]),
    Unit("vertices within a tolerance", unit_same_vertex_eps, [V + "vertex_with_same_geometry_q"], modules=MODS, samples=200, assumptions=["coordinates of at most 1, tolerances 0.11 and 0.01"]),
    Unit("edges with the same geometry", unit_same_edge, [X + "edge_with_same_geometry_q", X + "edge_strong_equality_q"], modules=MODS, samples=200, assumptions=[GEO, "tags from a stated list"]),
    Unit("collapse", unit_collapse, [V + "collapse_vertex", X + "collapse_edge"], modules=MODS, samples=200, assumptions=[GEO, "tags from a stated list"]),
    Unit("vertex with vertex", unit_vertex_vertex, [V + "vertex_vertex_intersection"], modules=MODS, samples=200, assumptions=[GEO, "tags from a stated list"]),
    Unit("vertex with edge", unit_vertex_edge, [V + "vertex_edge_intersection", V + "vertex_edge_boundary_intersection"], modules=MODS, samples=200, assumptions=[GEO, "points that differ are at least 1e-3 apart in some coordinate, ends 0.5", "point_line_intersection by its contract (C09)"]),
    Unit("edge with edge", unit_edge_edge, [X + "edge_edge_intersection", X + "edge_edge_boundary_intersection"], modules=MODS, samples=300, max_paths=20000, timeout=200, assumptions=[GEO, "points that differ are at least 1e-3 apart in some coordinate", "point_line_intersection (C09) and line_line_intersection (C10) by their contracts", "edges that are not parallel"]),
    Unit("edge with edge, tag at an end of the tool", unit_edge_edge_tag, [X + "edge_edge_intersection", X + "edge_edge_boundary_intersection"], modules=MODS, samples=60, max_paths=20000, timeout=200, assumptions=["as for 'edge with edge'"]),
    Unit("lists of vertices and edges", unit_lists, [V + "vertices_edges_intersection", V + "vertices_edge_intersection"], modules=MODS, samples=100, kind="bounded-size", bounds="up to 3 vertices and 2 edges", tol=0, max_paths=20000, assumptions=["vertex_edge_intersection by its contract"]),
    Unit("domains", unit_domain, [O + "domain_intersection"], modules=MODS, samples=60, kind="bounded-size", bounds="up to 2 vertices and 3 edges", tol=0, max_paths=20000, assumptions=["vertices_edges_intersection by its contract"]),
]
BOUNDED = [Bounded("meetings", bounded_meetings, [V + "vertex_edge_intersection", V + "vertices_edges_intersection", X + "edge_edge_intersection", O + "domain_intersection"], "random edges and vertices on, at the ends of, beyond and off them; pairs of edges that meet at ends, inside, or not at all", budget=40)]
