"""C13: splitting an edge by vertices partitions it; domain operations keep all."""
import contextlib

import numpy as np

from ..harness import Unit, Bounded
from .c09 import Stub
from .c12 import arr
from .common import *

PID = "C13"
IMPORTS = ["topology.operations.vertex_operations", "topology.operations.domain_operations", "topology.domain"]
V = "topology.operations.vertex_operations."
O = "topology.operations.domain_operations."
START = 1000
GAP = 5e-4  # break points keep this distance from each other and from the ends (the code identifies points within 1e-5 of their coordinates)


class Edges:
    """edges along which every relevant point is a + (its j-th coordinate fixes it); ghost membership"""

    def __init__(self, E):
        self.E, self.points = E, []

    def edge(self, name, t0, swap=False, j=None, vary=True):
        from topology.edge import Edge
        from topology.vertex import Vertex

        E = self.E
        j = 1 if j is None else j
        a = E.vec(name + "a", 3, lo=-10, hi=10)
        b = E.vec(name + "b", 3, lo=-10, hi=10)
        s = E.choice("way " + name, [1, -1]) if vary else (-1 if name == "f" else 1)
        E.assume((b[j] - a[j]) * s >= 1)
        va, vb = Vertex(t0, a), Vertex(t0 + 1, b)
        e = Edge(t0 + 2, np.array([vb, va] if swap else [va, vb]))
        e.physical_tag = E.choice("physical " + name, [None, 5]) if vary else 5
        return NS(e=e, a=a, b=b, j=j, s=s, va=va, vb=vb, on=[], name=name)

    def inside(self, g, name):
        E, j = self.E, g.j
        p = np.empty(3, dtype=object if E.symbolic else float)
        t = E.real(name, lo=-10, hi=10, gen=lambda r: r.uniform(*sorted((g.a[j], g.b[j]))))
        E.assume([(t - g.a[j]) * g.s >= GAP, (g.b[j] - t) * g.s >= GAP])
        lam = (t - g.a[j]) / (g.b[j] - g.a[j])
        for k in range(3):
            p[k] = t if k == j else (E.fresh(name + "_%d" % k) if E.symbolic else g.a[k] + lam * (g.b[k] - g.a[k]))
            if E.symbolic and k != j:
                E.assume([p[k] <= 10, p[k] >= -10])
        return p

    def off(self, name):
        E = self.E
        p = E.vec(name, 3, lo=-10, hi=10)
        if not E.symbolic:
            p = p + np.array([100.0, 200.0, -300.0])
        return p

    def of(self, row):
        for q in self.points:
            if all(x is y or (isinstance(x, Sym) and isinstance(y, Sym) and x.n is y.n) for x, y in zip(row, q.p)):
                return q
        raise Unsupported("a point that was not given")


def contracts(E, w, edges):
    """points_line_intersection and points_line_argsort by their contracts (C09)"""
    import topology.operations.vertex_operations as m

    if not E.symbolic:
        return contextlib.nullcontext()

    def which(a, b):
        for g in edges:
            if all(x is y for x, y in zip(list(a) + list(b), list(g.a) + list(g.b))):
                return g, 1
            if all(x is y for x, y in zip(list(a) + list(b), list(g.b) + list(g.a))):
                return g, -1
        raise Unsupported("a segment that is not an edge")

    def stub_points_line_intersection(points, a, b, eps=None):
        E.contract("points_line_intersection")
        g, _ = which(a, b)
        qs = [w.of(r) for r in points]
        mask = np.array([g.name in q.on for q in qs], dtype=bool)
        return (np.array([q.p for q, m in zip(qs, mask) if m], dtype=object) if mask.any() else np.array([])), mask

    def stub_points_line_argsort(points, a, b, ba_sorting=False):
        E.contract("points_line_argsort")
        g, way = which(a, b)
        way = way * g.s * (-1 if ba_sorting else 1)
        key = [p[g.j] * way for p in points]
        idx = []
        for i in range(len(key)):
            k = 0
            while k < len(idx) and not bool(key[i] < key[idx[k]]):
                k += 1
            idx.insert(k, i)
        return np.array(idx, dtype=int)

    return Stub(m, points_line_intersection=stub_points_line_intersection, points_line_argsort=stub_points_line_argsort)


def same_point(p, q):
    if len(p) != len(q):
        return False
    ne = [(x, y) for x, y in zip(p, q) if not (x is y or (isinstance(x, Sym) and isinstance(y, Sym) and x.n is y.n))]
    if not any(isinstance(v, Sym) for xy in ne for v in xy):
        return all(abs(x - y) < 1e-7 for x, y in ne)
    E = sym.engine()
    return bool(E.conj([c for x, y in ne for c in (x - y < 1e-7, y - x < 1e-7)]))


def check_partition(E, g, new_edges, new_vertices, given, tag0):
    """given: the vertices of the tool on the edge (interior ones first distinct)"""
    inner = []
    for q in given:
        if q.where == "in" and not any(q.p is r.p for r in inner):
            inner.append(q)
    if not inner and len(new_edges) == 0:
        E.prove("no break point: no new vertices", len(new_vertices) == 0)
        return
    E.prove("one more sub-edge than break points", len(new_edges) == len(inner) + 1)
    order = []  # break points by distance from the start (every order is explored)
    for q in inner:
        k = 0
        while k < len(order) and not bool((q.p[g.j] - order[k].p[g.j]) * g.s < 0):
            k += 1
        order.insert(k, q)
    stops = [g.a] + [q.p for q in order] + [g.b]
    left = list(new_edges)
    tags = []
    for p, q in zip(stops, stops[1:]):
        hit = [e for e in left if (same_point(e.boundary_shapes[0].point, p) and same_point(e.boundary_shapes[1].point, q)) or (same_point(e.boundary_shapes[0].point, q) and same_point(e.boundary_shapes[1].point, p))]
        E.prove("a sub-edge between consecutive break points", len(hit) == 1)
        if not hit:
            return
        left.remove(hit[0])
        tags.append(hit[0].tag)
        E.prove("keeps the physical tag", hit[0].physical_tag == g.e.physical_tag)
    E.prove("distinct tags", len(set(tags)) == len(tags))
    E.prove("no old tag is used", all(t >= tag0 for t in tags))
    at = {}
    for e in new_edges:
        E.prove("two end vertices", len(e.boundary_shapes) == 2)
        for v in e.boundary_shapes:
            E.prove("end vertices are reported", any(v is x for x in new_vertices))
            E.prove("an old vertex, a given one, or a new tag", v.tag >= tag0 or v is g.va or v is g.vb or any(v is q.v for q in given))
            E.prove("a tag names one point", same_point(at.setdefault(v.tag, v).point, v.point))
    for v in new_vertices:
        E.prove("no stray vertex", any(v is x for e in new_edges for x in e.boundary_shapes))


def tool(E, w, edges, n, template=None):
    from topology.vertex import Vertex

    out = []
    for i in range(n):
        opts = ["off"] + [(k, g) for g in edges for k in ("in", "a", "b")] + ["dup"]
        if i == 0:
            opts = [o for o in opts if o != "dup"]
        o = E.choice("point%d" % i, opts) if template is None else template[i]
        if template is not None and o in ("in", "a", "b"):
            o = (o, edges[0])
        if o == "off":
            q = NS(p=w.off("o%d" % i), where="off", on=[])
        elif o == "dup":
            q = NS(p=out[0].p, where=out[0].where, on=list(out[0].on))
        else:
            k, g = o
            q = NS(p=w.inside(g, "p%d" % i) if k == "in" else (g.a if k == "a" else g.b).copy(), where=k, on=[g.name])
            if k == "in":
                for r in out:
                    if r.where == "in" and r.on == q.on:
                        E.assume(E.or_(q.p[g.j] - r.p[g.j] >= GAP, r.p[g.j] - q.p[g.j] >= GAP))
        q.v = Vertex(500 + i, q.p)
        w.points.append(q)
        out.append(q)
    # distinct points are distinguishable
    for i, q in enumerate(out):
        for r in out[:i]:
            if q.p is r.p or (q.on == r.on and q.on):
                continue
            if E.symbolic:
                E.assume(E.or_(q.p[0] - r.p[0] >= 0.05, r.p[0] - q.p[0] >= 0.05))
    return out


def snapshot(vs):
    return [(v.tag, v.physical_tag, v.point.copy()) for v in vs]


def unit_difference(n):
    def fn(E):
        import topology.operations.vertex_operations as m

        w = Edges(E)
        g = w.edge("e", 10, swap=E.choice("given order", [False, True]) if n < 3 else False, vary=n < 3)
        E.abstract_unique, E.round_identity = "order", True
        qs = tool(E, w, [g], n)
        E.cover()
        vs = arr([q.v for q in qs])
        before = snapshot(vs)
        with contracts(E, w, [g]):
            new_edges, new_vertices = m.vertices_edge_difference(vs, g.e, START)
        on = [q for q in qs if q.on]
        if not on:
            E.prove("points off the edge change nothing", len(new_edges) == 0 and len(new_vertices) == 0)
        else:
            check_partition(E, g, list(new_edges), list(new_vertices), on, START)
        E.prove("the edge and the given vertices are unchanged", list(g.e.boundary_shapes)[0] is g.va and list(g.e.boundary_shapes)[1] is g.vb and g.va.tag == 10 and g.vb.tag == 11 and g.e.tag == 12
                and all(v.tag == t and v.physical_tag == ph and same_point(v.point, p) for v, (t, ph, p) in zip(vs, before)))

    return fn


def unit_differences(E):
    """several edges: each is treated on its own, tags are never reused"""
    import topology.operations.vertex_operations as m

    w = Edges(E)
    edges = [w.edge("e", 10, j=0, vary=False), w.edge("f", 20, j=1, vary=False)]
    for g in edges:
        g.e.physical_tag = 5 if g is edges[0] else 6
    if E.symbolic:  # the second edge lies away from the first one
        for k in range(2):
            E.assume(((edges[1].a, edges[1].b)[k])[2] >= 5)
            E.assume(((edges[0].a, edges[0].b)[k])[2] <= 4)
    else:
        for x in (edges[1].a, edges[1].b):
            x += 50.0
    E.abstract_unique, E.round_identity = "order", True
    qs = tool(E, w, edges, 2)
    E.cover()
    with contracts(E, w, edges):
        out = m.vertices_edges_difference(arr([q.v for q in qs]), arr([g.e for g in edges]), START)
    E.prove("one result per edge, in order", len(out) == 2 and all(o[0] is g.e for o, g in zip(out, edges)))
    tags = []
    for (e, ne, nv), g in zip(out, edges):
        on = [q for q in qs if g.name in q.on]
        if not on:
            E.prove("points off the edge change nothing", len(ne) == 0 and len(nv) == 0)
        else:
            check_partition(E, g, list(ne), list(nv), on, START)
        tags.append({x.tag for x in ne} | {v.tag for v in nv if v.tag >= START})
    E.prove("tags are not reused", not (tags[0] & tags[1]))


def unit_domain_difference(E):
    """over the contract of vertices_edges_difference: untouched edges stay, the others are replaced"""
    import topology.operations.domain_operations as m
    from topology.domain import Domain
    from topology.edge import Edge
    from topology.vertex import Vertex

    n = E.choice("edges", [1, 2, 3])
    vs = [Vertex(i + 1, np.array([float(i), 0.0, 0.0])) for i in range(n + 1)]
    edges = [Edge(30 + i, np.array([vs[i], vs[i + 1]])) for i in range(n)]
    d = Domain(1)
    d.append_shapes(arr(vs))
    d.append_shapes(arr(edges))
    sub = Domain(E.choice("subtrahend dimension", [0, 1]))
    tool_v = [Vertex(500 + i, np.array([50.0, 0, 0])) for i in range(E.choice("points", [1, 2]))]
    sub.append_shapes(arr(tool_v))
    cut = [E.choice("cut%d" % i, [False, True]) for i in range(n)]
    pieces = {}
    tag = START
    for i in range(n):
        if cut[i]:
            x, y = Vertex(tag, np.array([i + 0.3, 0, 0])), Vertex(tag + 1, np.array([i + 0.3, 0, 0]))
            pieces[edges[i].tag] = ([Edge(tag + 2, np.array([vs[i], x])), Edge(tag + 3, np.array([y, vs[i + 1]]))], [vs[i], x, y, vs[i + 1]])
            tag += 4
    E.cover()

    def stub_difference(vertices_tool, edges_object, tag=None, eps=None):
        E.contract("vertices_edges_difference")
        E.prove("all points are subtracted", sorted(v.tag for v in vertices_tool) == [v.tag for v in tool_v])
        E.prove("from all edges", sorted(e.tag for e in edges_object) == [e.tag for e in edges])
        return [(e,) + tuple(pieces.get(e.tag, ([], []))) for e in edges_object]

    with Stub(m, vertices_edges_difference=stub_difference):
        r = m.domain_difference(d, sub, START)
    want_e = [x for i in range(n) for x in (pieces[edges[i].tag][0] if cut[i] else [edges[i]])]
    want_v = {v.tag: v for i in range(n) for v in (pieces[edges[i].tag][1] if cut[i] else [vs[i], vs[i + 1]])}
    got_v, got_e = list(r.shapes[0]), list(r.shapes[1])
    E.prove("untouched edges and the pieces of the others, once each", sorted(map(id, got_e)) == sorted(map(id, want_e)))
    E.prove("their vertices, once each", sorted(map(id, got_v)) == sorted(map(id, want_v.values())))


def unit_create(E):
    """every distinct shape exactly once in the slot of its dimension"""
    import topology.operations.domain_operations as m
    from topology.edge import Edge
    from topology.face import Face
    from topology.vertex import Vertex

    dim = E.choice("dim", [1, 2, 3])
    n = E.choice("n", [0, 1, 3, 4])
    none = np.array([], dtype=object)
    shapes = []
    for i in range(n):
        d = E.choice("d%d" % i, list(range(min(dim, 2) + 1)) if n < 4 else [0, 1])
        t = E.choice("t%d" % i, [[-1, -2, 0, 7], [-2, 0, 2**31], [-1, 7, 1], [5, -1]][i])
        shapes.append(Vertex(t, np.array([float(i), 0.0, 0.0])) if d == 0 else (Edge if d == 1 else Face)(t, none))
    if n > 1 and E.choice("repeat", [False, True]):
        shapes.append(shapes[0])
    E.cover()
    dom = m.create_domain(dimension=dim, shapes=arr(shapes))
    E.prove("one slot per dimension", dom.dimension == dim and len(dom.shapes) == dim + 1)
    for d in range(dim + 1):
        got = [(s.dimension, s.tag) for s in dom.shapes[d]]
        want = {(s.dimension, s.tag) for s in shapes if s.dimension == d}
        E.prove("each distinct shape of the dimension exactly once", sorted(got) == sorted(want))
        E.prove("the given shapes themselves", all(any(s is x for x in shapes) for s in dom.shapes[d]))


def unit_append(E):
    from topology.domain import Domain
    from topology.edge import Edge
    from topology.vertex import Vertex

    dim = E.choice("dim", [1, 2])
    dom = Domain(dim)
    kept = [[] for _ in range(dim + 1)]
    none = np.array([], dtype=object)
    for r in range(2):
        n = E.choice("n%d" % r, [0, 1, 2, 3])
        d = E.choice("d%d" % r, [0, 1])
        new = [Vertex(10 * r + i, np.zeros(3)) if d == 0 else Edge(10 * r + i, none) for i in range(n)]
        dom.append_shapes(arr(new))
        kept[d] += new
    E.cover()
    for d in range(dim + 1):
        E.prove("everything appended is kept in order, in the slot of its dimension", [id(x) for x in dom.shapes[d]] == [id(x) for x in kept[d]])


def bounded_split(B):
    import topology.operations.vertex_operations as m
    import topology.operations.domain_operations as do
    from topology.edge import Edge
    from topology.vertex import Vertex

    while B.more() and B.evaluations < (20000 if B.thorough else 1500):
        rng = B.rng
        n = rng.randint(1, 4)
        E_, pts, tags = [], [], rng.sample(range(1, 60), 3 * n)
        for i in range(n):
            a, b = B.nrng.uniform(-3, 3, 3), B.nrng.uniform(-3, 3, 3)
            if rng.random() < 0.3:
                a[2] = b[2] = 0.0
            if rng.random() < 0.2:
                b[1] = a[1]
            if np.linalg.norm(b - a) < 0.5:
                b = a + np.array([1.0, 0.5, 0.2])
            e = Edge(tags[3 * i], np.array([Vertex(tags[3 * i + 1], a), Vertex(tags[3 * i + 2], b)]))
            e.physical_tag = rng.choice([None, 3, 4])
            E_.append(e)
        for i in range(rng.randint(1, 7)):
            e = rng.choice(E_)
            a, b = e.boundary_points()
            k = rng.random()
            if k < 0.55:
                p = a + rng.choice([0.1, 0.25, 0.5, 0.61, 0.9, rng.uniform(0.02, 0.98)]) * (b - a)
            elif k < 0.75:
                p = (a if rng.random() < 0.5 else b).copy()
            elif k < 0.85:
                p = a + rng.choice([-0.5, 1.5]) * (b - a)
            else:
                p = B.nrng.uniform(-3, 3, 3)
            pts.append(p)
            if rng.random() < 0.2:
                pts.append(p.copy())
        tools = [Vertex(200 + i, p) for i, p in enumerate(pts)]
        rng.shuffle(tools)
        desc = dict(edges=[(e.tag, [(v.tag, v.point.tolist()) for v in e.boundary_shapes]) for e in E_], tools=[(v.tag, v.point.tolist()) for v in tools])

        def on(e):
            a, b = e.boundary_points()
            L = np.linalg.norm(b - a)
            inner, ends, un = [], [], False
            for v in tools:
                lam = np.dot(v.point - a, b - a) / L**2
                dist = np.linalg.norm(v.point - a - lam * (b - a))
                if dist > 1e-6:
                    continue
                if min(np.linalg.norm(v.point - a), np.linalg.norm(v.point - b)) < 1e-9:
                    ends.append(v)
                elif 0 < lam < 1:
                    if not any(np.allclose(v.point, x) for x in inner):
                        inner.append(v.point)
            inner.sort(key=lambda p: np.linalg.norm(p - a))
            return inner, ends

        def check(e, ne, nv, tag0):
            inner, ends = on(e)
            a, b = e.boundary_points()
            if not inner and not ends:
                assert len(ne) == 0 and len(nv) == 0, "untouched"
                return
            if not inner and len(ne) == 0:
                return
            assert len(ne) == len(inner) + 1, ("pieces", len(ne), len(inner))
            stops = [a] + inner + [b]
            for p, q in zip(stops, stops[1:]):
                hit = [x for x in ne if (np.allclose(x.boundary_points(), [p, q], atol=1e-9) or np.allclose(x.boundary_points(), [q, p], atol=1e-9))]
                assert len(hit) == 1, "consecutive piece"
                assert hit[0].physical_tag == e.physical_tag, "physical tag"
            tg = [x.tag for x in ne]
            assert len(set(tg)) == len(tg) and min(tg) >= tag0, "tags"

        def run():
            ne, nv = m.vertices_edge_difference(arr(tools), E_[0], START)
            check(E_[0], ne, nv, START)
            out = m.vertices_edges_difference(arr(tools), arr(E_), START)
            assert [o[0] for o in out] == E_
            alltags = []
            for e, ne, nv in out:
                check(e, ne, nv, START)
                alltags += [x.tag for x in ne] + list({v.tag for v in nv if v.tag >= START})
            assert len(set(alltags)) == len(alltags), "tags reused"
            d1 = do.create_domain(1, arr(E_ + [v for e in E_ for v in e.boundary_shapes]))
            d0 = do.create_domain(1, arr(tools))
            assert len(d1.shapes[1]) == n and len(d1.shapes[0]) == 2 * n and len(d0.shapes[0]) == len(tools)
            r = do.domain_difference(d1, d0, START)
            got = list(r.shapes[1])
            k = 0
            for e in E_:
                inner, ends = on(e)
                if inner:
                    k += len(inner) + 1
                    assert not any(x is e for x in got), "a cut edge is replaced"
                else:
                    k += 1
                    a, b = e.boundary_points()
                    same = [x for x in got if np.allclose(x.boundary_points(), [a, b]) or np.allclose(x.boundary_points(), [b, a])]
                    assert len(same) == 1, "an untouched edge stays"
                    if not ends:
                        assert same[0] is e, "an untouched edge stays as it is"
                if inner:
                    check(e, [x for x in got if covers(e, x)], [None], START)
            assert len(got) == k, ("edges after the difference", len(got), k)

        def covers(e, x):
            a, b = e.boundary_points()
            L = np.linalg.norm(b - a)
            return all(np.linalg.norm(np.cross(p - a, b - a)) / L < 1e-7 and -1e-7 < np.dot(p - a, b - a) / L**2 < 1 + 1e-7 for p in x.boundary_points())

        B.case("split", desc, run)


GE = "coordinates within +-10, edges of extent at least 1 (along one coordinate), distinct points on an edge at least 5e-4 apart along that coordinate (other pairs 0.05 apart) (in one coordinate); new tags start above all old ones; rounding to 10 decimals keeps such points distinct"
PC = "points_line_intersection and points_line_argsort by their contracts (C09)"
MODS = ["topology.operations.vertex_operations", "topology.operations.domain_operations", "topology.vertex", "topology.edge", "topology.domain", "topology.shape"]
UNITS = [Unit("split by %d points" % n, unit_difference(n), [V + "vertices_edge_difference", V + "vertex_with_same_geometry_q"], modules=MODS, samples=200, kind="bounded-size", bounds="%d tool points" % n, assumptions=[GE, PC], max_paths=20000, timeout=200) for n in (1, 2, 3)]
UNITS += [
    Unit("split of two edges", unit_differences, [V + "vertices_edges_difference"], modules=MODS, samples=100, kind="bounded-size", bounds="2 edges, 2 points", assumptions=[GE, PC], max_paths=20000, timeout=200),
    Unit("domain difference", unit_domain_difference, [O + "domain_difference"], modules=MODS, samples=40, kind="bounded-size", bounds="chains of up to 3 edges", assumptions=["vertices_edges_difference by its contract"], tol=0),
    Unit("create domain", unit_create, [O + "create_domain", "topology.domain.Domain.append_shapes"], modules=MODS, samples=60, kind="bounded-size", bounds="up to 5 shapes, tags from a stated list", max_paths=20000, tol=0),
    Unit("append shapes", unit_append, ["topology.domain.Domain.append_shapes"], modules=MODS, samples=30, kind="bounded-size", bounds="two rounds of up to 3 shapes", tol=0),
]
BOUNDED = [Bounded("splits", bounded_split, [V + "vertices_edge_difference", V + "vertices_edges_difference", O + "domain_difference", O + "create_domain"], "random edges and points on, at the ends of, beyond and off them, with repetitions", budget=40)]
