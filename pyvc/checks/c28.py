"""C28: a rectangle with a file of lines is a cell complex cut exactly at the meeting points."""
import contextlib
import io
import os
import shutil
import tempfile

import numpy as np

from ..harness import Unit, Bounded
from .c09 import Stub
from .c12 import arr
from ..sym import Sym, lift
from .c25 import same_value
from .common import *

PID = "C28"
IMPORTS = ["topology.shape_manipulation", "topology.domain_market", "topology.domain", "topology.vertex", "topology.edge", "topology.wire", "topology.face", "topology.shape"]
S = "topology.shape_manipulation."
D = "topology.domain.Domain."
M = "topology.domain_market."


# ---------------------------------------------------------------------------------------------------------
# the statement on a finished domain


def reachable(shape, out=None):
    out = {} if out is None else out
    if id(shape) not in out:
        out[id(shape)] = shape
        for s in list(shape.boundary_shapes) + list(shape._immersed_shapes):
            reachable(s, out)
    return out


def related(shape, out=None):
    """which shape bounds or lies in which, from `shape` on; a wire consists of the fragments of its divided sides"""
    out = set() if out is None else out
    for x in list(shape.boundary_shapes) + list(shape.immersed_shapes):
        if (shape.index(2), x.index(2)) not in out:
            out.add((shape.index(2), x.index(2)))
            related(x, out)
    return out


def meeting_points(L):
    """common points of the segments L (n, 2, 3) in the plane z = const, with the segments through each (exact oracle with a margin)"""
    pts = []
    for i in range(len(L)):
        for j in range(i + 1, len(L)):
            a, b = L[i][:, :2]
            p, q = L[j][:, :2]
            r, s = b - a, q - p
            den = r[0] * s[1] - r[1] * s[0]
            if abs(den) < 1e-12:
                continue
            w = p - a
            t = (w[0] * s[1] - w[1] * s[0]) / den
            u = (w[0] * r[1] - w[1] * r[0]) / den
            if -1e-9 <= t <= 1 + 1e-9 and -1e-9 <= u <= 1 + 1e-9:
                x = L[i][0] + t * (L[i][1] - L[i][0])
                for y, who in pts:
                    if np.max(np.abs(x - y)) < 1e-7:
                        who.update((i, j))
                        break
                else:
                    pts.append((x, {i, j}))
    return pts


def check_domain(d, box, lines, tags):
    n = len(lines)
    face = d.shapes[2][0]
    assert len(d.shapes[2]) == 1 and face.physical_tag == tags["area"], "the rectangle is one face with its physical tag"
    assert len(face.boundary_shapes) == 1 and face.boundary_shapes[0].composite, "the face is bounded by one wire"
    wire = face.boundary_shapes[0]
    sides = list(wire._immersed_shapes)
    inner = list(face.immersed_shapes)
    assert len(sides) == 4 and len(inner) == n, "the wire holds the four sides and the face every line of the file"
    objects = sides + inner
    for k, e in enumerate(sides):
        assert e.physical_tag == tags.get("bc_%d" % k), "every side keeps its physical tag"
    first = max(v for v in tags.values())
    assert [e.physical_tag for e in inner] == [first + 1 + k for k in range(n)], "every line has its own physical tag, in the order of the file"
    # listed shapes
    seen = reachable(face)
    listed = {id(s): s for k in range(3) for s in d.shapes[k]}
    assert set(seen) == set(listed) and sum(len(d.shapes[k]) for k in range(3)) == len(listed), "the domain lists exactly the shapes of the face, each once"
    assert all(s.dimension == k for k in range(3) for s in d.shapes[k]), "every shape is listed in its dimension"
    for k in range(3):
        t = [s.tag for s in d.shapes[k]]
        assert len(set(t)) == len(t), "shapes of the same dimension have different tags (dimension %d)" % k
    # graph
    want = related(face)
    assert set(d.graph.edges()) == want, "the graph states exactly which shapes bound or lie in another"
    # geometry
    segs = [np.array([box[k], box[(k + 1) % 4]]) for k in range(4)] + [np.array(l) for l in lines]
    corners = []
    for s in segs:
        for x in s:
            if not any(np.max(np.abs(x - y)) < 1e-7 for y in corners):
                corners.append(x)
    meets = meeting_points(segs)
    places = list(corners)
    for x, who in meets:
        if not any(np.max(np.abs(x - y)) < 1e-7 for y in places):
            places.append(x)
    pts = [v.point for v in d.shapes[0]]
    assert len(pts) == len(places) and all(any(np.max(np.abs(np.array(p) - y)) < 1e-6 for p in pts) for y in places), "the vertices are exactly the corners, the ends of the lines and the common points, each once"
    for e, s in zip(objects, segs):
        ends = [np.array(v.point) for v in e.boundary_shapes]
        flip = max(np.max(np.abs(ends[0] - s[0])), np.max(np.abs(ends[1] - s[1]))) > 1e-6
        assert not flip or max(np.max(np.abs(ends[0] - s[1])), np.max(np.abs(ends[1] - s[0]))) < 1e-6, "a side or line keeps its ends"
        on = sorted(np.dot(y - s[0], s[1] - s[0]) / np.dot(s[1] - s[0], s[1] - s[0]) for y in places if distance(y, s) < 1e-7)
        frags = list(e.immersed_shapes)
        if len(on) == 2:
            assert frags == [], "a side or line that meets nothing inside is not divided"
            continue
        assert len(frags) == len(on) - 1, "a divided side or line has one fragment between consecutive vertices"
        par = []
        for f in frags:
            assert len(f.immersed_shapes) == 0 and len(f.boundary_shapes) == 2
            par.append(sorted(float(np.dot(np.array(v.point) - s[0], s[1] - s[0]) / np.dot(s[1] - s[0], s[1] - s[0])) for v in f.boundary_shapes))
            assert all(distance(np.array(v.point), s) < 1e-6 for v in f.boundary_shapes), "fragments lie on their line"
        order = par if par[0][0] < 0.5 * (par[-1][0] + par[-1][1]) else par[::-1]
        assert all(abs(order[k][0] - on[k]) < 1e-6 and abs(order[k][1] - on[k + 1]) < 1e-6 for k in range(len(order))), "fragments follow one another from end to end"
        for f, g in zip(frags, frags[1:]):
            assert len({id(v) for v in f.boundary_shapes} & {id(v) for v in g.boundary_shapes}) == 1, "consecutive fragments share their vertex"
    # one vertex object per place
    assert len({tuple(np.round(np.array(s.point), 6) + 0.0) for s in seen.values() if s.dimension == 0}) == len([1 for s in seen.values() if s.dimension == 0]), "lines that meet share the vertex"
    # wire
    loop = list(wire.immersed_shapes)
    assert len(wire.orientation) == len(loop), "the wire has an orientation per fragment"
    head = [f.boundary_shapes[1] if o > 0 else f.boundary_shapes[0] for f, o in zip(loop, wire.orientation)]
    tail = [f.boundary_shapes[0] if o > 0 else f.boundary_shapes[1] for f, o in zip(loop, wire.orientation)]
    step = {id(t): h for t, h in zip(tail, head)}
    assert len(step) == len(loop) and {id(h) for h in head} == set(step), "the oriented fragments enter and leave every vertex of the boundary once"
    at, count = tail[0], 0
    while count < len(loop) and (count == 0 or at is not tail[0]):
        at, count = step[id(at)], count + 1
    assert count == len(loop) and at is tail[0], "the oriented fragments of the sides go round the rectangle once"
    assert len(wire.boundary_shapes) >= 1 and all(any(v is t for t in tail) for v in wire.boundary_shapes), "the wire starts at one of its vertices"


def distance(x, s):
    d = s[1] - s[0]
    t = min(1.0, max(0.0, float(np.dot(x - s[0], d) / np.dot(d, d))))
    return float(np.max(np.abs(s[0] + t * d - x)))


def spread(box, L):
    """general position: distinct places of the network are well apart and nothing nearly touches"""
    segs = [np.array([box[k], box[(k + 1) % 4]]) for k in range(4)] + [np.array(l) for l in L]
    places = []
    for s in segs:
        places += [x for x in s]
    places += [x for x, _ in meeting_points(segs)]
    scale = np.max(np.abs(np.array(box[2]) - np.array(box[0])))
    for i, x in enumerate(places):
        for y in places[:i]:
            if 1e-9 < np.max(np.abs(x - y)) < 0.02 * scale:
                return False
        for s in segs:
            if 1e-9 < distance(x, s) < 0.02 * scale:
                return False
    for i in range(len(segs)):
        for j in range(i):
            r, t = segs[i][1] - segs[i][0], segs[j][1] - segs[j][0]
            if abs(r[0] * t[1] - r[1] * t[0]) < 0.05 * np.linalg.norm(r) * np.linalg.norm(t):
                # nearly parallel: only if they are apart
                if min(distance(segs[i][0], segs[j]), distance(segs[i][1], segs[j]), distance(segs[j][0], segs[i]), distance(segs[j][1], segs[i])) < 0.02 * scale:
                    return False
    return True


def network(rng, box, kinds):
    """random lines in the closed rectangle; each end is free, or on a side, on an earlier line or at the end of one"""
    lo, hi = box[0], box[2]
    at = lambda u, v: np.array([lo[0] + u * (hi[0] - lo[0]), lo[1] + v * (hi[1] - lo[1]), lo[2]])
    for _ in range(400):
        L = []
        for k in range(int(rng.integers(1, 7))):
            ends = []
            for _e in range(2):
                kind = kinds[int(rng.integers(len(kinds)))]
                if kind == "side":
                    w, t = int(rng.integers(4)), rng.uniform(0.05, 0.95)
                    ends.append([at(t, 0), at(1, t), at(t, 1), at(0, t)][w])
                elif kind == "tee" and L:
                    s = L[int(rng.integers(len(L)))]
                    ends.append(s[0] + rng.uniform(0.1, 0.9) * (s[1] - s[0]))
                elif kind == "end" and L:
                    ends.append(L[int(rng.integers(len(L)))][int(rng.integers(2))].copy())
                else:
                    ends.append(at(*rng.uniform(0.05, 0.95, 2)))
            if np.max(np.abs(ends[0] - ends[1])) < 0.1 * np.max(np.abs(hi - lo)):
                continue
            L.append(np.array(ends))
            if not spread(box, L):
                L.pop()
        if L:
            return np.array(L)
    return None


def build(box, lines, tags, where):
    import topology.domain_market as m

    name = os.path.join(where, "lines.csv")
    with open(name, "w") as f:
        f.write("\n".join(",".join(repr(float(x)) for x in np.ravel(l)) for l in lines) + "\n")
    with contextlib.redirect_stdout(io.StringIO()):
        return m.build_box_2D_with_lines(np.array(box), name, None if tags is None else dict(tags))


def bounded_networks(B):
    where = tempfile.mkdtemp(prefix="c28_")
    try:
        while B.more():
            B.evaluations += 1
            rng = B.nrng
            lo = np.array([rng.uniform(-2, 2), rng.uniform(-2, 2), rng.choice([0.0, 0.75])])
            box = np.array([lo, lo, lo, lo])
            w, h = rng.uniform(0.5, 3, 2)
            box[1:3, 0] += w
            box[2:, 1] += h
            kinds = [["free"], ["free", "side"], ["free", "side", "tee"], ["free", "end"], ["free", "side", "tee", "end"]][int(rng.integers(5))]
            lines = network(rng, box, kinds)
            if lines is None:
                continue
            if rng.random() < 0.4:  # any direction in the plane
                w = rng.uniform(0, 2 * np.pi)
                Q = np.array([[np.cos(w), np.sin(w), 0], [-np.sin(w), np.cos(w), 0], [0, 0, 1.0]])
                box, lines = box @ Q, lines @ Q
            tags = None if rng.random() < 0.5 else dict(zip(["area", "bc_0", "bc_1", "bc_2", "bc_3"], (rng.permutation(20)[:5] + 1).tolist()))

            def run():
                d = build(box, lines, tags, where)
                check_domain(d, box, lines, tags or {"area": 1, "bc_0": 2, "bc_1": 3, "bc_2": 4, "bc_3": 5})

            B.case("network", dict(box=box.tolist(), lines=lines.tolist(), tags=tags), run)
    finally:
        shutil.rmtree(where, ignore_errors=True)



# ---------------------------------------------------------------------------------------------------------
# one edge and the vertices to embed


def unit_embed(n, rest):
    """n vertices along an edge: inside it (in any order), at its ends or beyond its far end, the last one possibly given twice"""

    def fn(E):
        import topology.shape_manipulation as m
        from topology.edge import Edge
        from topology.vertex import Vertex

        a = E.vec("a", 3, lo=-5, hi=5)
        d = E.vec("d", 3, lo=-5, hi=5, gen=lambda r: r.choice([-1, 1]) * r.uniform(0.5, 3))
        if E.symbolic:
            E.assume([E.or_(d[0] >= 0.5, d[0] <= -0.5)])
        b = a + d
        L = E.norm(d)
        E.assume(L > 0.4)
        kinds = [E.choice("kind %d" % k, ["inside"] + rest) for k in range(n)]
        if kinds.count("first") > 1 or kinds.count("last") > 1:
            E.assume(False)
        twice = E.choice("twice", [False, True])
        swap = E.choice("ends listed", [0, 1])
        t, pts = [], []
        for k, kind in enumerate(kinds):
            if kind == "inside":
                x = E.real("t%d" % k, gen=lambda r: r.uniform(0.05, 0.95))
                E.assume([x >= 0.01, x <= 0.99])
            elif kind == "beyond":
                x = E.real("t%d" % k, gen=lambda r: r.uniform(1.05, 3))
                E.assume([x >= 1.01, x <= 4])
            else:
                x = 0 if kind == "first" else 1
            t.append(x)
            pts.append(a + d * x)
            if kind in ("inside", "beyond"):
                E.assume(E.eq(E.norm(pts[-1] - a), x * L))  # contract of the norm
        for k in range(n):
            for l in range(k):
                E.assume(E.or_(t[k] - t[l] >= 0.005, t[l] - t[k] >= 0.005))
        E.cover()
        ends = [Vertex(3, a.copy()), Vertex(4, b.copy())]
        e = Edge(7, arr([ends[swap], ends[1 - swap]]))
        V = [Vertex(20 + 3 * k, pts[k].copy()) for k in range(n)]
        given = V + ([V[-1]] if twice else [])
        shift = E.choice("shift", [0, 11])
        out = m.embed_vertex_in_edge(arr(given), e, tag_shift=shift)
        inside = [k for k in range(n) if kinds[k] == "inside"]
        E.prove("exactly the vertices inside the edge are returned, each once", len(out) == len(inside) and all(any(v is V[k] for v in out) for k in inside))
        first = V[kinds.index("first")] if "first" in kinds else ends[0]
        last = V[kinds.index("last")] if "last" in kinds else ends[1]
        E.prove("a vertex at an end of the edge becomes that end and the other ends stay", len(e.boundary_shapes) == 2 and e.boundary_shapes[0] is first and e.boundary_shapes[1] is last)
        for k in range(n):
            E.prove_eq("no vertex is moved", np.asarray(V[k].point, dtype=object), pts[k])
        E.prove_eq("the first end is not moved", np.asarray(ends[0].point, dtype=object), a)
        E.prove_eq("the second end is not moved", np.asarray(ends[1].point, dtype=object), b)
        fr = list(e.immersed_shapes)
        if not inside:
            E.prove("an edge without inner vertices is not divided", fr == [])
            return
        E.prove("one fragment more than inner vertices", len(fr) == len(inside) + 1)
        E.prove("consecutive tags from the requested one", [f.tag for f in fr] == [shift + k for k in range(len(fr))])
        chain = [first]
        for f in fr:
            nxt = [v for v in f.boundary_shapes if v is not chain[-1]]
            E.prove("every fragment starts where the previous one ends", len(f.boundary_shapes) == 2 and len(nxt) == 1 and len(f.immersed_shapes) == 0)
            chain.append(nxt[0])
        E.prove("the chain of fragments goes from the first end to the last through every inner vertex", chain[-1] is last and len(chain) == len(inside) + 2 and all(any(v is V[k] for k in inside) for v in chain[1:-1]))
        par = [t[[v is w for w in V].index(True)] for v in chain[1:-1]]
        E.prove("in the order along the edge", E.conj([x < y for x, y in zip(par, par[1:])]) if len(par) > 1 else True)

    return fn


def unit_boundary(E):
    """point_on_edge_boundary: the end at the point (within the tolerance), None away from the ends"""
    import topology.shape_manipulation as m
    from topology.edge import Edge
    from topology.vertex import Vertex

    p, q = E.vec("p", 3, lo=-5, hi=5), E.vec("q", 3, lo=-5, hi=5)
    case = E.choice("case", ["first", "second", "away"])
    far = lambda u, v: E.disj([c for k in range(3) for c in (u[k] - v[k] >= 1e-3, v[k] - u[k] >= 1e-3)])
    E.assume(far(p, q))
    x = {"first": p, "second": q}[case].copy() if case != "away" else E.vec("x", 3, lo=-5, hi=5)
    if case == "away":
        E.assume([far(x, p), far(x, q)])
    E.cover()
    u, v = Vertex(1, p), Vertex(2, q)
    e = Edge(5, arr([u, v]))
    out = m.point_on_edge_boundary(x, e)
    E.prove("the end at the point, or none", out is {"first": u, "second": v, "away": None}[case])
    w = Vertex(9, x)
    m.embed_vertex_in_edge_boundary(w, e)
    want = {"first": (w, v), "second": (u, w), "away": (u, v)}[case]
    E.prove("exactly the end at the place of the vertex is replaced", len(e.boundary_shapes) == 2 and e.boundary_shapes[0] is want[0] and e.boundary_shapes[1] is want[1])


# ---------------------------------------------------------------------------------------------------------
# a list of edges over the contracts of the crossing and of the embedding


def unit_intersect(n, wire_at):
    """n edges, each pair meeting or not (at a point of its own or at the point of an earlier pair); the lists also hold a wire"""

    def fn(E):
        import topology.shape_manipulation as m
        from topology.edge import Edge
        from topology.vertex import Vertex
        from topology.wire import Wire

        pairs = [(i, j) for i in range(n) for j in range(i + 1, n)]
        meet = {}
        P = []
        for ij in pairs:
            c = E.choice("meet %d%d" % ij, ["no", "new"] + list(range(len(P))))
            if c == "no":
                continue
            if c == "new":
                x = E.vec("x%d%d" % ij, 3, lo=-10, hi=10)
                for y in P:
                    E.assume(E.disj([z for k in range(3) for z in (x[k] - y[k] >= 0.01, y[k] - x[k] >= 0.01)]))
                P.append(x)
                c = len(P) - 1
            meet[ij] = c
        joined = E.choice("joined", [False, True])  # the first and the second edge share a vertex at their common point
        if joined and (0, 1) not in meet:
            E.assume(False)
        E.cover()
        V = [[Vertex(10 * i + k, np.array([100.0 + 7 * i, 50.0 * k, 3.0 * i])) for k in range(2)] for i in range(n)]
        if joined:
            V[1][0] = V[0][1]
            V[0][1].point = P[meet[(0, 1)]].copy()
        edges = [Edge(60 + i, arr(v)) for i, v in enumerate(V)]
        extra = [Edge(90, arr([Vertex(91, np.array([200.0, 0, 0])), Vertex(92, np.array([201.0, 0, 0]))]))]
        shapes = list(edges)
        shapes.insert(wire_at, Wire(95, arr(extra), extra[0].boundary_shapes[:1]))
        axis = E.choice("axis", [0, 1, 2])
        at = {}

        def which(a, b):
            for s in (0, 1e-12):  # the edge, perhaps lengthened by the intersector's tolerance
                for i, e in enumerate(list(edges) + list(extra)):
                    x, y = (v.point for v in e.boundary_shapes)
                    if s and E.symbolic:
                        ends = (x - s * (y - x), y + s * (y - x))
                    else:
                        ends = (x, y)
                    if all(len(u) == 3 and all((same_value(c, w) or bool(s) and E._identity(lift(c), lift(w))) if E.symbolic else abs(c - w) < 1e-9 for c, w in zip(u, v)) for u, v in zip((a, b), ends)):
                        return i if i < len(edges) else None
            raise Unsupported("segment of no edge")

        want_pos = {0: [1, 2], 1: [0, 2], 2: [0, 1]}[axis]

        class Fake:
            eps = 1e-12

            def line_line_intersection(self, a, b, p, q, pos, render=False):
                i, j = which(a, b), which(p, q)
                at.setdefault("pos", []).append(list(pos) == want_pos)
                c = None if i is None or j is None else meet.get((min(i, j), max(i, j)))
                return (False, np.array, np.array) if c is None else (True, P[c].copy(), np.array)

        calls = []
        sizes = E.choice("fragments", [(2, 3, 4), (0, 2, 3), (3, 0, 0)])

        def embed(vertices, edge, tag_shift=0):
            calls.append((list(vertices), edge, tag_shift))
            k = [e is edge for e in edges].index(True)
            edge.immersed_shapes = arr([Edge(tag_shift + s, edge.boundary_shapes) for s in range(sizes[k])]) if sizes[k] else edge.immersed_shapes
            return vertices

        E.contract("line_line_intersection (C21)")
        E.contract("embed_vertex_in_edge (units 'embedding')")
        with Stub(m, embed_vertex_in_edge=embed, tt_intersector=NS(TriangleTriangleIntersectionTest=Fake)):
            frag, vert = m.intersect_edges(arr(shapes), arr(shapes), axis=axis, e_tag_shift=30, v_tag_shift=400, p_tag_shift=70)
        E.prove("segments are crossed in the requested plane", all(at.get("pos", [True])))
        real = {ij: c for ij, c in meet.items() if not (joined and ij == (0, 1))}
        used = sorted(set(real.values()))
        E.prove("one new vertex per meeting point", len(vert) == len(used))
        place = {}
        for v in vert:
            hits = [c for c in used if bool(E.conj([E.eq(v.point[k], P[c][k]) for k in range(3)]))]
            E.prove("a new vertex lies at a meeting point", len(hits) == 1)
            place[hits[0]] = v
        E.prove("every meeting point has its vertex", sorted(place) == used)
        E.prove("new vertices have consecutive tags", sorted(v.tag for v in vert) == [400 + k for k in range(len(used))])
        E.prove("new vertices have their own physical tags", sorted(v.physical_tag for v in vert) == [71 + k for k in range(len(used))])
        order = [i for i in range(n) if any(i in ij for ij in real)]
        if order and not calls:
            raise Unsupported("intersect_edges does not use embed_vertex_in_edge")
        E.prove("exactly the edges that meet another are divided, in order", [[e is c[1] for e in edges].index(True) for c in calls] == order)
        tag, all_frag = 30, []
        for (vs, edge, shift), i in zip(calls, order):
            want = {id(place[c]) for ij, c in real.items() if i in ij}
            E.prove("an edge receives the vertices of its own meeting points", {id(v) for v in vs} == want)
            E.prove("the fragments of an edge are numbered after those of the edges before", shift >= tag)
            tag = shift + sizes[i] if sizes[i] else tag
            all_frag += list(edge.immersed_shapes)
        E.prove("all fragments are returned", len(frag) == len(all_frag) and all(x is y for x, y in zip(frag, all_frag)))

    return fn


# ---------------------------------------------------------------------------------------------------------
# tags and orientation


def unit_wire(n):
    """a closed loop whose edges are listed in any order after the first two: the orientation goes round once"""

    def fn(E):
        import itertools

        from topology.edge import Edge
        from topology.vertex import Vertex
        from topology.wire import Wire

        tags = E.choice("tags", list(itertools.permutations(range(n))))
        rest = E.choice("listing", list(itertools.permutations(range(2, n))))
        divided = E.choice("divided", [False, True])  # the listed edges are the fragments of two sides
        E.cover()
        pts = [E.vec("p%d" % k, 3) for k in range(n)]
        for k in range(n):
            for l in range(k):
                E.assume(E.or_(pts[k][0] - pts[l][0] >= 0.1, pts[l][0] - pts[k][0] >= 0.1))
        V = [Vertex(tags[k] + 5, pts[k]) for k in range(n)]
        edges = [Edge(30 + k, arr([V[k], V[(k + 1) % n]])) for k in range(n)]
        order = [0, 1] + list(rest)
        loop = [edges[k] for k in order]
        if divided:
            side = Edge(70, arr([V[2], V[0]]))
            side.immersed_shapes = arr(loop[2:])
            w = Wire(80, arr(loop[:2] + [side]), arr([V[0]]))
        else:
            w = Wire(80, arr(loop), arr([V[0]]))
        E.prove("the wire consists of the undivided edges and the fragments of the divided ones", [id(x) for x in w.immersed_shapes] == [id(x) for x in loop])
        E.prove("one sign per edge", len(w.orientation) == n and all(int(o) in (1, -1) for o in w.orientation))
        want = [1 if edges[k].boundary_shapes[0] is V[k] else -1 for k in order]
        got = [int(o) for o in w.orientation]
        E.prove("the oriented edges go round the loop once", got == want or got == [-x for x in want])
        w.orient_immersed_edges()
        E.prove("orienting again changes nothing", [int(o) for o in w.orientation] == got)

    return fn


def sample_domain(E, lines, cut):
    """a rectangle with `lines` lines, the k-th divided into cut[k] fragments, and vertices that are no longer used"""
    from topology.domain import Domain
    from topology.edge import Edge
    from topology.face import Face
    from topology.vertex import Vertex
    from topology.wire import Wire

    d = Domain(dimension=2)
    V = [Vertex(k, np.array([float(k), float(k * k), 0.0])) for k in range(4)]
    sides = [Edge(k, arr([V[k], V[(k + 1) % 4]])) for k in range(4)]
    wire = Wire(4, arr(sides), arr([V[0]]))
    face = Face(0, arr([wire]))
    L = []
    for k in range(lines):
        V += [Vertex(4 + 2 * k + j, np.array([10.0 + k, 20.0 + j, 0.0])) for j in range(2)]
        L.append(Edge(5 + k, arr(V[-2:])))
    tag, frag = 5 + lines, []
    nv = len(V)
    for e, c in zip(sides[3:] + L, cut):
        if not c:
            continue
        ends = list(e.boundary_shapes)
        new = [Vertex(nv + k, np.array([30.0 + nv + k, 0.0, 0.0])) for k in range(c - 1)]
        nv += c - 1
        ch = ends[:1] + new + ends[1:]
        fs = [Edge(tag + k, arr([ch[k], ch[k + 1]])) for k in range(c)]
        tag += c
        e.immersed_shapes = arr(fs)
        frag += fs
        V += new
    unused = [Vertex(nv + k, np.array([60.0 + k, 1.0, 2.0])) for k in range(2)]
    d.append_shapes(arr(V[:5] + unused[:1] + V[5:] + unused[1:]))
    d.append_shapes(arr(sides + [wire]))
    if L:
        d.append_shapes(arr(L))
        face.immersed_shapes = arr(L)
    if frag:
        d.append_shapes(arr(frag))
    d.append_shapes(arr([face]))
    return d, V, unused, sides, L, frag, wire, face


def unit_tags(lines):
    """remove_vertex, retag_shapes, build_grahp, lookup_vertex and max_tag on a rectangle with lines"""

    def fn(E):
        cut = [E.choice("fragments %d" % k, [0, 2, 3]) for k in range(min(lines + 1, 3))]
        E.cover()
        d, V, unused, sides, L, frag, wire, face = sample_domain(E, lines, cut)
        d.build_grahp()
        E.prove("the graph states exactly which shapes bound or lie in another", set(d.graph.edges()) == related(face))
        E.prove("the greatest tag", d.max_tag() == max(s.tag for k in range(3) for s in d.shapes[k]))
        d.remove_vertex()
        E.prove("exactly the vertices that bound nothing are removed", [id(v) for v in d.shapes[0]] == [id(v) for v in V])
        before = [[(id(s), [id(b) for b in s.boundary_shapes], [id(b) for b in s.immersed_shapes]) for s in d.shapes[k]] for k in range(3)]
        d.retag_shapes()
        for k in range(3):
            t = [s.tag for s in d.shapes[k]]
            E.prove("different shapes of a dimension have different tags", len(set(t)) == len(t) and all(x >= 0 for x in t))
        after = [[(id(s), [id(b) for b in s.boundary_shapes], [id(b) for b in s.immersed_shapes]) for s in d.shapes[k]] for k in range(3)]
        E.prove("nothing but the tags is changed", before == after)
        E.prove("vertices are numbered consecutively", [v.tag for v in d.shapes[0]] == list(range(len(V))))
        d.build_grahp()
        E.prove("the graph of the numbered shapes is exact", set(d.graph.edges()) == related(face))
        E.prove("a vertex is found at its place and nowhere else", all(d.lookup_vertex(np.array(v.point)) is v for v in V) and d.lookup_vertex(np.array([9.0, 9.0, 9.0])) is None)

    return fn


def unit_build(n):
    """build_box_2D_with_lines hands the shapes, tags and shifts on and lists everything, over the contract of intersect_edges"""

    def fn(E):
        import topology.domain_market as m
        from topology.edge import Edge
        from topology.vertex import Vertex

        box = np.array([[0.0, 0, 0], [4, 0, 0], [4, 3, 0], [0, 3, 0]])
        own = E.choice("tags", [None, {"area": 9, "bc_0": 3, "bc_1": 3, "bc_2": 17, "bc_3": 5}])
        lines = E.arr("lines", (n, 2, 3), gen=lambda r: r.uniform(0.2, 2.8))
        E.cover()
        tags = own or {"area": 1, "bc_0": 2, "bc_1": 3, "bc_2": 4, "bc_3": 5}
        rec = {}

        def cross(edges_obj, edges_tool, axis=2, e_tag_shift=0, v_tag_shift=0, p_tag_shift=0, render_intersection_q=False):
            assert "obj" not in rec
            rec.update(obj=list(edges_obj), tool=list(edges_tool), axis=axis, e=e_tag_shift, v=v_tag_shift, p=p_tag_shift)
            # a vertex that divides the first line and the last side
            x = Vertex(v_tag_shift, np.array([0.0, 1.5, 0.0]))
            fr, t = [], e_tag_shift
            for s in (rec["obj"][3], rec["obj"][5]):
                u, v = s.boundary_shapes
                s.immersed_shapes = arr([Edge(t, arr([u, x])), Edge(t + 1, arr([x, v]))])
                fr += list(s.immersed_shapes)
                t += 2
            return arr(fr), arr([x])

        E.contract("intersect_edges (units 'meeting edges')")
        with Stub(m, read_fractures_file=lambda k, name: lines if (k, name) == (2, "the file") else None, intersect_edges=cross):
            d = m.build_box_2D_with_lines(box, "the file", None if own is None else dict(own))
        if "obj" not in rec:
            raise Unsupported("build_box_2D_with_lines does not use intersect_edges")
        face = d.shapes[2][0]
        wire = face.boundary_shapes[0]
        sides, inner = list(wire._immersed_shapes), list(face.immersed_shapes)
        E.prove("four sides and every line", len(sides) == 4 and len(inner) == n and len(d.shapes[2]) == 1)
        E.prove("sides and lines are crossed with one another", [id(x) for x in rec["obj"]] == [id(x) for x in rec["tool"]] and [id(x) for x in rec["obj"]] == [id(x) for x in sides + [wire] + inner] and rec["axis"] == 2)
        E.prove("new tags start after those in use", rec["e"] >= 5 + n and rec["v"] >= 4 + 2 * n and rec["p"] >= max(tags.values()) + n)
        E.prove("physical tags", face.physical_tag == tags["area"] and [s.physical_tag for s in sides] == [tags["bc_%d" % k] for k in range(4)] and [s.physical_tag for s in inner] == [max(tags.values()) + 1 + k for k in range(n)])
        for k in range(n):
            for j in range(2):
                E.prove_eq("a line joins the points of the file", np.asarray(inner[k].boundary_shapes[j].point, dtype=object), lines[k, j])
        for k in range(4):
            ends = {tuple(float(z) for z in v.point) for v in sides[k].boundary_shapes}
            E.prove("the sides join the corners", ends == {tuple(box[k]), tuple(box[(k + 1) % 4])})
        seen = reachable(face)
        listed = [s for k in range(3) for s in d.shapes[k]]
        E.prove("the domain lists exactly the shapes of the face", len(listed) == len(seen) and set(map(id, listed)) == set(seen) and all(s.dimension == k for k in range(3) for s in d.shapes[k]))
        for k in range(3):
            t = [s.tag for s in d.shapes[k]]
            E.prove("different shapes of a dimension have different tags", len(set(t)) == len(t))
        E.prove("the graph states exactly which shapes bound or lie in another", set(d.graph.edges()) == related(face))
        loop = list(wire.immersed_shapes)
        head = [f.boundary_shapes[1] if o > 0 else f.boundary_shapes[0] for f, o in zip(loop, wire.orientation)]
        tail = [f.boundary_shapes[0] if o > 0 else f.boundary_shapes[1] for f, o in zip(loop, wire.orientation)]
        E.prove("the wire is oriented with the fragments", len(loop) == 5 == len(wire.orientation) and len({id(h) for h in head}) == 5 and {id(h) for h in head} == {id(t) for t in tail})

    return fn


UNITS = []
for n in (1, 2):
    UNITS.append(Unit("embedding of %d vertices" % n, unit_embed(n, ["first", "last", "beyond"]), [S + "embed_vertex_in_edge", S + "embed_vertex_in_edge_boundary", S + "point_on_edge_boundary", "topology.edge.Edge.__init__"], kind="bounded-size", bounds="%d vertices" % n, samples=60, tol=1e-9, timeout=150))
UNITS.append(Unit("embedding of 3 vertices", unit_embed(3, ["last"]), [S + "embed_vertex_in_edge"], kind="bounded-size", bounds="3 vertices", samples=60, tol=1e-9, timeout=200))
UNITS.append(Unit("ends of an edge", unit_boundary, [S + "point_on_edge_boundary", S + "embed_vertex_in_edge_boundary"], samples=150))
for n, w in ((2, 0), (3, 1)):
    UNITS.append(Unit("meeting edges: %d" % n, unit_intersect(n, w), [S + "intersect_edges"], kind="bounded-size", bounds="%d edges and a wire" % n, samples=60, timeout=200))
for n in (3, 4, 5):
    UNITS.append(Unit("orientation of a wire of %d edges" % n, unit_wire(n), ["topology.wire.Wire.orient_immersed_edges", "topology.wire.Wire.seed_vertex", "topology.wire.Wire.immersed_shapes"], kind="bounded-size", bounds="%d edges" % n, samples=40, timeout=200))
for n in (0, 1, 2, 5):
    UNITS.append(Unit("tags with %d lines" % n, unit_tags(n), [D + "retag_shapes", D + "retag_shapes_with_dimension", D + "remove_vertex", D + "build_grahp", D + "gather_graph_edges", D + "lookup_vertex", D + "max_tag"], kind="bounded-size", bounds="%d lines, <= 3 fragments" % n, samples=20, timeout=60))
for n in (1, 2, 5):
    UNITS.append(Unit("rectangle with %d lines" % n, unit_build(n), [M + "build_box_2D_with_lines", M + "build_disjoint_lines", M + "build_box_2D", S + "embed_edge_in_face", D + "refresh_wires", D + "append_shapes", D + "max_physical_tag"], kind="bounded-size", bounds="%d lines, one meeting point" % n, samples=20, timeout=100))
FUNS = [M + "build_box_2D_with_lines", M + "build_disjoint_lines", M + "read_fractures_file", S + "intersect_edges", S + "embed_vertex_in_edge", D + "retag_shapes", D + "refresh_wires"]
BOUNDED = [Bounded("networks", bounded_networks, FUNS, "random rectangles with one to six lines with ends inside, on sides, on other lines and at their ends", budget=40)]
