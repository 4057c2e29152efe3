"""C19: wires are oriented head to tail; domains are built and transferred tag-true."""
import numpy as np

from ..harness import Unit, Bounded
from .common import *
from .c09 import Stub
from .c12 import arr

PID = "C19"
TOPO = ["topology.shape", "topology.vertex", "topology.edge", "topology.wire", "topology.face", "topology.shell", "topology.solid", "topology.domain"]
IMPORTS = TOPO + ["topology.domain_market", "geometry.geometry_builder", "mesh.discrete_domain", "mesh.conformal_mesher"]
MODS = list(IMPORTS)
IMPORTS = IMPORTS + ["geometry.fracture_network"]
W = "topology.wire.Wire."


def same(E, p, q):
    return E.conj([E.eq(p[k], q[k]) for k in range(3)])


def vertices(E, n, name="v"):
    """vertices with pairwise distinct symbolic tags"""
    from topology.vertex import Vertex

    base = [0]

    def gen(r):
        base[0] += 1
        return r.randint(0, 40) * 100 + base[0]

    tags = [E.int("%s_t%d" % (name, i), lo=0, gen=gen) for i in range(n)]
    for i in range(n):
        for j in range(i):
            E.assume(E.not_(E.eq(tags[i], tags[j])))
    return [Vertex(tags[i], E.vec("%s_p%d" % (name, i), 3, lo=-1000, hi=1000)) for i in range(n)]


def ends(edge, sign):
    a, b = edge.boundary_shapes[0], edge.boundary_shapes[1]
    return (a, b) if sign > 0 else (b, a)


def check_traversal(E, wire, edges, walk, closed):
    """walk: the vertices in the order the chain visits them; None: any consistent start from the lower tag"""
    signs = [int(s) for s in wire.orientation]
    E.prove("one sign per edge", len(signs) == len(edges) and all(s in (1, -1) for s in signs))
    got = list(wire.immersed_shapes)
    E.prove("the edges in the given order", len(got) == len(edges) and all(x is y for x, y in zip(got, edges)))
    pairs = [ends(e, s) for e, s in zip(edges, signs)]
    for i in range(len(pairs) - 1):
        E.prove("each edge starts where the previous one ends", pairs[i][1] is pairs[i + 1][0])
    if closed:
        E.prove("a closed chain returns to its start", pairs[-1][1] is pairs[0][0])
    if walk is not None:
        E.prove("the chain starts at the end the second edge does not share", pairs[0][0] is walk[0])
    else:
        E.prove("the chain starts at the lower tagged end", E.le(pairs[0][0].tag, pairs[0][1].tag))
    vs = list(wire.orient_immersed_vertices())
    E.prove("ordered vertices are the starts of the traversal", len(vs) == len(pairs) and all(v is p[0] for v, p in zip(vs, pairs)))
    bp = wire.boundary_points()
    E.prove("boundary points: one row per end", tuple(bp.shape) == (2, 3))
    E.prove("boundary points: start of the first and end of the last edge", E.and_(same(E, bp[0], pairs[0][0].point), same(E, bp[1], pairs[-1][1].point)))


def unit_chain(n, closed):
    def fn(E):
        from topology.edge import Edge
        from topology.wire import Wire

        vs = vertices(E, n if closed else n + 1)
        loop = vs + [vs[0]] if closed else vs
        edges = [Edge(50 + i, arr([loop[i], loop[i + 1]] if i % 2 else [loop[i + 1], loop[i]])) for i in range(n)]
        for i, e in enumerate(edges):
            E.prove("an edge lists its ends by tag", E.le(e.boundary_shapes[0].tag, e.boundary_shapes[1].tag))
        E.cover()
        w = Wire(90, arr(edges), arr([loop[0]] if closed else [loop[0], loop[-1]]))
        forced = n > 2 or (n == 2 and not closed)
        check_traversal(E, w, edges, loop if forced else None, closed)

    return fn


def unit_nested(E):
    """edges split into sub-edges count as their sub-edges; a retagging is followed by refresh_wires"""
    from topology.domain import Domain
    from topology.edge import Edge
    from topology.wire import Wire

    vs = vertices(E, 4)
    loop = [vs[0], vs[1], vs[2], vs[3], vs[0]]
    which = E.choice("split", ["first", "middle", "last", "two"])
    sub = [Edge(60 + i, arr([loop[i], loop[i + 1]])) for i in range(4)]
    groups = {"first": [[0, 1], [2], [3]], "middle": [[0], [1, 2], [3]], "last": [[0], [1], [2, 3]], "two": [[0, 1], [2, 3]]}[which]
    parents = []
    for k, g in enumerate(groups):
        if len(g) == 1:
            parents.append(sub[g[0]])
        else:
            p = Edge(80 + k, arr([loop[g[0]], loop[g[-1] + 1]]))
            p.immersed_shapes = arr([sub[i] for i in g])
            parents.append(p)
    E.cover()
    w = Wire(90, arr(parents), arr([loop[0]]))
    check_traversal(E, w, sub, loop, True)
    d = Domain(dimension=2)
    d.append_shapes(arr(sub + [w]))
    for i, v in enumerate(vs):
        v.tag = [7, 2, 9, 4][i]
    w.orientation = None
    d.refresh_wires()
    check_traversal(E, w, sub, loop, True)


def box_points(E, k, d):
    P = E.arr("x", (k, 3), gen=lambda r: r.uniform(-9, 9))
    for i in range(k):
        for j in range(i):
            E.assume(E.not_(same(E, P[i], P[j])))
    return P


TAGS = {
    1: {"line": 11, "bc_0": 5, "bc_1": 9},
    2: {"area": 21, "bc_0": 8, "bc_1": 3, "bc_2": 6, "bc_3": 4, "bc_4": 15, "bc_5": 17},
    3: {"solid": 31, "bc_0": 8, "bc_1": 3, "bc_2": 6, "bc_3": 4, "bc_4": 15, "bc_5": 17},
}
DEFAULT = {
    1: {"line": 1, "bc_0": 2, "bc_1": 3},
    2: {"area": 1, "bc_0": 2, "bc_1": 3, "bc_2": 4, "bc_3": 5},
    3: {"solid": 1, "bc_0": 2, "bc_1": 3, "bc_2": 4, "bc_3": 5, "bc_4": 6, "bc_5": 7},
}


def chosen_tags(E, d):
    mode = E.choice("tags", ["default", "given", "partial"])
    if mode == "default":
        return None, DEFAULT[d]
    t = dict(TAGS[d])
    if mode == "partial":
        del t["bc_1"], t[{1: "line", 2: "area", 3: "solid"}[d]]
    return t, t


def check_corners(E, dom, P):
    vs = list(dom.shapes[0])
    E.prove("each corner once", len(vs) == len(P) and len({v.tag for v in vs}) == len(P))
    for i, v in enumerate(vs):
        E.prove("corner coordinates as requested", same(E, v.point, P[i]))
    for d, shapes in enumerate(dom.shapes):
        E.prove("shapes in the slot of their dimension", all(s.dimension == d for s in shapes))
        tags = [s.tag for s in shapes]
        E.prove("unique tag per dimension", len(set(tags)) == len(tags))
        E.prove("each shape once", len({id(s) for s in shapes}) == len(tags))


def check_loop(E, dom, wire, cycle):
    """wire is a closed loop along the corner cycle (up to start and direction), made of the domain's edges"""
    edges, signs = list(wire.immersed_shapes), [int(s) for s in wire.orientation]
    E.prove("the loop uses edges of the domain", all(any(e is s for s in dom.shapes[1]) for e in edges) and len({id(e) for e in edges}) == len(edges))
    E.prove("one sign per edge of the loop", len(signs) == len(edges))
    pairs = [ends(e, s) for e, s in zip(edges, signs)]
    n = len(pairs)
    E.prove("closed loop", all(pairs[i][1] is pairs[(i + 1) % n][0] for i in range(n)))
    index = {id(v): i for i, v in enumerate(dom.shapes[0])}
    walk = [index.get(id(p[0])) for p in pairs]
    rots = [cycle[i:] + cycle[:i] for i in range(len(cycle))]
    E.prove("the loop visits exactly the requested corners in order", walk in rots or walk[::-1] in rots)
    vs = list(wire.orient_immersed_vertices())
    E.prove("ordered vertices follow the loop", len(vs) == n and all(v is p[0] for v, p in zip(vs, pairs)))


def graph_is_incidence(E, dom):
    d = len(dom.shapes) - 1
    want = set()

    def rec(s):
        for b in list(s.boundary_shapes) + list(s.immersed_shapes):
            want.add(((d - s.dimension, s.tag), (d - b.dimension, b.tag)))
            rec(b)

    for s in dom.shapes[d]:
        rec(s)
    E.prove("the graph is the incidence of the domain", set(dom.graph.edges()) == want)


def unit_box_1D(E):
    import topology.domain_market as m

    P = box_points(E, 2, 1)
    arg, want = chosen_tags(E, 1)
    E.cover()
    dom = m.build_box_1D(P, arg)
    E.prove("dimension", dom.dimension == 1 and len(dom.shapes) == 2)
    check_corners(E, dom, P)
    E.prove("one line between the corners", len(dom.shapes[1]) == 1 and {id(v) for v in dom.shapes[1][0].boundary_shapes} == {id(v) for v in dom.shapes[0]})
    E.prove("physical tags", [v.physical_tag for v in dom.shapes[0]] == [want.get("bc_0"), want.get("bc_1")] and dom.shapes[1][0].physical_tag == want.get("line"))
    graph_is_incidence(E, dom)


def unit_box_2D(E):
    import topology.domain_market as m

    k = E.choice("corners", [3, 4, 5, 6])
    P = box_points(E, k, 2)
    arg, want = chosen_tags(E, 2)
    E.cover()
    dom = m.build_box_2D(P, arg)
    E.prove("dimension", dom.dimension == 2 and len(dom.shapes) == 3)
    check_corners(E, dom, P)
    vs = list(dom.shapes[0])
    edges = [s for s in dom.shapes[1] if not s.composite]
    wires = [s for s in dom.shapes[1] if s.composite]
    E.prove("one edge per side", len(edges) == k and [{id(v) for v in e.boundary_shapes} for e in edges] == [{id(vs[i]), id(vs[(i + 1) % k])} for i in range(k)])
    E.prove("sides carry their physical tags", [e.physical_tag for e in edges] == [want.get("bc_%d" % i) for i in range(k)])
    E.prove("one wire, one face", len(wires) == 1 and len(dom.shapes[2]) == 1 and list(dom.shapes[2][0].boundary_shapes) == wires)
    E.prove("the face carries its physical tag", dom.shapes[2][0].physical_tag == want.get("area"))
    E.prove("the wire has every side once", {id(e) for e in wires[0].immersed_shapes} == {id(e) for e in edges} and len(wires[0].immersed_shapes) == k)
    check_loop(E, dom, wires[0], list(range(k)))
    graph_is_incidence(E, dom)


EDGES3 = [(0, 1), (1, 2), (2, 3), (0, 3), (4, 5), (5, 6), (6, 7), (4, 7), (0, 4), (1, 5), (2, 6), (3, 7)]
FACES3 = [[0, 1, 2, 3], [4, 5, 6, 7], [0, 1, 5, 4], [1, 2, 6, 5], [2, 3, 7, 6], [3, 0, 4, 7]]


def unit_box_3D(E):
    import topology.domain_market as m

    P = box_points(E, 8, 3)
    arg, want = chosen_tags(E, 3)
    E.cover()
    dom = m.build_box_3D(P, arg)
    E.prove("dimension", dom.dimension == 3 and len(dom.shapes) == 4)
    check_corners(E, dom, P)
    index = {id(v): i for i, v in enumerate(dom.shapes[0])}
    edges = [s for s in dom.shapes[1] if not s.composite]
    wires = [s for s in dom.shapes[1] if s.composite]
    E.prove("each edge of the box once", sorted(tuple(sorted(index[id(v)] for v in e.boundary_shapes)) for e in edges) == sorted(EDGES3))
    faces = [s for s in dom.shapes[2] if not s.composite]
    shells = [s for s in dom.shapes[2] if s.composite]
    E.prove("each face once, one shell, one solid", len(faces) == 6 and len(wires) == 6 and len(shells) == 1 and len(dom.shapes[3]) == 1)
    E.prove("every face has its own wire", all(len(f.boundary_shapes) == 1 for f in faces) and {id(f.boundary_shapes[0]) for f in faces} == {id(w) for w in wires})
    for k, f in enumerate(faces):
        check_loop(E, dom, f.boundary_shapes[0], FACES3[k])
        E.prove("faces carry their physical tags", f.physical_tag == want.get("bc_%d" % k))
    use = {}
    for f in faces:
        for e in f.boundary_shapes[0].immersed_shapes:
            use[id(e)] = use.get(id(e), 0) + 1
    E.prove("each edge bounds exactly two faces", sorted(use.values()) == [2] * 12)
    E.prove("the shell is made of the faces", [id(f) for f in shells[0].immersed_shapes] == [id(f) for f in faces] and {id(w) for w in shells[0].boundary_shapes} == {id(w) for w in wires})
    solid = dom.shapes[3][0]
    E.prove("the solid is bounded by the shell", list(solid.boundary_shapes) == shells and solid.physical_tag == want.get("solid"))
    graph_is_incidence(E, dom)


# ---------------------------------------------------------------- geometry builder
def loops_close(E, cell, at):
    """the signed boundary loop of a face walks head to tail"""
    by = {c.id: c for c in cell.boundary_cells}
    loop = [int(t) for t in cell.boundary_loop]
    E.prove("the loop lists every boundary edge once", sorted(abs(t) for t in loop) == sorted(by))
    pairs = []
    for t in loop:
        b, e = [c.point_id for c in by[abs(t)].boundary_cells]
        pairs.append((b, e) if t > 0 else (e, b))
    E.prove("the signed loop closes", all(pairs[i][1] == pairs[(i + 1) % len(pairs)][0] for i in range(len(pairs))))


def unit_builder(E):
    from geometry.geometry_builder import GeometryBuilder

    d = E.choice("d", [1, 2, 3])
    k = {1: 2, 2: E.choice("corners", [3, 4, 5]) if d == 2 else 4, 3: 8}[d]
    P = box_points(E, k, d)
    mode = E.choice("tags", ["default", "given", "partial"])
    inner = {1: "line", 2: "area", 3: "volume"}[d]
    want = {inner: 1, **{"bc_%d" % i: 2 + i for i in range({1: 2, 2: 4, 3: 6}[d])}}
    g = GeometryBuilder(dimension=d)
    if mode != "default":
        want = {inner: 40, **{"bc_%d" % i: [8, 3, 6, 4, 15, 17][i] for i in range(6)}}
        if mode == "partial":
            del want["bc_1"], want[inner]
        g.set_physical_tags(dict(want))
    E.cover()
    {1: g.build_box_1D, 2: g.build_box_2D, 3: g.build_box}[d](P)
    cells = list(g.cells)
    E.prove("cell ids are positions", [c.id for c in cells] == list(range(len(cells))))
    of = lambda q: [c for c in cells if c.dimension == q]
    E.prove("each corner once", len(of(0)) == k and len({c.point_id for c in of(0)}) == k and len(g.points) == k)
    for c in of(0):
        E.prove("corner coordinates as requested", same(E, g.points[c.point_id], P[c.id]))
    top = of(d)
    E.prove("one top cell with its physical tag", len(top) == 1 and top[0].physical_tag == want.get(inner))
    con = lambda c: tuple(sorted(x.point_id for x in c.boundary_cells))
    bc = of(d - 1)
    if d == 1:
        E.prove("the line joins the corners", con(top[0]) == (0, 1))
        E.prove("boundary physical tags", [c.physical_tag for c in bc] == [want.get("bc_0"), want.get("bc_1")])
    elif d == 2:
        E.prove("each side once", [con(c) for c in bc] == [tuple(sorted((i, (i + 1) % k))) for i in range(k)])
        walk = [tuple(x.point_id for x in c.boundary_cells) for c in top[0].boundary_cells]
        E.prove("the sides walk around head to tail", all(walk[i][1] == walk[(i + 1) % k][0] for i in range(k)))
        E.prove("boundary physical tags", [c.physical_tag for c in bc] == [want.get("bc_%d" % i) for i in range(k)])
        E.prove("bounded by the sides", [id(c) for c in top[0].boundary_cells] == [id(c) for c in bc])
    else:
        E.prove("each edge once", sorted(con(c) for c in of(1)) == sorted(EDGES3))
        E.prove("each face once", sorted(tuple(sorted({v for e in c.boundary_cells for v in con(e)})) for c in bc) == sorted(tuple(sorted(f)) for f in FACES3))
        order = [2, 3, 4, 5, 0, 1]
        for i, c in enumerate(bc):
            E.prove("a face has its four corners", sorted({v for e in c.boundary_cells for v in con(e)}) == sorted(FACES3[order[i]]) and len(c.boundary_cells) == 4)
            E.prove("boundary physical tags", c.physical_tag == want.get("bc_%d" % i))
            loops_close(E, c, None)
        E.prove("bounded by the faces", [id(c) for c in top[0].boundary_cells] == [id(c) for c in bc])
    want_g = set()

    def rec(c):
        for b in list(c.boundary_cells) + list(c.immersed_cells):
            want_g.add((c.id, b.id))
            rec(b)

    rec(top[0])
    E.prove("the graph is the incidence of the cells", set(g.graph.edges()) == want_g)


# ---------------------------------------------------------------- transfer to the mesher
class Recorder:
    """gmsh by contract: remembers which entity is created under which id"""

    def __init__(self):
        self.point, self.line, self.loop, self.plane, self.shells, self.volume = {}, {}, {}, {}, {}, {}
        self.groups, self.embedded, self.bad, self.transfinite, self.calls = {}, {}, [], [], []
        rec = self

        class Ops:
            def put(self, d, tag, value):
                if tag in d:
                    rec.bad.append(("created twice", tag))
                d[tag] = value
                return tag

            def addPoint(self, x, y, z, size=0.0, tag=-1):
                return self.put(rec.point, tag, (x, y, z))

            def addLine(self, b, e, tag=-1):
                if b not in rec.point or e not in rec.point:
                    rec.bad.append(("line from a missing point", tag))
                return self.put(rec.line, tag, (b, e))

            def addCurveLoop(self, tags, tag=-1):
                if any(abs(t) not in rec.line for t in tags):
                    rec.bad.append(("loop over a missing line", tag))
                return self.put(rec.loop, tag, [int(t) for t in tags])

            def addPlaneSurface(self, tags, tag=-1):
                if any(t not in rec.loop for t in tags):
                    rec.bad.append(("surface over a missing loop", tag))
                return self.put(rec.plane, tag, [int(t) for t in tags])

            def addSurfaceLoop(self, tags, tag=-1):
                if any(t not in rec.plane for t in tags):
                    rec.bad.append(("shell over a missing surface", tag))
                return self.put(rec.shells, tag, [int(t) for t in tags])

            def addVolume(self, tags, tag=-1):
                return self.put(rec.volume, tag, [int(t) for t in tags])

            def synchronize(self):
                pass

        class Mesh:
            def embed(self, d, tags, in_d, in_tag):
                rec.embedded.setdefault((d, in_d, int(in_tag)), []).extend(int(t) for t in tags)

            def setTransfiniteCurve(self, tag, n, mesh_type="Progression", coef=1.0):
                rec.transfinite.append((int(tag), n, mesh_type, coef))

            def generate(self, d):
                rec.calls.append(("generate", d))

            def refine(self):
                rec.calls.append(("refine",))

        class Model:
            geo = occ = Ops()
            mesh = geo.mesh = Mesh()

            def addPhysicalGroup(self, d, tags, tag=-1, name=""):
                known = {0: rec.point, 1: rec.line, 2: rec.plane, 3: rec.volume}[d]
                if any(t not in known for t in tags):
                    rec.bad.append(("group over a missing entity", d, tag))
                rec.groups.setdefault((d, int(tag)), []).extend(int(t) for t in tags)
                return tag

        class Option:
            def setNumber(self, *a):
                pass

        self.model, self.option = Model(), Option()
        self.initialize = lambda *a: None
        self.finalize = lambda *a: None
        self.write = lambda *a: None


def leaf(s):
    """a shape that is an entity of its own: no wire or shell, not divided into others"""
    return not s.composite and not any(x.dimension == s.dimension for x in s.immersed_shapes)


def check_transfer(E, rec, dom):
    E.prove("every entity is created once, from existing ones", rec.bad == [])
    ident = {}

    def find(d, s, pool, match):
        hits = [t for t in pool if match(pool[t])]
        E.prove("exactly one entity per shape of dimension %d" % d, len(hits) == 1)
        ident[id(s)] = hits[0] if hits else None

    for v in dom.shapes[0]:
        find(0, v, rec.point, lambda q: bool(same(E, q, v.point)))
    edges = [s for s in dom.shapes[1] if leaf(s)]
    for e in edges:
        b = {ident[id(v)] for v in e.boundary_shapes}
        find(1, e, rec.line, lambda q: set(q) == b)
    E.prove("as many points and lines as shapes", len(rec.point) == len(dom.shapes[0]) and len(rec.line) == len(edges))
    faces = [s for s in dom.shapes[2] if not s.composite] if len(dom.shapes) > 2 else []
    for f in faces:
        es = sorted(ident[id(e)] for e in f.boundary_shapes[0].immersed_shapes)
        find(2, f, rec.plane, lambda q: sorted(abs(t) for l in q for t in rec.loop.get(l, [])) == es)
        for l in rec.plane.get(ident[id(f)], []):
            pairs = [rec.line[abs(t)] if t > 0 else rec.line[abs(t)][::-1] for t in rec.loop[l] if abs(t) in rec.line]
            E.prove("the signed curve loop closes", all(pairs[i][1] == pairs[(i + 1) % len(pairs)][0] for i in range(len(pairs))))
    E.prove("as many surfaces as faces", len(rec.plane) == len(faces))
    solids = dom.shapes[3] if len(dom.shapes) > 3 else []
    for s in solids:
        fs = sorted(ident[id(f)] for f in s.boundary_shapes[0].immersed_shapes)
        find(3, s, rec.volume, lambda q: sorted(t for l in q for t in rec.shells.get(l, [])) == fs)
    E.prove("as many volumes as solids", len(rec.volume) == len(solids))
    return ident


def groups_are_tags(E, rec, dom, ident):
    want = {}
    for d, shapes in enumerate(dom.shapes):
        for s in shapes:
            if s.physical_tag is not None and leaf(s):
                want.setdefault((d, s.physical_tag), set()).add(ident[id(s)])
    got = {k: v for k, v in rec.groups.items() if len(v) > 0}
    E.prove("physical groups are the shapes with the tag", {k: set(v) for k, v in got.items()} == want)
    E.prove("no entity twice in a group", all(len(set(v)) == len(v) for v in got.values()))


def two_faces(E, tags):
    """two triangles sharing an edge, an edge and a vertex immersed in the first, tags given by slot"""
    from topology.domain import Domain
    from topology.edge import Edge
    from topology.face import Face
    from topology.vertex import Vertex
    from topology.wire import Wire

    P = box_points(E, 6, 2)
    tv, te, tf = tags
    vs = [Vertex(tv[i], P[i]) for i in range(6)]
    con = [(0, 1), (1, 2), (2, 0), (1, 3), (3, 2), (4, 5)]
    es = [Edge(te[i], arr([vs[a], vs[b]])) for i, (a, b) in enumerate(con)]
    w0 = Wire(te[6], arr([es[0], es[1], es[2]]), arr([vs[0]]))
    w1 = Wire(te[7], arr([es[3], es[4], es[1]]), arr([vs[1]]))
    f0, f1 = Face(tf[0], arr([w0])), Face(tf[1], arr([w1]))
    f0.immersed_shapes = arr([es[5]])
    vs[0].physical_tag, vs[4].physical_tag, vs[5].physical_tag = 7, 9, 7
    for e, t in zip(es, [3, None, 3, 4, 4, 12]):
        e.physical_tag = t
    f0.physical_tag = 20
    f1.physical_tag = 20 if E.choice("one_region", [True, False]) else 21
    d = Domain(dimension=2)
    d.append_shapes(arr(vs))
    d.append_shapes(arr(es + [w0, w1]))
    d.append_shapes(arr([f0, f1]))
    return d, f0, f1, es, vs


def divide_sides(E, dom, es, vs):
    """sides of the faces divided after their wires were made (as a fracture that ends on them does)"""
    from topology.edge import Edge
    from topology.vertex import Vertex

    which = E.choice("divided sides", [(0,), (2,), (0, 2), (3, 4), (2, 3), (5,), (0, 5)])
    P = E.arr("Q", (len(which), 3), gen=lambda r: r.uniform(-9, 9))
    for k, i in enumerate(which):
        for q in [v.point for v in vs] + list(P[:k]):
            E.assume(E.not_(same(E, P[k], q)))
        v = Vertex(100 + k, P[k])
        b, e = es[i].boundary_shapes
        parts = [Edge(200 + 2 * k, arr([b, v])), Edge(201 + 2 * k, arr([v, e]))]
        if i in (2, 4):                 # the pieces are listed along the wire: e0 e1 e2 = 01 12 20, e3 e4 e1 = 13 32 21
            parts = parts[::-1] if b.tag < e.tag else parts
        for x in parts:
            x.physical_tag = es[i].physical_tag
        es[i].immersed_shapes = arr(parts)
        dom.append_shapes(arr([v]))
        dom.append_shapes(arr(parts))


def immersed_face(E, dom):
    """a face with vertices and edges of its own, immersed in the solid"""
    from topology.edge import Edge
    from topology.face import Face
    from topology.vertex import Vertex
    from topology.wire import Wire

    P = E.arr("Z", (4, 3), gen=lambda r: r.uniform(-9, 9))
    for k in range(4):
        for q in [v.point for v in dom.shapes[0]] + list(P[:k]):
            E.assume(E.not_(same(E, P[k], q)))
    vs = [Vertex(8 + k, P[k]) for k in range(4)]
    es = [Edge(30 + k, arr([vs[k], vs[(k + 1) % 4]])) for k in range(4)]
    w = Wire(40, arr(es), arr([vs[0]]))
    f = Face(50, arr([w]))
    f.physical_tag = 77
    solid = dom.shapes[3][0]
    solid.immersed_shapes = arr([f])
    dom.append_shapes(arr(vs))
    dom.append_shapes(arr(es + [w]))
    dom.append_shapes(arr([f]))
    return f


def unit_discrete(E):
    """DiscreteDomain: entities, groups and embeddings for 1D and 2D domains"""
    import mesh.discrete_domain as m
    import topology.domain_market as dm

    case = E.choice("case", ["1D", "2D", "faces", "faces retagged", "faces with sides divided later"])
    if case == "1D":
        dom = dm.build_box_1D(box_points(E, 2, 1), chosen_tags(E, 1)[0])
    elif case == "2D":
        dom = dm.build_box_2D(box_points(E, 4, 2), chosen_tags(E, 2)[0])
    elif case == "faces":
        dom, f0, f1, es, vs = two_faces(E, (list(range(6)), list(range(8)), [0, 1]))
    elif case == "faces with sides divided later":
        dom, f0, f1, es, vs = two_faces(E, (list(range(6)), list(range(8)), [0, 1]))
        divide_sides(E, dom, es, vs)
    else:
        dom, f0, f1, es, vs = two_faces(E, ([9, 2, 5, 0, 7, 30], [4, 11, 0, 3, 8, 40, 2, 21], [6, 1]))
    rec = Recorder()
    dd = m.DiscreteDomain(dimension=dom.dimension)
    dd.domain = dom
    E.cover()
    curves = {"n_points": 6, "meshType": "Bump", "coef": 0.3}
    n_ref = E.choice("refinements", [0, 2])
    with Stub(m, gmsh=rec):
        dd.generate_mesh({"lc": 0.5, "n_refinements": n_ref, "curves_refinement": ([3, 12], curves)})
        dd.write_mesh("none.msh")
    ident = check_transfer(E, rec, dom)
    groups_are_tags(E, rec, dom, ident)
    E.prove("meshed in every dimension, then refined as requested", rec.calls == [("generate", d) for d in range(dom.dimension + 1)] + [("refine",)] * n_ref)
    want = {(ident[id(e)], 6, "Bump", 0.3) for e in dom.shapes[1] if leaf(e) and e.physical_tag in (3, 12)}
    E.prove("only the requested curves are graded", set(rec.transfinite) == want)
    emb = {k: sorted(v) for k, v in rec.embedded.items() if v}
    if case.startswith("faces"):
        t = ident[id(f0)]
        parts = list(es[5].immersed_shapes) or [es[5]]
        pts = {ident[id(v)] for v in vs[4:]}
        E.prove("immersed shapes are embedded in their face", set(emb) == {(1, 2, t), (0, 2, t)} and emb[1, 2, t] == sorted(ident[id(x)] for x in parts)
                and pts <= set(emb[0, 2, t]) <= pts | {ident[id(v)] for x in parts for v in x.boundary_shapes})
    else:
        E.prove("nothing to embed", emb == {})


def unit_conformal(E):
    """ConformalMesher: entities and groups of a domain, both back ends"""
    import mesh.conformal_mesher as m
    import topology.domain_market as dm

    d = E.choice("d", [1, 2, 3])
    arg = chosen_tags(E, d)[0]
    split = d == 2 and E.choice("sides divided later", [False, True])
    if split:
        dom, f0, f1, es, vs = two_faces(E, (list(range(6)), list(range(8)), [0, 1]))
        for x in es:
            x.physical_tag = None
        es[0].physical_tag, es[3].physical_tag = 3, 4
        divide_sides(E, dom, es, vs)
        for x in dom.shapes[1]:
            if x.tag >= 200:
                x.physical_tag = None
        f1.physical_tag = 22
        for x in vs:
            x.physical_tag = None
    else:
        dom = {1: dm.build_box_1D, 2: dm.build_box_2D, 3: dm.build_box_3D}[d](box_points(E, {1: 2, 2: 4, 3: 8}[d], d), arg)
    inner = immersed_face(E, dom) if d == 3 and E.choice("immersed face", [False, True]) else None
    rec = Recorder()
    cm = m.ConformalMesher(dimension=d)
    cm.domain = dom
    occ = True if split or inner is not None else E.choice("occ", [True, False])
    E.cover()
    with Stub(m, gmsh=rec):
        if split:
            cm.transfer_domain_occ_descritpion()
        elif occ:
            cm.generate_from_domain(0.5, 1)
            cm.write_mesh("none.msh")
        else:
            cm.transfer_domain_descritpion()
    ident = check_transfer(E, rec, dom)
    if occ:
        emb = {k: set(v) for k, v in rec.embedded.items() if v}
        if split:
            t, parts = ident[id(f0)], list(es[5].immersed_shapes) or [es[5]]
            pts = {ident[id(v)] for v in vs[4:]}
            E.prove("immersed edges are embedded in their face", set(emb) == {(1, 2, t), (0, 2, t)} and emb[1, 2, t] == {ident[id(x)] for x in parts}
                    and pts <= emb[0, 2, t] <= pts | {ident[id(v)] for x in parts for v in x.boundary_shapes})
        elif inner is not None:
            t = ident[id(dom.shapes[3][0])]
            E.prove("an immersed face is embedded in its solid with its edges", emb == {(2, 3, t): {ident[id(inner)]}, (1, 3, t): {ident[id(e)] for e in inner.boundary_shapes[0].immersed_shapes}})
        else:
            E.prove("nothing to embed", emb == {})
    if split:
        for x, t in ((es[0], 3), (es[3], 4)):
            want = {ident[id(y)] for y in (x.immersed_shapes if len(x.immersed_shapes) else [x])}
            E.prove("a divided side is the group of its pieces", set(rec.groups.get((1, t), [])) == want)
        return
    if d == 2 and occ:
        # the ends of a tagged side are put in the group of the side as well
        pts = {k: v for k, v in rec.groups.items() if k[0] == 0}
        for (q, t), v in pts.items():
            on = {ident[id(x)] for e in dom.shapes[1] if e.physical_tag == t for x in e.boundary_shapes}
            E.prove("point groups are ends of the side with the tag", set(v) == on)
        rec.groups = {k: v for k, v in rec.groups.items() if k[0] != 0}
    groups_are_tags(E, rec, dom, ident)


FRACTURES = [
    [],
    [((0, 2), (4, 2))],
    [((0, 2), (4, 2)), ((1, 0), (1, 5))],
    [((0, 2), (4, 2)), ((0, 3), (4, 4))],
    [((0, 2), (4, 2)), ((3, 0), (3, 5)), ((1, 5), (1, 1))],
    [((0, 0), (4, 4)), ((4, 0), (0, 4)), ((3, -1), (3, 6))],
    [((0, 2), (9, 2)), ((1, 0), (1, 5)), ((3, 5), (3, 0)), ((4, 3), (5, 1)), ((8, 3), (6, 1)), ((1, 6), (5, 7))],
]


def arrangement(lines):
    """pieces and crossings of segments crossing in their interiors, by elimination"""
    on = [[(0.0, a), (1.0, b)] for a, b in lines]
    crossings = {}
    for i, (a, b) in enumerate(lines):
        for j in range(i):
            p, q = lines[j]
            u, v = (b[0] - a[0], b[1] - a[1]), (q[0] - p[0], q[1] - p[1])
            det = u[0] * v[1] - u[1] * v[0]
            if det == 0:
                continue
            w = (p[0] - a[0], p[1] - a[1])
            s, t = (w[0] * v[1] - w[1] * v[0]) / det, (w[0] * u[1] - w[1] * u[0]) / det
            if 0 < s < 1 and 0 < t < 1:
                x = (a[0] + s * u[0], a[1] + s * u[1])
                crossings[j, i] = x
                on[i].append((s, x))
                on[j].append((t, x))
    return [[p for _, p in sorted(o)] for o in on], crossings


def unit_builder_transfer(E):
    """ConformalMesher.generate: a box of the geometry builder, with the fractures of a network embedded"""
    import mesh.conformal_mesher as m
    from geometry.fracture_network import FractureNetwork
    from geometry.geometry_builder import GeometryBuilder

    d = E.choice("d", [1, 2, 3])
    k = {1: 2, 2: E.choice("corners", [3, 4, 5]) if d == 2 else 4, 3: 8}[d]
    lines = FRACTURES[E.choice("fractures", list(range(len(FRACTURES))))] if d == 2 else []
    P = box_points(E, k, d)
    inner = {1: "line", 2: "area", 3: "volume"}[d]
    tags = {inner: 40, **{"bc_%d" % i: [8, 3, 6, 4, 15, 17][i] for i in range({1: 2, 2: k, 3: 6}[d])}}
    g = GeometryBuilder(dimension=d)
    if d == 2 or E.choice("tags given", [False, True]):
        g.set_physical_tags(dict(tags))
    else:
        tags = {inner: 1, **{"bc_%d" % i: 2 + i for i in range({1: 2, 2: k, 3: 6}[d])}}
    {1: g.build_box_1D, 2: g.build_box_2D, 3: g.build_box}[d](P)
    chains, crossings = arrangement(lines)
    cm = m.ConformalMesher(dimension=d)
    cm.set_geometry_builder(g)
    nw = None
    if lines:
        nw = FractureNetwork(dimension=2, physical_tag_shift=50)
        nw.intersect_1D_fractures([np.array([[x, y, 0.0] for x, y in l]) for l in lines])
        nw.build_grahp(all_fixed_d_cells_q=True)
        cm.set_fracture_network(nw)
        for q in nw.points:
            for c in P:
                E.assume(E.not_(same(E, c, [float(x) for x in q])))
    E.cover()
    rec = Recorder()
    with Stub(m, gmsh=rec):
        cm.set_points()
        cm.generate(0.5, 2)
        cm.write_mesh("none.msh")
    E.prove("every entity is created once, from existing ones", rec.bad == [])

    def hit(pool, match, name):
        hits = [t for t in pool if match(pool[t])]
        E.prove("exactly one entity: " + name, len(hits) == 1)
        return hits[0] if hits else None

    close = lambda p, q: all(abs(float(x) - y) < 1e-9 for x, y in zip(p, (q[0], q[1], 0.0)))
    corner = [hit(rec.point, lambda q: bool(same(E, q, P[i])), "corner") for i in range(k)]
    line = lambda a, b: hit(rec.line, lambda q: set(q) == {a, b}, "side or piece")
    groups = {}
    sides = {1: [(0, 1)], 2: [(i, (i + 1) % k) for i in range(k)], 3: EDGES3}[d]
    side = [line(corner[a], corner[b]) for a, b in sides]
    n_points, n_lines = k, len(sides)
    planes = []
    if d == 1:
        groups.update({(0, tags["bc_0"]): {corner[0]}, (0, tags["bc_1"]): {corner[1]}, (1, tags[inner]): {side[0]}})
    elif d == 2:
        groups.update({(1, tags["bc_%d" % i]): {side[i]} for i in range(k)})
        planes = [hit(rec.plane, lambda q: sorted(abs(t) for l in q for t in rec.loop[l]) == sorted(side), "surface")]
        groups[2, tags[inner]] = set(planes)
    else:
        for i, f in enumerate([2, 3, 4, 5, 0, 1]):
            on = sorted(s for s, (a, b) in zip(side, sides) if a in FACES3[f] and b in FACES3[f])
            planes.append(hit(rec.plane, lambda q: sorted(abs(t) for l in q for t in rec.loop[l]) == on, "face"))
            groups[2, tags["bc_%d" % i]] = {planes[-1]}
        vol = hit(rec.volume, lambda q: sorted(t for l in q for t in rec.shells[l]) == sorted(planes), "solid")
        groups[3, tags[inner]] = {vol}
        E.prove("one volume", len(rec.volume) == 1)
    E.prove("as many surfaces as faces", len(rec.plane) == len(planes))
    for q in rec.plane.values():
        for l in q:
            pairs = [rec.line[t] if t > 0 else rec.line[-t][::-1] for t in rec.loop[l]]
            E.prove("the signed curve loop closes", all(pairs[i][1] == pairs[(i + 1) % len(pairs)][0] for i in range(len(pairs))))
    inside = {p for c in chains for p in c}
    others = {t: p for t, p in rec.point.items() if t not in corner}
    point = {p: hit(others, lambda q: close(q, p), "end or crossing of fractures") for p in inside}
    pieces = set()
    for i, c in enumerate(chains):
        mine = {line(point[a], point[b]) for a, b in zip(c, c[1:])}
        pieces |= mine
        groups[1, 50 + i] = mine
        groups[0, 50 + i] = {point[c[0]], point[c[-1]]}
    E.prove("as many points and lines as corners, ends, crossings, sides and pieces", len(rec.point) == k + len(inside) and len(rec.line) == len(sides) + len(pieces))
    got = {a: set(v) for a, v in rec.groups.items() if v}
    extra = {a: v for a, v in got.items() if a not in groups}
    E.prove("physical groups are the cells with the tag", all(got.get(a) == v for a, v in groups.items()))
    E.prove("every crossing is a group of its own", all(a[0] == 0 and len(v) == 1 for a, v in extra.items()) and {t for v in extra.values() for t in v} == {point[p] for p in crossings.values()}
            and len(extra) == len(crossings))
    emb = {a: set(v) for a, v in rec.embedded.items() if v}
    E.prove("the pieces of the fractures, their ends and crossings are embedded in the surface", emb == ({(0, 2, planes[0]): set(point.values()), (1, 2, planes[0]): pieces} if lines else {}))
    E.prove("a mesh of every dimension up to that of the domain, then the refinements", [c for c in rec.calls] == [("generate", q) for q in range(d + 1)] + [("refine",)] * 2)
    for c in g.cells:
        if c.dimension == 0:
            E.prove("the box keeps its points", same(E, g.points[c.point_id], P[c.id]))
    if nw is not None:
        ends = [c for c in nw.cells if c.dimension == 0]
        E.prove("the network's vertices still name its points", sorted(tuple(float(x) for x in nw.points[c.point_id]) for c in ends) == sorted(tuple(float(x) for x in p) for p in nw.points)
                and all(0 <= c.point_id < len(nw.points) for c in ends))


def unit_strides(E):
    """entity ids: distinct tags of one dimension get distinct ids"""
    import mesh.discrete_domain as m

    dd = m.DiscreteDomain(dimension=2)
    for k in range(4):
        setattr(dd, "d%d_stride" % k, E.int("s%d" % k, lo=0))
    a, b = E.int("a", lo=-2), E.int("b", lo=-2)
    dim = E.choice("dim", [0, 1, 2, 3])
    E.cover()
    x, y = dd.stride_tag(dim, a), dd.stride_tag(dim, b)
    E.prove("ids agree only if tags agree", E.implies(E.eq(x, y), E.eq(a, b)))


# ---------------------------------------------------------------- bounded: fractured rectangles
def bounded_md(B):
    import contextlib
    import io
    import topology.domain_market as dm

    while B.more():
        r = B.rng
        w, h = r.uniform(0.5, 4), r.uniform(0.5, 4)
        x0, y0 = r.uniform(-3, 3), r.uniform(-3, 3)
        box = np.array([[x0, y0, 0], [x0 + w, y0, 0], [x0 + w, y0 + h, 0], [x0, y0 + h, 0]])
        n = r.choice([1, 2, 3])
        mid = x0 + w * r.uniform(0.4, 0.6)
        lines = []
        kind = r.choice(["cross", "through", "inside", "touch"])
        for i in range(n):
            y = y0 + h * (i + r.uniform(0.3, 0.7)) / n
            dy = h / n * 0.2 * r.uniform(-1, 1)
            a, b = {"cross": (-0.2, 1.2), "through": (-0.3, r.uniform(0.6, 0.9)), "inside": (0.1, 0.9), "touch": (0.0, 1.0)}[kind]
            lines.append([[x0 + a * w, y - dy, 0], [x0 + b * w, y + dy, 0]])
        if n > 1 and r.random() < 0.7:
            lines.append([[mid, y0 - 0.3 * h, 0], [mid + 0.05 * w, y0 + 1.3 * h, 0]])
        lines = np.array(lines)
        shared = r.choice([False, False, True])
        tags = {"area": 1, "bc_0": 2, "bc_1": r.choice([2, 3]) if shared else 3, "bc_2": r.choice([2, 4]) if shared else 4, "bc_3": r.choice([2, 3]) if shared else 5}
        if shared and r.random() < 0.4:
            for k in r.sample(["bc_0", "bc_1", "bc_2", "bc_3"], 2):
                del tags[k]
        ftags = {"line": 10, "internal_bc": 20, "point": 30}

        def run(box=box, lines=lines, tags=tags):
            with contextlib.redirect_stdout(io.StringIO()):
                dom = dm.create_md_box_2D(box, dict(tags), lines, dict(ftags))
            bad = []
            for d, shapes in enumerate(dom.shapes):
                t = [s.tag for s in shapes]
                if len(set(t)) != len(t):
                    bad.append("tags of dimension %d repeat: %s" % (d, t))
            wires = [s for s in dom.shapes[1] if s.composite]
            edges = [s for s in dom.shapes[1] if not s.composite]
            if len(wires) != 1 or len(dom.shapes[2]) != 1 or len(wires[0].immersed_shapes) == 0:
                raise AssertionError("not one wire and one face")
            ws = list(wires[0].immersed_shapes)
            pr = [ends(e, s) for e, s in zip(ws, wires[0].orientation)]
            if not all(pr[i][1] is pr[(i + 1) % len(pr)][0] or pr[i][1] == pr[(i + 1) % len(pr)][0] for i in range(len(pr))):
                bad.append("the boundary wire is not a closed loop")
            L = lambda es: sum(np.linalg.norm(e.boundary_shapes[0].point - e.boundary_shapes[1].point) for e in es)
            for i in range(4):
                want = np.linalg.norm(box[i] - box[(i + 1) % 4])
                u = (box[(i + 1) % 4] - box[i]) / want
                on = [e for e in ws if all(np.linalg.norm(np.cross(v.point - box[i], u)) < 1e-9 * max(w, h) for v in e.boundary_shapes)]
                if abs(L(on) - want) > 1e-8 or any(e.physical_tag != tags.get("bc_%d" % i) for e in on):
                    bad.append("side %d is not covered once" % i)
            fr = [e for e in edges if e.physical_tag == 10]
            lo, hi = box.min(0) - 1e-9, box.max(0) + 1e-9
            total = 0.0
            for a, b in lines:
                t0, t1 = 0.0, 1.0
                for k in range(2):
                    if b[k] != a[k]:
                        u, v = sorted(((box.min(0)[k] - a[k]) / (b[k] - a[k]), (box.max(0)[k] - a[k]) / (b[k] - a[k])))
                        t0, t1 = max(t0, u), min(t1, v)
                total += max(0, t1 - t0) * np.linalg.norm(b - a)
            if abs(L(fr) - total) > 1e-7:
                bad.append("fracture pieces have length %g, the part inside the box %g" % (L(fr), total))
            size = max(w, h)
            at = lambda p, t: [v for v in dom.shapes[0] if v.physical_tag == t and np.linalg.norm(v.point - p) < 1e-7 * size]
            ins = lambda p: bool(np.all(p[:2] > lo[:2] + 1e-6) and np.all(p[:2] < hi[:2] - 1e-6))
            tips = [p for l in lines for p in l if ins(p)]
            if any(len(at(p, 20)) != 1 for p in tips) or len([v for v in dom.shapes[0] if v.physical_tag == 20]) != len(tips):
                bad.append("tips inside the box and vertices tagged as tips differ")
            cross = []
            for i in range(len(lines)):
                for j in range(i):
                    (a, b), (c, e) = lines[i][:, :2], lines[j][:, :2]
                    s, t = np.linalg.solve(np.array([b - a, c - e]).T, c - a) if abs(np.linalg.det(np.array([b - a, c - e]))) > 1e-9 else (9, 9)
                    if 0 <= s <= 1 and 0 <= t <= 1 and ins(a + s * (b - a)):
                        cross.append(np.append(a + s * (b - a), 0.0))
            if any(len(at(p, 30)) != 1 for p in cross) or len([v for v in dom.shapes[0] if v.physical_tag == 30]) != len(cross):
                bad.append("crossings and vertices tagged as crossings differ")
            used = {v.tag for e in edges for v in e.boundary_shapes}
            if used != {v.tag for v in dom.shapes[0]}:
                bad.append("vertices of the domain and ends of its edges differ")
            if any(np.any(v.point < lo) or np.any(v.point > hi) for v in dom.shapes[0]):
                bad.append("vertices outside the box")
            assert not bad, bad

        B.case("md-box:%s%s" % (kind, " shared tags" if shared else ""), "fractured rectangle %s lines %s tags %s" % (box.tolist(), lines.tolist(), tags), run)


def bounded_chains(B):
    from topology.edge import Edge
    from topology.vertex import Vertex
    from topology.wire import Wire

    class Plain:
        def __init__(self, out):
            self.out = out

        def prove(self, name, cond):
            if not cond:
                self.out.append(name)

        le = staticmethod(lambda a, b: a <= b)
        eq = staticmethod(lambda a, b: a == b)
        and_ = staticmethod(lambda a, b: bool(a and b))
        conj = staticmethod(lambda xs: all(xs))

    while B.more():
        r = B.rng
        n, closed = r.choice([2, 3, 4, 6, 7, 9, 12, 20, 40]), r.random() < 0.5
        if closed and n == 2:
            continue
        k = n if closed else n + 1
        scale = r.choice([1.0, 1e-4, 1e-9])
        tags = r.sample(range(3 * k), k)
        pts = B.nrng.uniform(-1, 1, (k, 3)) * scale

        def run(n=n, closed=closed, tags=tags, pts=pts):
            vs = [Vertex(t, p) for t, p in zip(tags, pts)]
            loop = vs + [vs[0]] if closed else vs
            edges = [Edge(500 + i, arr([loop[i], loop[i + 1]])) for i in range(n)]
            w = Wire(900, arr(edges), arr([loop[0]] if closed else [loop[0], loop[-1]]))
            bad = []
            check_traversal(Plain(bad), w, edges, loop, closed)
            assert not bad, bad

        B.case("chain", "%s chain of %d edges, tags %s, points %s" % ("closed" if closed else "open", n, tags, pts.tolist()), run)


BX = "topology.domain_market."
UNITS = [Unit("%s chain of %d edges" % ("closed" if c else "open", n), unit_chain(n, c), [W + "orient_immersed_edges", W + "orient_immersed_vertices", W + "boundary_points", W + "__init__", "topology.edge.Edge.__init__", "topology.shape.Shape.boundary_shapes", "topology.vertex.Vertex.__eq__"], modules=MODS, samples=60, kind="bounded-size", bounds="chains of %d edges, any tags and points" % n, max_paths=20000, timeout=120) for c, n in ((False, 1), (False, 2), (False, 3), (False, 4), (False, 5), (False, 8), (True, 2), (True, 3), (True, 4), (True, 5), (True, 8))]
UNITS += [
    Unit("split edges and refresh", unit_nested, [W + "orient_immersed_edges", W + "immersed_shapes", "topology.domain.Domain.refresh_wires"], modules=MODS, samples=60, kind="bounded-size", bounds="loops of four sub-edges", max_paths=20000, timeout=120),
    Unit("box 1D", unit_box_1D, [BX + "build_box_1D", "topology.domain.Domain.append_shapes", "topology.domain.Domain.build_grahp"], modules=MODS, samples=20),
    Unit("box 2D", unit_box_2D, [BX + "build_box_2D", "topology.domain.Domain.append_shapes", "topology.domain.Domain.build_grahp"], modules=MODS, samples=30, kind="bounded-size", bounds="polygons of 3 to 6 corners, any coordinates"),
    Unit("box 3D", unit_box_3D, [BX + "build_box_3D", "topology.domain.Domain.append_shapes", "topology.domain.Domain.build_grahp"], modules=MODS, samples=20),
    Unit("geometry builder boxes", unit_builder, ["geometry.geometry_builder.GeometryBuilder." + f for f in ("build_box_1D", "build_box_2D", "build_box", "build_grahp", "gather_graph_edges")], modules=MODS, samples=30, kind="bounded-size", bounds="polygons of 3 to 5 corners, any coordinates"),
    Unit("discrete domain transfer", unit_discrete, ["mesh.discrete_domain.DiscreteDomain." + f for f in ("convert_domain_to_occ_description", "generate_mesh", "stride_tag", "__transfer_vertices", "__transfer_curves", "__transfer_surfaces", "__physical_group_vertices", "__physical_group_curves", "__physical_group_surfaces", "__embed_vertices_in_curves", "__embed_curves_in_surfaces")], modules=MODS, samples=30, kind="bounded-size", bounds="segments, rectangles and two triangles with an immersed edge; any coordinates", assumptions=["gmsh by contract: an entity exists under the id it was created with"], max_paths=20000, timeout=200),
    Unit("conformal mesher transfer", unit_conformal, ["mesh.conformal_mesher.ConformalMesher." + f for f in ("transfer_domain_occ_descritpion", "transfer_domain_descritpion", "generate_from_domain")], modules=MODS, samples=30, kind="bounded-size", bounds="segments, rectangles and boxes; any coordinates", assumptions=["gmsh by contract: an entity exists under the id it was created with"], max_paths=20000, timeout=200),
    Unit("geometry builder transfer", unit_builder_transfer, ["mesh.conformal_mesher.ConformalMesher." + f for f in ("set_points", "generate", "write_mesh", "add_domain_descritpion", "add_domain_1d_descritpion", "add_domain_2d_descritpion", "add_domain_3d_descritpion", "add_fracture_network_description")] + ["geometry.fracture_network.FractureNetwork." + f for f in ("shift_point_ids", "shift_cell_ids", "build_grahp", "gather_graph_edges")], modules=MODS, samples=40, kind="bounded-size", bounds="segments, polygons of 3 to 5 corners and boxes with any coordinates; seven fixed sets of up to six fractures", assumptions=["gmsh by contract: an entity exists under the id it was created with"], max_paths=20000, timeout=200),
    Unit("entity ids", unit_strides, ["mesh.discrete_domain.DiscreteDomain.stride_tag"], modules=MODS, samples=20),
]
BOUNDED = [
    Bounded("chains", bounded_chains, [W + "orient_immersed_edges", W + "orient_immersed_vertices", W + "boundary_points"], "random open and closed chains of 2 to 40 edges with arbitrary tags, vertices also very close together", budget=15),
    Bounded("fractured rectangles", bounded_md, [BX + "create_md_box_2D", "topology.operations.domain_operations.domain_union"], "random rectangles with one to four fractures that cross, enter or stay inside", budget=40),
]
