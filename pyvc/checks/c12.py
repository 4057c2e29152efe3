"""C12: shape identity, containment and construction rules."""
import numpy as np

from ..harness import Unit, Bounded
from .common import *

PID = "C12"
IMPORTS = ["topology.shape", "topology.vertex", "topology.edge", "topology.wire", "topology.face", "topology.shell", "topology.solid", "topology.composite_solid"]
S = "topology.shape.Shape."
MODS = IMPORTS


def truth(E, x):
    return x if E.symbolic and isinstance(x, SBool) else bool(x)


def iff(E, name, a, b):
    E.prove(name, E.and_(E.implies(a, b), E.implies(b, a)))


def classes():
    from topology.edge import Edge
    from topology.face import Face
    from topology.shell import Shell
    from topology.solid import Solid
    from topology.composite_solid import CompositeSolid

    return {"edge": (Edge, 1, False), "face": (Face, 2, False), "shell": (Shell, 2, True), "solid": (Solid, 3, False), "composite": (CompositeSolid, 3, True)}


def raw(kind, tag):
    """a shape of the kind without children"""
    cls, d, comp = classes()[kind]
    none = np.array([], dtype=object)
    return cls(tag, none, none) if comp else cls(tag, none)


class Child:
    """a child shape: equality of children is the induction hypothesis (one ghost truth per pair)"""

    def __init__(self, E, side, slot, i, dim, tag, eqs):
        self.E, self.key, self.dimension, self.tag, self.eqs = E, (slot, i), dim, tag, eqs
        self.side = side
        none = np.array([], dtype=object)
        self.boundary_shapes = self.immersed_shapes = none
        self.composite, self.active, self.physical_tag = False, True, None

    def __eq__(self, o):
        if not isinstance(o, Child):
            return NotImplemented
        if self is o:
            return True
        a, b = (self, o) if self.side <= o.side else (o, self)
        k = (a.key, b.key)
        if self.side == o.side:
            return False
        if k not in self.eqs:
            raise Unsupported("equality of shapes in different positions")
        return self.eqs[k]

    def __ne__(self, o):
        return self.E.not_(self == o) if self.E.symbolic else not (self == o)

    __hash__ = object.__hash__


def arr(xs):
    a = np.empty(len(xs), dtype=object)
    for i, x in enumerate(xs):
        a[i] = x
    return a


def unit_equality(E):
    kind = E.choice("kind", ["edge", "face", "shell", "solid", "composite"])
    d = classes()[kind][1]
    ta = E.int("tag_a", lo=0, gen=lambda r: r.randint(1, 2))
    tb = E.int("tag_b", lo=0, gen=lambda r: r.randint(1, 2))
    a, b = raw(kind, ta), raw(kind, tb)
    eqs, agree = {}, []
    for slot in ("boundary", "immersed"):
        na = E.choice("n_%s_a" % slot, [0, 1, 2, 3])
        nb = E.choice("n_%s_b" % slot, [0, 1, 2, 3] if na in (0, 2) else [na])
        A = [Child(E, 0, slot, i, d - 1, 10 + i, eqs) for i in range(na)]
        B = [Child(E, 1, slot, i, d - 1, 10 + i, eqs) for i in range(nb)]
        for i in range(min(na, nb)):
            eqs[(slot, i), (slot, i)] = E.bool("eq_%s_%d" % (slot, i))
        setattr(a, slot + "_shapes", arr(A))
        setattr(b, slot + "_shapes", arr(B))
        agree.append(na == nb)
        if na == nb:
            agree += [eqs[(slot, i), (slot, i)] for i in range(na)]
    E.cover()
    want = E.and_(E.eq(ta, tb), E.conj(agree))
    iff(E, "equal exactly when tag and children agree one by one", truth(E, a == b), want)
    iff(E, "inequality is the negation", truth(E, a != b), E.not_(want))
    E.prove("reflexive", truth(E, a == a))


def unit_other_kind(E):
    """dimension must agree; comparing shapes of any two kinds gives an answer"""
    from topology.vertex import Vertex

    k = E.choice("kind", ["edge", "face", "solid", "vertex"])
    l = E.choice("other", ["edge", "face", "solid", "vertex"])
    t = E.int("tag", lo=0)
    mk = lambda k, t: Vertex(t, np.array([0.0, 1.0, 2.0])) if k == "vertex" else raw(k, t)
    a, b = mk(k, t), mk(l, t)
    E.cover()
    iff(E, "equal exactly when the dimension agrees", truth(E, a == b), k == l)
    iff(E, "inequality is the negation", truth(E, a != b), k != l)


def unit_vertex(E):
    from topology.vertex import Vertex

    ta = E.int("tag_a", lo=0, gen=lambda r: r.randint(1, 2))
    tb = E.int("tag_b", lo=0, gen=lambda r: r.randint(1, 2))
    p = E.vec("p", 3, lo=-1000, hi=1000)
    moved = E.choice("moved", [None, 0, 1, 2])
    q = p.copy()
    if moved is not None:
        s = E.choice("sign", [1, -1])
        dlt = E.real("delta", lo=0.1, hi=100)
        q[moved] = q[moved] + s * dlt
    a, b = Vertex(ta, p), Vertex(tb, q)
    E.cover()
    want = E.and_(E.eq(ta, tb), moved is None)
    iff(E, "equal exactly when tag and coordinates agree", truth(E, a == b), want)
    iff(E, "inequality is the negation", truth(E, a != b), E.not_(want))


def unit_boundary(E):
    """boundary shapes are kept in ascending tag order; inadmissible dimensions are refused and change nothing"""
    kind = E.choice("kind", ["edge", "face", "shell", "solid", "composite"])
    d = classes()[kind][1]
    slot = E.choice("slot", ["boundary_shapes", "immersed_shapes"])
    n = E.choice("n", [0, 1, 2, 3, 4])
    s = raw(kind, E.int("own", lo=0))
    old = [Child(E, 0, "old", i, d - 1, i, {}) for i in range(2)]
    setattr(s, slot, arr(old))
    tags = [E.int("t%d" % i, lo=0, hi=100) for i in range(n)]
    for i in range(n):
        for j in range(i):
            E.assume(E.not_(E.eq(tags[i], tags[j])) if E.symbolic else tags[i] != tags[j])
    dims = [E.choice("dim%d" % i, [0, 1, 2, 3] if i < 2 else [0]) for i in range(n)]
    given = [Child(E, 1, "new", i, dims[i], tags[i], {}) for i in range(n)]
    arg = arr(given)
    E.cover()
    ok = all(x <= d for x in dims)
    try:
        setattr(s, slot, arg)
        acc = True
    except ValueError:
        acc = False
    E.prove("accepts exactly admissible dimensions", acc == ok)
    got = list(getattr(s, slot))
    if not acc:
        E.prove("a refused assignment changes nothing", len(got) == 2 and all(x is y for x, y in zip(got, old)))
        return
    E.prove("keeps each given shape once", len(got) == n and sorted(map(id, got)) == sorted(map(id, given)))
    if slot == "boundary_shapes":
        for x, y in zip(got, got[1:]):
            E.prove("ascending tags", x.tag < y.tag)
    E.prove("the other slot is untouched", len(s.immersed_shapes if slot == "boundary_shapes" else s.boundary_shapes) == 0)


def unit_vertex_rules(E):
    """a vertex admits only vertices, and starts without children"""
    from topology.vertex import Vertex

    v = Vertex(E.int("t", lo=0), E.vec("p", 3))
    d = E.choice("dim", [0, 1, 2, 3])
    c = Child(E, 1, "new", 0, d, 4, {})
    E.cover()
    E.prove("dimension 0, no children", v.dimension == 0 and len(v.boundary_shapes) == 0 and len(v.immersed_shapes) == 0)
    for slot in ("boundary_shapes", "immersed_shapes"):
        try:
            setattr(v, slot, arr([c]))
            acc = True
        except ValueError:
            acc = False
        E.prove("only vertices", acc == (d == 0))


def unit_assign(E):
    kind = E.choice("kind", ["edge", "face", "shell", "solid", "composite"])
    other = E.choice("other", ["edge", "face", "shell", "solid", "composite"])
    a, b = raw(kind, E.int("ta", lo=0)), raw(other, E.int("tb", lo=0))
    da, db = classes()[kind][1], classes()[other][1]
    na, nb = E.choice("na", [0, 2]), E.choice("nb", [0, 1, 3])
    A = [Child(E, 0, "a", i, da - 1, 10 + i, {}) for i in range(na)]
    a.boundary_shapes, a.immersed_shapes = arr(A), arr(A[:1])
    nim = E.choice("nim", [0, 2])
    Bb = [Child(E, 1, "b", i, db - 1, 20 + i, {}) for i in range(nb)]
    Bi = [Child(E, 1, "i", i, db - 1, 30 - i, {}) for i in range(nim)]
    b.boundary_shapes, b.immersed_shapes = arr(Bb), arr(Bi)
    b.physical_tag = E.choice("physical", [None, 7])
    b.active = E.choice("active", [True, False])
    a.physical_tag = 3
    tag_a, tag_b = a.tag, b.tag
    E.cover()
    try:
        a.shape_assignment(b)
        acc = True
    except ValueError:
        acc = False
    E.prove("refused exactly between dimensions or composite kinds", acc == (da == db and classes()[kind][2] == classes()[other][2]))
    E.prove("the source is unchanged", b.tag is tag_b and list(b.boundary_shapes) == Bb and [id(x) for x in b.immersed_shapes] == [id(x) for x in Bi])
    if not acc:
        E.prove("a refused assignment changes nothing", a.tag is tag_a and [id(x) for x in a.boundary_shapes] == [id(x) for x in A] and a.physical_tag == 3)
        return
    E.prove("equal afterwards", truth(E, a == b))
    E.prove("not unequal", E.not_(truth(E, a != b)))
    E.prove("children, tag and physical tag transferred", E.and_(E.eq(a.tag, tag_b), [id(x) for x in a.boundary_shapes] == [id(x) for x in Bb] and [id(x) for x in a.immersed_shapes] == [id(x) for x in Bi] and a.physical_tag == b.physical_tag and a.active == b.active))


def unit_assign_vertex(E):
    from topology.vertex import Vertex

    a, b = Vertex(E.int("ta", lo=0), E.vec("p", 3)), Vertex(E.int("tb", lo=0), E.vec("q", 3))
    b.physical_tag = 5
    E.cover()
    a.shape_assignment(b)
    E.prove("equal afterwards", truth(E, a == b))
    for x, y in zip(a.point, b.point):
        E.prove_eq("coordinates transferred", x, y)
    E.prove_eq("tag transferred", a.tag, b.tag)


def unit_contains(E):
    """a shape contains another exactly when one of its boundary or immersed shapes equals it"""
    kind = E.choice("kind", ["edge", "face", "shell", "solid"])
    d = classes()[kind][1]
    s = raw(kind, 1)
    nb, ni = E.choice("nb", [0, 1, 2]), E.choice("ni", [0, 1, 2])
    tags = [E.int("t%d" % i, lo=0, hi=20, gen=lambda r: r.randint(0, 4)) for i in range(nb + ni)]
    for grp in (tags[:nb], tags[nb:]):  # no shape is listed twice
        for i in range(len(grp)):
            for j in range(i):
                E.assume(E.not_(E.eq(grp[i], grp[j])) if E.symbolic else grp[i] != grp[j])
    eqs = {}
    dims = [E.choice("d%d" % i, [0, 1][: d]) for i in range(nb + ni)]
    ch = [Child(E, 0, "c", i, dims[i], tags[i], eqs) for i in range(nb + ni)]
    s.boundary_shapes, s.immersed_shapes = arr(ch[:nb]), arr(ch[nb:])
    od, ot = E.choice("other dim", [0, 1]), E.int("ot", lo=0, hi=20, gen=lambda r: r.randint(0, 4))
    o = Child(E, 1, "o", 0, od, ot, eqs)
    want = False
    for i in range(nb + ni):
        e = E.bool("e%d" % i) if dims[i] == od else False
        e = E.and_(e, E.eq(tags[i], ot))  # contract of equality: implies same dimension and tag
        eqs[("c", i), ("o", 0)] = e
        want = E.or_(want, e)
    o.composite = E.choice("composite", [False, True])
    E.cover()
    iff(E, "contained exactly when listed", truth(E, o in s), want)


# ---------------------------------------------------------------- run-time contract on whole shapes
def oracle(a, b):
    if (a.dimension, a.tag) != (b.dimension, b.tag):
        return False
    if a.dimension == 0:
        return bool(np.all(np.isclose(a.point, b.point)))
    for x, y in ((a.boundary_shapes, b.boundary_shapes), (a.immersed_shapes, b.immersed_shapes)):
        if len(x) != len(y) or not all(oracle(p, q) for p, q in zip(x, y)):
            return False
    return True


def rand_shape(rng, d, depth=0):
    from topology.vertex import Vertex
    from topology.edge import Edge
    from topology.wire import Wire
    from topology.face import Face
    from topology.shell import Shell
    from topology.solid import Solid

    t = rng.randint(1, 3)
    if d == 0:
        return Vertex(t, np.array([float(rng.randint(0, 1)) for _ in range(3)]))
    tags = rng.sample(range(1, 4), 2)

    def kids(k, n):
        out = []
        for tg in tags[:n]:
            c = rand_shape(rng, k, depth + 1)
            c.tag = tg
            out.append(c)
        return arr(out)

    if d == 1:
        if depth < 2 and rng.random() < 0.25:
            es = arr([Edge(tg, kids(0, 2)) for tg in tags])
            return Wire(t, es, kids(0, 2))
        e = Edge(t, kids(0, 2))
        if rng.random() < 0.3:
            e.immersed_shapes = kids(0, 1)
        return e
    if d == 2:
        if rng.random() < 0.5:
            return Shell(t, kids(1, 1), kids(1, 1))
        f = Face(t, kids(1, rng.randint(1, 2)))
        if rng.random() < 0.4:
            f.immersed_shapes = kids(1, 1)
        return f
    return Solid(t, kids(2, 1))


def perturb(rng, s):
    """change one place of a shape"""
    spots = [s]
    for x in spots:
        spots += list(x.boundary_shapes) + list(x.immersed_shapes)
    x = rng.choice(spots)
    if x.dimension == 0 and rng.random() < 0.5:
        x.point = x.point + np.array([0, 0, 1.0])
    elif rng.random() < 0.5:
        x.tag = x.tag + 10
    elif x.dimension and len(x.immersed_shapes):
        x.immersed_shapes = x.immersed_shapes[1:]
    elif x.dimension:
        x.boundary_shapes = x.boundary_shapes[:-1]
    for y in spots:  # a changed tag keeps the parent's order only through the setter
        if len(y.boundary_shapes):
            y.boundary_shapes = y.boundary_shapes


def bounded_shapes(B):
    import copy

    while B.more() and B.evaluations < (30000 if B.thorough else 4000):
        d = B.rng.choice([0, 1, 1, 2, 2, 3])
        a = rand_shape(B.rng, d)
        b = copy.deepcopy(a) if B.rng.random() < 0.6 else rand_shape(B.rng, B.rng.choice([d, d, B.rng.randint(0, 3)]))
        if B.rng.random() < 0.6:
            perturb(B.rng, b)
        desc = "a=%s b=%s" % (show(a), show(b))

        def run():
            w = oracle(a, b)
            assert bool(a == b) == w, ("==", w)
            assert bool(b == a) == w, ("symmetric", w)
            assert bool(a != b) == (not w), ("!=", w)
            for x in (a, b):
                for s in list(x.boundary_shapes) + list(x.immersed_shapes):
                    assert s in x, "contains its own"
            ok = a.dimension == b.dimension and a.composite == b.composite
            try:
                a.shape_assignment(b)
                acc = True
            except ValueError:
                acc = False
            assert acc == ok, ("assignment accepted", acc)
            if ok:
                assert a == b and oracle(a, b), "equal after assignment"

        B.case("shapes", desc, run)


def show(s):
    if s.dimension == 0:
        return "V%s%s" % (s.tag, tuple(s.point))
    return "%s%s[%s|%s]" % (type(s).__name__, s.tag, ",".join(show(x) for x in s.boundary_shapes), ",".join(show(x) for x in s.immersed_shapes))


CH = "children are shapes whose own equality is the induction hypothesis (structural induction on the shape tree)"
NB = "up to 3 boundary and 3 immersed shapes"
UNITS = [
    Unit("equality", unit_equality, [S + "__eq__", S + "__ne__"], modules=MODS, samples=150, kind="bounded-size", bounds=NB, assumptions=[CH], max_paths=20000, timeout=150, tol=0),
    Unit("kinds", unit_other_kind, [S + "__eq__", "topology.vertex.Vertex.__eq__"], modules=MODS, samples=60, tol=0),
    Unit("vertex equality", unit_vertex, ["topology.vertex.Vertex.__eq__"], modules=MODS, samples=150, tol=0, assumptions=["coordinates within +-1000 that are the same or differ by at least 0.1 in one place"]),
    Unit("children", unit_boundary, [S + "boundary_shapes", S + "immersed_shapes"] + ["topology.%s.admissible_dimensions" % x for x in ("edge.Edge", "face.Face", "shell.Shell", "solid.Solid", "composite_solid.CompositeSolid")], modules=MODS, samples=150,
         kind="bounded-size", bounds="up to 4 children", max_paths=20000, timeout=150, tol=0),
    Unit("vertex rules", unit_vertex_rules, ["topology.vertex.Vertex.__init__", "topology.vertex.Vertex.admissible_dimensions"], modules=MODS, samples=30, tol=0),
    Unit("assignment", unit_assign, [S + "shape_assignment"], modules=MODS, samples=150, kind="bounded-size", bounds=NB, assumptions=[CH], max_paths=20000, tol=0),
    Unit("vertex assignment", unit_assign_vertex, ["topology.vertex.Vertex.shape_assignment"], modules=MODS, samples=60, tol=0),
    Unit("containment", unit_contains, [S + "__contains__"], modules=MODS, samples=150, kind="bounded-size", bounds="up to 2 boundary and 2 immersed shapes", assumptions=[CH], max_paths=20000, tol=0),
]
BOUNDED = [Bounded("shapes", bounded_shapes, [S + "__eq__", S + "__contains__", S + "shape_assignment"], "random shape trees of every dimension, copies with one change", budget=25)]
