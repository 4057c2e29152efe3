"""C27: a product space holds one element per requested cell, and rules that are exact for its fields."""
import itertools
import math

import numpy as np

from ..harness import Unit, Bounded
from .c09 import Stub
from .common import *

PID = "C27"
IMPORTS = ["spaces.product_space"]
D = "spaces.discrete_space.DiscreteSpace."
P = "spaces.product_space.ProductSpace."
FAMILIES = ["Lagrange", "RT", "BDM", "N1E", "N2E"]


def effective(fam, dim):
    """the family used on cells of the dimension"""
    from basis.element_family import family_by_name

    lag = family_by_name("Lagrange")
    return lag if dim <= 1 else fam


def unit_structures(E):
    """one element per cell of the topology, in its order; one boundary element per facet of it with a requested tag"""
    import spaces.discrete_space as m
    from basis.element_family import family_by_name
    from basis.element_type import type_by_dimension

    dim = E.choice("dim", [0, 1, 2, 3])
    name = E.choice("family", FAMILIES)
    comp = E.choice("components", [1, 3])
    disc = E.choice("discontinuous", [False, True])
    nfac = E.choice("facets", [0, 1, 2]) if dim else 0
    k = E.int("k", lo=0, hi=9)
    q = E.int("q", lo=1, hi=30)
    cells = {10 + i: NS(id=10 + i, dimension=dim) for i in range(3)}
    tagged = {}
    for i in range(nfac):
        t = E.choice("tagged%d" % i, [True, False])
        tagged[i] = E.int("m%d" % i, lo=1, hi=50) if t else None
        cells[20 + i] = NS(id=20 + i, dimension=dim - 1, material_id=tagged[i])
    mesh = NS(dimension=3, cells=cells)
    ids = E.choice("cells", [[], [11], [12, 10]])
    bts = [E.int("b%d" % i, lo=1, hi=50) for i in range(E.choice("boundary tags", [0, 1, 2]) if dim else 0)]
    asked, made, maps = [], [], []
    order = {dim: list(ids)}
    if dim:
        order[dim - 1] = [20 + i for i in reversed(range(nfac))]

    def topology(mesh_, dimension):
        E.prove("the topology of the space's own mesh and dimension", mesh_ is mesh and dimension == dim)

        def build(physical_tags=[]):
            asked.append(list(physical_tags))

        def by_dim(d):
            E.contract("MeshTopology: entities of the cells with the tags (C14)")
            E.prove("asks after the topology is built, for a dimension it has", len(asked) > 0 and d in order)
            return list(order[d])

        return NS(mesh=mesh, dimension=dim, build_data_on_pysical_tags=build, entities_by_dimension=by_dim,
                  entities_by_codimension=lambda c: by_dim(c))

    def element(cell_id, family, k_order, mesh, discontinuous=False, integration_order=0):
        e = NS(data=NS(cell=cells[cell_id]), given=(cell_id, family, k_order, mesh, discontinuous, integration_order))
        made.append(e)
        return e

    def dofmap(topo, family, element_type, k_order, variant, discontinuous=False):
        E.prove("numbered over the topology as built", len(asked) > 0)
        r = NS(given=(topo, family, element_type, k_order, discontinuous), comp=None, dimension=None)
        r.set_topological_dimension = lambda d: setattr(r, "dimension", d)

        def build_entity_maps(n_components=1):
            r.comp = n_components

        def dof_number():
            E.prove("counted after numbering", r.comp is not None)
            return 77
        r.build_entity_maps, r.dof_number = build_entity_maps, dof_number
        maps.append(r)
        return r

    tags = E.choice("tags", [[1], [4, 2]])
    E.cover()
    fam = family_by_name(name)
    with Stub(m, MeshTopology=topology, FiniteElement=element, DoFMap=dofmap):
        s = m.DiscreteSpace(dim, comp, name, k, mesh, integration_order=q)
        E.prove("continuous unless asked otherwise", not s.discontinuous)
        if disc:
            s.make_discontinuous()
        for again in (False, True):
            if again:                                      # built anew on other cells
                order[dim] = [10] + list(ids[:0])
                if bts and E.choice("no boundary any more", [False, True]):
                    bts = []
            s.build_structures(list(tags))
            s.build_boundary_structures(list(bts))
            want = order[dim]
            E.prove("the topology is built on the requested tags", asked[-1] == list(tags))
            E.prove("one element per cell, in the order of the topology", [e.data.cell.id for e in s.elements] == want and list(s.element_ids) == want)
            E.prove("cells are found by id", dict(s.id_to_element) == {i: j for j, i in enumerate(want)})
            for e in s.elements:
                i, f, kk, mm, dd, qq = e.given
                E.prove("of the declared family", effective(f, dim) == effective(fam, dim))
                E.prove("of the declared order", E.eq(kk, k))
                E.prove("on the space's mesh, as continuous as asked, with the common integration order", E.conj([mm is mesh, bool(dd) == disc, E.eq(qq, q)]))
            topo, f, et, kk, dd = s.dof_map.given
            E.prove("numbered with the same family, order and continuity", E.conj([effective(f, dim) == effective(fam, dim) and (dim > 1 or f == effective(fam, dim)), E.eq(kk, k), bool(dd) == disc]))
            E.prove("numbered on the reference cell of the dimension", et == type_by_dimension(dim) and s.dof_map.dimension == dim)
            E.prove("numbered with all components", s.dof_map.comp == comp and s.n_dof == 77)
            got = [e.data.cell.id for e in s.bc_elements]
            E.prove("no boundary elements where none were requested", E.disj([len(got) == 0, len(bts) > 0]))
            E.prove("boundary cells come in the order of the topology, once", list(s.bc_element_ids) == got and got == [i for i in order.get(dim - 1, []) if i in got])
            E.prove("boundary cells are found by id", dict(s.id_to_bc_element) == {i: j for j, i in enumerate(got)})
            for i in range(nfac if bts else 0):
                inq = E.disj([E.eq(tagged[i], b) for b in bts]) if tagged[i] is not None else False
                if (20 + i) in got:
                    E.prove("boundary elements only where a boundary tag was requested", inq)
                else:
                    E.prove("a boundary element wherever a boundary tag was requested", E.not_(inq) if tagged[i] is not None else True)
            for e in s.bc_elements:
                i, f, kk, mm, dd, qq = e.given
                E.prove("boundary elements on the space's mesh with the common integration order", E.conj([mm is mesh, E.eq(qq, q)]))
                if name in ("Lagrange", "RT", "BDM"):
                    E.prove("traces are piecewise polynomials", effective(f, dim - 1) == family_by_name("Lagrange"))
                    if dim == 1:
                        E.prove("of order 0 on points", E.eq(kk, 0)) if name == "Lagrange" else None
                    else:
                        E.prove("of the order of the trace", E.eq(kk, k - 1 if name == "RT" else k))
                        E.prove("as continuous as the trace", bool(dd) == (disc or name != "Lagrange"))


def unit_product(E):
    """one space per declared field; a common quadrature exact to degree 2k+1 for every order k"""
    import spaces.product_space as m
    from basis.element_type import type_by_dimension

    n = E.choice("fields", [1, 2, 3])
    names = ["b", "a", "c"][:n]
    ks = [E.int("k%d" % i, lo=0, hi=8) for i in range(n)]
    dims = [E.choice("d%d" % i, [0, 1, 2, 3] if n < 3 else [0, 2]) for i in range(n)]
    mesh = object()
    data = {nm: (dims[i], 1 + i, FAMILIES[i], ks[i], mesh) for i, nm in enumerate(names)}
    made, built = [], []

    def space(dimension, n_components, family, k_order, mesh, integration_order=0):
        s = NS(given=(dimension, n_components, family, k_order, mesh), dimension=dimension, q=integration_order, name="", disc=False, dof_map=NS(dof_number=lambda: 3))
        s.make_discontinuous = lambda: setattr(s, "disc", True)
        s.build_structures = lambda tags=[None]: built.append((s, "cells", list(tags)))
        s.build_boundary_structures = lambda tags=[None]: built.append((s, "boundary", list(tags)))
        made.append(s)
        return s

    class Basix:
        class QuadratureType:
            gauss_jacobi = "gauss_jacobi"

        @staticmethod
        def make_quadrature(celltype, degree, rule=None, *a, **kw):
            E.contract("basix.make_quadrature: exact on the cell to the degree")
            return (celltype, degree)

    E.cover()
    with Stub(m, DiscreteSpace=space, basix=Basix):
        p = m.ProductSpace(dict(data))
        E.prove("the declared fields, in order", list(p.discrete_spaces) == names and list(p.names) == names and len(made) == n)
        E.prove("the largest dimension", p.dimension() == max(dims))
        for i, nm in enumerate(names):
            s = p.discrete_spaces[nm]
            E.prove("a space as declared", s.given[:3] == (dims[i], 1 + i, FAMILIES[i]) and s.given[4] is mesh and s.name == nm)
            E.prove("of the declared order", E.eq(s.given[3], ks[i]))
            E.prove("the integration order fits every field", E.conj([E.le(2 * kk + 1, s.q) for kk in ks]))
        for d in range(max(dims) + 1):
            if d == 0:
                E.prove("the rule of a point", np.array_equal(np.ravel(p.quadrature[0][1]), [1.0]) and len(p.quadrature[0][0]) == 1)
            else:
                E.prove("the rule is for the cell of the dimension", p.quadrature[d][0] == type_by_dimension(d))
                E.prove("products of functions are integrated exactly", E.conj([E.le(2 * kk + 1, p.quadrature[d][1]) for kk in ks]))
        for d in sorted({x - 1 for x in dims if x > 0}):
            if d == 0:
                E.prove("the boundary rule of a point", np.array_equal(np.ravel(p.bc_quadrature[0][1]), [1.0]) and len(p.bc_quadrature[0][0]) == 1)
            else:
                E.prove("the boundary rule is for the cell of the dimension", p.bc_quadrature[d][0] == type_by_dimension(d))
                E.prove("products of traces are integrated exactly", E.conj([E.le(2 * kk + 1, p.bc_quadrature[d][1]) for kk in ks]))
        disc = {nm: v for nm, v in zip(names, E.choice("discontinuous", [(None, True, False), (True, False, None), (False, None, True)])) if v is not None}
        p.make_subspaces_discontinuous(dict(disc, other=True))
        E.prove("exactly the named fields become discontinuous", [bool(p.discrete_spaces[nm].disc) for nm in names] == [disc.get(nm, False) for nm in names])
        p.build_structures({nm: [i + 1] for i, nm in enumerate(names) if i != 1}, {nm: [i + 11] for i, nm in enumerate(names) if i != 2})
        E.prove("the physical tags of the fields are on record", all(set(p.fields_physical_tags[nm]) == {i + 1} for i, nm in enumerate(names) if i != 1))
        for i, nm in enumerate(names):
            s = p.discrete_spaces[nm]
            E.prove("each field is built once on its own tags", [t for o, w, t in built if o is s and w == "cells"] == [[i + 1] if i != 1 else [None]])
            E.prove("each field's boundary is built on its own tags", [t for o, w, t in built if o is s and w == "boundary" and t] == ([[i + 11]] if i != 2 else []))


def monomials(d, deg):
    return [e for e in itertools.product(range(deg + 1), repeat=d) if sum(e) <= deg]


def bounded_spaces(B):
    from basis.element_family import family_by_name
    from spaces.product_space import ProductSpace
    from .meshes import cleanup, random_mesh
    import contextlib
    import io

    while B.more() and B.evaluations < (2000 if B.thorough else 120):
        dim = B.rng.choice([1, 2, 2, 3])
        mesh, info = random_mesh(B.rng, B.nrng, dim, boundary_tags=B.rng.random() < 0.8, regions=True, interior_tags=B.rng.random() < 0.3)
        names = B.rng.sample(["u", "p", "q", "a"], B.rng.randint(1, 3))
        data, tags, btags, disc = {}, {}, {}, {}
        have = {d: sorted({c.material_id for c in mesh.cells if c.dimension == d and c.material_id is not None}) for d in range(dim + 1)}
        for nm in names:
            d = B.rng.choice([dim, dim, dim, B.rng.randint(0, dim)])
            fam = B.rng.choice(FAMILIES)
            if d == 0 or not have[d]:
                d = dim if not have[d] else d
            k = 0 if d == 0 else B.rng.randint(1, 3 if dim < 3 else 2)
            data[nm] = (d, B.rng.choice([1, 2, 3]), fam, k)
            pool = have[d] + [None] * (d < dim) + [99]
            tags[nm] = B.rng.sample(have[d], B.rng.randint(1, len(have[d]))) + B.rng.choice([[], [99]])
            btags[nm] = B.rng.sample(have[d - 1], B.rng.randint(0, len(have[d - 1]))) if d else []
            disc[nm] = B.rng.random() < 0.3
        earlier = None
        if B.rng.random() < 0.5:     # built before, for other tags
            earlier = ({nm: B.rng.sample(have[v[0]], B.rng.randint(1, len(have[v[0]]))) for nm, v in data.items()},
                       {nm: B.rng.sample(have[v[0] - 1], B.rng.randint(0, len(have[v[0] - 1]))) if v[0] else [] for nm, v in data.items()})
        desc = dict(earlier=earlier, dim=dim, cells=len(mesh.cells), fields=data, tags=tags, boundary_tags=btags, discontinuous=disc)

        def run():
            with contextlib.redirect_stdout(io.StringIO()):
                p = ProductSpace({nm: v + (mesh,) for nm, v in data.items()})
                p.make_subspaces_discontinuous(disc)
                if earlier:
                    p.build_structures(*earlier)
                p.build_structures(tags, btags)
            deg = 2 * max(v[3] for v in data.values()) + 1
            for nm, (d, comp, fam, k) in data.items():
                s = p.discrete_spaces[nm]
                want = sorted(c.id for c in mesh.cells if c.dimension == d and c.material_id in tags[nm])
                assert sorted(e.data.cell.id for e in s.elements) == want, ("elements", nm)
                assert [e.data.cell.id for e in s.elements] == list(s.element_ids), ("order", nm)
                assert all(s.elements[j].data.cell.id == i for i, j in s.id_to_element.items()) and len(s.id_to_element) == len(want), ("index", nm)
                facets = {int(i) for c in want for i in mesh.cells[c].sub_cells_ids[d - 1]} if d else set()
                bwant = sorted(i for i in facets if mesh.cells[i].material_id in btags[nm] and btags[nm])
                assert sorted(e.data.cell.id for e in s.bc_elements) == bwant, ("boundary elements", nm)
                assert all(s.bc_elements[j].data.cell.id == i for i, j in s.id_to_bc_element.items()) and len(s.id_to_bc_element) == len(bwant), ("boundary index", nm)
                for e in s.elements:
                    b = e.basis_generator
                    assert b.family == effective(family_by_name(fam), d) and b.degree == k and bool(b.discontinuous) == disc[nm], ("element", nm, b.family, b.degree)
                    assert all(x == y for x, y in zip(e.data.dof.entity_dofs, b.entity_dofs)), ("degrees of freedom", nm)
                for dd, rule in ((d, p.quadrature[d]), (d - 1, p.bc_quadrature[d - 1] if d else None)):
                    if rule is None:
                        continue
                    if dd == 0:
                        assert abs(np.sum(rule[1]) - 1) < 1e-14, "rule of a point"
                        continue
                    X, w = rule
                    for e in monomials(dd, deg):
                        exact = math.prod(math.factorial(i) for i in e) / math.factorial(sum(e) + dd)
                        got = float(np.sum(w * np.prod(X ** np.array(e), axis=1)))
                        assert abs(got - exact) <= 1e-11, ("quadrature", dd, e, got, exact)

        B.case("product space:d%d" % dim, desc, run)
    cleanup()


UNITS = [
    Unit("elements of a field", unit_structures, [D + "__init__", D + "build_structures", D + "_build_dof_map", D + "_build_elements", D + "build_boundary_structures", D + "_build_bc_elements", D + "family"],
         modules=["spaces.discrete_space"], samples=200, max_paths=40000, timeout=150, kind="bounded-size", bounds="up to 2 cells and 2 facets, up to 2 boundary tags; any order and tags",
         assumptions=["contracts of MeshTopology (C14), DoFMap (C02) and FiniteElement (C22)"]),
    Unit("fields and rules", unit_product, [P + "__init__", P + "build_structures", P + "make_subspaces_discontinuous", P + "dimension"],
         modules=["spaces.product_space"], samples=200, max_paths=40000, timeout=150, kind="bounded-size", bounds="up to 3 fields of any order", assumptions=["basix.make_quadrature is exact to the degree asked for (checked on monomials in the bounded part)"]),
]
BOUNDED = [Bounded("product spaces", bounded_spaces, [P + "__init__", P + "build_structures", D + "build_structures", D + "build_boundary_structures", "mesh.mesh.Mesh.build_graph_on_physical_tags"],
                   "random meshes of dimension 1..3 with regions, 1-3 fields of any dimension, family and order, random selections of tags; every monomial up to the degree integrated", budget=25)]
