"""C03: product spaces put fields in disjoint contiguous blocks."""
import contextlib

import numpy as np

from ..harness import Unit, Bounded
from .c09 import Stub
from .common import *

PID = "C03"
IMPORTS = ["spaces.product_space", "spaces.md_product_space"]
P = "spaces.product_space.ProductSpace."
MD = "spaces.md_product_space.MDProductSpace."
NAMES = ["zeta", "alpha", "mid", "beta"]


class Stubs:
    """fields with the contracts of C02: n degrees of freedom, destination blocks inside 0..n-1"""

    def __init__(self, E, n, nel):
        self.E = E
        self.sizes, self.dest, self.bdest, self.nbc = {}, {}, {}, {}
        self.built = []
        import networkx as nx

        for i in range(n):
            nm = NAMES[i]
            self.sizes[nm] = E.int("size_" + nm, lo=0, hi=10**6, gen=lambda r: r.randint(3, 12))
            self.nbc[nm] = E.choice("boundary elements " + nm, [2, 0] if i else [2])
            for e in range(nel):
                m = E.choice("local size %s" % nm, [0, 2, 3]) if e == 0 and i < 2 else 2
                self.dest[nm, e] = self.block("d_%s_%d" % (nm, e), m, self.sizes[nm])
            for e in range(self.nbc[nm]):
                self.bdest[nm, e] = self.block("b_%s_%d" % (nm, e), 1 + (i + e) % 2, self.sizes[nm])

    def block(self, name, m, size):
        b = np.empty(m, dtype=object if self.E.symbolic else int)
        for j in range(m):
            b[j] = self.E.int("%s_%d" % (name, j), lo=0, gen=lambda r: r.randint(0, 2))
            self.E.assume(b[j] < size)
        return b

    def make(self, dim, comp, fam, order, mesh, integration_order=0):
        import networkx as nx

        st = self
        nm = fam  # the family slot carries the ghost name of the field
        g = nx.DiGraph()
        off = 100 * (1 + NAMES.index(nm))  # cell ids differ from field to field

        def cell(i, d):
            return NS(id=i, dimension=d, index=lambda: (d, i))

        tops = [cell(off + 3 - e, dim) for e in range(2)]
        facets = [cell(off + 50 - 2 * e, dim - 1) for e in range(st.nbc[nm])]
        for j, f in enumerate(facets):
            g.add_edge(tops[1 - j % 2].index(), f.index())
            if j:
                g.add_edge(tops[0].index(), f.index())
        topids = {c.id: e for e, c in enumerate(tops)}
        fids = {c.id: e for e, c in enumerate(facets)}

        def destination_indices(cell_id):
            st.E.contract("DoFMap.destination_indices")
            st.E.prove("asks for the field's own cell", cell_id in topids)
            return st.dest[nm, topids[cell_id]].copy()

        def bc_destination_indices(cell_id, bc_cell_id):
            st.E.contract("DoFMap.bc_destination_indices")
            st.E.prove("asks for the field's own boundary cell", bc_cell_id in fids)
            st.E.prove("through a cell that contains it", cell_id in topids and g.has_edge((dim, cell_id), (dim - 1, bc_cell_id)))
            return st.bdest[nm, fids[bc_cell_id]].copy()

        topo = NS(entity_map_by_dimension=lambda d: g, entity_map_by_codimension=lambda d: g)
        return NS(name="", dimension=dim, n_comp=comp, k_order=order, elements=[NS(data=NS(cell=c)) for c in tops],
                  bc_elements=[NS(data=NS(cell=c)) for c in facets], element_ids=[c.id for c in tops], bc_element_ids=[c.id for c in facets],
                  id_to_element=topids, id_to_bc_element=fids, mesh_topology=topo,
                  dof_map=NS(dof_number=lambda: st.sizes[nm], n_dof=st.sizes[nm], mesh_topology=topo,
                             destination_indices=destination_indices, bc_destination_indices=bc_destination_indices),
                  n_dof=st.sizes[nm],
                  build_structures=lambda tags: st.built.append((nm, list(tags))),
                  build_boundary_structures=lambda tags: st.built.append((nm + ":bc", list(tags))), make_discontinuous=lambda: None)


def product(E, n, nel, md=False):
    import spaces.product_space as ps

    st = Stubs(E, n, nel)
    names = NAMES[:n]
    data = {nm: (2, 1, nm, 1 + i % 3, None) for i, nm in enumerate(names)}
    with Stub(ps, DiscreteSpace=lambda *a, **k: st.make(*a, **k)):
        p = ps.ProductSpace(data)
    tags = {nm: [i + 1] for i, nm in enumerate(names) if i != 1}
    btags = {nm: [i + 11] for i, nm in enumerate(names) if i != 2}
    if md:
        import spaces.md_product_space as mp

        q = mp.MDProductSpace({2: p})
        q.discrete_spaces = p.discrete_spaces
        q._define_discrete_spaces_dof()
        q._define_n_dof()
        p = q
    else:
        p.build_structures(tags, btags)
        for i, nm in enumerate(names):
            E.prove("each field is built on its own tags, once", st.built.count((nm, tags.get(nm, [None]))) == 1 and sum(a == nm for a, _ in st.built) == 1)
            E.prove("each field's boundary is built on its own tags, once", st.built.count((nm + ":bc", btags.get(nm, []))) == 1)
    return p, st, names


def offsets(E, st, names, shift):
    off, o = {}, shift
    for nm in names:
        off[nm] = o
        o = o + st.sizes[nm]
    return off, o


def check_dict(E, got, want, names, what):
    E.prove(what + ": the fields, in declaration order", [k for k in got] == [k for k in names if k in want])
    for nm in want:
        E.prove(what + ": the field's own count", len(got[nm]) == len(want[nm]))
        for a, b in zip(got[nm], want[nm]):
            E.prove_eq(what + ": own index plus the sizes of earlier fields plus the shift", a, b)


def check_flat(E, got, want, what):
    E.prove(what + ": count", len(got) == len(want))
    for a, b in zip(got, want):
        E.prove_eq(what + ": concatenated in declaration order", a, b)


def unit_fields(md):
    def fn(E):
        n = E.choice("fields", [1, 2, 3, 4] if not md else [1, 3])
        p, st, names = product(E, n, 2, md)
        shift = 0
        if not md:
            shift = E.choice("shift", [0, 1, 2**33])
            if shift:
                p.dof_shift = E.choice("as", [int, np.int64])(shift)
        E.cover()
        e = E.choice("cell", [0, 1])

        def ask(shift, again=""):
            off, end = offsets(E, st, names, shift)
            E.prove_eq(again + "total size", p.n_dof, end - shift)
            want = {nm: [x + off[nm] for x in st.dest[nm, e]] for nm in names}
            check_dict(E, p.discrete_spaces_destination_indexes(e), want, names, again + "indices")
            check_flat(E, p.destination_indexes(e), [x for nm in names for x in want[nm]], again + "indices")
            check_dict(E, p.discrete_spaces_destination_indexes(e), want, names, again + "asked again")
            bn = [nm for nm in names if st.nbc[nm]]
            bwant = {nm: [x + off[nm] for x in st.bdest[nm, e]] for nm in bn}
            check_dict(E, p.discrete_spaces_bc_destination_indexes(e), bwant, bn, again + "boundary indices")
            check_flat(E, p.bc_destination_indexes(e), [x for nm in bn for x in bwant[nm]], again + "boundary indices")
            if not md:
                for nm in names:
                    check_flat(E, p.destination_indexes(e, nm), want[nm], again + "one field")
                    check_flat(E, p.destination_indexes(e, field_name=nm), want[nm], again + "one field by name")
                for nm in bn:
                    check_flat(E, p.bc_destination_indexes(e, nm), bwant[nm], again + "one field on the boundary")
            return want

        want = ask(shift)
        if not md:
            p.dof_shift = shift + 4
            ask(shift + 4, "after a change of the shift: ")
            p.dof_shift = shift
            st.sizes[names[0]] = st.sizes[names[0]] + 2
            p.build_structures({}, {})
            want = ask(shift, "built anew with other field sizes: ")
        for i, a in enumerate(names):
            for b in names[:i]:
                for x in want[a][:2]:
                    for y in want[b][:2]:
                        E.prove("different fields share no index", y < x)

    return fn


def unit_shift(E):
    import spaces.product_space as ps

    p = ps.ProductSpace.__new__(ps.ProductSpace)
    p._define_dof_shift()
    E.prove("zero by default", p.dof_shift == 0)
    start = E.choice("start", [0, 4])
    p.dof_shift = start
    good = [0, 1, 2, 17, 10**9, np.int64(5), np.int32(6), np.int16(7), np.uint8(8), np.int64(0), 2**40]
    bad = [-1, -2, -10**6, np.int64(-3), np.int8(-1), 0.0, 1.0, 2.5, -0.5, np.float64(3.0), "3", None, [1], (2,), np.array([1.0]), float("nan"), 1j]
    v = E.choice("value", good + bad)
    E.cover()
    ok = any(v is g for g in good)
    try:
        p.dof_shift = v
        acc = True
    except (TypeError, ValueError):
        acc = False
    E.prove("accepts exactly the non-negative integers", acc == ok)
    E.prove("keeps the accepted value, or the old one", p.dof_shift == (v if ok else start))


PROD = [("RT", "Lagrange"), ("BDM", "Lagrange"), ("Lagrange", "Lagrange", "Lagrange"), ("RT", "Lagrange", "Lagrange"), ("Lagrange", "N1E"), ("Lagrange",)]


def bounded_products(B):
    from .meshes import random_mesh, cleanup
    from spaces.product_space import ProductSpace

    while B.more() and B.evaluations < (1500 if B.thorough else 120):
        dim = B.rng.choice([2, 2, 3])
        st = {}

        def run():
            m, info = random_mesh(B.rng, B.nrng, dim, n=B.rng.randint(dim + 1, 6))
            fams = B.rng.choice(PROD)
            names = B.rng.sample(["q", "u", "s", "a"], len(fams))
            data = {nm: (dim, B.rng.choice([1, 2]), f, B.rng.choice([1, 2]), m) for nm, f in zip(names, fams)}
            shift = B.rng.choice([0, 0, 5, 2**33])
            st.update(mesh=info.desc, fields={k: v[:4] for k, v in data.items()}, shift=shift)
            here = sorted({int(c.material_id) for c in m.cells if c.dimension == dim})
            p = ProductSpace(data)
            if B.rng.random() < 0.5:
                p.make_subspaces_discontinuous({nm: B.rng.random() < 0.5 for nm in names})
            bt = {nm: [10, 11] for nm in names if B.rng.random() < 0.7}
            p.build_structures({nm: here for nm in names}, bt)
            if B.rng.random() < 0.5:  # a history of earlier queries and other shifts
                p.dof_shift = shift + 9
                for e in range(len(p.discrete_spaces[names[0]].elements)):
                    p.destination_indexes(e), p.destination_indexes(e, names[-1])
                if B.rng.random() < 0.5:
                    p.make_subspaces_discontinuous({names[0]: True})
                    p.build_structures({nm: here for nm in names}, bt)
                st.update(history=True)
            p.dof_shift = shift
            off, o = {}, shift
            for nm in names:
                off[nm] = o
                o += p.discrete_spaces[nm].dof_map.dof_number()
            assert p.n_dof == o - shift, "total size"
            hit = {nm: set() for nm in names}
            first = p.discrete_spaces[names[0]]
            for e in range(len(first.elements)):
                flat = []
                for nm in names:
                    sp = p.discrete_spaces[nm]
                    w = [int(i) + off[nm] for i in sp.dof_map.destination_indices(sp.elements[e].data.cell.id)]
                    assert [int(i) for i in p.destination_indexes(e, nm)] == w, ("field", nm)
                    hit[nm].update(w)
                    flat += w
                assert [int(i) for i in p.destination_indexes(e)] == flat, "concatenation"
            allh = [i for nm in names for i in sorted(hit[nm])]
            assert allh == list(range(shift, o)), "the cells reach every index of every block once"
            bn = [nm for nm in names if len(p.discrete_spaces[nm].bc_elements)]
            for e in range(len(p.discrete_spaces[bn[0]].bc_elements) if bn else 0):
                flat = []
                for nm in bn:
                    sp = p.discrete_spaces[nm]
                    f = sp.bc_elements[e].data.cell
                    c = next(c for c in m.cells if c.dimension == dim and f.id in [int(i) for i in c.sub_cells_ids[dim - 1]])
                    w = [int(i) + off[nm] for i in sp.dof_map.bc_destination_indices(c.id, f.id)]
                    assert [int(i) for i in p.bc_destination_indexes(e, nm)] == w, ("boundary field", nm)
                    flat += w
                assert [int(i) for i in p.bc_destination_indexes(e)] == flat, "boundary concatenation"

        B.case("product", st, run)
    cleanup()


SZ = "field sizes and own indices are arbitrary symbolic integers (0 <= index < size); the field spaces obey the contract of C02"
UNITS = [
    Unit("fields", unit_fields(False), [P + "__init__", P + "build_structures", P + "discrete_spaces_destination_indexes", P + "destination_indexes", P + "discrete_spaces_bc_destination_indexes",
                                        P + "bc_destination_indexes", P + "_retrieve_space_destination_indexes", P + "_retrieve_space_bc_destination_indexes", P + "_define_n_dof", P + "_define_discrete_spaces_dof"],
         modules=["spaces.product_space"], samples=60, kind="bounded-size", bounds="up to 4 fields, 0-3 own indices per cell, shifts 0, 1, 2^33", assumptions=[SZ], tol=0, timeout=150, max_paths=20000),
    Unit("mixed-dimensional fields", unit_fields(True), [MD + "discrete_spaces_destination_indexes", MD + "destination_indexes", MD + "discrete_spaces_bc_destination_indexes", MD + "bc_destination_indexes"],
         modules=["spaces.md_product_space", "spaces.product_space"], samples=40, kind="bounded-size", bounds="up to 3 fields", assumptions=[SZ], tol=0),
    Unit("shift", unit_shift, [P + "dof_shift"], modules=["spaces.product_space"], samples=20, kind="bounded-size", bounds="a stated list of values of every kind", tol=0),
]
BOUNDED = [Bounded("products", bounded_products, [P + "__init__", P + "build_structures"], "random meshes, field combinations, shifts, boundary selections", budget=40)]
