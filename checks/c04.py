"""C04 Laue symmetry tables."""
import numpy as np
import torch

from ebsdtorch.crystallography.unit_cell import Cell
from ebsdtorch.ebsd.master_pattern import MasterPattern
from ebsdtorch.s2_and_so3.laue_generators import get_laue_mult, laue_elements
from ebsdtorch.utils.symmetry_classes import point_group_to_laue, space_group_to_laue
from vlib import laue, ref
from vlib.core import Prop

PROP = Prop(
    "C04",
    "a case is one Laue class, one space group, one point-group symbol or one invalid identifier put through one public derivation; "
    "the valid domain is covered exhaustively on every run",
    ["operator sets are compared up to quaternion sign; point-group symbols in the library's own spelling"],
)


@PROP.scenario("operators", thorough_rounds=1)
def operators(m):
    for k in range(1, 12):
        el = m.call(laue_elements, k)
        m.shape(el, (laue.ORDER[k], 4), f"elements:{k}:shape")
        E = ref.npf(el).copy()
        m.expect(el.dtype == torch.float64, "elements:dtype")
        m.close(el[0], torch.tensor([1.0, 0, 0, 0]), 0, "elements:identity-first")
        m.small(abs(np.linalg.norm(E, axis=1) - 1), 1e-15, "elements:unit", rows=el)
        P = ref.qmul(E[:, None].repeat(len(E), 1).reshape(-1, 4), np.tile(E, (len(E), 1)))
        m.small(1 - abs(P @ E.T).max(1), 1e-14, "elements:closed", f"Laue {k}")
        m.small(1 - abs(ref.qconj(E) @ E.T).max(1), 1e-14, "elements:inverses", f"Laue {k}")
        G = abs(E @ E.T) - np.eye(len(E))
        m.small(G.max(), 0.99, "elements:distinct", f"Laue {k}")
        d = abs(E @ laue.GROUPS[k].T)
        m.small(1 - d.max(1), 1e-14, "elements:correct", f"Laue {k}", rows=el)
        m.small(1 - d.max(0), 1e-14, "elements:complete", f"Laue {k}")
        m.expect(int(m.call(get_laue_mult, k)) == 2 * laue.ORDER[k], "multiplicity", f"Laue {k}")
        # repeated calls hand out independent tables
        el.mul_(0)
        m.close(m.call(laue_elements, k), torch.tensor(E), 0, "elements:independent")
        m.seen(("laue", k))
        m.sample(laue=k, order=len(E))


@PROP.scenario("space-groups", thorough_rounds=1)
def space_groups(m):
    z = torch.zeros(3, 3)
    for sg in range(1, 231):
        want = laue.sg_laue(sg)
        m.expect(int(m.call(space_group_to_laue, sg)) == want, "space_group_to_laue", f"space group {sg}", sg=sg)
        m.expect(int(m.call(MasterPattern, z, space_group=sg).laue_group) == want, "master-pattern:space-group", f"space group {sg}", sg=sg)
        m.seen(("sg", sg))
    for _, sym, want in laue.PG:
        m.expect(int(m.call(point_group_to_laue, sym)) == want, "point_group_to_laue", sym)
        m.expect(int(m.call(MasterPattern, z, point_group=sym).laue_group) == want, "master-pattern:point-group", sym)
        m.seen(("pg", sym))
    for k in range(1, 12):
        m.expect(int(m.call(MasterPattern, z, laue_group=k).laue_group) == k, "master-pattern:laue", str(k))
        m.seen(("mp", k))


@PROP.scenario("cells", thorough_rounds=1)
def cells(m):
    for sg in range(1, 231):
        abc, ang = laue.cell_params(sg)
        c = m.call(Cell, sg, [(28, 0.0, 0.0, 0.0, 1.0, 0.005)], abc, "nm", ang, "deg")
        m.expect(int(c.pg_num) == laue.sg_pg(sg), "cell:point-group", f"space group {sg}: {c.pg_num}", sg=sg)
        m.expect(int(c.xtal_system) == laue.sg_system(sg), "cell:crystal-system", f"space group {sg}: {c.xtal_system}", sg=sg)
        m.expect(int(c.laue_group) == laue.sg_laue(sg), "cell:laue", f"space group {sg}: {c.laue_group}", sg=sg)
        m.seen(("cell", sg))


@PROP.scenario("invalid", thorough_rounds=1)
def invalid(m):
    at = [(28, 0.0, 0.0, 0.0, 1.0, 0.005)]
    z = torch.zeros(3, 3)
    for k in (0, -1, -5, -11, 12, 13, 100):
        m.rejects(laue_elements, k, key="reject:laue_elements")
        m.rejects(get_laue_mult, k, key="reject:get_laue_mult")
        m.seen(("laue", k))
    for sg in (0, -1, -225, 231, 232, 1000):
        m.rejects(space_group_to_laue, sg, key="reject:space_group")
        m.rejects(MasterPattern, z, space_group=sg, key="reject:master-pattern")
        m.rejects(Cell, sg, at, (0.4,) * 3, "nm", (90.0,) * 3, "deg", key="reject:cell")
        m.seen(("sg", sg))
    for s in ("", "5", "532", "xyz", "7/m", "1222"):
        m.rejects(point_group_to_laue, s, key="reject:point_group")
        m.rejects(MasterPattern, z, point_group=s, key="reject:master-pattern")
        m.seen(("pg", s))
    m.rejects(MasterPattern, z, key="reject:no-class")
    m.rejects(MasterPattern, z, laue_group=11, space_group=225, key="reject:two-classes")
