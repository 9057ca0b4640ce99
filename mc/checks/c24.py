"""C24: plots show the structure that is simulated."""

import itertools
import types

import numpy as np

from ..core import tonp
from ..lib import LATS, epsilon, lattice, layers, nn, plane_wave

ID = "C24"
LAT24 = ["sq", "rect", "obl", "hex", [[1.0, 0.0], [-0.5, 0.9]], [[0.3, 1.1], [-0.9, 0.4]], "1d"]
PAT = [["L", 4, 1], ["blk", [3, 0.5], 2], ["gr", 5, 1.5], ["sx", 1, 6]]
BOUND = {
    "quick": "layers: 7 lattices x 4 discretizations x 4 patterns x {real, imaginary part} x 6 numbers of periods; structures: 7 lattices x 4 "
    "discretizations x 7 stacks (uniform, patterned, without thickness, air) x 4 numbers of periods x 5 combinations of gap, thickness given to layers without one, and colours",
    "thorough": "the same with 8 discretizations",
}
RULE = (
    "state: (structure, period, layer, value of the permittivity); transition: one tile or mesh compared with the position, extent and value "
    "of the pixels of the layer; trace: one plot"
)
STK = {
    "one": [[0.0, 1.0], [0.3, PAT[0]], [0.0, 2.0]],
    "uniform": [[0.5, 2.0], [0.3, 4.0], [0.2, 1.0], [0.1, {"c": [3, 0.5]}], [0.0, 1.0]],
    "none": [[None, 2.0], [0.3, PAT[1]], [None, 3.0]],
    "air": [[0.0, 1.0], [0.4, 1.0], [0.3, PAT[0]], [0.2, 1.0], [0.0, 1.0]],
    "two": [[0.0, 1.5], [0.3, PAT[0]], [0.2, 3.0], [0.7, PAT[3]], [0.0, 1.0]],
    "smooth": [[0.0, 1.0], [0.3, PAT[2]], [0.0, 2.0]],
    "thin": [[0.0, 1.0], [0.0, PAT[0]], [0.25, 2.0], [0.0, 2.0]],
}


def cases(tier):
    disc = [[6, 6], [5, 7], [8, 3], [4, 9]] + ([[3, 3], [12, 5], [7, 7], [2, 6]] if tier == "thorough" else [])
    out = []
    for l, d in itertools.product(LAT24, disc):
        out.append(["layer", l, d])
    for l, d, s in itertools.product(LAT24, disc, STK):
        out.append(["structure", l, d, s])
    return out


class Recorder:
    """Stands for the 3D plotter."""

    def __init__(self):
        self.meshes = []
        self.camera = types.SimpleNamespace(azimuth=0, elevation=0, roll=0)

    def add_mesh(self, mesh, **kw):
        self.meshes.append((mesh, kw))

    def show_axes(self):
        pass


def run(case, rec):
    n = nn()
    disc = case[2] if case[1] != "1d" else [case[2][0], 1]
    lat = lattice(case[1] if isinstance(case[1], str) else tuple(tuple(v) for v in case[1]), case[2][0] if case[1] == "1d" else disc)
    bv = case[1] if not isinstance(case[1], str) else LATS[case[1]]
    if np.ndim(bv) == 0:
        bv = np.array(lat.basis_vectors, float)
    bv = np.array(bv, float)
    if case[0] == "layer":
        import matplotlib.pyplot as plt

        if case[1] == "1d":
            return rec.check(True, "")
        for p, comp, nper, cell in itertools.product(PAT, ("re", "im"), (1, 2, (1, 3), (2, 1), (3, 2), [2, 2]), (False, True)):
            fig, ax = plt.subplots()
            lay = lat.Layer("x", thickness=1, epsilon=n.backend.array(epsilon(p, tuple(disc))))
            tag = f"lattice {case[1]}, {disc} pixels, {p}, {comp}, {nper} periods: "
            ims = lay.plot(nper=nper, ax=ax, comp=comp, show_cell=cell)
            nx, ny = (nper, nper) if isinstance(nper, int) else nper
            val = epsilon(p, tuple(disc))
            val = val.real if comp == "re" else val.imag
            g = tonp(lat.grid)
            seen = set()
            rec.check(len(ims) == nx * ny, tag + f"{len(ims)} tiles")
            for im in ims:
                arr = np.asarray(im.get_array()).reshape(tuple(disc))
                rec.close(arr, val, tag + "values", tol=1e-12)
                tr = im.get_transform() - ax.transData
                o = tr.transform(np.array([[0.0, 0.0], [1.0, 0.0], [0.0, 1.0]]))
                rec.close(o[1:] - o[0], np.eye(2), tag + "tile deformed", tol=1e-9)
                ij = np.linalg.solve(bv.T, o[0])
                rec.close(ij, np.round(ij), tag + "tile not at a lattice point", tol=1e-9)
                seen.add(tuple(int(v) for v in np.round(ij)))
                # centre of the cells: the position of the pixels
                c = np.asarray(im.get_coordinates())
                rec.close(np.asarray([c[..., 0].mean(), c[..., 1].mean()]), g.reshape(2, -1).mean(1), tag + "position", tol=1e-9)
                mid = 0.25 * (c[:-1, :-1] + c[1:, :-1] + c[:-1, 1:] + c[1:, 1:])
                rec.close(mid, np.moveaxis(g, 0, -1), tag + "positions of the pixels", tol=1e-9)
                rec.step()
            rec.check(seen == set(itertools.product(range(nx), range(ny))), tag + f"tiles at {sorted(seen)}")
            x0, x1 = ax.get_xlim()
            y0, y1 = ax.get_ylim()
            cor = np.array([i * bv[0] + j * bv[1] for i in (0, nx) for j in (0, ny)])
            ok = x0 <= cor[:, 0].min() and x1 >= cor[:, 0].max() and y0 <= cor[:, 1].min() and y1 >= cor[:, 1].max()
            rec.check(ok, tag + f"limits {x0, x1, y0, y1} cut the tiles")
            if cell:
                pts = {tuple(np.round(q, 9)) for ln in ax.lines for q in np.transpose(ln.get_data())}
                want = {tuple(np.round(q, 9)) for q in (0 * bv[0], bv[0], bv[1], bv[0] + bv[1])}
                rec.check(pts == want, tag + f"unit cell {sorted(pts)}")
            rec.trace()
            rec.state(tag, cell)
            plt.close(fig)
        try:
            lay.plot(comp="abs")
            rec.check(False, "unknown component accepted")
        except ValueError:
            rec.check(True, "")
        rec.outcome(disc)
        plt.close("all")
        return
    _, _, _, sname = case
    st = STK[sname]
    L = layers(lat, st)
    sim = n.Simulation(L, plane_wave(), nh=1)
    tmax = max(d or 0 for d, _ in st)
    opts = [(0.0, None, False), (0.15, None, True), (0.0, 0.4, True), (0.15, 2, False), (0.0, 2, False)]
    for nper, (dz, null, colors) in itertools.product(((1, 1), (2, 1), (1, 2), (2, 3)), opts):
        if sname == "smooth" and (nper[1] > 1 or colors):
            continue
        tag = f"lattice {case[1]}, {disc} pixels, stack {sname}, {nper} periods, gap {dz}, null thickness {null}: "
        kw = {}
        if colors:
            cols = []
            for i, (d, e) in enumerate(st):
                if isinstance(e, list):
                    cols.append([f"{i}-{k}" for k in range(len(np.unique(epsilon(e, tuple(disc)).real)))])
                else:
                    cols.append(f"{i}")
            kw["layer_colors"] = cols
        r = Recorder()
        out = sim.plot_structure(plotter=r, nper=nper, dz=dz, null_thickness=null, **kw)
        rec.check(out is r, tag + "the plotter is not returned")
        rec.trace()
        # expected solids: (layer, value, tile) -> set of cells
        expect = {}
        for tx, ty in itertools.product(range(nper[0]), range(nper[1])):
            z = 0.0
            for i, (d, e) in enumerate(st):
                t = (d or 0) or (null or tmax)
                val = epsilon(e, tuple(disc))
                if np.ndim(val) == 0:
                    if np.real(val) != 1:
                        expect[i, None, tx, ty] = (z, t, 1.0, None)
                else:
                    for k, v in enumerate(np.unique(val.real)):
                        if v != 1:
                            px = np.argwhere(np.abs(val.real - v) <= 1e-7 * abs(v))
                            expect[i, k, tx, ty] = (z, t, len(px) / val.size, px)
                z += t + dz
        rec.check(len(r.meshes) == len(expect), tag + f"{len(r.meshes)} solids, {len(expect)} expected")
        area = abs(np.linalg.det(bv))
        found = []
        for mesh, k in r.meshes:
            b = mesh.bounds
            vol = float(mesh.volume) if mesh.n_cells == 6 else None
            cen = np.array(sorted(tuple(v) for v in np.round(tonp(mesh.cell_centers().points)[:, :2].astype(float), 4)))
            found.append((b, cen, vol, k))
        for key, (z, t, frac, px) in expect.items():
            i, kv, tx, ty = key
            org = tx * bv[0] + ty * bv[1]
            if px is None:
                want_c = [org + 0.5 * (bv[0] + bv[1])]
            else:
                want_c = [org + (a + 0.5) / disc[0] * bv[0] + (c + 0.5) / disc[1] * bv[1] for a, c in px]
            want_c = np.array(sorted(tuple(np.round(w, 6)) for w in want_c))
            hit = None
            for b, cen, vol, k in found:
                if abs(b[4] - z) > 1e-5 or abs(b[5] - z - t) > 1e-5 or (px is None and (vol is None or abs(vol - area * t) > 1e-5 * max(1, area * t))):
                    continue
                if px is None:
                    c = np.array([[0.5 * (b[0] + b[1]), 0.5 * (b[2] + b[3])]])
                else:
                    c = cen
                if c.shape != want_c.shape:
                    continue
                if np.max(np.min(np.abs(want_c[None] - c[:, None]).sum(2), axis=1)) < 1e-3:
                    hit = k
                    break
            rec.check(hit is not None, tag + f"no solid for the layer {i}, value {kv}, period {tx, ty} (z={z:.3g}, thickness {t:.3g}, filling {frac:.3g})")
            if hit is not None and colors:
                want = cols[i] if px is None else cols[i][kv]
                rec.check(hit.get("color") == want, tag + f"layer {i}, value {kv}: colour {hit.get('color')}, {want} asked for")
            rec.step()
            rec.state(tag, key)
        rec.outcome(len(expect))
