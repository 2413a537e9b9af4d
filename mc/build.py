"""Builders around the public API of the package, shared by the checks."""
import numpy as np

# distinct cells (exact binary coordinates), convex and counter-clockwise
UNIT = ((0.0, 0.0), (1.0, 0.0), (1.0, 1.0), (0.0, 1.0))
RECT = ((-2.0, 3.0), (1.0, 3.0), (1.0, 3.5), (-2.0, 3.5))
PARA = ((1.0, 0.5), (3.0, 1.0), (4.0, 3.0), (2.0, 2.5))
TRAP = ((0.0, 0.0), (4.0, 0.0), (3.0, 2.0), (0.5, 1.0))
KITE = ((-1.0, -1.0), (0.5, -1.25), (2.0, 1.0), (-1.25, 0.25))
TINY = ((0.125, 0.25), (0.15625, 0.25), (0.15625, 0.28125), (0.125, 0.28125))
CELLS = {"unit": UNIT, "rect": RECT, "para": PARA, "trap": TRAP, "kite": KITE, "tiny": TINY}

# cells of equal area and other shape, very small and very large ones, and one far from the origin (used by name)
_t = lambda c, s, x=0.0, y=0.0: tuple((s * a + x, s * b + y) for a, b in c)
EXTRA = {"wide": ((0.0, 0.0), (2.0, 0.0), (2.0, 1.0), (0.0, 1.0)), "high": ((2.0, 0.0), (3.0, 0.0), (3.0, 2.0), (2.0, 2.0)),
         "diamond": ((5.0, 0.0), (6.0, 1.0), (5.0, 2.0), (4.0, 1.0)), "wide2": ((0.0, 2.0), (2.0, 2.0), (2.0, 3.0), (0.0, 3.0)),
         "micro": _t(TRAP, 2.0**-20), "micro2": _t(PARA, 2.0**-22), "mega": _t(TRAP, 2.0**20), "far": _t(KITE, 1.0, 4096.0, -512.0),
         # symmetric about the origin, side lengths of the unit square, and reference-sized squares elsewhere
         "sym": ((-1.0, -1.0), (1.0, -1.0), (1.0, 1.0), (-1.0, 1.0)), "half": ((-0.5, -0.5), (0.5, -0.5), (0.5, 0.5), (-0.5, 0.5)),
         "rhombus": ((0.0, 0.0), (1.0, 0.0), (1.6, 0.8), (0.6, 0.8)), "rhombus2": ((3.0, 0.0), (4.0, 0.0), (4.28, 0.96), (3.28, 0.96)),
         "turned": ((0.0, -1.0), (1.0, 0.0), (0.0, 1.0), (-1.0, 0.0)), "symtrap": ((-2.0, -1.0), (2.0, -1.0), (1.0, 1.0), (-1.0, 1.0)),
         "sliver": ((0.0, 0.0), (64.0, 0.0), (64.0, 0.0625), (0.0, 0.0625))}
CELLS_ALL = dict(CELLS, **EXTRA)


def near(name, corner, dx, dy):
    """A parallelogram cell with one corner moved a little: nearly, but not, affine."""
    c = [tuple(p) for p in CELLS[name]]
    c[corner] = (c[corner][0] + dx, c[corner][1] + dy)
    return tuple(c)


AFFINE = ("unit", "rect", "para", "tiny")
AFFINE_ALL = AFFINE + ("wide", "high", "diamond", "wide2", "micro2", "sliver", "sym", "half", "rhombus", "rhombus2", "turned")


def space(cells, fe_order=2, fe_type="legendre", quad_order=3, quad_type="gauss-legendre",
          transform="bilinear", forcing=None, boundary=None, bfun=None, mesh=None, cell_type="quadrilateral",
          output_path=None, plot=False):
    from fastvpinns.FE.fespace2d import Fespace2D

    if boundary is None:
        boundary = {1000: np.array([[0.0, 0.0], [0.5, 0.25]])}
    if bfun is None:
        bfun = {k: (lambda x, y: 0.0 * x) for k in boundary}
    return Fespace2D(
        mesh=mesh, cells=np.array(cells, dtype=np.float64), boundary_points=boundary, cell_type=cell_type,
        fe_order=fe_order, fe_type=fe_type, quad_order=quad_order, quad_type=quad_type,
        fe_transformation_type=transform, bound_function_dict=bfun,
        bound_condition_dict={k: "dirichlet" for k in boundary},
        forcing_function=forcing or (lambda x, y: 1.0 + 0.0 * x), output_path=output_path or ".",
        generate_mesh_plot=plot)
