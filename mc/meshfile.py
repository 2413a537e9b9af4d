"""Writer of medit .mesh files (independent of meshio)."""


def write(path, verts, quads, edges, order=("Vertices", "Edges", "Quadrilaterals"), extra=(), dim=3, style=0):
    """verts: [(x, y)], quads: [(a, b, c, d, ref)], edges: [(a, b, ref)], 0-based indices."""
    def num(v):
        return repr(float(v))

    sec = {
        "Vertices": ["Vertices", str(len(verts))] + [f"{num(x)} {num(y)}" + " 0.0" * (dim - 2) + " 0" for x, y in verts],
        "Edges": ["Edges", str(len(edges))] + [f"{a + 1} {b + 1} {r}" for a, b, r in edges],
        "Quadrilaterals": ["Quadrilaterals", str(len(quads))] + [f"{a+1} {b+1} {c+1} {d+1} {r}" for a, b, c, d, r in quads],
    }
    for name, lines in extra:
        sec[name] = lines
    out = ["MeshVersionFormatted 2"]
    out += ["Dimension", str(dim)] if style == 0 else [f"Dimension {dim}"]
    for s in order:
        if style == 1:
            out.append("")
        out += sec[s] if style != 2 else [" " + l for l in sec[s]]
    out.append("End")
    with open(path, "w") as f:
        f.write("\n".join(out) + "\n")
