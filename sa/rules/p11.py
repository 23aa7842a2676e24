"""P11: queries leave the inspected objects and their arguments unchanged and return no windows into stored arrays."""
import ast
from ..loader import AnalysisError
from ..rl import fname
from ..own import show as oshow

LEVEL = "other"
TECHNIQUE = "interprocedural ownership and effect analysis (purity of the query methods, escape of owned arrays)"
EXPLANATION = ("Flow-sensitive ownership summaries closed over calls and dynamic dispatch: a table of the query operations of "
               "the package, each shown to modify nothing reachable from the object or the arguments except lazily derived "
               "fields, and to return no array field of the object (or a view of one).")
P, B, G = "bgem.polygons.", "bgem.bspline.", "bgem.gmsh."
QUERIES = {
    P + "aabb_lookup.AABB_Lookup": "closest_candidates intersect_candidates",
    P + "decomp.Decomposition": "__eq__ __repr__ check_consistency",
    P + "idmap.IdObject": "__eq__ __hash__",
    P + "point.Point": "__hash__ __repr__ insert_vector is_free segments",
    P + "polygon.Polygon": "__repr__ contains_point depth is_outer_polygon vertices child_polygons",
    P + "polygon.Wire": "__eq__ __hash__ __repr__ contains_point contains_wire is_root neighbors repr_id segments child_wires",
    P + "segment.Segment": "__repr__ is_dendrite is_on_x_line parametric point_ids point_side polygons previous side_to_vtx vector "
                           "vtx_insert_info",
    P + "polygons.PolygonDecomposition": "__repr__ get_last_polygon_changes outer_polygon points polygons segments pt_dist "
                                         "seg_intersection seg_project_point get_childs",
    B + "bspline.SplineBasis": "check eval eval_diff eval_diff_vector eval_vector find_knot_interval fn_supp in_domain "
                               "knot_interval_bounds make_linear_poles pack_knots",
    B + "bspline.Curve": "aabb eval eval_array eval_local boxes tree bounding_boxes",
    B + "bspline.Surface": "aabb eval eval_array eval_local boxes tree bounding_boxes deep_copy u_basis v_basis patch_id2pos patch_pos2id",
    B + "bspline.Z_Surface": "aabb center eval eval_array eval_xy_array get_copy get_transform make_full_surface z_eval_array "
                             "z_eval_xy_array _linear_uv_to_xy _linear_xy_to_uv _bilinear_uv_to_xy _bilinear_xy_to_uv",
    B + "bspline.GridSurface": "aabb center eval_array uv_to_xy xy_to_uv z_eval_array z_eval_xy_array",
    B + "brep_writer.Shape": "is_closed subshapes",
    B + "brep_writer.Edge": "points",
    B + "brep_writer.Curve2D": "_eval_check", B + "brep_writer.Curve3D": "_eval_check", B + "brep_writer.Surface": "_eval_check",
    G + "gmsh.ObjectSet": "center_of_mass dimtagreg have_common_dim mass size tags",
    G + "gmsh_io.GmshIO": "write_ascii write_element_data write_fields",
    G + "heal_mesh.ShapeBase": "edge_lens edge_vectors flat_indicator small_edge_ratio",
    G + "heal_mesh.Line": "measure", G + "heal_mesh.Point": "measure edge_lens",
    G + "heal_mesh.Triangle": "measure gmsh_gamma normal smooth_grad_error_indicator",
    G + "heal_mesh.Tetrahedron": "measure gmsh_gamma face_areas face_normals skew_line_dist common_normal smooth_grad_error_indicator",
    G + "heal_mesh.HealMesh": "active common_elements is_duplicate_el print_stats quality_statistics stats_to_yaml write",
    "bgem.undo.Stack": "canredo canundo haschanged redocount redotext undocount undotext",
    None: "bgem.polygons.aabb_lookup.make_aabb bgem.bspline.bspline_approx.convex_hull_2d bgem.bspline.bspline_approx.min_bounding_rect "
          "bgem.bspline.bspline_approx.curve_from_grid bgem.bspline.bspline_approx.surface_from_grid "
          "bgem.bspline.brep_writer.curve_from_bs bgem.bspline.brep_writer.surface_from_bs bgem.bspline.brep_writer.check_knots "
          "bgem.polygons.plot_polygons.plot_decomp_segments",
}
# values recomputed on demand, marks used during a traversal, and the flag of the pending CAD synchronisation
DERIVED = {"_tree", "_boxes", "_edge_vectors", "_edge_lens", "_face_areas", "_face_normals", "_measure", "_gamma",
           "_get_child_passed", "_need_synchronize"}
# array fields that must not leave the object: name -> also their rows
ARRAYS = {B + "bspline.SplineBasis": {"knots": 1, "domain": 1}, B + "bspline.Curve": {"poles": 2, "_weights": 1},
          B + "bspline.Surface": {"poles": 3, "_weights": 2},
          B + "bspline.Z_Surface": {"quad": 2, "_xy_mat": 2, "z_mat": 1, "_z_mat": 1, "_mat_uv_to_xy": 2, "_mat_xy_to_uv": 2, "_xy_shift": 1},
          B + "bspline.GridSurface": {"grid_uvz": 3, "quad": 2}, B + "brep_writer.Vertex": {"point": 1},
          P + "point.Point": {"xy": 1}, P + "segment.Segment": {"_vector": 1}, P + "aabb_lookup.AABB_Lookup": {"boxes": 2}}
NAMES = {}
for _c, _d in ARRAYS.items():
    for _n, _k in _d.items():
        NAMES[_n] = max(_k, NAMES.get(_n, 0))


def methods(ctx):
    for c, names in QUERIES.items():
        if c is None:
            for q in names.split():
                f = ctx.prog.funcs.get(q)
                if f is not None:
                    yield f
            continue
        cls = ctx.prog.cls(c)
        for n in names.split():
            for q, f in ctx.prog.funcs.items():
                if f.cls is cls and f.name == n and f.parent is None and isinstance(f.node, ast.FunctionDef):
                    yield f


def lazily_derived(ctx, name):
    """A private field that is somewhere set to None and filled when found None."""
    if name in DERIVED:
        return True
    if not name.startswith("_"):
        return False
    none = test = False
    for f in ctx.prog.funcs.values():
        for x in ast.walk(f.node):
            if isinstance(x, ast.Assign) and isinstance(x.value, ast.Constant) and x.value.value is None:
                none = none or any(isinstance(t, ast.Attribute) and t.attr == name for t in x.targets)
            if isinstance(x, ast.Compare) and isinstance(x.left, ast.Attribute) and x.left.attr == name and \
                    any(isinstance(c, ast.Constant) and c.value is None for c in x.comparators):
                test = True
    return none and test


def pure(ctx, f):
    s = ctx.own.sum[f.qual]
    ctx.saw("query", fname(f))
    bad = None
    for (loc, mode), (fq, node, how) in sorted(s.mod.items(), key=str):
        if loc[0] == "N":
            continue
        fld = how[1:] if how.startswith(".") else None
        if mode == "set" and fld is not None and lazily_derived(ctx, fld):
            continue
        if mode == "in" and loc[2] and loc[2][-1].startswith(".") and lazily_derived(ctx, loc[2][-1][1:]):
            continue
        if f.name.startswith("write") or f.name in ("show",):
            if loc[0] == "P" and "stream" in loc[1]:
                continue
        if not reliable(ctx, f, loc):
            continue
        bad = (loc, mode, fq, node, how)
        break
    ctx.check(bad is None, "pure", fname(f), "the query modifies %s (%s in %s)" % ((oshow(bad[0]), bad[4], bad[2]) if bad else ("", "", "")),
              "%s:%s" % (bad[2], getattr(bad[3], "lineno", 0)) if bad else "")


def reliable(ctx, f, loc):
    return True


def windows(ctx, f):
    s = ctx.own.sum[f.qual]
    ps = f.pos_params()
    if not ps or f.cls is None:
        return
    bad = None
    for path, loc in sorted(s.ret, key=str):
        if loc[0] != "P" or loc[1] != ps[0] or any(x.startswith(".") for x in path):
            continue
        flds = [i for i, x in enumerate(loc[2]) if x.startswith(".")]
        if not flds:
            continue
        last = loc[2][flds[-1]][1:]
        depth = len(loc[2]) - 1 - flds[-1]
        if last not in NAMES or depth >= NAMES[last] or loc[2][-1] == "*":
            continue
        bad = (path, loc)
        break
    ctx.check(bad is None, "no-window", fname(f), "the returned array is %s itself or a view of it" % (oshow(bad[1]) if bad else ""),
              f.loc(f.node))


def run(ctx):
    ctx.rule("pure", "a query modifies nothing reachable from the object, its arguments or the module except lazily derived fields")
    ctx.rule("no-window", "a query returns no array stored in the object nor a view of one")
    for f in methods(ctx):
        pure(ctx, f)
        windows(ctx, f)
    ctx.expect("query", 100)
    ctx.assumptions.append("functions of numpy, scipy, gmsh and bih modify their arguments only where listed in sa/own.py")
