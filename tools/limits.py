"""One line per property: what the check does not decide."""
LIMITS = {
 "P01": "all undoable generators, every path; values are compared as tokens, so equality of attributes is identity of the value, not of mutable content. Whether the re-created object lands in the same region is P06/P34.",
 "P02": "all functions of undo.py with exceptional paths; recursion of groups is decided by the group's own methods. No bound on the length of a history, because each step is decided from an arbitrary state.",
 "P03": "all functions that change points or segments; the numeric content of a box is compared as an expression over the endpoints and the tolerance. Rounding inside the box tree (module bih) is not looked at.",
 "P04": "all writers of the endpoint table and of segment endpoints, each path; keys compared as tokens.",
 "P05": "all writers of coordinates and endpoints; obligations end with the public operation (helpers are inlined into their callers).",
 "P06": "all functions that create, remove or re-link loops and regions. Which loop encloses which is geometric (P83) and not decided; the links written on the chosen branch are.",
 "P07": "each return path of the public add/delete functions and their helpers; the kind is compared with the creations and deletions on the same path.",
 "P08": "IdMap, IdObject and every registration site; arbitrary state of the free list.",
 "P09": "construction and composition of maps in merge.py; which piece lies in which region is P86 and not decided.",
 "P10": "effects of the merge functions on the inputs through the points-to call graph, exceptional paths for the tolerance.",
 "P11": "the listed read-only entry points are derived from the code (properties, predicates, iterators); stores of caches are recognised by the guard that fills them.",
 "P12": "every public function; effects on parameters through the call graph. Functions whose purpose is to modify an argument are named in the rule with the reason.",
 "P13": "ownership of each constructor's stored arrays; conversions that may return their argument (asarray, atleast) count as shared.",
 "P14": "writer and record functions of brep_writer; the referenced section is compared by the table the number comes from. The validity of the geometry for OCC is out of reach.",
 "P15": "every write entry point; state kept on objects between writes has to be reset on each path before it is read.",
 "P16": "a direction label (U/V) is propagated through all spline surface code; code without a direction-bearing value is not constrained.",
 "P17": "all copy and conversion functions; attributes that define the object are those read by its evaluation. One known finding.",
 "P18": "affine normal forms in scale and shift of every evaluator; the 1D evaluation itself is P32.",
 "P19": "each public evaluator, each path; the numeric size of the tolerance is fixed by the rule from the documentation.",
 "P20": "all methods of HealMesh that write the incidence tables; arbitrary meshes.",
 "P21": "recording is compared with modification path by path; termination is P85.",
 "P22": "reader and writer of the text format as token streams; the binary format is not covered (the repository's own writer of it does not work).",
 "P23": "every method of the CAD wrapper; whether a call of the gmsh API queries or changes is a table derived from the names in the gmsh API (get*, is*, ... against add*, occ operations).",
 "P24": "alignment by positional construction; the correspondence of gmsh's output map is taken from its documentation.",
 "P25": "typestate of shape sets over all paths; aliasing by the points-to analysis.",
 "P26": "all field constructors; pairing by the words of parameter and option names and by the closed set of gmsh options.",
 "P27": "the option classes and all setters.",
 "P28": "every function of the package, name, attribute, import and signature level. Attributes on objects of unknown class are not judged. Known findings are unfinished functions that cannot run at all.",
 "P29": "sources of nondeterminism by name (random, time, id, hash, set iteration); a set is accepted when what is done with its elements does not depend on their order.",
 "P30": "all lazily filled attributes found by their guard; invalidation is required from every writer of the data the cached value reads.",
 "P31": "constant tables in the source are evaluated as literals and compared with the simplex; a closed finite check, no bound involved.",
 "P32": "identities of rational functions in symbolic knots by normal forms (exact rationals); degree 2 and the recursion. Rounding is not considered.",
 "P33": "all operations on points and free-point lists in the decomposition.",
 "P34": "all writers of next links; the chosen position on the point is geometric and opaque, but both halves have to use the same one.",
 "P35": "the formulas as normal forms over symbols for lengths, areas and volume; an identity that needs relations among these symbols (other than for the regular simplex) is not used. Rounding is not considered.",
 "P36": "all box computations; degrees and numbers of intervals symbolic.",
 "P37": "the pole arrays as symbolic affine combinations of the given points; the extension by an overhang as an affine map. Grid surfaces are not covered.",
 "P38": "all shape classes of brep_writer, each path; geometric closedness (coincident vertices) is not decided, only identity.",
 "P39": "all methods of HealMesh that replace elements; positions as affine combinations. That the result has a better quality is P85.",
 "P40": "polygons are evaluated for 3, 4 and 5 symbolic points; whether given points are coplanar or a polygon of given points crosses itself depends on coordinates and is not decided.",
 "P41": "degree 2, as the class fixes it; the matrices are compared for one point and one pair of intervals with symbolic positions. How well the fit approximates the points depends on the data and is not decided.",
}
