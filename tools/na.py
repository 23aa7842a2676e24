NA = {
 "P80": "agreement of numeric evaluation with the mathematical definition over all real inputs is a floating-point quantity; no static rule in reach bounds it",
 "P81": "the approximation error depends on data, knot vectors and least-squares numerics at run time",
 "P82": "planarity (no crossing segments) depends on floating-point geometry of runtime coordinates",
 "P83": "geometric nesting of loops depends on runtime coordinates and floating-point predicates",
 "P84": "completeness of the intersections depends on convergence of Newton iterations on runtime surfaces",
 "P85": "termination of healing depends on runtime mesh quality values; no static ranking function exists",
 "P86": "exact cover of merged decompositions is a geometric statement over runtime coordinates",
}
