"""Rules and observation floors per property (no import of the code under test)."""
META = {}

META["C02"] = dict(
    rule="One case = one constraint type with random options, a random coordinate style (scale 1e-3..1e4, any quadrant, "
         "integers, exact zeros, offsets), evaluated on a satisfying configuration, on configurations with exactly one "
         "coordinate / shift / rotation / parameter changed, and on unrelated configurations. Non-trivial and distinct: "
         "distinct (constraint+options, kind of change, verdict, coordinate style) tuples.",
    floors={"relation holds: residual zero": 800, "relation broken: residual nonzero": 4000,
            "residual compared with documented value": 4000},
    assumptions=["numpy reference formulas in vlib/ref.py are the documented relations",
                 "double precision; lines longer than 2% of the coordinate scale"],
)

META["C05"] = dict(
    rule="One case = one grid/array/alignment constraint with a random shape (1x1 .. 12x1, 11x2), random relative sizes and "
         "gaps, evaluated on the exact grid, after moving/resizing one side of one box, after changing one requested "
         "number, and after swapping boxes. Distinct: (shape, box or parameter changed, side) and (constraint, change, verdict).",
    floors={"grid satisfied": 100, "single box change detected": 1000, "single requested number change detected": 200,
            "margin array entry observed": 200, "relation broken: residual nonzero": 1500, "swap detected": 80},
    assumptions=["box-shaped quadrilaterals with positive sizes for grid relations"],
)
META["C06"] = dict(
    rule="One case = one axes constraint option set (axis, side, twin) or facing-sides constraint on random axes primitives with "
         "random extra parts; satisfied, singly perturbed and unrelated configurations, and moves of parts not named. "
         "Distinct: (constraint+options, change, verdict).",
    floors={"relation holds: residual zero": 900, "relation broken: residual nonzero": 4000,
            "unrelated part moved: residual unchanged": 200},
    assumptions=["frames are boxes with positive sizes for label fractions"],
)
META["C03"] = dict(
    rule="One case = one measuring construction with random options measured on several random configurations (all quadrants, "
         "scales 1e-3..1e4, axis-aligned and oblique lines, both reversals), all 24x24 direction pairs for angles, points at "
         "known positions relative to a line, and vectors split over random trees. Distinct: (construction+options, "
         "coordinate style, quadrant signs, reversal), direction pairs, size trees.",
    floors={"exact direction pair observed": 120, "declared constraint size observed": 150, "measurement compared": 8000, "direction pair observed": 570, "known position measured": 250,
            "vector tree observed": 250},
    assumptions=["rectangle sizes, margins and aspect ratios are judged on boxes with positive sizes"],
)
META["C04"] = dict(
    rule="One case = one random expression (depth 1-4) over all constructions with +, -, *, /, **, constant and parameter scalars, "
         "partial application, mapping and constraint creation; every sub-expression is evaluated and compared with the numbers "
         "of its parts (leaf numbers from the numpy reference). Distinct: expression shapes with leaf types.",
    floors={"combination compared": 3500, "compound combination compared": 1000, "long sum compared": 100},
    assumptions=["powers and quotients are evaluated inside their real domain"],
)
META["C01"] = dict(
    rule="One case = one random layout (points, lines, quadrilaterals, polygons, axes; shared vertices and edges; aligned and "
         "oblique) with a known satisfying arrangement: linear constraint sets with redundancy and any start, fully determined "
         "ones, independent nonlinear sets started near the arrangement, every constraint type alone, grids, the minimize method, "
         "and jax's default single precision. Distinct: (workload, constraint+options) and (workload, primitive kinds, size).",
    floors={"solved layout judged": 250, "constraint satisfied in solution": 1000, "determined geometry reached": 35,
            "minimize converged": 12, "single precision solve": 12},
    assumptions=["nonlinear layouts: full-row-rank reference Jacobian at the arrangement and starts within 3% of its size",
                 "minimize is judged to 3e-3 of the size (its own convergence criterion)"],
)
META["C07"] = dict(
    rule="One case = one random layout solved by either method with a random iteration limit (structure and memory compared), or "
         "chains of re-solves that move one alias of a vertex (all aliases must follow, everything else must stay, in the layout "
         "and again in its solutions), or a random order of all read-only operations with deep snapshots around each. Distinct: "
         "primitive kind combinations, alias counts and chain positions, operations.",
    floors={"layout without constraints": 5, "two solutions compared": 40, "solved vertex moved in place": 40, "structure compared": 50, "alias followed": 200, "independent vertex stayed": 600,
            "operation left the layout unchanged": 150},
    assumptions=["snapshots compare values, keys, kinds, order and object identity of every node and array"],
)
META["C08"] = dict(
    rule="One case = one random layout (linear sets from arbitrary starts, independent nonlinear sets from nearby) solved and "
         "compared with: the untouched starting vertices, the satisfied start, the least-squares closest solution computed from the "
         "reference relations, and solves of equivalent layouts (reordered, renamed, re-keyed, repeated, interleaved, in instalments, "
         "shifted). Distinct: (comparison, linearity, sizes, primitive kinds).",
    floors={"untouched vertex stayed": 80, "satisfied layout unchanged": 35, "closest solution observed": 40,
            "equivariance observed": 90, "translation observed": 30, "unconstrained layout unchanged": 20,
            "solution of a solution unchanged": 20},
    assumptions=["the closest-solution oracle uses linear systems whose nonzero singular values span less than 500x"],
)
META["C09"] = dict(
    rule="One case = one random (linear, nonlinear, sometimes contradictory) layout whose complete iteration trace is recovered by "
         "solving with increasing iteration limits; every reported number is compared with the residual norm at its iterate (package "
         "evaluation and numpy reference), and stopping is predicted for random tolerances and limits. Distinct: (stopping situation) "
         "and (method, consistency, constraint names, trace length).",
    floors={"held report unchanged": 60, "reported entry compared": 100, "entry equals the reference norm": 15, "stopping decision observed": 60,
            "minimize entry compared": 40, "inconsistent layout reported": 8, "edge case observed": 80, "errors above the starting error observed": 2,
            "long stopping decision observed": 12, "long trace observed": 25,
            "omitted setting observed": 40},
    assumptions=["tolerances within rounding of a reported value are not judged"],
)
META["C12"] = dict(
    rule="One case = one random operation history (additions, replacements, refused operations, changes through subtrees, wide "
         "nodes) on a random tree of one node class, mirrored on an ordered nested dictionary, with all reading operations compared "
         "after every step; key generation histories; keys with empty components; trees of hundreds of children and tens of levels. Distinct: (class, operation, path depth, "
         "existence of parent and key, height, width).",
    floors={"state compared with the model": 5000, "addition observed": 1500, "replacement observed": 500,
            "refused operation observed": 1500, "generated key observed": 800, "empty component observed": 11, "large tree compared with the model": 100},
    assumptions=["child names are strings without slashes"],
)
META["C13"] = dict(
    rule="One case = one random tree (depth <= 4, up to 14 unsorted children, all node classes and primitives) traversed, flattened, "
         "unflattened (own functions and jax pytree, through tree_map, jit, grad and vmap), copied, mapped and accumulated, compared "
         "with an independent pre-order traversal. Distinct: (operation, kinds of values, sizes, heights).",
    floors={"tree with a node at several places observed": 120, "round trip observed": 500, "node visited once, with its path": 4000, "pytree round trip observed": 280,
            "jax transformation observed": 300, "copy observed": 500, "map observed": 500, "accumulation observed": 500},
    assumptions=["copies and maps of typed nodes may be plain nodes", "accumulation is judged with the operation's identity as "
                 "initial value"],
)
META["C10"] = dict(
    rule="One case = one random history of additions to a layout (primitives, aliases, every constraint class with automatic, "
         "explicit and auto-like keys; duplicate, ill-formed and unknown ones; rebuilding and updating layouts), mirrored on a list "
         "model and compared after every step; two layouts built alternately from shared objects; layouts solved, changed in place "
         "and compared with layouts declared that way. Distinct: (operation, failed or "
         "not, numbers of primitives and constraints).",
    floors={"state compared with the model": 2500, "failing addition left no trace": 500, "generated key observed": 500,
            "residual concatenation observed": 300, "earlier layout unchanged": 150, "changed layout compared with a new one": 45, "layout from given trees observed": 100},
    assumptions=["keys of added constraints contain no slash"],
)
META["C11"] = dict(
    rule="One case = one constraint, construction, combination, primitive class or construction specification with random options; "
         "its well-formed uses (also with user subclasses) must be accepted and every ill-formed variation (number, kind, unknown or "
         "missing parts, number of parameters, list lengths, inconsistent children) must raise, with deep snapshots around each "
         "refused addition. Distinct: (subject, what is wrong).",
    floors={"ill-formed call rejected": 3000, "ill-formed addition rejected": 2500, "no trace left": 2500,
            "ill-formed primitive rejected": 2500, "ill-formed construction rejected": 2500, "well-formed use accepted": 500,
            "well-formed primitive accepted": 1500, "well-formed construction accepted": 100, "special kind accepted": 150,
            "unknown side or dimension rejected": 300},
    assumptions=["more special kinds are subclasses", "parameter types (as opposed to numbers) are not documented"],
)
META["C14"] = dict(
    rule="One case = one random figure box (anywhere, any size, integer or not) with 1-7 axes (with and without axis boxes, labels and "
         "twins, nested, oddly named; sides and thicknesses random, frames partly outside), created by subplots with default or given "
         "keys under varying rcParams and updated several times with other geometry after plotting; positions read back from "
         "matplotlib in inches. Distinct: (created/updated, parts, tick sides, origin moved, nesting).",
    floors={"small update followed": 60, "frame observed": 1000, "label anchor observed": 1000, "tick side observed": 1000, "requested axes observed": 200,
            "same as creating anew": 500, "other axes untouched": 80, "drawn tick label observed": 500,
            "detached axis box noticed": 30, "attached axis box": 30, "axis box with one matching corner": 10},
    assumptions=["frames have positive sizes; axis boxes touch the frame with matching corners"],
)
META["C15"] = dict(
    rule="One case = a random figure with plotted axes (tick locators, formatters, scales, rotations, paddings, font sizes, sides, twins, "
         "hidden labels, dpi) whose prescribed thicknesses are compared with tick label extents measured from the renderer, and full "
         "templates solved, plotted, updated, re-solved and re-placed several times with snapshots of layouts and pictures around each "
         "step. Distinct: (axis, side, tick style, drawn before, thickness).",
    floors={"thickness compared": 500, "zero thickness observed": 500, "picture unchanged": 80, "original layout unchanged": 45,
            "placement after feedback observed": 40, "parameter replaced": 90, "independence observed": 120},
    assumptions=["ticks on one side of the axis only", "tick label padding is not negative"],
)
META["C16"] = dict(
    rule="One case = one constraint with random options (at and away from solutions), one random combination, or one whole layout with "
         "shared vertices: residual evaluated directly, on rebuilt primitives and under jax.jit (primitives and numeric parameters "
         "compiled), forward and reverse derivatives (plain and compiled) compared with central differences of the numpy reference "
         "and of the evaluated residual. Distinct: (constraint+options, at solution), expression shapes, sets of constraint types.",
    floors={"compiled residual compared": 400, "derivative compared with documented residual": 250,
            "derivative compared with evaluated residual": 500, "compiled combination compared": 120,
            "combination derivative compared": 60, "layout derivative compared": 80, "derivative on primitives compared": 40},
    assumptions=["boolean and None parameters are static", "points where the documented residual is differentiable"],
)
META["C17"] = dict(
    rule="One case = one constructor call (points, lines, polygons of 1..60 vertices, quadrilaterals, axes with each of the 16 flag "
         "combinations, user-defined primitives) from default or supplied parts in any numeric representation: types, keys, order, "
         "exact values and identity of shared vertices are compared with a reference list of vertices, also after adding to a layout; "
         "misfitting parts must be rejected. Distinct: (kind, size, repeated vertices), (flags, supplied), misfit kinds.",
    floors={"line": 80, "polygon": 80, "quadrilateral": 80, "default": 250, "axes from supplied parts": 120, "default axes": 50,
            "custom primitive": 100, "misfit rejected": 100, "declared part types accepted": 60, "declared part types rejected": 50},
    assumptions=["a vertex is shared exactly when the value arrays are the same object (the package's own definition)"],
)
META["C18"] = dict(
    rule="One case = one random tree (points, lines, polygons of 0..8 vertices, axes, user-defined and grouped primitives; shared, "
         "coincident, axis-parallel, tiny and huge geometry) drawn by figure_prims or by one plot function; the artists in the axes are "
         "compared as multisets with the geometry read from the tree: markers, segments, closed patches, labels (name, place, rotation, "
         "and distance on the canvas when drawn), view limits, figure size, tick intervals, unchanged tree. "
         "Distinct: multiset of (kind, depth) and options.",
    floors={"layout with many primitives drawn": 4, "points drawn": 60, "lines drawn": 500, "polygons drawn": 120, "point label matched": 60, "line label matched": 500,
            "polygon label matched": 100, "label near on canvas": 60, "grid interval compared": 300, "figure compared": 100,
            "direct plot compared": 150, "canvas drawn": 10},
    assumptions=["labels may be read upside down (rotation compared modulo 180 degrees)", "coordinates between 1e-9 and 1e8 in magnitude, or zero"],
)
META["C19"] = dict(
    rule="One case = one constraint or combination evaluated, one random layout solved, or one array reused: the same numbers are given "
         "as Python, numpy and jax scalars, 0-d and one-element arrays, lists, tuples, views, reversed, read-only and byte-swapped "
         "arrays of every integer, unsigned and float type which represents them exactly, and residuals and solved coordinates are "
         "compared with those of float64 inputs; arrays and buffers are changed after building primitives from them. "
         "Distinct: (input role, form, dtype), constraint+options, expression shapes, solved constraint sets, aliasing forms.",
    floors={"residual compared": 500, "combined residual compared": 60, "solved geometry compared": 80, "caller's array changed": 40,
            "primitive changed in place": 30, "linked primitives solved": 40, "reused buffer": 40,
            "scalar parameter given as ndarray": 50, "truth value given in another way": 60, "coordinate vector given as list": 200, "parameter vector given as tuple": 10},
    assumptions=["64-bit jax", "None is not a number"],
)
META["C20"] = dict(
    rule="One case = one random figure template (1x1 to 2x3 axes, plain or Grid, axis boxes, twin boxes, labels, totals or first sizes, "
         "aspect ratio, nested groups) declared with 2-3 sets of numbers, solved, created and updated in place: figure size, rectangles, "
         "margins, gaps, ratios, alignments, label anchors, tick sides measured on the matplotlib figure and on the saved pixels; or one "
         "example notebook (or the README) executed with varied numbers. Distinct: template structures and sides, notebooks.",
    floors={"figure compared": 60, "figure updated in place": 20, "axes compared": 120, "tick side and label compared": 80,
            "painted axes compared": 20, "notebook run": 8, "notebook measurement compared": 40},
    assumptions=["thickness-by-tick-labels figures are covered by C15", "Agg renderer"],
)
META["C21"] = dict(
    rule="One case = one random history over several constraints and constructions (each with other options) whose geometry and "
         "parameters are partly changed in place, evaluated directly, compiled, through layouts and through new instances, and "
         "compared with the numpy reference every time; the same from four threads at once; linear layouts with the same "
         "primitives but other numbers or constraints solved in turn and at the same time, against the closest solution; several "
         "figures updated in turn. Settings of the process are compared before and after. Distinct: (class, what changed, how "
         "evaluated), (numbers of layouts and constraints), (axes per figure).",
    floors={"layout with other constraints of the same form": 25, "earlier result unchanged": 100, "evaluation in a history compared": 3500, "concurrent histories compared": 150, "solve in a history compared": 80,
            "concurrent solve compared": 80, "one of several figures observed": 350, "process settings observed": 120, "figure updated from primitives changed in place": 50},
    assumptions=["threads use their own primitives and layouts; drawing is done in one thread (pyplot is not thread-safe)"],
)
META["C22"] = dict(
    rule="One case = one random tree of user-defined primitives (parameter vectors of 0 to 5 numbers, fixed, repeated, alternative and "
         "keyword-dependent parts, shared parts, subclasses of built-in kinds, groups) under user-defined constraints (leaves, "
         "compounds, arrays, sums, maps, partials; dictionaries, lists and matrices as parameters) solved and compared with the closest "
         "solution of the independently assembled linear system, or (nonlinear) with the relations on the solved numbers; classes, names, "
         "parameter vectors and sharing of the result; figures from user-defined boxes, axes and thickness constraints measured. "
         "Distinct: (form, classes of the arguments), multisets of classes, nonlinear relations, figure kinds.",
    floors={"user-defined constraint evaluated": 350, "closest solution compared": 90, "solved tree of user-defined primitives compared": 110,
            "shared user-defined part": 400, "nonlinear user-defined constraints satisfied": 250,
            "axes of user-defined kinds measured": 25, "user-defined thickness constraint updated": 5},
    assumptions=["user-defined classes follow the documented interface (signature, init_children, default_value, default_prims; "
                 "init_signature, assem as class methods)"],
)
META["C23"] = dict(
    rule="One case = one constraint, construction or random combination evaluated as a whole and part by part through the names, "
         "primitive keys and parameters of its trees; one built-in constraint with one relation broken on purpose (the parts named after it, "
         "and only those, must be nonzero); one random layout whose constraints or parts get new parameters by path and which is "
         "solved with the new and with the old ones. Distinct: constraint+options, expression shapes, broken relations, replaced parts.",
    floors={"part compared with its share": 1000, "named parts judged": 400, "new parameters found": 250, "layout with new parameters solved": 90,
            "other parameters unchanged": 600, "grid with new numbers solved": 35, "constraint of a layout looked up": 200},
    assumptions=["new parameters for a constraint and for a part of it are not given in the same call"],
)
