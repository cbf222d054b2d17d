"""Writes /verif/properties.jsonl (one property per line)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, **({"state": state} if state else {}))))


S = "Shallot.py"
prop("C01", "Scalar arguments: accepted exactly when of the right kind and inside bounds",
     "A number is accepted exactly when it is a Python integer or float, a NumPy int8 to int64 or a NumPy float (an integer only, where an integer is asked for; booleans count as Python integers), is not NaN, and lies inside the stated closed or open bounds; an accepted value is returned unchanged. Anything else raises TypeError (wrong kind) or ValueError (out of bounds, or bounds in the wrong order), and booleans, strings and class instances are accepted exactly when they are instances of the required type.",
     ["inputs"], "all argument values and types, all bounds, inclusive and exclusive",
     "the tests sample a few values per bound; NaN, infinities, equality with the bound and every numeric type are a quantification over all inputs",
     ["validate.py"], [("number/_number_type/_number_bounds", "validate.py"), ("boolean/string/class_object", "validate.py")],
     ["return value or exception of the validation functions"])
prop("C02", "Array arguments: accepted exactly when every element and the shape conform",
     "An array is accepted, and returned as the same object, exactly when it is an array with the required element type and number of dimensions and, where bounds are given, every element is a non-NaN value inside them. Several arrays are accepted as same-shaped exactly when there are at least two, there is one name per array and all their shapes are equal.",
     ["inputs"], "all arrays of any length, all bounds, dtypes and dimensions; all lists of arrays",
     "one out-of-range element at any position of an array of any length must be found; tests look at a few short arrays",
     ["validate.py", "errors.py"], [("array and its helpers", "validate.py"), ("same_shape_arrays", "validate.py")],
     ["return value or exception of the validation functions"])
prop("C03", "A ring is always physically valid; rejected assignments change nothing",
     "After construction and after every assignment a ring has 0 < inner radius < outer radius, transmission in [0,1], inclination in [0,90] and tilt in [-180,180], and every readable attribute equals the last accepted value (an inner radius of exactly zero is replaced by a tiny positive one). An assignment that would break this raises an error and leaves all five attributes as they were; a conforming one is accepted.",
     ["inputs", "histories"], "all argument values and every order of attribute assignments",
     "an invariant over all sequences of assignments and all values, including NaN and infinities; the tests try a few",
     ["Ring.py", "validate.py"], [("Ring.__init__ and the property setters", "Ring.py"), ("number", "validate.py")],
     ["the five attributes of the ring"])
prop("C04", "Ring drawing: the annulus between two projected, tilted ellipses",
     "The drawn patch of a ring is the region between two ellipses centred on the requested shift, with semi-major axes equal to the outer and inner radius at the tilt angle, and semi-minor axes shortened by the cosine of the inclination. The two boundary curves run in opposite directions so the inside of the inner one stays empty, and the opacity is one minus the transmission in the requested face colour.",
     ["inputs"], "all radii, inclinations, tilts, transmissions and shifts",
     "the tests compare a handful of stored vertices for one ring; the geometry must hold for every parameter combination",
     ["Ring.py"], [("Ring.get_patch", "Ring.py")], ["vertices, codes, alpha and face colour of the returned patch"])
prop("C05", "Adding, removing and replacing rings edits exactly one position, atomically",
     "Adding a ring at an index, removing one or replacing one changes exactly that position of the radially ordered ring sequence, and gives the new ring the inclination and tilt of the system. An index out of range, a wrong type or a ring overlapping a neighbour is rejected with an error that leaves the system unchanged; every ring that fits between its neighbours is accepted.",
     ["inputs", "histories"], "all ring systems, ring values and indices, and all sequences of edits",
     "ordering and non-overlap must survive every edit of every system; the tests edit one three-ring system",
     ["RingSystem.py", "Ring.py"], [("add_ring/remove_ring/replace_ring/_prevent_ring_overlap/_override_ring_geometry", "RingSystem.py")],
     ["ring data of the system before and after"])
prop("C06", "Splitting rings partitions every ring into equal parts",
     "Splitting replaces each ring, in order, by the requested number of ringlets of equal width that cover exactly the same radial range without gaps or overlaps and keep its transmission and the geometry of the system. One number applies to all rings, an array gives one number per ring; invalid division counts are rejected and leave the system unchanged.",
     ["inputs"], "all ring systems and division counts",
     "the tests split one system two ways; widths, junctions and counts must be right for all counts and radii",
     ["RingSystem.py"], [("split_rings", "RingSystem.py")], ["ring data of the system before and after"])
prop("C07", "Merging rings preserves the transmission profile and undoes splitting",
     "Merging replaces every maximal run of adjoining rings of equal transmission by one ring from the inner edge of the first to the outer edge of the last, where adjoining means that the gap is smaller than the (positive) tolerance, and leaves all other rings as they are. Merging the result again changes nothing, and merging after splitting a system without adjoining equal rings gives the original system back.",
     ["inputs"], "all non-empty ring systems and positive tolerances",
     "the grouping depends on every pair of neighbours; the tests merge two systems",
     ["RingSystem.py"], [("merge_rings", "RingSystem.py")], ["ring data of the system before and after"])
prop("C08", "A ring system mirrors its constructor arrays and is drawn completely",
     "A ring system holds one ring per entry of the given radius and transmission arrays, in order and with the geometry of the system, and its accessors return exactly these values and their number; inconsistent or out-of-range input is rejected. Plotting adds the planet disk and one patch per ring at the requested shift, with axis limits centred on the shift that reach two beyond the outermost ring.",
     ["inputs"], "all input arrays, geometries, shifts and colours",
     "the tests use one system and one shift; the correspondence must hold per element for all arrays",
     ["RingSystem.py", "Ring.py"], [("_set_rings and the get_ accessors", "RingSystem.py"), ("_get_patches/plot", "RingSystem.py")],
     ["accessor results; artists and limits of the axes"])
prop("C09", "Grid axes span the requested ranges and extension mirrors them",
     "Grid parameters hold evenly spaced x, y and radius-factor axes from the requested minimum to maximum (factor from one), a full factor axis that runs from the maximum down to one and back up, and a grid shape that matches the axis lengths; invalid ranges or counts are rejected. Exactly the grids whose x and y axes both start at zero can be extended, and extension mirrors each axis about zero with the same spacing and is possible only once.",
     ["inputs"], "all finite ranges and counts, including axes of one element",
     "tests build two grids; shapes and end points must be right for all counts, including one",
     ["GridParameters.py"], [("_determine_dx/_determine_dy/_determine_rf/extend_grid", "GridParameters.py")],
     ["the axis arrays, grid shape, slice shape and extendability"])
prop("C10", "Saving and loading grid objects is lossless, and bad files give a load error",
     "Loading what was saved gives back an object equal in every persisted respect: axes and shapes, property values, name, unit and mask, gradient position, measurement and mask, and all diagnostics; saving over an older save leaves nothing of the older one to be read. A directory with missing files, or with values or masks that do not fit the saved grid, raises the load error.",
     ["inputs", "histories"], "all parameters, property data, masks, gradients and diagnostics; all sequences of saves into one directory; every single missing file",
     "tests round trip one object each; stale files of an earlier save and each missing file are histories they do not run",
     ["GridParameters.py", "GridDiagnostics.py", "GridProperty.py", "errors.py"],
     [("save/load of GridParameters, GridDiagnostics, GridProperty, GridGradient", "GridParameters.py, GridDiagnostics.py, GridProperty.py")],
     ["the loaded object; LoadError"])
prop("C11", "Diagnostics return what was stored, and mirrored points share them",
     "A diagnostic stored for a grid point is returned unchanged for that point until it is overwritten, independently of all other points; points outside the grid and invalid arrays are rejected. After extension every point of the extended grid gives the diagnostic of its mirror image in the original quadrant, and storing is refused.",
     ["inputs", "histories"], "all grid sizes, points, arrays and orders of operations",
     "the mirror mapping must be right at every point of every grid size; the tests look at one",
     ["GridDiagnostics.py"], [("_generate_key/get_diagnostic/save_diagnostic/extend", "GridDiagnostics.py")],
     ["returned diagnostic arrays"])
prop("C12", "Property masks hide exactly the masked cells and never alter stored data",
     "Reading a grid property gives the stored values, with NaN in exactly the masked cells when a mask is set and masking is requested. Reading never changes what is stored, changing the returned array has no effect on the property, and data or masks of the wrong type or shape are rejected without effect.",
     ["inputs", "histories"], "all grid shapes, data, masks and sequences of reads and mask changes",
     "a destructive read shows only for particular read sequences; tests read once",
     ["GridProperty.py"], [("GridProperty.__init__/set_mask/get_data/set_contrast_parameters", "GridProperty.py")],
     ["returned arrays over a sequence of calls"])
prop("C13", "A gradient's scaled value and mask follow its measurement and data",
     "The scaled gradient equals measured gradient times orbital scale divided by transmission change, a measurement whose scaled value is above one is refused without effect, and the mask holds exactly the cells whose disk gradient is NaN or smaller than it. Gradients order by position and can be printed in each of these states, and without a measurement there is no scaled gradient and no mask.",
     ["inputs"], "all data arrays and measurement values",
     "the mask is a per-cell statement over arrays of any shape, including NaN cells",
     ["GridProperty.py"], [("GridGradient.determine_mask/get_scaled_gradient/__lt__", "GridProperty.py")],
     ["scaled gradient, mask, order"])
prop("C14", "The slice viewer shows the slice, title and markers of its index",
     "A viewer starts at the given (or the middle) index of its axis, scrolling moves it by one without leaving the axis, and a frozen viewer does not move. At every moment the image is the slice of the (masked) data at the index, with the title value and extent of the grid, and exactly the coordinates closer to the slice than a third of the grid spacing along its axis are marked, at their other two coordinates.",
     ["inputs", "histories"], "all data, axes, start indices, coordinates and sequences of scroll events",
     "the state after every scroll sequence must agree with the index; tests scroll once or twice",
     ["GridProperty.py"], [("GridPropertyViewer", "GridProperty.py")], ["image data, title, labels, extent and marker lines"])
prop("C15", "Every disk of the grid passes through both ingress and egress points",
     "For every grid cell that holds a disk, the ellipse with the cell's stretch factors and shear centred at the cell's position passes through the eclipse start and end points half a duration left and right of the origin. Cells for which no such ellipse exists hold NaN.",
     ["inputs"], "all stretch factors, impact parameters and horizontal offsets",
     "a geometric identity over all real parameters; the tests do not build a grid at all",
     [S], [("_determine_fx/_determine_fy", S), ("_determine_shear/_determine_circular_radius", S)],
     ["stretch factors, shear and radius per grid cell"])
prop("C16", "Disk radius, inclination and tilt are those of the sheared ellipse",
     "For positive stretch factors the reported disk radius is the largest distance of the sheared and stretched circle from its centre, the cosine of the inclination is the ratio of its smallest to its largest such distance, and the tilt is a direction in which the largest distance is reached. The inclination lies in [0,90] degrees, the radius is positive, and invalid (NaN) stretch factors give NaN.",
     ["inputs"], "all stretch factors, shears and circular radii",
     "an extremum over a continuum of angles for all real parameters cannot be sampled",
     [S], [("_calculate_vertex_and_covertex_angles/_calculate_xy_from_parameteric_angle/_determine_disk_parameters", S)],
     ["disk radius, inclination and tilt arrays"])
prop("C17", "The extended grid is the mirror image of the first quadrant",
     "When the grid starts at the origin it is extended to four quadrants in which every property at a cell equals its value at the mirrored cell of the first quadrant, except that the tilt is replaced by its supplement in the two quadrants where x and y have opposite signs. The extended axes and shapes agree with the extended properties, and a grid that does not start at the origin is left as built.",
     ["inputs", "configurations"], "all grid sizes (including one row or column) and all property values",
     "each cell of each quadrant of every size must map to the right source cell; untested today",
     [S, "GridParameters.py"], [("_extend_grid/_fill_quadrants", S)], ["property arrays and axes after construction"])
prop("C18", "Disk gradients and the orbital scale follow the ellipse slope and limb darkening",
     "The disk gradient at a position is the absolute sine of the slope angle of the cell's ellipse where it crosses the transit line at this position, NaN where no ellipse exists or its slope there is vertical. The orbital scale is (6-2u)/(12-12u+3*pi*u) times pi over the transverse velocity for limb darkening u, and measurement times map to positions minus time over eclipse duration.",
     ["inputs"], "all cells, positions, limb darkening values and velocities",
     "an identity over all real parameters; the tests do not evaluate it",
     [S], [("_determine_disk_gradients/_determine_orbital_scale/add_gradients", S)], ["gradient data and scale"])
prop("C19", "Masks combine as a union, and masked reads hide exactly their cells",
     "The combined mask is the union of the masks of disk radius, inclination, tilt and all gradients, and the Hill mask holds exactly the cells without a disk or with a radius above the limit. Every masked read returns the stored values with NaN in exactly the cells of the combined mask (and of the property's own mask unless switched off), and no read changes what is stored.",
     ["inputs", "histories"], "all masks, data and grid shapes; all read flags and read sequences",
     "a per-cell statement for every combination of masks; tests never build a full grid",
     [S, "GridProperty.py"], [("get_combined_mask/generate_hill_radius_mask and the masked getters", S)],
     ["returned arrays and masks"])
prop("C20", "Gradients are added, removed and rescaled consistently or not at all",
     "Adding gradients appends one per time, each with its own measurement, error and transmission change; removing deletes exactly the given indices; changing eclipse parameters discards gradients, and rescaling updates exactly the given quantities of all of them. Every such change discards an existing gradient fit, and invalid input is rejected leaving the gradients as they were.",
     ["inputs", "histories"], "all argument arrays and sequences of operations",
     "bookkeeping over sequences of operations and failing calls; untested today",
     [S], [("add_gradients/remove_gradients/set_eclipse_parameters/update_gradient_scaling/get_gradients", S)],
     ["gradient list, their values and the fit"])
prop("C21", "The gradient fit is the weighted misfit and solutions come best first",
     "The gradient fit of a cell is the sum over all gradients of the squared difference between disk gradient and scaled gradient, divided by the squared error when weighted, and is masked where NaN. Extracted solutions are distinct unmasked cells in ascending order of fit, beginning with the best, and the reported radius, inclination, tilt and position are those of the cell.",
     ["inputs"], "all gradients, errors, masks and numbers of solutions",
     "ordering and distinctness over all grids and data; untested today",
     [S], [("determine_gradient_fit/get_gradient_fit/extract_solutions", S)], ["fit array; solution arrays"])
prop("C22", "The closest grid point is the nearest one on the requested side",
     "The closest grid point minimises, over all (unmasked) cells, the distance in radius, inclination, tilt and impact parameter, and with a non-zero impact parameter no cell on the opposite side of the transit line is chosen when another exists. The reported coordinates, indices and distance belong to one another, and the data of a grid point are the values stored at exactly that index, indices off the grid being rejected.",
     ["inputs"], "all grids, data, masks, queries and indices",
     "a minimum over all cells for all queries; untested today",
     [S], [("determine_closest_grid_point/get_grid_point_data", S)], ["returned tuples"])
prop("C23", "A saved grid loads back equal, and an interrupted build resumes to the same grid",
     "Loading a saved grid gives equal parameters, properties, masks, gradients and diagnostics. A build interrupted after any saved row and resumed from its intermediate save keeps the rows before the last saved one, gives the same grid as an uninterrupted build, and removes the temporary directory at its end but no other directory.",
     ["inputs", "crash_points", "histories"], "all grid contents; every row after which the build stops",
     "every interruption point is a quantification the tests do not attempt",
     [S], [("save/load/_load_grid_attributes/_build_grid", S)], ["the loaded grid; the file system"])
prop("C24", "Every grid cell carries the radius-factor sequence of its own disk family",
     "Each cell column is computed from its own position only: the stored stretch factors satisfy the ellipse relation, and radius, inclination and tilt are those computed from them, the cells whose shear is undefined staying NaN. The resolution map is the disk radius over the smallest radius of the column minus the expected radius factor, and is recomputed after construction and loading.",
     ["inputs"], "all grids and columns",
     "cross-talk between columns shows only for particular grid sizes; untested today",
     [S], [("_build_grid/_interpolate_scale_values/diagnose_fxfy_resolution", S)], ["property arrays and diagnostic map"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        assert p["statement"].count(". ") <= 2, (p["id"], p["statement"])
        f.write(json.dumps(p) + "\n")
