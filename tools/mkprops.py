#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=observe, hook_needed=None)))

prop("C01", "Scalar validation accepts exactly the admissible values",
 "The number validator returns the very value it was given exactly when that value is an integer (or, unless an integer is demanded, also a floating point number) of a supported Python or numpy type and lies within the requested bounds, read as inclusive or as exclusive. Anything else is rejected: a wrong kind of value with a TypeError, a value outside the bounds, a NaN where bounds were given, or contradictory bounds with a ValueError. The boolean, string and class validators accept exactly the instances of the demanded type and return them unchanged.",
 ["inputs"], "every kind of Python and numpy value, every ordering of value, lower and upper bound (ties, infinities and NaN included), both integer modes and both exclusiveness modes",
 "the tests sample a few values per validator and never a NaN, a tie under both modes for each numpy width, or contradictory bounds together with other faults",
 ["validate.py"], [("number/_number_type/_number_bounds", "validate.py"), ("boolean, string, class_object", "validate.py")],
 ["return value and exception of validate.number, validate.boolean, validate.string, validate.class_object"])

prop("C02", "Array validation accepts exactly the admissible arrays",
 "The array validator returns the very array it was given, unmodified, exactly when it is a numpy array of which every element lies within the requested bounds (inclusive or exclusive, no NaN when bounds are given) and which has the demanded dtype and number of dimensions. Otherwise it raises a TypeError (not an array, or wrong dtype), a ValueError (an element outside the bounds) or an InvalidDimensionsError (wrong number of dimensions). The shape validator accepts exactly lists of at least two arrays, as many as there are names, that all have the same shape.",
 ["inputs"], "arrays of 0 to 3 dimensions (empty ones included) with any one or several elements on, inside or outside the bounds, each dtype, each combination of demanded bounds, dtype and dimensions; lists of arrays with a deviating shape at any position",
 "the tests use one or two fixed arrays per fault, so an element that is checked at one position only, a tie or an empty array is never seen",
 ["validate.py", "errors.py"], [("array/_array_bounds/_array_dimensions/_array_type", "validate.py"), ("same_shape_arrays", "validate.py")],
 ["return value and exception of validate.array and validate.same_shape_arrays, and the content of the passed arrays afterwards"])

prop("C03", "A ring satisfies its parameter invariants after every assignment",
 "Through any sequence of constructions and parameter assignments, accepted or rejected, a ring always has 0 < inner radius < outer radius, 0 <= transmission <= 1, 0 <= inclination <= 90 and -180 <= tilt <= 180. An assignment that would break this is rejected with an exception and changes nothing; any other assignment of a finite number is accepted and changes exactly that parameter to the given value (an inner radius of 0 standing for 1e-16).",
 ["histories", "inputs"], "every sequence of construction and assignments over values below, on and above each bound, including values equal to the other radius, 0, infinities, NaN and non-numbers",
 "the tests assign a few fixed values to fresh rings and never follow a rejected assignment or an order of assignments",
 ["Ring.py", "validate.py"], [("property setters", "Ring.py"), ("validate.number bounds", "validate.py")],
 ["inner_radius, outer_radius, transmission, inclination, tilt of the ring after every step"],
 [("the five ring parameters", "current value of each", "Ring.py")])

prop("C04", "A ring system stays ordered and overlap-free under every edit history",
 "Starting from non-overlapping rings, any sequence of adding, removing, replacing, splitting and merging rings leaves a list of rings ordered outwards without overlap (touching allowed), which is the list that the accepted edits describe, and every ring has the inclination and tilt of its system. An edit with an invalid index, an overlapping ring or otherwise invalid input raises an exception and leaves the system as it was. The ring that a caller passes in is neither modified nor shared with the system or with another system that was given the same ring.",
 ["histories", "inputs"], "every sequence of add_ring, remove_ring, replace_ring, split_rings and merge_rings calls, valid and invalid, on systems of 0 or more rings, with rings below, between, touching, overlapping and above the present ones",
 "the tests apply one edit to one fixed system; positions, gaps, orders of edits and rejected edits in the middle of a history are not explored",
 ["RingSystem.py", "Ring.py"], [("_prevent_ring_overlap, _override_ring_geometry", "RingSystem.py"), ("add_ring, remove_ring, replace_ring, split_rings, merge_rings", "RingSystem.py")],
 ["get_rings_data(), get_num_rings(), rings[i].inclination/tilt, and the passed Ring after every call"],
 [("rings", "ordered list of (inner, outer, transmission)", "RingSystem.py")])

prop("C05", "Splitting and merging conserve the transmission profile",
 "Splitting divides each ring into the requested number of adjoining ringlets of equal width and the same transmission, from exactly the old inner to the old outer radius; merging joins exactly the maximal runs of rings of equal transmission that follow each other with a gap smaller than the tolerance. Neither changes the transmission at any radius, except inside gaps that merging closes; merging undoes a split, and merging again with the same tolerance changes nothing.",
 ["inputs", "histories"], "every list of non-overlapping rings (gaps below, at and above the tolerance, equal and different transmissions), every number or array of divisions, every positive tolerance",
 "the tests split and merge one or two fixed systems and never a gap near the tolerance, unequal divisions followed by a merge, or a repeated merge",
 ["RingSystem.py"], [("split_rings", "RingSystem.py"), ("merge_rings", "RingSystem.py")],
 ["get_rings_data() before and after"])

prop("C06", "A drawn ring system shows every ring with its geometry and opacity",
 "Drawing a ring system adds a filled circle of the planet radius and, for each ring, a patch that covers exactly the region between its inner and its outer ellipse - semi-axes radius and radius*cos(inclination), major axis at the tilt angle, centred on the requested shift - with opacity 1 - transmission and the requested colour. The hole inside a ring stays see-through, and the axes show an equally scaled square window around the shifted centre that reaches 2 beyond the outermost ring.",
 ["inputs"], "every planet radius, ring list, inclination, tilt, x and y shift and colour",
 "the tests compare a few path vertices of a fixed ring; fill, hole, opacity, rotation sense and plot window of other geometries are not observed",
 ["Ring.py", "RingSystem.py"], [("Ring.get_patch", "Ring.py"), ("RingSystem._get_patches, RingSystem.plot", "RingSystem.py")],
 ["the patches and limits of the axes returned by RingSystem.plot, and the rendered pixels"])

prop("C07", "Grid axes are evenly spaced and extend to a mirror image",
 "Grid parameters have dx and dy vectors of the requested number of evenly spaced values from minimum to maximum, an rf vector evenly spaced from 1 to its maximum and an rf_array that runs down this vector and up again, and shapes that match these vectors; invalid input is rejected. They are extendable exactly when dx and dy both start at 0; extending an extendable object with at least two values per axis keeps the spacing and the positive half, adds its mirror image around an exact 0 and makes the object non-extendable, while extending any other object fails and changes nothing.",
 ["inputs", "histories"], "every minimum, maximum and number of points for each of the three axes (1 point included), and every sequence of extensions",
 "the tests use one or two fixed parameter sets; odd/even and single-point axes and repeated or failing extensions are hardly sampled",
 ["GridParameters.py"], [("_determine_dx, _determine_dy, _determine_rf", "GridParameters.py"), ("extend_grid", "GridParameters.py")],
 ["dx, dy, rf, rf_array, grid_shape, slice_shape, extendable, get_vectors()"])

prop("C08", "Diagnostics return what was stored for the grid point asked for",
 "Reading the diagnostics of a grid point returns exactly the pair of arrays last stored for that point and fails for a point that has none or lies outside the grid; storing affects no other point, and rejected data changes nothing. Once extended, diagnostics accept no more changes, and a point of the extended grid reads the pair of its mirror point in the original quadrant; saving and loading preserves all of this.",
 ["histories", "inputs"], "every sequence of storing, reading, extending, saving and loading over every grid point, inside and outside the grid, of square and non-square grids",
 "the tests store at a single grid point of one grid and read extended diagnostics at one or two points",
 ["GridDiagnostics.py"], [("_generate_key", "GridDiagnostics.py"), ("save_diagnostic, get_diagnostic, extend, save, load", "GridDiagnostics.py")],
 ["return value and exception of get_diagnostic and save_diagnostic"],
 [("store", "map from grid point to a pair of arrays", "GridDiagnostics.py"), ("extended", "whether extend() was called", "GridDiagnostics.py")])

prop("C09", "Reading a grid property masks the result and never the stored data",
 "Reading a grid property returns an independent array that holds NaN where the current mask is set (when a masked read is asked for and a mask is set) and the original value everywhere else; neither reads, masks, contrast changes, plots nor changes to a returned array ever alter the stored data. Only a boolean mask of the shape of the data is accepted; a rejected mask or rejected contrast parameters raise an exception and change nothing. Unless given, the contrast limits are the smallest and largest non-NaN value of the data.",
 ["histories", "inputs"], "every sequence of set_mask, get_data, set_contrast_parameters and slice plots, with every mask, on data with and without NaN",
 "the tests set one mask and read once; replacing a mask by a looser one, repeated reads and writes to a returned array are not explored",
 ["GridProperty.py"], [("set_mask, get_data, set_contrast_parameters", "GridProperty.py")],
 ["get_data(True), get_data(False), mask, vmin, vmax"],
 [("data", "the stored 3-D array", "GridProperty.py"), ("mask", "None or a boolean array", "GridProperty.py")])

prop("C10", "A gradient masks exactly the points that are too shallow",
 "After a measurement is set on a gradient, its scaled gradient is measured gradient x orbital scale / transmission change and its mask is set exactly where the theoretical gradient is smaller than that or NaN, whatever was set before. A measurement that is invalid or scales to more than 1 is rejected with an exception and leaves the gradient, its mask and its scaled gradient as they were; a gradient without a measurement has no scaled gradient and no mask.",
 ["inputs", "histories"], "every data cube (NaN, ties with the scaled gradient), every measured gradient, orbital scale, transmission change and error, valid and invalid, in every order",
 "the tests set one valid and one invalid measurement on one data cube and never a second one after it, a tie or a NaN",
 ["GridProperty.py"], [("GridGradient.determine_mask, get_scaled_gradient", "GridProperty.py")],
 ["mask, get_scaled_gradient(), measured_gradient, measured_error, orbital_scale, transmission_change, get_data()"])

prop("C11", "Grid components survive saving and loading, damage is detected",
 "Loading grid parameters, a grid property or a gradient from a folder to which it was last saved gives an equal object: vectors, shapes, data, mask or absence of a mask, position and measurement, whatever had been saved to that folder before. Loading from a folder in which a required file is missing or truncated raises a LoadError and never returns an object.",
 ["histories", "fault_sequences", "inputs"], "every sequence of saves of masked, unmasked, measured and unmeasured objects to the same or different folders, followed by a load; every required file removed or cut short",
 "the tests save one object to a fresh folder and load it back; overwriting, damaged files and other masks are not explored",
 ["GridParameters.py", "GridProperty.py", "errors.py"], [("save/load", "GridParameters.py"), ("save/load, save_gradient", "GridProperty.py"), ("LoadError", "errors.py")],
 ["the loaded object's public attributes, or the exception of load"],
 [("folder", "the files written by the saves so far", "GridProperty.py")])

prop("C12", "The viewer always shows the slice, title and markers of its index",
 "Through any sequence of scroll events a property viewer stays within the slices of its axis, moves by one slice per event (up increases, anything else decreases, the ends hold) unless it is frozen, and always shows the data of the current slice. The title names the property, unit, slice coordinate and value, and for radius slices the horizontal or vertical half; the markers shown are those of exactly the coordinates within a third of a grid step of the current slice.",
 ["histories", "inputs"], "every axis, start index, mask choice, list of coordinates, frozen or not, and every sequence of scroll events",
 "the tests scroll once or twice at fixed indices; ends, histories and markers that come and go are not covered",
 ["GridProperty.py"], [("GridPropertyViewer.onscroll, update, update_title, plot_coordinates", "GridProperty.py")],
 ["viewer.index, the image array, title, axis labels and lines of the axes after each event"],
 [("index", "index of the current slice", "GridProperty.py")])

prop("C13", "Every grid point is an ellipse through both ends of the eclipse",
 "At every grid point of a shallot grid either all of disk radius, inclination, tilt, fx and fy are defined or none is, and where they are defined the ellipse with that semi-major axis, inclination and tilt centred at (dx, dy) passes through (-1/2, 0) and (+1/2, 0), with 0 <= inclination <= 90, |tilt| <= 180. The fx and fy there are the stretch factors of the same ellipse. Points with dy = 0 and dx not 0 are undefined, as is the horizontal side (rf decreasing to 1) of the point dx = dy = 0; all other points of a sufficiently sampled grid are defined.",
 ["configurations", "inputs"], "every grid configuration (extents, resolutions, one quadrant or off-origin, positive and negative), every grid point",
 "Shallot.py has no tests at all", ["Shallot.py"],
 [("_determine_disk_parameters, _determine_fx, _determine_fy, _interpolate_scale_values", "Shallot.py"), ("_build_grid, _fill_quadrants", "Shallot.py")],
 ["get_disk_radius(), get_inclination(), get_tilt(), get_fx_map(), get_fy_map(), parameters"])

prop("C14", "An extended grid is mirror symmetric about both axes",
 "A grid whose quadrant starts at the origin is extended to all four quadrants: the point mirrored in dx or in dy has the same disk radius, inclination, fx and fy and the supplementary tilt (180 degrees minus it), the point mirrored in both has the same tilt too, and the positive quadrant is what building that quadrant gives. Any other grid keeps the requested vectors and is not extended.",
 ["configurations", "inputs"], "every extendable and non-extendable grid configuration, every pair of mirror points",
 "Shallot.py has no tests at all", ["Shallot.py", "GridParameters.py"],
 [("_extend_grid, _fill_quadrants", "Shallot.py"), ("extend_grid", "GridParameters.py")],
 ["the property getters at mirrored indices, parameters.grid_shape"])

prop("C15", "Along rf the disk radius is rf times the smallest disk at that centre",
 "At every defined centre the slice rf = 1 holds the smallest disk; on either side of it the disk radius is rf times that smallest radius up to the interpolation error, with larger fx and smaller fy on the horizontal side and larger fy and smaller fx on the vertical side. The diagnostic map is exactly the deviation disk radius / smallest disk radius - rf at every point.",
 ["configurations", "inputs"], "every grid configuration with adequate sampling, every centre and every rf index",
 "Shallot.py has no tests at all", ["Shallot.py"],
 [("_extend_grid_horizontally, _extend_grid_vertically, _interpolate_scale_values", "Shallot.py"), ("diagnose_fxfy_resolution", "Shallot.py")],
 ["get_disk_radius(), get_fx_map(), get_fy_map(), get_diagnostic_map(), parameters.rf_array"])

prop("C16", "Building a grid is deterministic and leaves everything else alone",
 "The grid depends only on the grid parameters and the fx/fy resolution: building again, with or without diagnostics or intermittent saving, at any logging level, from the same or equal parameters, gives the same grid, and the diagnostics kept are the complete curves from which it was interpolated. Building does not modify the caller's grid parameters and changes no file, except that intermittent saving uses its temporary folder, which is gone when the build is finished; other builds and loads leave an existing checkpoint alone.",
 ["configurations", "histories"], "every grid configuration, every combination of the build options, every order of builds sharing a parameters object, with and without a checkpoint folder present",
 "Shallot.py has no tests at all", ["Shallot.py", "GridParameters.py", "GridDiagnostics.py"],
 [("__init__, _build_grid", "Shallot.py"), ("_create_temp_save_dir, _delete_temp_save_dir", "Shallot.py")],
 ["property maps of each build, the caller's GridParameters, the working directory tree"])

prop("C17", "A build interrupted at any point resumes to the same grid or fails",
 "If a build with intermittent saving dies at any moment, loading its temporary folder either raises an exception or returns exactly the grid that the uninterrupted build gives, never a partly filled or different grid. After at least one completed row checkpoint, a death outside a checkpoint write can always be resumed, repeatedly if the resumed build dies as well, and resuming does not redo the rows before the checkpoint.",
 ["crash_points", "histories", "configurations"], "every file system operation of a build as a crash point, torn last writes included, repeated crashes, with and without diagnostics, extendable and other grids",
 "Shallot.py has no tests at all, and no test interrupts anything",
 ["Shallot.py", "GridDiagnostics.py", "GridProperty.py", "GridParameters.py"],
 [("save(y_value), load, _build_grid(start_y)", "Shallot.py"), ("_create_temp_save_dir, _delete_temp_save_dir", "Shallot.py")],
 ["ShallotGrid.load of the folder left behind, and the maps of the grid it returns"],
 [("checkpoint", "files of the temporary folder", "Shallot.py")])

prop("C18", "A saved grid loads back complete and never overwrites another",
 "Loading a saved grid gives the same grid parameters, fx/fy resolution, property maps, masks, diagnostics and diagnostic map, and the same gradients in the same order with their positions, measurements and masks, however the grid was modified before. Saving to a folder that exists already fails and leaves that folder unchanged; loading a folder in which a required file is missing or a file is truncated never gives another grid: it fails unless that file is redundant.",
 ["histories", "configurations", "fault_sequences"], "every grid with any sequence of gradient additions, removals, re-scalings and hill radius masks before the save (equal and negative gradient positions included), every file removed or cut short",
 "Shallot.py has no tests at all", ["Shallot.py", "GridProperty.py", "GridDiagnostics.py", "GridParameters.py"],
 [("save, load, _load_grid_attributes", "Shallot.py")],
 ["public attributes and getters of the loaded grid, the folder tree before and after"],
 [("saved folder", "files written by save", "Shallot.py")])

prop("C19", "Gradient bookkeeping follows every accepted edit and no rejected one",
 "Through any sequence of calls the grid's gradients are exactly those that the accepted additions, removals and re-scalings describe, in order of addition, each with the position -time / eclipse duration and its own measurement, error, scaling and mask; setting eclipse parameters clears them. A call that raises an exception changes neither the eclipse parameters, nor the gradients, nor the gradient fit; additions without eclipse parameters and removals or fits without gradients have no effect.",
 ["histories", "inputs"], "every sequence of set_eclipse_parameters, add_gradients, remove_gradients, update_gradient_scaling and determine_gradient_fit calls, valid and invalid",
 "Shallot.py has no tests at all", ["Shallot.py", "GridProperty.py"],
 [("add_gradients, remove_gradients, set_eclipse_parameters, update_gradient_scaling", "Shallot.py")],
 ["gradients and get_gradients(), gradient_fit, and the effect of later calls"],
 [("gradients", "ordered list of measured gradients", "Shallot.py"), ("eclipse parameters", "duration, velocity, limb darkening or none", "Shallot.py")])

prop("C20", "Masked reads hide exactly the points excluded by some current mask",
 "The combined mask of a grid is at every moment exactly the union of the hill radius mask (disk radius undefined or larger than the hill radius) and the masks of the current gradients; a masked read of any map gives NaN exactly there and where the map itself is undefined, and an unmasked read gives the map as it was built. Loosening or removing a mask brings all its points back with their original values, and no read changes what a later read returns.",
 ["histories"], "every sequence of hill radius masks, gradient additions, removals and re-scalings, and reads of any map with any combination of mask flags",
 "Shallot.py has no tests at all", ["Shallot.py", "GridProperty.py"],
 [("get_combined_mask, generate_hill_radius_mask", "Shallot.py"), ("get_disk_radius, get_inclination, get_tilt, get_fx_map, get_fy_map, get_diagnostic_map, get_gradients, get_gradient_fit", "Shallot.py")],
 ["get_combined_mask() and all getters"],
 [("masks", "mask of each property and gradient", "GridProperty.py")])

prop("C21", "A theoretical gradient is the slope of the ring edge at its position",
 "The theoretical gradient of a grid point at a position on the transit path is |sin| of the angle between the path and the tangent of the ring edge that passes through that position, for rings concentric and co-planar with the disk of that grid point. It lies between 0 and 1 (1 where the edge is perpendicular to the path, as at dx = dy = 0), is NaN where the grid point is undefined, and does not depend on masks, on the order of the gradients or on their measurements.",
 ["inputs", "configurations"], "every grid configuration, grid point and position (outside the eclipse and on grid columns included)",
 "Shallot.py has no tests at all", ["Shallot.py"], [("_determine_disk_gradients", "Shallot.py")],
 ["gradients[k].get_data(False) and get_gradients()"])

prop("C22", "The gradient fit is the sum of squared misfits of the current gradients",
 "After it is determined, the gradient fit of every grid point is the sum over the current gradients of (theoretical - scaled measured gradient)^2, divided by the squared measured error when weighted, and NaN where a theoretical gradient is. It is discarded by every change of the gradients or their scaling, so that a fit that can be read always belongs to the current gradients; masks only decide which points are shown.",
 ["histories", "inputs"], "every set of gradients, errors, scalings and masks, weighted or not, and every sequence of changes between determining and reading the fit",
 "Shallot.py has no tests at all", ["Shallot.py"],
 [("determine_gradient_fit, get_gradient_fit, _reset_gradient_fit", "Shallot.py")],
 ["get_gradient_fit() with all mask flags"],
 [("gradient fit", "none or one value per grid point", "Shallot.py")])

prop("C23", "Extracted solutions are the best unmasked grid points in order",
 "Extracting n solutions returns n distinct unmasked grid points in ascending order of gradient fit, none of them worse than any unmasked point left out, each with the fit, disk radius, inclination, tilt and centre of that same grid point; asking for more than there are unmasked points is rejected. Extraction changes nothing, so that repeating it gives the same solutions, and each solution can be used as the geometry of a ring system.",
 ["histories", "inputs"], "every grid, set of gradients and masks, every number of solutions from 0 to all, ties in the fit, repeated extractions",
 "Shallot.py has no tests at all", ["Shallot.py", "RingSystem.py"], [("extract_solutions", "Shallot.py")],
 ["the returned arrays, and all maps before and after"])

prop("C24", "The closest grid point is the nearest one on the correct side",
 "The grid point reported as closest to a given disk radius, inclination, tilt and impact parameter minimises the Euclidean distance of (disk radius, inclination, tilt, dy) to these over all defined points - unmasked ones if a masked search is asked for - with points on the other side of the path (dy of the opposite sign to the impact parameter) never preferred to points on the correct side. The reported coordinates, indices and distance belong to that point; querying with the values of a grid point gives distance 0, and a query changes nothing.",
 ["inputs", "histories"], "every grid configuration, mask and query, exact grid points and points in between or outside",
 "Shallot.py has no tests at all", ["Shallot.py"], [("determine_closest_grid_point", "Shallot.py")],
 ["the returned coordinates, indices and distance"])

prop("C25", "Grid point data agrees with the maps at that point",
 "The data returned for a grid point index are the disk radius, inclination, tilt, dx, dy, rf, fx, fy, diagnostic value and the position and theoretical gradient of each current gradient at exactly that index, equal to what the maps hold there: with the masks applied for a masked request, as built for an unmasked one. Indices outside the grid are rejected, and the request changes nothing.",
 ["inputs", "histories"], "every grid point index inside and outside the grid, every set of gradients and masks, both mask flags",
 "Shallot.py has no tests at all", ["Shallot.py"], [("get_grid_point_data", "Shallot.py")],
 ["the returned tuples compared with the getters"])

prop("C26", "Printed reports state the actual parameters",
 "The printed report of a ring, ring system, set of grid parameters, diagnostics, grid property, gradient, viewer or shallot grid always succeeds and states the actual values of that object to the printed precision: every ring in order, axis ranges and sizes, number of stored diagnostics, limits, mean and median of the data, percentage masked, measurement, and the worst interpolation deviation. Printing changes nothing.",
 ["inputs", "histories"], "every object of each class in every state that its operations can bring about",
 "the tests compare the report of one fixed object per class; empty systems, all-NaN data, masks and whole grids are not printed",
 ["Ring.py", "RingSystem.py", "GridParameters.py", "GridDiagnostics.py", "GridProperty.py", "Shallot.py"],
 [("__str__/__repr__", "all classes")], ["str(object)"])

prop("C27", "The log tells each accepted change once, as it happened",
 "Every accepted edit of a ring system writes exactly one message that names the edit with the actual index or numbers of rings before and after it, one per overridden ring angle with its old and new value, and at the debug level one with the rings before and after; a rejected edit reports no change. A grid reports each row that it computes once and in order out of the actual number of rows, the numbers of gradients that it adds, fits and of solutions that it extracts, every discarded gradient fit, its worst interpolation deviation and the closest grid point with its values. Messages below the level of their object are not written and messages of one object never appear for another, however the objects were created; creating and using objects leaves numpy's global random state alone.",
 ["histories", "configurations"], "every history of accepted and rejected edits of several ring systems and grids of different logging levels, created at any moment (also after seeding numpy)",
 "no test looks at what is logged, and tests use one object at a time",
 ["RingSystem.py", "Shallot.py"], [("_set_logger, _print_changes, _override_ring_geometry", "RingSystem.py"), ("_set_logger and all self.logger calls", "Shallot.py")],
 ["the text written to standard error during each call, and numpy.random.get_state()"],
 [("logger", "level and handler of each object", "RingSystem.py")])

prop("C28", "A drawn slice has every value at its coordinates in its colour",
 "A plotted slice, and a viewed cube after any scrolling, shows every value of the current slice in a cell that contains its grid coordinates, the first coordinate of each axis at the lower left, with the axes labelled by the two remaining coordinates and the radius axis unrolled and labelled with the radius factor of each place. Each value has the colour of its part of the property's contrast limits in the property's colour map and number of colours, undefined and masked values have none. It is drawn in the given axes, or the current ones, only. Contrast parameters that are not given return to their defaults; a rejected change leaves them as they were.",
 ["histories", "inputs"], "every grid shape and extent, axis, slice, mask, data (NaN, constant, all undefined), contrast limits, colour map and number of colours, in every order of changes and drawings",
 "the tests compare attributes of one drawn slice; the place and colour of values, other axes and changed contrast parameters are not looked at",
 ["GridProperty.py", "GridParameters.py"], [("plot_slice, plot_cube, set_contrast_parameters", "GridProperty.py"), ("GridPropertyViewer.determine_extent, set_rf_ticklabels, set_labels", "GridProperty.py")],
 ["the value under the pointer at each grid coordinate, tick and axis labels, colours and rendered pixels of the returned image"],
 [("contrast", "vmin, vmax, color_map, num_colors", "GridProperty.py")])

prop("C29", "Every argument of the public interface is accepted or refused as documented",
 "Every constructor and method of rings, ring systems, grid parameters, diagnostics, properties, gradients, viewers and shallot grids accepts each argument within its documented domain - type, bounds (those included and those excluded), whole numbers, element type, dimensions and shape of arrays, None where a default exists - and refuses every value outside of it with an exception that names the argument, whatever state the object is in. A refused call leaves the object, the axes and every file as they were, and no call changes its arguments.",
 ["inputs", "histories"], "every argument of every public call, at, next to, and beyond each of its bounds, of every other type, shape and dimension, in every state in which the call is possible",
 "the tests give a few invalid values to a few calls of classes that have tests (Shallot.py has none), hardly a value on a bound, and do not look at the object or the files after a refusal",
 ["validate.py", "Ring.py", "RingSystem.py", "GridParameters.py", "GridDiagnostics.py", "GridProperty.py", "Shallot.py"],
 [("validate.* calls at the start of each method", "all classes")],
 ["the exception and its text, the state of the object, the drawn axes, the files and the arguments after each call"])

prop("C30", "Every map carries its name, its unit and colours that show all of its data",
 "In every grid that was built, extended, resumed or loaded, and after every later call on it, the disk radius, inclination, tilt, stretch factors, diagnostic map, every gradient and the gradient fit carry the name and the unit of their quantity and the coordinates of the grid. A map that was just made shows all of its data: its contrast limits are the extremes of the data, and its colour map is the default one, cyclic for the tilt (for which 180 degrees are 0) and for no other map. Contrast parameters that the user sets afterwards stay as set by every other call - gradients added, removed or scaled again, eclipse parameters, masks, solutions, other maps made anew - and are what a drawing of the map uses. Gradients sort by their position.",
 ["histories"], "every history of calls on a grid, every way to obtain one, any contrast set in between",
 "no test builds, loads or extends a shallot grid; the property tests look at one property alone, never at which call changes its contrast",
 ["Shallot.py", "GridProperty.py", "GridPropertyName.py", "GridPropertyUnit.py"],
 [("_set_grid_property_contrast_parameters, _extend_grid, load, determine_gradient_fit", "Shallot.py"), ("set_contrast_parameters, plot_cube, __lt__", "GridProperty.py")],
 ["name, unit, limits, colour map and number of colours of every map after each call, and the colours and limits of a drawing"])

prop("C31", "A ring system drawn from a grid point eclipses the star as the grid says",
 "Take any point of a built, extended, resumed or loaded grid - from its maps, as grid point data, as the closest point to a given disk or as an extracted solution - and plot a ring system with its inclination and tilt and with its disk radius as an edge, shifted by its dx and dy, all lengths in any one unit and the system reached by any edits. The drawn edge of that radius meets the path y = 0 exactly at -1/2 and 1/2 of the eclipse; every other drawn edge meets it symmetrically about mid-eclipse, at the chord of the similar ellipse, or not at all; the star at any place of the path is behind the ring between whose chords it is, with the transmission of that ring, and behind none before and after; and an edge that passes at place -t/duration has the slope that the grid predicts for a gradient measured at time t.",
 ["inputs", "histories"], "every grid, every point of it, every way to read it, every place of the path and every ring system with that disk",
 "the tests check a grid's ingredients nowhere and a ring's patch for one shape; that the conventions of both (centre, tilt direction, units, sign of time) agree is only seen in the notebooks' figures",
 ["Shallot.py", "Ring.py", "RingSystem.py"],
 [("get_grid_point_data, extract_solutions, determine_closest_grid_point, _determine_disk_gradients", "Shallot.py"), ("get_patch", "Ring.py"), ("plot, _get_patches", "RingSystem.py")],
 ["the drawn contours' places and slopes on the path, the winding number and opacity of every patch at places of the path, and the grid's predicted slopes"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
