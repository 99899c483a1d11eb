#!/usr/bin/env python3
"""Writes /verif/known_findings.json (run by hand, never by a check)."""
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = [dict(
    property="C08", tag="C08.extended_mirror_off_by_one",
    what="get_diagnostic of extended diagnostics looks up row |i - n| and "
         "column |j - m| instead of |i - (n - 1)| and |j - (m - 1)|, i.e. the "
         "neighbour of the mirror point (or none); pinned by "
         "test_grid_diagnostics.py, so not repaired")]
FIXED = [
 ("C20", "f919e47", "a masked read (get_data(True)) wrote NaN into the stored data, so that later unmasked reads and looser masks lost points (C09 too)"),
 ("C24", "4a5d0f9", "determine_closest_grid_point compared the impact parameter with index based dy values, not the dy of the row"),
 ("C19", "0a92622", "remove_gradients with a repeated index removed other gradients as well or failed half way"),
 ("C19", "873eef6", "remove_gradients / determine_gradient_fit with an empty gradient list raised or built an empty fit"),
 ("C19", "d4e5326", "set_eclipse_parameters kept the first parameters when a later one was rejected"),
 ("C19", "cef7dea", "a rejected add_gradients left half-initialised gradients in the grid"),
 ("C10", "6e79a49", "a rejected determine_mask left the new measurement with the old mask"),
 ("C19", "24550a5", "update_gradient_scaling accepted invalid values and changed part of the gradients when one was rejected"),
 ("C16", "c86cd8c", "building an extendable ShallotGrid extended the caller's GridParameters"),
 ("C04", "fa5562d", "add_ring / replace_ring overwrote the geometry of the caller's Ring and shared it with the system"),
 ("C06", "62e732f", "RingSystem.plot used x_shift for the y limits"),
 ("C18", "ab307e7", "saving a grid with diagnostics raised (diagnostics were saved to no directory)"),
 ("C08", "90b7730", "extended diagnostics were no longer extended after save and load"),
 ("C18", "38911fb", "a damaged diagnostics file made load drop the diagnostics silently"),
 ("C18", "0e95bbb", "saved gradients were not found or restored in another order by load"),
 ("C17", "5fcb6b6", "loading a temporary folder (resuming an interrupted build) raised"),
 ("C17", "3938172", "a partially deleted checkpoint folder was loaded as a complete grid although rows were missing"),
 ("C17", "5ae8ecc", "resuming a build at its first row deleted the checkpoint, so that a second death could not be resumed"),
 ("C12", "6cc4939", "the viewer could not remove old coordinate markers, so scrolling failed or kept them"),
 ("C11", "c1962e6", "saving an unmasked property over a masked one brought the old mask back on load"),
 ("C11", "746698d", "the mask of a gradient without measurement was lost on load"),
 ("C11", "1565d8f", "a mask file of another shape was accepted on load"),
 ("C07", "805691d", "a rejected extend_grid had already changed the vectors"),
 ("C07", "fc38ada", "an extended axis was shifted by rounding, so that its centre was not at 0"),
 ("C07", "04b94ef", "a NaN minimum or maximum of a grid axis was accepted"),
 ("C13", "0c7ae8f", "fy was 0 instead of undefined where the grid has no ellipse (horizontal side of the origin)"),
 ("C21", "4d8c5cd", "the gradient of a ring edge perpendicular to the path (origin) was NaN instead of 1"),
 ("C25", "d4c55f6", "unmasked grid point data still hid the disk radius of points beyond the hill radius"),
 ("C24", "6e7927a", "an unmasked closest grid point search still skipped points beyond the hill radius"),
 ("C01", "5a4f66c", "a NaN passed every bounded number validation (C03: as a ring parameter)"),
 ("C02", "4ff659c", "a NaN in an array passed every bounded array validation"),
 ("C15", "9714050", "where the largest dx or dy was below 1 the disks were interpolated in scale factors out of order, so that their radii were not rf times the smallest (up to 44 % off)"),
 ("C27", "b01a230", "two objects created after equal seeding of numpy shared a logger: every message was written twice and at the level of the last one (and creating an object used up a random number)"),
 ("C28", "3531416", "a rejected set_contrast_parameters had already changed the limits or the colour map given before the invalid argument (C09 too)"),
 ("C15", "8056f3c", "a grid of which the largest rf is 1 did not look for the smallest disks beyond the first scale factors (radii up to 5 times too large)"),
 ("C29", "cdf479f", "get_grid_point_data accepted an index equal to the size of its axis and then failed with a bare IndexError (C25 too)"),
 ("C29", "2f4057a", "a rejected GridProperty.save had already created the folder and files"),
 ("C29", "d61fab7", "a GridPropertyViewer rejected because of its frozen argument had already drawn in the given axes"),
 ("C30", "514b8aa", "a loaded grid showed its tilt in the default colours instead of the cyclic ones of a built grid"),
 ("C04", "1c7ff87", "replace_ring(True, ring) replaced all rings, which then overlapped"),
 ("C26", "3c9dc23", "printing an all-NaN property or a masked unmeasured gradient raised"),
]
with open(os.path.join(ROOT, "known_findings.json"), "w") as f:
    json.dump(dict(findings=FINDINGS, fixed=[
        "fixed: property=%s %s %s" % x for x in FIXED]), f, indent=1)
    f.write("\n")
