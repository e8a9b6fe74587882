#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = {
 "C01": ("seeded thread-schedule and clock simulation of the detection stage on rendered images, compared with the serial schedule and with ground truth", ""),
 "C02": ("simulated open/read failures, truncations and vanished images at every open, under seeded worker schedules, compared with the fault-free run", ""),
 "C03": ("save/load histories of the real program on generated observations, exact comparison with the model of what was saved", ""),
 "C04": ("crash points, torn writes and truncations of the keypoints file, then a resumed run that must fail", ""),
 "C05": ("missing, torn and damaged intrinsics files and read faults; the run must fail with nothing exported", ""),
 "C06": ("full disk, short writes, failed opens/closes at seeded write steps; success is only allowed with complete files", ""),
 "C07": ("seeded rigs, sensor faults and random-device streams; refinement against the known rig with covariance-scaled tolerance", ""),
 "C08": ("seeded non-overlapping rigs, sensor faults and random-device streams; refinement against the known rig", ""),
 "C09": ("seeded observation patterns with silent cameras and boards; partition compared with an independent union-find model", ""),
 "C10": ("seeded board assemblies and sensor faults; objects compared with the known assembly and an independent partition model", ""),
 "C11": ("conservation and cross-file consistency checks over the exported history of simulated runs", ""),
 "C12": ("seeded rigs and random-device streams with fixed or perturbed intrinsics; exact equality or refinement against the known lens", ""),
 "C13": ("injected false keypoints and random-device streams; conservation of clean points, rejection of gross ones, refinement against the known rig", ""),
 "C14": ("images vanishing or failing to read between detection and overlay writing; numeric results compared with a run without overlays", ""),
 "C15": ("process crash at seeded write steps, restart and repetition in the same directory; results compared with a fresh directory", ""),
 "C16": ("two runs with the same draws but different clock, core count, initial memory and address layout; byte comparison", ""),
 "C17": ("seeded board configurations on rendered and on generated observations; geometry compared with the configuration model", ""),
 "C18": ("crashes, full disks and write failures at seeded steps of the board generator, reruns, and its pages detected as printed boards in the rendered world", ""),
 "C19": ("configuration files torn, damaged or unreadable at seeded places; the run must be refused, or give identical results where nothing needed is gone", ""),
 "C20": ("degenerate and starving sensor-fault sequences and random-device streams; orderly end required, success only with finite, complete results", ""),
 "C21": ("seeded allocation failures (single, bursts, for good, by size) at any point of a run; success only with the results of the undisturbed run", ""),

}
NOTE = ("Seeded search: no violation in the explored simulated runs; it samples, it does not enumerate. Real: all of McCalib/src, apps and "
        "OpenCV/Ceres/Boost. Simulated: threads' schedule, random device, clocks, core count, fresh memory, allocation failures, file I/O results, crashes, and the world. "
        "Trusts the oracle in sim/ (own projection model and information matrix) and, inside the solver, single-threaded BLAS.")
NA = {
 "C30": "pure function of its arguments (getAverageRotation): no schedule, clock, I/O or party in it; only its effect on a calibration is simulated (C07, C08)",
 "C31": "pure function of its arguments (projection / undistortion): nothing for a simulator to decide; an end effect is covered by C11's reprojection check",
 "C32": "pure graph algorithm on its arguments: nothing for a simulator to decide; an end effect is covered by C07-C10",
 "C34": "plotting scripts reading finished files, no concurrency, faults or histories in them, and their dependencies (numpy, matplotlib, open3d) are not part of the build",
}
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 check.py --build",
     "checks": [{"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                 "evidence_file": "evidence/%s.json" % i, "technique": "deterministic simulation: " + T[i][0], "level": "exploration",
                 "level_note": NOTE} for i in props if i not in NA],
     "not_applicable": [{"property": i, "reason": NA[i]} for i in props if i in NA],
     "notes": "No hooks in /repo: every seam is a link-time or libc-level interposition (see DESIGN.md). /repo carries only fix: commits."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
