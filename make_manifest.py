#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json
T = {
 "C01": ("online reference-model monitor over push/pop histories, ASan+UBSan", "The model keeps its own queues; every output, tag and stamp is compared."),
 "C02": ("online reference-model monitor over push/packed-pop histories, ASan+UBSan", "Stamps, order, tags and interpolated samples of every pack are compared with the model's."),
 "C03": ("online reference-model monitor over several loaders with clears, ASan+UBSan", "Every delivered stamp against the loader's own first stamp."),
 "C04": ("shadow-state monitor of the window after every step", "The model keeps what each frame's message said; every track, frame and camera is asked for."),
 "C05": ("trace monitor predicting each removed frame from messages and poses", "Key frame test recomputed from raw messages."),
 "C06": ("runtime oracle: known motion against estimated attitude, ASan+UBSan", "Filter convergence is bounded by the harness's double precision twin of the motion."),
 "C07": ("online reference-model monitor of the attitude history, ASan+UBSan", "A plain list answers every query."),
 "C08": ("online double precision integration monitor on every sample", "Bounds follow single precision rounding."),
 "C09": ("online double precision covariance monitor, measured derivatives", "Transition also compared with the propagation's own finite differences."),
 "C10": ("differential monitor: repropagation against fresh propagation", "Dropped items predicted by the model."),
 "C11": ("runtime oracle: double precision Kalman update with numerical derivatives", "Tracks near the triangulation's refusal limit are left out."),
 "C12": ("runtime oracle on the joint covariance before and after", "Exact entries where nothing is observed, posterior otherwise."),
 "C13": ("metamorphic monitor: nudge each track and repeat with the same random stream", "A track counts as used when its nudge moves the result."),
 "C14": ("runtime oracle: double precision least squares, ASan+UBSan", "Points near the plane of a view are left undecided."),
 "C15": ("runtime oracle: cost recomputed and minimised in double precision, ASan+UBSan", "Convergence claimed for first guesses near the point and moderate noise."),
 "C16": ("runtime oracle: double precision least squares pose, ASan+UBSan", "Badly determined problems are left out; robust gain is judged over the whole run."),
 "C17": ("runtime oracle on flags, truth and prefix runs with a controlled random stream", "Detection of outliers is judged as one of five runs and as a rate."),
 "C18": ("end-to-end monitor: first published state against simulated truth", "Exact tracks; attitude from rest."),
 "C19": ("online trace monitor of both publications after every step", "Stamps, refusals, idempotence and consistency by reintegration."),
 "C20": ("end-to-end monitor: every published state against simulated truth", "Exact data bounded tightly, noisy data by run and over all runs."),
 "C21": ("fault injection (gaps, resets) with an end-to-end truth monitor", "Restarts are judged at rest."),
 "C22": ("AddressSanitizer + UBSan + library assertions under hostile streams", "Configuration values are representable numbers; cameras do not change while a backend runs."),
 "C23": ("differential monitor: bitwise replay, alone and interleaved", "Random stream controlled per backend; same configuration in the process."),
 "C24": ("metamorphic monitor: clock origin shifted, bitwise comparison", "Stamps are dyadic so that shifting is exact."),
 "C25": ("runtime oracle: parameters read back where they are used, ASan+UBSan", "Files written in varied notation, missing or spoilt."),
 "C26": ("online monitor of all queue sizes after every sample", "Bounds from window length and rates."),
 "C27": ("runtime oracle: double precision definitions, ASan+UBSan", "Near vertical pitch only the rebuilt rotation is compared."),
 "C28": ("ThreadSanitizer with a determinism monitor", "Format state of std::cout is suppressed: console output is not claimed."),
 "C29": ("online invariant monitor of covariance and rotations over long runs", "Small negative eigenvalues within single precision are tolerated."),
 "C30": ("metamorphic monitor: renamed and shuffled tracks", "Only scenes in which all tracks are used."),
 "C31": ("runtime oracle on random objects: what they hold, answer and print, ASan+UBSan", "Print format is free; only the names of tracks and frames have to appear."),
 "C32": ("metamorphic monitor: turned body axes or images, renumbered or repeated cameras, other units", "All tracks used; runs are left at a rounding tie of the key frame policy."),
 "C33": ("differential monitor: run after every sample against run in turns with refused messages, bitwise", "Input in time order, each frame with the sample that follows it."),
 "C35": ("differential monitor against a new backend given what is meant to survive, bitwise", "Biases, cameras, attitude history and newest frame are what survives."),
 "C36": ("metamorphic monitor: all noise variances times a power of four, states bitwise, covariance scaled", "Factors for which single precision scales exactly."),
 "C37": ("metamorphic monitor: blind cameras, tracks seen once or never measured added", "All tracks used; runs are left at a rounding tie of the key frame policy."),
 "C38": ("metamorphic monitor: frames handed over late, states and covariances compared bitwise", "Runs without a restart; order of the frames kept."),
 "C39": ("metamorphic monitor: the same run in a mirror, states compared", "All tracks used; runs are left at a rounding tie of the key frame policy."),
 "C40": ("long rests, exact and noisy, against the pose at their beginning; means over all rests", "Rests of up to 45 s; biases configured."),
 "C41": ("metamorphic monitor: the same run with biases added to the measurements and to the configuration", "Runs are left at a rounding tie of the key frame policy."),
 "C42": ("metamorphic monitor: the same run with limits moved up to the nearest value that changes no decision, bit for bit", "The number of tracks used per update is a constant of the backend and not varied here (C13 does)."),
 "C34": ("end-to-end monitor: estimated against true biases", "Lively motion; means over the last three seconds."),
}
json.dump({
 "version": 1,
 "setup_cmd": "python3 setup.py",
 "hooks": {"guard": "ESKF_VIO_MONITOR", "enable": "-DESKF_VIO_MONITOR, passed by check.py to every compilation", "source_commits": ["8761375", "b0e27a4"]},
 "checks": [{"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
             "technique": t, "level": "exploration",
             "level_note": "Held on the executions observed, no proof. " + n} for p, (t, n) in sorted(T.items())],
 "not_applicable": [],
}, open("MANIFEST.json", "w"), indent=1)
