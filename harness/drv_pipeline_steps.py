"""The steps of Pipeline.tla, to place faults (the trace specification has its own)"""


def steps(entry, nt, ns):
    time = [("time", k + 1) for k in range(nt)]
    spec = time + [("decimate", 1), ("window", 1), ("fourier", 1)]
    evals = spec + [("spectra", k + 1) for k in range(ns)] + [("evals", 1)]
    solve = [("prepare", 1), ("solve", 1)]
    return {
        "quick_read": [],
        "quick_view": time,
        "quick_view_dec": time + [("decimate", 1)],
        "quick_spectra": spec,
        "quick_tf": evals + solve,
        "quick_tf_cal": evals + [("calibrate", 1)] + solve,
        "process_time": time,
        "process_time_to_evals": evals + [("calibrate", 1)],
        "process_evals_to_tf": solve,
    }[entry]
