"""Regenerates MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EN = "bounded exhaustive enumeration of executions of the real code, each compared with an independent projection/assignment reference model"
TECH = {
    "C01": EN, "C02": EN, "C03": EN, "C04": EN + " (brute force over all assignments)",
    "C05": "exhaustive enumeration of all cost matrices over small alphabets through the real solvers, against brute force",
    "C06": "exhaustive enumeration of call configurations; every relation of the function family checked on the real code",
    "C07": "exhaustive enumeration of call configurations, the two back ends run as each other's model and against the reference model",
    "C08": "exhaustive enumeration of batch compositions over an alphabet of item kinds, against each item alone",
    "C09": "exhaustive enumeration of call configurations with a contract monitor on every result",
    "C10": EN, "C11": "exhaustive enumeration of operation sequences (metamorphic steps up to a depth) on the real code",
    "C12": "exhaustive enumeration of sequences of transformations up to a depth on the real code, against the invariance relation and the reference model",
    "C13": "exhaustive enumeration of scenes and filter/reference chains; order relations monitored on every transition",
    "C14": "exhaustive enumeration of iteration counts and configurations of the real iterative solver against the reference model",
    "C15": EN + " with diagonal loading", "C16": "exhaustive fault enumeration: every placement of invalid samples, on the real code with a time limit",
    "C17": "exhaustive enumeration of configurations; gradients compared with a closed-form gradient model",
    "C18": "stateless exploration of all call histories up to a depth in fresh processes, with a state monitor",
    "C19": "stateless exploration of thread schedules of the real code under a controlled scheduler, up to a preemption bound",
    "C20": "exhaustive import-fault injection (every import of the torch part, all sets of missing modules) on the real package",
    "C21": "exhaustive enumeration of storage layouts of both signals on the real code, against the reference model",
    "C22": "exhaustive enumeration of all tuples of degenerate estimates on the real code, against the reference model",
    "C23": "exhaustive fault injection: every call interrupted at every point it reaches, in a fresh process each, with a state monitor and later calls compared with fresh processes",
    "C25": "exhaustive exploration of the points of every call at which another call is nested or the process is forked (by the same or another thread), on the real code, all outcomes compared with fresh processes",
    "C26": "exhaustive enumeration of call configurations and of long histories of calls on the real code, with a monitor of the memory kept, the peak memory and the executed lines",
    "C24": "exhaustive enumeration of calling conventions (every option by keyword, by position, omitted; every name of every namespace) on the real code, against the reference model",
}
NOTE = {
    "C19": "All schedules within the stated preemption bounds and granularity are executed on real threads; kernels called by one line are atomic. Signals are short (the code path does not depend on their length).",
    "C20": "Both environments of this sandbox (numpy 1.26 with torch; numpy 2.5 without torch). ImportError and ModuleNotFoundError only.",
    "C23": "All lines (thorough: all byte codes) of the package reached by the listed calls; no injection inside numpy or torch kernels, at with/try headers, handlers and finally blocks.",
    "C26": "Memory is that of arrays, tensors and Python objects; work space inside LAPACK and FFT kernels is not seen, and time is counted as executed lines of the package.",
    "C05": "All matrices over the stated alphabets and shapes; unbounded real costs are represented by the order types and ties these alphabets realize.",
}
DEFAULT = ("Every scenario of the stated finite space is executed on the real library from the working tree and compared with a model that shares no code with it; "
           "beyond the bounds (lengths, channel counts, filter lengths, alphabets in the evidence file) nothing is claimed. Real-valued signals are represented by a fixed deterministic alphabet; "
           "tolerances are rounding bounds proportional to the precision and conditioning.")
checks = []
for i in range(1, 27):
    p = f"C{i:02d}"
    checks.append(dict(property=p, quick_cmd=f"bin/check {p} quick", thorough_cmd=f"bin/check {p} thorough", technique="model checking: " + TECH[p], level="model_checking",
                       level_note=NOTE.get(p, DEFAULT)))
m = dict(version=1, setup_cmd="bin/check --selftest", checks=checks, not_applicable=[],
         notes="No hooks in /repo: the checks drive the public API only. known_findings.txt lists the defects repaired by fix: commits.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
