"""What is real, what is simulated, and what that leaves out (for the evidence)."""

COMPONENTS = {
    "real": [
        "all of sandfs, imported from /repo's working tree",
        "CPython file API on a private scratch directory (interposed: every call counted, can fail, stop short or be the crash point)",
    ],
    "simulated": [
        "clock (time.time)",
        "host processes (subprocess.Popen is scripted)",
        "link to the storage backend (errors, conflicts, crash before/after each call)",
        "content providers, directory providers and hooks (scripted, may raise or re-enter the sandbox)",
        "agents and their interleaving",
    ],
}
ASSUMPTIONS = [
    "a crash is the death of the process: what reached the operating system survives (no power loss)",
    "the reference model in sim/model.py and sim/shellmodel.py states the intended behaviour",
    "seeded sampling, not enumeration: a clean batch is evidence, not proof",
]
RULES = {
    "*": "one case = one generated configuration and operation/fault/schedule sequence executed on sandfs and the"
    " model; non-trivial = at least 5 operations executed, distinct by digest of configuration, outcomes and faults",
}
RULES["C04"] = (
    "one case = one configuration, one program per client and one schedule; non-trivial = at least 5 operations and 2"
    " context switches, distinct by digest of configuration, outcomes and schedule; states = distinct schedules"
)
RULES["C05"] = RULES["C06"] = (
    "one case = one generated operation/fault/link sequence on one host directory; non-trivial = at least 5 operations,"
    " distinct by digest of configuration and outcomes; states = directory contents with the last operation and fault"
)
RULES["C21"] = (
    "one case = one sequence of exec runs, interleaved interactive sessions, outside edits and faults; non-trivial = at"
    " least 5 operations, distinct by digest of configuration and outcomes; states = host directory contents with the"
    " last operation and outcome"
)
