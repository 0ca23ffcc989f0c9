"""Properties that are not claimed, and why. HOOKS: guarded changes to /repo."""
HOOKS = {
    "guard": "cfg(kani)",
    "enable": "set by cargo kani; never set in ordinary builds",
    "source_commits": [
        "6b26dc13195ac248420ade486d5748fdca1e4be3",
    ],
}
NA = {
    "C25": "Equal rendering needs a formal model of an SVG renderer (fonts, filters, painting); no contract on this code can state it.",
    "C26": "Idempotence is a relation between whole runs of about forty interacting jobs; no per-function contract within reach implies it.",
    "C29": "Depends on the file system, threads and the operating system, outside the verifier's reach.",
    "C30": "The meaning of JSX is defined by external compilers; the converter works on the syntax trees of an external library.",
}
