"""Which harness programs decide which property."""
CHECKS = {}


def check(pid, *sources, level="exploration", **kw):
    CHECKS[pid] = dict(parts=[dict(sources=[s], **kw) for s in sources], level=level)


check("C07", "linalg.cpp")
check("C08", "linalg.cpp")
check("C09", "linalg.cpp")
check("C10", "linalg.cpp")
check("C11", "sets.cpp")
check("C12", "sets.cpp")
check("C13", "manifolds.cpp")
check("C14", "manifolds.cpp")
check("C15", "functions.cpp")
check("C16", "functions.cpp")
check("C17", "functions.cpp")
check("C18", "linesearch.cpp")
check("C19", "linesearch.cpp")
check("C20", "polymorphic.cpp", lib=False)
check("C01", "solver.cpp")
check("C02", "solver.cpp")
check("C03", "history.cpp")
check("C22", "history.cpp")
check("C23", "history.cpp")
check("C04", "kkt.cpp")
check("C05", "kkt.cpp")
check("C06", "kkt.cpp")
check("C21", "kkt.cpp")
check("C24", "misc.cpp")
check("C25", "misc.cpp")
check("C26", "misc.cpp")
check("C27", "pin.cpp", lib_extra=["multibody/spaces.cpp", "multibody/rigid-transform-point.cpp"])
check("C28", "scalar.cpp")
check("C29", "pycheck.py", python=True, asan_scale=0.3)
