"""The checks: per property the model-checking configurations, the drivers whose traces
are validated, and the trace specification."""

CHECKS = {}
COVERAGE = {"SignalMCs", "GroupMC", "ThreadMC"}
TITLES = {}


def mc(module, cfg, thorough=False, timeout=None):
    d = {"module": module, "cfg": cfg + ".cfg"}
    # (models with many named actions: count how often each was taken)
    d["coverage"] = module in COVERAGE
    if thorough:
        d["thorough"] = True
    if timeout:
        d["timeout"] = timeout
    return d


def add(prop, drive, trace, mcs=(), **kw):
    CHECKS[prop] = {"trace": trace, "drive": drive, "mc": list(mcs), **kw}


def sig(*names):
    """Configurations of the emission machine; a trailing ! marks thorough ones."""
    return [mc("SignalMCs", "SignalMC_" + n.rstrip("!"), n.endswith("!")) for n in names]


S = "TraceSignal"
add("C01", [("signal", "C01")], S, sig("C01", "C01t!"))
add("C02", [("signal", "C02")], S, sig("C02"))
add("C03", [("signal", "C03")], S, sig("C03i", "C03q", "C03l", "C03qt!", "C03lt!"))
add("C04", [("signal", "C04")], S, sig("C04", "C04q", "C04t!"))
add("C05", [("signal", "C05")], S, sig("C05", "C05t!"))
add("C06", [("signal", "C06"), ("thread", "C06")], {"signal": S, "thread": "TraceThread"}, sig("C06"))
add("C07", [("signal", "C07"), ("thread", "C07")], {"signal": S, "thread": "TraceThread"}, sig("C07", "C07t!"))


def small(module, *names):
    return [mc(module, module + "_" + n.rstrip("!"), n.endswith("!")) for n in names]


add("C12", [("group", "C12")], S, small("GroupMC", "r", "p", "rt!", "pt!"))
add("C13", [("group", "C13")], S, small("GroupMC", "b", "c", "e", "bt!", "ct!"))
L = "TraceList"
LM = [mc("ListMCs", "ListMC_q"), mc("ListMCs", "ListMC_t", True)]
add("C18", [("list", "C18")], L, LM)
add("C19", [("list", "C19")], L, LM)
add("C20", [("dict", "C20")], "TraceDict", [mc("DictMCs", "DictMC_q"), mc("DictMCs", "DictMC_t", True)])
add("C21", [("set", "C21")], "TraceSet", [mc("SetMCs", "SetMC_q"), mc("SetMCs", "SetMC_t", True)])
add("C22", [("sel", "C22")], "TraceSel", [mc("SelMCs", "SelMC_q"), mc("SelMCs", "SelMC_t", True)])
add("C23", [("proxy", "C23")], "TraceProxy", [mc("ProxyMCs", "ProxyMC_q"), mc("ProxyMCs", "ProxyMC_w"), mc("ProxyMCs", "ProxyMC_t", True), mc("ProxyMCs", "ProxyMC_u", True)])
add("C11", [("throttle", "C11")], "TraceThrottle", [mc("ThrottleMC", "ThrottleMC_" + n, len(n) == 3) for n in ("tl", "tt", "dl", "dt", "tlt", "ttt", "dlt", "dtt")])
add("C09", [("thread", "C09")], "TraceThread", small("ThreadMC", "x", "xr", "u", "xrt!", "ut!"))
add("C10", [("thread", "C10"), ("qt", "C10")], "TraceThread", small("ThreadMC", "q", "d", "qt!", "dt!"))
F = "TraceFields"


def fields(*names):
    return [mc("FieldsMCs", "FieldsMC_" + n.rstrip("!"), n.endswith("!")) for n in names]


add("C15", [("fields", "C15")], F, fields("data", "datat!"))
add("C16", [("fields", "C16")], F, fields("prop", "sub", "subt!"))
add("C17", [("fields", "C17")], F, fields("dep", "depn", "depi!", "dept!", "depit!"))
add("C14", [("own", "C14")], "TraceOwn", [mc("OwnMC", "OwnMC_q"), mc("OwnMC", "OwnMC_t", True)])
add("C08", [("compat", "C08")], "TraceCompat", [mc("CompatMC", "CompatMC_" + n, n[-1] == "t") for n in ("q", "ty", "t", "tyt")])
add("C25", [("mon", "C25")], "TraceMon", [mc("MonMC", "MonMC_" + n, n[-1] == "t") for n in ("n", "h", "f", "nt", "ht", "ft")])
add("C24", [("copy", "C24")], "TraceCopy", [mc("CopyMC", "CopyMC_" + n, n[-1] == "t") for n in ("o", "g", "c", "ot", "gt", "ct")])
