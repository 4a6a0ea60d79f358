"""C14: the configuration comes from the environment, contradictions are refused, directories exist before they are used."""
from fractions import Fraction

from common import *

OUT, DATA, TRACES, MODELS = "APOLLO_OUTPUT_DIR", "APOLLO_DATASETS_DIR", "APOLLO_TRACES_DIR", "APOLLO_MODELS_DIR"
DEFAULTS = {
    "APOLLO_POLICY_MODEL": "Static,policy=0", "APOLLO_COLLECTIVE_TRAINING": 0, "APOLLO_LOCAL_TRAINING": 1,
    "APOLLO_SINGLE_MODEL": 0, "APOLLO_REGION_MODEL": 1, "APOLLO_GLOBAL_TRAIN_PERIOD": 0,
    "APOLLO_PER_REGION_TRAIN_PERIOD": 0, "APOLLO_TRACE_POLICY": 0, "APOLLO_STORE_MODELS": 0, "APOLLO_TRACE_RETRAIN": 0,
    "APOLLO_TRACE_ALLGATHER": 0, "APOLLO_TRACE_BEST_POLICIES": 0, "APOLLO_RETRAIN_ENABLE": 0,
    "APOLLO_RETRAIN_TIME_THRESHOLD": 2, "APOLLO_RETRAIN_REGION_THRESHOLD": Fraction(1, 2), "APOLLO_TRACE_CSV": 0,
    "APOLLO_PERSISTENT_DATASETS": 0, "APOLLO_STORE_EXEC_INFO": 0, OUT: ".apollo", DATA: "datasets", TRACES: "traces",
    MODELS: "models",
}


def env(name):
    return T("getenv", T("str", name))


def unset(name):
    return eq(NULL, env(name))


def final(s, name):
    return s.st.store.get(("glob", CONFIG + name))


def read_all(ck, s, p):
    for n in DEFAULTS:
        v = final(s, n)
        if v is None:
            there = '"%s%s"' % (CONFIG, n) in json.dumps(list(p.funcs.values()))
            ck.need(False if there else None, "setting-read", s, "setting %s is never set from the environment" % n)
            continue
        d = DEFAULTS[n]
        u = unset(n)
        if isinstance(d, str):
            d, e = T("str", d), env(n)
        else:
            e = T("stof" if "THRESHOLD" in n else "stoi", env(n))
            d = num(d)
        ck.need(ck.same(v, d, u), "default", s, "%s defaults to %s" % (n, show(deep(v, u))[:120]))
        ck.need(ck.same(v, e, ~u), "setting-read", s, "%s is taken from %s" % (n, show(deep(v, ~u))[:120]))


def enabled(s, name):
    return cmp_("!=", final(s, name), ZERO, True)


def contradictions(ck, s, config):
    col, loc = enabled(s, "APOLLO_COLLECTIVE_TRAINING"), enabled(s, "APOLLO_LOCAL_TRAINING")
    sin, reg = enabled(s, "APOLLO_SINGLE_MODEL"), enabled(s, "APOLLO_REGION_MODEL")
    okc = ((col & ~loc) | (loc & ~col)) & ((sin & ~reg) | (reg & ~sin))
    if config != "mpi":
        okc = okc & ~col
    bad = ~okc
    for e, _ in s.kinds("ext", "open"):
        if e.name in ("mkdir", "open") or e.name.startswith("MPI_"):
            g = e.guard & bad
            ck.need(not terms.sat(g) or (False if understood(bterm(e.guard)) else None), "contradiction-refused", e,
                    "%s although the settings contradict each other: %s" % (e.name, showb(g)[:300]))
    pc = s.st.pc & bad
    ck.need(not terms.sat(pc) or (False if understood(bterm(s.st.pc)) else None), "contradiction-refused", s,
            "contradictory settings are accepted: %s" % showb(pc)[:300])
    # consistent settings are not refused: what ends the program then is a failed system call
    fine = TRUE
    for e, _ in s.calls("mkdir", kind="ext"):
        if e.res is not None:
            fine = fine & cmp_("==", e.res, ZERO, True)
    for e, _ in s.kinds("abort", "exit", "throw"):
        for a in terms.batoms(e.guard):
            if a.op == "good":
                fine = fine & atom(a)
    for e, _ in s.kinds("abort", "exit", "throw"):
        g = e.guard & okc & fine
        ck.need(not terms.sat(g) or (False if understood(bterm(e.guard)) else None), "consistent-accepted", e,
                "consistent settings are refused: %s" % showb(g)[:300])
    return okc


def directories(ck, s, okc):
    mk = [(e, l) for e, l in s.calls("mkdir", kind="ext")]
    if not mk:
        ck.need(None, "directory-made", s, "no mkdir")
        return
    out = final(s, OUT)
    need = [("output", out, okc)]
    for d, c in ((DATA, "APOLLO_PERSISTENT_DATASETS"), (TRACES, "APOLLO_TRACE_CSV"), (MODELS, "APOLLO_STORE_MODELS")):
        need.append((d, cat(out, T("str", "/"), final(s, d)), okc & enabled(s, c)))
    used = []
    for what, path, when in need:
        hit = [(e, l) for e, l in mk if ck.same(e.args[0], path, e.guard)]
        used += [e for e, _ in hit]
        for e, _ in hit:
            # the process must be able to make files in it
            if len(e.args) > 1 and is_num(e.args[1]):
                ck.need(int(e.args[1].args[0]) & 0o700 == 0o700, "directory-usable", e, "made with mode %o" % int(e.args[1].args[0]))
        if not hit:
            un = [e for e, _ in mk if ck.same(e.args[0], path, e.guard) is None]
            ck.need(None if un else False, "directory-made", s, "no directory is made for %s" % what)
            continue
        tot = FALSE
        for e, _ in hit:
            tot = tot | e.guard
        # an earlier failure may end the construction
        fails = TRUE
        for e, _ in s.kinds("throw", "abort"):
            if ck.before(s, e, hit[0][0]):
                fails = fails & ~e.guard
        ck.need(ck.same_guard(tot & when & fails, when & fails), "directory-made", hit[0][0],
                "the directory for %s is not made when %s" % (what, showb(when & fails & ~tot)[:300]))
        if what != "output":
            o = [e for e, _ in mk if ck.same(e.args[0], out, e.guard)]
            if o:
                ck.need(ck.before(s, o[0], hit[0][0]), "parent-first", hit[0][0], "made before the output directory")
    # only directories that are asked for
    for e, _ in mk:
        if e not in used:
            ck.undecided("directory-made", e, "directory %s" % show(e.args[0])[:150])
    # existing directories are fine, other failures are reported
    for e, _ in mk:
        r = e.res
        if r is None:
            ck.undecided("mkdir-failure", e, "result not used")
            continue
        failed = cmp_("!=", r, ZERO, True)
        thr = FALSE
        for x, _ in s.kinds("throw", "abort"):
            if any(t is r for a in terms.batoms(x.guard) for t in subterms(a)) and ck.before(s, e, x):
                if not terms.sat(x.guard & ~failed):
                    thr = thr | x.guard
        if thr is FALSE:
            used_ = any(t is r for x, _ in s.flat for a in terms.batoms(x.guard) for t in subterms(a))
            ck.need(None if used_ else False, "mkdir-failure", e, "a directory that cannot be made goes unnoticed")
            continue
        ck.ok("mkdir-failure", e, "a failure ends construction")
        eq = errno_is(thr)
        if eq is None:
            other = [x.name for x, _ in s.kinds("ext") if x.name not in ("mkdir", "strerror", "getenv", "__errno_location") and not x.name.startswith("MPI_")]
            ck.need(None if other or not understood(bterm(thr)) else False, "existing-directory", e,
                    "a directory that already exists is an error")
        else:
            ck.need(eq == {17}, "existing-directory", e, "tolerates errno %s" % sorted(eq))


def errno_is(g):
    """values of errno for which g cannot hold"""
    at = {}
    for a in terms.batoms(g):
        for t in subterms(a):
            if t.op == "elt" and any(x.op == "res" and x.args[0] == "__errno_location" for x in subterms(t)):
                at[t] = 1
    if not at:
        return None
    v = sorted(at, key=lambda t: t.id)
    out = set()
    for c in range(1, 134):
        h = TRUE
        for t in v:
            h = h & cmp_("==", t, num(c), True)
        if not terms.sat(g & h):
            out.add(c)
    return out


def c_ctor(ck):
    for config in ("default", "mpi"):
        s = ck.sum("Apollo::Apollo", 0, config=config)
        read_all(ck, s, ck.prog(config))
        okc = contradictions(ck, s, config)
        directories(ck, s, okc)


def check(ck):
    ck.guarded(c_ctor, ck)
