"""The plan of each property's check."""
import functools, os, re, tempfile
import core
from core import CheckError, Result, model_check, run_jobs, tlc_counts, trace_job


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier != "thorough"
        os.makedirs(core.WORK, exist_ok=True)
        self.work = tempfile.mkdtemp(prefix=prop + "-", dir=core.WORK)

    def pick(self, q, t):
        return q if self.quick else t


# ---------------------------------------------------------------- the graph properties

# per property: invariants and action properties checked by TLC on the exhaustive model
GRAPH = {
    "C01": ("InvWellFormed InvScans", "TypesFixed NoResurrection"),
    "C02": ("InvWellFormed InvPaging", "TypesFixed"),
    "C03": ("InvWellFormed InvTraversal", "TypesFixed"),
    "C04": ("InvWellFormed", "DelExact NoResurrection SetExact"),
    "C05": ("InvWellFormed", "SetExact DelExact NoResurrection"),
    "C06": ("InvWellFormed InvIndex InvUnindexed", "SetExact DelExact"),
    "C07": ("InvOneValue InvIndex", "SetExact"),
    "C08": ("InvCompound InvWellFormed", "TypesFixed"),
    "C09": ("InvIllTypedFail InvUnindexed InvWellFormed", "ErrorsInert"),
    "C10": ("InvBulk InvWellFormed", "TypesFixed"),
    "C11": ("InvWellFormed InvIndex", "SetExact"),
    "C13": ("InvWellFormed InvIndex", "SetExact"),
    "C16": ("InvWellFormed InvIndex", "SetExact"),
    "C23": ("InvTx InvWellFormed", "TypesFixed"),
}


def mc_graph(ctx, prop, deep):
    inv, prp = GRAPH[prop]
    cfg = f"""SPECIFICATION Spec
CONSTANTS Prop = "{prop}" Emit = TRUE Deep = {"TRUE" if deep else "FALSE"}
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS Dump {inv}
PROPERTIES {prp}
"""
    out = model_check("MCGraph", cfg, ctx.work, timeout=3000, xmx="6g")
    path = os.path.join(ctx.work, "graph.txt")
    with open(path, "w") as f:
        f.write(out)
    gen, dis = tlc_counts(out)
    r = Result("model")
    r.add(model_states=dis, model_transitions=gen)
    return path, r


def with_build(ctx, other, server=False):
    """Builds the harness while running something else that does not need it."""
    import concurrent.futures
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        fb = ex.submit(core.build, server)
        fo = ex.submit(other)
        return fb.result(), fo.result()


BINS = ["vh", "vh-nda"]


def graph_plan(ctx, tour_stores=("mem", "rdb"), run_stores=("mem", "rdb"), shards=4, tour_events=None,
               seeds=2, events=4000, extra="", deep=None, more=None, big=3, big_stores=None):
    p = ctx.prop
    deep = (not ctx.quick) if deep is None else deep
    bindir, (graph, mres) = with_build(ctx, lambda: mc_graph(ctx, p, deep))
    jobs = []
    if not ctx.quick:
        shards, seeds, events = 8, 12, 8000
    for st in tour_stores:
        for sh in range(shards):
            for b in ([BINS[sh % 2]] if ctx.quick else BINS):
                a = ["tour", f"graph={graph}", f"store={st}", f"seed={ctx.seed}", f"shard={sh}", f"shards={shards}"]
                if extra:
                    a.append("extra=" + extra)
                if tour_events:
                    a.append(f"events={tour_events if ctx.quick else 20 * tour_events}")
                jobs.append(functools.partial(trace_job, p, bindir, b, a, f"tour-{st}-{sh}-{b}", timeout=1500))
    for st in run_stores:
        for s in range(seeds):
            for b in BINS:
                a = ["run", f"profile={p}", f"store={st}", f"seed={ctx.seed * 1000 + s * 2 + (b == 'vh')}", f"events={events}"]
                jobs.append(functools.partial(trace_job, p, bindir, b, a, f"run-{st}-{s}-{b}", timeout=1500))
    # graphs of hundreds of elements (thousands at times)
    for k, st in enumerate(big_stores or run_stores):
        for s in range(ctx.pick(1, 6)):
            b = BINS[(k + s + ctx.seed) % 2]
            a = ["big", f"profile={p}", f"store={st}", f"seed={ctx.seed * 1000 + 700 + s}", f"rounds={big if ctx.quick else 8 * big}"]
            jobs.append(functools.partial(trace_job, p, bindir, b, a, f"big-{st}-{s}-{b}", timeout=1500))
    if more:
        jobs += more(bindir)
    results, errors = run_jobs(jobs)
    return results + [mres], errors


# ---------------------------------------------------------------- persistence

def model_job(module, cfg, name, ctx, must_fail=False, **kw):
    """Model checking of a design: must pass, or (a design known to be wrong) must be refuted."""
    def job():
        w = os.path.join(ctx.work, name)
        if must_fail:
            out = core.tlc(module, cfg, w, **kw)
            if core.clean_pass(out) or not re.search(r"is violated|Temporal propert(y|ies) .*w(as|ere) violated|Temporal properties were violated", out):
                raise CheckError(f"the specification {module} does not refute the design {name}:\n{out[-2000:]}")
        else:
            out = model_check(module, cfg, w, **kw)
        gen, dis = tlc_counts(out)
        r = Result("model-" + name)
        return r.add(model_states=dis, model_transitions=gen, designs_refuted=int(must_fail))
    return job


def image_models(ctx):
    n = ctx.pick(4, 7)
    cfg = """SPECIFICATION Spec
CONSTANTS Versions = {%s} Chunks = %d Design = "%s"
INVARIANTS NeverDamaged LastGood OkIsStored
CHECK_DEADLOCK FALSE
"""
    vs = ",".join(str(i) for i in range(ctx.pick(4, 6)))
    return [model_job("MemImage", cfg % (vs, n, d), "image-" + d, ctx, must_fail=d != "rename")
            for d in ("rename", "inplace", "noflushcheck", "removefirst")]


def rdb_models(ctx):
    cfg = """SPECIFICATION Spec
CONSTANTS Threads = %s Locked = %s MaxOps = %d
VIEW View
INVARIANTS Consistent
PROPERTIES Refines RefinesIdle
CHECK_DEADLOCK FALSE
"""
    return [model_job("RdbStore", cfg % ("{1,2}", "TRUE", 99), "rdb-locked", ctx, workers=2, xmx="4g", timeout=1200),
            model_job("RdbStore", cfg % ("{1,2}", "FALSE", 6), "rdb-unlocked", ctx, must_fail=True, workers=2, xmx="4g", timeout=1200)]


def jobs_of(ctx, bindir, cmds, env=None, timeout=1500):
    """cmds: list of (binary, tag, args)"""
    return [functools.partial(trace_job, ctx.prop, bindir, b, args, tag, timeout=timeout, env=env) for b, tag, args in cmds]


def plan_c11(ctx):
    def more(bindir):
        cmds, seeds = [], ctx.pick(2, 10)
        for tmp in ("/tmp", "/dev/shm", "/nonexistent-temporary-directory"):
            for s in range(seeds):
                b = BINS[s % 2]
                a = ["run", "profile=C11", "store=memfile", f"seed={ctx.seed * 1000 + 500 + s}", f"events={ctx.pick(1500, 8000)}", f"rel={s % 2}"]
                cmds.append(jobs_of(ctx, bindir, [(b, f"tmpdir-{os.path.basename(tmp)}-{s}", a)], env={"TMPDIR": tmp})[0])
        return cmds
    return graph_plan(ctx, tour_stores=("memfile",), run_stores=("memfile",), shards=4, tour_events=12000, seeds=2, extra="msync,reload", more=more)


def plan_c12(ctx):
    bindir = core.build()
    jobs = image_models(ctx)
    n = ctx.pick(4, 24)
    for mode in ("kill", "err", "fsize"):
        for b in BINS:
            for k in range(ctx.pick(1, 4)):
                jobs += jobs_of(ctx, bindir, [(b, f"sync-{mode}-{b}-{k}", ["syncfault", f"mode={mode}", f"cases={n}", f"seed={ctx.seed * 100 + k}"])])
    return run_jobs(jobs)


def plan_c13(ctx):
    def more(bindir):
        cmds = []
        sh = ctx.pick(2, 8)
        for k in range(sh):
            cmds.append(("vh", f"creation-{k}", ["creation", f"seed={ctx.seed}", f"shard={k}", f"shards={sh}"]))
        for st in ("rdb", "tuned-rdb"):
            for k in range(ctx.pick(2, 8)):
                cmds.append((BINS[k % 2], f"crash-{st}-{k}", ["crash", f"store={st}", f"seed={ctx.seed * 100 + k}",
                             f"histories={ctx.pick(45, 400)}", f"rounds={6 + k % 4}", f"secs={ctx.pick(60, 400)}"]))
        js = jobs_of(ctx, bindir, cmds)
        return [model_job("RdbStore", """SPECIFICATION Spec
CONSTANTS Threads = {1} Locked = TRUE MaxOps = 99
VIEW View
INVARIANTS Consistent
PROPERTIES Refines RefinesIdle
CHECK_DEADLOCK FALSE
""", "rdb-single", ctx)] + js
    return graph_plan(ctx, tour_stores=("rdb",), run_stores=("rdb", "tuned-rdb"), shards=4, tour_events=2500, seeds=1, events=2500, extra="reopen", more=more)


# ---------------------------------------------------------------- concurrency

def linear(ctx, bindir, b, tag, **kw):
    a = ["conc"] + [f"{k}={v}" for k, v in kw.items()]
    return functools.partial(core.linear_job, ctx.prop, bindir, b, a, tag, timeout=1500)


def plan_c14(ctx):
    bindir = core.build()
    jobs = []
    for k in range(ctx.pick(4, 16)):
        jobs.append(linear(ctx, bindir, BINS[k % 2], f"conc-mem-{k}", store="mem", seed=ctx.seed * 100 + k, programs=ctx.pick(150, 1200), reps=200, secs=ctx.pick(25, 200)))
    # only so many at a time: the programs need cores of their own to interleave
    return run_jobs(jobs, width=2)


def plan_c15(ctx):
    bindir = core.build()
    jobs = []
    for k in range(ctx.pick(4, 16)):
        jobs.append(linear(ctx, bindir, BINS[k % 2], f"conc-rdb-{k}", store="rdb", seed=ctx.seed * 100 + k, programs=ctx.pick(150, 1200), reps=40, secs=ctx.pick(40, 300)))
    return run_jobs(rdb_models(ctx) + jobs, width=3)


# ---------------------------------------------------------------- the server

GRPC = ("grpc-mem", "grpc-rdb")


def plan_c16(ctx):
    return graph_plan(ctx, tour_stores=GRPC, run_stores=GRPC, shards=3, tour_events=8000, seeds=2, events=3000)


def plan_c17(ctx):
    def model():
        out = model_check("MCWire", f"""SPECIFICATION Spec
CONSTANT Depth = {ctx.pick(1, 2)}
INVARIANTS Emitted RoundTrip Refused
CHECK_DEADLOCK FALSE
""", ctx.work, timeout=1500, xmx="4g")
        path = os.path.join(ctx.work, "wire.txt")
        with open(path, "w") as f:
            f.write(out)
        gen, dis = tlc_counts(out)
        return path, Result("model").add(model_states=dis, model_transitions=gen)
    bindir, (msgs, mres) = with_build(ctx, model)
    cmds, sh = [], ctx.pick(2, 4)
    for st in GRPC:
        for k in range(sh):
            for b in ([BINS[k % 2]] if ctx.quick else BINS):
                cmds.append((b, f"messages-{st}-{k}-{b}", ["wire", f"store={st}", f"seed={ctx.seed * 10 + k}", f"msgs={msgs}", f"shard={k}", f"shards={sh}"]))
        for k in range(ctx.pick(4, 24)):
            cmds.append((BINS[k % 2], f"wire-{st}-{k}", ["wire", f"store={st}", f"seed={ctx.seed * 1000 + k}", f"events={ctx.pick(3000, 10000)}"]))
    results, errors = run_jobs(jobs_of(ctx, bindir, cmds))
    return results + [mres], errors


def plan_c18(ctx):
    bindir = core.build()
    jobs = []
    for k in range(ctx.pick(4, 16)):
        for st in GRPC:
            jobs.append(linear(ctx, bindir, BINS[k % 2], f"conc-{st}-{k}", store=st, seed=ctx.seed * 100 + k, programs=ctx.pick(60, 800), reps=40, secs=ctx.pick(25, 200)))
    for st in ("mem", "rdb"):
        for k in range(ctx.pick(2, 8)):
            jobs += jobs_of(ctx, bindir, [(BINS[k % 2], f"cutoff-{st}-{k}", ["cutoff", f"store={st}", f"seed={ctx.seed * 100 + k}", f"cases={ctx.pick(120, 1500)}"])])
    return run_jobs(jobs, width=3)


def plan_c19(ctx):
    bindir = core.build()
    cmds = []
    for st in GRPC:
        for k in range(ctx.pick(4, 24)):
            cmds.append((BINS[k % 2], f"plugins-{st}-{k}", ["run", "profile=C19", f"store={st}", f"seed={ctx.seed * 1000 + k}", f"events={ctx.pick(4000, 12000)}"]))
    jobs = jobs_of(ctx, bindir, cmds)
    for k in range(ctx.pick(2, 8)):
        jobs.append(linear(ctx, bindir, BINS[k % 2], f"conc-plugins-{k}", store="grpc-mem", plugins=1, seed=ctx.seed * 100 + 50 + k, programs=ctx.pick(60, 800), reps=30, secs=ctx.pick(20, 200)))
    return run_jobs(jobs)


def plan_c20(ctx):
    bindir = core.build()
    cfg = """SPECIFICATION Spec
CONSTANTS N = %d Threads = %d Check = 2 Design = "%s"
INVARIANT Allowed
PROPERTY Terminates
CHECK_DEADLOCK FALSE
"""
    jobs = [model_job("MapPool", cfg % (ctx.pick(4, 5), t, "real"), f"pool-{t}", ctx, timeout=1500) for t in (0, 1, 2, 3)]
    jobs += [model_job("MapPool", cfg % (4, 2, d), "pool-" + d, ctx, must_fail=True) for d in ("nojoin", "queueonly", "forgetpanics", "stopok")]
    jobs += [model_job("MapPool", cfg % (3, 0, "zero"), "pool-zero", ctx, must_fail=True)]
    cmds = []
    for st in ("mem", "rdb", "grpc-mem", "grpc-rdb"):
        for k in range(ctx.pick(2, 12)):
            cmds.append((BINS[k % 2], f"map-{st}-{k}", ["run", "profile=C20", f"store={st}", f"seed={ctx.seed * 1000 + k}", f"events={ctx.pick(1500, 6000)}"]))
        cmds.append(("vh", f"bigmap-{st}", ["bigmap", f"store={st}", f"seed={ctx.seed}", f"cases={ctx.pick(4, 40)}"]))
    return run_jobs(jobs + jobs_of(ctx, bindir, cmds))


IDS_CFG = "SPECIFICATION Spec\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n"


def id_trace(ctx, bindir, b, tag, *args):
    return functools.partial(trace_job, ctx.prop, bindir, b, list(args), tag, module="IdTrace", cfg=IDS_CFG, timeout=1500)


def plan_c21(ctx):
    bindir = core.build()
    jobs, cmds = [], []
    for k in range(ctx.pick(2, 8)):
        jobs.append(id_trace(ctx, bindir, BINS[k % 2], f"texts-{k}", "idents", f"seed={ctx.seed * 100 + k}"))
    for st in GRPC:
        for k in range(ctx.pick(2, 12)):
            cmds.append((BINS[k % 2], f"requests-{st}-{k}", ["wireids", f"store={st}", f"seed={ctx.seed * 100 + k}", f"events={ctx.pick(3000, 15000)}"]))
    for st in ("mem", "memfile", "rdb") + GRPC:
        for k in range(ctx.pick(2, 12)):
            cmds.append((BINS[k % 2], f"stored-{st}-{k}", ["run", "profile=C21", f"store={st}", f"seed={ctx.seed * 1000 + k}", f"events={ctx.pick(3000, 8000)}"]))
    return run_jobs(jobs + jobs_of(ctx, bindir, cmds))


def plan_c22(ctx):
    bindir = core.build()
    ids = "SPECIFICATION Spec\nCONSTANTS Base = %d Digits = %d\nINVARIANTS Immediate Total\nCHECK_DEADLOCK FALSE\n"
    gen = "SPECIFICATION Spec\nCONSTANTS Threads = {%s} M = %d Ticks = 2 Design = \"%s\" Calm = %s Each = %d\nINVARIANTS Unique\nCHECK_DEADLOCK FALSE\n"
    jobs = [model_job("MCIds", ids % (b, d), f"succ-{b}-{d}", ctx) for b, d in ctx.pick(((2, 6), (3, 4), (4, 3)), ((2, 9), (3, 5), (4, 4), (5, 3)))]
    jobs += [model_job("IdGen", gen % (ctx.pick("1, 2", "1, 2, 3"), 4, "shared", "TRUE", ctx.pick(4, 4)), "ids-shared", ctx, timeout=1500)]
    jobs += [model_job("IdGen", gen % ("1, 2", 4, d, c, 4), f"ids-{d}-{c}", ctx, must_fail=True)
             for d, c in (("shared", "FALSE"), ("own", "TRUE"), ("thread", "TRUE"), ("counter", "TRUE"))]
    for st in ("mem", "rdb", "grpc-mem", "grpc-rdb"):
        for k in range(ctx.pick(2, 8)):
            jobs.append(id_trace(ctx, bindir, BINS[k % 2], f"ids-{st}-{k}", "idgen", f"store={st}", f"seed={ctx.seed * 100 + k}", f"bursts={ctx.pick(8, 40)}", f"rounds={ctx.pick(4, 20)}"))
    return run_jobs(jobs)


def plan_c25(ctx):
    cfg = """SPECIFICATION Spec
CONSTANT Durable = %s
VIEW View
INVARIANTS NothingLost Sane
PROPERTIES BadInert BadVisible Created Local Restored
CHECK_DEADLOCK FALSE
"""
    def model():
        out = model_check("MCCli", cfg % "TRUE", ctx.work, timeout=1500, xmx="4g")
        path = os.path.join(ctx.work, "cli.txt")
        with open(path, "w") as f:
            f.write(out)
        gen, dis = tlc_counts(out)
        return path, Result("model").add(model_states=dis, model_transitions=gen)
    bindir, (msgs, mres) = with_build(ctx, model, server=True)
    cmds = []
    stores = ("rdb", "image", "mem")
    for i, st in enumerate(stores):
        # every command of the model against every kind of server
        sh = 3
        for k in range(sh):
            cmds.append(("vh", f"commands-{st}-{k}", ["cli", f"store={st}", f"seed={ctx.seed * 100 + k}", f"msgs={msgs}", f"shard={k}", f"shards={sh}", "sessions=0"]))
        for k in range(ctx.pick(2 if st == "mem" else 3, 16)):
            cmds.append(("vh", f"session-{st}-{k}", ["cli", f"store={st}", f"seed={ctx.seed * 1000 + k}", f"plugins={k % 2}", "sessions=1000", f"secs={ctx.pick(25, 200)}"]))
    jobs = jobs_of(ctx, bindir, cmds)
    if not ctx.quick:
        jobs.append(model_job("MCCli", cfg % "FALSE", "cli-image", ctx, workers=2, xmx="6g", timeout=2500))
    results, errors = run_jobs(jobs)
    return results + [mres], errors


def plan_c24(ctx):
    import tarfile
    bindir = core.build()
    cmds = []
    gold = os.path.join(core.VERIF, "golden")
    for n in sorted(os.listdir(gold)):
        if not n.endswith(".tar.xz"):
            continue
        with tarfile.open(os.path.join(gold, n)) as t:
            t.extractall(ctx.work)
        name = n[:-len(".tar.xz")]
        img = "-img" in name
        for k in range(ctx.pick(2, 16)):
            a = ["golden", "store=" + ("memfile" if img else ("rdb", "tuned-rdb")[k // 2 % 2]), "from=" + os.path.join(ctx.work, name),
                 f"seed={ctx.seed * 100 + k}", f"events={ctx.pick(300, 1500)}"]
            cmds.append((BINS[k % 2], f"{name}-{k}", a))
        if not img:
            cmds.append(("vh", f"{name}-repaired", ["golden", "store=rdb", "from=" + os.path.join(ctx.work, name), f"seed={ctx.seed * 100 + 99}", "events=200", "repair=1"]))
    return run_jobs(jobs_of(ctx, bindir, cmds))


PLANS = {p: graph_plan for p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C23")}
PLANS.update(C11=plan_c11, C12=plan_c12, C13=plan_c13, C14=plan_c14, C15=plan_c15,
             C16=plan_c16, C17=plan_c17, C18=plan_c18, C19=plan_c19, C20=plan_c20, C21=plan_c21, C22=plan_c22, C24=plan_c24, C25=plan_c25)


def evidence(prop, tier, c, notes):
    cov = {
        "states": c.get("model_states", 0) + c.get("tlc_states", 0),
        "transitions": c.get("model_transitions", 0) + c.get("events", 0),
        "traces_validated_against_impl": c.get("traces", 0),
        "model": {"states": c.get("model_states", 0), "transitions": c.get("model_transitions", 0)},
        "implementation": {k: v for k, v in c.items() if not k.startswith("model_")},
    }
    cov.update(notes)
    return "model_checking", cov


def assumptions(prop):
    return ["TLC and the CommunityModules evaluate the specification correctly",
            "the harness reports the results of the public interface as they are"]
