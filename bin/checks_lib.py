"""Checks of the library part."""
from vlib import *
from checks_net import TRACE_CFG, gen_cfg, split

CHECKS = {}


def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


# ------------------------------------------------------------------ C16 / C23: maps
def map_models(ctx):
    m = lambda th, ks, sh, ops: (lambda: model_check(ctx, "ShardMap", "SPECIFICATION Spec\nCONSTANTS Threads = %s Keys = %s Shards = %d MaxOps = %d Locked = TRUE\nINVARIANT Same\nCHECK_DEADLOCK FALSE\n"
                                                     % (th, ks, sh, ops), timeout=ctx.n(200, 2500), workers=3, label="sharded map %s threads, %s keys, %d shards, %d calls" % (th, ks, sh, ops)))
    return [m("{1,2}", "{1,2,3}", 2, 3)] if not ctx.thorough else [m("{1,2,3}", "{1,2,3}", 2, 3), m("{1,2}", "{1,2}", 1, 5), m("{1,2}", "{1,2,3}", 3, 4)]


@check("C16")
def c16(ctx):
    n = ctx.n(120, 1500)
    plans = [(0, dict(NT=3, NR=8, NK=4, Whole=0, Ops='"map"'), n), (0, dict(NT=5, NR=6, NK=6, Whole=0, Ops='"map"'), n), (0, dict(NT=2, NR=10, NK=2, Whole=0, Ops='"map"'), n), (1, dict(NT=3, NR=5, NK=3, Whole=1, Ops='"map"'), 2 * n)]
    gens = [lambda p=p, k=k: generate(ctx, "MapGen", gen_cfg(**p[1]), p[2], 20, seed=ctx.seed * 100 + k) for k, p in enumerate(plans)]
    res = parallel([lambda: build_driver(ctx, yields=True)] + gens + map_models(ctx), 7)
    exe, scs = res[0], res[1:1 + len(plans)]
    jobs = [lambda p=p, s=s, l=l: (p[0], run_driver(ctx, exe, "map", {"whole": p[0], "par": 4}, s, ctx.n(300, 1800), {"VSCHED": str(l)})) for p, s in zip(plans, scs) for l in (0, 6, 9)]
    out = parallel(jobs, 4)
    per = [t for w, o in out for t in o if w == 0 or t["id"].endswith("-run")]
    who = [t for w, o in out for t in o if w == 1 and not t["id"].endswith("-run")]
    rej = parallel([lambda: ("MapTrace", validate(ctx, "MapTrace", TRACE_CFG, per, 5)), lambda: ("MapAllTrace", validate(ctx, "MapAllTrace", TRACE_CFG, who, 3))])
    for mod, r in rej:
        report(ctx, mod, r)
    ctx.notes["scenarios"] = sum(len(s) for s in scs)
    ctx.assumptions = ["linearizability is local: histories are judged per key, except for calls that only count", "callbacks do not call back into the map"]


@check("C23")
def c23(ctx):
    from checks_net import rcfg
    n = ctx.n(40, 400)
    g = dict(NT=5, NR=5, NK=3, Whole=0, Ops='"props"')
    plans = [(rcfg("tcp"), g, n), (rcfg("ws"), g, n), (rcfg("kcp"), g, n), (rcfg("tcp", "client"), g, n), (rcfg("ws", "client"), g, n)]
    gens = [lambda p=p, k=k: generate(ctx, "MapGen", gen_cfg(**p[1]), p[2], 20, seed=ctx.seed * 100 + k) for k, p in enumerate(plans)]
    res = parallel([lambda: build_driver(ctx, yields=True)] + gens + map_models(ctx), 7)
    exe, scs = res[0], res[1:1 + len(plans)]
    out = parallel([lambda p=p, s=s, l=l: run_driver(ctx, exe, "props", dict(p[0], par=8), s, ctx.n(300, 1800), {"VSCHED": str(l)}) for p, s in zip(plans, scs) for l in (0, 6, 9)], 5)
    tr = [t for o in out for t in o]
    report(ctx, "MapTrace", validate(ctx, "MapTrace", TRACE_CFG, tr, 7))
    ctx.notes["scenarios"] = sum(len(s) for s in scs)
    ctx.assumptions = ["linearizability is local: histories are judged per connection and property"]


# ------------------------------------------------------------------ C17: ids
@check("C17")
def c17(ctx):
    m = lambda **k: (lambda: model_check(ctx, "SnowDesign", "SPECIFICATION Spec\nCONSTANTS Gens = {1,2} Threads = {1,2} MaxT = %(T)d SeqN = %(S)d MaxIds = %(I)d Wait = TRUE\nINVARIANT Unique\nCHECK_DEADLOCK FALSE\n" % k,
                                         timeout=ctx.n(120, 2000), workers=3, label="id generators %s" % k))
    n = ctx.n(60, 600)
    res = parallel([lambda: build_driver(ctx, yields=True), lambda: generate(ctx, "SnowGen", gen_cfg(Depth=26), 4 * n, 30)] + [m(T=2, S=2, I=3) if not ctx.thorough else m(T=3, S=2, I=4)], 4)
    exe, sc = res[0], res[1]
    out = parallel([lambda s=s, l=l: run_driver(ctx, exe, "snow", {}, s, ctx.n(300, 1800), {"VSCHED": str(l)}) for s, l in zip(split(sc, 4), (0, 5, 6, 0))], 4)
    tr = [t for o in out for t in o]
    report(ctx, "SnowTrace", validate(ctx, "SnowTrace", TRACE_CFG, tr, 7))
    ctx.notes["scenarios"] = len(sc)
    ctx.notes["settable_clock"] = all(t["cfg"].get("fake") for t in tr)
    ctx.assumptions = ["the generator reads the clock with time.Now (replaced by a settable one at build time)"]


# ------------------------------------------------------------------ C15: timers
@check("C15")
def c15(ctx):
    m = lambda T, H, D, C: (lambda: model_check(ctx, "TimeWheel", "SPECIFICATION Spec\nCONSTANTS Timers = %s Horizon = %d MaxDelay = %d Window = 2 FollowNext = TRUE Cancels = %s\nINVARIANT OnTime\nCHECK_DEADLOCK FALSE\n"
                                                % (T, H, D, C), timeout=ctx.n(200, 2500), workers=3, label="time wheels, timers %s, %d units" % (T, H)))
    models = [m("{1}", 110, 60, "TRUE")] if not ctx.thorough else [m("{1}", 400, 120, "TRUE"), m("{1,2}", 100, 50, "FALSE"), m("{1,2}", 70, 36, "TRUE")]
    plans = [("short", 24, ctx.n(30, 200)), ("short", 24, ctx.n(30, 200)), ("short", 60, ctx.n(10, 100)), ("mid", 24, ctx.n(8, 60)), ("long", 60, ctx.n(1, 8)), ("long", 60, ctx.n(1, 8))]
    gens = [lambda p=p, k=k: generate(ctx, "TimerGen", gen_cfg(Depth=p[1], Cls='"%s"' % p[0]), p[2], p[1] + 3, seed=ctx.seed * 100 + k) for k, p in enumerate(plans)]
    res = parallel([lambda: build_driver(ctx, yields=False)] + gens + models, 7)
    exe, scs = res[0], res[1:1 + len(plans)]
    out = parallel([lambda p=p, s=s: run_driver(ctx, exe, "timer", {"mode": p[0]}, s, ctx.n(300, 1800)) for p, s in zip(plans, scs)], 6)
    tr = [t for o in out for t in o]
    report(ctx, "TimerTrace", validate(ctx, "TimerTrace", TRACE_CFG, tr, 7))
    ctx.notes["scenarios"] = sum(len(s) for s in scs)
    ctx.assumptions = ["virtual time: running code takes no time and timers of the runtime are exact; the drift of a real clock is not covered"]


# ------------------------------------------------------------------ C18: asynchronous operations
@check("C18")
def c18(ctx):
    from checks_net import rcfg
    n = ctx.n(60, 600)
    g, few, storm = dict(NRound=8, NR=8, NC=3, Storm=0), dict(NRound=14, NR=14, NC=2, Storm=0), dict(NRound=40, NR=40, NC=2, Storm=1)
    plans = [(rcfg("tcp"), g, n), (rcfg("tcp", WorkerPoolSize=1), few, n), (rcfg("tcp", WorkerMode="Bind", WorkerPoolSize=20, MaxConn=20), g, n), (rcfg("tcp", WorkerMode="DynamicBind", WorkerPoolSize=2), g, n),
             (rcfg("ws"), few, n // 2), (rcfg("kcp"), few, n // 2), (rcfg("tcp", RequestPoolMode=True), g, n), (rcfg("tcp", WorkerPoolSize=8), few, n), (rcfg("tcp", WorkerPoolSize=8), storm, n), (rcfg("tcp", WorkerPoolSize=8), storm, n)]
    m = lambda s, r, o: (lambda: model_check(ctx, "AsyncDesign", "SPECIFICATION Spec\nCONSTANTS Setters = %s Regs = %s Ops = %s Locked = TRUE\nINVARIANT Rest\nCHECK_DEADLOCK FALSE\n" % (s, r, o),
                                             timeout=ctx.n(200, 2500), workers=3, label="rendezvous %s %s, operations %s" % (s, r, o)))
    gens = [lambda p=p, k=k: generate(ctx, "AsyncGen", gen_cfg(**p[1]), p[2], p[1]["NRound"] + 3, seed=ctx.seed * 100 + k) for k, p in enumerate(plans)]
    models = [m("{1,2}", "{3,4}", "{5,7}")] if not ctx.thorough else [m("{1,2,8}", "{3,4,9}", "{}"), m("{1,2}", "{3,4}", "{5,6,7,8}")]
    res = parallel([lambda: build_driver(ctx, yields=True)] + gens + models, 7)
    exe, scs = res[0], res[1:1 + len(plans)]
    out = parallel([lambda p=p, s=s, l=l: run_driver(ctx, exe, "async", dict(p[0], par=8), s, ctx.n(300, 1800), {"VSCHED": str(l)}) for p, s in zip(plans, scs) for l, s in ((0, s), (6, s), (9, s[:len(s) // 3]))], 6)
    tr = [t for o in out for t in o]
    report(ctx, "AsyncTrace", validate(ctx, "AsyncTrace", TRACE_CFG, tr, 7))
    ctx.notes["scenarios"] = sum(len(s) for s in scs)
    ctx.assumptions = ["the connection is open and has a worker", "a completion registered on the worker itself finds room in the worker's queue"]


# ------------------------------------------------------------------ C20: notification
@check("C20")
def c20(ctx):
    from checks_net import rcfg
    n = ctx.n(40, 400)
    g, many = dict(NRound=40, NI=6, NC=4), dict(NRound=30, NI=40, NC=6)
    plans = [(rcfg("tcp"), g, n), (rcfg("tcp"), many, n), (rcfg("ws"), g, n), (rcfg("ws"), many, n // 2), (rcfg("kcp"), g, n // 2), (rcfg("tcp", "client"), g, n // 2), (rcfg("ws", "client"), many, n // 2)]
    m = lambda w, st, sn, o: (lambda: model_check(ctx, "NotifyDesign", "SPECIFICATION Spec\nCONSTANTS Ids = {1,2,3} Conns = {1,2} Shards = 2 Wides = %s MaxOps = %d Snap = %s Guarded = TRUE Stops = %s\nINVARIANT TypeOK\nCHECK_DEADLOCK FALSE\n"
                                                  % (w, o, sn, st), timeout=ctx.n(200, 2500), workers=3, label="broadcast %s, %d changes, ending %s" % (w, o, st)))
    gens = [lambda p=p, k=k: generate(ctx, "NotifyGen", gen_cfg(**p[1]), p[2], p[1]["NRound"] + 3, seed=ctx.seed * 100 + k) for k, p in enumerate(plans)]
    models = [m("{1,2}", "FALSE", "FALSE", 3), m("{1}", "TRUE", "FALSE", 3)] if not ctx.thorough else [m("{1,2}", "FALSE", "FALSE", 5), m("{1,3}", "TRUE", "FALSE", 4), m("{1,3}", "TRUE", "TRUE", 4)]
    res = parallel([lambda: build_driver(ctx, yields=True)] + gens + models, 7)
    exe, scs = res[0], res[1:1 + len(plans)]
    out = parallel([lambda p=p, s=s, l=l: run_driver(ctx, exe, "notify", dict(p[0], par=8), s, ctx.n(300, 1800), {"VSCHED": str(l)}) for p, s in zip(plans, scs) for l, s in ((0, s), (6, s), (9, s[:len(s) // 3]))], 6)
    tr = [t for o in out for t in o]
    report(ctx, "NotifyTrace", validate(ctx, "NotifyTrace", TRACE_CFG, tr, 7))
    ctx.notes["scenarios"] = sum(len(s) for s in scs)
    ctx.assumptions = ["a connection registered under several ids may receive a broadcast once per registration", "peers read what they are sent"]


# ------------------------------------------------------------------ C21: clients
@check("C21")
def c21(ctx):
    n = ctx.n(150, 1500)
    plans = [(dict(tr="tcp", hb=0), 0, n), (dict(tr="ws", hb=0), 1, n), (dict(tr="tls", hb=0), 1, n), (dict(tr="tcp", hb=1), 0, n // 2), (dict(tr="ws", hb=1), 1, n // 2)]
    m = lambda a, s, e: (lambda: model_check(ctx, "ClientDesign", "SPECIFICATION Spec\nCONSTANTS N = %d Stoppers = {1,2} MaxStop = %d MaxEnd = %d Atomic = TRUE\nINVARIANT TypeOK\nCHECK_DEADLOCK FALSE\n" % (a, s, e),
                                             timeout=ctx.n(200, 3000), workers=ctx.n(2, 4), label="%d starts, %d stops, %d ends by the peer" % (a, s, e)))
    gens = [lambda p=p, k=k: generate(ctx, "ClientGen", gen_cfg(NRound=16, Hold=p[1]), p[2], 20, seed=ctx.seed * 100 + k) for k, p in enumerate(plans)]
    models = [m(2, 2, 1)] if not ctx.thorough else [m(3, 3, 1), m(2, 4, 2)]
    res = parallel([lambda: build_driver(ctx, yields=True)] + gens + models, 7)
    exe, scs = res[0], res[1:1 + len(plans)]
    out = parallel([lambda p=p, s=s, l=l: run_driver(ctx, exe, "client", dict(p[0], par=100), s, ctx.n(300, 1800), {"VSCHED": str(l)}) for p, s in zip(plans, scs) for l, s in ((0, s), (6, s), (9, s[:len(s) // 3]))], 15)
    tr = [t for o in out for t in o]
    report(ctx, "ClientLifeTrace", validate(ctx, "ClientLifeTrace", TRACE_CFG, tr, 7))
    ctx.notes["scenarios"] = sum(len(s) for s in scs)
    ctx.assumptions = ["a client is started again only after it was stopped, failed to connect or lost its connection", "'promptly' is 2 s"]
