"""Checks of the networking part."""
from vlib import *

CHECKS = {}
TRACE_CFG = "SPECIFICATION Spec\nCONSTRAINT Progress\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n"


def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


def gen_cfg(**consts):
    c = "CONSTANTS " + " ".join("%s = %s" % kv for kv in consts.items()) if consts else ""
    return "SPECIFICATION Spec\n%s\nCHECK_DEADLOCK FALSE\n" % c


def split(xs, n):
    return [xs[k::n] for k in range(n) if xs[k::n]]


# ------------------------------------------------------------------ C01 / C02: framing
def framing(ctx, damage):
    mc = [lambda: model_check(ctx, "FrameMC", "SPECIFICATION Spec\nCONSTANTS Bytes = {0,1,2,200} MaxBytes = %d\nINVARIANTS ChunkIndependent Prompt Sizes\nPROPERTY BadIsFinal\nCHECK_DEADLOCK FALSE\n" % ctx.n(5, 6),
                              timeout=ctx.n(200, 1500), workers=3, label="framing, all streams/cuts/layouts within bounds"),
          lambda: model_check(ctx, "StreamMC", "SPECIFICATION Spec\nCONSTANTS MaxFrames = %d\nINVARIANTS Exact NoSpuriousClose\nPROPERTY Eventually\nCHECK_DEADLOCK FALSE\n" % ctx.n(3, 4),
                              timeout=ctx.n(200, 1500), workers=3, label="end-to-end delivery")]
    gens = [lambda: generate(ctx, "FrameGen", gen_cfg(Depth=6, Damage=damage), ctx.n(700, 6000), 40),
            lambda: generate(ctx, "StreamGen", gen_cfg(Depth=8, Damage=damage), ctx.n(260, 2500), 14, seed=ctx.seed + 1000),
            lambda: generate(ctx, "CodecGen", gen_cfg(), ctx.n(600, 5000), 3, seed=ctx.seed + 2000),
            lambda: generate(ctx, "FrameGen", gen_cfg(Depth=7, Damage=damage), ctx.n(90, 800), 40, seed=ctx.seed + 3000)]
    res = parallel([lambda: build_driver(ctx, yields=False)] + gens + mc, 7)
    exe, fs, ss, cs, rs = res[:5]
    for r in rs:
        r["codec"] = "raw"
        r["step"] = r["seed"] % 2
        for it in r["items"]:
            it["id"] = [0, 0, 0, 0]
    jobs = [lambda: run_driver(ctx, exe, "frame", {}, fs, 300), lambda: run_driver(ctx, exe, "codec", {}, cs, 300)]
    both = ss + rs
    kcp = [s for s in both if sum(it["n"] for it in s["items"]) < 30000]
    for tr, part, conf in (("tcp", both, {"WorkerPoolSize": 4, "IOReadBuffSize": 1024}),
                           ("tcp", both[:ctx.n(80, 600)], {"WorkerPoolSize": 2, "IOReadBuffSize": 17}),
                           ("ws", both[::ctx.n(2, 1)], {"WorkerPoolSize": 3}),
                           ("kcp", kcp[::ctx.n(3, 1)], {"WorkerPoolSize": 3})):
        jobs.append(lambda tr=tr, part=part, conf=conf: run_driver(ctx, exe, "stream", {"tr": tr, "conf": conf, "par": 24}, part, ctx.n(300, 1500)))
    out = parallel(jobs, 6)
    byte_tr = out[0] + out[1]
    e2e = [t for o in out[2:] for t in o]
    rej = parallel([lambda: ("FrameTrace", validate(ctx, "FrameTrace", TRACE_CFG, byte_tr, 5)),
                    lambda: ("StreamTrace", validate(ctx, "StreamTrace", TRACE_CFG + "INVARIANT Exact\n", e2e, 3))])
    for mod, r in rej:
        report(ctx, mod, r)
    ctx.notes["scenarios"] = {"frame": len(fs), "codec": len(cs), "stream": len(ss), "raw": len(rs)}
    ctx.assumptions = ["lengths above 2^28 are treated as never complete", "loopback transports deliver the bytes written"]


@check("C01")
def c01(ctx):
    framing(ctx, 0)


@check("C02")
def c02(ctx):
    framing(ctx, 1)


# ------------------------------------------------------------------ C03 / C04 / C05: dispatch
def dispatch_cfg(tr, mode, pool, maxconn=1000, qlen=2, slices=False, reqpool=False, icept=0, par=8):
    conf = {"WorkerMode": {"Hash": "Hash", "Bind": "Bind", "DynamicBind": "DynamicBind"}[mode], "WorkerPoolSize": pool, "MaxConn": maxconn,
            "MaxWorkerTaskLen": qlen, "RouterSlicesMode": slices, "RequestPoolMode": reqpool, "KcpRecvWindow": 4096, "KcpSendWindow": 1024}
    return {"tr": tr, "conf": conf, "par": par, "pool": pool > 0 or mode == "Bind", "bound": mode != "Hash",
            "maxw": maxconn if mode != "Hash" else pool, "fixed": mode != "DynamicBind", "icept": icept}


def dispatch_models(ctx, modes, live=True):
    fns = []
    for mode in modes:
        for (conns, pool, mc, q, mm, close) in ctx.n([("{1,2,3}", 1 if mode == "DynamicBind" else 2, 2, 1, 1 if mode != "Hash" else 2, "TRUE")],
                                                     [("{1,2,3}", 1 if mode == "DynamicBind" else 2, 2, 1, 2, "TRUE"), ("{1,2,3,4}", 2, 3, 2, 1, "TRUE"), ("{1,2}", 1, 2, 2, 3, "TRUE")]):
            cfg = ("SPECIFICATION %s\nCONSTANTS Conns = %s Mode = \"%s\" Pool = %d MaxConn = %d QLen = %d MaxMsg = %d AllowClose = %s\n"
                   "INVARIANTS ContractAllows OwnWorker Conserved\n%sCHECK_DEADLOCK FALSE\n") % ("LiveSpec" if live else "Spec", conns, mode, pool, mc, q, mm, close,
                                                                                           "PROPERTY AllHandled\n" if live else "")
            fns.append(lambda cfg=cfg, mode=mode: model_check(ctx, "Dispatch", cfg, timeout=ctx.n(200, 3000), workers=3, label="dispatch design, " + mode))
    return fns


def run_dispatch(ctx, plans, models, focus):
    """plans: (cfg, scenarios parameters, count)"""
    gens = [lambda p=p, k=k: generate(ctx, "DispatchGen", gen_cfg(Depth=p["depth"], Focus='"%s"' % focus, NC=p["nc"], MaxConn=p["mc"], Kcp=1 if p["cfg"]["tr"] == "kcp" else 0),
                                      p["num"], p["depth"] + 3, seed=ctx.seed * 100 + k) for k, p in enumerate(plans)]
    res = parallel([lambda: build_driver(ctx, yields=True)] + gens + models, 7)
    exe, scs = res[0], res[1:1 + len(plans)]
    out = parallel([lambda p=p, s=s, k=k: run_driver(ctx, exe, "dispatch", p["cfg"], s, ctx.n(300, 1800), {"VSCHED": str((ctx.seed + k) % 3 * 3)})
                    for k, (p, s) in enumerate(zip(plans, scs))], 4)
    tr = [t for o in out for t in o]
    rej = validate(ctx, "ServeTrace", TRACE_CFG, tr, 6)
    report(ctx, "ServeTrace", rej)
    ctx.notes["configurations"] = ["%s %s" % (p["cfg"]["tr"], json.dumps(p["cfg"]["conf"])) for p in plans]
    ctx.assumptions = ["a handler's worker is identified by its goroutine", "'eventually' is bounded by 15 s"]


@check("C03")
def c03(ctx):
    n = ctx.n(40, 400)
    plans = [dict(cfg=dispatch_cfg(*a, **k), depth=24, nc=9, mc=1000, num=m) for a, k, m in [
        (("tcp", "Hash", 2), {"qlen": 1}, n), (("tcp", "Hash", 3), {"slices": True, "reqpool": True}, n), (("tcp", "Bind", 4), {"maxconn": 30, "qlen": 1}, n),
        (("tcp", "DynamicBind", 2), {"maxconn": 30, "qlen": 2}, n), (("tcp", "Hash", 0), {}, n // 2), (("tcp", "Hash", 0), {"slices": True, "reqpool": True}, n // 2),
        (("ws", "Hash", 2), {"qlen": 1, "reqpool": True}, n), (("ws", "DynamicBind", 1), {"maxconn": 30, "slices": True}, n // 2),
        (("kcp", "Hash", 2), {"qlen": 1}, n // 2), (("kcp", "DynamicBind", 2), {"maxconn": 30}, n // 2)]]
    run_dispatch(ctx, plans, dispatch_models(ctx, ["Hash", "Bind", "DynamicBind"]), "order")


@check("C04")
def c04(ctx):
    n = ctx.n(50, 500)
    plans = [dict(cfg=dispatch_cfg(*a, **k), depth=30, nc=9, mc=k["maxconn"], num=m) for a, k, m in [
        (("tcp", "Bind", 3), {"maxconn": 3}, n), (("tcp", "DynamicBind", 1), {"maxconn": 3, "qlen": 1}, n), (("tcp", "DynamicBind", 2), {"maxconn": 4, "slices": True}, n),
        (("ws", "Bind", 3), {"maxconn": 2}, n // 2), (("ws", "DynamicBind", 1), {"maxconn": 3}, n),
        (("kcp", "Bind", 3), {"maxconn": 3}, n // 2), (("kcp", "DynamicBind", 1), {"maxconn": 3}, n // 2)]]
    run_dispatch(ctx, plans, dispatch_models(ctx, ["Bind", "DynamicBind"]), "bind")


@check("C05")
def c05(ctx):
    n = ctx.n(40, 400)
    plans = [dict(cfg=dispatch_cfg(*a, icept=1, **k), depth=24, nc=6, mc=1000, num=m) for a, k, m in [
        (("tcp", "Hash", 2), {}, n), (("tcp", "Hash", 2), {"slices": True, "reqpool": True}, n), (("tcp", "DynamicBind", 1), {"maxconn": 30, "reqpool": True}, n),
        (("tcp", "Hash", 0), {}, n // 2), (("tcp", "Hash", 0), {"slices": True}, n // 2), (("tcp", "Bind", 4), {"maxconn": 30, "slices": True}, n // 2),
        (("ws", "Hash", 2), {}, n), (("ws", "DynamicBind", 1), {"maxconn": 30, "slices": True}, n // 2), (("kcp", "Hash", 2), {"slices": True}, n // 2), (("kcp", "Hash", 0), {}, n // 2)]]
    run_dispatch(ctx, plans, dispatch_models(ctx, ["Hash"]), "panic")


# ------------------------------------------------------------------ C06 / C07 / C08 / C22: life of connections
def life_models(ctx):
    def m(tcp, ws, mx, clears, stops, to):
        return lambda: model_check(ctx, "Server", "SPECIFICATION Spec\nCONSTANTS Tcp = %s Ws = %s Max = %d Clears = %d Stops = %s\nINVARIANTS Implements Limit RegistryMirror AtRest\nCHECK_DEADLOCK FALSE\n"
                                   % (tcp, ws, mx, clears, stops), timeout=to, workers=3, label="server design tcp=%s ws=%s max=%d clear=%d stop=%s" % (tcp, ws, mx, clears, stops))
    if ctx.thorough:
        return [m("{1,2}", "{3}", 1, 1, "TRUE", 900), m("{1}", "{2,3}", 2, 0, "FALSE", 1500), m("{1,2,3}", "{}", 2, 0, "FALSE", 1500), m("{}", "{1,2,3}", 1, 1, "TRUE", 900)]
    return [m("{1}", "{2}", 1, 1, "TRUE", 200), m("{1,2}", "{3}", 1, 0, "FALSE", 200)]


def run_life(ctx, plans, focus):
    """plans: (mode, conf, number, depth, conns)"""
    gens = [lambda p=p, k=k: generate(ctx, "LifeGen", gen_cfg(Depth=p[3], Focus='"%s"' % focus, NC=p[4], Trs='"%s"' % p[0]), p[2], p[3] + 3, seed=ctx.seed * 100 + k)
            for k, p in enumerate(plans)]
    res = parallel([lambda: build_driver(ctx, yields=True)] + gens + life_models(ctx), 7)
    exe, scs = res[0], res[1:1 + len(plans)]
    out = parallel([lambda p=p, s=s, k=k: run_driver(ctx, exe, "life", {"mode": p[0], "conf": dict({"WorkerPoolSize": 4, "MaxWorkerTaskLen": 1024, "MaxMsgChanLen": 4}, **p[1]), "par": 10}, s,
                                                     ctx.n(400, 2400), {"VSCHED": str((ctx.seed + k) % 3 * 3)})
                    for k, (p, s) in enumerate(zip(plans, scs))], 5)
    tr = [t for o in out for t in o]
    rej = validate(ctx, "LifeTrace", TRACE_CFG, tr, 6)
    report(ctx, "LifeTrace", rej)
    ctx.notes["configurations"] = ["%s %s" % (p[0], json.dumps(p[1])) for p in plans]
    ctx.assumptions = ["'promptly' and 'shortly after' are bounded by 15 s", "a connection is 'open' from the beginning of its start hook to the end of its stop hook"]


@check("C06")
def c06(ctx):
    n = ctx.n(60, 600)
    big = {"MaxConn": 1000}
    run_life(ctx, [("tcp", big, n, 34, 12), ("ws", big, n, 34, 12), ("kcp", big, n // 2, 34, 12), ("both", {"MaxConn": 1000, "WorkerMode": "DynamicBind", "WorkerPoolSize": 2, "MaxConn": 40}, n // 2, 34, 12)], "life")


@check("C07")
def c07(ctx):
    n = ctx.n(80, 800)
    big = {"MaxConn": 1000}
    run_life(ctx, [("tcp", big, n, 50, 20), ("ws", big, n // 2, 50, 20), ("kcp", big, n // 2, 50, 20), ("both", big, n, 50, 20)], "reg")


@check("C08")
def c08(ctx):
    n = ctx.n(50, 500)
    run_life(ctx, [("tcp", {"MaxConn": 2}, n, 34, 14), ("ws", {"MaxConn": 2}, n, 34, 14), ("both", {"MaxConn": 1}, n, 34, 14), ("both", {"MaxConn": 3}, n, 34, 14), ("kcp", {"MaxConn": 2}, n // 2, 30, 10)], "limit")


@check("C22")
def c22(ctx):
    n = ctx.n(60, 600)
    big = {"MaxConn": 1000}
    run_life(ctx, [("tcp", big, n, 26, 12), ("ws", big, n, 26, 12), ("both", big, n // 2, 26, 12), ("kcp", big, n // 2, 26, 12), ("both", {"MaxConn": 3}, n // 2, 26, 12)], "stop")


# ------------------------------------------------------------------ C09 / C10: sending
def send_models(ctx, stop):
    def m(**k):
        d = dict(Senders="{1,2}", Progs='"mixed"', QLen=1, Cap=2, Size=2, Buf=5, Locked="FALSE", CanStop="FALSE", PeerReads="TRUE", WholeFlush="TRUE")
        d.update(k)
        live = "AllReturn" if d["CanStop"] == "TRUE" else "AllDelivered"
        return lambda: model_check(ctx, "SendDesign", "SPECIFICATION Live\nCONSTANTS %s\nINVARIANTS NotTorn Allowed LateFails\nPROPERTY %s\nCHECK_DEADLOCK FALSE\n"
                                   % (" ".join("%s = %s" % x for x in d.items()), live), timeout=ctx.n(200, 1500), workers=3, label="send design " + json.dumps(k))
    if stop:
        r = [m(CanStop="TRUE", PeerReads="FALSE"), m(CanStop="TRUE", PeerReads="FALSE", Locked="TRUE")]
        if ctx.thorough:
            r += [m(CanStop="TRUE"), m(CanStop="TRUE", Locked="TRUE"), m(CanStop="TRUE", PeerReads="FALSE", Senders="{1,2,3}", Progs='"direct"')]
    else:
        r = [m(Progs='"split"'), m(Locked="TRUE")]
        if ctx.thorough:
            r += [m(), m(Senders="{1,2,3}", Progs='"split"', Cap=3), m(Senders="{1,2,3}", Progs='"direct"', Locked="TRUE"), m(QLen=2, Buf=3, Progs='"split"')]
    return r


def run_send(ctx, plans, focus):
    """plans: (transport, side, conf, heartbeat, number)"""
    gens = [lambda p=p, k=k: generate(ctx, "SendGen", gen_cfg(Depth=4 if focus == "deliver" else 3, Focus='"%s"' % focus, Big=0 if p[0] == "kcp" else 1), p[4], 8, seed=ctx.seed * 100 + k)
            for k, p in enumerate(plans)]
    res = parallel([lambda: build_driver(ctx, yields=True)] + gens + send_models(ctx, focus == "end"), 7)
    exe, scs = res[0], res[1:1 + len(plans)]
    base = {"HeartbeatMax": 600, "KcpSendWindow": 128, "KcpRecvWindow": 1024, "WorkerPoolSize": 1}
    out = parallel([lambda p=p, s=s, k=k: run_driver(ctx, exe, "send", {"tr": p[0], "side": p[1], "conf": dict(base, **p[2]), "hb": p[3], "par": 24}, s,
                                                     ctx.n(400, 2400), {"VSCHED": str((ctx.seed + k) % 3 * 3)})
                    for k, (p, s) in enumerate(zip(plans, scs))], 5)
    tr = [t for o in out for t in o]
    rej = validate(ctx, "SendTrace", TRACE_CFG, tr, 6)
    report(ctx, "SendTrace", rej)
    ctx.notes["configurations"] = ["%s %s hb=%d %s" % (p[0], p[1], p[3], json.dumps(p[2])) for p in plans]
    ctx.assumptions = ["'eventually' is bounded by 15 s (60 s for a send on an open connection)", "a frame handed to SendToQueue is not modified afterwards by the caller"]


def send_plans(n):
    a, b = {"MaxMsgChanLen": 2}, {"MaxMsgChanLen": 1024}
    return [("tcp", "server", b, 0, n), ("tcp", "server", a, 5, n), ("ws", "server", b, 5, n), ("ws", "server", a, 0, n // 2), ("kcp", "server", b, 7, n // 2), ("kcp", "server", a, 0, n // 2),
            ("tcp", "client", a, 0, n // 2), ("ws", "client", b, 6, n // 2)]


@check("C09")
def c09(ctx):
    run_send(ctx, send_plans(ctx.n(100, 1000)), "deliver")


@check("C10")
def c10(ctx):
    run_send(ctx, send_plans(ctx.n(100, 1000)), "end")


# ------------------------------------------------------------------ C11 / C12 / C13: routing, interceptors, requests
def run_route(ctx, family, gen, module, plans, models, assume):
    """plans: (configuration, generator constants, number)"""
    gens = [lambda p=p, k=k: generate(ctx, gen, gen_cfg(**p[1]), p[2], 40, seed=ctx.seed * 100 + k) for k, p in enumerate(plans)]
    res = parallel([lambda: build_driver(ctx, yields=True)] + gens + models, 7)
    exe, scs = res[0], res[1:1 + len(plans)]
    out = parallel([lambda p=p, s=s, k=k: run_driver(ctx, exe, family, dict(p[0], par=12), s, ctx.n(400, 2400), {"VSCHED": str((ctx.seed + k) % 3 * 3)})
                    for k, (p, s) in enumerate(zip(plans, scs))], 5)
    tr = [t for o in out for t in o]
    report(ctx, module, validate(ctx, module, TRACE_CFG, tr, 7))
    ctx.notes["configurations"] = ["%s %s" % (p[0]["tr"], json.dumps(p[0])) for p in plans]
    ctx.assumptions = assume


def rcfg(tr, side="server", nodec=False, **conf):
    return {"tr": tr, "side": side, "nodec": nodec, "conf": dict({"MaxConn": 1000, "WorkerPoolSize": 3, "MaxWorkerTaskLen": 1024}, **conf)}


@check("C11")
def c11(ctx):
    n = ctx.n(50, 500)
    sl, cl = dict(Slices=1, NReg=9, NMsg=14), dict(Slices=0, NReg=5, NMsg=14)
    S = {"RouterSlicesMode": True}
    plans = [(rcfg("tcp", **S), sl, 2 * n), (rcfg("tcp"), cl, n), (rcfg("tcp", RequestPoolMode=True, WorkerMode="DynamicBind", **S), sl, n), (rcfg("tcp", RequestPoolMode=True), cl, n),
             (rcfg("ws", **S), sl, n // 2), (rcfg("ws", RequestPoolMode=True), cl, n // 2), (rcfg("kcp", **S), sl, n // 2), (rcfg("kcp"), cl, n // 2),
             (rcfg("tcp", WorkerPoolSize=0, **S), sl, n // 2), (rcfg("tcp", WorkerPoolSize=0, RequestPoolMode=True), cl, n // 2), (rcfg("tcp", "client"), cl, n // 2), (rcfg("ws", "client"), cl, n // 2)]
    m = lambda mode, k, a: (lambda: model_check(ctx, "RouterDesign", "SPECIFICATION Live\nCONSTANTS Mode = \"%s\" N = %d MaxActs = %d\nINVARIANT Allows\n%sCHECK_DEADLOCK FALSE\n"
                                                % (mode, k, a, "PROPERTY Ends\n"), timeout=ctx.n(100, 1500), workers=2, label="routing design %s" % mode))
    run_route(ctx, "route", "RouterGen", "RouterTrace", plans, [m("slices", ctx.n(4, 6), ctx.n(4, 7)), m("classic", 1, ctx.n(6, 12))],
              ["registrations precede traffic", "a handler that panics without recovery ends its message"])


@check("C12")
def c12(ctx):
    n = ctx.n(30, 300)
    g = dict(NMsg=14)
    S = {"RouterSlicesMode": True}
    plans = [(rcfg("tcp"), g, n), (rcfg("tcp", RequestPoolMode=True, **S), g, n), (rcfg("tcp", WorkerPoolSize=0), g, n), (rcfg("ws"), g, n), (rcfg("ws", nodec=True, **S), g, n), (rcfg("kcp", **S), g, n // 2),
             (rcfg("tcp", "client"), g, n), (rcfg("ws", "client"), g, n // 2), (rcfg("tcp", WorkerMode="Bind"), g, n // 2), (rcfg("ws", WorkerMode="DynamicBind", RequestPoolMode=True), g, n // 2)]
    m = lambda k, f: (lambda: model_check(ctx, "ChainDesign", "SPECIFICATION Spec\nCONSTANTS N = %d From = %d\nINVARIANTS Allows DoneIsOver\nPROPERTY Over\nCHECK_DEADLOCK FALSE\n" % (k, f),
                                          timeout=ctx.n(100, 1500), workers=2, label="interceptor chain, %d interceptors, from %d" % (k, f)))
    run_route(ctx, "chain", "ChainGen", "ChainTrace", plans, [m(k, f) for k in ctx.n([3], [3, 4, 5]) for f in (0, 1)], ["an interceptor passes a message on at most once"])


@check("C13")
def c13(ctx):
    n = ctx.n(40, 400)
    g = dict(NMsg=24, NC=3)
    S, P = {"RouterSlicesMode": True}, {"RequestPoolMode": True}
    plans = [(rcfg("tcp", **P), g, n), (rcfg("tcp", **P, **S), g, n), (rcfg("tcp"), g, n), (rcfg("tcp", **S), g, n // 2), (rcfg("tcp", WorkerPoolSize=0, **P), g, n), (rcfg("tcp", WorkerPoolSize=0, **P, **S), g, n),
             (rcfg("ws", **P), g, n // 2), (rcfg("ws", **P, **S), g, n // 2), (rcfg("kcp", **P, **S), g, n // 2), (rcfg("kcp", **P), g, n // 2),
             (rcfg("tcp", nodec=True, IOReadBuffSize=1024, WorkerPoolSize=1), g, n), (rcfg("tcp", nodec=True, IOReadBuffSize=1024, **P, **S), g, n), (rcfg("ws", nodec=True, **P), g, n // 2),
             (rcfg("tcp", "client", **P), g, n // 2), (rcfg("tcp", WorkerMode="DynamicBind", **P), g, n // 2)]
    m = lambda msgs, objs, ops: (lambda: model_check(ctx, "ReqPool", "SPECIFICATION Spec\nCONSTANTS Msgs = %s Objs = %s MaxOps = %d ResetResp = TRUE CopyShares = FALSE Icept = TRUE\nINVARIANTS SeesOwn CopyKeeps NotShared\nCHECK_DEADLOCK FALSE\n"
                                                     % (msgs, objs, ops), timeout=ctx.n(150, 2000), workers=3, label="request objects %s over %s" % (msgs, objs)))
    run_route(ctx, "req", "ReqGen", "ReqTrace", plans, [m("{1,2,3}", "{1,2}", ctx.n(3, 5))], ["'handled twice' is told by the message number in the payload"])
