"""C11 (queries) and C12 (the encoder's context)."""
import json
import vlib
from frame_checks import FULL

TINY1 = {"Ctrls": {0}, "PileLocSeq": "<- TinyPiles", "ZoneLocSeq": "<- TinyZones",
         "ZoneLim": "<- TinyZoneLim"}
CARD_PLACES = [[0, 2, 0, -1], [0, 2, 1, -1], [1, 4, 3, -1], [1, 4, 3, 0], [1, 4, 3, 1], [0, 256, 0, -1]]


def obj(x):
    """TLC writes the empty record as an empty list."""
    return {} if x == [] else x


def norm_card(c):
    c = dict(obj(c))
    if "counters" in c:
        c["counters"] = [{k: v for k, v in x.items() if v} for x in c["counters"]]
    return c


def c11(ctx):
    binary = vlib.harness("h_query")
    _, st = vlib.tlc_mc("QueryMC", {"Probe": ctx.scale({"code", "race", "targets"},
                                                       {"code", "race", "targets", "equipped_to"})},
                        invariants=["Law"])
    ctx.model(st)
    num = ctx.scale(320, 3000)
    jobs = [("QueryGen", {"NCards": len(CARD_PLACES)}, num // 8, 40, ctx.seed_for("q", i)) for i in range(8)]
    sessions = [s for r in vlib.tlc_gen(jobs) for s in vlib.split_sessions(r)]
    ins = [[{"new": CARD_PLACES}] + [{"place": CARD_PLACES[s["c"] - 1], "data": obj(s["data"])}
                                     for s in sess[1:]] for sess in sessions]

    def judge(sess, outs, crash):
        for i, st in enumerate(sess):
            if i >= len(outs):
                return i, "%s on %s" % (crash, json.dumps({k: st.get(k) for k in ("c", "data")})), True
            if i == 0:
                continue
            out = outs[i]
            want = [norm_card(c) for c in st["post"]]
            for k in ("cached", "plain", "undo", "undo_cached"):
                if out[k] != want:
                    d = [j for j in range(len(want)) if out[k][j] != want[j]][0]
                    f = [x for x in set(want[d]) | set(out[k][d]) if want[d].get(x) != out[k][d].get(x)][0]
                    return i, "%s: field %s of card %d is %s, expected %s (query of card %d: %s)" % (
                        k, f, d + 1, out[k][d].get(f), want[d].get(f), st["c"],
                        json.dumps(st["data"])), True
            for k in ("hits", "undo_hits"):
                if set(out[k]) != set(st["hits"]):
                    return i, "%s are %s, expected %s for %s" % (
                        k, sorted(out[k]), sorted(st["hits"]), json.dumps(st["data"])), True
            if out["plain_hits"]:
                return i, "hits reported without caching: %s" % out["plain_hits"], True
        return len(sess), None, False

    def ok(sess, steps):
        for s in sess[1:steps]:
            ctx.count("queries")
            ctx.count("hits", len(s["hits"]))
            for f in obj(s["data"]):
                ctx.count("field:" + f)
    vlib.replay(ctx, "h_query", binary, sessions, ins, judge, ok)
    ctx.sample({"queries": [{"card": s["c"], "data": s["data"], "hits": s["hits"]} for s in sessions[0][1:4]]})


def c12(ctx):
    binary = vlib.harness("h_ctx")
    _, st = vlib.tlc_mc("ContextMC", dict(TINY1, MaxSteps=ctx.scale(4, 6)),
                        invariants=["Once", "Latest", "Sizes"])
    ctx.model(st)
    num = ctx.scale(480, 3000)
    jobs = [("ContextGen", dict(FULL, Cap=24, Weights="<- W_ctx"), num // 8, 70, ctx.seed_for("x", i))
            for i in range(8)]
    jobs += [("ContextGen", dict(FULL, Cap=700, Weights="<- W_ctx"), 2, 40, ctx.seed_for("big", i)) for i in range(ctx.scale(2, 8))]
    sessions = [s for r in vlib.tlc_gen(jobs) for s in vlib.split_sessions(r)]

    def inp(s):
        a = s["act"]
        return {"new": {"new": 1}, "ev": {"ev": s.get("ev")}, "win": {"win": s.get("r")},
                "defer": {"defer": s.get("p")}, "take": {"take": 1},
                "left": {"left": s.get("l"), "f": s.get("f")}, "get": {"get": s.get("l")}}[a]
    ins = [[inp(s) for s in sess] for sess in sessions]

    def judge(sess, outs, crash):
        for i, st in enumerate(sess):
            if i >= len(outs):
                # A board event that dies is C10's matter.
                return i, None if st["act"] == "ev" else "%s on %s" % (crash, json.dumps(inp(st))), True
            out = outs[i]
            for k in ("mwr", "piles", "mats"):
                if out[k] != st[k]:
                    return i, "%s is %s, expected %s after %s" % (k, out[k], st[k], json.dumps(inp(st))), True
            if st["act"] in ("take", "get") and out["r"] != st["r"]:
                return i, "%s answered %s, expected %s" % (json.dumps(inp(st)), out["r"], st["r"]), True
        return len(sess), None, False

    def ok(sess, steps):
        for s in sess[1:steps]:
            ctx.count(s["act"])
    vlib.replay(ctx, "h_ctx", binary, sessions, ins, judge, ok)
    ctx.sample({"steps": [inp(s) for s in sessions[0][1:8]]})
