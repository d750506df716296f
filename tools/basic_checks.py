"""C28 (bits) and C29 (places)."""
import json
import vlib


def harness():
    return vlib.harness("h_bits")


def chunks(xs, n):
    return [xs[i:i + n] for i in range(0, len(xs), n)]


def c28(ctx):
    binary = harness()
    cases, st = vlib.tlc_mc("BitsMC", {"W": 8}, invariants=["Law", "Emit"], workers=1)
    ctx.model(st)
    jobs = [("BitsGen", {}, ctx.scale(10, 200), 400, ctx.seed_for("bits", i)) for i in range(8)]
    for r in vlib.tlc_gen(jobs):
        cases += r

    def judge(sess, outs, crash):
        for i, s in enumerate(sess):
            about = "width %d, value %s, count %s" % (s["w"], s["x"], s["c"])
            if i >= len(outs):
                return i, "%s on %s" % (crash, about), True
            for o in outs[i]:
                for k in ("pop", "l", "r"):
                    if o[k] != s[k]:
                        return i, "%s of %s is %s, expected %s" % (
                            {"pop": "the number of bits", "l": "choosing from the left", "r": "choosing from the right"}[k],
                            about, o[k], s[k]), True
        return len(sess), None, False

    def ok(sess, steps):
        for s in sess[:steps]:
            ctx.count("width %d" % s["w"])
    sessions = chunks(cases, 200)
    vlib.replay(ctx, "h_bits", binary, sessions, [[{k: s[k] for k in ("w", "x", "c")} for s in x] for x in sessions], judge, ok)
    ctx.sample(cases[-3:])


def c29(ctx):
    binary = harness()
    _, st = vlib.tlc_mc("PlacesMC", {"Signed": "<- S2", "Unsigned": ctx.scale("<- S2", "<- S3")}, invariants=["Law"])
    ctx.model(st)
    pairs, st = vlib.tlc_mc("PlacesMC", {"Signed": "<- S3", "Unsigned": "<- S3"}, spec="SPECIFICATION Pairs",
                            invariants=["Emit"], workers=1)
    ctx.model(st)
    locs = vlib.tlc_eval("PlacesLoc", {})[0]["locs"]
    jobs = [("PlacesGen", {}, ctx.scale(8, 200), 200, ctx.seed_for("places", i)) for i in range(8)]
    lists = [s for r in vlib.tlc_gen(jobs) for s in r]

    def inp(s):
        return {"list": s["list"]} if "list" in s else {"locs": [x[0] for x in s["locs"]]} if "locs" in s \
            else {"a": s["a"], "b": s["b"]}

    def judge(sess, outs, crash):
        for i, s in enumerate(sess):
            if i >= len(outs):
                return i, "%s on %s" % (crash, json.dumps(inp(s))), True
            o = outs[i]
            if "list" in s:
                if o["cmp"] != s["cmp"]:
                    k = [j for j in range(len(s["cmp"])) if o["cmp"][j] != s["cmp"][j]][0]
                    return i, "%s and %s compare (less, greater, equal) as %s, expected %s" % (
                        s["list"][k], s["list"][k + 1], o["cmp"][k], s["cmp"][k]), True
                if o["sorted"] != s["sorted"]:
                    return i, "a set of %s holds %s, expected %s" % (s["list"], o["sorted"], s["sorted"]), True
            elif "locs" in s:
                for (loc, cls), got in zip(s["locs"], o["locs"]):
                    want = [cls == c for c in ("empty", "pile", "zone")] * 2
                    if got != want:
                        return i, "location %d is (empty, pile, zone) %s, expected %s" % (loc, got, want), True
            elif o["lt"] != s["lt"] or o["eq"] != s["eq"]:
                return i, "%s and %s: %s, expected %s" % (s["a"], s["b"], o, {"lt": s["lt"], "eq": s["eq"]}), True
        return len(sess), None, False

    def ok(sess, steps):
        for s in sess[:steps]:
            ctx.count("lists" if "list" in s else "locations" if "locs" in s else "pairs")
    sessions = chunks(pairs, 300) + chunks(lists, 50) + [[{"locs": locs}]]
    vlib.replay(ctx, "h_bits", binary, sessions, [[inp(s) for s in x] for x in sessions], judge, ok)
    ctx.sample({"list": lists[0]["list"], "sorted": lists[0]["sorted"]})
