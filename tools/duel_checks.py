"""C20: whole duels, from spec/Duel.tla.  (Also used by C05, C06 and C18.)"""
import json
import vlib
from frame_checks import IdMap
from hist_checks import board_diff


def harness():
    return vlib.harness("h_duel")


def duel_model(ctx, kinds, size):
    _, st = vlib.tlc_mc("DuelMC", dict(zip(("MaxPile", "MaxMats", "MaxCards"), size), Kinds=set(kinds)),
                        invariants=["Law"])
    ctx.model(st)


def duels(ctx, weights, num, depth, tag, walk=0, big=2):
    jobs = [("DuelGen", {"Weights": "<- " + weights, "Check": i == 0 and not walk and big < 10, "WalkPct": walk, "BigPct": big}, max(1, num // 8), depth * 2 - 1,
             ctx.seed_for(tag, i)) for i in range(8)]
    return [s for r in vlib.tlc_gen(jobs, timeout=800) for s in vlib.split_sessions(r)]


def inputs(session):
    return [{"new": 1}] + [{"msgs": s["msgs"]} for s in session]


def look_diff(maps, post, out):
    for who in ("plain", "undo"):
        bad = board_diff(maps[who], post, out[who])
        if bad:
            return "%s client: %s" % ({"plain": "the", "undo": "the rewindable"}[who], bad)
    if out["sizes"] != post["sizes"]:
        return "the context's pile sizes are %s, expected %s" % (out["sizes"], post["sizes"])
    if out["mats"] != post["mats"]:
        return "the context has materials at %s, expected %s" % (out["mats"], post["mats"])
    want, got = codes(known(post)), codes(out["know"]["plain"])
    if want != got:
        return "codes expected %s, found %s" % ([x for x in want if x not in got][:5], [x for x in got if x not in want][:5])
    return None


def known(post):
    """What was told of the cards, by place, as the harness writes it."""
    out = []
    for x in post["know"]:
        f = {}
        for k, v in x[4].items():
            if k == "_":
                continue
            v = v["values"] if "values" in v else v["value"]
            if k == "counters":
                v = [{a: b for a, b in c.items() if b} for c in v]
            if v not in (0, "0:0", [0, 0, 0, 0], []):
                f[k] = v
        if f:
            out.append(x[:4] + [f])
    return sorted(out, key=lambda x: x[:4])


def codes(cards):
    return sorted(x[:4] + [x[4]["code"]] for x in cards if "code" in x[4])


def know_diff(want, got):
    a, b = ({tuple(x[:4]): x[4] for x in y} for y in (want, got))
    for p in sorted(set(a) | set(b)):
        x, y = a.get(p, {}), b.get(p, {})
        for f in sorted(set(x) | set(y)):
            if x.get(f) != y.get(f):
                return "the card at %s has %s %s, told was %s" % (list(p), f, json.dumps(y.get(f)), json.dumps(x.get(f)))
    return None


def judge(session, outs, crash):
    maps = {"plain": IdMap(), "undo": IdMap()}
    for i, st in enumerate(session):
        about = "action %d (%s, messages %s)" % (i + 1, st["k"], st["kinds"])
        if i + 1 >= len(outs):
            return i + 1, "%s: %s" % (about, crash), True
        bad = look_diff(maps, st["post"], outs[i + 1])
        if bad:
            return i + 1, "after %s: %s; wire %s" % (about, bad, json.dumps(st["msgs"])[:600]), True
    return len(session) + 1, None, False


def c20(ctx):
    binary = harness()
    size = ctx.scale((2, 2, 5), (3, 3, 6))
    duel_model(ctx, ["move", "leave", "xyz", "zones", "other"], size)
    sessions = duels(ctx, "W_duel", ctx.scale(64, 1200), ctx.scale(80, 120), "duel")
    sessions += duels(ctx, "W_large", ctx.scale(40, 400), 15, "large", big=60)

    def ok(sess, steps):
        for s in sess[:steps]:
            ctx.count(s["k"])
    vlib.replay(ctx, "h_duel", binary, [vlib_box(s) for s in sessions], [inputs(s) for s in sessions],
                lambda box, outs, crash: judge(box["s"], outs, crash), lambda box, steps: ok(box["s"], steps))
    ctx.sample([{"action": s["k"], "messages": s["kinds"], "cards": len(s["post"]["b"])} for s in sessions[0][:6]])


# -- C30: what is told of cards ----------------------------------------------

def told_inputs(session):
    """(With a look back now and then.)"""
    ins, about = [{"new": 1}], [None]
    for s in session:
        ins += [{"msgs": s["msgs"]}] + [{"to": d} for d in s["walk"]] + [{"to": 0}] * bool(s["walk"])
        about += [s] + [None] * len(s["walk"]) + [s] * bool(s["walk"])
    return ins, about


def judge_told(about, outs, crash):
    for i, st in enumerate(about):
        if i >= len(outs):
            return i, "%s when told %s" % (crash, json.dumps(st["msgs"])[:600]) if st and st["k"] in ("told", "told1") else None, True
        if st is None:
            continue
        want = known(st["post"])
        for who in ("plain", "undo"):
            if [x[:4] for x in st["post"]["b"]] != [x[:4] for x in outs[i][who]["b"]]:
                return i, None, True    # there are cards where none should be, or none where one should: C20
            bad = know_diff(want, outs[i]["know"][who])
            if bad:
                return i, "after %s (messages %s): %s client: %s; wire %s" % (
                    st["k"], st["kinds"], {"plain": "the", "undo": "the rewindable"}[who], bad, json.dumps(st["msgs"])[:600]), True
    return len(about), None, False


def c30(ctx):
    binary = harness()
    duel_model(ctx, ["move", "xyz", "zones", "other"], ctx.scale((2, 1, 4), (2, 2, 5)))
    both = [told_inputs(s) for s in duels(ctx, "W_know", ctx.scale(128, 1000), ctx.scale(40, 80), "told", 6)]

    def ok(box, steps):
        for s in box["s"][:steps]:
            if s:
                ctx.count(s["k"])
    vlib.replay(ctx, "h_duel", binary, [vlib_box(a) for _, a in both], [i for i, _ in both],
                lambda box, outs, crash: judge_told(box["s"], outs, crash), ok)
    ctx.sample([{"action": s["k"], "known": known(s["post"])[:2]} for s in both[0][1][1:5] if s])


# -- C05, C06: whole duels, back and forth -----------------------------------

def walk_inputs(session):
    """Message by message, so that every state the client was in is seen."""
    ins, about = [{"new": 1}], [None]
    for s in session:
        for w in s["msgs"]:
            ins.append({"msgs": [w]})
            about.append(None)
        about[-1] = s
        for d in s["walk"] + ([0] if s["walk"] else []):
            ins.append({"to": d})
            about.append(d)
    return ins, about


def judge_walk(about, outs, crash, act):
    ids = IdMap()
    seen = {0: None}
    at = 0
    for i, what in enumerate(about):
        walk = isinstance(what, int)
        if i >= len(outs):
            # (Which way it went is known from where it was.)
            own = walk and (act == "undo") == (len(seen) - 1 - what < at)
            return i, "%s on the way to %s events before the latest" % (crash, what) if own else None, True
        out = outs[i]
        if not walk:
            if isinstance(what, dict) and board_diff(ids, what["post"], out["undo"]):
                return i, None, True  # not a matter of the history
            seen[out["at"]] = out["undo"]
        else:
            old = seen[out["at"]]
            bad = [k for k in old if old[k] != out["undo"][k]]
            if bad:
                if out["at"] == at or (act == "undo") != (out["at"] < at):
                    return i, None, True
                return i, "from event %d to event %d: %s was %s, is %s" % (
                    at, out["at"], bad[0], json.dumps(old[bad[0]])[:1500], json.dumps(out["undo"][bad[0]])[:1500]), True
        at = out["at"]
    return len(about), None, False


def walks(ctx, act):
    binary = harness()
    sessions = duels(ctx, "W_back", ctx.scale(64, 800), ctx.scale(50, 100), "walk", 15)
    both = [walk_inputs(s) for s in sessions]
    vlib.replay(ctx, "h_duel", binary, [vlib_box(a) for _, a in both], [i for i, _ in both],
                lambda box, outs, crash: judge_walk(box["s"], outs, crash, act),
                lambda box, steps: ctx.count("duel walks", sum(isinstance(x, int) for x in box["s"][:steps])))


def vlib_box(s):
    from codec_checks import Boxed
    return Boxed(s=s)
