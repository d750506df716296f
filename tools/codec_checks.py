"""C13-C19 (the engine's messages) and C21 (answers), from spec/Core.tla."""
import json
import vlib

INTERESTING = {"MOVE", "RELOAD_FIELD", "UPDATE_DATA", "SWAP_GRAVE_DECK"}


def harness():
    return vlib.harness("h_codec")


def norm(x, arr=False):
    """Leaves out what is written for zero, empty or absent alike."""
    if isinstance(x, dict):
        d = {}
        for k, v in x.items():
            if k == "_" or v is None:
                continue
            v = norm(v)
            if isinstance(v, bool):
                v = int(v)
            if v in (0, "0:0", "", []) and not isinstance(v, dict):
                continue
            d[k] = v
        return d
    if isinstance(x, list):
        # (The record without fields, as an element, is an empty list in TLC's
        # output and an empty object in the harness's.)
        return [({} if e == [] else norm(e)) for e in x]
    if isinstance(x, bool):
        return int(x)
    return x


def same_shape(x):
    """{} and [] are written alike by TLC."""
    if x == {} or x == []:
        return None
    if isinstance(x, dict):
        return {k: same_shape(v) for k, v in x.items()}
    if isinstance(x, list):
        return [same_shape(v) for v in x]
    return x


def loose_shuffle(m):
    """A shuffled pile is named by controller and location alone."""
    try:
        ps = m["event"]["meta"]["shuffle_pile"]["places"]
    except (KeyError, TypeError):
        return m
    return {"event": {"meta": {"shuffle_pile": {"places": [p[:2] for p in ps]}}}}


def canon(m):
    return None if m is None else same_shape(loose_shuffle(norm(m)))


def diff(a, b, path=""):
    """Where the expected a and the actual b differ first."""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a:
                return "%s.%s: %s is there but not expected" % (path, k, json.dumps(b[k])[:200])
            if k not in b:
                return "%s.%s: %s expected but missing" % (path, k, json.dumps(a[k])[:200])
            d = diff(a[k], b[k], path + "." + k)
            if d:
                return d
        return None
    if isinstance(a, list) and isinstance(b, list):
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, "%s[%d]" % (path, i))
            if d:
                return d
        if len(a) != len(b):
            return "%s has %d entries, expected %d" % (path, len(b), len(a))
        return None
    return None if a == b else "%s is %s, expected %s" % (path, json.dumps(b)[:200], json.dumps(a)[:200])


def is_place(x):
    return isinstance(x, list) and len(x) == 4 and all(isinstance(v, int) for v in x)


PLACE_KEYS = {"place", "places", "previous_places", "current_places", "place_a", "place_b", "selector",
              "selected_places", "attacker", "attack_target", "card_place", "old_place", "new_place", "zones",
              "equipped_to", "from", "to", "summonable_cards", "spsummonable_cards", "repositionable_cards",
              "msetable_cards", "ssetable_cards"}


def places(m, out=None, path="", key=""):
    """All places in a message, in order, with the field they are in."""
    if out is None:
        out = []
    if isinstance(m, dict):
        for k in sorted(m):
            places(m[k], out, path + "." + k, k)
    elif is_place(m) and (key in PLACE_KEYS or path.endswith(".targets.values") or path.endswith(".equipped_to.value")):
        out.append([path, m])
    elif isinstance(m, list):
        for e in m:
            places(e, out, path, key)
    return out


def sessions_of(ctx, kinds, num, depth, tag):
    jobs = [("CoreGen", {"Kinds": "<- " + kinds}, max(1, num // 8), depth * 2, ctx.seed_for(tag, i)) for i in range(8)]
    return [s for r in vlib.tlc_gen(jobs, timeout=800) for s in vlib.split_sessions(r)]


def inp(s):
    return {"new": 1} if s["act"] == "new" else {"wire": s["wire"], "b": s["b"]}


def run(ctx, binary, sessions, decide, what=lambda s: True):
    """decide(step, out) -> what is wrong or None."""
    def judge(sess, outs, crash):
        for i, st in enumerate(sess):
            if i >= len(outs):
                return i, ("%s: %s on %s" % (st.get("k"), crash, json.dumps(st.get("wire"))[:600])
                           if what(st) else None), True
            if i and what(st):
                bad = decide(st, outs[i])
                if bad:
                    return i, "%s: %s (wire %s)" % (st["k"], bad, json.dumps(st["wire"])[:600]), True
        return len(sess), None, False

    def ok(sess, steps):
        for s in sess[1:steps]:
            if what(s):
                ctx.count(s["k"])
    vlib.replay(ctx, "h_codec", binary, sessions, [[inp(s) for s in x] for x in sessions], judge, ok)
    s = [x for x in sessions[0][1:] if what(x)][:2]
    ctx.sample([{"kind": x["k"], "wire": x["wire"], "message": x["msg"]} for x in s])


def full(st, out):
    """The whole message."""
    if out["st"] != st["st"]:
        return "answered %s, expected %s" % (out["st"], st["st"])
    if st["st"] != "ok":
        return None
    return diff(canon(st["msg"]), canon(out["msg"]))


def consumed(st, out):
    if out["st"] != st["st"]:
        return "answered %s, expected %s" % (out["st"], st["st"])
    if (out["msg"] is not None) != (st["st"] == "ok"):
        return "answered %s but the message is %s" % (st["st"], "absent" if out["msg"] is None else "present")
    if st["st"] != "unknown" and out["read"] != st["size"]:
        return "read %d bytes of a message of %d" % (out["read"], st["size"])
    return None


def law(ctx, part, size):
    _, st = vlib.tlc_mc("CoreMC", {"Part": part, "Size": size}, invariants=["Law"],
                        seed=ctx.seed_for("law", part))
    ctx.model(st)


class Boxed(dict):
    """A session that is judged as a whole."""


def c13(ctx):
    binary = harness()
    law(ctx, "delimited", ctx.scale(60, 400))
    sessions = sessions_of(ctx, "K_all", ctx.scale(288, 3000), 100, "one")
    run(ctx, binary, sessions, consumed)
    # All of them, one after another, in one buffer.
    streams = sessions_of(ctx, "K_stream", ctx.scale(240, 3000), 60, "many")
    ins = [[{"new": 1}, {"stream": [[s["wire"], s["b"]] for s in x[1:]]}] for x in streams]

    def judge(box, outs, crash):
        sess = box["s"]
        if len(outs) < 2:
            return 1, "a stream of %s: %s" % ([s["k"] for s in sess[1:]], crash), True
        out = outs[1]
        for i, s in enumerate(sess[1:]):
            if i >= len(out["all"]):
                return 1, "the stream ended after %d of %d messages" % (i, len(sess) - 1), True
            bad = consumed(s, out["all"][i])
            if bad:
                return 1, "message %d of a stream, %s: %s" % (i + 1, s["k"], bad), True
        if out["left"]:
            return 1, "%d bytes of the stream are left" % out["left"], True
        return 2, None, False
    vlib.replay(ctx, "h_codec", binary, [Boxed(s=x) for x in streams], ins, judge,
                lambda box, steps: ctx.count("streams"))


def c14(ctx):
    binary = harness()
    law(ctx, "zones", ctx.scale(3, 6))
    law(ctx, "places", 0)
    sessions = sessions_of(ctx, "K_place", ctx.scale(288, 3000), 100, "place")

    def decide(st, out):
        if out["st"] != st["st"] or st["st"] != "ok":
            return None
        return diff(places(canon(st["msg"])), places(canon(out["msg"])))
    run(ctx, binary, sessions, decide)


def c15(ctx):
    binary = harness()
    law(ctx, "faithful", ctx.scale(60, 1000))
    run(ctx, binary, sessions_of(ctx, "K_event", ctx.scale(288, 3000), 100, "event"), full)


def c16(ctx):
    binary = harness()
    law(ctx, "query", ctx.scale(2000, 20000))
    sessions = sessions_of(ctx, "K_query", ctx.scale(120, 1500), 60, "query")
    run(ctx, binary, sessions, full)


def c17(ctx):
    binary = harness()
    law(ctx, "faithful", ctx.scale(60, 1000))
    run(ctx, binary, sessions_of(ctx, "K_request", ctx.scale(288, 3000), 100, "request"), full)


def c19(ctx):
    binary = harness()
    law(ctx, "piles", ctx.scale(4, 6))
    run(ctx, binary, sessions_of(ctx, "K_pile", ctx.scale(240, 3000), 60, "pile"), full)


def c18(ctx):
    import duel_checks
    duel_checks.duel_model(ctx, ["move", "leave", "xyz"], ctx.scale((2, 2, 5), (3, 2, 6)))
    binary = harness()
    run(ctx, binary, sessions_of(ctx, "K_move", ctx.scale(256, 3000), 120, "move"), full)


def fields(x):
    """A message given to the harness ("_" stands for no field)."""
    return {k: fields(v) for k, v in x.items() if k != "_"} if isinstance(x, dict) else x


def c21(ctx):
    binary = harness()
    _, st = vlib.tlc_mc("AnswerMC", {"Size": ctx.scale(2, 3)}, invariants=["Understood", "Offered"])
    ctx.model(st)
    jobs = [("AnswerGen", {}, ctx.scale(8, 200), 200, ctx.seed_for("answer", i)) for i in range(8)]
    sessions = [s for r in vlib.tlc_gen(jobs) for s in vlib.split_sessions(r)]

    def judge(sess, outs, crash):
        for i, s in enumerate(sess):
            about = "%s (request %s)" % (json.dumps(s["choice"]), json.dumps(s["req"]))
            if i >= len(outs):
                return i, "%s on %s" % (crash, about), True
            if outs[i]["out"] != s["out"]:
                return i, "the response to %s is %s, expected %s (the buffer held %s)" % (
                    about, outs[i]["out"], s["out"], s["before"]), True
        return len(sess), None, False

    def ok(sess, steps):
        for s in sess[:steps]:
            ctx.count(s["choice"]["k"])
    vlib.replay(ctx, "h_codec", binary, sessions,
                [[{"req": fields(s["req"]), "ans": fields(s["ans"]), "out": s["before"]} for s in x] for x in sessions],
                judge, ok)
    ctx.sample([{"choice": s["choice"], "response": s["out"]} for s in sessions[0][:4]])
