"""C22-C27, rooms, from spec/Room.tla."""
import json
import vlib
from codec_checks import canon, diff, fields


def kind(ev):
    """The kind of an event: its oneofs, down."""
    t = next(iter(ev))
    return t if t == "spectator_count" else t + "." + next(iter(ev[t] or {"": 0}))


def inp(s):
    if s["act"] == "new":
        return {"new": fields(s["o"]), "rolls": s["rolls"]}
    if s["act"] == "enter":
        return {"enter": s["by"]}
    return {"sig": fields(s["sig"]), "by": s["by"]}


def expected(s):
    """client -> events, in order"""
    box = {}
    for o in s["out"]:
        for c in o["to"]:
            box.setdefault(c, []).append(canon(o["ev"]))
    return box


def got(out):
    return {c: [canon(e) for e in evs] for c, evs in out["in"]}


def seat_of(evs):
    """Where the last event says the newcomer went."""
    e = evs[-1]
    if e.get("spectator_count"):
        return "spectator"
    d = (e.get("configuring") or {}).get("duelist_enters")
    return "nowhere" if d is None else "team %d position %d" % (d.get("team", 0), d.get("pos", 0))


def differences(s, out):
    """All the ways the real events differ: (aspect, text)."""
    want, have = expected(s), got(out)
    about = "%s by %s%s" % (s["act"], s.get("by", 1), "" if s["act"] in ("new", "enter") else " " + json.dumps(fields(s["sig"])))
    res = []
    wk = {c: [kind(e) for e in v] for c, v in want.items()}
    hk = {c: [kind(e) for e in v] for c, v in have.items()}
    if s["act"] in ("new", "enter"):
        c = s.get("by", 1)
        if c not in have:
            res.append(("seat", "%s: the newcomer was told nothing" % about))
        elif seat_of(have[c]) != seat_of(want[c]):
            res.append(("seat", "%s: went to %s, expected %s" % (about, seat_of(have[c]), seat_of(want[c]))))
    if s.get("away") and have:
        res.append(("away", "%s: had an effect: %s" % (about, json.dumps(have)[:400])))
    else:
        everyone = sorted(set(want) | set(have))
        for c in everyone:
            if wk.get(c, []) != hk.get(c, []):
                res.append(("kinds", "%s: client %d received %s, expected %s" % (about, c, hk.get(c, []), wk.get(c, []))))
                break
        else:
            for c in everyone:
                for w, h in zip(want[c], have[c]):
                    if w != h:
                        res.append(("contents:" + kind(w), "%s: what client %d was told: %s" % (about, c, diff(w, h))))
                        break
                if res and res[-1][0].startswith("contents"):
                    break
    return res


PRIVATE = ("configuring.deck_status", "deciding_first_turn.decide_first_turn")


def told_apart(s, out):
    """Room-wide announcements that did not reach everyone alike, or private
    replies that reached somebody else."""
    have = got(out)
    newcomer = s.get("by", 1) if s["act"] in ("new", "enter") else None
    seen = {}
    for c in s["all"]:
        evs = have.get(c, [])
        if c == newcomer and evs and kind(evs[0]) == "configuring.entering_state":
            evs = evs[1:]
        seen[c] = [e for e in evs if kind(e) not in PRIVATE]
    first = s["all"][0]
    for c in s["all"]:
        if seen[c] != seen[first]:
            return "after %s, client %d was told %s but client %d %s" % (
                s["act"], c, json.dumps(seen[c])[:300], first, json.dumps(seen[first])[:300])
    for c in have:
        if c not in s["all"]:
            return "after %s, client %d, who is not in the room, was told something" % (s["act"], c)
        for e in have[c]:
            if kind(e) == PRIVATE[0] and c != s.get("by"):
                return "client %d received the reply to client %s's deck" % (c, s.get("by"))
    if sum(kind(e) == PRIVATE[1] for v in have.values() for e in v) > 1:
        return "several clients were asked to choose"
    return None


def blame(prop, s, out):
    """What is wrong with this step from the property's point of view."""
    ds = differences(s, out)
    if not ds:
        return None
    aspects = {a for a, _ in ds}
    text = "; ".join(t for _, t in ds)
    act = s["act"]
    if prop == "C22":
        return text if "seat" in aspects or any(a == "contents:configuring.entering_state" and "max_duelists" in t for a, t in ds) else None
    if prop == "C23":
        apart = told_apart(s, out)
        if apart:
            return apart
        # What is announced is what is so.
        if "seat" not in aspects and any(a.startswith("contents:configuring") and "deck_status" not in a
                                         or a == "contents:spectator_count" for a in aspects):
            return text
        return text if act in ("new", "enter") and "seat" not in aspects else None
    if prop == "C24":
        return text if act in ("deck", "ready") and not s.get("away") else None
    if prop == "C25":
        if act == "start" and not s.get("away"):
            def entering(box):
                return {c: sum(kind(e) == "deciding_first_turn.entering_state" for e in v) for c, v in box.items()}
            w, h = expected(s), got(out)
            w, h = ({c: n for c, n in entering(x).items() if n} for x in (w, h))
            if w != h or (not w and got(out)):
                return text
        return None
    if prop == "C26":
        if (act == "start" or act == "choose") and not s.get("away") and s["stage"] == ("configuring" if act == "start" else "first"):
            if act == "choose":
                return text
            entered = any(kind(e) == "deciding_first_turn.entering_state" for v in got(out).values() for e in v)
            should = bool(s["out"])
            return text if entered and should else None
        return None
    if prop == "C27":
        return text if "away" in aspects else None


MODEL = {
    "C22": (["Seating", "Fair"], []),
    "C23": (["AllKnow"], []),
    "C24": (["LatestDeck"], ["BecomesReady"]),
    "C25": ([], ["Starts"]),
    "C26": ([], ["Decision"]),
    "C27": ([], ["Ignored"]),
}


def room(ctx, prop):
    binary = vlib.harness("h_room")
    inv, props = MODEL[prop]
    if prop in ("C22", "C23"):
        _, st = vlib.tlc_mc("RoomMC", {"Clients": 8, "MaxGiven": {0, 1, 2, 3, 4}, "Kinds": {"enter"}},
                            invariants=inv, properties=props, view="View")
        ctx.model(st)
    _, st = vlib.tlc_mc("RoomMC", {"Clients": ctx.scale(3, 4), "MaxGiven": {1, 2},
                                   "Kinds": {"enter", "deck", "ready", "start", "choose", "none"}},
                        invariants=inv, properties=props, view="View")
    ctx.model(st)
    jobs = [("RoomGen", {}, ctx.scale(6, 150), 1500, ctx.seed_for("room", i)) for i in range(8)]
    sessions = [s for r in vlib.tlc_gen(jobs) for s in vlib.split_sessions(r)]
    # Each history, and the same without the signals that are to be ignored.
    both = [s + ([x for x in s if not x.get("away")] if prop == "C27" else []) for s in sessions]

    def judge(sess, outs, crash):
        cut = len(sess)
        for i in range(1, len(sess)):
            if sess[i]["act"] == "new":
                cut = i
        for i, s in enumerate(sess):
            if i >= len(outs):
                return i, "%s after %s by %s" % (crash, json.dumps(inp(s)), s.get("by", 1)), True
            if differences(s, outs[i]):
                bad = blame(prop, s, outs[i])
                if bad or prop != "C27":
                    return i, bad, True
        if prop == "C27" and cut < len(sess):
            kept = [i for i in range(cut) if not sess[i].get("away")]
            for j, i in enumerate(kept):
                if cut + j < len(outs) and got(outs[i]) != got(outs[cut + j]):
                    return cut + j, "%s by %s: %s, but without the ignored signals before it: %s" % (
                        json.dumps(inp(sess[i])), sess[i].get("by", 1), json.dumps(got(outs[i]))[:300],
                        json.dumps(got(outs[cut + j]))[:300]), True
        return len(sess), None, False

    def ok(sess, steps):
        for s in sess[:steps]:
            ctx.count(("ignored " if s.get("away") else "") + s["act"] + ("" if s["out"] or s.get("away") else " without effect"))
    vlib.replay(ctx, "h_room", binary, both, [[inp(s) for s in x] for x in both], judge, ok)
    ctx.sample([{"in": inp(s), "events": s["out"]} for s in sessions[0][:3]])


def _make(p):
    return lambda ctx: room(ctx, p)


c22, c23, c24, c25, c26, c27 = (_make("C%d" % n) for n in range(22, 28))
