"""C01-C04: the operations of the client's frame (spec/Frame.tla)."""
import json
import vlib
from vlib import CheckError

FULL = {"Ctrls": {0, 1}, "PileLocSeq": "<- FullPiles", "ZoneLocSeq": "<- FullZones",
        "ZoneLim": "<- FullZoneLim"}
SMALL = {"Ctrls": {0, 1}, "PileLocSeq": "<- SmallPiles", "ZoneLocSeq": "<- SmallZones",
         "ZoneLim": "<- SmallZoneLim"}
ALL = {"add", "remove", "move", "swap", "shuffle", "resize", "splice", "pswap", "clear"}
CONSERVING = {"move", "swap", "shuffle", "splice", "pswap"}
PILES = [1, 2, 16, 32, 64]
ROWS = {4: 7, 8: 5, 512: 2}
ZONES = {4: 7, 8: 5, 256: 1, 512: 2, 1024: 1}


def harness():
    return vlib.harness("h_frame")


class IdMap:
    """The bijection between identities of the model and of the code."""

    def __init__(self):
        self.to_real = {}
        self.real = set()

    def match(self, expected, got):
        """expected, got: [[con,loc,seq,oseq,id]..]; None or a difference."""
        e = {tuple(x[:4]): x[4] for x in expected}
        g = {tuple(x[:4]): x[4] for x in got}
        if len(g) != len(got):
            return "a place is listed twice"
        if e.keys() != g.keys():
            return "cards expected at %s, found at %s" % (
                sorted(e.keys() - g.keys()), sorted(g.keys() - e.keys()))
        new = {}
        for p, i in e.items():
            r = g[p]
            want = self.to_real.get(i, new.get(i))
            if want is None:
                if r in self.real or r in new.values():
                    return "at %s a new card was expected, found card %s" % (list(p), r)
                new[i] = r
            elif want != r:
                return "at %s card %s was expected, found card %s" % (list(p), want, r)
        self.to_real.update(new)
        self.real.update(new.values())
        return None


def conservation(kind, before, out, basic):
    """C01: what must hold whatever the places are."""
    after = [x[4] for x in out["b"]]
    if out["v"]:
        return "views disagree: " + out["v"]
    if len(set(after)) != len(after):
        return "a card is in two places"
    if basic and out["live"] != len(after):
        return "%d cards exist but %d are on the board" % (out["live"], len(after))
    if not out["r"]:
        return "the returned card is not the one at the place"
    a, b = set(after), set(before)
    if kind in CONSERVING and a != b:
        return "%s changed which cards exist: lost %s, new %s" % (kind, sorted(b - a), sorted(a - b))
    if kind == "add" and not (b < a and len(a) == len(b) + 1):
        return "add did not add exactly one card"
    if kind == "remove" and not (a < b and len(a) == len(b) - 1):
        return "remove did not remove exactly one card"
    if kind == "resize" and not (a <= b or b <= a):
        return "resize both added and dropped cards"
    if kind == "clear" and a:
        return "clear left cards"
    return None


# -- random full-size sessions ---------------------------------------------

def gen_sessions(ctx, plan):
    """plan: [(weights, total sessions, depth)]"""
    jobs = []
    big = plan[0][0]
    for i in range(ctx.scale(2, 8)):
        jobs.append(("FrameGen", dict(FULL, Cap=2500, Big=True, Weights="<- " + big), 2, 25,
                     ctx.seed_for("big", big, i)))
    if any(w == "W_clear" for w, _, _ in plan):
        for i in range(ctx.scale(2, 8)):
            jobs.append(("FrameGen", dict(FULL, Cap=2500, Big=True, Weights="<- W_wipe"), 10, 6,
                         ctx.seed_for("wipe", i)))
    for w, num, depth in plan:
        parts = 4 if num >= 8 else 1
        for i in range(parts):
            jobs.append(("FrameGen", dict(FULL, Cap=24, Big=False, Weights="<- " + w), num // parts, depth,
                         ctx.seed_for("gen", w, i)))
    out = []
    for recs in vlib.tlc_gen(jobs):
        out += vlib.split_sessions(recs)
    return out


def judge_session(session, outs, crash, kinds, conserve, basic):
    """Returns (steps validated, violation text or None, left_early)."""
    ids = IdMap()
    before = []
    for i, step in enumerate(session):
        if i == 0:
            if i < len(outs) and "leak" in outs[0]:
                return 0, ("cards are alive after the board is gone" if conserve else None), True
            if step["op"]["pre"]:
                if i >= len(outs) or ids.match(step["post"], outs[0]["b"]):
                    return 0, ("setting up a large board went wrong" if conserve or "add" in kinds else None), True
                before = [x[4] for x in outs[0]["b"]]
            continue
        kind = step["op"]["k"]
        own = conserve or kind in kinds
        if i >= len(outs):
            return i, ("%s on %s" % (crash, json.dumps(step["op"])) if own else None), True
        out = outs[i]
        if conserve:
            bad = conservation(kind, before, out, basic)
            if bad:
                return i, "%s at %s" % (bad, json.dumps(step["op"])), True
        bad = ids.match(step["post"], out["b"])
        if bad:
            return i, ("%s after %s" % (bad, json.dumps(step["op"]))
                       if kind in kinds and not conserve else None), True
        before = [x[4] for x in out["b"]]
    return len(session), None, False


def inputs_of(session, frame):
    return [dict({"new": frame}, pre=session[0]["op"]["pre"])] + [{"op": s["op"]} for s in session[1:]]


def replay_sessions(ctx, binary, sessions, kinds, conserve):
    tagged = [(s, ("basic", "limbo")[i % 2]) for i, s in enumerate(sessions)]
    ins = [inputs_of(s, f) for s, f in tagged]
    for i, outs, crash in vlib.run_sessions(binary, ins):
        s, f = tagged[i]
        steps, bad, early = judge_session(s, outs, crash, kinds, conserve, f == "basic")
        for st in s[1:steps]:
            ctx.count(st["op"]["k"])
        if bad:
            one = ins[i][:steps + 1]
            again = vlib.run(binary, one)
            _, bad2, _ = judge_session(s[:steps + 1], again.outs, again.why() if again.rc else None,
                                       kinds, conserve, f == "basic")
            if not bad2:
                raise CheckError("not reproducible: " + bad)
            ctx.violation(bad2, "h_frame", one, {"expected": [x["post"] for x in s[:steps + 1]][-1]})
            if len(ctx.violations) >= 5:
                return
        elif early:
            ctx.skipped += 1
        else:
            ctx.traces()
            ctx.sample({"frame": f, "ops": [x["op"] for x in s[1:6]], "steps": len(s)})


# -- every transition of the small model, at random real places -------------

def concretise(rng, rec, swap_rows):
    """Map the places of the small model to random distinct real places."""
    keep = rng.random() < 0.5
    cons = [0, 1] if keep else [1, 0]
    pl = rng.sample([(c, l) for c in (0, 1) for l in PILES], 4)
    pmap = {(c, l): pl[k] for k, (c, l) in enumerate([(0, 1), (0, 16), (1, 1), (1, 16)])}
    rows = rng.sample([(c, l) for c in (0, 1) for l in ROWS], 2)
    zmap = {}
    used = set()
    for c in (0, 1):
        rc, rl = rows[c]
        seqs = rng.sample(range(ROWS[rl]), 2)
        for s in (0, 1):
            zmap[(c, 4, s)] = (rc, rl, seqs[s])
            used.add((rc, rl, seqs[s]))
    rest = [(c, l, s) for c in (0, 1) for l, n in ZONES.items() for s in range(n)
            if (c, l, s) not in used]
    for c, z in zip((0, 1), rng.sample(rest, 2)):
        zmap[(c, 8, 0)] = z

    def m(p):
        if p[1] == 0:
            return list(p)
        if p[1] in (1, 16):
            c, l = pmap[(p[0], p[1])]
            return [c, l, p[2], p[3]]
        return list(zmap[(p[0], p[1], p[2])]) + [p[3]]

    op = dict(rec["op"])
    for k in ("a", "b"):
        if k in op:
            op[k] = m(op[k])
    for k in ("prev", "cur"):
        if k in op:
            op[k] = [m(p) for p in op[k]]
    pre = [m(x[:4]) + [x[4]] for x in rec["pre"]]
    post = [m(x[:4]) + [x[4]] for x in rec["post"]]
    return pre, op, post


def judge_transition(pre, op, post, outs, crash, conserve, basic):
    if len(outs) == 0:
        return ("%s setting up %s" % (crash, pre), False)
    ids = IdMap()
    bad = ids.match(pre, outs[0]["b"])
    if bad:
        return ("setting up: " + bad, False)
    if len(outs) == 1:
        return ("%s on %s" % (crash, json.dumps(op)), True)
    if conserve:
        bad = conservation(op["k"], [x[4] for x in outs[0]["b"]], outs[1], basic)
    else:
        bad = ids.match(post, outs[1]["b"])
    return ("%s after %s on %s" % (bad, json.dumps(op), pre) if bad else None, True)


def replay_transitions(ctx, binary, recs, kinds, conserve):
    ins, cases = [], []
    for k, r in enumerate(recs):
        pre, op, post = concretise(ctx.rng, r, None)
        frame = "basic" if (k + ctx.seed) % 2 else "limbo"
        cases.append((pre, op, post, frame))
        ins.append([{"new": frame, "pre": [p[:4] for p in pre]}, {"op": op}])
    for i, outs, crash in vlib.run_sessions(binary, ins):
        pre, op, post, frame = cases[i]
        bad, own = judge_transition(pre, op, post, outs, crash, conserve, frame == "basic")
        # Setting up uses card_add only.
        if bad and (own or conserve or "add" in kinds):
            again = vlib.run(binary, ins[i])
            bad2, _ = judge_transition(pre, op, post, again.outs,
                                       again.why() if again.rc else None, conserve,
                                       frame == "basic")
            if not bad2:
                raise CheckError("not reproducible: " + bad)
            ctx.violation(bad2, "h_frame", ins[i], {"pre": pre, "expected": post})
            if len(ctx.violations) >= 5:
                return
        elif bad:
            ctx.skipped += 1
        else:
            ctx.traces()
            ctx.count("mc:" + op["k"])
    ctx.sample({"pre": cases[-1][0], "op": cases[-1][1], "post": cases[-1][2]})


def model_transitions(ctx, kinds, max_cards):
    """Exhaustive exploration with the laws checked, then the transitions of
    the wanted kinds from every reachable state."""
    inv = ["InvSinglePlace", "Laws"]
    recs, st = vlib.tlc_mc("FrameMC", dict(SMALL, MaxCards=max_cards, Kinds=ALL,
                                           EmitKinds=set(kinds)),
                           invariants=inv, view="View")
    ctx.model(st)
    return recs


def frame_check(ctx, kinds, conserve, plan, cap):
    binary = harness()
    recs = model_transitions(ctx, kinds, 3)
    n = len(recs)
    if n > cap:
        recs = [recs[i] for i in sorted(ctx.rng.sample(range(n), cap))]
    ctx.count("model transitions of these kinds", n)
    replay_transitions(ctx, binary, recs, kinds, conserve)
    if len(ctx.violations) >= 5:
        return
    replay_sessions(ctx, binary, gen_sessions(ctx, plan), kinds, conserve)
    ctx.assumptions = ["operations are well formed (Frame.tla WF...): callers name occupied places,"
                       " free destinations and indices within piles"]


def c01(ctx):
    k = ctx.scale(1, 12)
    frame_check(ctx, ALL, True, [("W_all", 64 * k, 60), ("W_clear", 24 * k, 40)],
                ctx.scale(15000, 10**9))


def c02(ctx):
    k = ctx.scale(1, 12)
    frame_check(ctx, {"add", "remove", "move"}, False, [("W_move", 64 * k, 70), ("W_all", 24 * k, 50)],
                ctx.scale(20000, 10**9))


def c03(ctx):
    k = ctx.scale(1, 12)
    frame_check(ctx, {"swap", "shuffle"}, False, [("W_swap", 80 * k, 70), ("W_all", 16 * k, 50)],
                ctx.scale(20000, 10**9))


def c04(ctx):
    k = ctx.scale(1, 12)
    frame_check(ctx, {"resize", "splice", "pswap", "clear"}, False,
                [("W_pile", 64 * k, 70), ("W_clear", 24 * k, 40)], ctx.scale(20000, 10**9))
