"""C05-C10: events on boards, going back and forth, rewindable values."""
import json
import vlib
from vlib import CheckError
from frame_checks import FULL, IdMap, harness as frame_harness

TINY = {"Ctrls": {0}, "PileLocSeq": "<- TinyPiles", "ZoneLocSeq": "<- TinyZones",
        "ZoneLim": "<- TinyZoneLim"}
OPS = {"add", "remove", "move", "swap", "resize", "splice", "pswap", "clear", "shuffle"}
REST = ("turn", "tc", "lp", "phase", "chain", "blocked")


def board_harness():
    return vlib.harness("h_board")


def norm_chain(c):
    """A chain link as reflection shows it (zero scalars left out)."""
    c = json.loads(json.dumps(c))
    if isinstance(c.get("effect"), dict):
        c["effect"] = {k: v for k, v in c["effect"].items() if v != 0}
    return c


def board_diff(ids, post, out):
    bad = ids.match(post["b"], out["b"])
    if bad:
        return bad
    for k in REST:
        e = post[k]
        if k == "chain":
            e = [norm_chain(x) for x in e]
        if e != out[k]:
            return "%s is %s, expected %s" % (k, json.dumps(out[k]), json.dumps(e))
    if out["v"]:
        return "views disagree: " + out["v"]
    return None


def same_state(a, b):
    return all(a[k] == b[k] for k in ("b", "v") + REST if k in a or k in b)


def gen(ctx, module, weights, num, depth, **consts):
    jobs = []
    consts.setdefault("ErasePct", 0)
    parts = 8 if num >= 16 else 1
    for i in range(parts):
        jobs.append((module, dict(FULL, Cap=24, Weights="<- " + weights, **consts), num // parts,
                     depth, ctx.seed_for(module, weights, i, *consts.values())))
    # Large piles, and long histories.
    for i in range(ctx.scale(2, 8)):
        jobs.append((module, dict(FULL, Cap=700, Weights="<- " + weights, **consts), 2, 30,
                     ctx.seed_for("big", module, weights, i)))
    for i in range(ctx.scale(2, 8)):
        jobs.append((module, dict(FULL, Cap=24, Weights="<- " + weights, **dict(consts, BackPct=min(3, consts["BackPct"]))), 1, 700,
                     ctx.seed_for("long", module, weights, i)))
    out = []
    for recs in vlib.tlc_gen(jobs):
        out += vlib.split_sessions(recs)
    return out


# -- C09, C10: forward ------------------------------------------------------

def judge_forward(session, outs, crash, mine):
    ids = IdMap()
    for i, st in enumerate(session):
        own = i > 0 and mine(st)
        if i >= len(outs):
            return i, ("%s on %s" % (crash, json.dumps(st.get("ev"))) if own else None), True
        bad = board_diff(ids, st["post"], outs[i])
        if bad:
            return i, ("%s after %s" % (bad, json.dumps(st.get("ev"))) if own else None), True
    return len(session), None, False


def forward_inputs(session, board):
    return [{"new": board}] + [{"ev": s["ev"]} for s in session[1:]]


def forward_check(ctx, mine, sessions):
    binary = board_harness()
    ins = [forward_inputs(s, ("plain", "undo")[i % 2]) for i, s in enumerate(sessions)]
    for i, outs, crash in vlib.run_sessions(binary, ins):
        s = sessions[i]
        steps, bad, early = judge_forward(s, outs, crash, mine)
        for st in s[1:steps]:
            if mine(st):
                ctx.count(st["kind"])
        if bad:
            one = ins[i][:steps + 1]
            again = vlib.run(binary, one)
            _, bad2, _ = judge_forward(s[:steps + 1], again.outs,
                                       again.why() if again.rc else None, mine)
            if not bad2:
                raise CheckError("not reproducible: " + bad)
            ctx.violation(bad2, "h_board", one, {"expected": s[steps]["post"]})
            if len(ctx.violations) >= 5:
                return
        elif early:
            ctx.skipped += 1
        else:
            ctx.traces()
            ctx.sample({"events": [x["ev"] for x in s[1:4]], "steps": len(s)})


SCALAR_KINDS = {"lp", "turn", "phase"}


def limbo_model(ctx):
    _, st = vlib.tlc_mc("LimboMC", dict(TINY, MaxCards=2, MaxLen=ctx.scale(3, 4),
                                        MaxSteps=ctx.scale(6, 8), Kinds=OPS),
                        invariants=["Cursor", "LogSound"])
    ctx.model(st)


def event_model(ctx):
    _, st = vlib.tlc_mc("BoardMC", dict(TINY, MaxCards=2, MaxEvents=ctx.scale(2, 3)),
                        invariants=["EventLaws"])
    ctx.model(st)


def c09(ctx):
    event_model(ctx)
    forward_check(ctx, lambda s: s["kind"] in SCALAR_KINDS,
                  gen(ctx, "BoardGen", "W_scalar", ctx.scale(320, 3000), 60, BackPct=0))


def c10(ctx):
    event_model(ctx)
    forward_check(ctx, lambda s: s["kind"] not in SCALAR_KINDS,
                  gen(ctx, "BoardGen", "W_events", ctx.scale(400, 4000), 50, BackPct=0))


# -- C05, C06: back and forth ------------------------------------------------

def history_inputs(session):
    return [{"new": "undo"}] + [{"undo" if s["act"] == "undo" else "ev": s["ev"]}
                                for s in session[1:]]


def judge_history(session, outs, crash, act):
    """act: "undo" or "redo": the steps judged. States are compared with what
    the very same board showed when it first was at that point."""
    first = {}
    ids = IdMap()
    for i, st in enumerate(session):
        own = st["act"] == act
        if i >= len(outs):
            return i, ("%s at %s of %s" % (crash, st["act"], json.dumps(st.get("ev")))
                       if own else None), True
        out = outs[i]
        if st["act"] in ("new", "ev"):
            if board_diff(ids, st["post"], out):
                return i, None, True  # not a matter of the history
            first[st["i"]] = out
        elif not same_state(first[st["i"]], out):
            f = first[st["i"]]
            diff = [k for k in ("b", "v") + REST if f[k] != out[k]]
            return i, ("after %s of %s: %s was %s, is %s" % (
                st["act"], json.dumps(st["ev"]), diff[0], json.dumps(f[diff[0]]),
                json.dumps(out[diff[0]])) if own else None), True
    return len(session), None, False


def history_check(ctx, act):
    limbo_model(ctx)
    binary = board_harness()
    sessions = gen(ctx, "BoardGen", "W_undo", ctx.scale(280, 3000), 90, BackPct=14)
    ins = [history_inputs(s) for s in sessions]
    for i, outs, crash in vlib.run_sessions(binary, ins):
        s = sessions[i]
        steps, bad, early = judge_history(s, outs, crash, act)
        for st in s[1:steps]:
            ctx.count(st["act"])
        if bad:
            one = ins[i][:steps + 1]
            again = vlib.run(binary, one)
            _, bad2, _ = judge_history(s[:steps + 1], again.outs,
                                       again.why() if again.rc else None, act)
            if not bad2:
                raise CheckError("not reproducible: " + bad)
            ctx.violation(bad2, "h_board", one, {"expected": s[steps]["post"]})
            if len(ctx.violations) >= 5:
                return
        elif early:
            ctx.skipped += 1
        else:
            ctx.traces()
            ctx.sample({"walk": [(x["act"], x["i"]) for x in s[:25]], "steps": len(s)})
    import duel_checks
    duel_checks.walks(ctx, act)


def c05(ctx):
    history_check(ctx, "undo")


def c06(ctx):
    history_check(ctx, "redo")


# -- C07: forgetting ---------------------------------------------------------

def limbo_inputs(session):
    out = [{"new": "limbo"}]
    for s in session[1:]:
        out.append({"erase": 1} if s["act"] == "erase" else
                   {"undo" if s["act"] == "undo" else "op": s["op"]})
    return out


def board_inputs(session):
    out = [{"new": "undo"}]
    for s in session[1:]:
        out.append({"erase": 1} if s["act"] == "erase" else
                   {"undo" if s["act"] == "undo" else "ev": s["ev"]})
    return out


def judge_limbo(session, outs, crash, other_bugs):
    """Judged once something was forgotten. other_bugs: (act, kind) already
    wrong before anything was forgotten, which is not this property's."""
    first = {}
    ids = IdMap()
    whole = isinstance(session[0]["post"], dict)
    forgot = False
    last = None
    for i, st in enumerate(session):
        act = st["act"]
        kind = st["op"]["k"] if "op" in st else st.get("kind", "")
        own = (forgot or act == "erase") and (act, kind) not in other_bugs
        if i >= len(outs):
            if not forgot and act != "erase":
                other_bugs.add((act, kind))
            return i, ("%s at %s" % (crash, json.dumps(st)) if own else None), True
        out = outs[i]
        bad = None
        if act == "erase":
            if st["undone"] > 0:
                forgot = True
            for k in [k for k in first if k > st["i"]]:
                del first[k]
            if not same_state(out, last) or out["v"]:
                bad = "forgetting changed the board"
        elif act in ("new", "op", "ev"):
            bad = board_diff(ids, st["post"], out) if whole else ids.match(st["post"], out["b"]) or out["v"]
            first[st["i"]] = out
        elif not same_state(first[st["i"]], out) or out["v"]:
            bad = "%s did not restore the board" % act
        if bad:
            if not forgot and act != "erase":
                other_bugs.add((act, kind))
            return i, ("%s at %s" % (bad, json.dumps({k: v for k, v in st.items() if k != "post"}))
                       if own else None), True
        last = out
    return len(session), None, False


def c07(ctx):
    limbo_model(ctx)
    forgetting(ctx, "h_frame", frame_harness(), limbo_inputs,
               gen(ctx, "LimboGen", "W_limbo", ctx.scale(280, 3000), 90, BackPct=14, ErasePct=5))
    forgetting(ctx, "h_board", board_harness(), board_inputs,
               gen(ctx, "BoardGen", "W_undo", ctx.scale(280, 3000), 90, BackPct=14, ErasePct=5))


def forgetting(ctx, name, binary, inputs, sessions):
    ins = [inputs(s) for s in sessions]
    results = list(vlib.run_sessions(binary, ins))
    other = set()
    for i, outs, crash in results:
        judge_limbo(sessions[i], outs, crash, other)
    for i, outs, crash in results:
        s = sessions[i]
        steps, bad, early = judge_limbo(s, outs, crash, other)
        for st in s[1:steps]:
            ctx.count(st["act"])
        if bad:
            one = ins[i][:steps + 1]
            again = vlib.run(binary, one)
            _, bad2, _ = judge_limbo(s[:steps + 1], again.outs, again.why() if again.rc else None,
                                     other)
            if not bad2:
                raise CheckError("not reproducible: " + bad)
            ctx.violation(bad2, name, one, {"expected": s[steps]["post"]})
            if len(ctx.violations) >= 5:
                return
        elif early:
            ctx.skipped += 1
        else:
            ctx.traces()
            ctx.sample({"walk": [(x["act"], x["i"]) for x in s[:25]], "steps": len(s)})


# -- C08: rewindable values ---------------------------------------------------

def c08(ctx):
    binary = vlib.harness("h_undo")
    recs, st = vlib.tlc_mc("Undoable", {"Vals": {0, 1, 2}, "MaxLen": ctx.scale(6, 8), "EMIT": True},
                           invariants=["TypeOK", "UndoLaw", "NewLaw", "ForgetLaw"])
    ctx.model(st)
    lists, st = vlib.tlc_mc("UndoableList", {"Elems": {0, 1}, "Lists": "<- ShortLists", "MaxLen": ctx.scale(5, 6), "EMIT": True},
                            invariants=["TypeOK"], properties=["Steps"])
    ctx.model(st)
    n = ctx.scale(30, 400)
    jobs = []
    for k in (40, 200, 900):
        for forget in (0, 8):
            jobs.append(("UndoableGen", {"Vals": {0, 1, 2, 3}, "MaxLen": k, "EMIT": False, "Longest": k // 3, "Forget": forget},
                         n, 3 * k, ctx.seed_for("u", k, forget)))
    for k in (40, 300):
        for forget in (0, 8):
            jobs.append(("UndoableListGen", {"Elems": {0, 1, 2}, "Lists": "<- LongLists", "MaxLen": k, "EMIT": False,
                                             "Longest": k // 3, "Forget": forget}, n, 3 * k, ctx.seed_for("l", k, forget)))
    long = vlib.tlc_gen(jobs)
    recs += [x for r in long[:6] for x in r]
    lists += [x for r in long[6:] for x in r]
    ins, want = [], []
    types = ("lv", "vec", "str", "int")
    for k, r in enumerate(recs):
        # Long behaviours as every type, short ones as some.
        for t in (types if len(r["tr"]) > 20 else {types[(k + ctx.seed) % 4], types[(k // 4 + ctx.seed) % 4]}):
            ins.append([{"t": t, "tr": [{"a": e["a"], "v": e["v"]} for e in r["tr"]]}])
            want.append([e["r"] for e in r["tr"]])
    for k, r in enumerate(lists):
        ins.append([{"t": ("list", "strs")[(k + ctx.seed) % 2], "tr": [{"a": e["a"], "l": e["l"]} for e in r["tr"]]}])
        want.append([e["r"] for e in r["tr"]])

    def judge(w, outs, crash):
        if not outs:
            return crash
        if outs[0]["r"] != w:
            return "reads %s, expected %s" % (outs[0]["r"], w)
        if "eq" in outs[0] and outs[0]["eq"] != [1 << v for v in w]:
            return "compares equal to (bits) %s while reading %s" % (outs[0]["eq"], w)
        return None
    for i, outs, crash in vlib.run_sessions(binary, ins):
        bad = judge(want[i], outs, crash)
        if bad:
            again = vlib.run(binary, ins[i])
            bad = judge(want[i], again.outs, again.why() if again.rc else None)
            if not bad:
                raise CheckError("not reproducible")
            ctx.violation(bad, "h_undo", ins[i], {"expected": want[i]})
            if len(ctx.violations) >= 5:
                return
        else:
            ctx.traces()
            ctx.count(ins[i][0]["t"])
    ctx.sample({"behaviour": ins[-1][0], "reads": want[-1]})
