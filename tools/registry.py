"""property -> (module, function, level)"""
CHECKS = {
    "C01": ("frame_checks", "c01", "model_checking"),
    "C02": ("frame_checks", "c02", "model_checking"),
    "C03": ("frame_checks", "c03", "model_checking"),
    "C04": ("frame_checks", "c04", "model_checking"),
    "C05": ("hist_checks", "c05", "model_checking"),
    "C06": ("hist_checks", "c06", "model_checking"),
    "C07": ("hist_checks", "c07", "model_checking"),
    "C08": ("hist_checks", "c08", "model_checking"),
    "C09": ("hist_checks", "c09", "model_checking"),
    "C10": ("hist_checks", "c10", "model_checking"),
    "C11": ("track_checks", "c11", "model_checking"),
    "C12": ("track_checks", "c12", "model_checking"),
    "C13": ("codec_checks", "c13", "model_checking"),
    "C14": ("codec_checks", "c14", "model_checking"),
    "C15": ("codec_checks", "c15", "model_checking"),
    "C16": ("codec_checks", "c16", "model_checking"),
    "C17": ("codec_checks", "c17", "model_checking"),
    "C18": ("codec_checks", "c18", "model_checking"),
    "C19": ("codec_checks", "c19", "model_checking"),
}

CHECKS["C21"] = ("codec_checks", "c21", "model_checking")
CHECKS["C28"] = ("basic_checks", "c28", "model_checking")
CHECKS["C29"] = ("basic_checks", "c29", "model_checking")
for _p in ("C22", "C23", "C24", "C25", "C26", "C27"):
    CHECKS[_p] = ("room_checks", _p.lower(), "model_checking")
CHECKS["C20"] = ("duel_checks", "c20", "model_checking")
CHECKS["C30"] = ("duel_checks", "c30", "model_checking")
NOT_APPLICABLE = {}

_FRAME = ("TLA+ model of the board checked exhaustively by TLC; its transitions and random behaviours "
          "replayed in the real frames")
_FRAME_NOTE = ("Laws hold on every reachable state and transition of a small board (TLC, complete); the real "
               "BasicFrame/LimboFrame agree with the model on those transitions (at random real places) and on "
               "random full-size sessions. Trusts the model's reading of the operations and the replay harness; "
               "the real code is sampled, not proved.")
NOTES = {p: (_FRAME, _FRAME_NOTE) for p in ("C01", "C02", "C03", "C04")}

_HIST = ("TLA+ model of the rewindable frame's operation log checked by TLC to refine a cursor over past boards; "
         "random back-and-forth behaviours of the model replayed in the real code")
for _p in ("C05", "C06", "C07"):
    NOTES[_p] = (_HIST, "The log design refines the cursor for every behaviour within small bounds (TLC, complete); the "
                 "real LimboFrame/BasicUndoable board is compared, identity by identity, with its own earlier states on "
                 "random full-size walks. The real code is sampled.")
NOTES["C08"] = ("TLA+ cursor model; every behaviour up to a length, enumerated by TLC, replayed in BasicUndoable",
                "Complete for behaviours up to the length bound over three values, for int, vector, string and list values; "
                "longer behaviours (up to 900 steps) are sampled.")
for _p in ("C09", "C10"):
    NOTES[_p] = ("TLA+ model of event application, its laws checked by TLC; random event sequences of the model "
                 "replayed in parse_event and compared state by state",
                 "Event laws hold on every reachable small state (TLC, complete within the bound); the real parse_event "
                 "agrees with the model on random full-size sequences. The real code is sampled.")

NOTES["C11"] = ("TLA+ model of queries, laws checked by TLC; random query sequences of the model replayed in parse_query",
                "Laws hold on every reachable state of a few fields (TLC, complete); the real parse_query, with and "
                "without caching, on plain and rewindable cards, agrees with the model on random sequences over all fields.")
NOTES["C12"] = ("TLA+ model of the encoding context, invariants checked by TLC; random behaviours replayed in the real "
                "BasicEncodeContext",
                "Invariants hold for every behaviour up to the step bound (TLC, complete); the real context agrees with the "
                "model on random full-size behaviours mixing events with what the encoder remembers.")

_CORE = ("TLA+ model of the engine's messages (wire format and translation), its laws checked by TLC; random messages of "
         "the model, as bytes, replayed in the real encoder")
_CORE_NOTE = ("The laws hold on every case of the bounded case set (TLC; case sets of random messages are samples); the real "
              "encoder agrees with the model on random messages with extreme values, in memory of the message's exact size. "
              "Trusts the model's reading of the engine's format, which no engine is here to confirm.")
for _p in ("C13", "C14", "C15", "C16", "C17", "C18", "C19"):
    NOTES[_p] = (_CORE, _CORE_NOTE)
NOTES["C21"] = ("TLA+ model of answers and of the engine's reading of them, checked by TLC; random answers replayed in the "
                "real serializer",
                "The engine's reading recovers every choice of the case set (TLC, complete); the real serializer agrees with "
                "the model on random choices with extreme values. Trusts the model's reading of the engine's format.")
NOTES["C28"] = ("TLA+ model of choosing bits, its laws checked by TLC; every 8 bit case and random cases of every width replayed "
                "in the real helpers",
                "Complete for 8 bit values and counts 0..9 (model and code); wider types are compared on random and extreme values.")
NOTES["C29"] = ("TLA+ model of the order of places, its laws checked by TLC; the model's pairs and random lists replayed in the "
                "real comparison",
                "The order's laws hold on all triples of a small domain with extreme values (TLC, complete); the real comparison "
                "agrees with the model on all pairs of such a domain and on random ones; all location values are covered.")
for _p in ("C22", "C23", "C24", "C25", "C26", "C27"):
    NOTES[_p] = ("TLA+ model of rooms, its laws checked by TLC; random histories of the model replayed in the real room and "
                 "every inbox compared",
                 "The laws hold on every history of a room of up to 3 clients (all signals; 8 clients for entering alone) "
                 "(TLC, complete); the real BasicRoom agrees with the model on random histories of up to 9 clients, with a "
                 "scripted deck validator and random number generator. The real code is sampled.")
NOTES["C20"] = ("TLA+ model of the engine's field, its message sequences and the client; TLC checks the induction step; random "
                "duels replayed in the real encoder, context and clients",
                "From every small settled field, every action's message sequence brings the model's client to the engine's "
                "next field (TLC, complete within the stated pile and material bounds); the real pipeline agrees with the "
                "model's field after every action of random duels. Trusts the model's reading of which messages the engine "
                "sends for an action. Excluded actions are listed in DESIGN.md.")
NOTES["C30"] = ("TLA+ model of the engine's field and of what it tells of cards; TLC checks that no action loses or moves what was "
                "told; random duels with queries replayed in the real encoder, context and clients",
                "From every small settled field with something known of every other card, every action leaves the model's client "
                "knowing of each card exactly what was told of it (TLC, complete within the stated bounds); the real pipeline "
                "shows the model's knowledge of every card after every action of random duels, for a plain and a rewindable "
                "client (and after looking back). The real code is sampled; field values are 32 bit samples.")
