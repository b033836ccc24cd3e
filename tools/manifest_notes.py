DEFAULT_NOTE = ("Exhaustive over the small model (every reachable abstract state and call, each replayed once into the real code), plus seeded "
                "long histories with larger values whose recorded results and states TLC checks call by call; assumes the API calls used to read the state back are the ones users see.")
NA = {}
_CT = ("explicit TLA+ sequential object; histories recorded from the instrumented code under a deterministic scheduler (systematic with bounded "
       "pre-emption, and random) are decided by TLC against the specification's linearization / blocking rules")
_CN = ("Every schedule with at most the stated number of pre-emptions of small thread programs (capped), plus seeded random schedules of larger ones; each distinct "
       "history is accepted only if TLC finds an order of the calls that the specification allows. Sequentially consistent interleavings of memory accesses only (no weak memory).")
_BT = "explicit TLA+ state machine checked with TLC, model transitions replayed into the code and recorded traces validated; concurrent histories from a deterministic scheduler decided by TLC"
_BN = "Sequential part: exhaustive small model replayed, seeded histories validated. Concurrent part: schedules with bounded pre-emption and random ones, every distinct history decided by TLC."
NOTES = {p: dict(technique=_CT, level_note=_CN) for p in ("C07", "C08", "C09", "C10", "C13")}
NOTES.update({p: dict(technique=_BT, level_note=_BN) for p in ("C22", "C23")})
