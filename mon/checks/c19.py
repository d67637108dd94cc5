"""C19: the notifications of queued mailbox entries as a timed trace."""
import mbox

ID = "C19"
LEVEL = "exploration"
RULE = ("the histories of C18 stretched over hours (sometimes days) of virtual time, so that entries stay queued for up to dozens of notifications, with notifications and deliveries that are acknowledged late, fail or raise. "
        "Non-trivial: distinct sequences of (operation, outcome) with at least one notification")
REQUIRE = {"notifications judged": 3000, "pings judged": 150, "entries judged": 1500, "entries ended by delivery": 800, "notifications failed": 150}
ASSUMPTIONS = ["the 60 seconds are counted from when the previous notification was sent or from when its outcome was known: both are accepted",
               "a notification at the very moment of the delivery or while the delivery is in progress is accepted", "an entry pushed again while its delivery is in progress is not judged"]
PERIOD = 60
SLACK = 0.01


def plan(tier):
    return dict(cases=500000, seconds=780) if tier == "thorough" else dict(cases=6000, seconds=200)


def gen(rng, i, tier):
    return mbox.gen(rng, True, rng.choice((2, 5, 12)))


def execute(sc, mon):
    history = mbox.execute(sc, mon)
    recs = mbox.model(history, mon, False)
    unsure = {(r.handle, r.entry) for r in recs if r.maybe}
    owned = {id(b) for r in recs for b in r.beats}
    for s in history.sends:
        if s.op not in (2, 3) or (s.handle, s.entry) in unsure:
            continue
        mon.check(not s.last, "wrong-flag", "%r carries the last flag" % s)
        if s.role is not None and s.role[0] == "beat":
            mon.check(id(s) in owned, "unexpected", "%r: no such entry is or was queued" % s)
    for r in recs:
        if (r.handle, r.entry) in unsure:
            continue
        mon.count("entries judged")
        if r.delivered is not None:
            mon.count("entries ended by delivery")
        low, high = min(r.push.t0, r.since) + PERIOD, r.since + PERIOD
        end = r.delivered if r.delivered is not None else history.end
        for k, beat in enumerate(r.beats, 1):
            mon.check(beat.t0 <= end + mbox.EPS, "after-delivery", "%r was sent after the entry was delivered at %.3f" % (beat, end))
            mon.check(low - SLACK <= beat.t0 <= high + SLACK, "wrong-time", "notification %d of the entry %s (queue %d) was sent at %.3f, expected between %.3f and %.3f"
                      % (k, r.entry.hex(), r.handle, beat.t0, low, high))
            mon.check((beat.op == 3) == (k % 10 == 0), "wrong-operation", "notification %d of the entry %s (queue %d) is a %s" % (k, r.entry.hex(), r.handle, "ping" if beat.op == 3 else "waiting"))
            mon.count("pings judged" if beat.op == 3 else "notifications judged")
            if not beat.ok:
                mon.count("notifications failed")
            low = beat.t0 + PERIOD
            high = (beat.t1 if beat.t1 is not None else history.end) + PERIOD
        mon.check(high + SLACK >= end, "missing", "the entry %s (queue %d), queued at %.3f%s, got %d notifications, the next was due at %.3f"
                  % (r.entry.hex(), r.handle, r.since, "" if r.delivered is None else " and delivered at %.3f" % r.delivered, len(r.beats), high))
    if any(r.beats for r in recs):
        mon.seen([(s.op, s.handle, s.ok) for s in history.sends][:20])
