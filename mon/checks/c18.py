"""C18: mailbox queues against a model of the accepted entries."""
import mbox

ID = "C18"
LEVEL = "exploration"
RULE = ("histories of pushes (repeated and simultaneous ones), wake-ups, acknowledgements with and without queue handle and unrelated mailbox commands over 1-3 (sometimes up to 40) queues, with sends that succeed late, fail, "
        "raise or are queued, behind a stand-in adapter and behind the real gateway; all queues are drained at the end; a quarter of them start with the configuration of the mailbox. Non-trivial: distinct sequences of commands sent")
REQUIRE = {"pushes": 1500, "pops judged": 2500, "entries queued": 900, "entries delivered": 900, "deliveries failed": 60, "empty answers": 500, "duplicates pushed": 120, "entries not accepted": 80,
           "acknowledgements without queue": 120, "initialized": 1500}
ASSUMPTIONS = ["one gateway uses the mailbox", "entries have distinct checksums (equal checksums count as identical by the protocol)", "the order of simultaneous events is not judged",
               "an entry pushed again while its delivery is in progress may be queued or not"]


def plan(tier):
    return dict(cases=500000, seconds=780) if tier == "thorough" else dict(cases=20000, seconds=200)


def gen(rng, i, tier):
    sc = mbox.gen(rng, False, rng.choice((4, 8, 20)))
    sc["init"] = mbox.gen_init(rng) if rng.random() < 0.25 else None
    return sc


def execute(sc, mon):
    history = mbox.execute(sc, mon)
    mbox.model(history, mon, True)
    mon.seen([(s.op, s.handle, s.last, bool(s.entry), s.ok) for s in history.sends][:14])
