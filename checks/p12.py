"""P12: the stored backlog, driven through the library over histories longer than the snapshot interval."""
import os
import core, drv, e2e, ircsim
from drv import un

ID = "P12"
TECHNIQUE = "runtime offline checker: ranges of the stored backlog and reconstructed states of the sanitized storage code compared with the recorded history"
LEVEL = "exploration"
LEVEL_NOTE = ("Histories of up to some thousand lines crossing several snapshots are stored by the real code; replays between random markers, restricted "
              "and unrestricted, and reconstructed states are compared with what was recorded when the lines were stored; bounded by the generated histories.")
RULE = "one evaluation per replayed range or reconstructed state compared; distinct = (kind, feature set, size bucket, snapshots crossed, boundary) combinations"
ASSUMPTIONS = ["the state may lack what was only told by lines that are not kept (user modes at login, fetched lists, WHO data, away)",
               "a topic's time is that of the replay if the server gave none"]
prepare = drv.prepare
KEPT = {b"NICK", b"JOIN", b"QUIT", b"PART", b"PRIVMSG", b"NOTICE", b"KICK", b"MODE", b"TOPIC", b"353", b"366", b"331", b"333", b"332", b"324", b"329"}
INTERVAL = 1000


def cases(tier, seed):
    n, steps = (48, 2800) if tier == "quick" else (240, 9000)
    return [{"seed": seed * 7919 + i, "steps": steps if i % 3 else 300, "feat": i % len(ircsim.FEATURES), "users": [8, 30, 60][i % 3]} for i in range(n)]


def kept(args, own):
    c = args[0].upper()
    if c not in KEPT or (own and c not in (b"PRIVMSG", b"NOTICE")):
        return False
    if c in (b"PRIVMSG", b"NOTICE") and len(args) > 2 and args[2][:1] == b"\1" and args[2][:7].upper() != b"\1ACTION":
        return False
    return True


def picture(d, exact, fold):
    """The comparable part of a dumped state."""
    out = {"nick": un(d["me"]["nick"]), "bad": d["bad"], "chans": {}}
    for c in d["chans"]:
        lists = {k: [(un(e[0]), un(e[1]) if exact else None) for e in v["e"]] for k, v in c["lists"].items()}
        out["chans"][un(c["name"])] = {
            "topic": un(c["topic"]), "by": un(c["topic_by"]), "created": c["created"], "vis": c["vis"],
            "modes": un(c["modes"]), "params": {k: un(v) for k, v in c["params"].items()}, "known": c["known"], "netok": c["netok"],
            "members": sorted((un(m[0]) if exact else fold(un(m[0])), un(m[1])) for m in c["members"]), "lists": lists if exact else None, "when": c["topic_time"] if exact else None}
    if exact:
        out["away"] = d["away"]
        out["me"] = {k: v for k, v in d["me"].items()}
        out["nicks"] = sorted((un(n["nick"]), un(n["mask"]), un(n["real"]), un(n["modes"]), n["query"], n["nch"]) for n in d["nicks"])
    return out


def special(r, sim):
    """Messages of unusual shape."""
    u = r.choice(sim.users)
    target = r.choice([c.name for c in sim.mine()] or [sim.me.nick])
    if r.random() < .3:
        target = sim.casevar(target)
    if r.random() < .1:
        target = b",".join([target, r.choice([b"#other", b"bob"])])
    elif r.random() < .1:
        some = [b"#other", b"bob", b"", b"#x", target + b"x", b"#"] + [c.name for c in sim.mine()] + [u.nick for u in sim.users[:3]]
        some = [r.choice(some) for _ in range(r.randrange(2, 9))]
        some.insert(r.randrange(len(some) + 1), target)
        target = b",".join(some)
    text = r.choice([b"", b" ", b":", b"x " * r.randrange(1, 200), "a\u2029b\u2028c".encode(), b"\x85\xff\xfe", b"tab\there", b"\1ACTION waves\1", b"\1ACTION\1", b"\1action waves\1", b"\1ACTION", b"\1VERSION\1", b"\1ACTIVE x\1",
                     b"\1PING 1 2\1", b"\x1b\x0b\x0c", b"  two", b"x" * r.randrange(1, 420), b"%s%n", bytes(r.choice(range(1, 256)) for _ in range(40))])
    text = text.replace(b"\n", b"").replace(b"\r", b"")
    return u, r.choice([b"PRIVMSG", b"NOTICE", b"privmsg"]), target, text


def run_case(case, cov):
    r = core.case_rng(case)
    sim = ircsim.Sim(r, ircsim.FEATURES[case["feat"]], nusers=case["users"], nchans=r.choice([3, 8]))
    hist = []           # (time, origin, args) of every kept line
    marks = {}          # position -> picture of the state there, exact picture
    now = 1700000000
    with drv.Drv() as p:
        p.tell("new", b"me".hex(), b"user".hex(), b"real.host".hex())
        for l in sim.welcome():
            p.tell("feed", l.hex())
        if r.random() < .3:
            for _ in range(50):
                for l in sim.event():
                    p.tell("feed", l.hex())
        d0 = os.path.join(p.dir, "ls")
        if p.ask("lsopen", d0.encode().hex(), "1") != 1:
            raise core.Violation("backlog:create", "the backlog could not be created")

        def mark():
            n = p.ask("lsmark")
            if n != len(hist):
                raise core.Violation("backlog:count", "%d lines were stored, the marker says %d; last %r" % (len(hist), n, hist[-3:]))
            d = p.ask("dump")
            if n == 0 and n in marks:
                return
            marks[n] = (picture(d, False, sim.fold), picture(d, True, sim.fold))

        def feed(l, own=False):
            o, a = e2e.parse_line(l)
            p.tell("say" if own else "feed", l.hex())
            if a and kept(a, own):
                hist.append((now, o, a))
                cov.ev("lines kept")
                if len(hist) % INTERVAL == 0 or len(hist) == 1:
                    mark()
                    if len(hist) > 1:
                        state(len(hist), exact=True)
            else:
                cov.ev("lines not kept")

        def parsed(e):
            return e[0], un(e[1]["o"]), [un(x) for x in e[1]["a"]]

        def get():
            n = len(hist)
            a = r.choice([0, n, r.randrange(n + 1), max(0, n - r.randrange(30)), r.choice(list(marks) or [0])])
            b = r.choice([n, n, r.randrange(a, n + 1) if a <= n else n, min(n, a + r.randrange(30))])
            if n > 400 and b - a > 400 and r.random() < .8:
                a = b - r.randrange(400)
            obj = None
            want = hist[a:b]
            if r.random() < .4:
                obj = r.choice(sim.channames)
                if r.random() < .4:
                    obj = obj.upper() if r.random() < .5 else obj.lower()
                want = [h for h in want if len(h[2]) > 1 and obj.lower() in h[2][1].lower().split(b",")]
            got = p.ask("lsget", "-" if a == 0 and r.random() < .5 else str(a), "-" if b == n and r.random() < .5 else str(b), obj.hex() if obj else "-")
            g = [parsed(e) for e in got["l"]]
            if g != want or not got["r"]:
                k = next((i for i, (x, y) in enumerate(zip(g, want)) if x != y), min(len(g), len(want)))
                raise core.Violation("backlog:%s" % ("object" if obj else "range"), "from %d to %d of %d, restricted to %r: %d lines for %d; at %d: got %r, stored %r" % (
                    a, b, n, obj, len(g), len(want), k, g[k:k + 2], want[k:k + 2]))
            cov.ev("lines replayed", len(g))
            cov.judge(("object" if obj else "range", case["feat"], len(g).bit_length(), b // INTERVAL - a // INTERVAL, b == n))

        def state(n, exact=False):
            exact = exact or n == 0
            got = p.ask("lsstate", "-" if exact and n or n == len(hist) and r.random() < .5 else str(n))
            if got is None:
                raise core.Violation("backlog:state unreadable", "no state at %d of %d" % (n, len(hist)))
            g, w = picture(got, exact, sim.fold), marks[n][1 if exact else 0]
            if g != w:
                def diff(x, y):
                    if isinstance(x, dict) and isinstance(y, dict):
                        return {k: diff(x.get(k), y.get(k)) for k in set(x) | set(y) if x.get(k) != y.get(k)}
                    if isinstance(x, list) and isinstance(y, list):
                        return [i for i in x if i not in y][:5], [i for i in y if i not in x][:5]
                    return x, y
                raise core.Violation("backlog:state", "state at line %d of %d (%s): reconstructed, then: %r\nlines before: %r" % (
                    n, len(hist), "snapshot" if exact else "snapshot and replay", diff(g, w), hist[max(0, n - 6):n]))
            cov.ev("states reconstructed")
            if exact:
                cov.ev("states at a snapshot")
            cov.judge(("state", case["feat"], n // INTERVAL, n % INTERVAL // 100, len(g["chans"]), exact))
        mark()
        for i in range(case["steps"]):
            if r.random() < .3:
                now += r.choice([0, 1, 60, 100000])
                p.tell("now", str(now))
            for l in sim.event():
                if l.split(b" ", 2)[1:2] not in ([b"221"],):
                    feed(l)
            if r.random() < .15:
                u, c, t, x = special(r, sim)
                feed(sim.line(u.mask, c, t, x))
            if r.random() < .1:
                u, c, t, x = special(r, sim)
                feed(sim.line(sim.me.mask, r.choice([c, c, b"JOIN", b"MODE"]), t, x), own=True)
            if r.random() < .015:
                mark()
            if r.random() < .02:
                get()
            if marks and r.random() < .01:
                state(r.choice(list(marks)))
        mark()
        for _ in range(20):
            get()
        pick = [n for n in marks if n % INTERVAL == 0 or n % INTERVAL in (1, 999)] + [r.choice(list(marks)) for _ in range(8)] + [len(hist)]
        for n in dict.fromkeys(pick):
            state(n)
        cov.sample("%d lines kept, %d states recorded, feature set %d" % (len(hist), len(marks), case["feat"]))
        # a new connection starts with nothing
        if r.random() < .3:
            p.ask("lsopen", d0.encode().hex(), "1")
            if p.ask("lsmark") != 0 or p.ask("lsget", "-", "-", "-")["l"]:
                raise core.Violation("backlog:restart", "lines of the previous connection were kept")
            hist.clear()
            marks.clear()
            mark()
            state(0)
            for _ in range(30):
                for l in sim.event():
                    if l.split(b" ", 2)[1:2] not in ([b"221"],):
                        feed(l)
            mark()
            get()
            state(len(hist))
            cov.ev("new connections")
