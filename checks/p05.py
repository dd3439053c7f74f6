"""P05: the proxy's own picture of the network against an independent tracker."""
import random
import core, drv, e2e, ircsim, irctrack
from drv import un

ID = "P05"
TECHNIQUE = "runtime state monitor: sanitized state tracker compared after every event with an independent online model over simulated networks"
LEVEL = "exploration"
LEVEL_NOTE = ("After every event of randomized protocol-conforming histories the complete table of channels, members, statuses, topics, modes, "
              "lists, own nick and user modes is compared with an independent model; bounded by the generated histories and feature sets.")
RULE = ("one evaluation per comparison of the complete state after one event; distinct = (event kind, feature set, "
        "bucketed number of channels and members) combinations compared")
ASSUMPTIONS = ["servers conform to the protocol (P01 covers those that do not)", "NAMES replies are contiguous"]
prepare = drv.prepare


def cases(tier, seed):
    n, steps = (300, 300) if tier == "quick" else (1800, 1600)
    return [{"seed": seed * 7001 + i, "steps": steps, "feat": i % len(ircsim.FEATURES), "users": [6, 12, 40][i % 3]} for i in range(n)]


def compare(d, t, key, ctx):
    """Raise unless dump d of the proxy's state equals tracker t."""
    def bad(what, got, want):
        raise core.Violation("%s:%s" % (key, what), "%s: proxy has %r, the server said %r\n%s" % (what, got, want, ctx()))
    if d["bad"]:
        bad("consistency", d["bad"], 0)
    if un(d["me"]["nick"]) != t.me:
        bad("own nick", un(d["me"]["nick"]), t.me)
    um = {bytes([x]) for x in un(d["me"]["modes"])}
    if um != t.umodes:
        bad("own modes", um, t.umodes)
    if bool(d["away"]) != t.away:
        bad("away", d["away"], t.away)
    got = {}
    for c in d["chans"]:
        f = t.f.fold(un(c["name"]))
        if f in got:
            bad("channel twice", un(c["name"]), None)
        got[f] = c
    if set(got) != set(t.chans):
        bad("channels", sorted(got), sorted(t.chans))
    seen = {}
    for n in d["nicks"]:
        f = t.f.fold(un(n["nick"]))
        if f in seen or f == t.f.fold(t.me):
            bad("nick twice", un(n["nick"]), None)
        seen[f] = n
        if un(n["mask"]) is not None and n["user"] is not None and n["host"] is not None and \
                un(n["mask"]) != un(n["nick"]) + b"!" + un(n["user"]) + b"@" + un(n["host"]):
            bad("hostmask", un(n["mask"]), un(n["nick"]) + b"!" + un(n["user"]) + b"@" + un(n["host"]))
    for f, tc in t.chans.items():
        c = got[f]
        if not c["netok"]:
            bad("channel network", 0, 1)
        mem = {}
        for nick, modes in c["members"]:
            fn = t.f.fold(un(nick))
            if fn in mem:
                bad("member twice", un(nick), None)
            mem[fn] = {bytes([x]) for x in un(modes)}
            if fn != t.f.fold(t.me):
                if fn not in t.listed and t.nicks.get(fn) not in (None, un(nick)):
                    bad("nick spelling", un(nick), t.nicks[fn])
                if fn in t.masks and fn in seen and (seen[fn]["user"] is not None or seen[fn]["host"] is not None):
                    uh = t.masks[fn]
                    if (un(seen[fn]["user"]) or b"") + b"@" + (un(seen[fn]["host"]) or b"") != uh:
                        bad("user@host of %r" % fn, (seen[fn]["user"] and un(seen[fn]["user"]), seen[fn]["host"] and un(seen[fn]["host"])), uh)
        if mem != tc.members:
            diff = {k: (mem.get(k), tc.members.get(k)) for k in set(mem) | set(tc.members) if mem.get(k) != tc.members.get(k)}
            bad("members", "of %r: %r" % (tc.name, diff), "(proxy, server)")
        if (un(c["topic"]) or None) != tc.topic:
            bad("topic", un(c["topic"]), tc.topic)
        if tc.topic is not None and tc.topic_by is not None and un(c["topic_by"]) != tc.topic_by:
            bad("topic setter", un(c["topic_by"]), tc.topic_by)
        if tc.topic is not None and tc.topic_time not in (None, "now") and c["topic_time"] != tc.topic_time:
            bad("topic time", c["topic_time"], tc.topic_time)
        modes = {bytes([x]) for x in un(c["modes"])}
        if modes != tc.modes:
            bad("channel modes", modes, tc.modes)
        params = {bytes.fromhex(k): un(v) for k, v in c["params"].items()}
        if params != tc.params:
            bad("mode parameters", params, tc.params)
        if tc.created is not None and c["created"] != tc.created:
            bad("creation time", c["created"], tc.created)
        for m, lst in tc.lists.items():
            have = c["lists"].get(m.hex(), {"present": 0, "e": []})
            if not have["present"]:
                bad("list %r fetched" % m, 0, 1)
            g = sorted(un(e[0]) for e in have["e"])
            if g != sorted(lst):
                bad("list %r" % m, g, sorted(lst))


def run_case(case, cov):
    r = core.case_rng(case)
    sim = ircsim.Sim(r, ircsim.FEATURES[case["feat"]], nusers=case["users"])
    t = irctrack.Tracker(b"me")
    log = []
    with drv.Drv() as p:
        p.tell("new", b"me".hex(), b"user".hex(), b"real.host".hex())

        def feed(lines):
            for l in lines:
                log.append(l)
                t.feed(*e2e.parse_line(l))
                p.tell("feed", l.hex())
                cov.ev("lines")

        def ctx():
            return "last lines:\n" + "\n".join(repr(x) for x in log[-12:])
        feed(sim.welcome())
        for _ in range(case["steps"]):
            before = dict(sim.stats)
            lines = sim.event()
            if not lines:
                continue
            kind = [k for k in sim.stats if sim.stats[k] != before.get(k) and not k.startswith("mode1")]
            kind = [k for k in kind if k in sim.KINDS] or kind
            feed(lines)
            d = p.ask("dump")
            cmd = e2e.parse_line(lines[0])[1][0].decode("latin1")
            compare(d, t, "state:" + (kind[0] if kind else cmd), ctx)
            cov.ev(kind[0] if kind else cmd)
            n = sum(len(c.members) for c in t.chans.values())
            cov.judge((kind[0] if kind else cmd, case["feat"], len(t.chans), n // 5))
        if len(log) > 40:
            cov.sample("feature set %d: %s ... %d channels, %d memberships at the end" % (
                case["feat"], log[-1].decode("utf-8", "replace"), len(t.chans), sum(len(c.members) for c in t.chans.values())))
