"""P14: queries answered by the proxy itself against what the server would have said."""
import core, build, e2e, gen, ircsim, irctrack, rig
from p06 import visible_status

ID = "P14"
TECHNIQUE = "runtime differential monitor: each client query on the real proxy is either seen forwarded by the simulated server or compared with that server's true answer"
LEVEL = "exploration"
LEVEL_NOTE = ("Randomized network histories interleaved with client queries, some in the middle of a server reply; answers given by the proxy are "
              "compared with the simulated network's own knowledge; bounded by the generated histories and query forms.")
RULE = "one evaluation per query judged; distinct = (query form, answered or forwarded, feature set, state bucket, moment) combinations"
ASSUMPTIONS = ["servers conform to the protocol", "a cached WHO may show away states and statuses not older than max-who-age (documented)",
               "ban list answers are compared by mask (the RFC 1459 form)"]
CASE_LIMIT = 240
_bin = [None]


def prepare():
    _bin[0] = build.build_proxy("asan")


def cases(tier, seed):
    n, q = (160, 60) if tier == "quick" else (1600, 250)
    return [{"seed": seed * 911 + i, "feat": i % len(ircsim.FEATURES), "queries": q, "users": [6, 15, 70][i % 3],
             "age": [0, 600, 600][i // 3 % 3]} for i in range(n)]


class Judge:
    def __init__(self, sim, t, me_aliases):
        self.sim, self.t, self.al = sim, t, me_aliases

    def names(self, lines, asked, bad):
        sim = self.sim
        c = sim.chan(asked)
        got = {}
        for l in lines[:-1]:
            if l.args[0] != b"353" or sim.fold(l.args[3]) != sim.fold(asked) or len(l.args) != 5 or l.args[2] not in (b"=", b"@", b"*"):
                bad("form", l.raw)
            for w in l.args[4].split():
                ms = set()
                while w and self.t.f.mode_by_prefix(w[:1]):
                    ms.add(self.t.f.mode_by_prefix(w[:1]))
                    w = w[1:]
                if sim.fold(w) in got:
                    bad("member twice", w)
                got[sim.fold(w)] = ms
        if lines[-1].args[0] != b"366" or sim.fold(lines[-1].args[2]) != sim.fold(asked):
            bad("terminator", lines[-1].raw)
        want = {sim.fold(u.nick): None for u in c.members}
        if set(got) != set(want):
            bad("members", (sorted(set(got) - set(want)), "missing", sorted(set(want) - set(got))))
        tc = self.t.chan(asked)
        for n, m in got.items():
            if n in tc.members and m != visible_status(self.t.f, tc.members[n]) and m != tc.members[n]:
                bad("status", (n, m, tc.members[n]))

    def topic(self, lines, asked, bad):
        c = self.sim.chan(asked)
        l = lines[0]
        if c.topic is None:
            if len(lines) != 1 or l.args[0] != b"331" or self.sim.fold(l.args[2]) != self.sim.fold(asked):
                bad("no topic", [x.raw for x in lines])
            return
        if l.args[0] != b"332" or self.sim.fold(l.args[2]) != self.sim.fold(asked) or l.args[3] != c.topic:
            bad("topic", l.raw)
        if len(lines) > 1:
            l = lines[1]
            if len(lines) > 2 or l.args[0] != b"333" or self.sim.fold(l.args[2]) != self.sim.fold(asked) or l.args[3] != c.topic_by:
                bad("setter", [x.raw for x in lines])

    def mode(self, lines, asked, bad):
        c = self.sim.chan(asked)
        l = lines[0]
        if l.args[0] != b"324" or self.sim.fold(l.args[2]) != self.sim.fold(asked) or l.args[3][:1] != b"+":
            bad("form", l.raw)
        ms = l.args[3][1:].decode("latin1")
        ps = list(l.args[4:])
        got = {}
        B, C = self.sim.f["chanmodes"].split(",")[1:3]
        for m in ms:
            if m in got:
                bad("mode twice", l.raw)
            got[m] = ps.pop(0) if m in B + C and ps else None
        if ps:
            bad("parameters left over", l.raw)
        want = {m: c.params.get(m) for m in c.modes}
        if got != want:
            bad("modes", (l.raw, want))
        for x in lines[1:]:
            if x.args[0] != b"329" or self.sim.fold(x.args[2]) != self.sim.fold(asked) or int(x.args[3]) != c.created or len(lines) > 2:
                bad("creation time", x.raw)

    def bans(self, lines, asked, bad):
        c = self.sim.chan(asked)
        got = []
        for l in lines[:-1]:
            if l.args[0] != b"367" or self.sim.fold(l.args[2]) != self.sim.fold(asked):
                bad("form", l.raw)
            got.append(l.args[3])
        if lines[-1].args[0] != b"368" or self.sim.fold(lines[-1].args[2]) != self.sim.fold(asked):
            bad("terminator", lines[-1].raw)
        if sorted(got) != sorted(e[0] for e in c.lists.get("b", [])):
            bad("bans", (got, c.lists.get("b", [])))

    def who(self, lines, asked, bad):
        sim = self.sim
        c = sim.chan(asked)
        got = set()
        for l in lines[:-1]:
            a = l.args
            if a[0] != b"352" or len(a) != 9 or sim.fold(a[2]) != sim.fold(asked):
                bad("form", l.raw)
            u = sim.user_by_nick(a[6])
            if u is None or u not in c.members:
                bad("somebody else", l.raw)
            if u in got:
                bad("member twice", l.raw)
            got.add(u)
            if a[5] != u.server or a[8] != (b"%d " % (0 if u.server == ircsim.SERVER else 1)) + u.real:
                bad("server or real name", (l.raw, u.server, u.real))
            if (a[3], a[4]) != (u.user, u.host) and not (u is sim.me and (a[3], a[4]) == self.al):
                bad("user or host", (l.raw, u.user, u.host))
            if u is sim.me and (a[7][:1] == b"G") != u.away:
                bad("own away flag", l.raw)
            ms = {self.t.f.mode_by_prefix(a[7][i:i + 1]) for i in range(len(a[7]))} - {None}
            tm = self.t.chan(asked).members[sim.fold(u.nick)]
            # (statuses below the highest are not always told to the proxy)
            true = {m.encode() for m in c.members[u]}
            if ms != tm and ms != visible_status(self.t.f, tm) and not ms >= tm and ms != true and ms != visible_status(self.t.f, true):
                bad("status", (l.raw, tm))
        if lines[-1].args[0] != b"315" or sim.fold(lines[-1].args[2]) != sim.fold(asked):
            bad("terminator", lines[-1].raw)
        if got != set(c.members):
            bad("members", sorted(u.nick for u in set(c.members) - got))


def run_case(case, cov):
    r = core.case_rng(case)
    w = e2e.World(_bin[0], "p14")
    with w:
        sim = ircsim.Sim(r, ircsim.FEATURES[case["feat"]], nusers=case["users"], nchans=r.choice([2, 4, 6]))
        s = rig.SimServer(w, sim)
        if r.random() < .5:
            sim.populate(r.choice([.2, .6]))
        g = {"autosave": "false", "autoconnect": "net"}
        if case["age"]:
            g["max-who-age"] = str(case["age"])
        w.write_config(g, [("net", s.kv())])
        w.start()
        s.login()
        for _ in range(r.choice([0, 30])):
            s.say(sim.event())
        s.settle()
        conn = w.attach("me", "net")
        c = rig.TrackedClient(conn, "me")
        s.settle([conn])
        c.feed()
        j = Judge(sim, s.t, (b"cuser", e2e.peer_name().encode()))
        trace = []
        for q in range(case["queries"]):
            for _ in range(r.choice([0, 0, 1, 4, 12])):
                s.say(sim.event())
            expired = False
            if case["age"] and r.random() < .03:
                s.settle([conn])
                for _ in range(case["age"] // 20 + 1):
                    w.advance(20)
                    s.settle([conn])
                expired = True
            s.settle([conn])
            c.feed()
            mine = sim.mine()
            rest = []
            k = r.random()
            if mine and k < .85:
                ch = r.choice(mine).name
            elif k < .95:
                ch = r.choice(sim.channames)
            else:
                ch = r.choice([b"#nowhere", sim.users[0].nick, sim.me.nick, b"*", b"#a,#b"])
            moment = "settled"
            if r.random() < .12 and mine:
                # ask while the server is in the middle of telling
                kind = r.choice(["join", "names", "list", "mode", "who"])
                if kind == "join":
                    off = [n for n in sim.channames if not sim.chan(n) or sim.me not in sim.chan(n).members]
                    if off:
                        ch = r.choice(off)
                        rest = sim.join_me(ch)
                elif kind == "names":
                    rest = sim.names(sim.chan(ch)) if sim.chan(ch) else []
                elif kind == "list" and sim.chan(ch):
                    rest = sim.list_reply(sim.chan(ch), "b")
                elif kind == "mode" and sim.chan(ch):
                    rest = sim.mode_reply(sim.chan(ch))
                elif kind == "who":
                    rest = sim.who_reply(ch)
                if len(rest) > 1:
                    n = r.randrange(1, len(rest))
                    s.say(rest[:n])
                    rest = rest[n:]
                    w.sync_server(s.conn)
                    w.sync_client(conn)
                    c.feed()
                    moment = "amid " + kind
                else:
                    s.say(rest)
                    rest = []
                    s.settle([conn])
                    c.feed()
            asked = sim.casevar(ch)
            form = r.choice(["names", "topic", "mode", "bans", "who"])
            args = {"names": [b"NAMES", asked], "topic": [b"TOPIC", asked], "mode": [b"MODE", asked],
                    "bans": [b"MODE", asked, r.choice([b"b", b"b", b"+b", b"bb", b"bI", b"e"])], "who": [b"WHO", asked]}[form]
            if r.random() < .08:
                args = r.choice([[b"NAMES"], [b"TOPIC", asked, b"new one"], [b"MODE", asked, b"+b", b"*!x@y"], [b"WHO", asked, b"o"], [b"NAMES", asked, b"x"],
                                 [b"TOPIC", b"#a,#b"], [b"WHO", b"*" + asked], [b"MODE", asked, b""], [b"TOPIC", asked, b""], [b"WHO", asked, b"h"], [b"WHO", asked[:-1] + b"*"], [b"WHO", asked[:-1] + b"?"], [b"MODE", asked, b"b", b"x!*@*"], [b"NAMES", asked + b",#x"]])
                form = args[0].decode() + "%d" % len(args)
            if r.random() < .2:
                args[0] = args[0].lower()
            on = sim.chan(asked) is not None and sim.me in sim.chan(asked).members
            before = len(s.got)
            conn.send(sim.line(None, *args))
            w.sync_client(conn)
            w.sync_server(s.conn)
            new = c.feed()
            trace.append(args)
            pend = [l.args for l in s.conn.lines[s.conn.pos:] if l.args and l.args[0] != b"PONG"]

            def bad(what, got):
                raise core.Violation("cache:%s:%s" % (form, what), "%s: %r; query %r (%s) answered by the proxy as\n%s\nserver said last:\n%s" % (
                    what, got, args, moment, "\n".join("  " + repr(l.raw) for l in new), "\n".join("  " + repr(x) for x in s.sent[-25:])))
            nums = [l for l in new if l.args[0].isdigit()]
            if [l for l in new if not l.args[0].isdigit()]:
                bad("other lines", [l.raw for l in new])
            if pend:
                if pend != [args]:
                    bad("forwarded", pend)
                if nums:
                    bad("answered and forwarded", [l.raw for l in nums])
                verdict = "forwarded"
            else:
                if not nums:
                    bad("neither answered nor forwarded", None)
                verdict = "answered"
                if form == "who" and moment == "settled" and (not case["age"] or expired):
                    bad("answered from expired data", None)
                if not on or not hasattr(j, form) or (form == "bans" and args[2].strip(b"+") not in (b"b", b"bb")):
                    bad("answered a query it cannot know the answer to", None)
                for l in nums:
                    if l.args[1] != sim.me.nick:
                        bad("target", l.raw)
                getattr(j, form)(nums, asked, bad)
            cov.judge((form, verdict, case["feat"], moment, on, len(sim.chan(asked).members) // 4 if on else 0))
            cov.ev(form + " " + verdict)
            if moment != "settled":
                cov.ev("amid a reply, " + verdict)
            s.say(rest)
            s.settle([conn])
            c.feed()
        cov.sample("last queries %r" % (trace[-4:],))
        w.stop()
