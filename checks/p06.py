"""P06: what a newly attached client is told against what the server established."""
import os
import core, build, e2e, gen, ircsim, irctrack, rig

ID = "P06"
TECHNIQUE = "runtime trace monitor: real proxy on a simulated network, per-client protocol model compared with server-side model at every attach"
LEVEL = "exploration"
LEVEL_NOTE = ("Clients attach at random points of randomized network histories; a client model fed only with the lines that client received is "
              "compared with the model of everything the server said; bounded by the generated histories.")
RULE = "one evaluation per attach compared; distinct = (feature set, replication mode, nick case, clients attached, bucketed channels and members) combinations"
ASSUMPTIONS = ["servers conform to the protocol", "replication modes that replay a backlog are judged by P13; here their end state is"]
CASE_LIMIT = 240
_bin = [None]


def prepare():
    _bin[0] = build.build_proxy("asan")


def cases(tier, seed):
    n, att = (320, 8) if tier == "quick" else (3600, 20)
    return [{"seed": seed * 613 + i, "feat": i % len(ircsim.FEATURES), "attaches": att, "users": [8, 20, 90][i % 3],
             "repl": ["none", "none", None, "highlight", "bogus"][i % 5], "ifn": i % 4 == 3} for i in range(n)]


def visible_status(f, modes):
    """The one status a names list without NAMESX can show."""
    for m, p in f.prefix:
        if m in modes:
            return {m}
    return set()


def same_state(bad, tc, ts, me, status=True):
    """Client model tc against server model ts."""
    if tc.me != me:
        bad("nick", tc.me, me)
    if set(tc.chans) != set(ts.chans):
        bad("channels", sorted(tc.chans), sorted(ts.chans))
    for f, s in ts.chans.items():
        c = tc.chans[f]
        if not c.names_done:
            bad("names list not ended", s.name, None)
        if c.topic != s.topic:
            bad("topic", (s.name, c.topic), s.topic)
        if s.topic is not None and s.topic_by is not None and c.topic_by is not None and c.topic_by.split(b"!")[0] != s.topic_by.split(b"!")[0]:
            bad("topic setter", c.topic_by, s.topic_by)
        if s.topic is not None and s.topic_time not in (None, "now") and c.topic_time not in ("now", s.topic_time):
            bad("topic time", c.topic_time, s.topic_time)
        if set(c.members) != set(s.members):
            bad("members", (s.name, sorted(set(c.members) - set(s.members))), ("missing", sorted(set(s.members) - set(c.members))))
        for n, m in s.members.items():
            got = c.members[n]
            want = visible_status(ts.f, m)
            # (a second status below the highest is not shown by a names list)
            if status and got != want and got != m:
                bad("status", (s.name, n, got), m)


def run_case(case, cov):
    r = core.case_rng(case)
    w = e2e.World(_bin[0], "p06")
    with w:
        sim = ircsim.Sim(r, ircsim.FEATURES[case["feat"]], nusers=case["users"], nchans=r.choice([2, 5, 9]), nick=b"me" if r.random() < .5 else b"Me[1]")
        s = rig.SimServer(w, sim)
        if r.random() < .6:
            sim.populate(r.choice([.1, .5, .95]))
        g = {"autosave": "false"}
        if case["repl"]:
            g["replication"] = case["repl"]
        if r.random() < .3:
            g["motd-file"] = ""
        motd = None
        if r.random() < .4:
            motd = [r.choice(["", " ", "hello", "two words", ":colon", " indented  text ", "caf\u00e9 \u20ac", "%s%n %d", "tab\there", "x" * r.choice([80, 400, 1023, 1024, 1025, 5000])]).encode()
                    for _ in range(r.choice([0, 1, 2, 5, 40]))]
            nl = r.choice([b"\n", b"\n", b"\r\n"])
            text = nl.join(motd) + (nl if r.random() < .7 else b"")
            motd = text.split(nl)[:-1] if text.endswith(nl) else text.split(nl) if text else []
            g["motd-file"] = os.path.join(w.dir, "the motd")
            with open(g["motd-file"], "wb") as f:
                f.write(text)
        w.write_config(dict(g, autoconnect="net"), [("net", s.kv(**({"ignore_first_nick": "1"} if case["ifn"] else {})))])
        w.start()
        s.login()
        s.settle()
        clients = []

        def trace(c, n=40):
            return "client received:\n" + "\n".join("  " + repr(l.raw) for l in c.seen[-n:]) + "\nserver said last:\n" + "\n".join("  " + repr(x) for x in s.sent[-12:])
        for a in range(case["attaches"]):
            for _ in range(r.choice([0, 3, 25, 60])):
                s.say(sim.event())
            s.settle([c.conn for c in clients])
            for c in clients:
                c.feed()
            # perhaps somebody leaves
            if clients and r.random() < .25:
                c = clients.pop(r.randrange(len(clients)))
                c.conn.close()
                s.settle([c.conn for c in clients])
                for c in clients:
                    c.feed()
            k = r.random()
            if k < .3:
                nick = sim.me.nick
            elif k < .4:
                nick = sim.me.nick.swapcase() if sim.me.nick.swapcase()[:1] not in b"[]\\{}|^~" else sim.me.nick
            elif k < .55 and sim.users:
                nick = r.choice(sim.users).nick
            else:
                nick = gen.nick(r).encode()
            same = sim.fold(nick) == sim.fold(sim.me.nick)
            before = len(s.got)
            old = sim.me.nick
            live = r.random() < .4
            conn = w.attach(nick.decode(), "net", sync=False)
            if live:        # the network goes on while the client logs in
                for _ in range(r.choice([1, 6])):
                    s.say(sim.event())
            w.sync_client(conn)
            s.settle([conn] + [c.conn for c in clients])
            c = rig.TrackedClient(conn, nick)
            c.feed()
            sig = (case["feat"], case["repl"], "same" if same else "other", len(clients), len(s.t.chans), sum(len(x.members) for x in s.t.chans.values()) // 6, live)
            cov.judge(sig)
            cov.ev("attach")
            cov.ev("memberships compared", sum(len(x.members) for x in s.t.chans.values()))

            def bad(what, got, want, c=c):
                raise core.Violation("attach:" + what, "%s: the client was told %r, the server said %r (attaching as %r, own nick %r)\n%s" % (what, got, want, nick, sim.me.nick, trace(c)))
            same_state(bad, c.t, s.t, sim.me.nick, status=not live)
            if c.t.umodes != s.t.umodes:
                bad("own modes", c.t.umodes, s.t.umodes)
            if c.t.unknown:
                bad("lines about channels it is not on", c.t.unknown[:3], None)
            for fld in ("casemapping", "prefix", "chantypes"):
                if getattr(c.t.f, fld) != getattr(s.t.f, fld):
                    bad("feature " + fld, getattr(c.t.f, fld), getattr(s.t.f, fld))
            if s.sim.isupport() and [set(x) for x in c.t.f.chanmodes] != [set(x) for x in s.t.f.chanmodes]:
                bad("feature chanmodes", c.t.f.chanmodes, s.t.f.chanmodes)
            nums = [l.args[0] for l in c.seen]
            for n in (b"001", b"002", b"003", b"004"):
                if nums.count(n) != 1:
                    bad("welcome numeric " + n.decode(), nums.count(n), 1)
            if nums.count(b"376") + nums.count(b"422") != 1:
                bad("end of MOTD", nums.count(b"376") + nums.count(b"422"), 1)
            if motd:
                got = [l.args[2] for l in c.seen if l.args[0] == b"372"]
                if got != motd or nums.count(b"375") != 1 or nums.count(b"376") != 1:
                    bad("MOTD", got, motd)
                cov.ev("MOTDs compared")
            elif b"372" in nums:
                bad("MOTD", [l.raw for l in c.seen if l.args[0] == b"372"], motd)
            if not live and [l.args[2] for l in c.seen if l.args[0] == b"254"] != [str(len(s.t.chans)).encode()]:
                bad("number of channels", [l.raw for l in c.seen if l.args[0] == b"254"], len(s.t.chans))
            j = [s.t.f.fold(l.args[1]) for l in c.seen if l.args[0] == b"JOIN" and l.origin and s.t.f.fold(l.origin.split(b"!")[0]) == s.t.f.fold(old)]
            if not live and len(j) != len(set(j)):
                bad("channel announced twice", j, None)
            for l in c.seen:
                if l.args[0] == b"353" and len(l.raw) > 510:
                    bad("line too long", l.raw, None)
            # what the network saw of it
            req = [x for x in s.got[before:] if x[0] != b"PONG"]
            allowed = [] if same or case["ifn"] else [[b"NICK", nick]]
            if req != allowed and not (live and req in ([], [[b"NICK", nick]])):
                bad("commands the network saw", req, allowed)
            # what the others saw of it
            for o in clients:
                new = o.feed()
                if not live:
                    for l in new:
                        if not ((l.args[0] in (b"NICK", b"433") or l.args[:2] == [b"NOTICE", b"*"] and b"433" in l.raw) and not same and not case["ifn"]):
                            raise core.Violation("attach:seen by others", "another client got %r when %r attached" % (l.raw, nick))
                if o.t.me != sim.me.nick:
                    raise core.Violation("attach:other client's nick", "another client believes to be %r, the server said %r\n%s" % (o.t.me, sim.me.nick, trace(o)))
                same_state(lambda wh, g, x, o=o: (_ for _ in ()).throw(core.Violation("attached:" + wh, "%s: an attached client was told %r, the server said %r\n%s" % (wh, g, x, trace(o, 60)))), o.t, s.t, sim.me.nick, status=False)
                cov.judge(("attached",) + sig[:2] + sig[4:6])
            clients.append(c)
        cov.sample("%d clients attached; last one as %r was told %d channels with %d members" % (
            len(clients), nick, len(s.t.chans), sum(len(x.members) for x in s.t.chans.values())))
        w.stop()
