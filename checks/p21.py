"""P21: automatic away, judged under a virtual clock."""
import random
import build, core, e2e
from core import Violation

ID = "P21"
TECHNIQUE = "runtime monitoring of the real proxy under a virtual clock: every AWAY/NICK line at the servers is compared with an executable model of client presence and activity"
LEVEL = "exploration"
LEVEL_NOTE = "Randomized timed histories of attaching, leaving, activity, server answers and reconnects over randomized settings; time only moves when the check moves it, so every deadline is judged to the second."
RULE = "one evaluation per step (action or advance of time) after which the AWAY/NICK lines at every server are compared with the model; distinct = (action, clients, limit, time setting, away before, lines expected) combinations"
ASSUMPTIONS = ["no stored nick service passwords (identifying is itself a message)", "the user's nick is not changed back when it returns (no such feature is documented)"]
CASE_LIMIT = 200
_bin = [None]


def prepare():
    _bin[0] = build.build_proxy("asan")


def cases(tier, seed):
    n, steps = (300, 50) if tier == "quick" else (1200, 150)
    return [{"seed": seed * 877 + i, "steps": steps} for i in range(n)]


class Net:
    pass


def run_case(case, cov):
    r = core.case_rng(case)
    w = e2e.World(_bin[0], "p21")
    with w:
        enabled = r.random() < .93
        limit = r.choice([None, -1, 0, 0, 0, 1, 2])
        T = r.choice([None, 30, 31, 45, 90, 300, 29, 1, 0, -1])
        msg = r.choice([None, "gone", "Gone for a while", ":)", "\u00e9t\u00e9 x"])
        anick = r.choice([None, None, "me_away", "Z|away"])
        answers = r.random() < .8           # the server confirms AWAY
        nickok = r.random() < .7
        glob = {"default-network": "net0", "autoconnect": "net0;net1", "replication": "none", "report-time": "never", "admin-log": "false",
                "auto-away-enable": "true" if enabled else r.choice(["false", None]),
                "auto-away-message": msg, "auto-away-nick": anick, "auto-away-client-limit": limit, "auto-away-time": T}
        nets, cfg = [], []
        for i in range(2):
            n = Net()
            n.name, n.nick, n.srv, n.clients, n.away, n.up, n.halves = "net%d" % i, "me", w.server("s%d" % i), [], False, True, []
            nets.append(n)
            cfg.append((n.name, {"nick": n.nick, "username": "u", "fullname": "F", "servers": "%s:%d" % (w.ip, n.srv.port), "queue-speed": "0",
                                 "reconnect-interval": "5"}))
        w.write_config(glob, cfg)
        w.start()
        lim = -1 if limit is None else limit
        idle = 600 if T in (None, -1) else T
        timed = enabled and idle >= 30
        text = (msg if msg is not None else "Auto Away").encode()

        def login(n):
            w.pump(lambda: n.srv.conn and not n.srv.conn.closed)
            w.login_server(n.srv.conn, "me")
            n.nick = "me"
            w.sync_server(n.srv.conn)
            n.srv.conn.take()
            n.up, n.away = True, False

        for n in nets:
            login(n)
        now_rt, now = e2e.time.clock_gettime_ns(e2e.time.CLOCK_REALTIME), e2e.time.clock_gettime_ns(e2e.time.CLOCK_MONOTONIC)
        w.vctl.set("frozen_ns", now)
        w.vctl.set("frozen_rt_ns", now_rt // 10**9 * 10**9 + 5 * 10**8)
        w.vctl.set("freeze", 1)
        w.nudge()
        now = [0]
        st = {"last": None}     # None: start of the program, which is not known to the second
        tag = [0]
        expected = {n.name: [] for n in nets}

        def set_away(n):
            expected[n.name].append((b"AWAY", text))
            if anick is not None:
                expected[n.name].append((b"NICK", anick.encode()))
            st["last"] = now[0]

        def back(n):
            expected[n.name].append((b"AWAY",))
            st["last"] = now[0]

        def activity(away_line=False):
            """A line of the user went to some server."""
            if enabled:
                st["last"] = now[0]
                if not away_line:
                    for n in nets:
                        if n.up and n.away:
                            back(n)

        def tick():
            if not timed or st["last"] is None:
                return
            if now[0] - st["last"] > idle:
                for n in nets:
                    if n.up and not n.away and (lim < 0 or len(n.clients) <= lim):
                        set_away(n)

        def settle(what):
            """Compare what the servers received, then let them answer."""
            for n in nets:
                for c in n.clients:
                    w.sync_client(c)
            for n in nets:
                if not n.up:
                    continue
                w.sync_server(n.srv.conn)
                got = [tuple(l.args) for l in n.srv.conn.take() if l.args and l.args[0] in (b"AWAY", b"NICK")]
                exp = expected[n.name]
                cov.judge((what, min(len(n.clients), 3), lim, idle, n.away, tuple(e[0] + (b"" if len(e) > 1 else b"-") for e in exp)))
                cov.ev("aways_seen", sum(g[0] == b"AWAY" and len(g) > 1 for g in got))
                cov.ev("backs_seen", sum(g == (b"AWAY",) for g in got))
                if sorted(got) != sorted(exp) or [g for g in got if g[0] == b"AWAY" and len(g) > 1] != [g for g in exp if g[0] == b"AWAY" and len(g) > 1]:
                    kind = "missing" if len(got) < len(exp) else ("unwanted" if len(got) > len(exp) else "different")
                    if any(g[0] == b"NICK" for g in got) != any(g[0] == b"NICK" for g in exp):
                        kind += "-nick"
                    raise Violation("%s:%s" % (kind, what), "settings %r\nat %ds (last activity %r) after %s on %s with %d clients, away=%r: server got %r, expected %r\nhistory: %s" % (
                        glob, now[0], st["last"], what, n.name, len(n.clients), n.away, got, exp, "; ".join(hist[-14:])))
                out = []
                for g in got:
                    if g[0] == b"AWAY" and answers:
                        if len(g) > 1 and g[1]:
                            n.away = True
                            out.append(":irc.test 306 %s :You have been marked as being away" % n.nick)
                        else:
                            n.away = False
                            out.append(":irc.test 305 %s :You are no longer marked as being away" % n.nick)
                    elif g[0] == b"NICK":
                        new = g[1].decode()
                        if new == n.nick:
                            pass
                        elif nickok:
                            out.append(":%s!u@h NICK %s" % (n.nick, new))
                            n.nick = new
                        else:
                            out.append(":irc.test 433 %s %s :Nickname is already in use." % (n.nick, new))
                if out:
                    n.srv.conn.send(*out)
                    w.sync_server(n.srv.conn)
                expected[n.name] = []
            for n in nets:
                for c in n.clients:
                    w.sync_client(c)
                    c.take()

        hist = []

        def act(what):
            hist.append("%ds %s" % (now[0], what))

        def message(n, c):
            k = r.choice(["msg", "msg", "notice", "lower", "away", "unaway", "ctcp", "ctcpreply", "other", "admin", "join", "double"])
            tag[0] += 1
            t = "x%d" % tag[0]
            act("%s: client sends %s" % (n.name, k))
            if k in ("msg", "lower", "notice", "ctcp", "double"):
                line = {"msg": "PRIVMSG #c :%s" % t, "lower": "privmsg friend %s" % t, "notice": "NOTICE friend :%s" % t, "ctcp": "PRIVMSG friend :\1VERSION\1",
                        "double": "PRIVMSG #c :%s" % t}[k]
                c.send(line)
                activity()
                if k == "double":
                    w.sync_client(c)
                    if enabled:
                        for m in nets:
                            if m.up and m.away:
                                back(m)
                    c.send(line)
            elif k == "ctcpreply":
                c.send("NOTICE friend :\1VERSION x\1")
            elif k == "away":
                c.send("AWAY :user %s" % t)
                activity(True)
                expected[n.name].append((b"AWAY", b"user %s" % t.encode()))
            elif k == "unaway":
                c.send("AWAY")
                activity(True)
                expected[n.name].append((b"AWAY",))
            elif k == "other":
                c.send(r.choice(["WHOIS friend", "TOPIC #c", "PING :%s" % t, "KNOCK #x"]))
            elif k == "admin":
                c.send("CTRLPROXY ECHO %s" % t)
            elif k == "join":
                c.send("JOIN #%s" % t)
            return "send-" + k

        for _ in range(case["steps"]):
            n = r.choice(nets)
            k = r.random()
            if k < .42:
                if st["last"] is not None and r.random() < .5 and idle < 700:
                    # right up to the deadline
                    d = max(1, st["last"] + idle + r.choice([-1, 0, 0, 1, 1, 2]) - now[0])
                else:
                    d = r.choice([1, 2, 5, 14, 31, 60, idle // 2 + 1, idle + 1])
                what = "time"
                act("%d seconds pass" % d)
                while d > 0:
                    s = min(d, 14)
                    d -= s
                    now[0] += s
                    w.advance(s)
                    w.nudge()
                    before = st["last"]
                    if before is None and timed:
                        # the first deadline cannot be predicted to the second: take it from the proxy
                        for m in nets:
                            w.sync_server(m.srv.conn)
                        if any(l.args and l.args[0] == b"AWAY" for m in nets if m.up for l in m.srv.conn.lines[m.srv.conn.pos:]):
                            if now[0] < idle - 14:
                                raise Violation("first-deadline", "settings %r: first away at %ds after start" % (glob, now[0]))
                            for m in nets:
                                if m.up and not m.away and (lim < 0 or len(m.clients) <= lim):
                                    set_away(m)
                            st["last"] = now[0]
                        elif now[0] > idle + 16 and any(m.up and not m.away and (lim < 0 or len(m.clients) <= lim) for m in nets):
                            raise Violation("missing:first", "settings %r: not away %ds after start\n%s" % (glob, now[0], "; ".join(hist)))
                    else:
                        tick()
                    settle("time")
                continue
            elif k < .57 and len(n.clients) < 4 and n.up:
                act("attach to %s" % n.name)
                c = w.attach(n.nick, n.name)
                n.clients.append(c)
                if enabled and n.up and lim >= 0 and len(n.clients) > lim:
                    back(n)
                what = "attach"
            elif k < .70 and n.clients:
                how = r.choice(["quit", "close", "rst"])
                act("%s: client leaves (%s)" % (n.name, how))
                c = n.clients.pop(r.randrange(len(n.clients)))
                w.sync_client(c)
                if how == "quit":
                    w.leave(c, "QUIT :bye")
                else:
                    w.leave(c, rst=how == "rst")
                if enabled and n.up and lim >= 0 and len(n.clients) <= lim and not n.away:
                    set_away(n)
                what = "leave"
            elif k < .86 and n.clients:
                if not n.up:
                    continue
                what = message(n, r.choice(n.clients))
            elif k < .93 and n.up:
                # somebody else talks to the user
                tag[0] += 1
                q = r.choice(["PRIVMSG %s :hi" % n.nick, "PRIVMSG %s :\1VERSION\1" % n.nick, "PRIVMSG %s :\1PING 1\1" % n.nick, "NOTICE #c :x",
                              "AWAY :gone", "AWAY :gone", "AWAY", "AWAY", "JOIN #c", "MODE #c +v x", "NICK p%d" % tag[0]])
                act("%s: server says %r" % (n.name, q))
                n.srv.conn.send(":o%d!o@h %s" % (tag[0], q))
                what = "incoming"
            elif k < .96:
                # a peer that never finishes logging in
                act("half login")
                c = w.connect("half")
                c.send(*r.choice([["PASS secret:%s" % n.name, "NICK x"], ["PASS wrong"], ["PASS secret:%s" % n.name], ["NICK x"]]))
                c.send("PING x")
                w.pump(lambda: c.lines or c.closed)
                w.leave(c)
                what = "half-login"
            elif k < .98 and n.up and (st["last"] is not None or not timed):
                act("%s: server connection lost" % n.name)
                old = n.srv.conn
                n.up, n.away = False, False
                old.close()
                w.nudge()
                w.nudge()
                for i in range(3):
                    now[0] += 5
                    w.advance(5)
                    w.nudge()
                    tick()
                    w.pump(lambda: True)
                w.pump(lambda: n.srv.conn is not old, what="reconnect")
                login(n)
                what = "reconnect"
            else:
                # a reminder from the server about the state
                if not n.up:
                    continue
                n.away = r.random() < .5
                act("%s: server says away=%r" % (n.name, n.away))
                n.srv.conn.send(":irc.test %s %s :x" % ("306" if n.away else "305", n.nick))
                w.sync_server(n.srv.conn)
                what = "server-state"
            settle(what)
        cov.sample("settings %r: %s" % ({k: v for k, v in glob.items() if "away" in k}, "; ".join(hist[-12:])))
        w.vctl.set("freeze", 0)
        w.stop()
