"""P13: what clients are sent when they attach, in every replication mode, and by BACKLOG."""
import re, time
import core, build, e2e, gen, ircsim, rig
from p06 import same_state
from p12 import kept

ID = "P13"
TECHNIQUE = "runtime trace monitor: everything a client of the real proxy receives on attaching is compared with the recorded history of the simulated network"
LEVEL = "exploration"
LEVEL_NOTE = ("Randomized histories of server traffic, attaches, detaches, speech, reconnects and BACKLOG commands; each attach is checked line by line "
              "against the documented selection and the client's resulting view against the network; bounded by the generated histories.")
RULE = "one evaluation per attach or BACKLOG command judged; distinct = (mode, time reporting, lines due, lines before, event before) combinations"
ASSUMPTIONS = ["servers conform to the protocol", "the backlog starts anew with every server connection", "replies to clients' own queries are not part of the backlog",
               "a reported time may differ by the time it takes to process the line"]
_bin = [None]
WORDS = ["cherry", "me", "date!", "%d", "\u00fcber"]


def prepare():
    _bin[0] = build.build_proxy("asan")


def cases(tier, seed):
    n, steps = (450, 30) if tier == "quick" else (1500, 60)
    return [{"seed": seed * 1511 + i, "feat": i % len(ircsim.FEATURES), "steps": steps, "users": [8, 20][i % 2],
             "mode": ["lastdisconnect", "simple", "lastdisconnect", "simple", "highlight", "none"][i % 6]} for i in range(n)]


class Server(rig.SimServer):
    """Also records what belongs into the backlog."""

    def login(self):
        self.hist = None
        n = super().login()
        self.hist = []
        return n

    def now(self):
        return time.time() + self.w.vctl.get("offset_ns") / 1e9

    def say(self, lines):
        if self.hist is not None:
            for l in lines:
                o, a = e2e.parse_line(l)
                if a and kept(a, False):
                    self.hist.append([o, a, self.now(), None])
        super().say(lines)

    def service(self):
        n = len(self.got)
        h = self.hist
        self.hist = None            # own lines come before what they cause
        held, self.held = self.held, []
        busy = super().service()
        outs, self.held = self.held, held
        self.hist = h
        for a, out in zip(self.got[n:], outs):
            if h is not None and kept(a, True):
                h.append([self.sim.me.nick, a, self.now(), None])
            self.say(out)
        return busy

    def seal(self):
        for h in self.hist or ():
            if h[3] is None:
                h[3] = self.now()


def untime(text):
    m = re.match(rb"\[(\d\d):(\d\d):(\d\d)\] (.*)", text, re.S)
    if m and m[4][:1] != b"\1":
        return int(m[1]) * 3600 + int(m[2]) * 60 + int(m[3]), m[4]
    m = re.match(rb"\x01ACTION \[(\d\d):(\d\d):(\d\d)\](.*)", text, re.S | re.I)
    if m:
        return int(m[1]) * 3600 + int(m[2]) * 60 + int(m[3]), b"\1ACTION" + m[4]
    return None, text


def run_case(case, cov):
    r = core.case_rng(case)
    w = e2e.World(_bin[0], "p13")
    with w:
        sim = ircsim.Sim(r, ircsim.FEATURES[case["feat"]], nusers=case["users"], nchans=r.choice([2, 4]))
        s = Server(w, sim)
        mode = case["mode"]
        timed = r.choice([None, None, "never", "always", "replication"])
        off = r.choice([0, 0, 3600, -7200]) if timed in ("always", "replication") else 0
        g = {"autosave": "false", "autoconnect": "net", "replication": mode}
        if timed:
            g["report-time"] = timed
        if off:
            g["report-time-offset"] = str(off)
        words = r.sample(WORDS, r.randrange(1, 4))
        if mode == "highlight" and r.random() < .9:
            g[r.choice(["match", "matches"])] = ";".join(words)
        elif mode == "highlight":
            words = []
        w.write_config(g, [("net", s.kv(ignore_first_nick="1", **{"reconnect-interval": "3"}))])
        w.start()
        s.login()
        s.settle()
        s.seal()
        clients = []
        serial = [0]
        mark = {"simple": 0, "lastdisconnect": 0, "highlight": 0, "backlog": 0}
        what = ["login"]

        def settle():
            if s.hist is None:
                for c in clients:
                    w.sync_client(c.conn)
            else:
                s.settle([c.conn for c in clients])
            s.seal()
            for c in clients:
                c.feed()

        def chatter():
            for _ in range(r.choice([1, 3, 10, 40])):
                if r.random() < .4:
                    serial[0] += 1
                    us = [u for c in sim.mine() for u in c.members if u is not sim.me] or sim.users
                    t = r.choice([c.name for c in sim.mine()] + [sim.me.nick])
                    text = "%d %s %s" % (serial[0], " ".join(r.choice(WORDS + ["plain"] * 3) for _ in range(r.choice([1, 1, 2, 3]))), gen.text(r) if hasattr(gen, "text") else "x")
                    text = text.encode() if isinstance(text, str) else text
                    if r.random() < .1:
                        text = r.choice([b"\1ACTION ", b"\1VERSION ", b"\1PING "]) + text + b"\1"
                    s.say([sim.line(r.choice(us).mask, r.choice([b"PRIVMSG", b"NOTICE"]), t, text.replace(b"\n", b"").replace(b"\r", b""))])
                else:
                    s.say(sim.event())
            settle()

        def expect(lines, due, want_timed, what_for, detail):
            """lines (received) must be exactly due (recorded)."""
            def bad(k, x):
                raise core.Violation("%s:%s" % (what_for, k), "%r; mode %s, report-time %s%+d; %s\nreceived:\n%s\ndue:\n%s" % (
                    x, mode, timed, off, detail, "\n".join("  %r" % l.raw for l in lines[-30:]), "\n".join("  %r %r" % (h[0], h[1]) for h in due[-30:])))
            for i, (l, h) in enumerate(zip(lines, due)):
                a = list(l.args)
                text = a[0].upper() in (b"PRIVMSG", b"NOTICE") and len(a) > 2
                if text and want_timed:
                    t, a[2] = untime(a[2])
                    if t is None:
                        bad("without time", l.raw)
                    lo, hi = int(h[2] - 1) + off, int(h[3] + 2) + off
                    if not any(x % 86400 == t for x in range(lo, hi + 1)):
                        bad("time", (l.raw, lo % 86400, hi % 86400, t))
                if a != h[1] or (l.origin.split(b"!")[0] if l.origin else None) != (h[0].split(b"!")[0] if h[0] else None):
                    bad("line", (i, l.raw, h[:2]))
            if len(lines) != len(due):
                bad("missing" if len(lines) < len(due) else "too many", (len(lines), len(due)))

        def wanted(h):
            return not h[1][0].isdigit()

        def attach():
            nick = sim.me.nick.decode() if r.random() < .8 else gen.nick(r)
            n = len(clients)
            conn = w.attach(nick, "net", sync=False)
            w.sync_client(conn)
            c = rig.TrackedClient(conn, nick)
            c.feed()
            end = [i for i, l in enumerate(c.seen) if l.args[0] in (b"376", b"422")]
            ls = [l for l in c.seen[end[0] + 1:]]
            on = s.hist is not None
            due = []
            if on and mode in ("lastdisconnect", "simple"):
                due = [h for h in s.hist[mark[mode]:] if wanted(h)]
            elif on and mode == "highlight":
                due = [h for h in s.hist[mark["highlight"]:] if h[1][0].upper() in (b"PRIVMSG", b"NOTICE") and len(h[1]) > 2
                       and any(x.encode() in h[1][2] for x in words)]
            rest = [l for l in ls if not l.args[0].isdigit() and l.args[0] not in (b"PING", b"PONG")]
            k = max(0, len(rest) - len(due))
            expect(rest[k:], due, timed in ("always", "replication"), "attach", what[0])
            for l in rest[:k]:
                if l.args[0] not in (b"JOIN", b"NICK", b"MODE") or not l.origin:
                    raise core.Violation("attach:too much", "%r is not due; mode %s, %s\nreceived:\n%s\ndue:\n%s" % (
                        l.raw, mode, what[0], "\n".join("  %r" % x.raw for x in rest[-40:]), "\n".join("  %r %r" % (h[0], h[1]) for h in due[-30:])))
            j = [sim.fold(l.args[1]) for l in rest[:k] if l.args[0] == b"JOIN"]
            if len(j) != len(set(j)):
                raise core.Violation("attach:channel announced twice", repr(j))
            cov.judge((mode, timed, len(due).bit_length(), len(s.hist).bit_length() if on else -1, what[0], n))
            cov.ev("attach, " + mode)
            cov.ev("backlog lines compared", len(due))
            if on:
                mark["highlight"] = len(s.hist)

                def bad(k, got, want):
                    raise core.Violation("attach:state " + k, "after the backlog the client believes %r, the network has %r; mode %s, %s\nreceived:\n%s" % (
                        got, want, mode, what[0], "\n".join("  %r" % l.raw for l in c.seen[end[0]:][-60:])))
                same_state(bad, c.t, s.t, sim.me.nick, status=False)
            clients.append(c)
            settle()

        def detach(c=None):
            c = c or r.choice(clients)
            clients.remove(c)
            if r.random() < .5:
                c.conn.send("QUIT :bye")
            c.conn.close()
            w.nudge()
            settle()
            if s.hist is not None:
                mark["lastdisconnect"] = len(s.hist)
            cov.ev("detach")

        def speak():
            c = r.choice(clients)
            serial[0] += 1
            t = r.choice([x.name for x in sim.mine()] + [b"bob", b"#elsewhere"])
            cmd, text = r.choice([b"PRIVMSG", b"PRIVMSG", b"NOTICE"]), b"%d said by us" % serial[0]
            ctcp = r.random() < .2
            if ctcp:
                text = r.choice([b"\1VERSION\1", b"\1PING 12\1"])
            elif r.random() < .2:
                text = b"\1ACTION " + text + b"\1"
            if s.hist is not None and not ctcp:
                mark["simple"] = len(s.hist)
            c.conn.send(sim.line(None, cmd, t, text))
            w.sync_client(c.conn)
            settle()
            cov.ev("speech" if not ctcp else "CTCP by the user")

        def probe():
            """Somebody connects but doesn't log in."""
            c = w.connect("probe")
            k = r.randrange(4)
            if k == 1:
                c.send("PASS wrong")
            elif k == 2:
                c.send("PASS secret:net")
            elif k == 3:
                c.send("PASS secret:net", "NICK abc")
            w.nudge()
            c.close()
            w.nudge()
            settle()
            cov.ev("connection without login")

        def backlog():
            c = r.choice(clients)
            obj = r.choice([x.name for x in sim.mine()] + [b"#none"]) if r.random() < .5 else None
            if obj and r.random() < .3:
                obj = obj.upper()
            due = [h for h in s.hist[mark["backlog"]:] if h[1][0].upper() in (b"PRIVMSG", b"NOTICE") and len(h[1]) > 2
                   and (obj is None or obj.lower() in h[1][1].lower().split(b","))]
            c.conn.send(b"CTRLPROXY BACKLOG" + (b" " + obj if obj else b""))
            w.sync_client(c.conn)
            new = c.feed()
            ls = [l for l in new if l.args[0] not in (b"PING", b"PONG")]
            if not ls or not (ls[0].origin or b"").startswith(b"ctrlproxy"):
                raise core.Violation("backlog:no answer", repr([l.raw for l in ls]))
            expect(ls[1:], due, timed in ("always", "replication"), "backlog" + (" object" if obj else ""), what[0])
            mark["backlog"] = len(s.hist)
            cov.judge(("BACKLOG", obj is None, timed, len(due).bit_length(), what[0]))
            cov.ev("BACKLOG")
            cov.ev("backlog lines compared", len(due))
            settle()

        def reconnect():
            n = len(s.srv.accepted)
            s.conn.close()
            s.hist = None
            for c in sim.mine():
                sim.drop(c, sim.me)
            sim.me.away = False
            w.nudge()
            while len(clients) > 1 or (clients and r.random() < .5):
                if r.random() < .5:
                    break
                detach()
            for c in clients:
                w.sync_client(c.conn)
                c.feed()
            for _ in range(4):
                w.advance(2)
                if len(s.srv.accepted) > n:
                    break
            w.pump(lambda: len(s.srv.accepted) > n, what="reconnect")
            s.login()
            for k in mark:
                mark[k] = 0
            settle()
            cov.ev("reconnect")
        for _ in range(case["steps"]):
            k = r.random()
            name = "chatter"
            if k < .4:
                chatter()
            elif k < .6 and len(clients) < 3:
                attach()
                name = "attach"
            elif k < .72 and clients:
                detach()
                name = "detach"
            elif k < .84 and clients:
                speak()
                name = "speech"
            elif k < .88:
                probe()
                name = "probe"
            elif k < .95 and clients:
                backlog()
                name = "backlog"
            elif k < .98:
                reconnect()
                name = "reconnect"
            elif r.random() < .5:
                w.advance(r.choice([1, 2]))
                settle()
            if name != "chatter" or what[0] == "login":
                what[0] = name
        while len(clients) < 3:
            attach()
        cov.sample("mode %s: %d lines stored at the end, markers %r, %d clients" % (mode, len(s.hist), mark, len(clients)))
        w.stop()
