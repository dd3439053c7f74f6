"""P18: networks stay connected: login, reconnect, rejoin and failure handling."""
import os, stat
import build, core, e2e
from core import Violation

ID = "P18"
TECHNIQUE = "runtime monitoring: scripted servers that refuse, break off, stall and collide nicks at any stage record every connection and line under a frozen virtual clock; an online monitor judges each against the specified life cycle"
LEVEL = "exploration"
LEVEL_NOTE = "Randomized fault sequences at every stage of login and traffic for one to three networks with several servers, with and without clients, including exact reconnect delays and silence limits, user commands and networks run as programs."
RULE = "one evaluation per connection attempt, login, end of a connection, silence or offline reply judged; distinct = (what, stage, kind of fault) combinations"
ASSUMPTIONS = ["servers do not truncate nicks", "after an explicit CONNECT or NEXTSERVER any configured server may be tried", "a channel whose key was removed may be joined with or without the old key"]
CASE_LIMIT = 200
MIN, MAX = 60, 120
_bin = [None]


def prepare():
    _bin[0] = build.build_proxy("asan")


def cases(tier, seed):
    n, steps = (260, 25) if tier == "quick" else (1800, 80)
    out = [{"seed": seed * 941 + i, "steps": steps} for i in range(n)]
    return out + [{"seed": seed * 941 + i, "program": 1, "steps": 8} for i in range(6 if tier == "quick" else 40)] + \
        [{"seed": seed * 941 + i, "asked": 1, "steps": 0} for i in range(40 if tier == "quick" else 300)]


def run_case(case, cov):
    r = core.case_rng(case)
    w = e2e.World(_bin[0], "p18", unpriv=True)
    try:
        run = Run(w, r, case, cov)
        run.program() if "program" in case else run.asked() if "asked" in case else run.run()
    finally:
        w.close()


class Net:
    conn = None
    client = None
    state = "off"           # off, pending (until .deadline), up
    manual = False          # the next connection may be to any server


PROG = """#!/usr/bin/python3 -SE
import os, select, socket
s = socket.create_connection((%r, %d))
fds = [f for f in os.listdir("/proc/self/fd") if int(f) > 2 and int(f) != s.fileno()]
n = 0
for f in fds:
    try:
        os.fstat(int(f))
        n += 1
    except OSError:
        pass
s.sendall(b"FDS %%d\\r\\n" %% n)
while 1:
    for f in select.select([0, s], [], [])[0]:
        d = os.read(0, 65536) if f == 0 else s.recv(65536)
        if not d:
            raise SystemExit
        s.sendall(d) if f == 0 else os.write(1, d)
"""


class Run:
    def __init__(self, w, r, case, cov):
        self.w, self.r, self.case, self.cov = w, r, case, cov
        self.log, self.now = [], 0

    def fail(self, key, detail):
        raise Violation("life:" + key, "%s\n--- history (virtual seconds)\n%s" % (detail, "\n".join(self.log[-60:])))

    def note(self, n, s):
        self.log.append("%5d %s: %s" % (self.now, n.name, s))

    # -- set-up ------------------------------------------------------------------
    def run(self):
        r, w = self.r, self.w
        self.nets, cfg, self.keys = [], [], []
        g = {"replication": "none", "admin-log": "false", "autosave": "false"}
        if r.random() < .3:
            g.update({"default-nick": "defnick", "default-username": "defuser", "default-fullname": "Def Real"})
        for k in range(r.choice([1, 1, 2, 3])):
            n = Net()
            n.name = "net%d" % k
            n.srvs, n.pw = [], []
            urls = []
            for j in range(r.choice([1, 1, 2, 2, 3, 4])):
                s = w.server("%s.s%d" % (n.name, j))
                n.srvs.append(s)
                pw = r.choice([None, None, "spw%d" % j, "p:w@%d" % j])
                n.pw.append(pw)
                urls.append("%s:%d" % (w.ip, s.port))
            kv = {"servers": ";".join(urls), "queue-speed": "0"}
            n.interval = r.choice([1, 5, 60, 300, None])
            if n.interval:
                kv["reconnect-interval"] = str(n.interval)
            else:
                n.interval = 60
            n.netpw = r.choice([None, None, "netpw"])
            if n.netpw:
                kv["password"] = n.netpw
            n.cfgnick = n.nick = r.choice(["me", "Some[1]", "nick9"])
            n.user, n.real = "u", "Real Name"
            if "default-nick" in g and r.random() < .6:
                n.cfgnick = n.nick = "defnick"
            else:
                kv["nick"] = n.nick
            if "default-nick" in g and r.random() < .6:
                n.user = "defuser"
            else:
                kv["username"] = n.user
            if "default-nick" in g and r.random() < .6:
                n.real = "Def Real"
            else:
                kv["fullname"] = n.real
            n.autocmd = r.sample(["PRIVMSG bot :auth me now", "OPER a b", "MODE %s +i" % n.nick, "FOO bar", "NOTICE bot :x;y", "JOIN"], r.choice([0, 0, 1, 2, 3]))
            if n.autocmd:
                kv["autocmd"] = ";".join(c.replace(";", "\\;") for c in n.autocmd)
            n.auto, n.cfgkeys, keys = {}, {}, self.keys
            for c in r.sample(["#one", "#Two", "&loc", "#k[1]", "#caf\u00e9", "#none"], r.choice([0, 1, 2, 3, 4])):
                key, on = r.choice([None, None, "key%d" % len(n.auto), "k:y"]), c != "#none"
                if key:
                    keys.append("%s\t%s\t%s\n" % (c, key, n.name))
                if on:
                    n.auto[c.lower()] = [c, {key}]
                else:
                    n.cfgkeys[c.lower()] = {key}
            if n.auto:
                kv["autojoin"] = ";".join(c for c, _ in n.auto.values())
            self.nets.append(n)
            cfg.append((n.name, kv))
        self.write(g, cfg)
        w.vctl.set("freeze", 1)
        w.vctl.set("frozen_ns", 10 ** 12)
        w.vctl.set("frozen_rt_ns", 1700000000 * 10 ** 9)
        auto = [n for n in self.nets if r.random() < .85] or self.nets[:1]
        self.g["autoconnect"] = ";".join(n.name for n in auto)
        self.write(self.g, cfg)
        for n in self.nets:
            n.idx, n.live = 0, set()
            n.counts = [0] * len(n.srvs)
            n.nicks = {n.cfgnick}
            n.cur_chans = {}
            n.refusing = set()
        for n in auto:
            self.prepare_servers(n)
        w.start()
        self.cfgtext = open(os.path.join(w.conf, "config"), "rb").read().decode("utf-8", "replace")
        self.log.append(self.cfgtext)
        for n in auto:
            self.attempt(n)
        ops = {"elapse": 6, "lose": 8, "traffic": 10, "client": 4, "ask": 3, "disconnect": 1.2, "connect": 2, "next": 1, "silence": 1.5, "ping": 4, "remotd": 1, "settle": 3}
        for _ in range(self.case["steps"]):
            n = r.choice(self.nets)
            op = r.choices(list(ops), list(ops.values()))[0]
            getattr(self, "do_" + op)(n)
            self.check_all()
        for n in self.nets:
            if n.state == "pending":
                self.until_up(n)
        self.check_all()
        w.stop()

    def write(self, g, cfg):
        self.g = g
        out = []
        for name, kv in cfg:
            n = next(x for x in self.nets if x.name == name)
            kv = dict(kv)
            for j, pw in enumerate(n.pw):
                if pw:
                    kv["@%s:%d" % (self.w.ip, n.srvs[j].port)] = {"password": pw}
            out.append((name, kv))
        self.w.write_config(g, out)
        with open(os.path.join(self.w.conf, "keys"), "w") as f:
            f.write("".join(self.keys))

    # -- servers --------------------------------------------------------------------
    def prepare_servers(self, n):
        """Decide how the server that has to be tried next behaves."""
        n.fate = self.r.choice(["ok"] * 6 + ["refuse", "refuse", "close", "stage", "stage", "nick", "nick"])
        for j in range(len(n.srvs)):
            if n.fate == "refuse" and (j == n.idx or n.manual):
                if n.srvs[j].lsock is not None:
                    n.srvs[j].close()
            elif n.srvs[j].lsock is None:
                s = e2e.FakeServer(self.w, n.srvs[j].name, n.srvs[j].port)
                s.accepted = n.srvs[j].accepted
                n.srvs[j] = s

    def connected(self, n):
        """Indices of servers with a new connection."""
        res = []
        for j, s in enumerate(n.srvs):
            res += [j] * (len(s.accepted) - n.counts[j])
        return res

    def quiet(self, n, why):
        self.w.nudge()
        self.w.pump(lambda: True)
        self.w.drain(.0005)
        if self.connected(n):
            self.fail("attempt", "%s: connection to server %r although %s" % (n.name, self.connected(n), why))

    def attempt(self, n):
        """The proxy has to try a server now."""
        w, r = self.w, self.r
        manual, n.manual = n.manual, False
        self.cov.judge(("attempt", n.fate, manual))
        self.cov.ev("attempts")
        if n.fate == "refuse":
            for _ in range(3):
                w.nudge()
            if self.connected(n):
                self.fail("rotation", "%s: expected an attempt at server %d only, connection to %r" % (n.name, n.idx, self.connected(n)))
            self.note(n, "refused by server %s" % (n.idx if not manual else "?"))
            n.idx = (n.idx + 1) % len(n.srvs)
            n.manual = manual
            self.pending(n)
            return
        try:
            w.pump(lambda: self.connected(n), limit=10)
        except e2e.Hang:
            self.fail("no-attempt", "%s: no connection although one is due (server %d)" % (n.name, n.idx))
        got = self.connected(n)
        if len(got) != 1 or (not manual and got[0] != n.idx):
            self.fail("rotation", "%s: connections to servers %r, expected %r" % (n.name, got, n.idx))
        j = got[0]
        n.idx = j
        n.counts[j] += 1
        n.conn = n.srvs[j].conn
        n.state, n.stage = "up", "new"
        n.exp, n.seen = [], 0
        n.heard = self.now
        n.silent = False
        self.note(n, "connected to server %d, fate %s" % (j, n.fate))
        self.register(n)

    def wait_lines(self, n, k):
        try:
            self.w.pump(lambda: len(n.conn.lines) >= k or n.conn.closed, limit=10)
        except e2e.Hang:
            pass
        return [[a.decode("utf-8", "replace") for a in l.args] for l in n.conn.lines]

    def register(self, n):
        r, w = self.r, self.w
        pw = n.pw[n.idx] or n.netpw
        want = ([["PASS", pw]] if pw else []) + [["NICK", None], ["USER", n.user, None, None, n.real]]
        if n.fate == "close":
            n.conn.close(rst=r.random() < .5)
            self.lost(n, "close")
            return
        got = self.wait_lines(n, len(want))
        ok = len(got) == len(want) and all(len(g) == len(x) and all(b is None or a == b for a, b in zip(g, x)) for g, x in zip(got, want))
        if not ok or [g for g in got if g[0] == "NICK"][0][1] not in n.nicks:
            self.fail("login", "%s: login lines %r, expected %r with nick in %r" % (n.name, got, want, sorted(n.nicks)))
        self.cov.judge(("login", bool(pw), len(n.nicks)))
        self.cov.ev("logins")
        n.nick = [g for g in got if g[0] == "NICK"][0][1]
        n.seen = len(n.conn.lines)
        tried = [n.nick]
        script = [("pre", [":irc.test NOTICE AUTH :*** Looking up"])] if r.random() < .5 else []
        script.append(("ping", None)) if r.random() < .5 else 0
        if n.fate == "nick" or r.random() < .1:
            script += [("433", None)] * r.randint(1, 4)
        script += [("001", [":irc.test 001 $ :Welcome"]), ("004", [":irc.test 002 $ :x", ":irc.test 003 $ :x", ":irc.test 004 $ irc.test v io bklmnopst"]),
                   ("005", [":irc.test 005 $ CHANTYPES=#& PREFIX=(ov)@+ CHANMODES=b,k,l,imnpst CASEMAPPING=rfc1459 :are supported"])]
        script.append(("ping", None)) if r.random() < .3 else 0
        script.append(("375", [":irc.test 375 $ :-", ":irc.test 372 $ :- hello"])) if r.random() < .7 else 0
        stop = r.randrange(len(script) + 1) if n.fate == "stage" else None
        for i, (what, lines) in enumerate(script):
            if i == stop:
                break
            if what == "ping":
                self.ping(n)
            elif what == "433":
                n.conn.send((":irc.test 433 %s %s :Nickname is already in use" % (r.choice(["*", n.nick]), n.nick)).encode())
                got = self.wait_lines(n, n.seen + 1)[n.seen:]
                if len(got) != 1 or got[0][0] != "NICK" or len(got[0]) != 2 or got[0][1] in tried:
                    self.fail("nick", "%s: answer to 433 for %r was %r; tried %r" % (n.name, n.nick, got, tried))
                n.seen += 1
                n.nick = got[0][1]
                tried.append(n.nick)
                n.nicks.add(n.nick)
                self.cov.judge(("433", len(tried)))
            else:
                n.conn.send(*[l.replace("$", n.nick).encode() for l in lines])
        if stop is not None:
            self.lose(n, "login%d" % stop)
            return
        self.settle(n)
        n.stage = "login"
        # the end of the message of the day ends the login
        n.conn.send((":irc.test %s %s :End" % (r.choice(["376", "422"]), n.nick)).encode())
        want = [["USERHOST", n.nick]] + [[a.decode() for a in e2e.parse_line(c.encode())[1]] for c in n.autocmd]
        joins = dict(n.auto)
        self.sync(n)
        got = self.lines(n)
        head, js = got[:len(want)], got[len(want):]
        bad = head != want or len(js) != len(joins)
        for j in js:
            x = joins.pop(j[1].lower(), None) if j[0] == "JOIN" and len(j) in (2, 3) else None
            if x is None or (j[2] if len(j) > 2 else None) not in x[1]:
                bad = True
        if bad:
            self.fail("ready", "%s: sent after login %r\nexpected %r\nand joins of %r" % (n.name, got, want, n.auto))
        self.cov.judge(("ready", len(n.autocmd), len(js)))
        self.cov.ev("joins", len(js))
        n.stage = "ready"
        n.nicks = {n.cfgnick, n.nick}
        n.cur_chans = {}
        n.unanswered = {k: v for k, v in n.auto.items()}
        n.ever = True
        self.note(n, "ready as %s" % n.nick)

    def lines(self, n):
        """Lines from the proxy since the last look, pings and answers to ours aside."""
        res = []
        for l in n.conn.lines[n.seen:]:
            a = [x.decode("utf-8", "replace") for x in l.args]
            if a[0] == "PONG" and a[-1].startswith("tok"):
                continue
            if a[0] == "PONG" and a[-1] in n.live:
                n.live.discard(a[-1])
                continue
            if a[0] == "PING":
                if not n.silent:
                    self.fail("early-ping", "%s: asked whether the server is alive although it is not silent" % n.name)
                n.pinged = True
                continue
            res.append(a)
        n.seen = len(n.conn.lines)
        return res

    def sync(self, n):
        """Everything sent so far has been dealt with."""
        try:
            self.w.pump(lambda: True)
            t = "tok%d" % len(self.log) + str(self.r.randrange(10 ** 9))
            n.conn.send(("PING :%s" % t).encode())
            n.heard = self.now
            self.w.pump(lambda: any(l.args[:1] == [b"PONG"] and l.args[-1] == t.encode() for l in n.conn.lines) or n.conn.closed, limit=10)
        except e2e.Hang:
            self.fail("pong", "%s: no answer to a PING of the server at stage %s" % (n.name, n.stage))
        if n.conn.closed:
            self.fail("closed", "%s: the proxy closed the connection at stage %s" % (n.name, n.stage))

    def settle(self, n):
        self.sync(n)
        got = self.lines(n)
        if got:
            self.fail("uncalled", "%s: the proxy sent %r at stage %s" % (n.name, got, n.stage))

    def check_all(self):
        for n in self.nets:
            if n.state == "up":
                self.settle(n)
            else:
                self.quiet(n, "the network is " + n.state)
            if n.client is not None and n.client.closed:
                self.fail("client", "%s: the client was disconnected" % n.name)

    def ping(self, n):
        t = self.r.choice(["x", "irc.test", "1 2 3", ":a", "12345", "tok"]) + str(self.r.randrange(1000))
        n.conn.send(("PING :%s" % t).encode())
        n.heard = self.now
        try:
            self.w.pump(lambda: any(l.args == [b"PONG", t.encode()] for l in n.conn.lines[n.seen:]) or n.conn.closed, limit=10)
        except e2e.Hang:
            self.fail("pong", "%s: no answer to PING :%s at stage %s; lines %r" % (n.name, t, n.stage, [l.raw for l in n.conn.lines[n.seen:]]))
        if n.conn.closed:
            self.fail("closed", "%s: the proxy closed the connection at stage %s" % (n.name, n.stage))
        got = [l for l in self.lines(n) if l != ["PONG", t]]
        if got:
            self.fail("uncalled", "%s: the proxy sent %r at stage %s" % (n.name, got, n.stage))
        self.cov.judge(("ping", n.stage))

    # -- ends of connections ---------------------------------------------------------
    def lose(self, n, what):
        """The server ends the connection."""
        r = self.r
        kind = r.choice(["fin", "fin", "rst", "error", "half", "lines"])
        if kind == "error":
            n.conn.send(r.choice([b"ERROR :Closing Link: x (Excess Flood)", b"ERROR", b":irc.test ERROR :x"]))
        elif kind == "half":
            n.conn.send_raw(r.choice([b":irc.te", b"PIN", b":"]))
        elif kind == "lines":
            n.conn.send(*[b":irc.test NOTICE * :bye"] * r.choice([1, 20]))
        self.note(n, "server ends the connection: " + kind)
        n.conn.close(rst=kind == "rst")
        self.lost(n, what + kind)

    def lost(self, n, what):
        w = self.w
        for _ in range(3):
            w.nudge()
        self.cov.judge(("lost", n.stage, what))
        self.cov.ev("losses")
        self.remember(n)
        n.idx = (n.idx + 1) % len(n.srvs)
        self.pending(n)
        self.told(n)

    def remember(self, n):
        """What has to be joined after the next login."""
        if n.stage == "ready":
            n.auto = {k: [c, ks if ks else {None}] for k, (c, ks) in n.cur_chans.items()}
            n.auto.update(n.unanswered)
        n.stage = "lost"

    def told(self, n):
        c = n.client
        if c is None:
            return
        try:
            self.w.pump(lambda: c.pos < len(c.lines) or c.closed, limit=10)
        except e2e.Hang:
            self.fail("untold", "%s: the client was not told about the end of the connection" % n.name)
        if c.closed:
            self.fail("client", "%s: the client was disconnected with the network" % n.name)
        self.w.sync_client(c)
        got = c.take()
        quits = {l.origin.split(b"!")[0] for l in got if l.args[0] == b"QUIT"}
        miss = {x.encode() for x in n.others} - quits
        if miss:
            self.fail("untold", "%s: no QUIT for %r when the connection was lost; got %r" % (n.name, miss, [l.raw for l in got]))
        n.others = set()
        self.cov.judge(("told", len(quits)))

    def pending(self, n):
        n.state, n.deadline = "pending", self.now + n.interval

    # -- time --------------------------------------------------------------------------
    def elapse(self, d):
        """Let time pass; connections of other networks stay alive, due attempts are made."""
        end = self.now + d
        while self.now < end:
            t = min([end, self.now + 45] + [x.deadline for x in self.nets if x.state == "pending"])
            for x in self.nets:
                if x.state == "up" and not x.silent:
                    self.settle(x)
            if t > self.now + 1:
                self.w.advance(t - 1 - self.now)
                self.now = t - 1
                for x in self.nets:
                    if x.state != "up":
                        self.quiet(x, "its next attempt is due at %s" % (x.deadline if x.state == "pending" else "no time"))
            due = [x for x in self.nets if x.state == "pending" and x.deadline <= t]
            for x in due:
                self.prepare_servers(x)
            self.w.advance(t - self.now)
            self.now = t
            for x in due:
                self.attempt(x)

    def until_up(self, n):
        for _ in range(60):
            if n.state != "pending":
                return
            self.elapse(max(1, n.deadline - self.now))

    # -- operations ------------------------------------------------------------------------
    def do_elapse(self, n):
        self.elapse(self.r.choice([1, 4, 5, 30, 59, 61, 300]))

    def do_settle(self, n):
        if n.state == "pending":
            self.until_up(n)

    def do_lose(self, n):
        if n.state == "up":
            self.lose(n, "traffic")

    def do_ping(self, n):
        if n.state == "up":
            self.ping(n)

    def do_remotd(self, n):
        if n.state == "up":
            self.note(n, "MOTD once more")
            n.conn.send((":irc.test 376 %s :End of MOTD" % n.nick).encode())

    def do_silence(self, n):
        """The server says nothing any more."""
        r, w = self.r, self.w
        if n.state != "up" or len(self.nets) > 2:
            return
        self.settle(n)
        t0 = self.now
        n.silent, n.pinged = True, False
        recover = r.choice([None, None, 30, 60, 75, 110])
        self.note(n, "falls silent" + (" for %d s" % recover if recover else ""))
        while True:
            d = 5
            self.elapse_silent(n, d)
            s = self.now - t0
            for _ in range(2):
                w.nudge()
            if s <= MIN:
                self.lines(n)
                if n.pinged:
                    self.fail("early-ping", "%s: asked whether the server is alive after %d s" % (n.name, s))
            if s >= MIN + 10:
                w.drain(.001)
                if [l for l in self.lines(n) if l[0] != "QUIT" or s <= MAX] or not n.pinged:
                    self.fail("no-ping", "%s: silent server not asked whether it is alive after %d s" % (n.name, s))
            if n.conn.closed and s <= MAX:
                self.fail("early-timeout", "%s: given up after %d s of silence" % (n.name, s))
            if recover and s >= recover:
                n.silent = False
                n.conn.send(b":irc.test NOTICE * :back")
                self.w.pump(lambda: True)
                self.sync(n)
                self.lines_after_silence(n)
                self.cov.judge(("silence", recover))
                self.catch_up()
                return
            if s >= MAX + 10:
                try:
                    w.pump(lambda: n.conn.closed, limit=5)
                except e2e.Hang:
                    self.fail("no-timeout", "%s: not given up after %d s of silence" % (n.name, s))
                # the moment it gave up is only known to be within the last steps
                n.silent = False
                self.remember(n)
                n.idx = (n.idx + 1) % len(n.srvs)
                self.cov.judge(("silence", None))
                self.after_timeout(n)
                return

    def lines_after_silence(self, n):
        n.silent = True
        got = self.lines(n)
        n.silent = False
        if got:
            self.fail("uncalled", "%s: the proxy sent %r after a silence" % (n.name, got))

    def elapse_silent(self, n, d):
        for x in self.nets:
            if x is not n and x.state == "up":
                self.settle(x)
        others = [x for x in self.nets if x is not n and x.state == "pending" and x.deadline <= self.now + d]
        for x in others:
            # keep other networks out of it
            self.elapse_other(x)
        self.w.advance(d)
        self.now += d

    def elapse_other(self, x):
        """An attempt of another network comes due during a silence: refuse it."""
        x.fate = "refuse"
        for s in x.srvs:
            if s.lsock is not None:
                s.close()
        x.manual = True
        x.deadline = self.now + 10 ** 6
        x.late = True

    def after_timeout(self, n):
        """Given up at an unknown moment: the next attempt is due within the interval, and not before it can be."""
        self.told_timeout(n)
        self.resync(n)
        self.catch_up()

    def catch_up(self):
        for x in self.nets:
            if getattr(x, "late", False):
                x.late = False
                self.resync(x)

    def told_timeout(self, n):
        self.told(n)

    def quietly(self, n):
        """Connections made at a moment that was not known do not count."""
        self.w.nudge()
        self.w.drain(.002)
        for j, s in enumerate(n.srvs):
            for c in s.accepted[n.counts[j]:]:
                c.close()
            n.counts[j] = len(s.accepted)

    def resync(self, n):
        """Make the time of the next attempt known again: force it."""
        n.manual = True
        n.state = "off"
        self.user(n, "DISCONNECT")
        self.quietly(n)
        self.prepare_servers(n)
        n.fate = "ok" if n.fate == "refuse" else n.fate
        for j in range(len(n.srvs)):
            if n.srvs[j].lsock is None:
                s = e2e.FakeServer(self.w, n.srvs[j].name, n.srvs[j].port)
                s.accepted = n.srvs[j].accepted
                n.srvs[j] = s
        self.user(n, "CONNECT")
        self.attempt(n)

    def user(self, n, cmd):
        self.note(n, "user: " + cmd)
        self.w.admin("%s %s" % (cmd, n.name))

    def do_disconnect(self, n):
        if n.state == "off":
            return
        was = n.state
        if was == "up":
            self.settle(n)
        self.user(n, "DISCONNECT")
        if was == "up":
            try:
                self.w.pump(lambda: n.conn.closed, limit=10)
            except e2e.Hang:
                self.fail("disconnect", "%s: still connected after DISCONNECT" % n.name)
            if not any(l.args[:1] == [b"QUIT"] for l in n.conn.lines):
                self.fail("quit", "%s: left without QUIT; last lines %r" % (n.name, [l.raw for l in n.conn.lines[-3:]]))
            self.remember(n)
        n.state = "off"
        if n.client:
            self.w.sync_client(n.client)
            n.client.take()
        n.others = set()
        self.cov.judge(("disconnect", was))
        self.elapse(n.interval * 3 + 1)

    def do_connect(self, n):
        if n.state == "up":
            self.settle(n)
            self.user(n, "CONNECT")
            self.settle(n)
            self.quiet(n, "it is connected already")
            return
        if n.state == "pending" and self.r.random() < .6:
            return
        n.manual = True
        self.prepare_servers(n)
        self.user(n, "CONNECT")
        self.attempt(n)

    def do_next(self, n):
        if n.state == "up":
            self.settle(n)
            old = n.conn
            self.remember(n)
        n.manual = True
        self.prepare_servers(n)
        up = n.state == "up"
        self.user(n, "NEXTSERVER")
        if up:
            self.w.pump(lambda: old.closed, limit=10, what="end of the old connection")
            if n.client:
                self.w.sync_client(n.client)
                n.client.take()
        n.others = set()
        self.attempt(n)

    # -- traffic ----------------------------------------------------------------------------
    others = ()

    def do_traffic(self, n):
        r = self.r
        if n.state != "up":
            return
        if not hasattr(n, "others"):
            n.others = set()
        me = ":%s!u@real.host" % n.nick
        L = []
        for _ in range(r.randint(1, 4)):
            op = r.choice(["answer", "answer", "refuse", "join", "part", "kick", "key", "nokey", "324", "nick", "names", "msg"])
            ch = r.choice(sorted(n.cur_chans)) if n.cur_chans else None
            if op == "answer" and n.unanswered:
                k = r.choice(sorted(n.unanswered))
                c, keys = n.unanswered.pop(k)
                L.append("%s JOIN %s" % (me, r.choice([c, ":" + c, c.upper() if c.isascii() else c])))
                n.cur_chans[k] = (c, set(keys))
            elif op == "refuse" and n.unanswered:
                k = r.choice(sorted(n.unanswered))
                c, keys = n.unanswered.pop(k)
                n.cfgkeys[k] = set(keys)
                L.append(":irc.test %s %s %s :Cannot join channel" % (r.choice(["471", "473", "474", "475", "403", "405"]), n.nick, c))
            elif op == "join" and not n.unanswered:
                c = r.choice(["#new", "#New2", "#none", "&x", "#one"])
                if c.lower() not in n.cur_chans:
                    L.append("%s JOIN %s" % (me, c))
                    n.cur_chans[c.lower()] = (c, set(n.cfgkeys.get(c.lower(), {None})) | {None})
            elif op == "part" and ch:
                L.append("%s PART %s" % (me, n.cur_chans[ch][0]))
                n.cfgkeys[ch] = n.cur_chans.pop(ch)[1] | {None} | n.cfgkeys.get(ch, set())
            elif op == "kick" and ch:
                L.append(":op!o@h KICK %s %s :out" % (n.cur_chans[ch][0], n.nick))
                n.cfgkeys[ch] = n.cur_chans.pop(ch)[1] | {None} | n.cfgkeys.get(ch, set())
            elif op == "key" and ch:
                k = "newk%d" % r.randrange(100)
                L.append(":op!o@h MODE %s +%s %s" % (n.cur_chans[ch][0], r.choice(["k", "tk", "kn"]), k))
                n.cur_chans[ch] = (n.cur_chans[ch][0], {k})
            elif op == "nokey" and ch:
                L.append(":op!o@h MODE %s -k %s" % (n.cur_chans[ch][0], r.choice(["*", "key0"])))
                n.cur_chans[ch] = (n.cur_chans[ch][0], n.cur_chans[ch][1] | {None} | n.cfgkeys.get(ch, set()) | set(n.auto.get(ch, [0, ()])[1]))
            elif op == "324" and ch:
                k = r.choice([None, "modek"])
                L.append(":irc.test 324 %s %s %s" % (n.nick, n.cur_chans[ch][0], "+ntk modek" if k else "+nt"))
                n.cur_chans[ch] = (n.cur_chans[ch][0], {k})
            elif op == "nick":
                new = r.choice(["newme", "Other1", "me"])
                if new != n.nick:
                    L.append("%s NICK %s" % (me, new))
                    n.nick = new
                    n.nicks = {n.cfgnick, new}
                    me = ":%s!u@real.host" % n.nick
            elif op == "names" and ch:
                o = ["bob", "carl"]
                c = n.cur_chans[ch][0]
                L += [":bob!b@h JOIN %s" % c, ":carl!c@h JOIN %s" % c]
            elif op == "msg":
                L.append(":bob!b@h PRIVMSG %s :hi" % n.nick)
        for l in L:
            self.note(n, "<- " + l)
            n.conn.send(l.encode())
        self.sync(n)
        got = self.lines(n)
        if got:
            self.fail("uncalled", "%s: the proxy sent %r on %r" % (n.name, got, L))
        self.cov.ev("lines", len(L))

    # -- clients ------------------------------------------------------------------------------
    def do_client(self, n):
        w = self.w
        if n.client:
            n.client.close()
            w.nudge()
            n.client = None
            return
        if n.state == "off":
            return          # attaching would connect it
        n.others = set()
        n.client = w.attach(n.nick, n.name)
        # the proxy may ask the server for the client's nick
        w.sync_client(n.client)
        n.client.take()

    def do_ask(self, n):
        """The client says something."""
        w, r = self.w, self.r
        if not n.client:
            return
        t = "ask%d" % r.randrange(10 ** 6)
        l = r.choice(["PRIVMSG bob :%s", "PRIVMSG #one :%s", "JOIN #%s", "XYZ %s"]) % t
        w.sync_client(n.client)
        n.client.take()
        n.client.send(l.encode())
        w.sync_client(n.client)
        if n.state == "up":
            self.sync(n)
            got = self.lines(n)
            if len(got) != 1 or t not in got[0][-1]:
                self.fail("forward", "%s: %r of the client arrived as %r" % (n.name, l, got))
            if l.startswith("JOIN"):
                n.conn.send((":irc.test 403 %s #%s :No such channel" % (n.nick, t)).encode())
        elif not l.startswith("XYZ"):
            got = n.client.take()
            if not any(x.args and x.args[0].isdigit() for x in got):
                self.fail("offline", "%s: no reply to %r while the network is away; got %r" % (n.name, l, [x.raw for x in got]))
        self.cov.judge(("ask", n.state))

    # -- networks a client asks for while it logs in ------------------------------------------
    def asked(self):
        w, r = self.w, self.r
        srv, oip = w.server("net0"), w.ip
        if r.random() < .5:     # on the same port of another host
            ip, w.ip = w.ip, e2e.world_ip()
            other, oip, w.ip = w.server("other", srv.port), w.ip, ip
        else:
            other = w.server("other")
        create = r.choice([None, "true", "false"])
        auto = r.random() < .5
        w.write_config({"autosave": "false", "create-implicit": create, "autoconnect": "net0" if auto else None, "default-nick": "dnick", "default-username": "duser",
                        "default-fullname": "D Full", "replication": "none"},
                       [("net0", {"nick": "me", "username": "u", "fullname": "F Full", "servers": "irc://%s:%d" % (w.ip, srv.port)})])
        w.start()
        live = {}

        def login(s, want):
            try:
                w.pump(lambda: s.accepted and (s.accepted[0].closed or any(l.args[:1] == [b"USER"] for l in s.accepted[0].lines)), what="login")
            except e2e.Hang:
                self.fail("asked:login", "no login at %s" % s.name)
            c = live[s] = s.accepted[0]
            got = [l.args for l in c.lines][:len(want)]
            if got != want:
                self.fail("asked:login", "logged in at %s as %r, expected %r" % (s.name, got, want))
            w.login_server(c, want[-2][1])
            w.sync_server(c)
            self.cov.ev("logins")
        own = [[b"NICK", b"me"], [b"USER", b"u", b"a", b"a", b"F Full"]]
        if auto:
            login(srv, own)
        for k in range(r.randint(1, 5)):
            what = r.choice(["name", "server", "new", "new"])
            pre = [("NICK", "cl%d" % k), ("USER", "user%d" % k, "0", "*", ":Real %d" % k)]
            r.shuffle(pre)
            if r.random() < .4:
                pre.insert(r.randint(0, 1), ("PASS", "srvpw%d" % k))
            last = max(i for i, l in enumerate(pre) if l[0] != "PASS")
            at = r.randint(0, last)
            con = {"name": ("CONNECT", r.choice(["net0", "NET0"])) + r.choice([(), ("6667",), ("1",)]), "server": ("CONNECT", w.ip, str(srv.port)), "new": ("CONNECT", oip, str(other.port))}[what]
            known = {l[0]: l for l in pre[:at]}
            pre.insert(at, con)
            lines = [" ".join(l) for l in pre]
            self.log.append("client %d: %r; create-implicit %s" % (k, lines, create))
            cl = w.connect("cl%d" % k)
            cl.send("PASS secret", *lines)
            if what == "new" and create == "false":
                for _ in range(3):
                    w.nudge()
                w.drain(.002)
                if other.accepted:
                    self.fail("asked:created", "a network was created though create-implicit is off")
            else:
                s = other if what == "new" else srv
                if s not in live:
                    if s is srv:
                        want = own
                    else:
                        n, u = known.get("NICK", (0, "dnick")), known.get("USER", (0, "duser", 0, 0, ":D Full"))
                        want = [[b"NICK", n[1].encode()], [b"USER", u[1].encode(), b"a", b"a", u[4][1:].encode()]]
                        if "PASS" in known:
                            want.insert(0, [b"PASS", known["PASS"][1].encode()])
                    login(s, want)
                try:
                    w.pump(lambda: cl.closed or any(l.args[:1] == [b"001"] for l in cl.lines), what="welcome")
                except e2e.Hang:
                    self.fail("asked:welcome", "the client was not welcomed: %r" % [l.raw for l in cl.lines])
                w.sync_client(cl)
                t = w.token().encode()
                for x, c in live.items():
                    c.send(b":x!u@h NOTICE someone :%s from %s" % (t, x.name.encode()))
                    w.sync_server(c)
                w.sync_client(cl)
                got = [l.args[2] for l in cl.lines if l.args[0] == b"NOTICE" and len(l.args) > 2 and l.args[2].startswith(t)]
                if got != [t + b" from " + s.name.encode()]:
                    self.fail("asked:network", "the client asked for %s and hears %r" % (s.name, got))
            names = sorted(l.decode().split(": ")[0] for l in w.admin("LISTNETWORKS"))
            exp = sorted(["net0"] + ([oip] if other in live else []))
            if names != exp:
                self.fail("asked:networks", "networks are %r, expected %r" % (names, exp))
            for x in live:
                if len(x.accepted) != 1:
                    self.fail("asked:twice", "%d connections to %s" % (len(x.accepted), x.name))
            self.cov.judge(("asked", what, create, auto, sorted(known) and tuple(sorted(known))))
            if r.random() < .5:
                cl.close()
        w.stop()

    # -- networks that are programs ----------------------------------------------------------
    def program(self):
        w, r = self.w, self.r
        srv = w.server("prog")
        a = Net()
        a.name = "tcp"
        a.srvs = [w.server("tcp")]
        path = os.path.join(w.dir, "prog.py")
        with open(path, "w") as f:
            f.write(PROG % (w.ip, srv.port))
        os.chmod(path, 0o755)
        bad = os.path.join(w.dir, "missing")
        w.write_config({"replication": "none", "autoconnect": "tcp;prog;bad", "admin-log": "false"},
                       [("tcp", {"nick": "me", "username": "u", "fullname": "F", "servers": "%s:%d" % (w.ip, a.srvs[0].port)}),
                        ("prog", {"nick": "me", "username": "u", "fullname": "F", "program": path, "reconnect-interval": "2"}),
                        ("bad", {"nick": "me", "username": "u", "fullname": "F", "program": bad, "reconnect-interval": "3"})])
        w.vctl.set("freeze", 1)
        w.vctl.set("frozen_ns", 10 ** 12)
        w.vctl.set("frozen_rt_ns", 1700000000 * 10 ** 9)
        w.start()
        w.pump(lambda: a.srvs[0].accepted, limit=10, what="connection")
        tcp = a.srvs[0].conn
        w.login_server(tcp, "me")
        base = len(tcp.lines)
        for k in range(self.case["steps"]):
            w.pump(lambda: len(srv.accepted) > k, limit=20, what="start of the program")
            c = srv.conn
            w.login_server(c, "me")
            fds = [l for l in c.lines if l.args[0] == b"FDS"][0].args[1]
            if fds != b"0":
                self.fail("inherit", "a program run as network inherits %s connections of the proxy" % fds.decode())
            t = "x%d" % k
            cl = w.attach("me", "prog")
            cl.send(("PRIVMSG bob :" + t).encode())
            w.pump(lambda: any(l.args[-1] == t.encode() for l in c.lines), limit=10, what="line to the program")
            c.send((":bob!b@h PRIVMSG me :re " + t).encode())
            w.pump(lambda: any(l.args[-1] == b"re " + t.encode() for l in cl.lines), limit=10, what="line from the program")
            w.sync_client(cl)
            cl.close()
            c.close()
            w.nudge()
            # let the program notice the end
            for _ in range(200):
                if len([p for p in self.children() if p[1] != "Z"]) == 0:
                    break
                w.drain(.01)
            for _ in range(3):
                w.nudge()
            w.drain(.01)
            z = [p for p in self.children() if p[1] == "Z"]
            if len(z) > 1:
                self.fail("zombie", "ended programs are left behind: %r" % z)
            w.sync_server(tcp)
            new = [l.raw for l in tcp.lines[base:] if l.args[0] not in (b"PONG", b"USERHOST")]
            if new or tcp.closed:
                self.fail("disturbed", "while programs came and went, the other network got %r" % new)
            w.advance(1)
            w.sync_server(tcp)
            w.advance(1)
            self.cov.judge(("program", "cycle"))
        w.stop()

    def children(self):
        pid = self.w.proc.pid
        res = []
        for p in os.listdir("/proc"):
            if p.isdigit():
                try:
                    f = open("/proc/%s/stat" % p).read().rsplit(")", 1)[1].split()
                    if int(f[1]) == pid:
                        res.append((int(p), f[0]))
                except OSError:
                    pass
        return res
