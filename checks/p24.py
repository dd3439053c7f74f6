"""P24: what comes and goes leaves nothing behind."""
import os, signal, time
import build, core, e2e
from core import Violation
from hostile import Hostile
from hostile_client import HostileClient

ID = "P24"
TECHNIQUE = "runtime monitoring: the same history of connections and losses is repeated; the allocator of the sanitized proxy and its descriptor table are read at the same quiet point after every repetition and must not keep growing"
LEVEL = "exploration"
LEVEL_NOTE = "Every kind of connection ending on its own and randomized histories of them, each repeated until growth shows or is excluded to the byte."
RULE = "one evaluation per repetition whose quiet point was compared with the one before; distinct = kinds of event in the repeated history"
ASSUMPTIONS = ["memory is compared in bytes the program asked the allocator for",
               "only growth by every one of the last repetitions counts; tables that double now and then do not",
               "the repeated history names the same people and channels each time"]
CASE_LIMIT = 200
_bin = [None]
REPS = 7, 12, 24

ENDS = ["close", "rst", "quit", "partial"]


def prepare():
    _bin[0] = build.build_proxy("asan")


def kinds():
    return sorted(x[3:] for x in dir(Run) if x.startswith("do_"))


def cases(tier, seed):
    n, steps = (240, 12) if tier == "quick" else (4000, 22)
    out = [{"seed": seed * 1301 + i, "kinds": [k]} for i, k in enumerate(kinds())]
    if tier != "quick":
        out = [dict(c, seed=c["seed"] + 97 * j) for j in range(4) for c in out]
    return out + [{"seed": seed * 1301 + 500 + i, "steps": steps} for i in range(n)]


def run_case(case, cov):
    w = e2e.World(_bin[0], "p24", unpriv=True)
    try:
        Run(w, case, cov).run()
    finally:
        w.close()


class Run:
    def __init__(self, w, case, cov):
        self.w, self.case, self.cov = w, case, cov

    def run(self):
        w = self.w
        r = self.r = core.case_rng(self.case)
        self.srv = w.server("s")
        self.dead = w.server("d")
        self.dead.close()
        self.variant = r.random()
        g = {"default-network": "net0", "autoconnect": "net0", "report-time": r.choice(["never", "always"]),
             "replication": r.choice(["none", "simple", "highlight"]), "autosave": "false", "admin-log": "false", "admin-user": "ctrlproxy"}
        if r.random() < .5:
            g.update({"auto-away-enable": "true"})
        if r.random() < .4:
            g["logging"] = "irssi"
        w.write_config(g, [("net0", {"nick": "me", "username": "user", "fullname": "F", "servers": "%s:%d" % (w.ip, self.srv.port), "queue-speed": "0", "reconnect-interval": "5"}),
                           ("other", {"nick": "me", "username": "user", "fullname": "F", "servers": "%s:%d" % (w.ip, self.dead.port), "queue-speed": "0", "reconnect-interval": "5"})])
        w.start()
        self.login()
        kind = self.case.get("kinds") or [r.choice(kinds()) for _ in range(self.case["steps"])]
        self.history = kind
        seeds = [r.getrandbits(32) for _ in kind]
        if "kinds" in self.case:            # the same thing several ways, in every repetition
            kind, seeds = kind * 4, [r.getrandbits(32) for _ in range(4)]
        heap, fds = [], []
        for reps in REPS:
            for rep in range(reps):
                for k, s in zip(kind, seeds):
                    self.r = core.random.Random(s)
                    getattr(self, "do_" + k)()
                    self.cov.ev(k)
                h, f = self.quiet()
                heap.append(h)
                fds.append(f)
                self.cov.judge(tuple(sorted(set(kind)))[:3])
            # the first repetition is allowed to fill tables
            k = (len(heap) - 1) // 3
            low = lambda v: [min(v[-3 * k:-2 * k]), min(v[-2 * k:-k]), min(v[-k:])]
            grown = [what for what, v in (("memory", heap), ("descriptors", fds)) if low(v)[0] < low(v)[1] < low(v)[2]]
            if not grown:
                break
            self.cov.ev("looked-longer")
        for what in grown:
            self.fail(what, heap if what == "memory" else fds)
        self.cov.sample("%s: heap %s descriptors %s" % (kind[:4], heap, fds))

    def fail(self, what, vals):
        raise Violation("%s:%s" % (what, self.case["kinds"][0] if "kinds" in self.case else "mixed"),
                        "at the quiet points: %r (growth %r)\nrepeated history: %r" % (vals, [b - a for a, b in zip(vals, vals[1:])], self.history))

    def quiet(self):
        """Nobody but the server is connected."""
        w = self.w
        w.sync_server(self.s)
        # questions nobody answers are remembered for ten minutes, with who asked
        for _ in range(7):
            w.advance(100)
            w.sync_server(self.s)
        c = self.attach()
        c.send("PING x", "WHOIS bob")
        w.sync_server(self.s)
        self.s.send(":irc.test 318 me bob :End")
        w.sync_server(self.s)
        w.sync_client(c)
        c.close()
        self.settle()
        self.s.take()
        del self.s.lines[:]
        self.s.pos = 0
        hs, fs = [], []
        for _ in range(6):
            w.nudge()
            self.settle()
            hs.append(w.vctl.get("heap"))
            fs.append(w.nfds())
        return min(hs[1:]), min(fs)

    def settle(self):
        """The proxy has nothing left to do: it is waiting in poll()."""
        n = 0
        for _ in range(2000):
            with open("/proc/%d/stat" % self.w.proc.pid) as f:
                n = n + 1 if f.read().rpartition(")")[2].split()[0] == "S" else 0
            if n == 3:
                return
            time.sleep(.0002)
        raise e2e.Hang("never idle")

    def login(self):
        w = self.w
        w.pump(lambda: self.srv.conn is not None and not self.srv.conn.closed and any(l.args and l.args[0] == b"USER" for l in self.srv.conn.lines), what="login")
        self.s = s = self.srv.conn
        w.login_server(s, "me", userhost="h")
        s.send(":me!user@h JOIN #c", ":irc.test 353 me = #c :me @bob", ":irc.test 366 me #c :End")
        w.sync_server(s)

    # -- endings ---------------------------------------------------------------
    def end(self, c, how=None):
        w, r = self.w, self.r
        how = how or r.choice(ENDS)
        if c.closed:
            return
        if how == "quit":
            c.send(r.choice(["QUIT", "QUIT :bye"]))
            w.pump(lambda: c.closed, what="closing after QUIT")
        elif how == "partial":
            c.send_raw(b"PRIVMSG #c :half a li")
            w.drain(.001)
            c.close()
        else:
            c.close(rst=how == "rst")
        w.nudge()

    def raw(self, data=b"", pause=False):
        c = self.w.connect()
        if data:
            c.send_raw(data)
            if pause:
                self.w.nudge()
        return c

    def attach(self, **kw):
        return self.w.attach("me", "net0", **kw)

    # -- events ----------------------------------------------------------------
    def do_knock(self):
        """Connections that never authenticate."""
        r = self.r
        data = r.choice([b"", b"\r\n", b"N", b"NICK", b"NICK x\r\n", b"NICK x\r\nUSER a b c :d\r\n", b"PASS wrong\r\n", b"PASS wrong\r\n" * 3, b"PASS\r\n", b"PASS secret:nowhere\r\nNICK x\r\nUSER a b c :d\r\n",
                         b"PASS secret\r\n", b"PASS secret:net0\r\nNICK x\r\n", b"PASS secret:net0\r\nNICK x\r\nNICK y\r\nUSER a\r\n", b"JOIN #x\r\n", b"QUIT\r\n", b"PASS secret\r\nQUIT\r\n", b"PASS secret:net0\r\nPASS secret:net0\r\nUSER x x x x\r\nUSER y y y y\r\n",
                         b"CONNECT x\r\n", b"PASS secret\r\nCONNECT nowhere.invalid 1\r\n"])
        c = self.raw(data, r.random() < .7)
        self.w.drain(.001)
        self.end(c, r.choice(["close", "rst", "partial"]))

    def do_socks(self):
        """A SOCKS conversation cut off anywhere."""
        r = self.r
        parts = [b"\x05\x01" + r.choice([b"\x02", b"\x00", b"\x01"]), b"\x01\x01u" + r.choice([b"\x06secret", b"\x02pw", b"\x00"]), b"\x05\x01\x00\x03\x04net0\x1a\x0b", b"NICK me\r\nUSER a b c :d\r\n"]
        data = b"".join(parts[:r.randint(1, 4)])
        data = data[:len(data) - r.choice([0, 0, 1, 2, 3])]
        c = self.raw(b"")
        for i in range(0, len(data), 7):
            if c.closed:
                break
            c.send_raw(data[i:i + 7])
            self.w.nudge()
        self.end(c, r.choice(["close", "rst"]))

    def do_attach(self):
        c = self.attach()
        self.end(c)

    def do_busy(self):
        """A client that asks for things, some of which are never answered."""
        w, r = self.w, self.r
        c = self.attach()
        for _ in range(r.randint(1, 6)):
            c.send(r.choice(["WHOIS bob", "WHO #c", "WHO #nowhere", "NAMES #c", "MODE #c", "MODE #c b", "LIST", "TOPIC #c", "PRIVMSG bob :\x01PING 1\x01", "PRIVMSG ctrlproxy :help", "CTRLPROXY HELP", "CTRLPROXY ECHO x",
                             "CTRLPROXY NONSENSE", "PRIVMSG #c :hello", "JOIN #d", "PART #d", "NICK me2", "MOTD", "AWAY :x", "AWAY", "PING x", "CTRLPROXY BACKLOG", "CTRLPROXY CHARSET UTF-8", "CTRLPROXY LISTNETWORKS",
                             "PRIVMSG me :\x01VERSION\x01", "NOTICE bob :x", "USERHOST bob", "WHOWAS x", "CTRLPROXY SET report-time", "INVITE x #c", "PASS x", "USER a b c d", ":", "", "STATS u", "ISON bob"]))
            if r.random() < .3:
                w.sync_client(c)
            if r.random() < .3:
                self.s.send(r.choice([":irc.test 311 me bob b h * :x", ":irc.test 318 me bob :End", ":irc.test 401 me bob :No such nick", ":irc.test 315 me #c :End", ":bob!b@h NOTICE me :\x01PING 1\x01", ":irc.test 323 me :End"]))
        self.end(c)
        w.sync_server(self.s)

    def do_crowd(self):
        """Several clients at once."""
        w = self.w
        cs = [self.attach() for _ in range(3)]
        self.s.send(*[":bob!b@h PRIVMSG #c :%d" % i for i in range(5)])
        for c in cs:
            c.send("PRIVMSG #c :x")
        w.sync_server(self.s)
        for c in cs:
            self.end(c)
        w.sync_server(self.s)

    def do_deaf(self):
        """A client that does not read ends with output pending."""
        w = self.w
        c = self.attach()
        w.vctl.set("wr_block", 1)
        self.s.send(*[":bob!b@h PRIVMSG #c :%d %s" % (i, "x" * 100) for i in range(20)])
        w.drain(.005)
        c.close(rst=self.r.random() < .5)
        w.drain(.005)
        w.vctl.set("wr_block", 0)
        w.sync_server(self.s)
        w.nudge()

    def do_socket(self):
        """The local client socket."""
        w, r = self.w, self.r
        c = w.connect_unix(os.path.join(w.conf, "socket"))
        data = r.choice([b"", b"NICK me\r\n", b"PASS secret:net0\r\nNICK me\r\nUSER a b c :d\r\n", b"NICK me\r\nUSER a b c :d\r\n", b"PASS wrong\r\n"])
        if data:
            c.send_raw(data)
        w.nudge()
        self.end(c, r.choice(["close", "partial", "rst"]))

    def do_admin(self):
        """Administration sessions."""
        w, r = self.w, self.r
        a = w.connect_unix(os.path.join(w.conf, "admin"), "adm")
        for _ in range(r.randint(0, 4)):
            a.send_raw(r.choice([b"LISTNETWORKS\n", b"HELP\n", b"HELP set\n", b"SET\n", b"SET report-time never\n", b"SET default-client-charset UTF-8\n", b"NONSENSE\n", b"\n", b"ECHO x\n", b"LISTLISTENER\n", b"SET motd-file /nonexistent\n",
                                 b"DETACH\n", b"CHARSET x\n", b"BACKLOG\n", b"SET autosave true\n", b"SET nonsense x\n", b"ECHO", b"HELP network\n", b"DUMPJOINEDCHANNELS net0\n", b"NETWORK LIST\n", b"NETWORK SET net0\n", b"SAVECONFIG\n"]))
        w.drain(.001)
        a.close(rst=r.random() < .3)
        w.nudge()
        w.admin("SET default-client-charset")
        w.admin("SET report-time never")

    def do_network(self):
        """A network appears and goes, connected or not."""
        w, r = self.w, self.r
        w.admin("ADDNETWORK tmp")
        w.admin("ADDSERVER tmp %s:%d" % (w.ip, self.dead.port))
        if r.random() < .6:
            w.admin("CONNECT tmp")
            w.nudge()
            if r.random() < .5:
                w.advance(r.choice([1, 12, 70]))
                w.nudge()
            if r.random() < .5:
                w.admin("DISCONNECT tmp")
        w.admin("DELNETWORK tmp")
        w.nudge()
        self.alive()

    def do_listener(self):
        w, r = self.w, self.r
        p = w.nextport + 900
        w.admin("STARTLISTENER %s:%d%s" % (w.ip, p, r.choice([" pw", " pw net0"])))
        c = None
        if r.random() < .7:
            c = w.connect(port=p)
            c.send("PASS pw", *(["NICK me", "USER a b c d"] if r.random() < .5 else []))
            w.nudge()
        w.admin("STOPLISTENER %s:%d" % (w.ip, p))
        if c:
            self.end(c, r.choice(["close", "rst"]))
        w.nudge()

    def do_failing(self):
        """A network whose server refuses connections, over and over."""
        w = self.w
        w.admin("CONNECT other")
        for _ in range(self.r.randint(1, 3)):
            w.nudge()
            w.advance(6)
        w.admin("DISCONNECT other")
        w.nudge()
        self.alive()

    def alive(self):
        """The clock has been moved: keep the server from timing out."""
        self.w.sync_server(self.s)

    def lose(self, how):
        w, r = self.w, self.r
        if how == "close":
            self.s.close()
        elif how == "rst":
            self.s.close(rst=True)
        elif how == "error":
            self.s.send("ERROR :Closing Link")
            w.sync_server(self.s)
            self.s.close()
        elif how == "next":
            w.admin("NEXTSERVER net0")
        elif how == "timeout":
            w.advance(70)
            w.advance(200)
        elif how == "cmd":
            w.admin("DISCONNECT net0")
        for _ in range(3):
            w.nudge()

    def do_loss(self):
        """The connection to the server is lost, with or without clients."""
        w, r = self.w, self.r
        c = self.attach() if r.random() < .5 else None
        if c and r.random() < .5:
            c.send("WHOIS bob", "JOIN #d", "PRIVMSG bob :\x01PING 1\x01")
            w.sync_client(c)
        if r.random() < .5:
            self.s.send(":me!user@h JOIN #d", ":irc.test 353 me = #d :me @bob +carl dave", ":irc.test 366 me #d :End", ":bob!b@h TOPIC #d :x", ":bob!b@h MODE #d +b x!*@*", ":bob!b@h PRIVMSG me :hi")
        how = r.choice(["close", "rst", "error", "timeout", "cmd"])
        n = len(self.srv.accepted)
        self.lose(how)
        if how == "cmd":
            w.admin("CONNECT net0")
        stages = r.randint(0, 2)
        for st in range(stages + 1):
            for _ in range(12):
                w.advance(6)
                if len(self.srv.accepted) > n:
                    break
            w.pump(lambda: len(self.srv.accepted) > n, what="reconnect")
            if st == stages:
                break
            n = len(self.srv.accepted)
            s = self.srv.conn
            if r.random() < .5:
                s.send(":irc.test 001 me :Welcome", ":irc.test 005 me CHANTYPES=# PREFIX=(ov)@+ NETWORK=x :are supported")
                w.nudge()
            s.close(rst=r.random() < .3)
            for _ in range(3):
                w.nudge()
        self.login()
        self.s.send(":me!user@h PART #d", ":irc.test 403 me #d :x")
        w.sync_server(self.s)
        if c:
            self.end(c)

    def do_people(self):
        """Channels and people come and go on the network."""
        w, r = self.w, self.r
        ls = []
        for i in range(r.randint(1, 10)):
            n = "p%d" % i
            ls.append(":%s!u@h JOIN #c" % n)
            if r.random() < .5:
                ls.append(":bob!b@h MODE #c +%s %s" % (r.choice("ov"), n))
            if r.random() < .5:
                ls.append(":%s!u@h PRIVMSG %s :%s" % (n, r.choice(["#c", "me"]), r.choice(["hello", "\x01VERSION\x01", "\x01PING 1\x01", "\x01ACTION x\x01"])))
            if r.random() < .3:
                ls.append(":%s!u@h NICK %sx" % (n, n))
                n += "x"
            ls.append(r.choice([":%s!u@h PART #c", ":%s!u@h QUIT :x", ":bob!b@h KICK #c %s :x"]) % n)
            ls.append(":%s!u@h QUIT :x" % n)
        ls += [":me!user@h JOIN #d", ":irc.test 332 me #d :t", ":irc.test 333 me #d bob 1", ":irc.test 353 me = #d :me @bob x y z", ":irc.test 366 me #d :End", ":irc.test 367 me #d a!*@* bob 1", ":irc.test 368 me #d :End", ":irc.test 324 me #d +k key",
               ":bob!b@h MODE #d +lk 5 abc", ":bob!b@h MODE #c +bbb a b c", ":bob!b@h MODE #c -bbb a b c", ":me!user@h PART #d", ":me!user@h NICK me9", ":me9!user@h NICK me"]
        c = self.attach() if r.random() < .3 else None
        self.s.send(*ls)
        w.sync_server(self.s)
        if c:
            w.sync_client(c)
            self.end(c)

    def do_signals(self):
        w = self.w
        w.proc.send_signal(signal.SIGHUP)
        w.nudge()
        w.admin("SAVECONFIG")

    def do_served(self):
        """A network is added, logs in, is used and is deleted."""
        w, r = self.w, self.r
        name, c = r.choice(["tmp", "Tmp2"]), None
        if not hasattr(self, "tmp"):
            self.tmp = w.server("t")
        w.admin("ADDNETWORK " + name)
        w.admin("ADDSERVER %s %s:%d%s" % (name, w.ip, self.tmp.port, r.choice(["", " pw"])))
        n = len(self.tmp.accepted)
        w.admin("CONNECT " + name)
        w.pump(lambda: len(self.tmp.accepted) > n and any(l.args and l.args[0] == b"USER" for l in self.tmp.conn.lines), what="login of the new network")
        s = self.tmp.conn
        if r.random() < .8:
            nick = [l.args[1] for l in s.lines if l.args[0] == b"NICK"][0].decode()
            w.login_server(s, nick, userhost="h")
            s.send(":%s!user@h JOIN #t" % nick, ":irc.test 332 %s #t :topic" % nick, ":irc.test 353 %s = #t :%s @bob" % (nick, nick), ":irc.test 366 %s #t :End" % nick, ":bob!b@h PRIVMSG #t :x", ":bob!b@h PRIVMSG %s :x" % nick)
            w.sync_server(s)
            c = None
            if r.random() < .7:
                c = w.attach(nick, name)
                c.send("PRIVMSG #t :hello", "WHO #t", "CTRLPROXY BACKLOG", "PRIVMSG bob :\x01VERSION\x01")
                if r.random() < .5:
                    self.end(c)
            w.sync_server(s)
        k = r.random()
        if k < .2:
            w.admin("NETWORK RENAME %s %sx" % (name, name))
            name += "x"
        elif k < .4:
            s.close()
            for _ in range(3):
                w.nudge()
        elif k < .6 and c:
            c.send("CTRLPROXY DELNETWORK " + name)
        w.admin("DELNETWORK " + name)
        w.nudge()
        s.close()
        if c:
            self.end(c)

    def do_settings(self):
        """Settings are changed and changed back."""
        w, r = self.w, self.r
        ks = r.sample([("admin-log", "false"), ("admin-user", "ctrlproxy"), ("auto-away-client-limit", None), ("auto-away-message", None), ("auto-away-nick", None), ("auto-away-time", None), ("default-client-charset", None), ("default-network", "net0"),
                       ("learn-network-name", "true"), ("learn-nickserv", "true"), ("max_who_age", "0"), ("motd-file", None), ("report-time", "never"), ("report-time-offset", "0"), ("default-nick", None), ("default-username", None), ("default-fullname", None),
                       ("replication", "none"), ("logging", "none"), ("password", "secret"), ("bind", None)], 5)
        for k, v in ks:
            w.admin("SET " + k)
            for x in r.sample(["true", "UTF-8", "ISO-8859-1", "bogus", "5", "net0", "simple", "lastdisconnect", "highlight", "custom", "irssi", "always", "text", "/etc/hostname", "-3"], 4):
                if not (k == "bind" and x != "text"):
                    w.admin("SET %s %s" % (k, x))
            if v is None:
                w.admin("UNSET " + k)
            else:
                w.admin("SET %s %s" % (k, v))
        if r.random() < .3:
            w.admin("SAVECONFIG")

    def do_charset(self):
        """Clients with character sets, and lines that cannot be converted."""
        w, r = self.w, self.r
        c = self.attach()
        c.send("CTRLPROXY CHARSET " + r.choice(["ISO-8859-1", "UTF-16", "ASCII", "bogus", "UTF-8"]))
        w.nudge()
        if r.random() < .5:
            w.admin("CHARSET net0 " + r.choice(["ISO-8859-15", "nosuch"]))
        self.s.send(*[b":bob!b@h PRIVMSG #c :" + r.choice(["caf\u00e9", "\u20ac", "plain"]).encode(r.choice(["utf-8", "iso-8859-15"]), "replace") for _ in range(6)])
        c.send_raw(b"PRIVMSG #c :caf\xc3\xa9\r\nPRIVMSG #c :\xff\xfe\r\nPRIVMSG #c :x\r\n")
        w.sync_server(self.s)
        c.close()
        w.nudge()
        w.admin("CHARSET net0 UTF-8")
        w.sync_server(self.s)

    def do_serverjunk(self):
        """The server sends nonsense until the connection is lost."""
        w, r = self.w, self.r
        h = Hostile(r, chans=("#c", "#d"))
        c = self.attach() if r.random() < .5 else None
        for _ in range(25):
            l = h.server_line() if r.random() < .9 else h.garbage()
            self.s.send_raw((l if isinstance(l, bytes) else l.encode("latin-1", "replace")).replace(b"\n", b"") + b"\r\n")
        w.nudge()
        if c:
            self.end(c)
        n = len(self.srv.accepted)
        self.s.close(rst=r.random() < .5)
        for _ in range(3):
            w.nudge()
        for _ in range(12):
            w.advance(6)
            if len(self.srv.accepted) > n:
                break
        w.pump(lambda: len(self.srv.accepted) > n, what="reconnect")
        self.login()

    def do_clientjunk(self):
        """A client sends nonsense."""
        w, r = self.w, self.r
        h = HostileClient(r, ip=w.ip)
        c = self.attach()
        for _ in range(25):
            l = h.line()
            if b"CTRLPROXY" not in l.upper() and b"PROXY" not in l.upper():
                c.send_raw(l + b"\r\n")
        w.nudge()
        if not c.closed:
            self.end(c, r.choice(["close", "rst"]))
        w.sync_server(self.s)

    def do_nickserv(self):
        """Nick names with passwords."""
        w, r = self.w, self.r
        c = self.attach()
        c.send("PRIVMSG NickServ :IDENTIFY " + r.choice(["pw", "pw2", "me pw", ""]), "NICKSERV IDENTIFY pw", "NS IDENTIFY pw", "PRIVMSG NickServ :REGISTER pw me@x", "PRIVMSG NickServ :help")
        w.sync_client(c)
        self.s.send(":NickServ!s@s NOTICE me :This nickname is registered and protected", ":NickServ!s@s NOTICE me :Password accepted")
        w.sync_server(self.s)
        self.end(c)

    def do_ctcp(self):
        """CTCP requests from people to the user, and asked by a client that leaves."""
        w, r = self.w, self.r
        ls = [":bob!b@h PRIVMSG %s :\x01%s\x01" % (r.choice(["me", "#c"]), r.choice(["VERSION", "PING 1 2", "TIME", "CLIENTINFO", "SOURCE", "FINGER", "NONSENSE", "", "ACTION x", "DCC SEND x 1 2 3", "ping"])) for _ in range(8)]
        c = self.attach() if r.random() < .4 else None
        if c:
            c.send("PRIVMSG bob :\x01VERSION\x01", "PRIVMSG #c :\x01PING 1\x01", "NOTICE bob :\x01PING 1\x01", "PRIVMSG me :\x01TIME\x01", "PRIVMSG bob :\x01")
            w.sync_client(c)
        self.s.send(*ls)
        self.s.send(":bob!b@h NOTICE me :\x01VERSION foo\x01", ":bob!b@h NOTICE me :\x01PING 1\x01", ":carl!b@h NOTICE me :\x01NEVER asked\x01")
        w.sync_server(self.s)
        if c:
            self.end(c)

    def do_implicit(self):
        """A client asks for a network that is not configured."""
        w, r = self.w, self.r
        c = w.connect()
        host = "%s:%d" % (w.ip, self.dead.port)
        if r.random() < .5:
            c.send("PASS secret:" + host, "NICK me", "USER a b c :d")
        else:
            c.send("PASS secret:net0", "NICK me", "USER a b c :d", "CONNECT %s %d" % (w.ip, self.dead.port))
        for _ in range(3):
            w.nudge()
        self.end(c, r.choice(["close", "rst"]))
        for l in w.admin("LISTNETWORKS"):
            name = l.decode().rpartition(": ")[0]
            if name not in ("net0", "other", "admin"):
                w.admin("DELNETWORK " + name)
        w.nudge()

    def do_idle(self):
        """Time passes."""
        w, r = self.w, self.r
        for _ in range(r.randint(1, 5)):
            w.advance(r.choice([5, 31, 59]))
            w.sync_server(self.s)
            w.nudge()
