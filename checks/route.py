"""Shared engine of P07 (server -> clients) and P08 (client -> server, echo).

Every message carries a unique tag; reference queues say who must receive it.
Each receiver's transcript must be a shuffle of the per-source queues."""
import collections, random, time
import build, e2e, gen
from core import Violation

BIN = None
HM = e2e.peer_name()


def prepare():
    global BIN
    BIN = build.build_proxy()


def b(s):
    return s.encode("utf-8", "surrogateescape") if isinstance(s, str) else s


class Cl:
    def __init__(self, conn, net, user):
        self.conn = conn
        self.net = net
        self.user = user
        self.nick = None
        self.exp = collections.OrderedDict()   # source -> list of expected (origin,args)
        self.stalled = False
        self.tail = None                       # source whose prefix may be skipped (attach window)
        self.sent = []

    def mask(self):
        return b("%s!%s@%s" % (self.nick, self.user, HM))

    def expect(self, src, origin, args):
        self.exp.setdefault(src, []).append((origin, tuple(args)))


class Net:
    def __init__(self, name, srv, nick):
        self.name = name
        self.srv = srv
        self.nick = nick
        self.clients = []
        self.odd_from = None
        self.expsrv = collections.OrderedDict()  # client id -> list of args
        self.extra = []                          # lines the proxy itself may send (args tuples)
        self.pos = 0
        self.chans = ["#main"]

    @property
    def conn(self):
        return self.srv.conn


def show(items):
    return "\n".join("    %r" % (i,) for i in items[:12])


def match_shuffle(who, got, queues, what, cov, optional_prefix=None, cat=""):
    """got must be a shuffle of the queues (each in order, each complete)."""
    qs = {k: collections.deque(v) for k, v in queues.items()}
    for g in got:
        hit = None
        for k, q in qs.items():
            if q and q[0] == g:
                hit = k
                break
        if hit is None and optional_prefix in qs:
            q = qs[optional_prefix]
            if g in q:
                while q[0] != g:
                    q.popleft()
                hit = optional_prefix
        if optional_prefix is not None and hit == optional_prefix:
            optional_prefix = None
        if hit is None:
            later = [k for k, q in qs.items() if g in q]
            done = [k for k, v in queues.items() if g in v]
            kind = "reordered" if later else ("duplicated" if done else "unexpected")
            raise Violation("%s:%s" % (what, kind), "%s received %s line:\n    %r\nnext expected per source:\n%s" % (
                who, kind, g, show([(k, q[0]) for k, q in qs.items() if q])))
        qs[hit].popleft()
        cov.judge((cat, what, g[1][0] if len(g) > 1 and g[1] else g[0], hit[0] if isinstance(hit, tuple) else "x", len(queues)))
    for k, q in qs.items():
        if k == optional_prefix:
            continue
        if q:
            raise Violation("%s:lost" % what, "%s never received from %r:\n%s" % (who, k, show(list(q))))


class Scenario:
    def __init__(self, case, cov, mode):
        self.case = case
        self.cov = cov
        self.mode = mode
        self.r = random.Random("%s-%s" % (mode, case["seed"]))
        self.tagn = 0
        self.world = e2e.World(BIN, tag=mode)
        self.nets = []
        self.pending = []
        self.report = case.get("report", "never")

    def tag(self):
        self.tagn += 1
        return "T%d.%d" % (self.case["seed"] % 1000, self.tagn)

    # -- set-up --------------------------------------------------------
    def setup(self):
        w = self.world
        nets = []
        for i in range(self.case["nets"]):
            s = w.server("srv%d" % i)
            nick = ["alice", "bob|x", "car[ol"][i]
            n = Net("net%d" % i, s, nick)
            self.nets.append(n)
            cfg = {"nick": nick, "fullname": "F", "username": "u", "servers": "irc://%s:%d" % (w.ip, s.port),
                   "queue-speed": "0"}
            if self.case.get("nocache"):
                cfg["disable-cache"] = "true"
            nets.append((n.name, cfg))
        w.write_config({"default-network": "net0", "autoconnect": ";".join(n.name for n in self.nets),
                        "replication": "none", "report-time": self.report, "motd-file": "/dev/null",
                        "admin-user": "ctrladm", "admin-log": "false"}, nets)
        w.vctl.set("wr_cap", self.case.get("wr_cap", 0))
        w.vctl.set("rd_cap", self.case.get("rd_cap", 0))
        w.start()
        for n in self.nets:
            w.pump(lambda: n.conn)
            w.login_server(n.conn, n.nick)
            for l in n.conn.take():
                pass
            n.conn.send(":irc.test 302 %s :%s=+user@real.host" % (n.nick, n.nick))
            n.conn.send(":%s!user@real.host JOIN #main" % n.nick,
                        ":irc.test 353 %s = #main :%s @op other" % (n.nick, n.nick),
                        ":irc.test 366 %s #main :End of /NAMES list." % n.nick)
            w.sync_server(n.conn)
            n.conn.take()
            n.pos = len(n.conn.lines)

    def attach(self, n, sync=True):
        user = "cu%d" % (len(n.clients) + self.r.randint(0, 99)) if self.r.random() < .8 else "user"
        c = self.world.attach(n.nick, n.name, user=user, sync=sync)
        cl = Cl(c, n, user)
        cl.nick = n.nick
        if sync:
            c.take()
        n.clients.append(cl)
        self.cov.ev("attach")
        return cl

    # -- server traffic ------------------------------------------------
    def server_line(self, n, quiet=False):
        """Returns (origin, args, raw) of a message all clients must see."""
        r = self.r
        t = self.tag()
        other = gen.hostmask(r)
        own = "%s!user@real.host" % n.nick
        origin = own if r.random() < 0.15 else other
        no_ident = self.mode != "p07"            # (an unanswered query would own the reply)
        k = r.choice(["PRIVMSG", "PRIVMSG", "PRIVMSG", "NOTICE", "NOTICE", "JOIN", "PART", "QUIT", "NICK", "TOPIC", "MODE",
                      "INVITE", "WALLOPS", "KICK", "ACTION", "CTCP", "CTCPREPLY", "SNOTICE", "UNKNOWN", "OWNNICK", "OWNJOIN",
                      "LONG", "PRIVMSG2", "LOWER", "NUMERIC", "IDENT"])
        if k == "IDENT" and no_ident:
            k = "NOTICE"
        tgt = r.choice([n.nick, "#main", "#other", "@#main"])
        if k in ("PRIVMSG", "NOTICE"):
            args = [k, tgt, gen.text(r, tag=t)]
        elif k == "PRIVMSG2":
            origin = n.nick + ("!user@real.host" if r.random() < .5 else "x!user@real.host")
            args = ["PRIVMSG", tgt, t]
        elif k == "ACTION":
            args = ["PRIVMSG", tgt, "\001ACTION waves %s\001" % t]
        elif k == "CTCP":
            origin = other
            args = ["PRIVMSG", tgt, "\001%s %s\001" % (r.choice(["VERSION", "PING", "DCC SEND", "FOO"]), t)]
        elif k == "CTCPREPLY":
            origin = other
            args = ["NOTICE", n.nick, "\001PING %s\001" % t]
        elif k == "SNOTICE":
            origin = "irc.test"
            args = ["NOTICE", n.nick, gen.text(r, tag=t)]
        elif k == "LONG":
            args = ["PRIVMSG", tgt, t + " " + "y" * r.randint(300, 420)]
        elif k == "JOIN":
            nk = gen.nick(r) + t.replace(".", "_").lower()
            origin = "%s!u@%s.host" % (nk, t.lower())
            args = ["JOIN", "#main"]
        elif k == "PART":
            origin = "other!o@%s" % t.lower()
            args = ["PART", "#main"] + ([gen.text(r, tag=t)] if r.random() < .7 else [])
        elif k == "QUIT":
            origin = "%s!q@%s" % (gen.nick(r), t.lower())
            args = ["QUIT"] + ([gen.text(r, tag=t)] if r.random() < .7 else [])
        elif k == "NICK":
            origin = "%s!q@%s" % (gen.nick(r), t.lower())
            args = ["NICK", gen.nick(r)]
        elif k == "TOPIC":
            args = ["TOPIC", "#main", gen.text(r, tag=t)]
        elif k == "MODE":
            args = ["MODE", "#main", r.choice(["+b", "-b"]), "*!*@" + t]
        elif k == "INVITE":
            args = ["INVITE", n.nick, "#" + t]
        elif k == "WALLOPS":
            args = ["WALLOPS", gen.text(r, tag=t)]
        elif k == "KICK":
            args = ["KICK", "#main", "other", gen.text(r, tag=t)]
        elif k == "UNKNOWN":
            args = [r.choice(["AWAY", "CAP", "ACCOUNT", "FOO", "AUTHENTICATE", "CHGHOST"]), t, gen.text(r)]
        elif k == "LOWER":
            args = ["privmsg", tgt, gen.text(r, tag=t)]
        elif k == "NUMERIC":
            origin = "irc.test"
            args = [r.choice(["396", "900", "042", "742"]), n.nick, t, gen.text(r)]
        elif k == "IDENT":
            # what the server says about the user, or somebody with a similar name
            origin = "irc.test"
            nk = r.choice([n.nick, n.nick, n.nick + "2", n.nick[:-1], "2" + n.nick, gen.nick(r)])
            host = "real.host" if nk == n.nick or r.random() < .5 else t + ".host"
            num = r.choice(["311", "314", "352", "302"])
            if num == "352":
                args = [num, n.nick, r.choice(["#main", "*"]), "user", host, "irc.test", nk, r.choice(["H", "G", "H@", "G*"]), "0 " + t]
            elif num == "302":
                us = ["%s=%s%s@%s" % (nk, r.choice("+-"), "user", host), gen.nick(r) + "*=+x@" + t]
                r.shuffle(us)
                args = [num, n.nick, " ".join(us)]
            else:
                args = [num, n.nick, nk, "user", host, "*", "R " + t]
        elif k == "OWNNICK":
            new = ["alice", "alice_", "Alice", "bob", "zed", "x|y"][r.randint(0, 5)] + str(r.randint(0, 9))
            origin = own
            args = ["NICK", new]
        elif k == "OWNJOIN":
            ch = "#j" + t
            origin = own
            args = ["JOIN", ch]
        raw = ":" + origin + " " + " ".join(args[:-1])
        last = args[-1]
        if last == "" or last.startswith(":") or " " in last or r.random() < 0.5:
            raw += " :" + last
        else:
            raw += " " + last
        if len(args) == 1:
            raw = ":" + origin + " " + args[0]
        if len(b(raw)) > 505:
            return self.server_line(n)
        return origin, args, raw

    def server_send(self, n, count):
        lines = []
        for _ in range(count):
            origin, args, raw = self.server_line(n)
            o, a = e2e.parse_line(b(raw))
            if a[0] == b"PRIVMSG" and self.report == "always":
                a = self.stamped(a)
            own = o.split(b"!")[0].lower() == n.nick.encode().lower()
            for cl in n.clients:
                cl.expect(("srv", n.name), cl.mask() if own else o, self.seen_by(cl, a))
            if own and a[0] == b"NICK":
                n.nick = a[1].decode()
                for cl in n.clients:
                    cl.nick = n.nick
            lines.append(raw)
            self.cov.ev("server_line")
        if self.r.random() < 0.3:
            data = b("\r\n".join(lines) + "\r\n")
            i = 0
            while i < len(data):
                k = self.r.randint(1, 80)
                n.conn.send_raw(data[i:i + k])
                i += k
        else:
            n.conn.send(*lines)

    def seen_by(self, cl, a):
        """The user as this client knows itself, in replies about the user."""
        me, a = b(cl.nick), list(a)
        if a[0] in (b"311", b"314") and a[2] == me:
            a[3:5] = [b(cl.user), b(HM)]
        elif a[0] == b"352" and a[6] == me:
            a[3:5] = [b(cl.user), b(HM)]
        elif a[0] == b"302":
            us = [u.split(b"=", 1) for u in a[2].split(b" ")]
            a[2] = b" ".join(u[0] + b"=" + (u[1][:1] + b(cl.user) + b"@" + b(HM) if u[0] == me else u[1]) for u in us)
        else:
            return a
        self.cov.ev("identity_reply")
        return a

    def stamped(self, a):
        """What a PRIVMSG looks like with the configured time stamp (clock is frozen)."""
        ts = b"[%s] " % time.strftime("%H:%M:%S", time.gmtime(self.frozen_t)).encode()
        a = list(a)
        if a[2].startswith(b"\001ACTION "):
            a[2] = b"\001ACTION " + ts + a[2][len(b"\001ACTION "):]
        elif a[2] == b"\001ACTION\001":
            a[2] = b"\001ACTION " + ts[:-1] + b"\001"
        elif a[2].startswith(b"\001"):
            pass
        else:
            a[2] = ts + a[2]
        return a

    # -- client traffic ------------------------------------------------
    def client_line(self, cl):
        r = self.r
        t = self.tag()
        if self.mode == "p08" and r.random() < .1 and cl.net.odd_from in (None, cl):
            # looks like a question the proxy may answer itself, and is not one
            # (not tagged, so only one client at a time sends these)
            cl.net.odd_from = cl
            raw = r.choice(["TOPIC #main :", "TOPIC #main :", "TOPIC #main : ", "TOPIC #main x", "topic #main :", "MODE #main +o me", "MODE #main -b :", "MODE #main +b x!*@*",
                            "NAMES #main,#other", "WHO #main,#other", "TOPIC #main,#other", "NAMES #notjoined", "WHO #ma*", "MODE #main,#other b"])
            return None, raw, True, False, None
        k = r.choice(["PRIVMSG"] * 5 + ["NOTICE", "NOTICE", "ACTION", "CTCP", "CTCPREPLY", "JOIN", "PART", "KICK", "TOPIC", "MODESET", "INVITE",
                      "AWAY", "UNKNOWN", "WHOIS", "OPER", "STATS", "NICK", "LOWER", "PREFIXED", "MULTI", "local", "local", "USERHOST", "KILL", "EMPTYARG"])
        if self.mode == "p07" and k in ("WHOIS", "USERHOST"):    # would own the next such reply
            k = "UNKNOWN"
        tgt = r.choice(["#main", "friend", "&loc", "someone,another", "@#main", "#other", "ctrladmin", "ctrlad", "xctrladm"])
        echo = False
        fwd = True
        local = None
        pre = ""
        if k in ("PRIVMSG", "NOTICE", "LOWER", "PREFIXED"):
            cmd = {"LOWER": "privmsg", "PREFIXED": "PRIVMSG"}.get(k, k)
            args = [cmd, tgt, gen.text(r, tag=t)]
            echo = True
            if k == "NOTICE" and r.random() < .1:
                args[1] = "ctrladm"
            if k == "PREFIXED":
                pre = ":%s " % r.choice([cl.nick, "liar!x@y", "somebody"])
        elif k == "ACTION":
            args = ["PRIVMSG", tgt, "\001ACTION dances %s\001" % t]
            if r.random() < .2:
                args = ["PRIVMSG", tgt + "," + t, "\001ACTION\001"]
            echo = True
        elif k == "CTCP":
            args = ["PRIVMSG", "friend", "\001%s %s\001" % (r.choice(["PING", "VERSION", "TIME"]), t)]
        elif k == "CTCPREPLY":
            args = ["NOTICE", "friend", "\001PING %s\001" % t]
        elif k == "JOIN":
            args = ["JOIN", "#" + t] + (["key"] if r.random() < .3 else [])
        elif k == "PART":
            args = ["PART", "#" + t] + ([gen.text(r, tag=t)] if r.random() < .5 else [])
        elif k == "KICK":
            args = ["KICK", "#main", t, gen.text(r)]
        elif k == "TOPIC":
            args = ["TOPIC", "#main", gen.text(r, tag=t)]
        elif k == "MODESET":
            args = ["MODE", "#main", r.choice(["+o", "-v", "+b", "+k"]), t]
        elif k == "INVITE":
            args = ["INVITE", t, "#main"]
        elif k == "AWAY":
            args = ["AWAY", gen.text(r, tag=t)]
        elif k == "UNKNOWN":
            args = [r.choice(["FOO", "KNOCK", "SILENCE", "WATCH", "CAP"]), t, gen.text(r)]
        elif k == "WHOIS":
            args = ["WHOIS", t]
        elif k == "OPER":
            args = ["OPER", t, "pw"]
        elif k == "STATS":
            args = ["STATS", "u", t]
        elif k == "NICK":
            args = ["NICK", "n" + t.replace(".", "_")]
        elif k == "MULTI":
            args = ["FOO"] + ["a%d" % i for i in range(r.randint(1, 11))] + [t]
        elif k == "USERHOST":
            args = ["USERHOST", t]
        elif k == "KILL":
            args = ["KILL", t, "because %s" % t]
        elif k == "EMPTYARG":
            args = ["AWAYX", t, ""]
        else:
            fwd = False
            k2 = r.choice(["PING", "PONG", "USER", "PASS", "CTRLPROXY", "ADM", "BLANK"])
            args = {"PING": ["PING", t], "PONG": ["PONG", t], "USER": ["USER", t, "0", "*", "x"], "PASS": ["PASS", t],
                    "CTRLPROXY": ["CTRLPROXY", "ECHO", t], "ADM": ["PRIVMSG", "ctrladm", "ECHO %s" % t], "BLANK": [""]}[k2]
            local = (k2, t)
        raw = pre + " ".join(args[:-1])
        last = args[-1]
        if len(args) == 1:
            raw = args[0]
        elif last == "" or last.startswith(":") or " " in last or r.random() < 0.5:
            raw += " :" + last
        else:
            raw += " " + last
        if len(b(raw)) > 400:
            return self.client_line(cl)
        return args, raw, fwd, echo, local

    def client_send(self, cl, count):
        n = cl.net
        lines = []
        for _ in range(count):
            args, raw, fwd, echo, local = self.client_line(cl)
            o, a = e2e.parse_line(b(raw))
            if fwd:
                n.expsrv.setdefault(("cl", id(cl)), []).append(tuple(a))
                self.cov.ev("client_fwd")
            if echo:
                ea = a
                if self.report == "always" and a[0].upper() == b"PRIVMSG":
                    ea = self.stamped(a)
                elif self.report == "always":
                    ea = self.stamped(a)
                for o2 in n.clients:
                    if o2 is not cl:
                        o2.expect(("echo", id(cl)), "SELF", ea)
                        self.cov.ev("echo")
            if local:
                cl.sent.append(local)
                self.cov.ev("local_cmd")
            lines.append(raw)
        if self.r.random() < 0.3:
            data = b("\r\n".join(lines) + "\r\n")
            i = 0
            while i < len(data):
                k = self.r.randint(1, 60)
                cl.conn.send_raw(data[i:i + k])
                i += k
        else:
            cl.conn.send(*lines)

    # -- judging -------------------------------------------------------
    def sync(self):
        w = self.world
        for n in self.nets:
            for cl in n.clients:
                if not cl.stalled:
                    w.sync_client(cl.conn)
        for n in self.nets:
            w.sync_server(n.conn)
        for n in self.nets:
            for cl in n.clients:
                if not cl.stalled:
                    w.sync_client(cl.conn)

    def check(self):
        for n in self.nets:
            got = [tuple(l.args) for l in n.conn.lines[n.pos:]]
            got2 = []
            for g in got:
                if g in n.extra:
                    n.extra.remove(g)
                    continue
                got2.append((g,))
            for l in n.conn.lines[n.pos:]:
                if l.origin is not None:
                    raise Violation("fwd:origin", "line sent to the server carries a prefix: %r" % (l.raw,))
            n.pos = len(n.conn.lines)
            qs = {k: [(x,) for x in v] for k, v in n.expsrv.items()}
            match_shuffle("server of %s" % n.name, got2, qs, "to-server", self.cov, cat=self.mode)
            n.expsrv.clear()
            n.odd_from = None
            for cl in n.clients:
                if cl.stalled:
                    continue
                self.check_client(n, cl)
        for p in self.pending:
            if len(p.lines) > 1 or (p.lines and b"PASS OK" not in p.lines[0].raw):
                raise Violation("pending:traffic", "a peer that has not logged in received %r" % [l.raw for l in p.lines][:5])
            self.cov.judge(("pending", len(p.lines)))

    def check_client(self, n, cl):
        got = []
        locals_ = list(cl.sent)
        cl.sent = []
        seen_local = []
        for l in cl.conn.take():
            a = tuple(l.args)
            if a and a[0] == b"PONG":
                seen_local.append(("PING", a[-1].decode("utf-8", "replace")))
                continue
            if l.origin is None and a[:2] == (b"NOTICE", b"*"):
                self.cov.ev("proxy_notice")      # the proxy's own status messages
                continue
            if a and a[0] == b"462":
                seen_local.append(("462", ""))
                continue
            if a and len(a) > 2 and a[0] in (b"NOTICE", b"PRIVMSG") and (l.origin or b"").split(b"!")[0] in (b"ctrlproxy", b"ctrladm"):
                seen_local.append(("ADM", a[-1].decode("utf-8", "replace")))
                continue
            got.append((l.origin, a))
        want = []
        for k, t in locals_:
            if k == "PING":
                want.append(("PING", t))
            elif k in ("USER", "PASS"):
                want.append(("462", ""))
            elif k in ("CTRLPROXY", "ADM"):
                want.append(("ADM", t))
        if want != seen_local:
            raise Violation("local:answers", "proxy-handled commands answered %r, expected %r" % (seen_local[:8], want[:8]))
        if want:
            self.cov.judge(("local", len(want)))
        qs = collections.OrderedDict()
        for src, items in cl.exp.items():
            if src[0] == "echo":
                # origin of an echo: the user as this client knows itself
                items = [(None, i[1]) for i in items]
            qs[src] = items
        cl.exp = collections.OrderedDict()
        echo_args = set()
        for src, items in qs.items():
            if src[0] == "echo":
                echo_args.update(i[1] for i in items)
        got2 = []
        for o, a in got:
            if a in echo_args and (o or b"").split(b"!")[0].lower() in self.ownnicks(n):
                got2.append((None, a))
                if o is None or not o.endswith(b("!%s@%s" % (cl.user, HM))):
                    raise Violation("echo:origin", "echoed message shown from %r, client knows itself as %r" % (o, cl.mask()))
            else:
                got2.append((o, a))
        match_shuffle("client of %s" % n.name, got2, qs, "to-client", self.cov, optional_prefix=cl.tail, cat=self.mode)
        cl.tail = None

    def ownnicks(self, n):
        s = getattr(n, "allnicks", None)
        if s is None:
            s = n.allnicks = set()
        s.add(n.nick.encode().lower())
        return s

    def freeze(self):
        v = self.world.vctl
        now = time.time()
        self.frozen_t = int(now)
        v.set("frozen_rt_ns", int(self.frozen_t * 1e9) + 5000000)
        v.set("frozen_ns", int(time.clock_gettime(time.CLOCK_MONOTONIC) * 1e9))
        v.set("freeze", 1)

    def run(self):
        r = self.r
        w = self.world
        try:
            if self.report == "always":
                self.freeze()
            self.setup()
            for n in self.nets:
                for _ in range(self.case["clients"]):
                    self.attach(n)
            for _ in range(2):
                p = w.connect("pending")
                self.pending.append(p)
            p = w.connect("pending")
            p.send("PASS secret:net0", "NICK pend")
            self.pending.append(p)
            for n in self.nets:
                self.ownnicks(n)
            for step in range(self.case["steps"]):
                for n in self.nets:
                    self.ownnicks(n)
                    self.mix(n)
                self.sync()
                self.check()
                self.churn()
            self.cov.sample("nets=%d clients=%d last server line %r" % (
                len(self.nets), sum(len(n.clients) for n in self.nets), self.nets[0].conn.out[-80:] or b"(flushed)"))
            w.stop()
        finally:
            w.close()

    def mix(self, n):
        r = self.r
        acts = []
        ps = 0.8 if self.mode == "p07" else 0.35
        pc = 0.3 if self.mode == "p07" else 0.8
        if r.random() < ps:
            acts.append(("s", None))
        for cl in n.clients:
            if r.random() < pc and not cl.stalled:
                acts.append(("c", cl))
        r.shuffle(acts)
        for k, cl in acts:
            if k == "s":
                self.server_send(n, r.randint(1, 8))
                self.ownnicks(n)
            else:
                self.client_send(cl, r.randint(1, 6))

    def churn(self):
        r = self.r
        for n in self.nets:
            x = r.random()
            if x < 0.10 and len(n.clients) < 5:
                if r.random() < 0.5 and self.mode == "p07":
                    # attach while server traffic is flowing: it must see a suffix of it
                    c = self.world.connect("late")
                    c.send("PASS secret:%s" % n.name, "NICK %s" % n.nick, "USER late 0 * :R")
                    cl = Cl(c, n, "late")
                    cl.nick = n.nick
                    nick0 = n.nick
                    lines = []
                    for _ in range(r.randint(2, 10)):
                        t = self.tag()
                        raw = ":%s NOTICE %s :%s" % (gen.hostmask(r), "#main", gen.text(r, tag=t))
                        o, a = e2e.parse_line(b(raw))
                        for q in n.clients:
                            q.expect(("srv", n.name), o, a)
                        cl.expect(("srv", n.name), o, a)
                        lines.append(raw)
                    n.conn.send(*lines)
                    n.clients.append(cl)
                    self.world.sync_client(c)
                    self.sync()
                    # drop the welcome block
                    i = 0
                    ls = c.lines
                    keep = [l for l in ls if l.args and l.args[0] == b"NOTICE" and l.args[1] != b"AUTH"]
                    c.lines[:] = keep
                    c.pos = 0
                    cl.tail = ("srv", n.name)
                    self.cov.ev("attach_during_traffic")
                    self.check()
                else:
                    self.attach(n)
            elif x < 0.2 and len(n.clients) > 1:
                cl = r.choice(n.clients)
                how = r.choice(["quit", "close", "rst"])
                n.clients.remove(cl)
                if how == "quit":
                    cl.conn.reading = True
                    cl.conn.send(r.choice(["QUIT :bye", "QUIT", "QUIT bye for now", "quit :bye bye", ":%s QUIT x y" % cl.nick]))
                    self.world.pump(lambda: cl.conn.closed, what="close after QUIT")
                else:
                    cl.conn.close(rst=(how == "rst"))
                self.cov.ev("detach_" + how)
            elif x < 0.26 and n.clients and self.mode == "p07":
                cl = r.choice(n.clients)
                cl.stalled = not cl.stalled
                cl.conn.reading = not cl.stalled
                self.cov.ev("stall" if cl.stalled else "resume")
