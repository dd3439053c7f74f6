"""P22: administration commands through every interface, against a model of all the state they govern."""
import os, random, re
import build, core, e2e
from core import Violation

ID = "P22"
TECHNIQUE = "runtime monitoring: randomized administration commands, valid and invalid, through the client command, the administration user, the administration channel and the administration socket; after every command all settings, networks, servers, listeners and live connections are read back and compared with a reference model"
LEVEL = "exploration"
LEVEL_NOTE = "Randomized command histories over all settings, networks with live, failed and absent connections, and listeners; bounded by the generated histories. SAVECONFIG belongs to P15, BACKLOG to P09."
RULE = "one evaluation per command whose answer and whose effect on everything else was judged; distinct = (interface, command, argument class, state class) combinations"
ASSUMPTIONS = ["network names are compared without regard to ASCII case", "words of a command are separated by single spaces"]
CASE_LIMIT = 200
_bin = [None]

HELP = {"index": ["Available commands:", "", " set", " 100% sure %s %n"], "set": ["SET <setting> <value>", "Changes a setting."], "empty": [],
        "network list": ["never reachable"], "Caps": ["x" * 300]}


def prepare():
    _bin[0] = build.build_proxy("asan")
    txt = "".join("?%s\n%s%%\n" % (k, "".join(l + "\n" for l in v)) for k, v in HELP.items())
    p = os.path.join(build.BUILD, "help.txt")
    with open(p + ".%d" % os.getpid(), "w") as f:
        f.write(txt)
    os.rename(p + ".%d" % os.getpid(), p)


def cases(tier, seed):
    n, steps = (700, 40) if tier == "quick" else (3000, 120)
    return [{"seed": seed * 401 + i, "steps": steps} for i in range(n)] + [{"seed": seed * 401 + i, "auto": 1} for i in range(12 if tier == "quick" else 100)]


BOOL = (["true", "false", "TRUE", "False"], ["", "yes", "1", "tru", "true x", "truefalse", "0"])
INT = (["0", "5", "120", "-1", "+7", "00012", "2147483647", "-2147483648"], ["", "abc", "1x", "99999999999", "1 2", "0x10", "--1", "2147483648", "-2147483649", "5.5", "99999999999999999999999"])
TEXT = (["x", "two words", "%s%n", "a:b", "[x]", "\u00e9t\u00e9", "semi;colon#hash", "k" * 150, "=eq="], [])

BADNAMES = [".hidden", "a/b", "x~", "[x", "y]", "global", "", "..", "a/", "\udcff\udcfe"]


class Model:
    pass


def canon_bool(v):
    return v.lower()


def canon_int(v):
    return str(int(v))


def run_case(case, cov):
    r = core.case_rng(case)
    w = e2e.World(_bin[0], "p22")
    try:
        if case.get("auto"):
            own_listeners(w, r, cov)
        else:
            Run(w, r, case, cov).run()
    finally:
        w.close()


def own_listeners(w, r, cov):
    """With listener-auto, a network that is added gets a listener of its own, on the next port; not if there is one for all networks."""
    shared = r.random() < .25
    base = 20000 + os.getpid() * 8 % 12000
    srv = w.server("net0")
    log = []

    def bad(key, text):
        raise Violation("auto:" + key, text + "\ncommands and answers:\n" + "\n".join(log))

    def ask(line):
        out = [l.decode() for l in w.admin(line)]
        log.append("%s -> %r" % (line, out))
        return out
    w.write_config({"autosave": "false", "listener-auto": "true", "listener-autoport": str(base), "default-network": None if shared else "net0"},
                   [("net0", {"nick": "me", "username": "u", "fullname": "F", "servers": "irc://%s:%d" % (w.ip, srv.port)})])
    w.start()
    own = []
    for k in range(r.randint(1, 4)):
        name = "added%d" % k
        s = w.server(name)
        ask("ADDNETWORK " + name)
        ask("ADDSERVER %s %s:%d" % (name, w.ip, s.port))
        if not shared:
            own.append((base + 1 + k, name, s))
        exp = sorted(["%s:%d%s" % (w.ip, w.lport, "" if shared else " (net0)")] + [":%d (%s)" % (p, n) for p, n, _ in own])
        if sorted(ask("LISTLISTENER")) != exp:
            bad("listeners", "expected %r" % exp)
        cov.judge(("auto", shared, k))
        cov.ev("commands")
    r.shuffle(own)
    for p, name, s in own:
        ask("CONNECT " + name)
        w.pump(lambda: s.accepted, what="connection of " + name)
        c = s.accepted[-1]
        w.login_server(c, "me")
        ok = r.random() < .7
        cl = w.connect("own", port=p)
        cl.send("PASS " + ("secret" if ok else "secret2"), "NICK me", "USER x 0 * :x")
        w.pump(lambda: cl.closed or any(l.args[:1] in ([b"464"], [b"001"]) for l in cl.lines), what="answer of port %d" % p)
        got = any(l.args[:1] == [b"001"] for l in cl.lines)
        if got != ok:
            bad("password", "%s password at the listener of %s: %r" % ("the right" if ok else "a wrong", name, [l.raw for l in cl.lines[:3]]))
        if ok:
            c.send(b":x!u@h PRIVMSG me :this is " + name.encode())
            w.pump(lambda: cl.closed or any(b"this is " in l.raw for l in cl.lines), what="message of " + name)
            if not any(l.raw.endswith(b"this is " + name.encode()) for l in cl.lines):
                bad("network", "the client at the listener of %s got %r" % (name, [l.raw for l in cl.lines[-3:]]))
        cl.close()
        cov.judge(("auto login", ok))
        cov.ev("own listeners")
    w.stop()


class Net:
    def __init__(self, name, servers, kind="tcp"):
        self.name = name
        self.kind = kind            # tcp | admin
        self.servers = servers      # list of [host, port, FakeServer or None]
        self.cur = None             # index of the current server
        self.state = "not"          # not | up | pending
        self.conn = None            # the connection that must be alive
        self.clients = []
        self.chans = []

    @property
    def label(self):
        return {"not": "Not connected", "up": "connected", "pending": "Reconnecting"}[self.state]


class Cl:
    def __init__(self, conn, net, nick):
        self.conn, self.net, self.nick = conn, net, nick


class Run:
    def __init__(self, w, r, case, cov):
        self.w, self.r, self.case, self.cov = w, r, case, cov
        self.log = []
        self.nclient = 0
        self.names = 0
        # clients speak the configured character set: only one of the two varies at a time
        self.ascii = r.random() < .5

    def fail(self, key, detail):
        raise Violation("admin:" + key, "%s\n--- history\n%s" % (detail, "\n".join(self.log[-40:])))

    # -- world ---------------------------------------------------------
    def run(self):
        w, r = self.w, self.r
        self.motd = os.path.join(w.dir, "motd")
        open(self.motd, "w").write("hello motd\n")
        self.adminuser = r.choice(["ctrlproxy", "ctrlproxy", "Adm", "#adm", None])
        g = {"admin-user": self.adminuser, "admin-log": "false", "max_who_age": r.choice([None, "60"]), "report-time": r.choice([None, "never", "always", "replication"]),
             "replication": r.choice([None, "none", "simple", "highlight"]), "learn-nickserv": r.choice([None, "true", "false"]),
             "autosave": "false", "default-nick": "dnick", "default-username": "duser", "default-fullname": "D Full",
             "motd-file": r.choice([None, self.motd])}
        self.pool = [w.server("s%d" % i) for i in range(5)]
        dead = w.server("dead")
        self.deadport = dead.port
        dead.close()
        self.nets = []
        cfg = []
        firsts = r.sample(self.pool, 3)     # no two autoconnect to the same one, to tell them apart
        for i in range(r.randint(1, 3)):
            sv = [[w.ip, str(s.port), s] for s in [firsts[i]] + r.sample(self.pool, r.randint(0, 1))]
            if r.random() < .25:
                sv.append([w.ip, str(self.deadport), None])
            n = Net("net%d" % i, sv)
            auto = r.random() < .6
            n.state = "auto" if auto else "not"
            cfg.append((n.name, {"servers": "".join("%s:%s;" % (h, p) for h, p, _ in sv), "reconnect-interval": "50"}))
            self.nets.append(n)
        g["autoconnect"] = "".join(n.name + ";" for n in self.nets if n.state == "auto")
        self.admnet = r.random() < .7
        if self.admnet:
            a = Net("Admin", [], "admin")
            a.state = "up"
            self.nets.append(a)
            cfg.append((a.name, {"virtual": "admin"}))
            g["autoconnect"] += "Admin;"
        w.write_config(g, cfg)
        w.vctl.set("freeze", 1)
        w.vctl.set("frozen_ns", 10 ** 12)
        w.vctl.set("frozen_rt_ns", 1700000000 * 10 ** 9)
        w.start()
        self.seen = {id(s): 0 for s in self.pool}
        for n in self.nets:
            if n.state == "auto":
                n.state = "not"
                self.expect_connect(n, 0)
        self.adm = w.connect_unix(os.path.join(w.conf, "admin"), "adm")
        self.clients = []
        for n in self.nets:
            for _ in range(r.choice([0, 1, 1, 2])):
                self.new_client(n)
        if not self.clients:
            self.new_client(self.nets[0])
        # the starting point: everything readable, identical through all interfaces
        base = self.ask(self.iface("sock"), "SET")
        self.settings = {}
        for l in base:
            if l.endswith(" is not set"):
                self.settings[l[:-len(" is not set")]] = None
            else:
                k, _, v = l.partition(" = ")
                self.settings[k] = v
        for k, v in g.items():
            if v is not None and k in self.settings and k not in ("autoconnect",) and self.settings[k] != v:
                self.fail("configured:" + k, "configured %r, read back %r" % (v, self.settings[k]))
        self.listeners = [(w.ip, str(w.lport))]
        for i in range(self.case["steps"]):
            self.step()
        self.effects()

    def new_client(self, net):
        self.nclient += 1
        nick = "cl%d" % self.nclient
        # naming a network that is not connected connects it
        wake = net.kind == "tcp" and net.state == "not"
        c = self.w.connect(nick)
        c.send("PASS :%s:%s" % (self.password(), net.name), "NICK " + nick, "USER u 0 * :Real")
        if not wake:
            self.w.sync_client(c)
        if wake:
            self.log.append("client attaches to %s, connecting it" % net.name)
            self.expect_connect(net, self.next_idx(net) if net.cur is None else net.cur)
            self.w.sync_client(c)
        c.take()
        cl = Cl(c, net, nick)
        net.clients.append(cl)
        self.clients.append(cl)
        return cl

    def password(self):
        if not hasattr(self, "settings"):
            return "secret"
        return self.settings["password"]

    def expect_connect(self, n, idx):
        """The network must now (be) connect(ing) to its idx-th server; finish the login."""
        w = self.w
        h, p, s = n.servers[idx]
        n.cur = idx
        if s is None:
            # nobody there: the proxy notices and waits for the next attempt
            for _ in range(400):
                out = self.raw_sock("LISTNETWORKS")
                if not any(l == n.name + ": Connect in progress" for l in out):
                    break
            n.state = "pending"
            n.conn = None
            n.cur = self.next_idx(n)        # the next attempt is with the next server
            return
        want = self.seen[id(s)] + 1
        w.pump(lambda: len(s.accepted) >= want, what="connection of %s to %s" % (n.name, p))
        self.seen[id(s)] = len(s.accepted)
        n.conn = s.accepted[-1]
        w.login_server(n.conn, "dnick")
        n.conn.take()
        n.state = "up"
        n.chans = []

    def raw_sock(self, line):
        a = getattr(self, "adm", None)
        if a is None:
            return [l.decode() for l in self.w.admin(line)]
        return self.ask(("sock", None), line)

    # -- interfaces ----------------------------------------------------
    def ifaces(self):
        l = [("sock", None)]
        if not hasattr(self, "settings"):
            return l
        for c in self.clients:
            l.append(("cmd", c))
            if self.au() is not None:
                l.append(("msg", c))
            if c.net.kind == "admin" and self.settings["admin-log"] == "false":     # else it is full of log messages
                l.append(("chan", c))
                l.append(("nick", c))
        return l

    def au(self):
        return self.settings["admin-user"] if hasattr(self, "settings") else self.adminuser

    def iface(self, kind=None):
        l = self.ifaces()
        if kind:
            return [x for x in l if x[0] == kind][0]
        k = self.r.choice(sorted(set(x[0] for x in l)))
        return self.r.choice([x for x in l if x[0] == k])

    def ask(self, iface, line, gone=False):
        """Issue one command; returns the answer's lines.  gone: the client may be closed by it."""
        kind, c = iface
        w = self.w
        self.log.append("%s%s: %s" % (kind, "(%s)" % c.net.name if c else "", line))
        self.cov.ev("commands")
        raw = line.encode("utf-8", "surrogateescape")
        if kind == "sock":
            a = self.adm
            t = w.token()
            a.take()
            a.send_raw(raw + b"\n" + b"ECHO " + t.encode() + b"\n")
            end = lambda: (a.lines and a.lines[-1].raw == t.encode()) or a.closed
            w.pump(end, what="admin answer to %s" % line)
            if a.closed:
                w.closed(a)
            return [l.raw.decode("utf-8", "surrogateescape") for l in a.take()[:-1]]
        conn = c.conn
        if c.net.kind == "admin":
            w.sync_client(conn)     # everybody on the channel hears the answers to everybody
        conn.take()
        if kind == "cmd":
            if b"  " in raw or raw.endswith(b" ") or b" :" in raw or raw.startswith(b":") or raw == b"" or self.r.random() < .3:
                conn.send(b"CTRLPROXY :" + raw)
            else:
                conn.send(self.r.choice([b"CTRLPROXY ", b"ctrlproxy "]) + raw)
        elif kind == "msg":
            conn.send(b"PRIVMSG %s :%s" % (self.au().encode(), raw))
        elif kind == "chan":
            conn.send(b"PRIVMSG #ctrlproxy :" + raw)
        elif kind == "nick":
            conn.send(b"PRIVMSG ctrlproxy :" + raw)
        if gone:
            w.pump(lambda: conn.closed, what="end of the client after %s" % line)
        else:
            w.sync_client(conn)
        out = []
        virt = kind in ("chan", "nick") and not (kind == "nick" and self.au() is not None and self.au().lower() == "ctrlproxy")
        want = b"ctrlproxy!ctrlproxy@" + c.net.name.encode()
        logs = self.settings["admin-log"] == "true"
        for l in conn.take():
            if logs and l.args[:2] == [b"PRIVMSG", b"#ctrlproxy"]:
                continue
            if len(l.args) < 3 or l.origin is None or not l.origin.startswith(b"ctrlproxy!"):
                if not gone and l.args and l.args[0] in (b"PRIVMSG", b"NOTICE") and l.args[1] != b"*":
                    self.fail("stray", "unexpected %r" % l.raw)
                continue
            if virt:
                if l.args[0] != b"PRIVMSG" or l.args[1] != b"#ctrlproxy":
                    self.fail("addressing", "answer %r to a %s command" % (l.raw, kind))
            elif l.args[0] != b"NOTICE":
                self.fail("addressing", "answer %r to a %s command" % (l.raw, kind))
            if l.origin != want and not gone:
                self.fail("origin", "answer %r, network is %s" % (l.raw, c.net.name))
            text = l.args[2].decode("utf-8", "surrogateescape")
            if virt and self.settings["report-time"] == "always":
                if not re.match(r"\[\d\d:\d\d:\d\d\] ", text):
                    self.fail("time", "no time in %r" % l.raw)
                text = text[11:]
            out.append(text)
        # answers go to the one who asked
        for o in self.clients:
            if o is c or o.conn.closed:
                continue
            for l in o.conn.lines[o.conn.pos:]:
                if l.origin is not None and l.origin.startswith(b"ctrlproxy!") and not (o.net.kind == "admin" and l.args[:2] == [b"PRIVMSG", b"#ctrlproxy"]):
                    self.fail("leak", "client of %s got %r" % (o.net.name, l.raw))
        return out

    # -- read back -------------------------------------------------------
    def readback(self, why):
        it = self.iface()
        out = self.ask(it, "SET")
        exp = []
        for k in self.order():
            v = self.settings[k]
            exp.append("%s is not set" % k if v is None else "%s = %s" % (k, v))
        if sorted(out) != sorted(exp):
            d = sorted(set(out) ^ set(exp))
            self.fail("settings:" + why, "settings differ from the model: %r" % d)
        out = self.ask(self.iface(), self.r.choice(["LISTNETWORKS", "NETWORK LIST", "network list"]))
        exp = ["%s: %s" % (n.name, n.label) for n in self.nets]
        got = [l.split(": ")[0] + ": " + l.split(": ")[1] if l.count(": ") > 1 else l for l in out]
        if got != exp:
            self.fail("networks:" + why, "networks are\n%s\nexpected\n%s" % ("\n".join(out), "\n".join(exp)))
        out = self.ask(self.iface(), "LISTLISTENER")
        # the default listener is listed as it is configured by now
        exp = ["%s:%s" % l for l in self.listeners[1:]] + ["%s:%s" % (self.settings["bind"] or "", self.settings["port"])]
        if sorted(x.split(" (")[0] for x in out) != sorted(exp):
            self.fail("listeners:" + why, "listeners are %r, expected %r" % (out, exp))
        for n in self.nets:
            if self.r.random() < .4:
                self.info(n, why)
        self.links(why)

    def order(self):
        return list(self.settings)

    def info(self, n, why):
        out = self.ask(self.iface(), "NETWORK INFO " + n.name)
        if n.kind == "admin":
            exp = ["Virtual network"]
        else:
            exp = ["Servers:"] + ["  %s:%s%s" % (h, p, " (Current)" if n.cur == i else "") for i, (h, p, _) in enumerate(n.servers)]
        if out[:len(exp)] != exp:
            self.fail("info:" + why, "NETWORK INFO %s: %r, expected %r" % (n.name, out, exp))
        rest = out[len(exp):]
        k = 0 if rest == ["No clients connected"] else len(rest) - 1
        if k != len(n.clients) or (k and rest[0] != "Clients:"):
            self.fail("info:clients:" + why, "NETWORK INFO %s: %r, it has %d clients" % (n.name, out, len(n.clients)))

    def links(self, why):
        """Connections are exactly those the model says."""
        self.w.pump(lambda: True)
        alive = set(id(n.conn) for n in self.nets if n.conn is not None)
        for n in self.nets:
            if n.conn is not None and n.conn.closed:
                self.fail("connection:" + why, "the connection of %s was closed" % n.name)
        for s in self.pool:
            if len(s.accepted) != self.seen[id(s)]:
                self.fail("connection:extra:" + why, "an unexpected connection to %s" % s.name)
            for c in s.accepted:
                if not c.closed and id(c) not in alive:
                    self.fail("connection:left:" + why, "connection %s should be gone" % c.name)
        for c in self.clients:
            if c.conn.closed:
                self.fail("client:" + why, "the client %s of %s was disconnected" % (c.nick, c.net.name))

    # -- steps -----------------------------------------------------------
    def step(self):
        r = self.r
        kind = r.choices(["set", "unset", "get", "net", "conn", "server", "listener", "misc", "bad", "client", "same", "srvclose"],
                         [14, 4, 5, 10, 14, 5, 5, 6, 10, 5, 6, 5])[0]
        getattr(self, "do_" + kind)()

    def judge(self, it, cmd, cls, *more):
        self.cov.judge((it[0], cmd, cls) + more)
        self.readback(cmd)

    def silent(self, out, line):
        if out:
            self.fail("answer", "%s answered %r" % (line, out))

    def error(self, out, line):
        if not out or any(not l for l in out):
            self.fail("noerror", "%s answered %r instead of an error" % (line, out))
        self.cov.ev("errors")

    def spec(self, k):
        """-> (values with their meaning, invalid values, meaning of unset or False)"""
        st = self.settings
        if k in ("admin-log", "auto-away-enable", "autosave", "learn-network-name", "learn-nickserv"):
            return [(v, v.lower()) for v in BOOL[0]], BOOL[1], False
        if k in ("auto-away-client-limit", "auto-away-time"):
            return [(v, canon_int(v) if int(v) != -1 else None) for v in INT[0]], INT[1], None
        if k in ("max_who_age", "report-time-offset"):
            return [(v, canon_int(v) if int(v) != 0 else None) for v in INT[0]], INT[1], None
        if k == "log_level":
            return [(str(i), str(i)) for i in (0, 1, 2, 3)], ["6", "-1", "abc", "", "2x", "99999999999", "1 2"], False
        if k == "logging":
            return [], ["irssi", "none", "custom", "x"], False
        if k == "motd-file":
            return [(self.motd, self.motd)], ["/nonexistent/motd", self.motd + "x", ""], None
        if k == "report-time":
            return [("never", "never"), ("false", "never"), ("always", "always"), ("Replication", "replication"), ("true", "replication")], ["", "often", "alway", "always x"], "never"
        if k == "replication":
            return [(v, v) for v in ("none", "simple", "highlight", "lastdisconnect")], ["bogus", "", "nonesuch", "none x"], None
        if k == "default-client-charset":
            return [(v, v) for v in (("UTF-8", "ISO-8859-15", "latin1", "CP1252") if self.ascii else ("UTF-8", "utf8", "UTF8"))], ["bogus-cs", "UTF-99"], None
        if k in ("default-nick", "default-username"):
            return [("nick%d" % i, "nick%d" % i) for i in range(3)], ["", "a b", ":x"], False
        if k == "default-fullname":
            return [(v, v) for v in TEXT[0] if v.isascii() or not self.ascii], [""], False
        if k == "admin-user":
            return [("ctrlproxy", "ctrlproxy"), ("Adm", "Adm"), ("#adm", "#adm"), ("", None)], [], None
        if k == "port":
            return [(v, v) for v in ("6667", "ircd", "1234")], [], False
        if k == "bind":
            return [(v, v) for v in ("127.0.0.1", "localhost", "::1")], [], None
        if k == "password":
            return [(v, v) for v in ("secret", "pw2", "two words", "%s", "x;y")], [], None
        if k == "default-network":
            return [(v, v) for v in ("net0", "nosuch", "irc://x/")], [], None
        if k in ("auto-away-message", "auto-away-nick"):
            return [(v, v) for v in TEXT[0] if v.isascii() or not self.ascii], [], None
        self.fail("setting", "unknown setting %s listed" % k)

    def do_set(self, invalid=False):
        r = self.r
        k = r.choice(self.order())
        good, bad, _ = self.spec(k)
        it = self.iface()
        key = r.choice([k, k, k.upper(), k.capitalize()])
        if (r.random() < .35 or not good) and bad:
            v = r.choice(bad)
            line = "%s %s %s" % (r.choice(["SET", "set", "Set"]), key, v)
            self.error(self.ask(it, line), line)
            return self.judge(it, "SET", "invalid", k)
        v, m = r.choice(good)
        line = "%s %s %s" % (r.choice(["SET", "set"]), key, v)
        before = self.settings[k]
        out = self.ask(it, line)
        if k != "log_level":
            self.silent(out, line)
        self.settings[k] = m
        self.cov.ev("settings_changed", before != m)
        self.judge(it, "SET", "valid", k)

    def do_unset(self):
        k = self.r.choice(self.order())
        _, _, m = self.spec(k)
        it = self.iface()
        line = "%s %s" % (self.r.choice(["UNSET", "unset"]), self.r.choice([k, k.upper()]))
        if k == "password" and self.r.random() < .7:
            return
        out = self.ask(it, line)
        if m is False:
            self.error(out, line)
        else:
            self.silent(out, line)
            self.settings[k] = m
        self.judge(it, "UNSET", "invalid" if m is False else "valid", k)

    def do_get(self):
        k = self.r.choice(self.order())
        it = self.iface()
        out = self.ask(it, "SET " + self.r.choice([k, k.upper()]))
        v = self.settings[k]
        if out != (["%s is not set" % k] if v is None else [v]):
            self.fail("get", "SET %s answered %r, the value is %r" % (k, out, v))
        self.cov.judge((it[0], "GET", k))

    def case_of(self, name):
        return self.r.choice([name, name, name.encode().upper().decode(), name.encode().lower().decode()])

    def find(self, name):
        for n in self.nets:
            if n.name.lower() == name.lower():
                return n

    def do_net(self):
        r = self.r
        op = r.choice(["add", "add", "del", "rename", "rename", "badname"])
        it = self.iface()
        if op == "badname":
            v = r.choice([b for b in BADNAMES if b.isascii() or not self.ascii] + [self.case_of(r.choice(self.nets).name)])
            if r.random() < .5:
                line = r.choice(["ADDNETWORK %s", "NETWORK ADD %s", "network add %s"]) % v
            else:
                line = "NETWORK RENAME %s %s" % (r.choice(self.nets).name, v)
            if "\udcff" in v:
                it = ("sock", None)     # a client's character set may not carry it
            self.error(self.ask(it, line), line)
            return self.judge(it, "NETWORK", "badname", v in BADNAMES)
        if op == "add":
            if len(self.nets) >= 6:
                return
            self.names += 1
            name = r.choice(["New%d", "x-%d", "net%d" if self.ascii else "n\u00e9t%d", "a.b%d", "%%s%d"]) % (self.names + 10)
            line = r.choice(["ADDNETWORK %s", "addnetwork %s", "NETWORK ADD %s", "network add %s"]) % name
            out = self.ask(it, line)
            self.nets.append(Net(name, []))
            if not out or "added" not in out[0]:
                self.fail("answer", "%s answered %r" % (line, out))
            return self.judge(it, "NETWORK", "add")
        n = r.choice(self.nets)
        if op == "rename":
            self.names += 1
            name = "Ren%d" % self.names
            line = "%s %s %s" % (r.choice(["NETWORK RENAME", "network rename"]), self.case_of(n.name), name)
            c = it[1]
            if c is not None and c.net is n:
                it = ("sock", None)     # the answer would carry either name
            self.ask(it, line)
            if (self.settings["default-network"] or "").lower() == n.name.lower():      # keeps meaning this network
                self.settings["default-network"] = name
            n.name = name
            return self.judge(it, "NETWORK", "rename", n.state)
        # deletion
        line = r.choice(["DELNETWORK %s", "NETWORK DEL %s", "network remove %s", "NETWORK delete %s"]) % self.case_of(n.name)
        if n.kind == "admin":
            out = self.ask(it, line)
            self.error(out, line)
            return self.judge(it, "NETWORK", "del", "builtin")
        if len(self.nets) < 2 or (len(n.clients) == len(self.clients)):
            return
        own = it[1] is not None and it[1].net is n
        self.ask(it, line, gone=own)
        self.nets.remove(n)
        if n.conn is not None:
            self.w.pump(lambda: n.conn.closed, what="disconnect of the deleted %s" % n.name)
        for c in n.clients:
            self.w.pump(lambda: c.conn.closed, what="end of the clients of the deleted %s" % n.name)
            self.clients.remove(c)
        self.cov.ev("deleted_with_clients", len(n.clients) > 0)
        self.judge(it, "NETWORK", "del", n.state, own, len(n.clients))

    def next_idx(self, n):
        """Which server follows the current one?"""
        if not n.servers:
            return None
        return 0 if n.cur is None else (n.cur + 1) % len(n.servers)

    def do_conn(self):
        r = self.r
        it = self.iface()
        own = it[1].net if it[1] is not None else None
        op = r.choice(["CONNECT", "DISCONNECT", "NEXTSERVER"])
        n = r.choice(self.nets)
        noarg = op != "CONNECT" and own is not None and r.random() < .4
        if noarg:
            n = own
        line = r.choice([op, op.lower()]) + ("" if noarg else " " + self.case_of(n.name))
        was = n.state
        if n.kind == "admin":
            out = self.ask(it, line)
            if not out:
                self.fail("noerror", "%s answered nothing" % line)
            return self.judge(it, op, "builtin")
        self.cov.ev("connects")
        old = n.conn
        if op == "CONNECT":
            out = self.ask(it, line)
            if was == "up":
                self.error(out, line)
            elif was == "not":
                if not n.servers:
                    if len(out) < 2:
                        self.fail("answer", "%s without servers answered %r" % (line, out))
                else:
                    self.expect_connect(n, self.next_idx(n) if n.cur is None else n.cur)
            else:
                self.expect_connect(n, self.next_idx(n))
        elif op == "DISCONNECT":
            out = self.ask(it, line)
            if was == "not":
                self.error(out, line)
            if was == "up":
                self.w.pump(lambda: old.closed, what="DISCONNECT of %s" % n.name)
            n.state, n.conn = "not", None
        else:
            out = self.ask(it, line)
            if n.servers:
                if was == "up":
                    self.w.pump(lambda: old.closed, what="NEXTSERVER of %s" % n.name)
                self.expect_connect(n, self.next_idx(n))
            elif was == "up":
                self.w.pump(lambda: old.closed, what="NEXTSERVER of %s" % n.name)
                n.state, n.conn = "not", None
        if not out:
            self.fail("noanswer", "%s answered nothing" % line)
        self.judge(it, op, was, "own" if n is own else "other", noarg, len(n.servers))

    def do_server(self):
        r = self.r
        it = self.iface()
        n = r.choice(self.nets)
        s = r.choice(self.pool)
        line = "%s %s %s:%d%s" % (r.choice(["ADDSERVER", "addserver"]), self.case_of(n.name), self.w.ip, s.port, r.choice(["", "", " spw"]))
        out = self.ask(it, line)
        if n.kind == "admin":
            self.error(out, line)
            return self.judge(it, "ADDSERVER", "invalid")
        n.servers.append([self.w.ip, str(s.port), s])
        self.judge(it, "ADDSERVER", n.state, len(n.servers))

    def do_listener(self):
        r, w = self.r, self.w
        it = self.iface()
        op = r.choice(["start", "start", "stop", "busy", "stopnone"])
        if op == "start":
            w.nextport += 1
            p = str(w.nextport)
            n = r.choice([None, None] + self.nets)
            line = "STARTLISTENER %s:%s lpw%s" % (w.ip, p, " " + self.case_of(n.name) if n else "")
            out = self.ask(it, line)
            if not out:
                self.fail("answer", "%s answered nothing" % line)
            self.listeners.append((w.ip, p))
            if n is None or n.name.isascii():
                # it works, with its password only
                c = w.connect("lst", port=int(p))
                c.send("PASS wrong", "PASS lpw", "NICK lst", "USER l 0 * :l")
                if n is not None:
                    w.sync_client(c)
                    if not any(l.args[0] == b"464" for l in c.lines if l.args):
                        self.fail("listener:password", "the wrong password was accepted on the new listener: %r" % [l.raw for l in c.lines])
                c.close()
                w.nudge()
                w.nudge()
        elif op == "stop":
            mine = [l for l in self.listeners if l[1] != str(w.lport)]
            if not mine:
                return
            a, p = r.choice(mine)
            line = "STOPLISTENER " + r.choice([p, "%s:%s" % (a, p)])
            out = self.ask(it, line)
            if out != ["1 listeners stopped"]:
                self.fail("answer", "%s answered %r" % (line, out))
            self.listeners.remove((a, p))
            try:
                s = e2e.socket.create_connection((a, int(p)), timeout=5)
                s.close()
                self.fail("listener:stopped", "%s:%s still accepts connections" % (a, p))
            except OSError:
                pass
        elif op == "busy":
            line = "STARTLISTENER %s:%d x" % (w.ip, r.choice(self.pool).port)
            self.error(self.ask(it, line), line)
        else:
            line = r.choice(["STOPLISTENER 1", "STOPLISTENER 10.0.0.1:%d" % w.lport, "STOPLISTENER :", "STOPLISTENER x:y:z"])
            a, p = r.choice(self.listeners) if self.listeners else (w.ip, str(w.lport))
            if r.random() < .6:
                line = "STOPLISTENER " + r.choice([p[:-1], p[:2], p + "0", "0" + p, p[1:], a + ":" + p[:-1], a[:-1] + ":" + p, a + "0:" + p, ":" + p, a, a + ":"])
            out = self.ask(it, line)
            if out != ["0 listeners stopped"]:
                self.fail("answer", "%s answered %r" % (line, out))
        self.judge(it, "LISTENER", op)

    def do_misc(self):
        r = self.r
        it = self.iface()
        op = r.choice(["echo", "help", "chans", "charset", "chans"])
        if op == "echo":
            t = r.choice(["hello", "hello world", "%s %n %d", "a  b", "\u00e9", "x" * 200, "ECHO x", "tail "])
            out = self.ask(it, "ECHO " + t)
            if out != [t]:
                self.fail("echo", "ECHO %r answered %r" % (t, out))
        elif op == "help":
            t = r.choice([None] + list(HELP) + ["nosuch", "SET", "%s"])
            if t is not None and " " in t:
                t = t.split()[0]
            out = self.ask(it, "HELP" + (" " + t if t else ""))
            exp = HELP.get(t or "index")
            if exp is None:
                self.error(out, "HELP " + t)
            elif out != exp:
                self.fail("help", "HELP %s answered %r, the help file has %r" % (t, out, exp))
        elif op == "chans":
            ups = [n for n in self.nets if n.kind == "tcp"]
            if not ups:
                return
            n = r.choice(ups)
            if n.state == "up" and r.random() < .7:
                if n.chans and r.random() < .3:
                    ch = r.choice(n.chans)
                    n.conn.send(":dnick!user@real.host PART " + ch)
                    n.chans.remove(ch)
                else:
                    ch = "#c%d" % r.randint(0, 20)
                    if ch not in n.chans:
                        n.conn.send(":dnick!user@real.host JOIN " + ch, ":irc.test 353 dnick = %s :dnick" % ch, ":irc.test 366 dnick %s :End" % ch)
                        n.chans.append(ch)
                self.w.sync_server(n.conn)
                for c in n.clients:
                    self.w.sync_client(c.conn)
            noarg = it[1] is not None and it[1].net is n and r.random() < .5
            line = "DUMPJOINEDCHANNELS" + ("" if noarg else " " + self.case_of(n.name))
            out = self.ask(it, line)
            if n.state != "up":
                self.error(out, line)
            elif sorted(out) != sorted(n.chans):
                self.fail("channels", "%s answered %r, joined are %r" % (line, out, n.chans))
        elif op == "charset":
            line = "CHARSET bogus-cs"
            self.error(self.ask(it, line), line)
        self.judge(it, op.upper(), "misc")

    def do_bad(self):
        """Commands that can't be obeyed must say so and leave everything alone."""
        r = self.r
        it = self.iface()
        lines = ["NOSUCHCOMMAND", "SETX a b", "SE", "nosuch with args", "SET nosuchsetting", "SET nosuchsetting x", "UNSET nosuchsetting", "UNSET", "ADDNETWORK", "DELNETWORK",
                 "DELNETWORK nosuch", "NETWORK", "NETWORK bogus", "NETWORK ADD", "NETWORK DEL", "NETWORK DEL nosuch", "NETWORK INFO", "NETWORK INFO nosuch",
                 "NETWORK RENAME", "NETWORK RENAME net0", "NETWORK RENAME nosuch other", "ADDSERVER", "ADDSERVER net0", "ADDSERVER nosuch host:6667",
                 "CONNECT", "CONNECT nosuch", "DISCONNECT nosuch", "NEXTSERVER nosuch", "CHARSET", "ECHO", "STARTLISTENER", "STARTLISTENER 7777",
                 "STARTLISTENER 7777 pw nosuch", "STARTLISTENER no.such.host.invalid:70 pw", "STARTLISTENER 10.255.255.1:70 pw", "STOPLISTENER", "DUMPJOINEDCHANNELS nosuch", "SET  x", " SET", "\u00e9",
                 "%s%n%s", "x" * 300, "CONNECT  net0", "NETWORK  LIST"]
        if it[0] == "sock":
            lines += ["DISCONNECT", "NEXTSERVER", "DETACH", "BACKLOG", "CHARSET UTF-8", "DUMPJOINEDCHANNELS", ""]
        line = r.choice(lines)
        self.error(self.ask(it, line), line)
        self.judge(it, "bad", line.split(" ")[0].upper())

    def do_client(self):
        r = self.r
        if len(self.clients) < 5 and r.random() < .6:
            if self.settings["password"] is None:
                return
            n = r.choice(self.nets)
            if not n.name.isascii() or "%" in n.name or (n.kind == "tcp" and not n.servers):
                return
            self.new_client(n)
            return self.readback("attach")
        if len(self.clients) < 2:
            return
        it = self.iface()
        c = it[1]
        if c is None:
            return
        self.ask(it, self.r.choice(["DETACH", "detach"]), gone=True)
        self.clients.remove(c)
        c.net.clients.remove(c)
        self.judge(it, "DETACH", "valid")

    def do_same(self):
        """What changes nothing is answered the same through every interface."""
        r = self.r
        line = r.choice(["SET", "NETWORK LIST", "LISTLISTENER", "SET report-time", "nosuch command", "NETWORK DEL nosuch", "HELP", "HELP nosuch", "SET max_who_age x",
                         "NETWORK INFO " + r.choice(self.nets).name, "DUMPJOINEDCHANNELS " + r.choice(self.nets).name, "ECHO  a  b", "CONNECT nosuch", "SET nosuch", "ADDSERVER x", "NETWORK"])
        ref = None
        for it in self.ifaces():
            out = self.ask(it, line)
            if ref is None:
                ref = out
            elif out != ref:
                self.fail("interfaces", "%s answers %r through %s, but %r on the socket" % (line, out, it[0], ref))
            self.cov.judge((it[0], "same", line.split(" ")[0]))

    def do_srvclose(self):
        ups = [n for n in self.nets if n.conn is not None]
        if not ups:
            return
        n = self.r.choice(ups)
        self.log.append("server of %s closes the connection" % n.name)
        n.conn.close()
        n.conn = None
        n.state = "pending"
        n.cur = self.next_idx(n)
        self.w.nudge()
        self.w.nudge()
        self.readback("server closing")

    def effects(self):
        """What was set is what counts from now on."""
        st = self.settings
        w = self.w
        if st["password"] is not None:
            n = self.nets[0]
            if n.name.isascii() and "%" not in n.name and (n.state != "not" or n.servers):
                c = w.connect("eff")
                c.send("PASS :%sX:%s" % (st["password"], n.name), "PASS :%s:%s" % (st["password"], n.name), "NICK eff", "USER e 0 * :e")
                w.sync_client(c)
                codes = [l.args[0] for l in c.lines if l.args]
                if b"464" not in codes or b"001" not in codes or codes.index(b"464") > codes.index(b"001"):
                    self.fail("effect:password", "with password %r a client gets %r" % (st["password"], codes[:8]))
                motd = st["motd-file"] is not None and os.path.exists(st["motd-file"])
                if motd and b"372" not in codes:
                    self.fail("effect:motd", "no message of the day: %r" % codes)
                if not motd and b"372" in codes:
                    self.fail("effect:motd", "a message of the day although none is set")
                self.cov.judge(("effects", motd))
        # a new network logs in with the defaults
        s = self.pool[0]
        self.ask(("sock", None), "ADDNETWORK efftest")
        self.ask(("sock", None), "ADDSERVER efftest %s:%d effpw" % (w.ip, s.port))
        k = len(s.accepted)
        self.ask(("sock", None), "CONNECT efftest")
        w.pump(lambda: len(s.accepted) > k, what="efftest connects")
        c = s.accepted[-1]
        w.pump(lambda: any(l.args and l.args[0] == b"USER" for l in c.lines), what="efftest logs in")
        got = [l.raw.decode("utf-8", "replace") for l in c.lines]
        args = {l.args[0]: [a.decode("utf-8", "replace") for a in l.args] for l in c.lines if l.args}
        if args.get(b"PASS", [None, None])[1] != "effpw" or args[b"NICK"][1] != st["default-nick"] or args[b"USER"][1] != st["default-username"] or args[b"USER"][-1] != st["default-fullname"]:
            self.fail("effect:login", "a new network logs in with %r; defaults are %r %r %r" % (got, st["default-nick"], st["default-username"], st["default-fullname"]))
        self.cov.judge(("effects", "login"))
