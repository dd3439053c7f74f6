"""P15: configuration survives saving and reloading."""
import copy, os, shutil, signal, struct
import build, core, e2e
from core import Violation

ID = "P15"
TECHNIQUE = "runtime monitoring: randomized configurations and changes to them, saved in every way (command, signal, exit, into another directory, with injected write failures) and loaded by a restarted proxy whose settings, networks, listeners and logins are observed and compared with a model"
LEVEL = "exploration"
LEVEL_NOTE = "Randomized configuration files, administration histories and server-made state, with real restarts of the sanitized proxy; write failures are injected below libc. Bounded by the generated histories; TLS options and PROGRAM networks are not exercised."
RULE = "one evaluation per restart whose complete effective configuration was compared with what was saved; distinct = (way of saving, kinds of changes made since the last start) combinations"
ASSUMPTIONS = ["the way a setting is written in the files is up to the proxy; only what a restarted proxy makes of it counts",
               "two networks kept in one file do not share a server (the format can hold one password per server)"]
CASE_LIMIT = 240
_bin = [None]


def prepare():
    _bin[0] = build.build_proxy("asan")


def cases(tier, seed):
    n, rounds = (400, 3) if tier == "quick" else (3000, 6)
    return [{"seed": seed * 419 + i, "rounds": rounds} for i in range(n)]


def run_case(case, cov):
    r = core.case_rng(case)
    w = e2e.World(_bin[0], "p15")
    try:
        Run(w, r, case, cov).run()
    finally:
        w.close()


L1 = "caf\udce9 \udcfc\udcff"       # not UTF-8
TEXT = ["x", "two words", "%s%n", "a:b", "[x]", "\u00e9t\u00e9", "semi;colon#hash", "k" * 300, "=eq=", "back\\slash", "\\s\\n\\t", "end\\", "a;b;", ";", '"quoted"',
        "'s", "#hash", "; c", "tab\there", L1, "\udcff", "[global]", "\u20ac\U0001f600"]
KEYS = ["sesame", "k;y", "k\\ey", "\u00e9", "ke\udce9y", "[k]", "=", "%s", "*", "#", "k\ty"]
CHANS = ["#one", "#two", "&loc", "#a;b", "#caf\udce9", "#\u00fcber", "#[x]", "#back\\slash", "#=", "##", "#eq=ual", "+mod", "#UP"]
INTS = [5, 120, 0, -1, 2147483647, -2147483648]


def esc(v, lst=False):
    """A value the way GKeyFile writes strings."""
    v = v.replace("\\", "\\\\").replace("\t", "\\t").replace("\n", "\\n").replace("\r", "\\r")
    if v.startswith(" "):
        v = "\\s" + v[1:]
    return v.replace(";", "\\;") if lst else v


def esclist(vs):
    return "".join(esc(v, True) + ";" for v in vs)


class Net:
    def __init__(self, name):
        self.name = name
        self.kind = "tcp"
        self.infile = False
        self.nick = self.user = self.real = self.pw = None
        self.servers = []           # (server index, port, password)
        self.autocmd = []
        self.auto = False
        self.interval = None
        self.chans = {}             # configured: channel -> (autojoin, key)

    def __deepcopy__(self, memo):
        n = copy.copy(self)
        n.servers, n.autocmd, n.chans = list(self.servers), list(self.autocmd), dict(self.chans)
        return n


class Live:
    """What a running network is doing."""

    def __init__(self, conn, nick):
        self.conn, self.nick = conn, nick
        self.on = {}                # channel -> key known from the server (None: not known, "": none)


class Run:
    def __init__(self, w, r, case, cov):
        self.w, self.r, self.case, self.cov = w, r, case, cov
        self.log = []
        self.changes = set()

    def fail(self, key, detail):
        files = []
        for d, _, fs in sorted(os.walk(self.w.conf)):
            for f in sorted(fs):
                p = os.path.join(d, f)
                if os.path.isfile(p) and os.path.getsize(p) < 20000 and f not in ("log",) and "linestack" not in d:
                    files.append("=== %s\n%s" % (p[len(self.w.dir):], open(p, encoding="utf-8", errors="backslashreplace").read()))
        raise Violation("config:" + key, "%s\n--- history\n%s\n--- files\n%s" % (detail, "\n".join(self.log[-40:]), "\n".join(files)))

    # -- generation ------------------------------------------------------
    def generate(self):
        w, r = self.w, self.r
        opt = lambda p, v: v if r.random() < p else None
        # a network is taken to use the default charset: names can only be other than ASCII when that is not changed
        self.wide = r.random() < .6
        self.chans = CHANS if self.wide else [c for c in CHANS if c.isascii()]
        self.keys = [k for k in KEYS[:-1] if self.wide or k.isascii()]
        self.motds = []
        for n in ("motd", "mo;td x", "motd\u00e9"):
            p = os.path.join(w.dir, n)
            open(p, "w").write("hello motd\n")
            self.motds.append(p)
        self.sip = w.ip
        self.ip2 = e2e.world_ip()
        B = ["true", "false"]
        g = {"autosave": opt(.6, r.choice(B)), "replication": opt(.5, r.choice(["none", "simple", "highlight", "lastdisconnect"])),
             "report-time": opt(.5, r.choice(["never", "always", "replication", "true"])), "report-time-offset": opt(.4, str(r.choice(INTS))),
             r.choice(["max_who_age", "max-who-age"]): opt(.5, str(r.choice(INTS))), "motd-file": opt(.5, r.choice(self.motds)),
             r.choice(["default-client-charset", "client-charset"]): opt(.0 if self.wide else .4, r.choice(["UTF-8", "latin1"])), "learn-nickserv": opt(.4, r.choice(B)), "learn-network-name": opt(.4, r.choice(B)),
             "admin-user": opt(.6, r.choice(["ctrlproxy", "Adm", "#adm", "x;y"])), "admin-log": opt(.6, r.choice(B)),
             "default-nick": r.choice(["dnick", "d[]\\n"]), "default-username": r.choice(["duser", "du;ser"]), "default-fullname": r.choice(TEXT),
             "create-implicit": opt(.3, r.choice(B)), "match": opt(.3, "foo;bar;"), "unknown-key": opt(.2, "kept")}
        g["password"] = r.choice(["secret", "pa;ss#", "two words", "\u00e9\u00e9", "a:b:c", "p\\s"])
        g["default-network"] = opt(.2, r.choice(["net0", "nosuch"]))
        extra = []
        self.oldaway = {}
        style = r.random()
        if style < .5:
            g.update({"auto-away-enable": opt(.6, r.choice(B)), "auto-away-message": opt(.5, r.choice(TEXT)), "auto-away-nick": opt(.5, r.choice(TEXT)),
                      "auto-away-client-limit": opt(.5, str(r.choice(INTS))), "auto-away-time": opt(.5, str(r.choice([1000, 2147483647, -1])))})
        elif style < .7:
            t, (k, v) = r.choice(TEXT), r.choice([("client_limit=2", "2"), ("only_noclient=true", "0"), ("only_noclient=false", None)])
            extra += ["[auto-away]", "message=" + esc(t), k, "time=5000"]
            self.oldaway = {"auto-away-enable": "true", "auto-away-message": t, "auto-away-client-limit": v, "auto-away-time": "5000"}
        self.logging = r.choice([None, "none", "irssi", "irssi", "custom", "old-irssi", "old-custom"])
        self.logdir = os.path.join(w.dir, "logs")
        fmts = {"nickchange": "NICK %n %r", "topic": "TOPIC %n %t", "notopic": "NOTOPIC %n", "part": "PART %n %c %m", "join": "JOIN %n %c", "msg": "MSG %n;%m",
                "notice": "NOTICE %n %m", "action": "ACTION %n %m", "kick": "KICK %t %n %m", "quit": "QUIT %n %m", "mode": "MODE %t %p %c"}
        if self.logging in ("none", "irssi", "custom"):
            g["logging"] = self.logging
        if self.logging == "irssi" and r.random() < .7:
            g[r.choice(["logdir", "logfile"])] = self.logdir
        if self.logging == "custom":
            g["logfilename"] = self.logdir + "/%@"
            for k, v in fmts.items():
                if r.random() < .85 or k == "msg":
                    g["log-format-" + k] = v
        if self.logging == "old-irssi":
            extra += ["[log-irssi]", "logfile=" + self.logdir]
        if self.logging == "old-custom":
            extra += ["[log-custom]", "logfilename=" + self.logdir + "/%@"] + ["%s=%s" % kv for kv in fmts.items() if r.random() < .85 or kv[0] == "msg"]
        # the pool of servers
        self.urls = {}
        self.pool = [w.server("s%d" % i) for i in range(7)]
        self.free = list(range(7))
        self.nets = []
        names = r.sample(["net0", "Oft C", "n\u00e9t", "a.b", "x=y", "local;net", "irc.example.org", "100%", "back\\net"], r.randint(0, 3))
        for nm in names:
            n = Net(nm)
            n.infile = r.random() < .35
            n.nick = opt(.5, r.choice(["nick" + str(len(self.nets)), "n[\\]", "ni;ck"]))
            n.user = opt(.4, r.choice(["me", "m;e"]))
            n.real = opt(.5, r.choice(TEXT))
            n.pw = opt(.3, r.choice(["netpw", "n p;w\\", "\u00e9"]))
            for _ in range(r.choice([1, 1, 2])):
                i = self.free.pop()
                n.servers.append((i, str(self.pool[i].port), opt(.4, r.choice(["srvpw", "s;p\\w", "s\udce9"]))))
            n.interval = r.choice([None, None, 0, 1, 7, 90, 1000])
            n.autocmd = [] if r.random() < .5 else r.sample(["MODE me +i", "PRIVMSG nickserv :hello; you", "AWAY :\\o/", "LIST"], r.randint(1, 3))
            n.auto = r.random() < .7
            for c in r.sample(self.chans, r.choice([0, 0, 1, 2, 4])):
                n.chans[c] = (r.random() < .8, opt(.5, r.choice(self.keys)))
            self.nets.append(n)
        if r.random() < .4:
            n = Net("Admin")
            n.kind = "admin"
            n.auto = r.random() < .7
            self.nets.append(n)
        # further listeners; one may be the SOCKS one
        self.extra = {}
        self.socks = None
        for i in range(r.choice([0, 0, 1, 2])):
            self.extra[str(6800 + i)] = (opt(.7, r.choice(["own", "o;w n", "\u00e9"])), r.choice([None] + [n.name for n in self.nets if n.kind == "tcp"]))
        if r.random() < .3:
            self.socks = (str(10000 + os.getpid() % 22000), r.sample([("joe", "joepw"), ("ann", "a:b"), ("s;m", "x;y"), ("\u00e9", "\\z")], r.randint(1, 3)))
        return g, extra

    def write(self, g, extra):
        w, r = self.w, self.r
        auto = [n.name for n in self.nets if n.auto]
        out = ["[global]", "port=%d" % w.lport, "bind=" + w.ip]
        for k, v in g.items():
            if v is not None:
                out.append("%s=%s" % (k, v if k == "match" else esc(v)))
        if auto:
            out.append("autoconnect=" + esclist(auto))
        out.append("")
        keys = []
        os.mkdir(os.path.join(w.conf, "networks"))
        for n in self.nets:
            o = ["[%s]" % ("global" if n.infile else n.name)]
            for k, v in (("nick", n.nick), ("username", n.user), ("fullname", n.real), ("password", n.pw)):
                if v is not None:
                    o.append("%s=%s" % (k, esc(v)))
            if n.interval is not None:
                o.append("reconnect-interval=%d" % n.interval)
            if n.kind == "admin":
                o.append("virtual=admin")
            else:
                o.append("servers=" + esclist(self.url(p, pw is not None) for i, p, pw in n.servers))
            if n.autocmd:
                o.append("autocmd=" + esclist(n.autocmd))
            if n.chans:
                o.append("autojoin=" + esclist(c for c, (a, k) in n.chans.items() if a))
            for c, (a, k) in n.chans.items():
                if k is not None:
                    keys.append("%s\t%s\t%s\n" % (c, k, n.name))
            for i, p, pw in n.servers:
                if pw is not None:
                    o += ["[%s]" % self.url(p), "password=" + esc(pw)]
            if n.infile:
                self.put("networks/" + n.name, "\n".join(o) + "\n")
            else:
                out += o + [""]
        out += extra
        if self.socks:
            out += ["[socks]", "allow=" + esclist("%s:%s" % a for a in self.socks[1])] + (["port=" + self.socks[0]] if self.socks[0] else [])
        self.put("config", "\n".join(out) + "\n")
        if keys:
            self.put("keys", "; comment\n" + "".join(keys))
        if self.extra:
            self.put("listener", "".join("[%s:%s]\n%s%s\n" % (self.sip, p, "password=%s\n" % esc(pw) if pw is not None else "", "network=%s\n" % esc(nn) if nn is not None else "")
                                         for p, (pw, nn) in self.extra.items()))

    def put(self, name, text):
        with open(os.path.join(self.w.conf, name), "w", encoding="utf-8", errors="surrogateescape") as f:
            f.write(text)

    def url(self, port, section=False):
        how = self.urls.setdefault(port, self.r.choice(["irc://%s:%s", "irc://%s:%s", "irc://%s:%s/"] + ["%s:%s"] * (not section)))
        return how % (self.sip, port)

    # -- talking -----------------------------------------------------------
    def ask(self, line):
        a = self.adm
        self.log.append("> " + line)
        t = self.w.token().encode()
        a.take()
        a.send_raw(line.encode("utf-8", "surrogateescape") + b"\nECHO " + t + b"\n")
        self.w.pump(lambda: (a.lines and a.lines[-1].raw == t) or a.closed, what="admin answer to %s" % line)
        if a.closed:
            self.w.closed(a)
        return [l.raw.decode("utf-8", "surrogateescape") for l in a.take()[:-1]]

    def settings(self):
        d = {}
        for l in self.ask("SET"):
            if l.endswith(" is not set"):
                d[l[:-len(" is not set")]] = None
            else:
                k, _, v = l.partition(" = ")
                d[k] = v
        return d

    # -- main ----------------------------------------------------------------
    def run(self):
        w, r = self.w, self.r
        g, extra = self.generate()
        self.g = g
        self.write(g, extra)
        self.set = None
        w.vctl.set("freeze", 1)
        w.vctl.set("frozen_ns", 10 ** 12)
        w.vctl.set("frozen_rt_ns", 1700000000 * 10 ** 9)
        how = "first"
        for i in range(self.case["rounds"] + 1):
            self.boot(how)
            self.cov.judge((how,) + tuple(sorted(self.changes)))
            self.cov.ev("restarts_compared")
            self.changes = set()
            if i == self.case["rounds"]:
                break
            for _ in range(r.choice([0, 1, 3, 6, 10])):
                self.change()
            how = self.save()
        self.patience()
        w.stop()

    def patience(self):
        """One of the networks is lost: when is it tried again?"""
        w = self.w
        up = sorted(n.name for n in self.nets if n.name in self.live)
        if not up:
            return
        name = self.r.choice(up)
        n = [x for x in self.nets if x.name == name][0]
        tries = lambda: sum(len(self.pool[i].accepted) for i, _, _ in n.servers)
        had, L = tries(), self.live.pop(n.name)
        ivl = 60 if n.interval is None else n.interval
        L.conn.close()
        for _ in range(3):
            w.nudge()
        if ivl:
            w.vctl.set("frozen_ns", w.vctl.get("frozen_ns") + ivl * 10 ** 9 - 10 ** 8)
            for _ in range(3):
                w.nudge()
            w.drain(.002)
            if tries() != had:
                self.fail("interval", "%s is tried again before its %d seconds are over" % (n.name, ivl))
            w.vctl.set("frozen_ns", w.vctl.get("frozen_ns") + 2 * 10 ** 8)
            for _ in range(3):
                w.nudge()
        try:
            w.pump(lambda: tries() > had, what="the next attempt")
        except e2e.Hang:
            self.fail("interval", "%s is not tried again when its %d seconds are over" % (n.name, ivl))
        self.cov.ev("reconnect_intervals")

    def boot(self, how):
        """Start from the files and compare everything that shows."""
        w, r = self.w, self.r
        w.start()
        self.log.append("--- started (%s)" % how)
        self.adm = w.connect_unix(os.path.join(w.conf, "admin"), "adm")
        self.live = {}
        for s in self.pool:
            s.base = len(s.accepted)
        # settings
        got = self.settings()
        if self.set is None:
            d = self.expected_first()
            for k, v in d.items():
                if got.get(k) != v:
                    self.fail("load:" + k, "%s is configured as %r and read as %r" % (k, v, got.get(k)))
            self.set = dict(got)
        got.pop("log_level", None)
        self.set.pop("log_level", None)
        if got != self.set:
            ks = [k for k in sorted(set(got) | set(self.set)) if got.get(k) != self.set.get(k)]
            self.fail("setting:" + ks[0], "after a restart: " + ", ".join("%s was %r, is %r" % (k, self.set.get(k), got.get(k)) for k in ks))
        # networks
        names = [l.split(": ")[0] for l in self.ask("LISTNETWORKS")]
        if sorted(names) != sorted(n.name for n in self.nets):
            self.fail("networks", "networks are %r, expected %r" % (names, [n.name for n in self.nets]))
        states = dict((l.split(": ")[0], l.split(": ")[1]) for l in self.ask("LISTNETWORKS"))
        for n in self.nets:
            if n.kind == "tcp" and " " not in n.name:
                out = [x.split(" (")[0] for x in self.ask("NETWORK INFO " + n.name)]
                exp = ["Servers:"] + ["  %s:%s" % (self.sip, p) for _, p, _ in n.servers]
                if out[:len(exp)] != exp or (len(out) > len(exp) and out[len(exp)].startswith("  ")):
                    self.fail("servers", "NETWORK INFO %s: %r, expected %r" % (n.name, out, exp))
            if (states[n.name] == "Not connected") == n.auto and n.servers + [0] * (n.kind == "admin"):
                self.fail("autoconnect", "%s: %s, autoconnect is %s" % (n.name, states[n.name], n.auto))
        # listeners
        exp = {"%s:%s" % (self.set["bind"], self.set["port"]): None}
        for p, (pw, nn) in self.extra.items():
            exp["%s:%s" % (self.sip, p)] = nn
        if self.socks:
            exp[":" + (self.socks[0] or "1080")] = None
        got = {}
        for l in self.ask("LISTLISTENER"):
            a, _, nn = l.partition(" (")
            got[a] = nn[:-1] if nn else None
        dn = self.set["default-network"]
        exp["%s:%s" % (self.set["bind"], self.set["port"])] = dn if dn in names else None
        if got != exp:
            self.fail("listeners", "listeners are %r, expected %r" % (got, exp))
        # logins: of those that connect by themselves and some of the others
        for n in self.nets:
            if n.kind != "tcp" or not n.servers:
                continue
            if n.auto or (r.random() < .4 and " " not in n.name):
                if not n.auto:
                    self.ask("CONNECT " + n.name)
                self.login(n)
        self.doors()

    def expected_first(self):
        g, d = self.g, {}
        for k in ("replication", "motd-file", "admin-user", "default-nick", "default-username", "default-fullname", "password", "default-network",
                  "auto-away-message", "auto-away-nick", "admin-log", "learn-nickserv", "learn-network-name", "auto-away-enable", "autosave"):
            if g.get(k) is not None:
                d[k] = g[k]
        for k in ("max_who_age", "max-who-age", "report-time-offset"):
            if g.get(k) is not None:
                d[k.replace("max-who-age", "max_who_age")] = g[k] if g[k] != "0" else None
        for k in ("auto-away-client-limit", "auto-away-time"):
            if g.get(k) is not None:
                d[k] = g[k] if g[k] != "-1" else None
        if g.get("report-time"):
            d["report-time"] = {"true": "replication"}.get(g["report-time"], g["report-time"])
        for k in ("default-client-charset", "client-charset"):
            if g.get(k):
                d["default-client-charset"] = g[k]
        d.update(self.oldaway)
        d["logging"] = {None: "none", "old-irssi": "irssi", "old-custom": "custom"}.get(self.logging, self.logging)
        return d

    def login(self, n):
        """The network connects: as whom, with which password; then what does it do?"""
        w, r = self.w, self.r
        i, p, pw = n.servers[0]
        s = self.pool[i]
        w.pump(lambda: len(s.accepted) > s.base, what="connection of %s" % n.name)
        c = s.accepted[-1]
        w.pump(lambda: any(l.args[:1] == [b"USER"] for l in c.lines) or c.closed, what="login of %s" % n.name)
        E = lambda x: x.encode("utf-8", "surrogateescape")
        first = {l.args[0]: l.args[1:] for l in c.take()}
        nick = n.nick or self.set["default-nick"]
        want = {b"NICK": [E(nick)], b"USER": [E(n.user or self.set["default-username"]), b"a", b"a", E(n.real or self.set["default-fullname"])]}
        if (pw if pw is not None else n.pw) is not None:
            want[b"PASS"] = [E(pw if pw is not None else n.pw)]
        if first != want:
            ks = [k for k in sorted(set(first) | set(want)) if first.get(k) != want.get(k)]
            self.fail("login:" + ks[0].decode(), "%s logs in with %r, expected %r" % (n.name, first, want))
        w.login_server(c, E(nick))
        w.sync_server(c)
        cmds, joins = [], {}
        for l in c.take():
            if l.args[0] == b"JOIN":
                for ch in l.args[1].split(b","):
                    joins[ch] = l.args[2] if len(l.args) > 2 else None
            elif l.args[0] != b"USERHOST":
                cmds.append(l.raw)
        exp = {E(c): E(k) if k is not None else None for c, (a, k) in n.chans.items() if a}
        if joins != exp:
            self.fail("joins", "%s joins %r, expected %r" % (n.name, joins, exp))
        if cmds != [E(x) for x in n.autocmd]:
            self.fail("autocmd", "%s runs %r, expected %r" % (n.name, cmds, n.autocmd))
        L = self.live[n.name] = Live(c, nick)
        # now be on these channels
        for ch, (a, k) in n.chans.items():
            if a and r.random() < .9:
                self.join(n, L, ch)
            elif a:
                c.send(b":irc.test %d %s %s :Cannot join channel" % (r.choice([403, 405, 471, 473, 474, 475]), E(nick), E(ch)))
        w.sync_server(c)
        self.cov.ev("logins_compared")

    def join(self, n, L, ch):
        c, r = L.conn, self.r
        E = lambda x: x.encode("utf-8", "surrogateescape")
        c.send(b":%s!u@h JOIN %s" % (E(L.nick), E(ch)))
        L.on[ch] = None
        if r.random() < .5:
            key = n.chans.get(ch, (0, None))[1]
            if r.random() < .4:
                key = r.choice(self.keys)
            self.modes(L, ch, key)

    def modes(self, L, ch, key):
        E = lambda x: x.encode("utf-8", "surrogateescape")
        L.conn.send(b":irc.test 324 %s %s +nt%s" % (E(L.nick), E(ch), b"k " + E(key) if key is not None else b""))
        L.on[ch] = key if key is not None else ""

    def doors(self):
        """Passwords that get in."""
        w, r = self.w, self.r
        main = self.set["password"]
        def tries(ip, port, good, bad):
            for pw, ok in ((good, True), (bad, False)):
                if r.random() < .5:
                    continue
                if pw is None:
                    continue
                c = self.connect(ip, port)
                c.send("PASS :" + pw)
                c.send("NICK probe", "PING :zz")
                w.pump(lambda: any(l.args[:1] == [b"464"] or b"PASS OK" in l.raw for l in c.lines) or c.closed, what="answer to PASS")
                got = any(b"PASS OK" in l.raw for l in c.lines)
                c.close()
                w.nudge()
                self.cov.ev("doors")
                if got != ok:
                    self.fail("password", "listener %s: password %r %s" % (port, pw, "accepted" if got else "refused"))
        tries(self.set["bind"], int(self.set["port"]), main, "wrong")
        for p, (pw, nn) in self.extra.items():
            tries(self.sip, int(p), pw if pw is not None else main, main if pw is not None and main != pw else "wrong")
        if self.socks:
            port = int(self.socks[0] or 1080)
            rules = self.socks[1]
            u, p = r.choice(rules)
            for u, p, ok in ((u, p, True), (u, "wrong", False), ("stranger", p, p == main)):
                c = self.connect(self.sip, port)
                U, P = u.encode(), p.encode()
                c.send_raw(b"\5\1\2" + bytes([1, len(U)]) + U + bytes([len(P)]) + P)
                w.pump(lambda: len(c.inbuf) >= 4 or c.closed, what="SOCKS answer")
                got = c.inbuf[:4] == b"\5\2\1\0"
                c.close()
                w.nudge()
                self.cov.ev("doors")
                if got != ok:
                    self.fail("socks", "SOCKS user %r password %r %s; rules %r" % (u, p, "accepted" if got else "refused", rules))

    def connect(self, ip, port):
        import socket
        s = socket.socket()
        self.w._connect(s, (ip, port))
        return e2e.Conn(self.w, s, "probe")

    # -- changes -----------------------------------------------------------
    def change(self):
        kind = self.r.choices(["set", "unset", "net", "server", "state", "connect", "names"], [8, 5, 4, 2, 5, 3, 2])[0]
        if getattr(self, "do_" + kind)() is not False:
            self.changes.add(kind)

    def values(self, k):
        r = self.r
        if k in ("admin-log", "auto-away-enable", "autosave", "learn-network-name", "learn-nickserv"):
            return ["true", "false"]
        if k in ("auto-away-client-limit", "auto-away-time", "max_who_age", "report-time-offset"):
            return [str(i) for i in INTS if k != "auto-away-time" or i < 0 or i > 1000]
        return {"motd-file": self.motds, "report-time": ["never", "always", "replication"], "replication": ["none", "simple", "highlight", "lastdisconnect"],
                "default-client-charset": ["UTF-8", "ISO-8859-15", "latin1"], "default-nick": ["nick%d" % i for i in range(3)] + ["n\\x", "n;"], "default-username": ["u1", "u;2"],
                "default-fullname": [t for t in TEXT if t[0] != " "], "admin-user": ["ctrlproxy", "Adm", "#adm", "x;y"], "port": ["6667", "6668"], "bind": [self.sip, self.ip2],
                "password": ["secret", "pw2", "two words", "%s", "x;y", "\\t", "caf\udce9", "a:b"], "default-network": ["net0", "nosuch", "irc://x/"],
                "auto-away-message": TEXT, "auto-away-nick": [t for t in TEXT if " " not in t]}[k]

    def do_set(self):
        r = self.r
        k = r.choice(sorted(k for k in self.set if k not in ("logging", "log_level") and (k != "default-client-charset" or not self.wide)))
        v = r.choice(self.values(k))
        self.ask("SET %s %s" % (k, v))
        self.set = self.settings()

    def do_unset(self):
        k = self.r.choice(["admin-user", "auto-away-client-limit", "auto-away-message", "auto-away-nick", "auto-away-time", "default-client-charset", "default-network",
                           "max_who_age", "motd-file", "report-time", "report-time-offset", "replication"])
        self.ask("UNSET " + k)
        self.set = self.settings()

    def do_net(self):
        r = self.r
        op = r.choice(["add", "del", "rename"])
        plain = [n for n in self.nets if " " not in n.name and n.kind == "tcp"]
        if op == "add" and self.free and len(self.nets) < 6:
            n = Net(r.choice(["new%d", "N\u00e9w%d", "n;%d", "n=%d", "%%s%d"]) % len(self.log))
            i = self.free.pop()
            n.servers.append((i, str(self.pool[i].port), r.choice([None, "addpw", "a;\\", "a\udce9"])))
            self.ask("ADDNETWORK " + n.name)
            self.ask(("ADDSERVER %s %s:%s %s" % (n.name, self.sip, n.servers[0][1], n.servers[0][2] or "")).strip())
            self.nets.append(n)
        elif op == "del" and plain:
            n = r.choice(plain)
            self.ask("DELNETWORK " + n.name)
            self.nets.remove(n)
            self.gone(n)
        elif op == "rename" and plain:
            n = r.choice(plain)
            new = r.choice(["re%d", "R\u00e9%d", "r;%d", n.name.upper().replace("%", "%%") + "%d"]) % len(self.log)
            self.ask("NETWORK RENAME %s %s" % (n.name, new))
            if n.name in self.live:
                self.live[new] = self.live.pop(n.name)
            for p, (pw, nn) in list(self.extra.items()):
                if nn == n.name:
                    self.extra[p] = (pw, new)
            if (self.set.get("default-network") or "").lower() == n.name.lower():
                self.set["default-network"] = new
            n.name = new
        else:
            return False

    def gone(self, n):
        L = self.live.pop(n.name, None)
        if L:
            self.w.pump(lambda: L.conn.closed, what="end of the connection of %s" % n.name)
        for p, (pw, nn) in list(self.extra.items()):
            if nn == n.name:
                self.extra[p] = (pw, None)

    def do_server(self):
        plain = [n for n in self.nets if " " not in n.name and n.kind == "tcp"]
        if not plain or not self.free:
            return False
        n = self.r.choice(plain)
        i = self.free.pop()
        n.servers.append((i, str(self.pool[i].port), self.r.choice([None, "addpw", "a;\\"])))
        self.ask(("ADDSERVER %s %s:%s %s" % (n.name, self.sip, n.servers[-1][1], n.servers[-1][2] or "")).strip())

    def do_state(self):
        """The server changes what the network looks like."""
        w, r = self.w, self.r
        if not self.live:
            return False
        name = r.choice(sorted(self.live))
        L = self.live[name]
        n = [x for x in self.nets if x.name == name][0]
        E = lambda x: x.encode("utf-8", "surrogateescape")
        op = r.choice(["join", "join", "part", "key", "key", "nokey", "modes", "nick"])
        self.log.append("server of %s: %s" % (name, op))
        if op == "join":
            rest = [c for c in self.chans if c not in L.on and c[0] in "#&"]
            if rest:
                self.join(n, L, r.choice(rest))
        elif op == "nick":
            new = r.choice(["newnick", "n_", "N{x}", "other"])
            L.conn.send(b":%s!u@h NICK %s" % (E(L.nick), E(new)))
            L.nick = new
        elif L.on:
            ch = r.choice(sorted(L.on))
            if ch[0] == "+" and op in ("key", "nokey"):     # no channel as far as the server said (CHANTYPES)
                op = "part"
            if op == "part":
                L.conn.send(b":%s!u@h PART %s" % (E(L.nick), E(ch)))
                del L.on[ch]
            elif op == "key":
                k = r.choice(self.keys)
                L.conn.send(b":op!u@h MODE %s +k %s" % (E(ch), E(k)))
                L.on[ch] = k
            elif op == "nokey":
                self.modes(L, ch, "gone")
                L.conn.send(b":op!u@h MODE %s -k gone" % E(ch))
                L.on[ch] = ""
            else:
                self.modes(L, ch, r.choice(self.keys + [None]))
        w.sync_server(L.conn)

    def do_connect(self):
        w, r = self.w, self.r
        plain = [n for n in self.nets if " " not in n.name and n.kind == "tcp" and n.servers]
        if not plain:
            return False
        n = r.choice(plain)
        if n.name in self.live:
            self.leave_state(n)
            self.ask("DISCONNECT " + n.name)
            self.gone_keep(n)
        else:
            return False

    def gone_keep(self, n):
        L = self.live.pop(n.name)
        self.w.pump(lambda: L.conn.closed, what="end of the connection of %s" % n.name)
        n.down = True

    do_names = do_set

    def leave_state(self, n):
        """The configuration takes over what the network is like."""
        L = self.live[n.name]
        if n.nick is not None or L.nick != self.set["default-nick"]:
            n.nick = L.nick
        n.chans = {c: (False, k) for c, (a, k) in n.chans.items()}
        for c, k in L.on.items():
            old = n.chans.get(c, (0, None))[1]
            n.chans[c] = (True, old if k is None else k or None)

    # -- saving --------------------------------------------------------------
    def snapshot(self, d):
        """The saved files, without regard to order."""
        res = {}
        for base, _, fs in os.walk(d):
            for f in fs:
                p = os.path.join(base, f)
                rel = os.path.relpath(p, d)
                if rel in ("config", "listener", "keys") or rel.startswith("networks"):
                    sec, cont = None, set()
                    for l in open(p, "rb").read().split(b"\n"):
                        if l.startswith(b"["):
                            sec = l
                        elif l.strip():
                            cont.add((sec, l))
                    res[rel] = cont
        return res

    def merge(self):
        """What saving takes from the running networks."""
        for n in self.nets:
            if n.kind == "tcp":
                n.auto = n.name in self.live
                if n.name in self.live:
                    self.leave_state(n)
            elif n.kind == "admin":
                pass

    def save(self):
        w, r = self.w, self.r
        how = r.choice(["cmd", "cmd", "usr1", "exit", "other", "fail"])
        self.log.append("--- saving: " + how)
        if how == "exit":
            if self.set["autosave"] == "true":
                pass
            else:
                how = "cmd+exit"
        if how == "fail":
            self.failing_save()
        if how == "other":
            other = os.path.join(w.dir, "other%d" % len(self.log))
            out = self.ask("SAVECONFIG " + other)
            self.saved(out)
            self.merge()
            w.vctl.set("file_enospc", 0)
            w.kill()
            w.proc = None
            shutil.rmtree(w.conf)
            # the MOTD and the like stay where they are
            os.rename(other, w.conf)
        elif how == "usr1":
            before = os.stat(os.path.join(w.conf, "config")).st_ino
            w.proc.send_signal(signal.SIGUSR1)
            w.pump(lambda: os.stat(os.path.join(w.conf, "config")).st_ino != before, what="the saving of the configuration")
            w.nudge()
            self.merge()
            w.kill()
        elif how == "exit":
            # takes the configuration as it is, not what the networks are doing
            w.stop()
        else:
            self.saved(self.ask("SAVECONFIG"))
            self.merge()
            one = self.snapshot(w.conf)
            if r.random() < .5:
                self.saved(self.ask(r.choice(["SAVECONFIG", "SAVECONFIG " + w.conf])))
                two = self.snapshot(w.conf)
                if one != two:
                    d = {k: (sorted(one.get(k, set()) - two.get(k, set())), sorted(two.get(k, set()) - one.get(k, set()))) for k in set(one) | set(two) if one.get(k) != two.get(k)}
                    self.fail("twice", "saving again changed the files (gone, new): %r" % d)
                self.cov.ev("saved_twice")
            if how == "cmd+exit":
                w.stop()
            else:
                w.kill()
        for s in self.pool:
            for c in s.accepted:
                c.close()
        self.adm.close()
        w.lport = int(self.set["port"])
        w.ip = self.set["bind"]
        return how

    def saved(self, out):
        if len(out) != 1 or not out[0].startswith("Configuration saved in "):
            self.fail("save", "SAVECONFIG answered %r" % out)

    def failing_save(self):
        w, r = self.w, self.r
        kind = r.choice(["file", "enospc", "missing"])
        self.log.append("failing: " + kind)
        if kind == "file":
            p = os.path.join(w.dir, "afile")
            open(p, "w").write("x")
            out = self.ask("SAVECONFIG " + p)
            if open(p).read() != "x":
                self.fail("fail:clobber", "SAVECONFIG into a file overwrote it")
        elif kind == "missing":
            out = self.ask("SAVECONFIG " + os.path.join(w.dir, "no", "such", "dir"))
        else:
            before = self.snapshot(w.conf)
            w.vctl.set("file_skip", r.choice([0, 0, 1, 2, 3]))
            w.vctl.set("file_enospc", 1)
            n0 = w.vctl.get("n_file_fail")
            out = self.ask("SAVECONFIG")
            w.vctl.set("file_enospc", 0)
            w.vctl.set("file_skip", 0)
            if w.vctl.get("n_file_fail") == n0:
                self.saved(out)
                return
            after = self.snapshot(w.conf)
            if not after.get("config"):
                self.fail("fail:lost", "a failed save left no configuration behind: %r" % after.get("config"))
        self.cov.ev("failed_saves")
        if any(l.startswith("Configuration saved") for l in out) or not out:
            self.fail("fail:silent", "SAVECONFIG (%s) could not save and answered %r" % (kind, out))
