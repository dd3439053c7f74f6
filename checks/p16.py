"""P16: nick service passwords are kept, used for the right nick and network, and nowhere else."""
import os, signal
import build, core, e2e
from core import Violation

ID = "P16"
TECHNIQUE = "runtime monitoring: every line the servers of several networks receive is compared with an executable model of which password is known for which nick and network, over histories of identifying, nick changes, reconnects, renames, saves and restarts"
LEVEL = "exploration"
LEVEL_NOTE = "Randomized histories over 2-3 networks against the sanitized proxy, with real restarts, write failures and unique marked passwords, so that a password anywhere else (another network, the log) shows."
RULE = "one evaluation per step after which the messages at every server are compared with the model; distinct = (kind of step, whether a password was known and where from, answer expected) combinations"
ASSUMPTIONS = ["nobody else is called NickServ on a network", "whether the proxy identifies for a new nick while no client is attached is left open"]
CASE_LIMIT = 200
_bin = [None]

NICKS = ["me", "Me", "other", "n[x]", "n{x}", "N[X]", "gast|1", "gast\\1", "GAST\\1", "a-b", "^", "~", "x_"]
FOLD = {"ascii": str.maketrans("ABCDEFGHIJKLMNOPQRSTUVWXYZ", "abcdefghijklmnopqrstuvwxyz"),
        "rfc1459": str.maketrans("ABCDEFGHIJKLMNOPQRSTUVWXYZ[]\\^", "abcdefghijklmnopqrstuvwxyz{}|~"),
        "strict-rfc1459": str.maketrans("ABCDEFGHIJKLMNOPQRSTUVWXYZ[]\\", "abcdefghijklmnopqrstuvwxyz{}|")}
E = lambda x: x.encode("utf-8", "surrogateescape")


def prepare():
    _bin[0] = build.build_proxy("asan")


def cases(tier, seed):
    n, steps = (400, 40) if tier == "quick" else (4000, 120)
    return [{"seed": seed * 1231 + i, "steps": steps} for i in range(n)]


def run_case(case, cov):
    r = core.case_rng(case)
    w = e2e.World(_bin[0], "p16")
    try:
        Run(w, r, case, cov).run()
    finally:
        w.close()


class Net:
    name = srv = conn = nick = client = cm = None
    R = up = False


class Run:
    def __init__(self, w, r, case, cov):
        self.w, self.r, self.case, self.cov = w, r, case, cov
        self.log, self.tok = [], 0

    def fail(self, key, detail):
        raise Violation("nickserv:" + key, "%s\nknown: %r\n--- history\n%s" % (detail, self.known, "\n".join(self.log[-40:])))

    def pw(self):
        r = self.r
        self.tok += 1
        t = "tk%dtk" % self.tok
        if self.known and r.random() < .2:       # hardly different from another one
            p = r.choice(self.known)[1]
            p = r.choice([p + r.choice("1x."), p.swapcase(), "x" + p, p[:-1]])
            if "tk" in p.lower() and len(p) < 200 and p == p.strip():
                return p
        return r.choice(["%s", "%s", "%s", "%s two", " %s", "%s:x", ":%s", "a\t%s", "%s\t", "caf\u00e9%s", "\udce9%s", "%s%%s%%n", "#%s", "%s;x", "-%s", "\"%s\"", "[%s]", "x%s" + "y" * 150, "*\t%s", "%s "]).replace("%s", t, 1)

    # -- the model: entries are (nick, password, network or None) -----------------
    def fold(self, n, nick):
        return nick.translate(FOLD[n.cm])

    def find(self, n, nick):
        for specific in (True, False):
            for k, p, net in self.known:
                if self.fold(n, k) == self.fold(n, nick) and ((net or "").lower() == n.name.lower() if specific else net is None):
                    return p
        return None

    def learn(self, n, p):
        if not self.learning or self.find(n, n.nick) == p:
            return
        for i, (k, _, net) in enumerate(self.known):
            if net is not None and net.lower() == n.name.lower() and self.fold(n, k) == self.fold(n, n.nick):
                self.known[i] = (k, p, net)
                return
        self.known.append((n.nick, p, n.name))

    def identify(self, n):
        """What is sent to identify."""
        p = None if n.R else self.find(n, n.nick)
        self.sig = ("known" if p is not None else "unknown", n.R)
        return [] if p is None else [b"PRIVMSG NickServ :IDENTIFY " + E(p)]

    def some_nick(self):
        r = self.r
        if self.known and r.random() < .6:
            k = r.choice(self.known)[0]
            return k if r.random() < .6 else k.swapcase()
        return r.choice(NICKS)

    # -- set-up ------------------------------------------------------------------
    def run(self):
        w, r = self.w, self.r
        self.known, self.dirty = [], False
        self.learning = r.random() < .8
        self.autosave = r.random() < .7
        self.nets = []
        cfg = []
        for i in range(r.choice([2, 2, 3])):
            n = Net()
            n.name = "net%d" % i if i else r.choice(["net0", "N\u00e9t", "NET.x", "irc-a"])
            if i and r.random() < .4:       # hardly different
                m = self.nets[-1].name
                n.name = r.choice([m + "2", m[:-1], "x" + m, m + "." + m])
                if n.name.lower() in [x.name.lower() for x in self.nets]:
                    n.name = "net%d" % i
            n.srv = w.server("s%d" % i)
            n.cm = r.choice(["rfc1459", "ascii", "strict-rfc1459"])
            n.conf = r.choice(NICKS)
            self.nets.append(n)
            cfg.append((n.name, {"nick": n.conf.replace("\\", "\\\\"), "username": "u", "fullname": "F", "servers": "%s:%d" % (w.ip, n.srv.port), "queue-speed": "0", "reconnect-interval": "5"}))
        w.write_config({"autoconnect": ";".join(n.name for n in self.nets), "replication": "none", "report-time": "never",
                        "learn-nickserv": "true" if self.learning else "false", "autosave": "true" if self.autosave else "false",
                        "admin-log": "false"}, cfg)
        if r.random() < .6:
            seen = set()
            rows = ["# comment\tx\ty\n"]
            for _ in range(r.randint(1, 6)):
                k, net = r.choice(NICKS), r.choice([None] + [n.name for n in self.nets] + ["elsewhere", self.nets[0].name + "x", self.nets[-1].name[:-1]])
                cls = (k.translate(FOLD["rfc1459"]), net)
                if net is not None and net not in [n.name for n in self.nets] and net.lower() in [n.name.lower() for n in self.nets]:
                    continue
                if cls in seen:
                    continue
                seen.add(cls)
                p = self.pw()
                if net is None and "\t" not in p and r.random() < .4:
                    rows.append("%s\t%s\n" % (k, p))
                else:
                    rows.append("%s\t%s\t%s\n" % (k, p, r.choice([net, net.upper()]) if net and net.isascii() else net or "*"))
                self.known.append((k, p, net))
            p = os.path.join(w.conf, "nickserv")
            with open(p, "wb") as f:
                f.write(E("".join(rows)))
        self.disk = list(self.known)
        w.vctl.set("freeze", 1)
        w.vctl.set("frozen_ns", 10 ** 12)
        w.vctl.set("frozen_rt_ns", 1700000000 * 10 ** 9)
        self.boot()
        for _ in range(self.case["steps"]):
            op = r.choices(["ident", "other", "nick", "nick", "othernick", "mode", "drop", "client", "rename", "save", "restart", "half", "from", "learnset"],
                           [9, 6, 7, 4, 2, 3, 4, 5, 2, 3, 2, 1, 2, 1])[0]
            n = r.choice(self.nets)
            self.expect = {x.name: [] for x in self.nets}
            self.maybe = {x.name: [] for x in self.nets}
            self.sig = None
            if getattr(self, "do_" + op)(n) is False:
                continue
            self.compare(op)
        err = w.stderr()
        w.stop()
        err = w.stderr()
        for t in range(1, self.tok + 1):
            if "tk%dtk" % t in err:
                self.fail("log", "a password shows in the log of the proxy: %r" % [l for l in err.split("\n") if "tk%dtk" % t in l][:3])

    def boot(self):
        w = self.w
        for n in self.nets:
            n.base = len(n.srv.accepted)
            n.client = None
        w.start()
        self.log.append("--- started")
        self.expect = {x.name: [] for x in self.nets}
        self.maybe = {x.name: [] for x in self.nets}
        for n in self.nets:
            self.login(n, fresh=True)
        self.compare("start")
        for n in self.nets:
            if self.r.random() < .8:
                n.client = w.attach(n.nick, n.name)

    def login(self, n, fresh=False):
        w, r = self.w, self.r
        w.pump(lambda: len(n.srv.accepted) > n.base, what="connection of %s" % n.name)
        c = n.conn = n.srv.conn
        n.base = len(n.srv.accepted)
        w.pump(lambda: any(l.args[:1] == [b"USER"] for l in c.lines) or c.closed, what="login of %s" % n.name)
        asked = [l.args[1] for l in c.lines if l.args[:1] == [b"NICK"]][-1].decode("utf-8", "surrogateescape")
        if r.random() < .25:
            c.send(b":irc.test 433 * %s :Nickname is already in use" % E(asked))
            w.pump(lambda: [l for l in c.lines if l.args[:1] == [b"NICK"]][-1].args[1] != E(asked), what="another nick")
            self.log.append("%s: %s is taken" % (n.name, asked))
            asked = [l for l in c.lines if l.args[:1] == [b"NICK"]][-1].args[1].decode("utf-8", "surrogateescape")
        n.nick = asked if r.random() < .6 else self.some_nick()
        n.R, n.up = False, True
        self.log.append("%s: logs in as %s" % (n.name, n.nick))
        self.expect[n.name] += self.identify(n)
        w.login_server(c, E(n.nick), extra005=("CHANTYPES=#& PREFIX=(ov)@+ CHANMODES=b,k,l,imnpst CASEMAPPING=" + n.cm,))

    def compare(self, op):
        for n in self.nets:
            if not n.conn or n.conn.closed:
                continue
            self.w.sync_server(n.conn)
            got = [l for l in n.conn.take() if l.args[:1] and l.args[0].upper() in (b"PRIVMSG", b"NOTICE", b"NS", b"NICKSERV", b"IDENTIFY") or b"tk" in l.raw]
            self.cov.ev("messages", len(got))
            # the same message can be written in several ways
            norm = lambda ls: [tuple(x.args) if hasattr(x, "args") else tuple(e2e.parse_line(x)[1]) for x in ls]
            got, exp, may = norm(got), norm(self.expect[n.name]), norm(self.maybe[n.name])
            if got != exp and not (may and got == exp + may):
                extra = [x for x in got if x not in exp]
                missing = [x for x in exp if x not in got]
                self.fail("leak" if extra and not missing else "missing" if missing and not extra else "wrong" if extra else "order",
                          "after %s, the server of %s got %r, expected %r" % (op, n.name, got, exp))
            self.cov.judge((op, self.sig, len(exp), n.client is not None))

    # -- steps ---------------------------------------------------------------------
    def do_ident(self, n):
        """The user identifies."""
        r = self.r
        if not n.client or not n.up:
            return False
        p = self.pw() if r.random() < .8 or not self.known else r.choice(self.known)[1]
        how = r.choice(["PRIVMSG NickServ :IDENTIFY %s", "PRIVMSG nickserv :identify %s", "NOTICE NickServ :IDENTIFY %s", "privmsg NICKSERV :Identify %s", "NS :IDENTIFY %s", "ns IDENTIFY :%s", "NS IDENTIFY %s"])
        if how == "NS IDENTIFY %s" and (p[0] == ":" or " " in p):
            return False
        line = how.replace("%s", p, 1)
        self.log.append("user on %s as %s: %r" % (n.name, n.nick, line))
        n.client.send(E(line))
        self.w.sync_client(n.client)
        self.sig = ("relearn" if self.find(n, n.nick) else "new", self.learning)
        self.learn(n, p)
        self.expect[n.name].append(E(line))

    def do_other(self, n):
        """Messages that are no identifying."""
        r = self.r
        if not n.client or not n.up:
            return False
        line = r.choice(["PRIVMSG NickServ :HELP IDENTIFY %s", "PRIVMSG bob :IDENTIFY %s", "PRIVMSG NickServ :IDENTIFY", "PRIVMSG NickServ :IDENTIFY ", "PRIVMSG NickServ :IDENTIFY%s x", "NS HELP %s",
                         "NS :REGISTER %s", "PRIVMSG #c :IDENTIFY %s", "NOTICE ChanServ :IDENTIFY %s", "PRIVMSG NickServ2 :IDENTIFY %s", "PRIVMSG NickSer :IDENTIFY %s", "NS", "PRIVMSG NickServ",
                         "PRIVMSG NickServ : IDENTIFY %s", "CS IDENTIFY %s"])
        if "%s" in line:
            self.tok += 1
            line = line.replace("%s", "tk%dtk" % self.tok)
        self.log.append("user on %s as %s: %r" % (n.name, n.nick, line))
        n.client.send(E(line))
        self.w.sync_client(n.client)
        self.sig = line.split("tk")[0]
        self.expect[n.name].append(E(line))

    def do_nick(self, n):
        """The user's nick changes."""
        r = self.r
        if not n.up:
            return False
        new = self.some_nick()
        if new == n.nick:
            return False
        self.log.append("%s: %s is now %s" % (n.name, n.nick, new))
        if n.client and r.random() < .6:
            n.client.send(E("NICK " + new))
            self.w.sync_client(n.client)
        n.conn.send(E(":%s!user@real.host NICK :%s" % (n.nick, new)))
        n.nick = new
        (self.expect if n.client else self.maybe)[n.name] += self.identify(n)

    def do_othernick(self, n):
        """Somebody else's nick changes, perhaps to one with a known password."""
        r = self.r
        if not n.up:
            return False
        new = r.choice([x for x in NICKS if self.fold(n, x) != self.fold(n, n.nick)])
        n.conn.send(E(":stranger!x@y NICK %s" % new))
        self.log.append("%s: stranger is now %s" % (n.name, new))

    def do_mode(self, n):
        if not n.up:
            return False
        n.R = not n.R
        n.conn.send(E(":%s MODE %s %sR" % (n.nick, n.nick, "+" if n.R else "-")))
        self.log.append("%s: registered: %s" % (n.name, n.R))

    def do_from(self, n):
        """Messages the other way round."""
        r = self.r
        if not n.up:
            return False
        self.tok += 1
        n.conn.send(E(r.choice([":NickServ!s@s PRIVMSG %s :IDENTIFY tk%dtk", ":NickServ!s@s NOTICE %s :IDENTIFY tk%dtk", ":NickServ!s@s NOTICE %s :This nickname is registered tk%dtk", ":%s!user@real.host PRIVMSG NickServ :IDENTIFY tk%dtk",
                                ":irc.test 433 %s me :tk%dtk Nickname is already in use", ":x!y@z PRIVMSG %s :NS IDENTIFY tk%dtk"]) % (n.nick, self.tok)))
        self.log.append("%s: message from the server" % n.name)

    def do_learnset(self, n):
        self.learning, self.dirty = not self.learning, True
        self.w.admin("SET learn-nickserv " + ("true" if self.learning else "false"))
        self.log.append("learning: %s" % self.learning)

    def do_client(self, n):
        w = self.w
        if n.client:
            w.leave(n.client)
            n.client = None
            self.log.append("%s: client left" % n.name)
        elif n.up:
            # does not ask for another nick
            n.client = w.attach(n.nick, n.name)
            self.log.append("%s: client attached" % n.name)
        else:
            return False

    def lose(self, n):
        w = self.w
        n.conn.close()
        n.up = False
        w.nudge()
        w.nudge()
        w.advance(6)

    def do_drop(self, n):
        self.log.append("%s: connection lost" % n.name)
        self.lose(n)
        self.login(n)
        self.sig += ("drop",)

    def do_half(self, n):
        """A connection that does not get to the end of the login."""
        w, r = self.w, self.r
        self.log.append("%s: half a login" % n.name)
        self.lose(n)
        w.pump(lambda: len(n.srv.accepted) > n.base, what="connection of %s" % n.name)
        n.conn = c = n.srv.conn
        n.base = len(n.srv.accepted)
        nick = r.choice(NICKS)
        w.login_server(c, E(nick), motd=False)
        new = r.choice(NICKS)
        c.send(E(":%s!user@real.host NICK :%s" % (nick, new)))
        w.sync_server(c)
        got = [l.raw for l in c.take() if l.args[:1] in ([b"PRIVMSG"], [b"NOTICE"], [b"NS"])]
        if got:
            self.fail("early", "before the end of the login the server of %s got %r" % (n.name, got))
        self.do_drop(n)

    def do_rename(self, n):
        if " " in n.name:
            return False
        new = self.r.choice(["re%d", "N%d", "x.%d", "\u00e9%d"]) % len(self.log)
        if self.r.random() < .3:
            new = self.r.choice([n.name + "r", n.name[:-1] or "y", n.name + n.name])
            if len(new) > 60 or any(x is not n and x.name.lower() == new.lower() for x in self.nets):
                return False
        out = self.w.admin("NETWORK RENAME %s %s" % (n.name, new))
        self.dirty = True
        self.log.append("%s renamed to %s" % (n.name, new))
        self.known = [(k, p, new if net and net.lower() == n.name.lower() else net) for k, p, net in self.known]
        for d in (self.expect, self.maybe):
            d[new] = d.pop(n.name)
        n.name = new

    def do_save(self, n):
        w, r = self.w, self.r
        how = r.choice(["cmd", "usr1", "fail"])
        self.log.append("saving: " + how)
        p = os.path.join(w.conf, "nickserv")
        if how == "fail":
            w.vctl.set("file_skip", r.choice([0, 1, 2, 3, 4, 5]))
            w.vctl.set("file_enospc", 1)
            w.admin("SAVECONFIG")
            w.vctl.set("file_enospc", 0)
            w.vctl.set("file_skip", 0)
            got = sorted(self.parse(p), key=repr)
            old, new = sorted(self.rows(self.disk), key=repr), sorted(self.rows(self.known), key=repr)
            if got != old and got != new:
                self.fail("failed-save", "after a failed save the file has %r, before %r, to be saved %r" % (got, old, new))
            self.cov.ev("failed_saves")
            w.admin("SAVECONFIG")
        elif how == "cmd":
            w.admin("SAVECONFIG")
        else:
            ino = lambda: [os.stat(os.path.join(w.conf, "config")).st_ino]
            before = ino()
            w.proc.send_signal(signal.SIGUSR1)
            w.pump(lambda: ino() != before, what="saving")
            w.nudge()
        self.disk, self.dirty = list(self.known), False
        if self.known and os.stat(p).st_mode & 0o77:
            self.fail("mode", "the passwords are in a file with mode %o" % (os.stat(p).st_mode & 0o777))
        got, exp = sorted(self.parse(p), key=repr), sorted(self.rows(self.known), key=repr)
        if got != exp:
            self.fail("saved", "saved are %r, known %r" % (got, exp))
        self.cov.ev("saves")

    def rows(self, known):
        return [(E(k), E(p), E((net or "*").lower())) for k, p, net in known]

    def parse(self, p):
        if not os.path.exists(p):
            return []
        res = []
        for l in open(p, "rb").read().split(b"\n"):
            if l and not l.startswith(b"#"):
                a = l.split(b"\t")
                if len(a) < 3:
                    a.append(b"*")
                res.append((a[0], b"\t".join(a[1:-1]), a[-1].decode("utf-8", "surrogateescape").lower().encode("utf-8", "surrogateescape")))
        return res

    def do_restart(self, n):
        w, r = self.w, self.r
        how = r.choice(["exit", "exit", "kill"])
        if how == "kill" and self.dirty:
            how = "exit"
        if how == "exit" and not self.autosave:
            w.admin("SAVECONFIG")
            self.disk = list(self.known)
        elif how == "exit":
            self.disk = list(self.known)
        self.log.append("restart: " + how)
        if how == "exit":
            w.stop()
        else:
            w.kill()
        for x in self.nets:
            if x.client:
                x.client.close()
                x.client = None
            for c in x.srv.accepted:
                c.close()
        self.known, self.dirty = list(self.disk), False
        self.boot()
        self.expect = {x.name: [] for x in self.nets}
        self.sig = how
