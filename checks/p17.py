"""P17: logs hold each message once, in the right place, and nothing is written elsewhere."""
import os, re, signal, time
import build, core, e2e
from core import Violation

ID = "P17"
TECHNIQUE = "runtime monitoring: after every few events all files below the scratch directory are compared byte for byte with the logs an independent model of conversations and formats expects, and with the set of files that may exist at all"
LEVEL = "exploration"
LEVEL_NOTE = "Randomized histories of channel, private and membership events in both directions with hostile names, for the built-in format and for generated formats and file names; the proxy runs as an unprivileged user below nested scratch directories so that escapes are seen and harmless."
RULE = "one evaluation per comparison of the complete log directory with the model; distinct = (kind of event, number of logs it belongs to, kind of logging) combinations"
ASSUMPTIONS = ["names differing only in ASCII case are one conversation; names the server's case mapping folds further are not generated together",
               "CTCP requests and replies other than ACTION are no messages", "slashes in names are written as underscores"]
CASE_LIMIT = 200
_bin = [None]

E = lambda x: x.encode("utf-8", "surrogateescape")
NOW = 1700000000
CHANS = ["#one", "#Two", "#a/b", "#../../up", "#..", "&.", "#%@", "#caf\udce9", "#", "#" + "l" * 150, "#\u00fcber", "#x%n", "#-", "&loc/", "##", "#~", "#$HOME", "#a.b"]
NICKS = ["bob", "Carl", "..", ".", "...", "a/b", "../../evil", "/etc/passwd", "-", "%n", "%%", "\u00e9t\u00e9", "x\udce9", "con", "~root", "a.log", "_", "n" * 120, "../bob", "bob/", "m"]
TEXTS = ["hello", "two words", "%n %m %@ %%", ":colon", "", " leading", "tab\there", "caf\udce9", "\u20ac", "\\n\\t", "x" * 380, "<bob> fake", "[x]", "\x02bold\x0f", "a,b", "/me waves", "\x7f\x1b[31m", "trailing "]


def prepare():
    _bin[0] = build.build_proxy("asan")


def cases(tier, seed):
    n, steps = (300, 60) if tier == "quick" else (2500, 250)
    out = [{"seed": seed * 937 + i, "steps": steps} for i in range(n)]
    return out + [{"seed": seed * 937 + i, "many": k} for i, k in enumerate((700, 1500) if tier == "quick" else (350, 700, 1500, 3000))]


def run_case(case, cov):
    r = core.case_rng(case)
    w = e2e.World(_bin[0], "p17", unpriv=True)
    try:
        (Run(w, r, case, cov).run if "steps" in case else Run(w, r, case, cov).many)()
    finally:
        w.close()


def safe(s):
    return "_" * len(s) if set(s) <= {"."} else s.replace("/", "_")


low = lambda s: "".join(chr(ord(c) + 32) if "A" <= c <= "Z" else c for c in s)

IRSSI = {"join": "%h:%M -!- %n [%u] has joined %c", "part": "%h:%M -!- %n [%u] has left %c [%m]", "msg": "%h:%M < %n> %m", "notice": "%h:%M < %n> %m",
         "action": "%h:%M  * %n %m", "mode": "%h:%M -!- mode/%t [%p %c] by %n", "quit": "%h:%M -!- %n [%u] has quit [%m]",
         "kick": "%h:%M -!- %t has been kicked by %n [%r]", "topic": "%h:%M -!- %n has changed the topic to %t", "notopic": "%h:%M -!- %n has removed the topic",
         "nickchange": "%h:%M -!- %n is now known as %r"}
LETTERS = {"join": "c", "part": "cm", "msg": "tm", "notice": "tm", "action": "tm", "mode": "tpc", "quit": "m", "kick": "ctr", "topic": "ct", "notopic": "c", "nickchange": "r"}


class Net:
    client = None


class Run:
    def __init__(self, w, r, case, cov):
        self.w, self.r, self.case, self.cov = w, r, case, cov
        self.log = []
        self.drift, self.last = 0, None

    def fail(self, key, detail):
        raise Violation("log:" + key, "%s\nconfiguration: %r\n--- history\n%s" % (detail, self.cfg, "\n".join(self.log[-50:])))

    # -- set-up ----------------------------------------------------------------
    def setup(self):
        w, r = self.w, self.r
        self.off = 0
        self.base = os.path.join(w.dir, r.choice(["l", "l.d", "a b"]), "b", "c", "d", "e", "logs")
        self.kind = r.choice(["irssi", "irssi-default", "irssi-old", "irssi-file", "custom", "custom", "custom", "none"])
        g, extra, self.fmt, self.file = {}, "", dict(IRSSI), None
        if self.kind == "irssi":
            g.update(logging="irssi", logdir=self.base)
        elif self.kind == "irssi-default":
            g.update(logging="irssi")
            self.base = os.path.join(w.conf, "log_irssi")
        elif self.kind == "irssi-old":
            extra = "[log-irssi]\nlogfile=%s\n" % self.base
        if self.kind in ("irssi", "irssi-default", "irssi-old"):
            self.file = [self.base + "/", "%N", "/", "%@"]
        else:
            self.file = [self.base + "/"] + r.choice([["%N", "/", "%@"], ["%N", "-", "%@", ".log"], ["%Y", "/", "%N", "/", "%B", "-", "%@"], ["all"], ["%@"], ["%@", "/", "%N"], ["%S", "/", "%@"], ["%N", "/", "%@", "%%"], ["%@", ".", "%d"],
                                                      ["x%%", "%N", "%@"], ["%N", "/", "by-", "%n"], ["%N", "/", "u", "%u", "-", "%@"], ["%0", "-", "%b", "/", "%@"], ["%N", "/", "%@", "/", "t%h"]])
            lf = self.file[0] + "".join(self.file[1:])
            if self.kind == "irssi-file":
                g.update(logging="irssi", logfile=lf)
            elif self.kind == "custom":
                g.update(logging="custom", logfilename=lf)
                self.fmt = {}
                for k, ls in LETTERS.items():
                    if r.random() < .9:
                        parts = [k.upper()] + ["%" + x for x in ls if r.random() < .85] + r.sample(["%n", "%u", "%N", "%@", "%%", "%h:%M:%s", "%Y-%B-%d", "%e", "%S", "%0", "%1", "%2", "%3", "%4", "%9", "%b", "%z", "x", "é"], r.randint(0, 4))
                        if k in ("quit", "nickchange") and "%@" not in self.file:
                            parts = [p for p in parts if p != "%@"]     # nothing settles the order of the conversations
                        r.shuffle(parts)
                        self.fmt[k] = r.choice([" ", "|", ""]).join(parts)
                        g["log-format-" + k] = self.fmt[k]
            else:
                self.fmt = {}
                g["logging"] = r.choice(["none", None])
                g["logfile"] = lf
        self.nets, cfg = [], []
        for nm in r.sample(["net0", "N\u00e9t", "..", "a/b", "...", "100%", "%@", ".hid", "x..y"], 2):
            n = Net()
            n.name, n.nick, n.srv = nm, "me", w.server("s%d" % len(self.nets))
            self.nets.append(n)
            cfg.append((nm, {"nick": "me", "username": "u", "fullname": "F", "servers": "%s:%d" % (w.ip, n.srv.port), "queue-speed": "0", "reconnect-interval": "5"}))
        self.cfg = g
        w.write_config({"autoconnect": ";".join(n.name for n in self.nets), "replication": "none", "report-time": self.r.choice(["never", "always"]), "admin-log": "false", **g}, cfg, extra)
        w.vctl.set("freeze", 1)
        w.vctl.set("frozen_ns", 10 ** 12)
        w.vctl.set("frozen_rt_ns", NOW * 10 ** 9)
        self.want = {}              # path -> expected text
        self.gone = {}              # moved away: path -> expected text
        self.dirty = set()

    def boot(self):
        w = self.w
        for n in self.nets:
            n.base = len(n.srv.accepted)
            n.client = None
        w.start()
        for n in self.nets:
            self.login(n)
        self.known = self.files(outside=True)

    def login(self, n):
        w, r = self.w, self.r
        w.pump(lambda: len(n.srv.accepted) > n.base, what="connection of %s" % n.name)
        n.base = len(n.srv.accepted)
        n.conn = n.srv.conn
        n.nick = "me"
        w.login_server(n.conn, "me")
        n.conn.send(":irc.test 302 me :me=+user@real.host")
        w.sync_server(n.conn)
        n.chans, n.query = {}, {"me"}
        n.conn.take()

    # -- the model ---------------------------------------------------------------
    def subst(self, fmt, n, l, ident, path=False):
        t = time.gmtime(NOW + self.off)
        origin, args = l
        nick, _, user = (origin or "").partition("!")
        cmd = args[0].upper()
        out, i = [], 0
        while i < len(fmt):
            if fmt[i] != "%":
                out.append(fmt[i])
                i += 1
                continue
            c = fmt[i + 1:i + 2]
            i += 2
            a = lambda k: args[k] if k < len(args) else ""
            v = {"@": ident, "h": "%02d" % t.tm_hour, "M": "%02d" % t.tm_min, "s": "%02d" % t.tm_sec, "d": "%02d" % t.tm_mday, "B": "%02d" % t.tm_mon, "b": time.strftime("%b", t), "Y": "%04d" % t.tm_year,
                 "e": str(NOW + self.off), "n": nick, "u": user, "N": n.name, "S": self.w.ip, "%": "%"}.get(c)
            if v is None and c.isdigit():
                v = a(int(c))
            if v is None:
                m = {("JOIN", "c"): 1, ("PART", "c"): 1, ("PART", "m"): 2, ("KICK", "c"): 1, ("KICK", "t"): 2, ("KICK", "r"): 3, ("QUIT", "m"): 1, ("NOTICE", "t"): 1, ("NOTICE", "m"): 2,
                     ("PRIVMSG", "t"): 1, ("PRIVMSG", "m"): 2, ("TOPIC", "c"): 1, ("TOPIC", "t"): 2, ("MODE", "t"): 1, ("MODE", "p"): 2, ("NICK", "r"): 1}.get((cmd, c))
                v = " ".join(args[3:]) if (cmd, c) == ("MODE", "c") else a(m) if m else ""
            if path:
                v = safe(low(v) if c not in "NSb" else v)
            out.append(v)
        return "".join(out)

    def entry(self, ev, n, l, idents):
        if self.kind == "none" or self.fmt.get(ev) is None:
            return
        for i in idents:
            path = self.file[0] + "".join(self.subst(p, n, l, i, True) for p in self.file[1:])
            self.want[path] = self.want.get(path, b"") + E(self.subst(self.fmt[ev], n, l, i) + "\n")
        self.cov.judge((ev, len(idents), self.kind))

    def files(self, outside=False):
        """All files below the scratch directory (in the logs, or elsewhere)."""
        res = {}
        for d, ds, fs in os.walk(self.w.dir):
            inside = (d + "/").startswith(self.base + "/")
            if inside != outside:
                for f in fs:
                    p = os.path.join(d, f)
                    res[p] = open(p, "rb").read() if inside else 0
            elif not inside and d != self.w.dir and not outside and not fs and not ds and not (self.base + "/").startswith(d + "/"):
                pass
        return res

    def compare(self):
        w = self.w
        for n in self.nets:
            if not n.conn.closed:
                w.sync_server(n.conn)
        got = self.files()
        self.cov.ev("comparisons")
        self.cov.ev("log_lines", sum(t.count(b"\n") for t in got.values()))
        want = {**self.want, **self.gone}
        if got != want:
            for p in sorted(set(got) | set(want)):
                a, b = got.get(p), want.get(p)
                if a == b:
                    continue
                rel = p[len(w.dir):]
                if b is None:
                    self.fail("place", "%r exists with %r; expected are %r" % (rel, a[-300:], sorted(x[len(w.dir):] for x in want if want[x] != got.get(x))[:8]))
                if a is None:
                    self.fail("missing", "%r does not exist, expected in it %r" % (rel, b[-300:]))
                al, bl = a.split(b"\n"), b.split(b"\n")
                k = next((i for i in range(min(len(al), len(bl))) if al[i] != bl[i]), min(len(al), len(bl)))
                what = "content" if len(al) == len(bl) else "lost" if len(al) < len(bl) else "twice"
                self.fail(what, "%r has at line %d\n%r\nexpected\n%r" % (rel, k + 1, al[k:k + 3], bl[k:k + 3]))
        new = [p for p in self.files(outside=True) if p not in self.known and not p.startswith(self.base)
               and not p[len(w.conf) + 1:].split("/")[0] in ("config", "linestack_file", "linestack", "networks", "listener", "keys", "nickserv", "admin", "socket", "pid", "motd", "log")]
        if new:
            self.fail("outside", "files outside the log directory: %r" % [p[len(w.dir):] for p in new])

    # -- events -----------------------------------------------------------------------
    def run(self):
        r, w = self.r, self.w
        self.setup()
        self.boot()
        for i in range(self.case["steps"]):
            n = r.choice(self.nets)
            op = r.choices(["join", "part", "kick", "quit", "nick", "msg", "cmsg", "topic", "mode", "client", "hup", "time", "drop", "restart", "other", "disconnect"],
                           [12, 4, 3, 4, 5, 14, 14, 4, 4, 5, 1, 2, .6, .4, 3, .4])[0]
            getattr(self, "do_" + op)(n)
            if r.random() < .25:
                self.compare()
        self.compare()
        w.stop()
        for n in self.nets:
            self.left(n)
        self.compare_end()

    def compare_end(self):
        got = self.files()
        want = {**self.want, **self.gone}
        if got != want:
            p = [p for p in sorted(set(got) | set(want)) if got.get(p) != want.get(p)][0]
            self.fail("end", "%r at the end: %r, expected %r" % (p[len(self.w.dir):], got.get(p, b"")[-300:], want.get(p, b"")[-300:]))

    def left(self, n):
        """The proxy leaves a network, of which it says so in the logs."""
        self.entry("quit", n, (self.me(n), ["QUIT"]), self.order(self.places(n, n.nick)))

    def srv(self, n, origin, *args):
        """A line from the server."""
        if self.r.random() < .12:
            args = (self.r.choice([args[0].lower(), args[0].capitalize()]),) + args[1:]
        l = ":" + origin + " " + " ".join(args[:-1]) + (" :" if len(args) > 1 and (args[-1] == "" or args[-1][0] == ":" or " " in args[-1] or self.r.random() < .5) else " ") + args[-1]
        if self.last not in (None, n) and not self.last.conn.closed:
            self.w.sync_server(self.last.conn)      # logs of two networks may be one file
        self.last = n
        self.log.append("%s <- %r" % (n.name, l))
        n.conn.send(E(l))
        return (origin, list(args))

    def who(self, n, known=False):
        c = [x for ch in n.chans.values() for x in ch[1] if x != n.nick]
        if c and (known or self.r.random() < .7):
            return self.r.choice(sorted(c))
        return None if known else self.r.choice(NICKS)

    def mask(self, nick):
        return nick + "!" + ["usr@host.x", "Usr@Host.X", "../u@h/x", "~u@%n", "u@a/../../b"][len(nick) % 5]

    def me(self, n):
        return n.nick + "!user@real.host"

    def case_of(self, c):
        return self.r.choice([c, c, c.upper() if c.isascii() else c, c.swapcase() if c.isascii() else c])

    def do_join(self, n):
        r = self.r
        if len(n.chans) < 4 and (not n.chans or r.random() < .4):
            ch = r.choice([c for c in CHANS if low(c) not in n.chans])
            l = self.srv(n, self.me(n), "JOIN", ch)
            n.chans[low(ch)] = (ch, {n.nick})
            self.entry("join", n, l, [ch])
            if r.random() < .5:
                o = r.sample(NICKS, 3)
                n.conn.send(E(":irc.test 353 %s = %s :@%s" % (n.nick, ch, " ".join([n.nick] + o))), E(":irc.test 366 %s %s :End" % (n.nick, ch)))
                n.chans[low(ch)][1].update(o)
            return
        if not n.chans:
            return
        ch, on = n.chans[r.choice(sorted(n.chans))]
        x = r.choice([y for y in NICKS if y not in on] or [None])
        if x:
            c = self.case_of(ch)
            self.entry("join", n, self.srv(n, self.mask(x), "JOIN", c), [c])
            on.add(x)

    def forget(self, n, x):
        pass

    def do_part(self, n):
        r = self.r
        if not n.chans:
            return
        ch, on = n.chans[r.choice(sorted(n.chans))]
        x = r.choice(sorted(on))
        c = self.case_of(ch)
        l = self.srv(n, self.me(n) if x == n.nick else self.mask(x), *(["PART", c] + ([r.choice(TEXTS)] if r.random() < .7 else [])))
        self.entry("part", n, l, [c])
        on.discard(x)
        if x == n.nick:
            del n.chans[low(ch)]

    def do_kick(self, n):
        r = self.r
        if not n.chans:
            return
        ch, on = n.chans[r.choice(sorted(n.chans))]
        x = r.choice(sorted(on))
        l = self.srv(n, r.choice([self.mask(r.choice(NICKS)), "irc.test"]), *(["KICK", ch, x] + ([r.choice(TEXTS)] if r.random() < .8 else [])))
        self.entry("kick", n, l, [ch])
        on.discard(x)
        if x == n.nick:
            del n.chans[low(ch)]

    def places(self, n, x):
        """The logs of the conversations a user is part of."""
        return ([x] if x in n.query else []) + [ch for ch, on in n.chans.values() if x in on]

    def same(self, n, ps):
        """Whether the order of entries is settled: several logs may be one file."""
        return True

    def do_quit(self, n):
        x = self.who(n, True)
        if x is None:
            return
        l = self.srv(n, self.mask(x), "QUIT", self.r.choice(TEXTS))
        self.entry("quit", n, l, self.order(self.places(n, x)))
        for ch, on in n.chans.values():
            on.discard(x)
        n.query.discard(x)

    def order(self, ps):
        # in a common file the entries only differ by the conversation's name
        return ps

    def do_nick(self, n):
        r = self.r
        if r.random() < .3:
            new = r.choice([x for x in ("me", "m2", "[me]", "Moi", "m\\e") if x != n.nick])
            l = self.srv(n, self.me(n), "NICK", new)
            self.entry("nickchange", n, l, self.order(self.places(n, n.nick)))
            old, n.nick = n.nick, new
        else:
            old = self.who(n, True)
            if old is None:
                return
            new = r.choice([y for y in NICKS if not any(y in on for _, on in n.chans.values()) and y not in n.query] or [None])
            if new is None:
                return
            l = self.srv(n, self.mask(old), "NICK", new)
            self.entry("nickchange", n, l, self.order(self.places(n, old)))
        for ch, on in n.chans.values():
            if old in on:
                on.discard(old)
                on.add(new)
        if old in n.query:
            n.query.discard(old)
            n.query.add(new)

    def text(self):
        """(event, text as sent)"""
        r = self.r
        t = r.choice(TEXTS)
        if r.random() < .15:
            if r.random() < .3:
                t += r.choice(["a\x01b", "\x01", " \x01 x"])
                return "action", "\x01%s %s\x01" % (r.choice(["ACTION", "action", "Action"]), t), t
            if r.random() < .2:
                return "action", "\x01ACTION " + t, t
            return "action", "\x01ACTION %s\x01" % t, t
        if r.random() < .1:
            return None, r.choice(["\x01VERSION\x01", "\x01PING 12\x01", "\x01DCC SEND x\x01", "\x01ACTIONS x\x01", "\x01"]), None
        return "msg", t, t

    def do_msg(self, n):
        r = self.r
        x = self.who(n)
        notice = r.random() < .3
        ev, t, shown = self.text()
        if notice:
            if t.startswith("\x01"):
                return
            ev = "notice"
        origin = self.mask(x)
        if r.random() < .5 and n.chans:
            ch = n.chans[r.choice(sorted(n.chans))][0]
            tgt = self.case_of(ch)
            if r.random() < .1:
                tgt = "@" + tgt
            ident = tgt
        elif r.random() < .1:
            tgt = ident = r.choice(["$$*.test", "$*"])
        else:
            tgt, ident = self.case_of(n.nick), x
            if r.random() < .3:
                tgt = tgt.translate(str.maketrans("[]\\", "{}|"))
            if not notice:
                n.query.add(x)
            elif r.random() < .3:
                origin = ident = "irc.test"
        l = self.srv(n, origin, "NOTICE" if notice else "PRIVMSG", tgt, t)
        if ev:
            self.entry(ev, n, (l[0], l[1][:2] + [shown]), [ident])

    def do_cmsg(self, n):
        """The user says something."""
        r, w = self.r, self.w
        if n.client is None:
            return
        cmd = r.choice(["PRIVMSG", "PRIVMSG", "NOTICE", "privmsg", "Notice"])
        ev, t, shown = self.text()
        if cmd.upper() == "NOTICE":
            if t.startswith("\x01"):
                return
            ev = "notice"
        tg = []
        for _ in range(r.choice([1, 1, 1, 2, 3, 12])):
            if n.chans and r.random() < .6:
                tg.append(self.case_of(n.chans[r.choice(sorted(n.chans))][0]))
            else:
                tg.append(r.choice([x for x in NICKS]))
        l = "%s %s :%s" % (cmd, ",".join(tg), t)
        self.log.append("%s user: %r" % (n.name, l))
        for x in self.nets:
            w.sync_server(x.conn)
        n.client.send(E(l))
        w.sync_client(n.client)
        if ev:
            self.entry(ev, n, (self.own(n), [cmd, ",".join(tg), shown]), tg)

    def own(self, n):
        return "%s!cuser@%s" % (n.nick, n.host)

    def do_topic(self, n):
        r = self.r
        if not n.chans:
            return
        ch, on = n.chans[r.choice(sorted(n.chans))]
        c = self.case_of(ch)
        if r.random() < .2:
            l = self.srv(n, self.mask(r.choice(sorted(on))), "TOPIC", c)
            self.entry("notopic", n, l, [c])
        else:
            l = self.srv(n, self.mask(r.choice(sorted(on))), "TOPIC", c, r.choice(TEXTS))
            self.entry("topic", n, l, [c])

    def do_mode(self, n):
        r = self.r
        if n.chans and r.random() < .8:
            ch, on = n.chans[r.choice(sorted(n.chans))]
            l = self.srv(n, r.choice([self.mask("bob"), "irc.test"]), *(["MODE", ch] + r.choice([["+m"], ["-m+l", "20"], ["+o", r.choice(sorted(on))], ["+ov", r.choice(sorted(on)), r.choice(sorted(on))], ["+b", "*!*@x"]])))
            self.entry("mode", n, l, [ch])
        else:
            self.srv(n, n.nick, "MODE", n.nick, "+i")

    def do_other(self, n):
        """Lines nothing is logged for."""
        r = self.r
        if r.random() < .5 and n.client:
            l = r.choice(["JOIN #zz", "PART #zz :x", "TOPIC #zz :x", "MODE #zz +m", "KICK #zz bob", "WHO #zz", "AWAY :x", "INVITE bob #zz", "NICK zz",
                          "PRIVMSG #zz", "NOTICE bob", "privmsg", "NOTICE", "TOPIC", "KICK #zz", "kick #zz bob", "topic #zz :x", "mode #zz +m"])
            self.log.append("%s user: %r" % (n.name, l))
            n.client.send(E(l))
            self.w.sync_client(n.client)
        else:
            self.srv(n, *r.choice([("irc.test", "372", n.nick, "- motd"), ("bob!u@h", "INVITE", n.nick, "#zz"), ("irc.test", "WALLOPS", "x y"), ("irc.test", "401", n.nick, "bob", "No such nick"), ("bob!u@h", "XYZZY", "#one", "x"),
                                   ("irc.test", "332", n.nick, "#zz", "topic"), ("bob!u@h", "PRIVMSG", n.nick), ("bob!u@h", "NOTICE", n.nick), ("bob!u@h", "PRIVMSG", "#one"),
                                   ("bob!u@h", "NOTICE", "#one"), ("irc.test", "NOTICE"), ("bob!u@h", "PRIVMSG")]))

    def do_client(self, n):
        w = self.w
        if n.client:
            n.client.close()
            w.nudge()
            w.nudge()
            n.client = None
        else:
            n.client = w.attach(n.nick, n.name)
            m = re.findall(r"New client \(.*/(\S*):\d+\)", w.stderr())
            n.host = m[-1] if m else "localhost"

    def do_hup(self, n):
        """Logs are moved away and opened again."""
        w, r = self.w, self.r
        for x in self.nets:
            w.sync_server(x.conn)
        for p in sorted(self.want):
            if r.random() < .5 and os.path.exists(p):
                q = p + ".old%d" % len(self.log)
                if len(os.path.basename(q)) > 200:
                    continue
                os.rename(p, q)
                self.gone[q] = self.want.pop(p)
        # Two signals may be delivered to different threads and so overtake each other; but once
        # the main thread has acted upon one, it has got the first, and then acts upon it in order.
        conf = os.path.join(w.conf, "config")
        w.proc.send_signal(signal.SIGHUP)
        for _ in range(2):
            before = os.stat(conf).st_ino
            w.proc.send_signal(signal.SIGUSR1)
            w.pump(lambda: os.stat(conf).st_ino != before, what="the saving of the configuration", step=.001)
        w.nudge()
        self.log.append("hup")

    def do_time(self, n):
        w = self.w
        d = self.r.choice([1, 59, 3600, 7300, 90000])
        for x in self.nets:
            w.sync_server(x.conn)
        self.off += d
        w.vctl.set("frozen_rt_ns", (NOW + self.off - self.drift) * 10 ** 9)
        self.log.append("time +%d" % d)

    def do_drop(self, n):
        w = self.w
        for x in self.nets:
            w.sync_server(x.conn)
            if x.client:
                w.sync_client(x.client)
        n.conn.close()
        w.nudge()
        w.nudge()
        self.left(n)
        self.off += 6
        w.advance(6)
        self.drift += 6
        self.log.append("%s: connection lost" % n.name)
        self.login(n)

    def do_disconnect(self, n):
        pass

    def do_restart(self, n):
        w = self.w
        for x in self.nets:
            w.sync_server(x.conn)
        w.stop()
        self.log.append("restart")
        for x in self.nets:
            self.left(x)
        for x in self.nets:
            if x.client:
                x.client.close()
            for c in x.srv.accepted:
                c.close()
        self.boot()

    # -- many conversations ----------------------------------------------------------------
    def many(self):
        w, r = self.w, self.r
        self.setup()
        while self.kind in ("none",) or "%@" not in self.file:
            for s in list(w.listeners.values()):
                s.close()
            self.setup()
        self.boot()
        n = self.nets[0]
        k = self.case["many"]
        before = w.nfds()
        for i in range(k):
            for _ in range(2 if i % 50 == 0 else 1):
                l = self.srv(n, "u%d!usr@host.x" % i, "PRIVMSG", "me", "hi %d" % i)
                self.entry("msg", n, l, ["u%d" % i])
        w.sync_server(n.conn)
        for i in r.sample(range(k), 100):
            l = self.srv(n, "u%d!usr@host.x" % i, "NOTICE", "me", "again")
            self.entry("notice", n, l, ["u%d" % i])
        self.compare()
        if w.nfds() > before + 400:
            self.fail("descriptors", "after %d conversations the proxy has %d descriptors open" % (k, w.nfds()))
        # still able to accept a client
        c = w.attach("me", n.name)
        w.sync_client(c)
        w.stop()
