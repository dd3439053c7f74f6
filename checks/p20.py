"""P20: characters survive the way through the proxy, whatever character sets are in use."""
import re
import build, core, e2e
from core import Violation

ID = "P20"
TECHNIQUE = "runtime monitoring: every line sent through the sanitized proxy carries a number; what each recipient gets is decoded with an independent codec and compared, in order, with what that recipient's character set can represent"
LEVEL = "exploration"
LEVEL_NOTE = "Randomized histories over 15 character sets (single-byte, multi-byte, stateful) on either side, both directions, fragmented and batched lines with unconvertible text between them, attaching, replay, changes of character set and reconnects."
RULE = "one evaluation per (line, recipient) compared; distinct = (direction, sending charset, receiving charset, kind of line, convertible or not)"
ASSUMPTIONS = ["a line that cannot be converted for a recipient may be dropped or arrive with substitutes; it is not judged itself",
               "without a character set on one side only, that side speaks UTF-8",
               "servers do not announce a character set"]
CASE_LIMIT = 120
_bin = [None]

CS = {"ISO-8859-1": "latin1", "ISO-8859-15": "iso8859_15", "ISO-8859-2": "iso8859_2", "WINDOWS-1252": "cp1252", "WINDOWS-1251": "cp1251", "KOI8-R": "koi8_r",
      "ISO-8859-7": "iso8859_7", "UTF-8": "utf-8", "EUC-JP": "euc_jp", "CP932": "cp932", "GB18030": "gb18030", "EUC-KR": "euc_kr", "ISO-2022-JP": "iso2022_jp", "CP437": "cp437", "ASCII": "ascii"}
FAVOUR = ["UTF-8", "ISO-8859-1", "ISO-8859-15", "WINDOWS-1252", "EUC-JP", "ISO-2022-JP", "KOI8-R", "WINDOWS-1251"]
POOLS = ["éàüñßöç", "ÅÆøâêî", "§±", "€", "Приветмир", "αβγδ", "日本語", "かなテスト", "한국어", "中文", "😀🎉", "łžšą", "“–”…"]
TOK = re.compile(rb"k(\d+)k")


def prepare():
    _bin[0] = build.build_proxy("asan")


def cases(tier, seed):
    n, steps = (600, 20) if tier == "quick" else (2600, 60)
    return [{"seed": seed * 1181 + i, "steps": steps} for i in range(n)]


def run_case(case, cov):
    w = e2e.World(_bin[0], "p20", unpriv=True)
    try:
        Run(w, core.case_rng(case), case, cov).run()
    finally:
        w.close()


def decode(raw, cs):
    """What a peer using that character set says, as the bytes used inside; None: nothing valid."""
    if cs is None:
        return raw
    try:
        return raw.decode(CS[cs]).encode("utf-8")
    except UnicodeError:
        return None


def encode(inner, cs):
    if cs is None:
        return inner
    try:
        return inner.decode("utf-8").encode(CS[cs])
    except UnicodeError:
        return None


class Cl:
    def __init__(self, conn, cs):
        self.conn, self.cs, self.want, self.maybe, self.pos = conn, cs, [], set(), len(conn.lines)
        self.new = True


class Run:
    def __init__(self, w, r, case, cov):
        self.w, self.r, self.case, self.cov = w, r, case, cov
        self.log, self.n, self.cls = [], 0, []
        self.inner = {}                 # number -> (origin, args) in the inner form, for replay
        self.store = []                 # numbers recorded for replay

    def fail(self, key, detail):
        raise Violation("charset:" + key, "%s\nnetwork %s, default %s, clients %s\n--- history\n%s" % (
            detail, self.N, self.G, [c.cs for c in self.cls], "\n".join(self.log[-30:])))

    def pick(self):
        r = self.r
        return r.choice([None, None, r.choice(FAVOUR), r.choice(FAVOUR), r.choice(sorted(CS))])

    # -- texts -----------------------------------------------------------------
    def text(self, cs, other):
        """Bytes a peer using cs says; mostly what the other side can represent, too."""
        r = self.r
        k = r.random()
        if k < .2:
            if cs is None:
                return bytes(r.choice(range(0x80, 0xf4)) for _ in range(r.randint(1, 6))) + r.choice([b"", b" x", b" \xc3"])
            bad = {"UTF-8": [b"\xff", b"\xc3(", b"caf\xc3", b"\xed\xa0\x80"], "EUC-JP": [b"\xff", b"x\xa4", b"\xa4 "], "ISO-2022-JP": [b"\x1b$BF|\x80\x80", b"\x1b$BF|K", b"\x1b$BF|K\\"],
                   "GB18030": [b"\xff", b"a\x81"], "EUC-KR": [b"\xff", b"\xb0"], "CP932": [b"\x81", b"x\x81"], "WINDOWS-1252": [b"a\x81b"],
                   "ASCII": [b"caf\xe9", b"\x80"]}.get(cs)
            if bad:
                return r.choice(bad)
        ps = POOLS if cs is None else [p for p in POOLS if encode(p.encode(), cs) is not None]
        if other is not None and r.random() < .7:
            ps = [p for p in ps if encode(p.encode(), other) is not None]
        out = []
        for _ in range(r.randint(1, 4)):
            p = r.choice(ps) if ps else "plain"
            out.append("".join(r.choice(p) for _ in range(r.randint(1, 12))) if r.random() < .8 else r.choice(["word", "a b", ":x", "e", "+-"]))
        if r.random() < .04:
            out *= r.randint(10, 25)
        t = r.choice(["", " "]).join(out)
        b = encode(t.encode(), cs)
        while len(b) > 380:             # a line has to stay a line in either form
            t = t[:-1]
            b = encode(t.encode(), cs)
        return b

    def token(self):
        self.n += 1
        return self.n

    def deliver(self, c, n, inner, direction, src, kind):
        """Client c (or the server: None) is to get this line."""
        out = None if inner is None else encode(b" ".join(inner[1]), c.cs if c else self.N)
        if out is None:
            (c.maybe if c else self.smaybe).add(n)
        else:
            (c.want if c else self.swant).append((n, inner))
        sig = (direction, src, c.cs if c else self.N, kind, out is not None)
        if direction != "replay" and inner is not None and out is None:
            self.cov.ev("unrepresentable")
        if inner is None:
            self.cov.ev("undecodable")
        self.cov.judge(sig)

    def check(self, who, lines, cs, want, maybe):
        """Order, completeness and content of the numbered lines."""
        i = 0
        for l in lines:
            m = TOK.search(l.raw)
            if not m:
                continue
            n = int(m.group(1))
            if i < len(want) and want[i][0] == n:
                inner = want[i][1]
                i += 1
                raw = decode(l.raw, cs)
                got = e2e.parse_line(raw) if raw is not None else None
                ok = got is not None and got[1] == inner[1] and (inner[0] is None or got[0] == inner[0])
                if not ok:
                    self.fail("text", "%s got %r\nwanted %r" % (who, l.raw, inner))
                if cs not in (None, "ISO-2022-JP") and l.raw != encode(raw, cs):
                    self.fail("bytes", "%s got %r" % (who, l.raw))
                self.cov.ev("lines_compared")
            elif n in maybe or l.args and l.args[0] == b"980":
                continue
            else:
                self.fail("order", "%s got %r\nwanted next %r" % (who, l.raw, want[i:i + 1]))
        if i < len(want):
            self.fail("missing", "%s never got %r\nbut %r" % (who, want[i], [l.raw for l in lines][-12:]))

    def settle(self):
        w = self.w
        if self.s is not None:
            w.sync_server(self.s)
        for c in self.cls:
            w.sync_client(c.conn)
        if self.s is not None:
            w.sync_server(self.s)
        for c in self.cls:              # what others said took until now
            w.sync_client(c.conn)
        for k, c in enumerate(self.cls):
            ls = c.conn.lines[c.pos:]
            c.pos = len(c.conn.lines)
            self.check("client %d (%s)" % (k, c.cs), ls, c.cs, c.want, c.maybe)
            c.want, c.maybe = [], set()
        if self.s is not None:
            ls = self.s.lines[self.spos:]
            self.spos = len(self.s.lines)
            self.check("the server", ls, self.N, self.swant, self.smaybe)
            self.swant, self.smaybe = [], set()

    # -- set-up ----------------------------------------------------------------
    def login(self):
        w = self.w
        n = len(self.srv.accepted)
        w.pump(lambda: self.srv.conn is not None and not self.srv.conn.closed and any(l.args and l.args[0] == b"USER" for l in self.srv.conn.lines), what="login")
        self.s = s = self.srv.conn
        w.login_server(s, "me", userhost="h", extra005=("CHANTYPES=#& PREFIX=(ov)@+ CHANMODES=b,k,l,imnpst CASEMAPPING=rfc1459",))
        s.send(":me!user@h JOIN #c", ":irc.test 353 me = #c :me @bob", ":irc.test 366 me #c :End")
        w.sync_server(s)
        self.spos = len(s.lines)
        self.topic = None

    def attach(self, first=None):
        c = self.w.attach("me", "net0", name="c%d" % len(self.cls))
        if c.closed:
            self.fail("refused", "a client could not attach")
        cl = Cl(c, self.G)
        ls = c.lines
        self.log.append("client attached")
        # what it is told
        joined = [l for l in ls if l.args and l.args[0] == b"JOIN"]
        if len(joined) != 1 or not any(l.args and l.args[0] == b"366" for l in ls):
            self.fail("state", "a client attaching is told %r" % [l.raw for l in ls])
        if self.topic is not None:
            t = [l for l in ls if l.args and l.args[0] == b"332"]
            if encode(self.topic, self.G) is not None:
                if len(t) != 1 or decode(t[0].raw, self.G) is None or e2e.parse_line(decode(t[0].raw, self.G))[1][-1] != self.topic:
                    self.fail("topic", "a client attaching is told %r, the topic is %r" % ([l.raw for l in t], self.topic))
                self.cov.judge(("topic", self.N, self.G, "", True))
        cl.pos = len(c.lines)
        self.cls.append(cl)
        return cl

    def set_charset(self, c, cs):
        self.log.append("client %d: charset %s" % (self.cls.index(c), cs))
        n = len(c.conn.lines)
        c.conn.send("CTRLPROXY CHARSET " + cs)
        self.w.sync_client(c.conn)
        err = [l.raw for l in c.conn.lines[n:] if b"Error setting" in l.raw]
        if cs in CS:
            if err:
                self.fail("set", "%r setting %s" % (err, cs))
            c.cs = cs
        elif not err:
            self.fail("set:unknown", "no error setting %s" % cs)
        c.pos = len(c.conn.lines)

    def run(self):
        w, r = self.w, self.r
        self.G = self.pick() if r.random() < .7 else None
        self.N = self.G
        self.srv = w.server("s")
        self.swant, self.smaybe = [], set()
        g = {"default-network": "net0", "autoconnect": "net0", "report-time": "never", "default-client-charset": self.G}
        if self.G is None:
            del g["default-client-charset"]
        w.write_config(g, [("net0", {"nick": "me", "username": "user", "fullname": "F", "servers": "%s:%d" % (w.ip, self.srv.port), "queue-speed": "0", "reconnect-interval": "5"})])
        w.start()
        self.login()
        if r.random() < .4:
            for k, v in {"wr_cap": r.choice([0, 3, 40, 511]), "rd_cap": r.choice([0, 1, 3, 20, 511]), "wr_eagain": r.choice([0, 2, 3, 7]), "rd_eagain": r.choice([0, 2, 5])}.items():
                w.vctl.set(k, v)
        for i in range(r.randint(1, 3)):
            c = self.attach()
            if r.random() < .6:
                self.set_charset(c, r.choice([r.choice(FAVOUR), r.choice(sorted(CS))]))
        acts = [(self.from_server, 8), (self.from_client, 8), (self.newclient, 1), (self.recharset, 2.5), (self.leave, .5), (self.reconnect, .5), (self.setdefault, .5), (self.backlog, 1.5), (self.whois, 1)]
        for _ in range(self.case["steps"]):
            r.choices([a for a, _ in acts], [x for _, x in acts])[0]()
            self.settle()
        e2e_closed = [c for c in self.cls if c.conn.closed]
        if e2e_closed or self.s.closed:
            self.fail("closed", "a connection was lost")
        self.cov.sample("network %s, default %s, clients %s; %s" % (self.N, self.G, [c.cs for c in self.cls], self.log[-3:]))

    # -- events ----------------------------------------------------------------
    def write(self, conn, lines):
        """As one piece or torn anywhere."""
        r = self.r
        data = b"".join(l + b"\r\n" for l in lines)
        if r.random() < .6:
            conn.send_raw(data)
            return
        at = sorted(r.randrange(len(data)) for _ in range(r.randint(1, 3)))
        for a, b in zip([0] + at, at + [len(data)]):
            conn.send_raw(data[a:b])
            self.w.drain(.001)

    def from_server(self):
        r = self.r
        lines = []
        for _ in range(r.choice([1, 2, 3, 5, 8])):
            n = self.token()
            other = r.choice(self.cls).cs if self.cls else None
            t = b"k%dk " % n + self.text(self.N, other)
            kind = r.choice(["PRIVMSG", "PRIVMSG", "NOTICE", "TOPIC", "PART", "private", "QUIT", "KICK", "WALLOPS"])
            o = b"bob!b@h"
            if kind in ("PRIVMSG", "NOTICE", "TOPIC"):
                args = [kind.encode(), b"#c", t]
            elif kind == "private":
                args = [b"PRIVMSG", b"me", t]
            elif kind == "WALLOPS":
                args = [b"WALLOPS", t]
            else:
                o = b"x%d!u@h" % n
                lines.append(b":%s JOIN #c" % o)
                args = {"PART": [b"PART", b"#c", t], "QUIT": [b"QUIT", t], "KICK": [b"KICK", b"#c", b"x%d" % n, t]}[kind]
                if kind == "KICK":
                    o = b"bob!b@h"
            raw = b":" + o + b" " + b" ".join(args[:-1]) + b" :" + args[-1]
            lines.append(raw)
            inner = decode(raw, self.N)
            inner = inner and e2e.parse_line(inner)
            if kind == "TOPIC" and inner:
                self.topic = inner[1][-1]
            for c in self.cls:
                self.deliver(c, n, inner, "to client", self.N, kind)
            if inner:
                self.inner[n] = inner
                if kind in ("PRIVMSG", "NOTICE", "private"):
                    self.store.append(n)
        self.log.append("server: %r" % lines)
        self.write(self.s, lines)

    def from_client(self):
        if not self.cls:
            return
        r = self.r
        c = r.choice(self.cls)
        lines = []
        for _ in range(r.choice([1, 2, 3, 5])):
            n = self.token()
            t = b"k%dk " % n + self.text(c.cs, self.N)
            args = r.choice([[b"PRIVMSG", b"#c", t], [b"PRIVMSG", b"bob", t], [b"NOTICE", b"#c", t], [b"AWAY", t], [b"TOPIC", b"#c", t], [b"WALLOPS", t]])
            raw = b" ".join(args[:-1]) + b" :" + args[-1]
            lines.append(raw)
            inner = decode(raw, c.cs)
            inner = inner and e2e.parse_line(inner)
            self.deliver(None, n, inner, "to server", c.cs, args[0].decode())
            for o in self.cls:
                if o is not c and args[0] in (b"PRIVMSG", b"NOTICE") and inner:
                    if encode(b" ".join(inner[1]), self.N) is None:
                        o.maybe.add(n)              # never said on the network
                    else:
                        self.deliver(o, n, inner, "echo", c.cs, args[0].decode())
            c.maybe.add(n)                          # what comes back are complaints
        self.log.append("client %d: %r" % (self.cls.index(c), lines))
        self.write(c.conn, lines)

    def whois(self):
        if not self.cls:
            return
        r = self.r
        c = r.choice(self.cls)
        c.conn.send("WHOIS bob")
        self.w.sync_client(c.conn)
        self.w.sync_server(self.s)
        lines = []
        for fmt in (b"311 me bob b h *", b"312 me bob irc.test", b"313 me bob"):
            n = self.token()
            raw = b":irc.test " + fmt + b" :k%dk " % n + self.text(self.N, c.cs)
            lines.append(raw)
            inner = decode(raw, self.N)
            self.deliver(c, n, inner and e2e.parse_line(inner), "reply", self.N, "numeric")
        lines.append(b":irc.test 318 me bob :End of /WHOIS list.")
        self.log.append("whois of client %d: %r" % (self.cls.index(c), lines))
        self.write(self.s, lines)

    def newclient(self):
        if len(self.cls) < 4:
            self.attach()

    def recharset(self):
        if self.cls:
            r = self.r
            c = r.choice(self.cls)
            kin = [x for x in CS if c.cs and x[:6] == c.cs[:6]] or [r.choice(FAVOUR)]
            self.set_charset(c, r.choice([r.choice(FAVOUR), r.choice(sorted(CS)), "NONSENSE-99", r.choice(kin), r.choice(kin)]))

    def leave(self):
        if len(self.cls) > 1:
            c = self.cls.pop(self.r.randrange(len(self.cls)))
            self.w.leave(c.conn, "QUIT :bye")

    def setdefault(self):
        cs = self.r.choice([self.r.choice(FAVOUR), "NONSENSE-99"])
        out = self.w.admin("SET default-client-charset " + cs)
        self.log.append("default %s: %r" % (cs, out))
        if cs in CS:
            self.G = cs
        elif not any(b"Unknown character set" in l for l in out):
            self.fail("set:unknown", "no error setting the default %s: %r" % (cs, out))

    def backlog(self):
        """Everything said since the last time again."""
        if not self.cls:
            return
        c = self.r.choice(self.cls)
        for n in self.store:
            if encode(b" ".join(self.inner[n][1]), c.cs) is not None:
                c.want.append((n, self.inner[n]))
                self.cov.judge(("replay", self.N, c.cs, "", True))
        c.maybe |= set(range(self.n + 1)) - set(n for n, _ in c.want)
        self.log.append("backlog for client %d" % self.cls.index(c))
        c.conn.send("CTRLPROXY BACKLOG")
        self.store = []

    def reconnect(self):
        self.settle()
        self.log.append("reconnect")
        n = len(self.srv.accepted)
        self.s.close()
        self.s = None
        for _ in range(3):
            self.w.nudge()
        self.w.advance(6)
        self.w.pump(lambda: len(self.srv.accepted) > n, what="reconnect")
        self.login()
        self.store = []
        for c in self.cls:
            self.w.sync_client(c.conn)
            c.pos = len(c.conn.lines)
