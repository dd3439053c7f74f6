"""P09: every reply of the server reaches the client that asked, and only it."""
import collections
import build, core, e2e, gen
from core import Violation

ID = "P09"
TECHNIQUE = "runtime monitoring: a server answering queries of several clients in order, each answer tagged; per-client transcripts compared with who asked"
LEVEL = "exploration"
LEVEL_NOTE = ("Randomized interleavings of about sixty query and refusal forms by up to four clients, answered late and in arbitrary pieces, with clients leaving and "
              "joining in between, against a server that keeps its answers consistent; bounded by the generated histories.")
RULE = "one evaluation per numeric judged; distinct = (numeric, query form or unasked, clients attached, other queries outstanding) combinations"
ASSUMPTIONS = ["the server answers commands in order, and identical commands sent at about the same time alike",
               "refusals of commands that are not replied to otherwise follow within seconds (nothing else tells that such a command was handled)",
               "no NAMES without a channel while a JOIN is outstanding (both are answered with the same numerics)"]
CASE_LIMIT = 240
SRV = "irc.test"
_bin = [None]


def prepare():
    _bin[0] = build.build_proxy("asan")


def cases(tier, seed):
    n, steps = (400, 80) if tier == "quick" else (2500, 300)
    return [{"seed": seed * 877 + i, "clients": 1 + i % 4, "steps": steps} for i in range(n)]


# What the server knows: it does not change, so that the same question gets the same refusal
HERE, AWAY, GHOST = ["bob", "carol", "Bob"], ["dave"], ["ghost", "nos{ch"]
MEMBER, OPCHAN, OTHER, SECRET, BAD = "#main", "#opchan", ["#other", "#out"], "#sec", "#bad"
REFUSE = {"#inv": ("473", "Cannot join channel (+i)"), "#key": ("475", "Cannot join channel (+k)"), "#full": ("471", "Cannot join channel (+l)"),
          "#ban": ("474", "Cannot join channel (+b)"), "#bad": ("403", "No such channel"), "#many": ("405", "You have joined too many channels")}
NONICK = "No such nick/channel"


class Query:
    def __init__(self, form, cmd, replies):
        self.form, self.cmd, self.replies = form, cmd, replies
        self.owner = None


class Gen:
    """Makes queries and the server's answer to each."""

    def __init__(self, r):
        self.r, self.n = r, 0
        self.nick = "me"

    def tag(self):
        self.n += 1
        return "T%d" % self.n

    def num(self, n, *args):
        return [n, self.nick] + list(args)

    def whois_lines(self, nick, t):
        r = self.r
        out = [self.num("311", nick, "u" + t, "host", "*", "Real %s" % t)]
        opt = [self.num("319", nick, "#a @#b %s" % t), self.num("312", nick, SRV, "info " + t), self.num("313", nick, "is an IRC operator " + t),
               self.num("317", nick, "42", "1000000000", "seconds idle " + t), self.num("330", nick, "acc" + t, "is logged in as"),
               self.num("338", nick, "10.0.0.1", "actually using " + t), self.num("307", nick, "is a registered nick " + t),
               self.num("320", nick, "is identified " + t), self.num("378", nick, "is connecting from *@x " + t), self.num("379", nick, "is using modes +i" + t),
               self.num("671", nick, "is using a secure connection " + t), self.num("276", nick, "has client certificate fingerprint " + t), self.num("275", nick, "is using a secure connection " + t)]
        out += r.sample(opt, r.randint(0, len(opt)))
        if nick in AWAY:
            out.insert(r.randint(1, len(out)), self.num("301", nick, "gone"))
        return out

    def make(self, joins_pending, names_all_pending):
        r = self.r
        t = self.tag()
        k = r.choice(["whois"] * 5 + ["whois2", "whoisg", "whoisg", "whoiss", "whowas", "whowasg", "who", "who", "whox", "names", "names", "namesall", "list", "list",
                      "topic", "topicsec", "topicnone", "mode", "modelist", "modelist", "modeexc", "motd", "nomotd", "version", "time", "admin", "info", "lusers",
                      "stats", "statsl", "links", "trace", "userhost", "ison", "ison", "nosrv", "tryagain", "needmore", "unknown", "unknown", "join", "join", "joinok",
                      "part", "nick", "nick", "nickbad", "oper", "invite", "inviteg", "kick", "kickop", "topicset", "modeset", "modeop", "modeok", "umode", "umodeq",
                      "privmsg", "privmsg", "privmsgg", "privmsgg", "privmsgaway", "privmsgaway", "cannotsend", "notice", "away", "kill", "rehash", "squit", "servlist", "users"])
        n = self.num
        f = {
            "whois": lambda: (("WHOIS %s", HERE + AWAY), lambda x: self.whois_lines(x, t) + [n("318", x, "End of WHOIS " + t)]),
            "whoiss": lambda: (("WHOIS %s {}", HERE + AWAY), lambda x: self.whois_lines(x, t) + [n("318", x, "End of WHOIS " + t)]),
            "whoisg": lambda: (("WHOIS %s", GHOST), lambda x: [n("401", x, NONICK), n("318", x, "End of WHOIS " + t)]),
            "whowas": lambda: (("WHOWAS %s", HERE + GHOST), lambda x: [n("314", x, "u", "h", "*", t), n("312", x, SRV, "date " + t), n("369", x, "End " + t)]),
            "whowasg": lambda: (("WHOWAS %s", ["never"]), lambda x: [n("406", x, "There was no such nickname " + t), n("369", x, "End " + t)]),
            "who": lambda: (("WHO %s", OTHER + ["*.net"]), lambda x: [n("352", x, "u", "h", SRV, "nick%d" % i, "H", "0 " + t) for i in range(r.randint(0, 6))] + [n("315", x, "End " + t)]),
            "whox": lambda: (("WHO %s %%tna,42", OTHER), lambda x: [n("354", "42", "nick%d" % i, t) for i in range(r.randint(0, 4))] + [n("315", x, "End " + t)]),
            "names": lambda: (("NAMES %s", OTHER), lambda x: [n("353", "=", x, "a%d @b%s" % (i, t)) for i in range(r.randint(0, 3))] + [n("366", x, "End " + t)]),
            "list": lambda: (("LIST", [""]), lambda x: ([n("321", "Channel", "Users " + t)] if r.random() < .5 else []) + [n("322", "#c%d" % i, "3", t) for i in range(r.randint(0, 8))] + [n("323", "End " + t)]),
            "topic": lambda: (("TOPIC %s", OTHER), lambda x: [n("332", x, "topic " + t)] + ([n("333", x, "setter!u@h", t[1:])] if r.random() < .6 else [])),
            "topicnone": lambda: (("TOPIC %s", ["#empty"]), lambda x: [n("331", x, "No topic is set " + t)]),
            "topicsec": lambda: (("TOPIC %s", [SECRET]), lambda x: [n("442", x, "You're not on that channel")]),
            "mode": lambda: (("MODE %s", OTHER), lambda x: [n("324", x, "+ntk", t)] + ([n("329", x, t[1:])] if r.random() < .6 else [])),
            "modelist": lambda: (("MODE %s " + r.choice(["b", "+b"]), OTHER), lambda x: [n("367", x, "*!*@" + t + str(i), "op", "123") for i in range(r.randint(0, 4))] + [n("368", x, "End " + t)]),
            "modeexc": lambda: (("MODE %s +e", OTHER), lambda x: [n("348", x, "*!*@" + t + str(i)) for i in range(r.randint(0, 4))] + [n("349", x, "End " + t)]),
            "motd": lambda: (("MOTD", [""]), lambda x: [n("375", "- MOTD " + t)] + [n("372", "- %s %d" % (t, i)) for i in range(r.randint(0, 5))] + [n("376", "End " + t)]),
            "nomotd": lambda: (("MOTD %s", ["far.server"]), lambda x: [n("422", "MOTD File is missing " + t)]),
            "version": lambda: (("VERSION", [""]), lambda x: [n("351", "v1", SRV, t)]),
            "time": lambda: (("TIME %s", [SRV, ""]), lambda x: [n("391", SRV, t)]),
            "admin": lambda: (("ADMIN", [""]), lambda x: [n("256", SRV, "Administrative info " + t), n("257", t), n("258", t), n("259", t)]),
            "info": lambda: (("INFO", [""]), lambda x: [n("371", "%s %d" % (t, i)) for i in range(r.randint(1, 5))] + [n("374", "End " + t)]),
            "lusers": lambda: (("LUSERS", [""]), lambda x: [n("251", "There are " + t), n("252", "3", "ops " + t), n("254", "9", "chans " + t), n("255", "I have " + t)]),
            "stats": lambda: (("STATS %s", ["u"]), lambda x: [n("242", "Server Up " + t), n("219", x, "End " + t)]),
            "statsl": lambda: (("STATS %s", ["l"]), lambda x: [n("211", "link%d" % i, "0", "1", "2", "3", "4", t) for i in range(r.randint(0, 4))] + [n("219", x, "End " + t)]),
            "links": lambda: (("LINKS", [""]), lambda x: [n("364", "s%d" % i, SRV, "1 " + t) for i in range(r.randint(1, 4))] + [n("365", "*", "End " + t)]),
            "trace": lambda: (("TRACE", [""]), lambda x: [n("205", "User", "users", "x%d" % i, t) for i in range(r.randint(0, 3))] + [n("262", SRV, "v", "End " + t)]),
            "userhost": lambda: (("USERHOST %s", HERE), lambda x: [n("302", "%s=+u@%s" % (x, t))]),
            "ison": lambda: (("ISON %s", HERE + GHOST), lambda x: [n("303", r.choice([x, ""]) + " " + t)]),
            "nosrv": lambda: ((r.choice(["VERSION", "TIME", "ADMIN", "TRACE", "INFO"]) + " %s", ["nosuch.server"]), lambda x: [n("402", x, "No such server")]),
            "invite": lambda: (("INVITE %s " + OPCHAN, HERE), lambda x: [n("341", x, OPCHAN)]),
            "inviteg": lambda: (("INVITE %s " + OPCHAN, GHOST), lambda x: [n("401", x, NONICK)]),
            "join": lambda: (("JOIN %s", list(REFUSE)), lambda x: [n(REFUSE[x][0], x, REFUSE[x][1])]),
            "part": lambda: (("PART %s", [SECRET, BAD]), lambda x: [n("442", x, "You're not on that channel") if x == SECRET else n("403", x, "No such channel")]),
            "nick": lambda: (("NICK %s", ["taken", "taken2"]), lambda x: [n("433", x, "Nickname is already in use")]),
            "nickbad": lambda: (("NICK %s", ["1bad"]), lambda x: [n("432", x, "Erroneous nickname")]),
            "oper": lambda: (("OPER root %s", ["pw"]), lambda x: [n("491", "No O-lines for your host")]),
            "kick": lambda: (("KICK %s bob", [MEMBER, SECRET]), lambda x: [n("482", x, "You're not channel operator") if x == MEMBER else n("442", x, "You're not on that channel")]),
            "kickop": lambda: (("KICK " + OPCHAN + " %s", ["carol"]), lambda x: [n("441", x, OPCHAN, "They aren't on that channel")]),
            "topicset": lambda: (("TOPIC %s :new topic", [MEMBER]), lambda x: [n("482", x, "You're not channel operator")]),
            "modeset": lambda: (("MODE %s +m", [MEMBER]), lambda x: [n("482", x, "You're not channel operator")]),
            "modeop": lambda: (("MODE " + OPCHAN + " +o %s", ["carol"]), lambda x: [n("441", x, OPCHAN, "They aren't on that channel")]),
            "modeok": lambda: (("MODE " + OPCHAN + " +v %s", ["bob", "dave"]), lambda x: [["MODE", OPCHAN, "+v", x]]),
            "umode": lambda: (("MODE me +%s", ["Z"]), lambda x: [n("501", "Unknown MODE flag")]),
            "umodeq": lambda: (("MODE %s", ["me"]), lambda x: [n("221", "+i" + t)]),
            "umodebad": lambda: (("MODE %s +i", HERE), lambda x: [n("502", "Can't change mode for other users")]),
            "privmsg": lambda: (("PRIVMSG %s :hello " + t, HERE), lambda x: []),
            "privmsgg": lambda: (("PRIVMSG %s :hello " + t, GHOST), lambda x: [n("401", x, NONICK)]),
            "privmsgaway": lambda: (("PRIVMSG %s :hello " + t, AWAY), lambda x: [n("301", x, "gone")]),
            "cannotsend": lambda: (("PRIVMSG %s :hello " + t, ["#mod"]), lambda x: [n("404", x, "Cannot send to channel")]),
            "notice": lambda: (("NOTICE %s :hello " + t, HERE + GHOST), lambda x: []),
            "away": lambda: (("AWAY %s", [":gone fishing", ""]), lambda x: [n("306", "You have been marked as being away") if x else n("305", "You are no longer marked as being away")]),
            "kill": lambda: (("KILL %s :bye", HERE), lambda x: [n("481", "Permission Denied")]),
            "rehash": lambda: (("REHASH", [""]), lambda x: [n("481", "Permission Denied")]),
            "squit": lambda: (("SQUIT %s :bye", [SRV]), lambda x: [n("481", "Permission Denied")]),
            "servlist": lambda: (("SERVLIST", [""]), lambda x: [n("234", "s%d" % i, SRV, "*", "0", "1", t) for i in range(r.randint(0, 3))] + [n("235", "*", "*", "End " + t)]),
            "users": lambda: (("USERS", [""]), lambda x: [n("446", "USERS has been disabled " + t)]),
        }
        if k == "whois2":
            xs = r.sample(HERE[:2] + AWAY, 2)
            lines = [l for x in xs for l in self.whois_lines(x, t)]
            return Query(k, "WHOIS " + ",".join(xs), lines + [n("318", ",".join(xs), "End " + t)])
        if k == "namesall":
            if joins_pending:
                k = "names"
            else:
                return Query(k, "NAMES", [n("353", "=", "#x%d" % i, "a b" + t) for i in range(r.randint(0, 3))] + [n("366", "*", "End " + t)])
        if k == "joinok":
            if names_all_pending:
                k = "join"
            else:
                ch = "#j" + t
                return Query(k, "JOIN " + ch, [["JOIN", ch], ["ALL"] + n("332", ch, "topic"), ["ALL"] + n("353", "=", ch, "me bob " + t), ["ALL"] + n("366", ch, "End of NAMES")])
        if k == "tryagain":
            c = r.choice(["WHOIS bob", "WHO #other", "LIST", "NAMES #other", "LINKS", "STATS u", "WHOWAS bob"])
            return Query(k, c, [n("263", c.split()[0], "Please wait a while and try again.")])
        if k == "needmore":
            c = r.choice(["KICK", "INVITE", "JOIN", "PART", "OPER"])
            return Query(k, c, [n("461", c.split()[0], "Not enough parameters")])
        if k == "unknown":
            c = r.choice(["FROB", "XYZZY", "dance"])
            return Query(k, c + " " + t, [n("421", c, "Unknown command")])
        (fmt, xs), rep = f[k]()
        x = r.choice(xs)
        return Query(k, (fmt.replace("%%", "\0") % x if "%s" in fmt else fmt.replace("%%", "\0")).replace("\0", "%").replace("{}", x).strip(), rep(x))

    def unasked(self):
        """Numerics nobody asked for, about nothing anybody can have asked about."""
        t = self.tag()
        if self.r.random() < .3:         # numerics no query is answered with
            return self.num(self.r.choice(["007", "020", "043", "450", "453", "460", "469", "486", "499", "509", "520", "531", "605", "669", "716", "728", "745", "767", "800", "902", "974", "999"]), t, "whatever")
        return self.r.choice([self.num("042", t, "your unique ID"), self.num("396", "host." + t, "is now your hidden host"), self.num("900", "me!u@h", "acc", "You are now logged in " + t),
                              self.num("604", "bob", "u", "h", "1", "is online " + t), self.num("601", "bob", "u", "h", "1", "logged off " + t),
                              self.num("732", "x" + t), self.num("742", MEMBER, "c", "nt", t)])


def run_case(case, cov):
    r = core.case_rng(case)
    w = e2e.World(_bin[0], "p09")
    with w:
        srv = w.server()
        w.write_config({"default-network": "net0", "autoconnect": "net0", "replication": "none", "report-time": "never", "admin-log": "false"},
                       [("net0", {"nick": "me", "username": "u", "fullname": "F", "servers": "%s:%d" % (w.ip, srv.port), "queue-speed": "0"})])
        w.start()
        w.pump(lambda: srv.conn)
        sc = srv.conn
        w.login_server(sc, "me")
        sc.send(":%s 302 me :me=+u@real.host" % SRV)
        for ch, p in ((MEMBER, ""), (OPCHAN, "@")):
            sc.send(":me!u@real.host JOIN " + ch, ":%s 353 me = %s :%sme bob dave" % (SRV, ch, p), ":%s 366 me %s :End" % (SRV, ch))
        w.sync_server(sc)
        g = Gen(r)
        clients = []

        class C:
            pass

        def attach():
            c = C()
            c.conn = w.attach("me", "net0")
            w.sync_client(c.conn)
            c.conn.take()
            c.want = []          # numerics owed, in order
            c.later = []
            c.gone = False
            clients.append(c)

        for _ in range(case["clients"]):
            attach()
        w.sync_server(sc)
        sc.take()
        queue = collections.deque()      # what the server has yet to answer: Query, or lists of lines left
        owner_of = {}
        log = []

        def live():
            return [c for c in clients if not c.gone]

        def wire(args):
            last = args[-1]
            return ":%s %s" % (SRV, " ".join(args[:-1] + [":" + last if " " in last or last == "" or last.startswith(":") or r.random() < .5 else last]))

        def say(args, q):
            if args[0] in ("JOIN", "MODE"):
                sc.send(":me!u@real.host " + " ".join(args))
                return
            to_all = args[0] == "ALL"
            if to_all:
                args = args[1:]
            raw = wire(args)
            log.append("S: " + raw + (" [for %s]" % clients.index(q.owner) if q and q.owner in clients else ""))
            sc.send(raw)
            item = tuple(a.encode() for a in args)
            for c in (live() if q is None or to_all else [q.owner]):
                if not c.gone:
                    c.want.append((item, q.form if q else "unasked", len(live()), min(len(queue), 3)))

        def server_take():
            """Commands that reached the server, in the order it saw them."""
            w.sync_server(sc)
            for l in sc.take():
                if not l.args or l.args[0] in (b"PING", b"PONG"):
                    continue
                key = b" ".join(l.args)
                if not owner_of.get(key):
                    raise Violation("forward", "the server received %r, which no client sent (or sent fewer times)" % (l.raw,))
                queue.append(owner_of[key].popleft())

        def answer(n):
            while queue and n:
                q = queue[0]
                if q.replies:
                    say(q.replies.pop(0), q)
                    n -= 1
                if not q.replies:
                    queue.popleft()

        ident = lambda a: not any(p.find(b"T") >= 0 and any(ch.isdigit() for ch in p.decode()) for p in a)
        fuzzy = set()                    # equal refusals that may have gone to a client that left

        def judge(final=False):
            w.sync_server(sc)
            for i, c in enumerate(clients):
                if c.gone:
                    c.want, c.later = [], []
                    continue
                w.sync_client(c.conn)
                got = c.later + [tuple(l.args) for l in c.conn.take() if l.args and l.args[0].isdigit()]
                want = [x[0] for x in c.want]
                # (equal refusals of several clients are interchangeable)
                c.later = []
                if not final:
                    c.later = [x for x in got if ident(x)]
                    later = [x for x in c.want if ident(x[0])]
                    got = [x for x in got if not ident(x)]
                    c.want = [x for x in c.want if not ident(x[0])]
                    want = [x[0] for x in c.want]
                else:
                    got = [x for x in got if x not in fuzzy]
                    c.want = [x for x in c.want if x[0] not in fuzzy]
                    want = [x[0] for x in c.want]
                    later = []
                cg, cw = collections.Counter(got), collections.Counter(want)
                for x in cg:
                    cov.ev("numerics_received", cg[x])
                    if cg[x] > cw[x]:
                        others = [j for j, d in enumerate(clients) if x in [y[0] for y in d.want]]
                        form = next((y[1] for d in clients for y in d.want if y[0] == x), "departed" if not others else "?")
                        raise Violation("stray:%s:%s" % (x[0].decode(), form), "client %d received %dx (owed %dx; owed to %s):\n  %r\n%s" % (i, cg[x], cw[x], others, x, "\n".join(log[-200:])))
                for x in cw:
                    if cg[x] < cw[x]:
                        form = next(y[1] for y in c.want if y[0] == x)
                        raise Violation("missing:%s:%s" % (x[0].decode(), form), "client %d is owed %dx and received %dx:\n  %r\n%s" % (i, cw[x], cg[x], x, "\n".join(log[-200:])))
                if [x for x in got if not ident(x)] != [x for x in want if not ident(x)]:
                    raise Violation("order", "client %d received replies in another order:\n got %r\nwant %r" % (i, got, want))
                for x, form, nc, nq in c.want:
                    cov.judge((x[0], form, nc, nq))
                c.want = later
            if final:
                fuzzy.clear()

        for step in range(case["steps"]):
            k = r.random()
            if k < .55:
                for _ in range(r.choice([1, 1, 2, 4])):
                    c = r.choice(live()) if live() else None
                    if c is None:
                        break
                    pend = [q.form for q in queue]
                    q = g.make("joinok" in pend, "namesall" in pend)
                    q.owner = c
                    log.append("C%d: %s" % (clients.index(c), q.cmd))
                    a = e2e.parse_line(q.cmd.encode())[1]
                    key = b" ".join(a)
                    if owner_of.get(key):        # who of the two the server heard first must be known
                        w.sync_client(owner_of[key][-1].owner.conn)
                    owner_of.setdefault(key, collections.deque()).append(q)
                    c.conn.send(q.cmd)
                    cov.ev("queries")
                    if q.form in ("joinok", "namesall") or r.random() < .6:
                        w.sync_client(c.conn)
                        server_take()
                if live():
                    for c in live():
                        w.sync_client(c.conn)
                    server_take()
            elif k < .82:
                answer(r.choice([1, 2, 3, 5, 10, 100]))
            elif k < .88:
                say(g.unasked(), None)
            elif k < .91:
                sc.send(":bob!b@host PRIVMSG #main :noise")
            elif k < .93 and len(live()) > 1:
                judge()
                c = r.choice(live())
                log.append("C%d leaves" % clients.index(c))
                fuzzy.update(x[0] for x in c.want)
                for q in [q for v in owner_of.values() for q in v] + list(queue):
                    if q.owner is c:
                        fuzzy.update(tuple(a.encode() for a in l) for l in q.replies)
                c.gone = True
                c.conn.close()
                w.pump(lambda: True)
                w.sync_server(sc)
                cov.ev("client_left", 1)
            elif k < .96 and len(live()) < 4:
                judge()
                attach()
                server_take()
                log.append("C%d arrives" % (len(clients) - 1))
            elif k < .98:
                answer(10000)
                judge(True)
                w.advance(r.choice([1, 4, 8]))
                w.sync_server(sc)
            else:
                answer(10000)
                judge(True)
        answer(10000)
        judge(True)
        cov.ev("cases")
        cov.sample(tuple(log[-1:]))
        w.stop()
