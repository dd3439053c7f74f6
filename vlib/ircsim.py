"""A simulated IRC network: the whole truth about users and channels, of which one
connected client (the proxy) is told its share.  Produces random, protocol-conforming
histories and answers the client's commands the way a server does."""
import random
import gen
from irctrack import FOLDS, TABLES

SERVER = b"irc.test"

FEATURES = [
    dict(casemapping="rfc1459", prefix=("ov", "@+"), chantypes="#&", chanmodes="beI,k,l,imnpst"),
    dict(casemapping="ascii", prefix=("ohv", "@%+"), chantypes="#", chanmodes="b,k,l,imnpstr"),
    dict(casemapping="rfc1459", prefix=("qaohv", "~&@%+"), chantypes="#&+", chanmodes="beIg,kL,lfj,imnpstrcC"),
    dict(casemapping="strict-rfc1459", prefix=("Yov", "!@+"), chantypes="#", chanmodes="be,k,lj,imnpstz"),
    dict(casemapping="rfc1459", prefix=("ov", "@+"), chantypes="#!", chanmodes="eIb,k,flj,CFLMPQScgimnprstz"),
    # an old server that announces nothing (RFC 1459 behaviour)
    dict(casemapping="rfc1459", prefix=("ov", "@+"), chantypes="#&", chanmodes="beI,k,l,imnpst", silent=True),
]


class User:
    def __init__(self, nick, user, host, real, server=SERVER):
        self.nick, self.user, self.host, self.real, self.server = nick, user, host, real, server
        self.away = False
        self.oper = False

    @property
    def mask(self):
        return self.nick + b"!" + self.user + b"@" + self.host


class Chan:
    def __init__(self, name, now):
        self.name = name
        self.members = {}     # User -> set of mode letters (str)
        self.topic = None
        self.topic_by = b""
        self.topic_time = 0
        self.modes = set()
        self.params = {}
        self.lists = {}
        self.created = now


class Sim:
    def __init__(self, r, feats=None, nick=b"me", netname=b"TestNet", nusers=10, nchans=5, namesx=None, host=b"real.host",
                 user=b"user", maxmask=False):
        self.r = r
        f = dict(feats or r.choice(FEATURES))
        self.f = f
        self.netname = netname
        if f.get("silent"):
            namesx = False
        self.namesx = r.random() < 0.4 if namesx is None else namesx
        self.now = 1700000000
        self.me = User(nick, user, host, b"Me Real")
        self.umodes = set()
        self.users = []
        self.chans = {}
        self.used = {self.fold(nick)}
        for i in range(nusers):
            self.users.append(self.new_user())
        self.channames = []
        seen = set()
        while len(self.channames) < nchans:
            c = gen.chan(r, f["chantypes"]).encode()
            if r.random() < 0.3:
                c = c[:1] + r.choice([b"a[x]", b"A{x}", b"foo~", b"FOO^", b"a\\b", b"a|b", b"test", b"Test"])
            if c[:1] == b"!":
                c = b"!ABCDE" + c[1:]
            if self.fold(c) not in seen:
                seen.add(self.fold(c))
                self.channames.append(c)
        self.motd_lines = [b"- line %d" % i for i in range(2)]
        self.stats = {}

    # -- helpers -----------------------------------------------------------
    def fold(self, s):
        return s.translate(TABLES[self.f["casemapping"]])

    def isupport(self):
        f = self.f
        if f.get("silent"):
            return []
        toks = ["NETWORK=%s" % self.netname.decode(), "CHANTYPES=%s" % f["chantypes"],
                "PREFIX=(%s)%s" % f["prefix"], "CHANMODES=%s" % f["chanmodes"], "CASEMAPPING=%s" % f["casemapping"],
                "NICKLEN=30", "TOPICLEN=300", "MODES=4"]
        if self.namesx:
            toks.append("NAMESX")
        return toks

    def num(self, n, *args):
        return self.line(SERVER, b"%03d" % n if isinstance(n, int) else n, self.me.nick, *args)

    def line(self, origin, cmd, *args):
        out = b""
        if origin is not None:
            out += b":" + origin + b" "
        out += cmd
        for i, a in enumerate(args):
            if i == len(args) - 1 and (a == b"" or b" " in a or a[:1] == b":" or self.r.random() < 0.5):
                out += b" :" + a
            else:
                out += b" " + a
        return out

    def casevar(self, s):
        """The same name, perhaps spelled differently."""
        if self.r.random() > 0.15:
            return s
        up = s.translate(bytes.maketrans(*reversed(FOLDS[self.f["casemapping"]])))
        return self.r.choice([self.fold(s), up, s])

    def new_nick(self):
        while True:
            n = gen.nick(self.r).encode()
            if self.r.random() < 0.25:
                n = n[:3] + self.r.choice([b"[x]", b"{X}", b"\\a", b"|A", b"^_", b"~"[:0] + b"`"])
            if self.fold(n) not in self.used:
                self.used.add(self.fold(n))
                return n

    def new_user(self):
        r = self.r
        n = self.new_nick()
        return User(n, (r.choice(["~", ""]) + gen.nick(r, 5).lower()).encode(),
                    r.choice(["host.example", "10.2.3.4", "2001:db8::1", "a.b-c.org", "user/cloak"]).encode(),
                    r.choice([b"Real Name", b"x", b"A  B", b"j\xc3\xb6rg", b"0 zero"]),
                    r.choice([SERVER, b"leaf.test"]))

    def prefix_of(self, modes, multi=None):
        ms, ps = self.f["prefix"]
        out = "".join(p for m, p in zip(ms, ps) if m in modes)
        multi = self.namesx if multi is None else multi
        return (out if multi else out[:1]).encode()

    def mine(self):
        return [c for c in self.chans.values() if self.me in c.members]

    def chan(self, name):
        return self.chans.get(self.fold(name))

    def get_chan(self, name):
        c = self.chan(name)
        if c is None:
            c = Chan(name, self.now)
            self.chans[self.fold(name)] = c
        return c

    def drop(self, c, u):
        c.members.pop(u, None)
        if not c.members:
            self.chans.pop(self.fold(c.name), None)

    def user_by_nick(self, n):
        for u in self.users + [self.me]:
            if self.fold(u.nick) == self.fold(n):
                return u
        return None

    def visible(self, u):
        return any(u in c.members for c in self.mine())

    def count(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1

    # -- replies -----------------------------------------------------------
    def welcome(self):
        out = [self.num(1, b"Welcome to the network %s" % self.me.mask), self.num(2, b"Your host is " + SERVER),
               self.num(3, b"This server was created once")]
        f = self.f
        cm = "".join(sorted(set(f["chanmodes"].replace(",", "") + f["prefix"][0])))
        out.append(self.line(SERVER, b"004", self.me.nick, SERVER, b"sim-1.0", b"iosw", cm.encode()))
        t = self.isupport()
        while t:
            n = self.r.randint(2, 6)
            out.append(self.line(SERVER, b"005", self.me.nick, *([x.encode() for x in t[:n]] + [b"are supported by this server"])))
            t = t[n:]
        return out + self.motd()

    def motd(self):
        if not self.motd_lines:
            return [self.num(422, b"MOTD File is missing")]
        return [self.num(375, b"- motd")] + [self.num(372, m) for m in self.motd_lines] + [self.num(376, b"End of /MOTD command.")]

    def names(self, c, asked=None):
        out, cur = [], []
        limit = self.r.choice([1, 3, 8, 30])
        vis = b"@" if "s" in c.modes else (b"*" if "p" in c.modes else b"=")
        for u, m in c.members.items():
            cur.append(self.prefix_of(m) + u.nick)
            if len(cur) >= limit:
                out.append(self.num(353, vis, c.name, b" ".join(cur) + self.r.choice([b"", b" "])))
                cur = []
        if cur:
            out.append(self.num(353, vis, c.name, b" ".join(cur)))
        out.append(self.num(366, asked or c.name, b"End of /NAMES list."))
        return out

    def topic_reply(self, c, none=True):
        if c.topic is None:
            return [self.num(331, c.name, b"No topic is set")] if none else []
        return [self.num(332, c.name, c.topic), self.num(333, c.name, c.topic_by, b"%d" % c.topic_time)]

    def mode_reply(self, c):
        ms = "+"
        ps = []
        order = sorted(c.modes)
        self.r.shuffle(order)
        for m in order:
            ms += m
            if m in c.params:
                ps.append(c.params[m])
        return [self.num(324, c.name, ms.encode(), *ps), self.num(329, c.name, b"%d" % c.created)]

    LISTNUM = {"b": (367, 368, b"End of Channel Ban List"), "I": (346, 347, b"End of Channel Invite List"),
               "e": (348, 349, b"End of Channel Exception List")}

    def list_reply(self, c, mode):
        a, e, t = self.LISTNUM[mode]
        out = []
        for mask, by, when in c.lists.get(mode, []):
            if mode == "b" or self.r.random() < 0.5:
                out.append(self.num(a, c.name, mask, by, b"%d" % when))
            else:
                out.append(self.num(a, c.name, mask))
        out.append(self.num(e, c.name, t))
        return out

    def who_line(self, c, u):
        flags = (b"G" if u.away else b"H") + (b"*" if u.oper else b"") + (self.prefix_of(c.members[u]) if c else b"")
        return self.num(352, c.name if c else b"*", u.user, u.host, u.server, u.nick, flags,
                        b"%d " % (0 if u.server == SERVER else 1) + u.real)

    def who_reply(self, target):
        c = self.chan(target)
        out = []
        if c is not None:
            out = [self.who_line(c, u) for u in c.members]
        else:
            u = self.user_by_nick(target)
            if u is not None:
                cs = [x for x in self.chans.values() if u in x.members]
                out = [self.who_line(self.r.choice(cs) if cs else None, u)]
        return out + [self.num(315, target, b"End of /WHO list.")]

    def whois_reply(self, target):
        u = self.user_by_nick(target)
        if u is None:
            return [self.num(401, target, b"No such nick/channel"), self.num(318, target, b"End of /WHOIS list.")]
        out = [self.num(311, u.nick, u.user, u.host, b"*", u.real)]
        cs = [x for x in self.chans.values() if u in x.members]
        if cs:
            out.append(self.num(319, u.nick, b" ".join(self.prefix_of(x.members[u]) + x.name for x in cs)))
        out.append(self.num(312, u.nick, u.server, b"Some server"))
        if u.away:
            out.append(self.num(301, u.nick, b"gone"))
        return out + [self.num(318, target, b"End of /WHOIS list.")]

    def populate(self, frac):
        """Channels that are full of people already."""
        for n in self.channames:
            c = self.get_chan(n)
            for u in self.users:
                if self.r.random() < frac:
                    c.members[u] = {m for m in self.f["prefix"][0] if self.r.random() < 0.2}
            if not c.members:
                self.chans.pop(self.fold(n))
            elif self.r.random() < 0.6:
                self.set_topic(next(iter(c.members)), c, gen.text(self.r).encode())

    def join_me(self, name, key=None):
        fresh = self.chan(name) is None
        c = self.get_chan(name)
        if self.me in c.members:
            return []
        c.members[self.me] = {"o"} if fresh else set()
        if fresh and self.r.random() < 0.5:
            c.modes |= {"n", "t"} & set(self.f["chanmodes"].split(",")[3])
        out = [self.line(self.me.mask, b"JOIN", c.name)]
        out += self.topic_reply(c, none=False)
        out += self.names(c)
        return out

    # -- the client's commands ----------------------------------------------
    def command(self, args):
        """What the server answers to a command of the client."""
        cmd = args[0].upper()
        h = getattr(self, "cmd_" + cmd.decode("latin1"), None)
        if h is None:
            return [self.num(421, args[0], b"Unknown command")]
        return h(args)

    def cmd_PING(self, a):
        return [self.line(SERVER, b"PONG", SERVER, a[1] if len(a) > 1 else b"")]

    def cmd_PONG(self, a):
        return []

    cmd_PRIVMSG = cmd_NOTICE = cmd_PONG

    def cmd_QUIT(self, a):
        return []

    def cmd_JOIN(self, a):
        out = []
        for n in a[1].split(b","):
            if n == b"0":
                for c in self.mine():
                    out.append(self.line(self.me.mask, b"PART", c.name))
                    self.drop(c, self.me)
            elif not n or chr(n[0]) not in self.f["chantypes"]:
                out.append(self.num(403, n, b"No such channel"))
            else:
                out += self.join_me(n)
        return out

    def cmd_PART(self, a):
        out = []
        for n in a[1].split(b","):
            c = self.chan(n)
            if c is None:
                out.append(self.num(403, n, b"No such channel"))
            elif self.me not in c.members:
                out.append(self.num(442, c.name, b"You're not on that channel"))
            else:
                out.append(self.line(self.me.mask, b"PART", c.name, *a[2:3]))
                self.drop(c, self.me)
        return out

    def cmd_NICK(self, a):
        n = a[1]
        u = self.user_by_nick(n)
        if u is not None and u is not self.me:
            return [self.num(433, n, b"Nickname is already in use.")]
        if n == self.me.nick:
            return []
        out = [self.line(self.me.mask, b"NICK", n)]
        self.used.discard(self.fold(self.me.nick))
        self.used.add(self.fold(n))
        self.me.nick = n
        return out

    def cmd_NAMES(self, a):
        if len(a) < 2:
            return [self.num(366, b"*", b"End of /NAMES list.")]
        out = []
        for n in a[1].split(b","):
            c = self.chan(n)
            out += self.names(c, n) if c is not None else [self.num(366, n, b"End of /NAMES list.")]
        return out

    def cmd_WHO(self, a):
        return self.who_reply(a[1] if len(a) > 1 else b"*")

    def cmd_WHOIS(self, a):
        if len(a) < 2:
            return [self.num(431, b"No nickname given")]
        return self.whois_reply(a[-1])

    def cmd_TOPIC(self, a):
        c = self.chan(a[1])
        if c is None:
            return [self.num(403, a[1], b"No such channel")]
        if len(a) == 2:
            return self.topic_reply(c)
        return self.set_topic(self.me, c, a[2])

    def set_topic(self, u, c, t):
        c.topic = t or None
        c.topic_by = u.nick
        c.topic_time = self.now
        return [self.line(u.mask, b"TOPIC", c.name, t)]

    def cmd_MODE(self, a):
        if self.fold(a[1]) == self.fold(self.me.nick):
            if len(a) == 2:
                return [self.num(221, b"+" + "".join(sorted(self.umodes)).encode())]
            return self.umode_change(a[2])
        c = self.chan(a[1])
        if c is None:
            return [self.num(403, a[1], b"No such channel")]
        if len(a) == 2:
            return self.mode_reply(c)
        m = a[2].lstrip(b"+").decode("latin1")
        if len(a) == 3 and len(m) == 1 and m in self.LISTNUM:
            return self.list_reply(c, m)
        return []

    def umode_change(self, s):
        add, ch = True, ""
        out = []
        for x in s.decode("latin1"):
            if x in "+-":
                add = x == "+"
            elif x in "iwso":
                if add != (x in self.umodes):
                    out.append(("+" if add else "-") + x)
                    (self.umodes.add if add else self.umodes.discard)(x)
        if not out:
            return []
        return [self.line(self.me.mask, b"MODE", self.me.nick, "".join(out).encode())]

    def cmd_USERHOST(self, a):
        return [self.num(302, b" ".join(u.nick + (b"*" if u.oper else b"") + b"=" + (b"-" if u.away else b"+") + u.user + b"@" + u.host
                                        for u in (self.user_by_nick(n) for n in a[1:]) if u is not None))]

    def cmd_AWAY(self, a):
        self.me.away = len(a) > 1 and a[1] != b""
        return [self.num(306, b"You have been marked as being away")] if self.me.away else [self.num(305, b"You are no longer marked as being away")]

    def cmd_MOTD(self, a):
        return self.motd()

    def cmd_USER(self, a):
        return []

    cmd_PASS = cmd_CAP = cmd_PROTOCTL = cmd_USER

    # -- random events --------------------------------------------------------
    def mode_event(self, c, by):
        """A random MODE change; returns the line."""
        r = self.r
        A, B, C, D = self.f["chanmodes"].split(",")
        parts, params = "", []
        sign = None
        for _ in range(r.randint(1, 4)):
            k = r.random()
            add = r.random() < 0.6
            x, p = None, None
            if k < 0.35:
                u = r.choice(list(c.members))
                x = r.choice(self.f["prefix"][0])
                add = x not in c.members[u]
                (c.members[u].add if add else c.members[u].discard)(x)
                p = self.casevar(u.nick)
            elif k < 0.55:
                x = r.choice(A)
                lst = c.lists.setdefault(x, [])
                add = add or not lst
                if add:
                    m = r.choice([b"*!*@", b"bad*!*@", b"~r:", b"*!x@"]) + gen.nick(r, 6).encode()
                    if any(e[0] == m for e in lst):
                        continue
                    lst.append((m, by.nick if by else SERVER, self.now))
                    p = m
                else:
                    e = r.choice(lst)
                    lst.remove(e)
                    p = e[0]
            elif k < 0.65:
                x = r.choice(B)
                if x in c.modes:
                    add = r.random() < 0.3
                else:
                    add = True
                if add:
                    p = gen.nick(r, 5).encode()
                    c.modes.add(x)
                    c.params[x] = p
                else:
                    p = r.choice([c.params[x], b"*"])
                    c.modes.discard(x)
                    del c.params[x]
            elif k < 0.75:
                x = r.choice(C)
                add = r.random() < 0.5 if x in c.modes else True
                if add:
                    p = b"%d" % r.randint(1, 500)
                    c.modes.add(x)
                    c.params[x] = p
                else:
                    c.modes.discard(x)
                    del c.params[x]
            else:
                x = r.choice(D)
                add = x not in c.modes
                (c.modes.add if add else c.modes.discard)(x)
            s = "+" if add else "-"
            if s != sign:
                parts += s
                sign = s
            parts += x
            if p is not None:
                params.append(p)
        if not parts:
            return []
        self.count("mode%d" % len(parts))
        return [self.line(by.mask if by else SERVER, b"MODE", self.casevar(c.name), parts.encode(), *params)]

    def events(self, n=1):
        out = []
        while n > 0:
            e = self.event()
            if e:
                out += e
                n -= 1
        return out

    def event(self):
        """One random thing happening on the network; returns the lines the client is told (maybe none)."""
        r = self.r
        self.now += r.randint(1, 90)
        mine = self.mine()
        kind = r.choice(self.KINDS)
        out = getattr(self, "ev_" + kind)(mine)
        if out:
            self.count(kind)
        return out

    KINDS = (["join"] * 10 + ["part"] * 5 + ["quit"] * 3 + ["nick"] * 6 + ["kick"] * 3 + ["mode"] * 12 + ["topic"] * 4 +
             ["mejoin"] * 6 + ["mepart"] * 2 + ["mekick"] * 2 + ["menick"] * 1 + ["meumode"] * 2 + ["privmsg"] * 3 +
             ["names"] * 2 + ["who"] * 2 + ["modeis"] * 2 + ["topicis"] * 1 + ["list"] * 2 + ["hidden"] * 4 +
             ["away"] * 1 + ["userhost"] * 1 + ["umodeis"] * 1 + ["noise"] * 2 + ["newuser"] * 2 + ["split"] * 1)

    def ev_join(self, mine):
        r = self.r
        u = r.choice(self.users)
        cands = [c for c in mine if u not in c.members]
        if not cands:
            return []
        k = r.choice([1, 1, 1, 2])
        cs = r.sample(cands, min(k, len(cands)))
        for c in cs:
            c.members[u] = set()
        return [self.line(u.mask, b"JOIN", b",".join(c.name for c in cs))]

    def ev_part(self, mine):
        r = self.r
        c = r.choice(mine) if mine else None
        us = [u for u in c.members if u is not self.me] if c else []
        if not us:
            return []
        u = r.choice(us)
        cs = [c]
        if r.random() < 0.2:
            cs += [x for x in mine if x is not c and u in x.members][:1]
        for x in cs:
            self.drop(x, u)
        return [self.line(u.mask, b"PART", b",".join(self.casevar(x.name) for x in cs), *([gen.text(r).encode()] if r.random() < 0.4 else []))]

    def _quit(self, u, msg):
        vis = self.visible(u)
        m = u.mask
        for c in list(self.chans.values()):
            if u in c.members:
                self.drop(c, u)
        self.users.remove(u)
        self.used.discard(self.fold(u.nick))
        self.users.append(self.new_user())
        return [self.line(m, b"QUIT", msg)] if vis else []

    def ev_quit(self, mine):
        return self._quit(self.r.choice(self.users), gen.text(self.r).encode())

    def ev_split(self, mine):
        us = [u for u in self.users if u.server != SERVER]
        out = []
        for u in us[:4]:
            out += self._quit(u, b"irc.test leaf.test")
        return out

    def ev_newuser(self, mine):
        # somebody new takes a nick that was used before
        return []

    def _rename(self, u, n):
        self.used.discard(self.fold(u.nick))
        self.used.add(self.fold(n))
        l = self.line(u.mask, b"NICK", n)
        vis = self.visible(u)
        u.nick = n
        return [l] if vis else []

    def ev_nick(self, mine):
        r = self.r
        u = r.choice(self.users)
        if r.random() < 0.2:
            n = r.choice([self.fold(u.nick), u.nick.swapcase()])
            if n == u.nick or self.fold(n) != self.fold(u.nick):
                return []
        else:
            n = self.new_nick()
        return self._rename(u, n)

    def ev_kick(self, mine):
        r = self.r
        c = r.choice(mine) if mine else None
        us = [u for u in c.members if u is not self.me] if c else []
        if not us:
            return []
        u, by = r.choice(us), r.choice(list(c.members))
        self.drop(c, u)
        return [self.line(r.choice([by.mask, SERVER]), b"KICK", self.casevar(c.name), self.casevar(u.nick), gen.text(r).encode())]

    def ev_mode(self, mine):
        if not mine:
            return []
        c = self.r.choice(mine)
        return self.mode_event(c, self.r.choice(list(c.members) + [None]))

    def ev_topic(self, mine):
        if not mine:
            return []
        c = self.r.choice(mine)
        u = self.r.choice(list(c.members))
        return self.set_topic(u, c, gen.text(self.r).encode() if self.r.random() < 0.8 else b"")

    def ev_mejoin(self, mine):
        r = self.r
        n = r.choice(self.channames)
        c = self.chan(n)
        if c is not None and self.me in c.members:
            return []
        return self.join_me(self.casevar(n) if c is None else n)

    def ev_mepart(self, mine):
        if len(mine) < 2:
            return []
        return self.cmd_PART([b"PART", self.r.choice(mine).name])

    def ev_mekick(self, mine):
        if len(mine) < 2:
            return []
        c = self.r.choice(mine)
        us = [u for u in c.members if u is not self.me]
        if not us:
            return []
        by = self.r.choice(us)
        self.drop(c, self.me)
        return [self.line(by.mask, b"KICK", self.casevar(c.name), self.casevar(self.me.nick), b"out")]

    def ev_menick(self, mine):
        r = self.r
        n = self.new_nick() if r.random() < 0.8 else self.me.nick.swapcase()
        if self.fold(n) != self.fold(self.me.nick) and self.user_by_nick(n):
            return []
        if n == self.me.nick or n[:1] in b"[]\\{}|^~":
            return []
        return self.cmd_NICK([b"NICK", n])

    def ev_meumode(self, mine):
        return self.umode_change(self.r.choice([b"+i", b"-i", b"+w", b"-w", b"+iw", b"+s-i", b"-s"]))

    def ev_privmsg(self, mine):
        r = self.r
        t = gen.text(r).encode()
        k = r.random()
        if k < 0.6 and mine:
            c = r.choice(mine)
            us = [u for u in c.members if u is not self.me]
            if us:
                return [self.line(r.choice(us).mask, r.choice([b"PRIVMSG", b"NOTICE"]), c.name, t)]
            return []
        us = [u for u in self.users]
        return [self.line(r.choice(us).mask, r.choice([b"PRIVMSG", b"NOTICE"]), self.me.nick, t)]

    def ev_names(self, mine):
        return self.names(self.r.choice(mine)) if mine else []

    def ev_who(self, mine):
        r = self.r
        if not mine or r.random() < 0.2:
            return self.who_reply(r.choice(self.users).nick)
        return self.who_reply(r.choice(mine).name)

    def ev_modeis(self, mine):
        return self.mode_reply(self.r.choice(mine)) if mine else []

    def ev_topicis(self, mine):
        return self.topic_reply(self.r.choice(mine)) if mine else []

    def ev_list(self, mine):
        if not mine:
            return []
        A = [m for m in self.f["chanmodes"].split(",")[0] if m in self.LISTNUM]
        return self.list_reply(self.r.choice(mine), self.r.choice(A))

    def ev_hidden(self, mine):
        """Things the client does not get to see."""
        r = self.r
        u = r.choice(self.users)
        k = r.random()
        if k < 0.5:
            c = self.get_chan(r.choice(self.channames))
            if self.me not in c.members:
                fresh = not c.members
                if u in c.members and r.random() < 0.4:
                    self.drop(c, u)
                else:
                    c.members.setdefault(u, {"o"} if fresh else set())
                    for _ in range(r.randint(0, 3)):
                        self.mode_event(c, u)
                    if r.random() < 0.4:
                        self.set_topic(u, c, gen.text(r).encode())
        elif k < 0.7:
            u.away = not u.away
        elif not self.visible(u):
            # changes nick out of sight; the old one becomes free
            self._rename(u, self.new_nick())
        return []

    def ev_away(self, mine):
        return self.cmd_AWAY([b"AWAY"] + ([b"x"] if self.r.random() < 0.5 else []))

    def ev_userhost(self, mine):
        return self.cmd_USERHOST([b"USERHOST", self.me.nick] + [self.r.choice(self.users).nick])

    def ev_umodeis(self, mine):
        return self.cmd_MODE([b"MODE", self.me.nick])

    def ev_noise(self, mine):
        r = self.r
        return [r.choice([self.line(SERVER, b"NOTICE", self.me.nick, b"*** hi"), self.line(None, b"PING", b"x"), self.line(SERVER, b"WALLOPS", b"hello all"),
                          self.num(250, b"Highest connection count: 3"), self.num(301, r.choice(self.users).nick, b"gone"),
                          self.line(r.choice(self.users).mask, b"INVITE", self.me.nick, b"#elsewhere"),
                          self.num(401, b"nobody", b"No such nick/channel"), self.line(SERVER, b"PONG", SERVER, b"x")])]
