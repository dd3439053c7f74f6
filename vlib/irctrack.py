"""An independent client-side model of one IRC connection: fed with the lines a server
sends, it knows what a correct client would know.  Used as the oracle for the proxy's own
state tracking (P05) and for what a newly attached client is told (P06)."""


FOLDS = {
    "ascii": (b"ABCDEFGHIJKLMNOPQRSTUVWXYZ", b"abcdefghijklmnopqrstuvwxyz"),
    "rfc1459": (b"ABCDEFGHIJKLMNOPQRSTUVWXYZ[]\\~", b"abcdefghijklmnopqrstuvwxyz{}|^"),
    "strict-rfc1459": (b"ABCDEFGHIJKLMNOPQRSTUVWXYZ[]\\", b"abcdefghijklmnopqrstuvwxyz{}|"),
}
TABLES = {k: bytes.maketrans(a, b) for k, (a, b) in FOLDS.items()}


class Feats:
    """Announced server features."""

    def __init__(self):
        self.casemapping = "rfc1459"
        self.prefix = [(b"o", b"@"), (b"v", b"+")]
        self.chantypes = b"#&"
        self.chanmodes = [b"beI", b"k", b"l", b"imnpsta"]

    def fold(self, s):
        return s.translate(TABLES[self.casemapping])

    def parse005(self, args):
        for tok in args[2:-1]:
            k, _, v = tok.partition(b"=")
            if k == b"CASEMAPPING" and v.decode("latin1") in TABLES:
                self.casemapping = v.decode("latin1")
            elif k == b"PREFIX":
                m, _, p = v[1:].partition(b")")
                self.prefix = [(m[i:i + 1], p[i:i + 1]) for i in range(len(m))]
            elif k == b"CHANTYPES":
                self.chantypes = v
            elif k == b"CHANMODES":
                self.chanmodes = (v.split(b",") + [b"", b"", b"", b""])[:4]

    def mode_by_prefix(self, p):
        for m, q in self.prefix:
            if q == p:
                return m
        return None

    def is_chan(self, s):
        return len(s) > 0 and s[:1] in [bytes([c]) for c in self.chantypes]


class TChan:
    def __init__(self, name):
        self.name = name
        self.members = {}       # folded nick -> set of mode letters
        self.topic = None
        self.topic_by = None
        self.topic_time = None
        self.modes = set()
        self.params = {}
        self.modes_known = False
        self.lists = {}         # mode -> list of masks, once fetched completely
        self.names_done = False
        self._names = None
        self._lists = {}
        self.created = None


class Tracker:
    def __init__(self, nick):
        self.f = Feats()
        self.me = nick
        self.nicks = {}         # folded -> nick as last spelled by the server
        self.masks = {}         # folded -> b"user@host" last seen
        self.chans = {}
        self.umodes = set()
        self.away = False
        self.unknown = []
        self.listed = set()     # nicks whose spelling is only known from a list

    # helpers
    def is_me(self, n):
        return self.f.fold(n) == self.f.fold(self.me)

    def chan(self, name):
        return self.chans.get(self.f.fold(name))

    def _see(self, origin):
        if origin and b"!" in origin:
            n, rest = origin.split(b"!", 1)
            self.masks[self.f.fold(n)] = rest
            return n
        return origin

    def _gone(self, fn):
        """Forget details of nicks seen nowhere any more."""
        if not any(fn in c.members for c in self.chans.values()):
            self.masks.pop(fn, None)
            self.nicks.pop(fn, None)

    def feed(self, origin, args):
        cmd = args[0].upper()
        h = getattr(self, "on_" + cmd.decode("latin1"), None)
        if h:
            h(origin, args)

    def on_001(self, o, a):
        self.me = a[1]

    def on_005(self, o, a):
        self.f.parse005(a)

    def on_NICK(self, o, a):
        old = o.split(b"!", 1)[0]
        fo, fn = self.f.fold(old), self.f.fold(a[1])
        if self.is_me(old):
            self.me = a[1]
        if fo != fn:
            for c in self.chans.values():
                if fo in c.members:
                    c.members[fn] = c.members.pop(fo)
            if fo in self.masks:
                self.masks[fn] = self.masks.pop(fo)
            elif b"!" in o:
                pass
            self.nicks.pop(fo, None)
        self.nicks[fn] = a[1]
        self.listed.discard(fn)

    def on_JOIN(self, o, a):
        n = o.split(b"!", 1)[0]
        for name in a[1].split(b","):
            fc = self.f.fold(name)
            if fc not in self.chans:
                if not self.is_me(n):
                    self.unknown.append((o, a))
                    continue
                self.chans[fc] = TChan(name)
            c = self.chans[fc]
            c.members.setdefault(self.f.fold(n), set())
            self.nicks[self.f.fold(n)] = n
            self.listed.discard(self.f.fold(n))
        self._see(o)

    def _leave(self, c, n):
        fn = self.f.fold(n)
        if fn == self.f.fold(self.me):
            del self.chans[self.f.fold(c.name)]
            for m in list(c.members):
                self._gone(m)
        else:
            if fn in c.members:
                del c.members[fn]
            self._gone(fn)

    def on_PART(self, o, a):
        n = o.split(b"!", 1)[0]
        for name in a[1].split(b","):
            c = self.chan(name)
            if c is not None:
                self._leave(c, n)

    def on_KICK(self, o, a):
        chans, nicks = a[1].split(b","), a[2].split(b",")
        for i, n in enumerate(nicks):
            c = self.chan(chans[i if len(chans) > 1 else 0])
            if c is not None:
                self._leave(c, n)

    def on_QUIT(self, o, a):
        n = o.split(b"!", 1)[0]
        fn = self.f.fold(n)
        for c in list(self.chans.values()):
            if fn in c.members:
                del c.members[fn]
        self._gone(fn)

    def on_TOPIC(self, o, a):
        c = self.chan(a[1])
        if c is not None:
            c.topic = a[2] if len(a) > 2 and a[2] else None
            c.topic_by = o.split(b"!", 1)[0] if o else None
            c.topic_time = "now"

    def on_332(self, o, a):
        c = self.chan(a[2])
        if c is not None:
            c.topic = a[3] or None

    def on_331(self, o, a):
        c = self.chan(a[2])
        if c is not None:
            c.topic = c.topic_by = c.topic_time = None

    def on_333(self, o, a):
        c = self.chan(a[2])
        if c is not None:
            c.topic_by = a[3]
            c.topic_time = int(a[4])

    def on_353(self, o, a):
        c = self.chan(a[3])
        if c is None:
            return
        if c._names is None:
            c._names = {}
        for w in a[4].split(b" "):
            if not w:
                continue
            modes = set()
            while w and self.f.mode_by_prefix(w[:1]):
                modes.add(self.f.mode_by_prefix(w[:1]))
                w = w[1:]
            if b"!" in w:
                w = w.split(b"!", 1)[0]
            c._names.setdefault(self.f.fold(w), set()).update(modes)
            if self.nicks.get(self.f.fold(w)) != w:
                self.nicks[self.f.fold(w)] = w
                self.listed.add(self.f.fold(w))

    def on_366(self, o, a):
        c = self.chan(a[2])
        if c is None:
            return
        if c._names is not None:
            old = c.members
            c.members = c._names
            for m in old:
                self._gone(m)
        c._names = None
        c.names_done = True

    def _modetype(self, m):
        for i, s in enumerate(self.f.chanmodes):
            if m in [bytes([x]) for x in s]:
                return "ABCD"[i]
        if m in [x for x, _ in self.f.prefix]:
            return "P"
        return None

    def on_MODE(self, o, a):
        if not self.f.is_chan(a[1]):
            if self.is_me(a[1]):
                add = True
                for i in range(len(a[2])):
                    x = a[2][i:i + 1]
                    if x in b"+-":
                        add = x == b"+"
                    elif add:
                        self.umodes.add(x)
                    else:
                        self.umodes.discard(x)
            return
        c = self.chan(a[1])
        if c is None:
            return
        ps = list(a[3:])
        add = True
        for i in range(len(a[2])):
            x = a[2][i:i + 1]
            if x in b"+-":
                add = x == b"+"
                continue
            t = self._modetype(x)
            if t == "D":
                (c.modes.add if add else c.modes.discard)(x)
            elif t == "C":
                if add:
                    c.modes.add(x)
                    c.params[x] = ps.pop(0)
                else:
                    c.modes.discard(x)
                    c.params.pop(x, None)
            elif t == "B":
                p = ps.pop(0) if ps else None
                if add:
                    c.modes.add(x)
                    c.params[x] = p
                else:
                    c.modes.discard(x)
                    c.params.pop(x, None)
            elif t == "A":
                p = ps.pop(0)
                if x in c.lists:
                    if add:
                        c.lists[x].append(p)
                    elif p in c.lists[x]:
                        c.lists[x].remove(p)
            elif t == "P":
                p = self.f.fold(ps.pop(0))
                if p in c.members:
                    (c.members[p].add if add else c.members[p].discard)(x)

    def on_324(self, o, a):
        c = self.chan(a[2])
        if c is None:
            return
        c.modes = set()
        c.params = {}
        ps = list(a[4:])
        for i in range(len(a[3])):
            x = a[3][i:i + 1]
            if x in b"+-":
                continue
            c.modes.add(x)
            if self._modetype(x) in ("B", "C") and ps:
                c.params[x] = ps.pop(0)
        c.modes_known = True

    def on_329(self, o, a):
        c = self.chan(a[2])
        if c is not None:
            c.created = int(a[3])

    def on_221(self, o, a):
        self.umodes = set(a[2][i:i + 1] for i in range(len(a[2]))) - {b"+", b"-"}

    def on_305(self, o, a):
        self.away = False

    def on_306(self, o, a):
        self.away = True

    def _entry(self, mode, a):
        c = self.chan(a[2])
        if c is not None:
            c._lists.setdefault(mode, []).append(a[3])

    def _endlist(self, mode, a):
        c = self.chan(a[2])
        if c is not None:
            c.lists[mode] = c._lists.pop(mode, [])

    def on_367(self, o, a):
        self._entry(b"b", a)

    def on_368(self, o, a):
        self._endlist(b"b", a)

    def on_346(self, o, a):
        self._entry(b"I", a)

    def on_347(self, o, a):
        self._endlist(b"I", a)

    def on_348(self, o, a):
        self._entry(b"e", a)

    def on_349(self, o, a):
        self._endlist(b"e", a)

    def on_352(self, o, a):
        fn = self.f.fold(a[6])
        if fn in self.nicks or self.is_me(a[6]):
            self.masks[fn] = a[3] + b"@" + a[4]

    def on_302(self, o, a):
        for w in a[2].split(b" "):
            n, _, v = w.partition(b"=")
            n = n.rstrip(b"*")
            if v and (self.f.fold(n) in self.nicks or self.is_me(n)):
                self.masks[self.f.fold(n)] = v[1:]
