"""A proxy whose server side is the network simulator: commands the proxy sends are
executed on the simulated network, and an independent tracker follows everything the
server says."""
import e2e, ircsim, irctrack


class SimServer:
    def __init__(self, w, sim, srv=None, name="srv"):
        self.w = w
        self.sim = sim
        self.srv = srv or w.server(name)
        self.t = None
        self.conn = None
        self.got = []           # (args) the proxy sent, in order
        self.sent = []          # lines the server sent, in order
        self.held = None        # not None: replies are held back

    def kv(self, **more):
        d = {"nick": self.sim.me.nick.decode(), "username": "user", "fullname": "Real", "servers": "%s:%d" % (self.w.ip, self.srv.port)}
        d.update(more)
        return d

    def say(self, lines):
        for l in lines:
            self.sent.append(l)
            self.t.feed(*e2e.parse_line(l))
        if lines:
            self.conn.send(*lines)

    def login(self):
        """Wait for registration and welcome the proxy."""
        w = self.w
        n = len(self.srv.accepted)
        w.pump(lambda: self.srv.conn is not None and (self.srv.conn.closed or any(l.args and l.args[0] == b"USER" for l in self.srv.conn.lines)), what="login")
        self.conn = self.srv.conn
        if self.conn.closed:
            w.closed(self.conn)
        self.reg = self.conn.take()
        for l in self.reg:
            if l.args[0] == b"NICK":
                self.sim.me.nick = l.args[1]
        self.t = irctrack.Tracker(self.sim.me.nick)
        self.say(self.sim.welcome())
        return n

    def service(self):
        """Execute what the proxy sent; True if there was anything."""
        ls = self.conn.take()
        for l in ls:
            if not l.args:
                continue
            self.got.append(l.args)
            out = self.sim.command(l.args)
            if self.held is not None:
                self.held.append(out)
            else:
                self.say(out)
        return bool(ls)

    def settle(self, clients=()):
        """Until nothing moves any more."""
        while True:
            self.w.sync_server(self.conn)
            busy = self.service()
            for c in clients:
                if not c.closed:
                    self.w.sync_client(c)
            self.w.sync_server(self.conn)
            if not busy and self.conn.pos == len(self.conn.lines):
                return


class TrackedClient:
    """A client with a model of its own, fed with all it is told."""

    def __init__(self, conn, nick):
        self.conn = conn
        self.t = irctrack.Tracker(nick.encode() if isinstance(nick, str) else nick)
        self.seen = []

    def feed(self):
        new = [l for l in self.conn.take() if l.args]
        for l in new:
            self.t.feed(l.origin, l.args)
        self.seen += new
        return new
