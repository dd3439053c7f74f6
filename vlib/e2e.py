"""End-to-end rig: the real ctrlproxy program (instrumented build) between scripted
IRC servers and scripted IRC clients, all on the loopback interface."""
import collections, errno, mmap, os, re, select, shutil, signal, socket, struct
import subprocess, tempfile, time

SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:handle_segv=2:handle_abort=1:"
                    "handle_sigill=1:handle_sigfpe=1:allocator_may_return_null=1:detect_stack_use_after_return=0:"
                    "malloc_context_size=15:fast_unwind_on_malloc=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1",
    "G_SLICE": "always-malloc",
    "LC_ALL": "C.UTF-8",
}


class ProxyDied(Exception):
    def __init__(self, key, text):
        Exception.__init__(self, key)
        self.key = key
        self.text = text


class Hang(Exception):
    """The proxy did not answer within the (generous) limit."""


class Closed(Exception):
    """A connection the rig still needed was closed by the proxy."""


class VCtl:
    FIELDS = {"offset_ns": (0, "q"), "wr_cap": (8, "I"), "wr_eagain": (12, "I"),
              "rd_cap": (16, "I"), "rd_eagain": (20, "I"), "file_enospc": (24, "I"),
              "wr_block": (28, "I"), "n_write": (32, "Q"), "n_short_write": (40, "Q"),
              "n_eagain": (48, "Q"), "n_read": (56, "Q"), "n_short_read": (64, "Q"),
              "n_file_fail": (72, "Q"), "freeze": (80, "I"), "frozen_ns": (88, "q"),
              "frozen_rt_ns": (96, "q"), "file_skip": (104, "I"),
              "sndbuf": (108, "I"), "heap": (112, "Q")}

    def __init__(self, path):
        self.path = path
        with open(path, "wb") as f:
            f.write(b"\0" * 4096)
        self.f = open(path, "r+b")
        self.m = mmap.mmap(self.f.fileno(), 4096)

    def get(self, k):
        off, t = self.FIELDS[k]
        return struct.unpack_from("=" + t, self.m, off)[0]

    def set(self, k, v):
        off, t = self.FIELDS[k]
        struct.pack_into("=" + t, self.m, off, v)

    def close(self):
        self.m.close()
        self.f.close()


NOBODY = 65534
_FRAME = re.compile(r"#\d+ 0x[0-9a-f]+ in (\S+)(?: (\S+))?")


def crash_key(text, returncode):
    """A stable identity for a sanitizer report or abnormal death."""
    kind = None
    m = re.search(r"ERROR: AddressSanitizer: ([A-Za-z-]+)", text)
    if m:
        kind = m.group(1)
        rest = text[m.start():]
    else:
        m = re.search(r"([\w./-]+\.[ch]):(\d+):\d+: runtime error: (.*)", text)
        if m:
            kind = "ubsan"
            rest = text[m.start():]
        else:
            rest = text
    ga = re.search(r"(?:ERROR|CRITICAL|error):([\w./-]+\.c):\d+:(\w+): (?:assertion failed[^\n]*|code should not be reached)", text)
    if ga and (kind in (None, "ABRT", "SEGV")):
        return "abort:%s:%s" % (os.path.basename(ga.group(1)), ga.group(2))
    frames = []
    for fm in _FRAME.finditer(rest):
        fn, loc = fm.group(1), fm.group(2) or ""
        if "/repo/" in loc or loc.startswith(os.environ.get("VERIF_REPO", "/repo")):
            frames.append(fn)
        if len(frames) >= 2:
            break
    if kind:
        return "%s:%s" % (kind, "<".join(frames) or "?")
    return "exit:%s" % returncode


def parse_line(raw):
    """Reference IRC line splitter (RFC 2812 message format).  bytes -> (origin, [args])"""
    origin = None
    s = raw
    if s.startswith(b":"):
        sp = s.find(b" ")
        if sp < 0:
            return s[1:], []
        origin = s[1:sp]
        s = s[sp + 1:]
    args = []
    while True:
        s = s.lstrip(b" ")
        if not s:
            break
        if s.startswith(b":"):
            args.append(s[1:])
            break
        sp = s.find(b" ")
        if sp < 0:
            args.append(s)
            break
        args.append(s[:sp])
        s = s[sp + 1:]
    return origin, args


Line = collections.namedtuple("Line", "raw origin args")


class Conn:
    """A line-based connection endpoint owned by the rig."""

    def __init__(self, world, sock, name):
        self.world = world
        self.sock = sock
        self.name = name
        sock.setblocking(False)
        self.inbuf = b""
        self.out = b""
        self.lines = []          # every complete line received, in order
        self.pos = 0             # read cursor used by take()
        self.closed = False
        self.reading = True
        self.rx_bytes = 0
        world.conns[sock.fileno()] = self

    def send(self, *lines):
        for l in lines:
            if isinstance(l, str):
                l = l.encode("utf-8", "surrogateescape")
            self.out += l + b"\r\n"
        self._flush()

    def send_raw(self, data):
        self.out += data
        self._flush()

    def _flush(self):
        while self.out and not self.closed:
            try:
                n = self.sock.send(self.out)
                self.out = self.out[n:]
            except (BlockingIOError, InterruptedError):
                return
            except OSError:
                self._on_close()
                return

    def _on_close(self):
        if not self.closed:
            self.closed = True
            self.world.conns.pop(self.sock.fileno(), None)
            self.sock.close()

    def close(self, rst=False):
        if not self.closed:
            if rst:
                self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            self._on_close()

    def _read(self):
        for _ in range(64):
            try:
                d = self.sock.recv(65536)
            except (BlockingIOError, InterruptedError):
                return
            except OSError:
                self._on_close()
                return
            if not d:
                self._on_close()
                return
            self.rx_bytes += len(d)
            self.inbuf += d
            parts = self.inbuf.split(b"\n")
            self.inbuf = parts.pop()
            for p in parts:
                if p.endswith(b"\r"):
                    p = p[:-1]
                o, a = parse_line(p)
                self.lines.append(Line(p, o, a))
            if len(d) < 65536:
                return

    def take(self):
        """New lines since the previous take()."""
        r = self.lines[self.pos:]
        self.pos = len(self.lines)
        return r


class FakeServer:
    """Listening side of a scripted IRC server; accepted connections are Conns."""

    def __init__(self, world, name="srv", port=0):
        self.world = world
        self.name = name
        s = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
        s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        if not port:
            world.nextport += 1
            port = world.nextport
        s.bind((world.ip, port))
        s.listen(16)
        s.setblocking(False)
        self.lsock = s
        self.port = s.getsockname()[1]
        self.accepted = []
        world.listeners[s.fileno()] = self

    @property
    def conn(self):
        return self.accepted[-1] if self.accepted else None

    def _accept(self):
        while True:
            try:
                c, _ = self.lsock.accept()
            except (BlockingIOError, InterruptedError):
                return
            except OSError:
                return
            c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            self.accepted.append(Conn(self.world, c, "%s#%d" % (self.name, len(self.accepted))))

    def close(self):
        if self.lsock is not None:
            self.world.listeners.pop(self.lsock.fileno(), None)
            self.lsock.close()
            self.lsock = None


_world_count = [0]


def world_ip():
    """A loopback address of its own for every world, so that ports never collide."""
    _world_count[0] += 1
    pid = os.getpid()
    for k in range(64):
        n = (pid * 131 + _world_count[0] * 7 + k * 1009) & 0x3fffff
        ip = "127.%d.%d.%d" % (1 + ((n >> 14) & 0x7f), (n >> 6) & 0xff, 2 + (n & 0x3f))
        s = socket.socket()
        try:
            s.bind((ip, 6667))
            return ip
        except OSError:
            continue
        finally:
            s.close()
    return "127.0.0.1"


def peer_name():
    """How the proxy names a peer connecting over the loopback."""
    try:
        return socket.getnameinfo(("127.0.0.1", 0), 0)[0]
    except OSError:
        return "127.0.0.1"


class World:
    """One proxy process plus its scripted surroundings."""

    LIMIT = 40.0    # seconds of silence that count as "no answer"

    def __init__(self, binary, tag="w", env=None, keep=False, vctl=True, unpriv=False):
        self.binary = binary
        self.unpriv = unpriv and os.geteuid() == 0
        self.dir = tempfile.mkdtemp(prefix="cpv-%s-" % tag)
        self.conf = os.path.join(self.dir, "conf")
        os.mkdir(self.conf, 0o700)
        self.conns = {}
        self.listeners = {}
        self.proc = None
        self.env = env or {}
        self.ntok = 0
        self.keep = keep
        self.ip = world_ip()
        self.lport = 6667
        self.nextport = 7000
        self.errpath = os.path.join(self.dir, "stderr")
        self.vctl = VCtl(os.path.join(self.dir, "vctl")) if vctl else None
        self.events = collections.Counter()
        self.script = []        # textual log of what the rig did (replay aid)
        self.expect_exit = False

    # -- configuration -------------------------------------------------
    def write_config(self, global_kv, networks, extra=""):
        out = ["[global]"]
        kv = {"port": str(self.lport), "bind": self.ip, "password": "secret"}
        kv.update(global_kv)
        for k, v in kv.items():
            if v is not None:
                out.append("%s=%s" % (k, v))
        out.append("")
        for name, nkv in networks:
            out.append("[%s]" % name)
            for k, v in nkv.items():
                if v is not None and not k.startswith("@"):
                    out.append("%s=%s" % (k, v))
            out.append("")
            for k, v in nkv.items():
                if k.startswith("@"):
                    out.append("[%s]" % k[1:])
                    for kk, vv in v.items():
                        out.append("%s=%s" % (kk, vv))
                    out.append("")
        out.append(extra)
        with open(os.path.join(self.conf, "config"), "w", encoding="utf-8", errors="surrogateescape") as f:
            f.write("\n".join(out))

    # -- process -------------------------------------------------------
    def start(self, args=(), wait=True, wrapper=()):
        env = dict(os.environ)
        env.update(SAN_ENV)
        env["HOME"] = self.dir
        env["TZ"] = "UTC"
        env["CTRLPROXY_MODULESDIR"] = os.path.join(self.dir, "nomods")
        if self.vctl:
            env["VCTL"] = self.vctl.path
        env.update(self.env)
        self.errf = open(self.errpath, "ab")
        self.expect_exit = False
        ids = {}
        if self.unpriv:
            # nothing the proxy can be talked into writing may touch more than its own directory
            for d, _, fs in os.walk(self.dir):
                for x in [d] + [os.path.join(d, f) for f in fs]:
                    os.chown(x, NOBODY, NOBODY)
            ids = {"user": NOBODY, "group": NOBODY, "extra_groups": []}
        self.proc = subprocess.Popen(list(wrapper) + [self.binary, "-c", self.conf, "-n"] + list(args),
                                     stdin=subprocess.DEVNULL, stdout=self.errf, stderr=self.errf,
                                     env=env, cwd=self.dir, **ids)
        if wait:
            self.wait_listening()

    def wait_listening(self):
        t0 = time.time()
        while True:
            try:
                s = socket.create_connection((self.ip, self.lport), timeout=5)
                s.close()
                return
            except OSError:
                self.check_alive()
                if time.time() - t0 > self.LIMIT:
                    raise Hang("proxy does not listen")
                time.sleep(0.01)

    def stderr(self):
        try:
            with open(self.errpath, "rb") as f:
                return f.read().decode("utf-8", "replace")
        except OSError:
            return ""

    def check_alive(self):
        if self.proc is None:
            return
        rc = self.proc.poll()
        if rc is not None and not self.expect_exit:
            txt = self.stderr()
            raise ProxyDied(crash_key(txt, rc), txt[-12000:])

    def pump(self, cond, limit=None, what="", step=0.05):
        """Run all endpoints until cond() is true."""
        limit = limit or self.LIMIT
        t0 = time.time()
        while not cond():
            r = [fd for fd, c in self.conns.items() if c.reading] + list(self.listeners)
            w = [fd for fd, c in self.conns.items() if c.out]
            try:
                rr, ww, _ = select.select(r, w, [], step)
            except (OSError, ValueError):
                continue
            for fd in ww:
                c = self.conns.get(fd)
                if c:
                    c._flush()
            for fd in rr:
                if fd in self.listeners:
                    self.listeners[fd]._accept()
                else:
                    c = self.conns.get(fd)
                    if c:
                        c._read()
            if not rr and not ww:
                self.check_alive()
                if time.time() - t0 > limit:
                    raise Hang(what or "no answer")

    def leave(self, conn, *last, rst=False):
        """Close a connection and wait until the proxy has noticed (nothing else may
        be on its way in or out)."""
        before = self.nfds()
        if last:
            conn.send(*last)
        conn.close(rst)
        self.pump(lambda: self.nfds() < before, what="the proxy to notice the end of %s" % conn.name, step=0.0005)

    def drain(self, seconds=0.0):
        end = time.time() + seconds
        self.pump(lambda: time.time() >= end, step=min(.05, max(.0005, seconds)))

    # -- endpoints -----------------------------------------------------
    def server(self, name="srv", port=0):
        return FakeServer(self, name, port)

    def connect(self, name="cl", port=None, rcvbuf=None):
        s = socket.socket()
        if rcvbuf:
            s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
        self._connect(s, (self.ip, port or self.lport))
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        return Conn(self, s, name)

    def connect_unix(self, path, name="ux"):
        s = socket.socket(socket.AF_UNIX)
        self._connect(s, path)
        return Conn(self, s, name)

    def _connect(self, s, addr):
        """Connect; if nobody listens (any more), say so as what it is: a dead or deaf proxy."""
        t0 = time.time()
        while True:
            try:
                return s.connect(addr)
            except OSError as e:
                if self.expect_exit:
                    raise
                self.check_alive()
                if time.time() - t0 > 10:
                    raise Hang("connect %s" % e.strerror)
                time.sleep(0.02)

    def closed(self, conn):
        """A connection ended: because the proxy died, or is that all?"""
        for _ in range(60):
            self.check_alive()
            time.sleep(0.02)
        raise Closed(conn.name)

    def token(self):
        self.ntok += 1
        return "tok%d" % self.ntok

    def sync_server(self, sconn, limit=None):
        """After this, the proxy has processed everything the server sent before."""
        t = self.token().encode()
        start = len(sconn.lines)
        sconn.send(b"PING :" + t)
        st = [start]

        def seen():
            while st[0] < len(sconn.lines):
                l = sconn.lines[st[0]]
                st[0] += 1
                if len(l.args) >= 2 and l.args[0] == b"PONG" and l.args[1] == t:
                    return True
            if sconn.closed:
                self.closed(sconn)
            return False
        self.pump(seen, limit, "server sync")
        del sconn.lines[st[0] - 1]
        return t

    def sync_client(self, cconn, limit=None):
        """After this, everything the proxy wrote to the client earlier has been read."""
        t = self.token().encode()
        st = [len(cconn.lines)]
        cconn.send(b"PING :" + t)

        def seen():
            while st[0] < len(cconn.lines):
                l = cconn.lines[st[0]]
                st[0] += 1
                if len(l.args) >= 3 and l.args[0] == b"PONG" and l.args[-1] == t:
                    return True
            if cconn.closed:
                self.closed(cconn)
            return False
        self.pump(seen, limit, "client sync")
        del cconn.lines[st[0] - 1]

    def login_server(self, sconn, nick, extra005=("CHANTYPES=#& PREFIX=(ov)@+ CHANMODES=b,k,l,imnpst CASEMAPPING=rfc1459",),
                     host=b"irc.test", user="user", userhost="real.host", motd=True):
        """Consume NICK/USER from the proxy and complete registration."""
        self.pump(lambda: any(l.args and l.args[0] == b"USER" for l in sconn.lines) or sconn.closed, what="login")
        if sconn.closed:
            self.closed(sconn)
        n = nick.encode() if isinstance(nick, str) else nick
        h = host
        sconn.send(b":%s 001 %s :Welcome to the Test Network %s!%s@%s" % (h, n, n, user.encode(), userhost.encode()),
                   b":%s 002 %s :Your host is %s" % (h, n, h),
                   b":%s 003 %s :This server was created today" % (h, n),
                   b":%s 004 %s %s test-1.0 iosw biklmnopstv" % (h, n, h))
        for e in extra005:
            sconn.send(b":%s 005 %s %s :are supported by this server" % (h, n, e.encode()))
        if motd:
            sconn.send(b":%s 375 %s :- MOTD" % (h, n), b":%s 376 %s :End of MOTD" % (h, n))
        self.sync_server(sconn)

    def attach(self, nick, net=None, password="secret", user="cuser", name=None, sync=True, port=None):
        c = self.connect(name or nick, port=port)
        pw = password if net is None else "%s:%s" % (password, net)
        if password is not None:
            c.send("PASS %s%s" % (":" if " " in pw else "", pw))
        c.send("NICK %s" % nick, "USER %s 0 * :Real %s" % (user, nick))
        if sync:
            self.sync_client(c)
        return c

    def advance(self, seconds):
        """Move the proxy's clock forward and make its main loop notice."""
        self.vctl.set("offset_ns", self.vctl.get("offset_ns") + int(seconds * 1e9))
        self.nudge()

    def nudge(self):
        """Wake the main loop and wait until it has gone round."""
        a = self.connect_unix(os.path.join(self.conf, "admin"), "adm")
        a.send_raw(b"ECHO nudge\n")
        self.pump(lambda: any(l.raw == b"nudge" for l in a.lines) or a.closed, what="admin nudge")
        a.close()

    def admin(self, cmd, limit=None):
        """Run one command on the admin socket; returns its output lines."""
        a = self.connect_unix(os.path.join(self.conf, "admin"), "adm")
        t = self.token()
        a.send_raw(cmd.encode() + b"\n")
        a.send_raw(b"ECHO " + t.encode() + b"\n")
        self.pump(lambda: any(l.raw == t.encode() for l in a.lines) or a.closed, limit, what="admin")
        out = [l.raw for l in a.lines]
        a.close()
        if t.encode() in out:
            out = out[:out.index(t.encode())]
        return out

    def nfds(self):
        return len(os.listdir("/proc/%d/fd" % self.proc.pid))

    def stop(self, sig=signal.SIGTERM, limit=30):
        """Ask the proxy to exit; abnormal endings raise ProxyDied."""
        if self.proc is None:
            return
        self.check_alive()
        self.expect_exit = True
        self.proc.send_signal(sig)
        t0 = time.time()
        while self.proc.poll() is None:
            try:
                self.pump(lambda: self.proc.poll() is not None, limit=1)
            except Hang:
                pass
            if time.time() - t0 > limit:
                self.proc.kill()
                self.proc.wait()
                raise Hang("exit")
        rc = self.proc.returncode
        if rc not in (0, -sig):
            txt = self.stderr()
            raise ProxyDied("shutdown:" + crash_key(txt, rc), txt[-12000:])

    def kill(self):
        if self.proc is not None and self.proc.poll() is None:
            self.proc.kill()
            self.proc.wait()

    def close(self):
        self.kill()
        if getattr(self, "errf", None):
            self.errf.close()
        for c in list(self.conns.values()):
            c.close()
        for s in list(self.listeners.values()):
            s.close()
        if self.vctl:
            self.vctl.close()
        if not self.keep:
            shutil.rmtree(self.dir, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
