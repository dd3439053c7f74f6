"""Hostile and odd input for everything that listens for users: pre-login bytes, SOCKS, IRC client
lines, administration commands."""
import struct
from hostile import EDGE, MODES, CTCP, b
import gen

CLI_CMDS = ["PRIVMSG", "NOTICE", "JOIN", "PART", "NICK", "MODE", "TOPIC", "NAMES", "WHO", "WHOIS", "WHOWAS", "LIST", "KICK", "INVITE", "AWAY", "ISON", "USERHOST", "MOTD", "LUSERS", "VERSION",
            "STATS", "LINKS", "TIME", "TRACE", "ADMIN", "INFO", "SQUERY", "USER", "PASS", "PING", "PONG", "QUIT", "OPER", "CAP", "NS", "NICKSERV", "CS", "MAP", "CONNECT", "SUMMON", "USERS", "WALLOPS", "SILENCE", "HELP", "", "join", "foo", "001", "353", "ERROR",
            "CTRLPROXY", "KILL", "REHASH", "SERVLIST", "SERVICE"]
SETTINGS = ["admin-log", "admin-user", "auto-away-enable", "auto-away-client-limit", "auto-away-message", "auto-away-nick", "auto-away-time", "autosave", "bind", "default-client-charset", "default-network", "learn-network-name", "learn-nickserv",
            "log_level", "logging", "max_who_age", "motd-file", "report-time", "report-time-offset", "replication", "default-nick", "default-username", "default-fullname", "nosuch", ""]
VALUES = ["true", "false", "TRUE", "0", "1", "-1", "5", "99999999999999999999", "abc", "", "none", "simple", "highlight", "lastdisconnect", "startdate", "always", "never", "replication", "utf-8", "latin1", "bogus-charset", "net", "x y z", ":x", "%s%n", "\xff\xfe",
          "x" * 300, "irssi", "custom", "config", "nofile", "*"]
NETS = ["net", "net", "new1", "new2", "admin", "nosuch", "", "NET", "global", "a:b", "x" * 100, "%s", "[x]", "a]b", "\xff\xfe", ".hid", "til~"]
ADMIN_TOP = ["ADDNETWORK", "DELNETWORK", "LISTNETWORKS", "SET", "UNSET", "ADDSERVER", "BACKLOG", "CONNECT", "DISCONNECT", "ECHO", "NEXTSERVER", "CHARSET", "NETWORK", "SAVECONFIG", "DETACH", "HELP", "DUMPJOINEDCHANNELS", "STARTLISTENER", "STOPLISTENER", "LISTLISTENER", "foo", ""]


class HostileClient:
    def __init__(self, r, me="me", ip="127.0.0.1", forbidden=(), netport=0):
        self.r, self.me, self.ip = r, me, ip
        self.netport = netport

    def arg(self):
        r = self.r
        k = r.random()
        if k < .3:
            return r.choice(["#main", "#c", "#new", "&loc", "#" + gen.nick(r)])
        if k < .5:
            return r.choice(["other", "op", self.me, "NickServ", "ctrladm", "ctrlproxy", gen.nick(r)])
        if k < .6:
            return r.choice(MODES)
        if k < .75:
            return "".join(c for c in r.choice(EDGE))
        if k < .85:
            return "\x01" + r.choice(CTCP) + r.choice(["\x01", ""])
        if k < .9:
            return ",".join(r.choice(["#main", "#c", "other", "", "&x"]) for _ in range(r.randint(1, 4)))
        return r.choice(gen.WORDS).encode("utf-8").decode("latin-1")

    def line(self):
        r = self.r
        k = r.random()
        if k < .06:
            return bytes(r.choice(b"\x00\x01\x03\x04\x05 :!@#\xff\x80abc\x7f\t") for _ in range(r.randint(0, 60)))
        s = ""
        if r.random() < .08:
            s = ":" + r.choice(["me", "x!y@z", "", " ", "!", "other!u@h"]) + " "
        cmd = r.choice(CLI_CMDS[:24]) if r.random() < .7 else r.choice(CLI_CMDS)
        if cmd == "QUIT" and r.random() < .7:
            cmd = "WHO"
        args = [self.arg() for _ in range(r.choice([0, 1, 1, 2, 2, 2, 3, 4, 8, 20]))]
        for i, a in enumerate(args):
            if i < len(args) - 1:
                args[i] = a.replace(" ", "") or "x"
        if args and r.random() < .7:
            args[-1] = ":" + args[-1]
        s += " ".join([cmd] + args)
        d = b(s).replace(b"\r", b"").replace(b"\n", b"")
        if r.random() < .02:
            d += b" " + b"z" * r.choice([500, 1000, 5000])
        return d

    def admin(self):
        """An administration command that cannot end the proxy, lock the rig out or reach the bystander's network."""
        r = self.r
        c = r.choice(ADMIN_TOP)
        a = []
        if c in ("SET", "UNSET"):
            a = [r.choice(SETTINGS)] if r.random() < .95 else []
            if c == "SET" and r.random() < .8:
                a.append(r.choice(VALUES))
        elif c == "NETWORK":
            a = [r.choice(["list", "add", "del", "info", "rename", "foo", "ADD", "delete", "remove"])]
            a += [r.choice(NETS) for _ in range(r.randint(0, 2))]
            if r.random() < .1:
                a = []
        elif c == "ADDSERVER":
            a = [r.choice(NETS), r.choice(["%s:%d" % (self.ip, self.netport), self.ip + ":1", self.ip, "%s:" % self.ip, ":1", ":", "", "%s:abc" % self.ip]), r.choice(["pw", ""])][:r.randint(0, 3)]
        elif c in ("STARTLISTENER", "STOPLISTENER"):
            a = [r.choice([self.ip + ":0", self.ip + ":7777", self.ip + ":abc", ":", "1.2.3.4:9", "70000", "x", ""]), r.choice(["pw", ""]), r.choice(NETS)][:r.randint(0, 3)]
        elif c == "SAVECONFIG":
            a = [] if r.random() < .7 else [r.choice(["sub", "config", "", "a b"])]
        elif c == "CHARSET":
            a = [r.choice(VALUES)]
        elif c == "BACKLOG":
            a = [r.choice(["#main", "other", "#nosuch", "", "@", ","])][:r.randint(0, 1)]
        elif c == "HELP":
            a = [r.choice(["index", "set", "nosuch", "", "network add"])][:r.randint(0, 1)]
        else:
            a = [r.choice(NETS)][:r.randint(0, 1)]
        if r.random() < .05:
            a.append(r.choice(EDGE).replace("/", "").replace("..", ""))
        s = " ".join([c] + a)
        if r.random() < .1:
            s = s.lower()
        return b(s).replace(b"\r", b"").replace(b"\n", b"")

    def prelogin(self):
        """Bytes for a fresh connection that never presents the right password."""
        r = self.r
        k = r.random()
        if k < .2:
            return bytes(r.randrange(256) for _ in range(r.randint(0, 80)))
        if k < .5:
            out = b""
            for _ in range(r.randint(0, 6)):
                out += r.choice([b"PASS", b"PASS wrong", b"PASS :", b"PASS : : :", b"PASS wrong:net", b"PASS Secret:net", b"PASS secre", b"PASS secretx:net", b"NICK", b"NICK x", b"USER", b"USER a b c d", b"CONNECT net", b"CONNECT", b"QUIT", b"",
                                 b"CTRLPROXY SET", b"PRIVMSG #main :hi", b":x PASS wrong", b": ", b":", b"\x00", b"PASS \x00secret", b"PASS " + b"y" * 3000]) + r.choice([b"\r\n", b"\n", b"\r", b"\r\n\r\n"])
            if r.random() < .3:
                out += self.line()
            return out
        # SOCKS
        out = b"\x05"
        n = r.choice([0, 1, 2, 3, 127, 128, 200, 255])
        methods = bytes(r.choice([0, 1, 2, 3, 0x80, 0xff]) for _ in range(n)) if r.random() < .5 else (b"\x02" * n)
        out += bytes([n]) + methods[:r.choice([n, n, n, max(0, n - 1)])]
        if r.random() < .8:
            u = r.choice([b"", b"user", b"u" * 255, b"u" * 128, b"\x00\xff", b"net"])
            p = r.choice([b"", b"wrong", b"p" * 255, b"p" * 128, b"\x00"])
            out += bytes([r.choice([1, 5, 0, 255])]) + bytes([len(u)]) + u + bytes([len(p)]) + p
        out += self.socks_request()
        if r.random() < .2:
            out = out[:r.randint(0, len(out))]
        return out

    def socks_request(self, host=None):
        r = self.r
        h = host or r.choice([b"net", b"nosuch", b"", b"h" * 255, b"h" * 128, b"\x00", b"127.0.0.1"])
        kind = r.choice([1, 3, 3, 3, 4, 0, 2, 255]) if host is None else 3
        body = {1: b"\x7f\0\0\1", 4: b"\0" * 16}.get(kind, bytes([len(h)]) + h)
        return bytes([5 if host or r.random() < .9 else r.randrange(256), 1 if host else r.choice([1, 1, 1, 2, 3, 0, 255]), 0, kind]) + body + struct.pack(">H", r.choice([6667, 0, 65535, 1]))

    def socks_login(self, pw=b"secret", host=b"net"):
        """A correct SOCKS login to a network."""
        return b"\x05\x01\x02" + b"\x01\x04user" + bytes([len(pw)]) + pw + self.socks_request(host)
