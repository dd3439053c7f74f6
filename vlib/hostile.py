"""Hostile and odd protocol input, for both directions (bytes)."""
import gen

SRV_CMDS = ["PRIVMSG", "NOTICE", "JOIN", "PART", "QUIT", "NICK", "KICK", "MODE", "TOPIC", "INVITE", "PING", "PONG", "ERROR", "KILL",
            "WALLOPS", "AWAY", "CAP", "AUTHENTICATE", "ACCOUNT", "SQUIT", "RELAYMSG", "FOO", "", "privmsg", "join"]
NUMERICS = ["001", "002", "003", "004", "005", "010", "042", "200", "219", "221", "242", "251", "252", "253", "254", "255", "256", "263", "265", "301",
            "302", "303", "305", "306", "307", "311", "312", "313", "314", "315", "317", "318", "319", "321", "322", "323", "324", "325", "329",
            "330", "331", "332", "333", "341", "346", "347", "348", "349", "351", "352", "353", "354", "364", "365", "366", "367", "368", "369",
            "371", "372", "374", "375", "376", "378", "381", "382", "391", "396", "401", "402", "403", "404", "405", "406", "407", "409", "411", "412",
            "421", "422", "431", "432", "433", "436", "437", "441", "442", "443", "451", "461", "462", "464", "465", "471", "472", "473", "474", "475", "477",
            "478", "481", "482", "483", "484", "491", "501", "502", "671", "716", "728", "729", "730", "900", "903", "904", "972", "999", "000", "1000", "-1", "00", "5", "0353"]
ISUPPORT = ["CHANTYPES=#&", "CHANTYPES=", "CHANTYPES", "PREFIX=(ov)@+", "PREFIX=(qaohv)~&@%+", "PREFIX=", "PREFIX", "PREFIX=(ov", "PREFIX=(ov)@", "PREFIX=(o)@+", "PREFIX=ov@+",
            "PREFIX=()", "PREFIX=(", "CHANMODES=b,k,l,imnpst", "CHANMODES=b,k", "CHANMODES=", "CHANMODES", "CHANMODES=,,,", "CHANMODES=beI,k,l,imnpstaqr,x,y", "CASEMAPPING=rfc1459",
            "CASEMAPPING=ascii", "CASEMAPPING=strict-rfc1459", "CASEMAPPING=unknown", "CASEMAPPING", "CASEMAPPING=", "NETWORK=Foo", "NETWORK", "NETWORK=", "NETWORK=../../x", "NETWORK=a/b", "NETWORK=..", "CHARSET=utf-8", "CHARSET=latin1", "CHARSET=bogus", "CHARSET",
            "NICKLEN=9", "NICKLEN", "NICKLEN=abc", "NICKLEN=-1", "NICKLEN=99999999999999", "CHANLIMIT=#&:20,+:3", "CHANLIMIT=#", "CHANLIMIT", "CHANLIMIT=:", "MAXLIST=b:60,e:60", "MAXLIST=b", "MAXLIST",
            "MAXCHANNELS=10", "MAXCHANNELS", "MODES=4", "MODES", "MODES=", "TOPICLEN=80", "TOPICLEN", "AWAYLEN=10", "KICKLEN", "CHANNELLEN=50", "CHANNELLEN", "STATUSMSG=@+", "STATUSMSG", "EXCEPTS", "EXCEPTS=e", "EXCEPTS=", "INVEX", "INVEX=I",
            "WALLCHOPS", "WALLVOICES", "SAFELIST", "FNC", "ELIST=MU", "ELIST", "TARGMAX=PRIVMSG:4,NOTICE:", "TARGMAX", "MAXTARGETS=4", "MAXTARGETS", "IDCHAN=!:5", "IDCHAN", "STD=rfc2812", "STD", "SILENCE=15", "SILENCE",
            "RFC2812", "PENALTY", "CPRIVMSG", "CNOTICE", "VCHANS", "WATCH=128", "WATCH", "WHOX", "CALLERID", "CALLERID=g", "USERIP", "NAMESX", "UHNAMES", "KEYLEN=23", "KEYLEN", "HCN", "MONITOR=100", "EXTBAN=~,cqnr", "EXTBAN", "EXTBAN=,", "EXTBAN=~",
            "LANGUAGE=2,en,i-klingon", "LANGUAGE", "REMOVE", "ACCEPT=20", "CMDS=KNOCK,MAP", "CMDS", "-CHANTYPES", "-PREFIX", "-CASEMAPPING", "-NETWORK", "-FOO", "-", "=", "=x", "X=", "%s%s%n=%n", "METADATA", "SSL=1.2.3.4:6697", "MAXBANS", "MAXBANS=5", "USERLEN=9", "HOSTLEN=9", "MAXNICKLEN=3", "MAXPARA=32", "NOQUIT", "ESILENCE", "KNOCK", "OVERRIDE", "DCCALLOW", "MAP", "SSL", "MAXPARA", "HOSTLEN", "IRCD", "IRCD=x", "CHIDLEN=5", "CHIDLEN", "TOPICLEN=", "AWAYLEN"]
CTCP = ["VERSION", "PING", "PING 123", "TIME", "FINGER", "SOURCE", "CLIENTINFO", "CLIENTINFO PING", "CLIENTINFO FOO", "USERINFO", "DCC SEND a 1 2 3", "DCC", "DCC CHAT chat 1 2", "ACTION", "ACTION x", "", " ", "FOO", "\x01", "version", "PING " + "9" * 300]
MODES = ["+o", "-o", "+v", "+ov", "+b", "-b", "+k", "-k", "+l", "-l", "+imnst", "-imnst", "+", "-", "", "o", "+ooo", "+kl", "-kl", "+x", "+\xff", "+b-b+b", "++--", "+e", "+I", "+q", "+ovh", "+kkk", "+lll", "%", "+bk-l", "+\x01", "+ol", "+oooooooooooooooooooooooooooooooo"]
EDGE = ["", " ", ":", "*", "0", "-1", "99999999999999999999", "@", "+", "#", "&", "!", "@+", "~&@%+", ",", ",,", "\x01", "\x01\x01", "\x01 \x01", "%s%n%d", "%", "=", "@@#c", "/", "..", "../..", "a/../../b", "\x7f", "\xff\xfe", "\x03", "*!*@*", "$", "\\", "x" * 60, "y" * 450]


def b(s):
    return s.encode("latin-1", "replace") if isinstance(s, str) else s


class Hostile:
    def __init__(self, r, me="me", chans=("#main", "#c"), nicks=("other", "op", "friend")):
        self.r = r
        self.me = me
        self.chans = list(chans)
        self.nicks = list(nicks)

    def name(self):
        r = self.r
        k = r.random()
        if k < 0.3:
            return r.choice(self.nicks)
        if k < 0.45:
            return self.me
        if k < 0.7:
            return r.choice(self.chans)
        if k < 0.8:
            return r.choice(["@", "+", "%", "~", "&", "@+", "!"]) + r.choice(self.nicks + [self.me] + self.chans)
        if k < 0.9:
            return gen.nick(r)
        return r.choice(EDGE)

    def names(self):
        r = self.r
        return r.choice([" ", ",", "  "]).join(self.name() for _ in range(r.randint(0, 6)))

    def arg(self):
        r = self.r
        k = r.random()
        if k < 0.5:
            return self.name()
        if k < 0.6:
            return r.choice(MODES)
        if k < 0.68:
            return r.choice(EDGE)
        if k < 0.76:
            return self.names()
        if k < 0.84:
            return "\x01" + r.choice(CTCP) + r.choice(["\x01", "\x01", ""])
        if k < 0.9:
            return gen.hostmask(r)
        if k < 0.95:
            return str(r.choice([0, 1, -1, 5, 1234567890, 2**31, 2**63]))
        return r.choice(gen.WORDS).encode("utf-8").decode("latin-1")

    def origin(self):
        r = self.r
        k = r.random()
        if k < 0.35:
            return r.choice(self.nicks) + "!u@h"
        if k < 0.5:
            return self.me + "!user@real.host"
        if k < 0.62:
            return "irc.test"
        if k < 0.72:
            return None
        return r.choice(["", "!", "@", "!@", "a!", "a@", "!b@c", "@h", "a!b", "a@b!c", self.me, self.me + "!", self.me + "@x", "other", "#main", "@op!u@h", "+v!u@h", "x" * 80 + "!u@h", "\xff!\xfe@\xfd", "*", "a!b@c!d@e", "NickServ!s@s", "me!u@h "])

    def fmt(self, origin, args):
        r = self.r
        s = ""
        if origin is not None:
            s = ":" + origin + r.choice([" "] * 12 + ["  ", "\t", ""])
        if args:
            mid = args[:-1]
            last = args[-1]
            s += r.choice([" "] * 20 + ["  "]).join(mid + [""]) if mid else ""
            if len(args) > 1 and (r.random() < 0.6 or " " in last or last == ""):
                s += ":" + last
            else:
                s += last
        return s

    def server_line(self):
        r = self.r
        k = r.random()
        if k < 0.05:
            return self.garbage()
        if k < 0.16:
            feats = [r.choice(ISUPPORT) for _ in range(r.randint(0, 13))]
            return b(self.fmt("irc.test", ["005", self.me] + feats + (["are supported by this server"] if r.random() < .8 else [])))
        if k < 0.22:
            return b(self.fmt(self.origin(), ["PRIVMSG", self.name(), "\x01" + r.choice(CTCP) + r.choice(["\x01", "\x01", "", " \x01x"])]))
        if k < 0.26:
            return b(self.fmt(self.origin(), ["NOTICE", self.name(), "\x01" + r.choice(CTCP) + r.choice(["\x01", ""])]))
        if k < 0.34:
            return b(self.fmt(self.origin(), ["MODE", self.name()] + [r.choice(MODES)] * (r.random() < .9) + [self.arg() for _ in range(r.randint(0, 4))]))
        if k < 0.40:
            return b(self.fmt("irc.test", ["353", self.me, r.choice(["=", "@", "*", "", "x"]), r.choice(self.chans + [self.name()]), self.names()][:r.choice([5, 5, 5, 4, 3, 2, 1])]))
        if k < 0.44:
            return b(self.fmt("irc.test", ["352", self.me, r.choice(self.chans), "u", "h", "s", r.choice(self.nicks + [self.me]), r.choice(["H", "G@", "H*", ""]), r.choice(["0 real", "real", "", "0"])][:r.choice([9, 9, 9, 8, 7, 6, 5, 4, 3, 2])]))
        if k < 0.48:
            who = r.choice(self.nicks + [self.me])
            return b(self.fmt(who + "!u@h", [r.choice(["JOIN", "PART", "QUIT", "NICK"]), self.name()]))
        if k < 0.51:
            return b(self.fmt(self.me + "!u@h", [r.choice(["JOIN", "JOIN", "PART", "NICK"]), r.choice(self.chans + [self.name()])]))
        if k < 0.54:
            return b(self.fmt("irc.test", [r.choice(["311", "314", "302", "301", "367", "324", "332", "331", "333", "366", "329", "433", "221", "004", "001", "376", "422"]), self.me] + [self.arg() for _ in range(r.randint(0, 5))]))
        if k < 0.555:
            return b(self.fmt("NickServ!s@s", ["NOTICE", self.me, r.choice(["This nickname is registered", "Password accepted", "x", ""])]))
        cmd = r.choice(SRV_CMDS) if r.random() < 0.55 else r.choice(NUMERICS)
        args = [cmd]
        if cmd[:1].isdigit() and r.random() < 0.7:
            args.append(self.me)
        args += [self.arg() for _ in range(r.choice([0, 0, 1, 1, 2, 2, 3, 4, 5, 8]))]
        return b(self.fmt(self.origin(), args))

    def garbage(self):
        r = self.r
        k = r.random()
        if k < 0.2:
            return bytes(r.choice([0x20, 0x3a, 0x01, 0xff, 0x41, 0x09, 0x21, 0x40]) for _ in range(r.randint(0, 30)))
        if k < 0.4:
            return bytes(r.randint(1, 255) for _ in range(r.randint(1, 200))).replace(b"\n", b"n")
        if k < 0.5:
            return b"A" * r.choice([510, 511, 512, 513, 600, 1023, 1024, 1025, 2000, 5000])
        if k < 0.6:
            return b":" + b"o" * 300 + b" PRIVMSG me :" + b"z" * r.choice([200, 600, 3000])
        if k < 0.7:
            return b" ".join(b"a%d" % i for i in range(r.choice([14, 15, 16, 17, 64, 130, 300, 600])))
        if k < 0.8:
            return b"PRIVMSG me :a\0b" + bytes([r.randint(0, 255)])
        if k < 0.9:
            return b"\r" * r.randint(1, 3) + b"PRIVMSG\rme :x"
        return r.choice([b"", b" ", b":", b": ", b":a", b":a ", b": :", b"::", b"  :", b":a  b", b" PRIVMSG me :x", b"\t"])
