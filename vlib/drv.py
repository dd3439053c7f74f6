"""Client of harness/drv.c: the library code in a process of its own, under sanitizers."""
import json, os, shutil, subprocess, tempfile
import build, e2e

_bin = [None]


def prepare():
    _bin[0] = build.build_harness("drv", "asan")


def hx(b):
    return b.hex()


class Drv:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="cpv-drv-")
        self.err = open(os.path.join(self.dir, "stderr"), "w+b")
        env = dict(os.environ)
        env.update(e2e.SAN_ENV)
        env["TZ"] = "UTC"
        env["HOME"] = self.dir
        env.pop("VCTL", None)
        self.p = subprocess.Popen([_bin[0]], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=env, cwd=self.dir)

    def tell(self, *words):
        try:
            self.p.stdin.write((" ".join(words) + "\n").encode())
        except (BrokenPipeError, OSError):
            self.died()

    def ask(self, *words):
        self.tell(*words)
        try:
            self.p.stdin.flush()
        except (BrokenPipeError, OSError):
            self.died()
        l = self.p.stdout.readline()
        if not l:
            self.died()
        try:
            return json.loads(l)
        except ValueError:
            self.p.kill()
            self.died()

    def died(self):
        try:
            rc = self.p.wait(20)
        except subprocess.TimeoutExpired:
            self.p.kill()
            rc = self.p.wait()
        self.err.flush()
        with open(os.path.join(self.dir, "stderr"), "rb") as f:
            txt = f.read().decode("utf-8", "replace")
        raise e2e.ProxyDied(e2e.crash_key(txt, rc), txt[-12000:])

    def close(self, check=True):
        """End the driver; leaks and late reports count."""
        try:
            if self.p.poll() is None and check:
                try:
                    self.p.stdin.write(b"quit\n")
                    self.p.stdin.close()
                except (BrokenPipeError, OSError):
                    pass
                if self.p.wait(60) != 0:
                    self.died()
        finally:
            if self.p.poll() is None:
                self.p.kill()
                self.p.wait()
            self.p.stdout.close()
            self.err.close()
            shutil.rmtree(self.dir, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, t, v, tb):
        self.close(check=t is None)


def un(h):
    return None if h is None else bytes.fromhex(h)
