"""Talks to the conformance driver; turns crashes and hangs into observable outcomes."""
import json, os, select, shutil, signal, subprocess, tempfile, time
from . import build as B


ZONES = {"UTC": "UTC0", "CET": "CET-1CEST,M3.5.0,M10.5.0/3", "IST": "IST-5:30", "EST": "EST5", "NPT": "NPT-5:45",
         "ADL": "ACST-9:30ACDT,M10.1.0,M4.1.0/3", "NFL": "NST3:30NDT,M3.2.0,M11.1.0"}


class DriverError(Exception):
    """The harness (not the library) misbehaved."""


class Driver:
    def __init__(self, flavour="plain", tz="CET", timeout=60, mem_mb=None, exe=None, uid=None, cwd=None, locale=""):
        self.exe = exe or B.build(flavour)
        self.flavour, self.tz, self.timeout, self.mem_mb, self.uid, self.cwd, self.locale = flavour, tz, timeout, mem_mb, uid, cwd, locale
        self.p = None
        self.n = 0
        self.crashes = 0

    def start(self):
        env = dict(os.environ, TZ=ZONES[self.tz], LANG="C.UTF-8", LC_ALL="C.UTF-8", KP_LOCALE=self.locale,
                   ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0:"
                                "max_allocation_size_mb=4096:detect_stack_use_after_return=0",
                   TSAN_OPTIONS="halt_on_error=1:exitcode=66:ignore_noninstrumented_modules=0:report_thread_leaks=0")
        self.err = tempfile.TemporaryFile()

        def pre():
            import resource
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if self.mem_mb:
                resource.setrlimit(resource.RLIMIT_AS, (self.mem_mb << 20, self.mem_mb << 20))
            if self.uid:
                os.setgid(self.uid)
                os.setuid(self.uid)
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=self.err, env=env, preexec_fn=pre, cwd=self.cwd)
        self.buf = b""

    def stop(self):
        if self.p:
            try:
                self.p.kill()
            except OSError:
                pass
            self.p.wait()
            self.p.stdin.close()
            self.p.stdout.close()
            self.err.close()
            self.p = None

    def _stderr(self):
        self.err.seek(0)
        return self.err.read().decode("utf-8", "replace")[-1500:]

    def raw(self, cmd, timeout=None):
        """Result dict; {"crash":...} or {"hang":...} if the process died or did not answer."""
        if self.p is None:
            self.start()
        timeout = timeout or self.timeout
        data = (json.dumps(cmd) + "\n").encode()
        deadline = time.time() + timeout
        fd_in, fd_out = self.p.stdin.fileno(), self.p.stdout.fileno()
        os.set_blocking(fd_in, False)
        os.set_blocking(fd_out, False)
        sent = 0
        dead = False
        while b"\n" not in self.buf:
            left = deadline - time.time()
            if left <= 0:
                self.p.kill()
                self.p.wait()
                self.crashes += 1
                err = self._stderr()
                self.stop()
                return {"hang": "true", "stderr": err}
            r, w, _ = select.select([fd_out], [fd_in] if sent < len(data) else [], [], left)
            if w:
                try:
                    sent += os.write(fd_in, data[sent:sent + 65536])
                except BlockingIOError:
                    pass
                except BrokenPipeError:
                    dead = True
            if r:
                try:
                    b = os.read(fd_out, 1 << 20)
                except BlockingIOError:
                    b = None
                if b == b"":
                    dead = True
                elif b:
                    self.buf += b
            if dead and b"\n" not in self.buf:
                rc = self.p.wait()
                self.crashes += 1
                err = self._stderr()
                self.stop()
                return {"crash": "signal %d" % -rc if rc < 0 else "exit %d" % rc, "stderr": err}
        line, self.buf = self.buf.split(b"\n", 1)
        self.n += 1
        return json.loads(line)

    def __call__(self, c, timeout=None, **kw):
        kw["c"] = c
        r = self.raw(kw, timeout)
        if "driver_error" in r:
            raise DriverError(r["driver_error"] + " on " + json.dumps(kw)[:300])
        if "crash" in r or "hang" in r:
            r.setdefault("out", "crash" if "crash" in r else "hang")
        return r
