"""Client of the C++ drivers: one JSON answer per request; a crash or a hang of the code under test is an answer too."""
import json
import multiprocessing
import os
import resource
import select
import signal
import subprocess


HANGS = multiprocessing.Value('i', 0)      # requests without an answer so far, over all processes of a check


class Driver:
    """A request that is not answered within the time limit counts as a hang. Once some hung, the check is going to fail:
    the limit then gets shorter, and after many the remaining requests are not made, so that the check ends in time."""

    def patience(self):
        return self.timeout if HANGS.value < 4 else min(self.timeout, 2.0) if HANGS.value < 60 else 0

    def __init__(self, exe, timeout=20.0, mem_gb=4):
        self.exe, self.timeout, self.mem = exe, timeout, int(mem_gb * 2 ** 30) if mem_gb else None
        self.p = None
        self.crashes = 0
        self.log = []           # what the process has been asked since it started
        self.needed = []

    def _limits(self):
        if self.mem:
            resource.setrlimit(resource.RLIMIT_AS, (self.mem, self.mem))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

    def start(self):
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                  preexec_fn=self._limits, bufsize=0, env={**os.environ, 'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=1', 'UBSAN_OPTIONS': 'abort_on_error=1'})
        self.buf = b''

    def settle(self, f):
        """f asks and judges; a false value means that all is well. A difference is believed when it comes back: in a fresh
        process, or in a fresh process that was first asked what this one had been asked before (then in self.needed)"""
        before = list(self.log) if self.p else []
        self.needed = []
        x = f()
        if not x:
            return x
        self.stop()
        x = f()
        k = 1
        while not x and before:
            self.stop()
            self.needed = before[-k:]
            for r in self.needed:
                self.ask(*r)
            x = f()
            if k >= len(before):
                break
            k *= 4
        self.stop()
        return x

    def stop(self):
        if self.p:
            try:
                self.p.stdin.close()
            except OSError:
                pass
            try:
                self.p.wait(5)
            except subprocess.TimeoutExpired:
                self.p.kill()
                self.p.wait()
            self.p.stdout.close()
            self.p = None

    @staticmethod
    def enc(a):
        return a if isinstance(a, bytes) else str(a).encode('latin-1')

    def message(self, request):
        cmd, a = request[0], [self.enc(x) for x in request[1:]]
        return (f'{cmd} {len(a)}' + ''.join(f' {len(x)}' for x in a) + '\n').encode() + b''.join(a) + b'\n'

    def ask(self, *request):
        if not self.patience():
            return {'hang': True}
        msg = self.message(request)
        if self.p is None:
            self.log = []
            self.start()
        self.log.append(request)
        try:
            while msg:
                msg = msg[self.p.stdin.write(msg):]
        except (BrokenPipeError, OSError):
            return self._dead()
        fd = self.p.stdout.fileno()
        while b'\n' not in self.buf:
            r, _, _ = select.select([fd], [], [], self.patience() or 2.0)
            if not r:
                with HANGS.get_lock():
                    HANGS.value += 1
                self.p.kill()
                self.p.wait()
                self.p = None
                self.crashes += 1
                return {'hang': True}
            d = os.read(fd, 1 << 20)
            if not d:
                return self._dead()
            self.buf += d
        line, self.buf = self.buf.split(b'\n', 1)
        return json.loads(line)

    def _dead(self):
        rc = self.p.wait()
        self.p = None
        self.crashes += 1
        return {'crash': signal.Signals(-rc).name if rc < 0 else f'exit {rc}'}


class PyDriver(Driver):
    """Client of harness/py_side.py"""

    def __init__(self, argv, timeout=20.0, mem_gb=4):
        super().__init__(argv, timeout, mem_gb)

    def start(self):
        self.p = subprocess.Popen(self.exe, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, preexec_fn=self._limits, bufsize=0)
        self.buf = b''

    def message(self, request):
        return json.dumps(request[0]).encode() + b'\n'
