"""Native replay processes (the same harness entry points, compiled with and without run-time checks)."""
import os
import select
import struct
import subprocess


class Native:
    def __init__(self, path):
        self.path = path
        self.p = None

    def start(self):
        self.p = subprocess.Popen([self.path], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, bufsize=1)

    def ask(self, line, timeout=20):
        """answer line; 'crash' when the process dies, 'hang' when it does not answer"""
        if self.p is None or self.p.poll() is not None:
            self.start()
        try:
            self.p.stdin.write(line + "\n")
            self.p.stdin.flush()
            r, _, _ = select.select([self.p.stdout], [], [], timeout)
            if not r:
                self.p.kill()
                self.p.wait()
                self.p = None
                return "hang"
            a = self.p.stdout.readline()
        except BrokenPipeError:
            a = ""
        if not a:
            self.p.wait()
            self.p = None
            return "crash"
        return a.strip()

    def close(self):
        if self.p is not None:
            self.p.stdin.close()
            self.p.kill()
            self.p.wait()
            self.p = None


def enc(units, intg, frac, neg):
    return "d:" + (struct.pack("<9i", *units) + bytes([intg | (128 if neg else 0), frac, 0, 0])).hex()


def dec(h):
    b = bytes.fromhex(h)
    u = list(struct.unpack("<9i", b[:36]))
    return u, b[36] & 127, b[37], b[36] >> 7
