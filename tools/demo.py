"""Helper of the demonstrations: a scripted server on the loopback interface and a way to run the tool."""
import os, re, socket, subprocess, sys, tempfile, threading, time, shutil

BIN = os.path.join(os.getcwd(), "target/debug/basjoofan")
TMP = tempfile.mkdtemp(prefix="demo")


class Server:
    """answer(request bytes, n) -> bytes, or a list of items: bytes to send, numbers to sleep."""

    def __init__(self, answer=None, host="127.0.0.1", wrap=None, handle=None, port=0, accept=True, idle=0.15):
        self.sock = socket.socket(socket.AF_INET6 if ":" in host else socket.AF_INET)
        self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.sock.bind((host, port))
        self.sock.listen(64)
        self.port = self.sock.getsockname()[1]
        self.answer, self.wrap, self.handle, self.idle = answer, wrap, handle, idle
        self.seen, self.lock = [], threading.Lock()
        if accept:
            threading.Thread(target=self.loop, daemon=True).start()

    def loop(self):
        while True:
            c, _ = self.sock.accept()
            threading.Thread(target=self.serve, args=(c,), daemon=True).start()

    def serve(self, c):
        try:
            if self.handle:
                return self.handle(c)
            if self.wrap:
                c = self.wrap(c)
            data = read_request(c, self.idle)
            with self.lock:
                n = len(self.seen)
                self.seen.append(data)
            out = self.answer(data, n) if self.answer else ok("d")
            for item in out if isinstance(out, list) else [out]:
                if isinstance(item, (int, float)):
                    time.sleep(item)
                else:
                    c.sendall(item)
        except OSError:
            pass
        finally:
            try:
                c.close()
            except OSError:
                pass

    def targets(self):
        with self.lock:
            return [d.split(b" ")[1].decode() for d in self.seen if b" " in d]


def read_request(c, idle=0.15):
    data = b""
    c.settimeout(5)
    while b"\r\n\r\n" not in data:
        d = c.recv(65536)
        if not d:
            return data
        data += d
    if data.startswith(b"GET"):
        return data
    c.settimeout(idle)
    try:
        while True:
            d = c.recv(65536)
            if not d:
                break
            data += d
    except (TimeoutError, socket.timeout):
        pass
    c.settimeout(5)
    return data


def ok(body, status=200, headers=""):
    if isinstance(body, str):
        body = body.encode()
    return f"HTTP/1.1 {status} OK\r\n{headers}\r\n".encode() + body


def write(name, text):
    p = os.path.join(TMP, name)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "wb") as f:
        f.write(text if isinstance(text, bytes) else text.encode())
    return p


def run(*args, stdin=b"", timeout=30, env=None, cwd=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run([BIN, *args], input=stdin, capture_output=True, timeout=timeout, cwd=cwd or TMP, env=e)
    except subprocess.TimeoutExpired:
        fail(f"{args} did not end")
    return r.returncode, r.stdout.decode("utf-8", "replace"), r.stderr.decode("utf-8", "replace")


def ev(text, **k):
    return run("eval", text, **k)[1]


def test(source, *args, **k):
    p = write("t.fan", source)
    return run("test", *args, "--path", p, **k)


def fail(why):
    print("BROKEN:", why)
    shutil.rmtree(TMP, ignore_errors=True)
    os._exit(1)


def same(got, want, what=""):
    if got != want:
        fail(f"{what}: got {got!r}, want {want!r}")


def check(cond, why=""):
    if not cond:
        fail(why)


def done():
    print("fine")
    shutil.rmtree(TMP, ignore_errors=True)
    sys.stdout.flush()
    os._exit(0)


def records(path):
    """The records of a file, read by the layout of the schema of the tool."""
    d = open(path, "rb").read()
    i = 4

    def num():
        nonlocal i
        z = s = 0
        while True:
            z |= (d[i] & 127) << s
            s += 7
            i += 1
            if not d[i - 1] & 128:
                return z >> 1 ^ -(z & 1)

    def text():
        nonlocal i
        n = num()
        i += n
        return d[i - n : i].decode()

    def array(item):
        out = []
        while True:
            n = num()
            if n == 0:
                return out
            for _ in range(abs(n)):
                out.append(item())

    array(lambda: (text(), text()))
    i += 16
    out = []
    keys = "name thread number order start end total resolve connect write delay read request method url version".split()
    while i < len(d):
        n = num()
        size = num()
        stop = i + size
        for _ in range(n):
            r = {}
            for k in keys:
                r[k] = text() if k in ("name", "request", "method", "url", "version") else num()
            r["headers"] = array(lambda: array(text))
            r["body"] = text()
            r["rversion"], r["status"], r["reason"] = text(), num(), text()
            r["rheaders"] = array(lambda: array(text))
            r["rbody"] = text()

            def one():
                nonlocal i
                a = [text(), text(), text(), text()]
                i += 1
                return a + [d[i - 1] == 1]

            r["asserts"] = array(one)
            r["error"] = text()
            out.append(r)
        if i != stop:
            raise ValueError("block size")
        i += 16
    return out
