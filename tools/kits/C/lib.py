# Helpers: starts the proxy, plays client and server over loopback sockets.
import os, socket, ssl, subprocess, sys, time
kit = os.path.dirname(os.path.abspath(__file__))
def port():
    s = socket.socket(); s.bind(("127.0.0.1", 0)); p = s.getsockname()[1]; s.close(); return p
class Proxy:
    """A running proxy. `tls_server`: the proxy has to connect with TLS."""
    def __init__(self, tls_server=False, nofile=None):
        self.listen = socket.socket(); self.listen.bind(("127.0.0.1", 0)); self.listen.listen(50); self.listen.settimeout(20)
        self.port = port()
        enc = "Tls" if tls_server else "Insecure"
        with open(os.path.join(kit, "config.toml"), "w") as f:
            f.write(f'''[[services]]
name = "demo"
bind = {{ encryption = "Insecure", host = "127.0.0.1", port = {self.port} }}
connect = {{ encryption = "{enc}", host = "localhost", port = {self.listen.getsockname()[1]} }}
''')
        cmd = [os.path.join(kit, "target/debug/proxy")]
        if nofile: cmd = ["bash", "-c", f"ulimit -n {nofile}; exec {cmd[0]}"]
        self.p = subprocess.Popen(cmd, cwd=kit, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        for _ in range(200):
            try:
                c = socket.create_connection(("127.0.0.1", self.port), 20); break
            except OSError: time.sleep(0.05)
        else: sys.exit("proxy did not start")
        self.first = c
    def client(self):
        if self.first: c, self.first = self.first, None
        else: c = socket.create_connection(("127.0.0.1", self.port), 20)
        c.settimeout(15); return c
    def server(self):
        s, _ = self.listen.accept(); s.settimeout(15); return s
    def session(self, greeting=b"* OK hello\r\n"):
        c = self.client(); s = self.server(); s.sendall(greeting)
        return c, s, line(c)
    def stop(self): self.p.kill(); self.p.wait()
def line(s):
    o = b""
    try:
        while not o.endswith(b"\n"):
            b = s.recv(1)
            if not b: break
            o += b
    except (socket.timeout, ConnectionError): o += b"<nothing more>"
    return o
def take(s, n):
    o = b""
    try:
        while len(o) < n:
            b = s.recv(n - len(o))
            if not b: break
            o += b
    except (socket.timeout, ConnectionError): o += b"<nothing more>"
    return o
def check(ok, what):
    if not ok: print("FAIL:", what); sys.exit(1)
