# Helper of the demonstrations: runs the built program against scripted clients and upstream servers on loopback.
import os, socket, struct, subprocess, sys, tempfile, time, shutil, threading
BIN = os.path.join(os.getcwd(), "_build", "dnsforwarder")
def name(n): return b"".join(bytes([len(l)]) + l.encode() for l in n.split(".") if l) + b"\0"
OPT = b"\0\0\x29\x05\0\0\0\0\0\0\0"
def query(i, n, t=1, edns=False): return struct.pack(">6H", i, 0x100, 1, 0, 0, 1 if edns else 0) + name(n) + struct.pack(">2H", t, 1) + (OPT if edns else b"")
def rr(n, t, data, ttl=300): return name(n) + struct.pack(">2HIH", t, 1, ttl, len(data)) + data
def a(n, ip, ttl=300): return rr(n, 1, socket.inet_aton(ip), ttl)
def aaaa(n, ip, ttl=300): return rr(n, 28, socket.inet_pton(socket.AF_INET6, ip), ttl)
def cname(n, to, ttl=300): return rr(n, 5, name(to), ttl)
def qend(q):
    p = 12
    while q[p]: p += q[p] + 1
    return p + 5
def answer(q, rrs, rcode=0, opt=False): return q[:2] + struct.pack(">5H", 0x8180 | rcode, 1, len(rrs), 0, 1 if opt else 0) + q[12:qend(q)] + b"".join(rrs) + (OPT if opt else b"")
def qname(m):
    p = 12; r = []
    while m[p]: r.append(m[p+1:p+1+m[p]].decode("latin1")); p += m[p] + 1
    return ".".join(r)
def rdname(m, p):
    r = []; end = None
    while m[p]:
        if m[p] >= 0xC0:
            if end is None: end = p + 2
            p = ((m[p] & 63) << 8) | m[p+1]; continue
        r.append(m[p+1:p+1+m[p]].decode("latin1")); p += m[p] + 1
    return ".".join(r), (end if end is not None else p + 1)
def records(m):  # [(section,name,type,ttl,data)]
    qd, an, ns, ar = struct.unpack(">4H", m[4:12]); p = 12
    for _ in range(qd): _, p = rdname(m, p); p += 4
    out = []
    for sec, c in (("an", an), ("ns", ns), ("ar", ar)):
        for _ in range(c):
            n, p = rdname(m, p); t, k, ttl, ln = struct.unpack(">2HIH", m[p:p+10]); p += 10
            d = m[p:p+ln]
            if t in (2, 5, 12): d = rdname(m, p)[0]
            elif t == 1: d = socket.inet_ntoa(d)
            elif t == 28: d = socket.inet_ntop(socket.AF_INET6, d)
            out.append((sec, n, t, ttl, d)); p += ln
    return out
class UDP:
    def __init__(s, addr=("127.0.0.1", 0)):
        s.s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM); s.s.bind(addr); s.addr = s.s.getsockname()
    def recv(s, t=2.0):
        s.s.settimeout(t)
        try: return s.s.recvfrom(65535)
        except socket.timeout: return None
    def send(s, d, to): s.s.sendto(d, to)
class Forwarder:
    def __init__(s, conf, args=(), files=(), env=None, dir=None):
        s.own = dir is None; s.dir = dir or tempfile.mkdtemp(prefix="dfdemo"); s.port = free_port(); s.addr = ("127.0.0.1", s.port)
        for n, c in files: open(os.path.join(s.dir, n), "w").write(c)
        cf = os.path.join(s.dir, "conf"); open(cf, "w").write("LogOn false\nUDPLocal 127.0.0.1:%d\nTCPLocal 127.0.0.1:%d\n" % (s.port, s.port) + conf.replace("$DIR", s.dir))
        e = dict(os.environ, HOME=s.dir); e.update(env or {})
        s.p = subprocess.Popen([BIN, "-f", cf] + list(args), cwd=s.dir, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL)
        time.sleep(1.5)
    def alive(s): return s.p.poll() is None
    def stop(s, sig=9):
        if s.p.poll() is None: s.p.send_signal(sig)
        try: s.p.wait(10)
        except Exception: s.p.kill(); s.p.wait()
        if s.own: shutil.rmtree(s.dir, True)
def free_port():
    while True:
        u = socket.socket(socket.AF_INET, socket.SOCK_DGRAM); u.bind(("127.0.0.1", 0)); p = u.getsockname()[1]
        t = socket.socket()
        try: t.bind(("127.0.0.1", p)); return p
        except OSError: pass
        finally: u.close(); t.close()
def check(c, msg):
    if not c: print("FAILED:", msg); raise SystemExit(1)
