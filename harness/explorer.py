"""Runs queries on the real explorer client, over explorers on the loopback network that behave as a program prescribes.
The record of what was asked, and of what the client gave, is judged by spec/ExplorerTrace.tla."""
import errno
import json
import os
import random
import signal
import socket
import struct
import sys
import threading
import time
import traceback

from tag import dumps, tag

for v in list(os.environ):
    if v.lower().endswith("_proxy"):
        del os.environ[v]

import tfchain.errors
from tfchain.TFChainClient import NetworkType, TFChainClient
from tfchain.TFChainExplorerClient import TFChainExplorerClient
from tfchain.types import transactions

real_getaddrinfo, real_connect, real_shuffle = socket.getaddrinfo, socket.socket.connect, random.shuffle
world = None            # the explorers of the program that runs


class Hang(Exception):
    pass


def alarm(*a):
    raise Hang("takes too long")


def text(j):
    """The JSON text of a tagged value."""
    k = j[0]
    if k == "o":
        return "{" + ",".join(json.dumps(x) + ":" + text(y) for x, y in (j[1].items() if j[1] else [])) + "}"
    if k == "a":
        return "[" + ",".join(text(x) for x in j[1]) + "]"
    if k in "ix":
        return j[1]
    if k == "b":
        return "true" if j[1] else "false"
    return "null" if k == "n" else json.dumps(j[1])


def body_of(b):
    """What an explorer answers: <<"t", text>>, <<"j", tagged JSON>> or <<"x", hex>>; with a number behind it, cut to that percentage."""
    k, v = b[0], b[1]
    r = v.encode() if k == "t" else text(v).encode() if k == "j" else bytes.fromhex(v)
    return r[:len(r) * b[2] // 100] if len(b) > 2 else r


class Explorer:
    """One explorer: a listening socket, and how to behave."""

    def __init__(self, index, log):
        self.index, self.log, self.behaviour = index, log, None
        self.sock = socket.socket()
        self.sock.bind(("127.0.0.1", 0))
        self.sock.listen(16)
        self.port = self.sock.getsockname()[1]
        self.thread = threading.Thread(target=self.serve, daemon=True)
        self.thread.start()

    def serve(self):
        while True:
            try:
                c, _ = self.sock.accept()
            except OSError:
                return
            try:
                c.settimeout(10)
                self.handle(c)
            except OSError:
                pass
            finally:
                c.close()

    def read(self, c):
        data = b""
        while b"\r\n\r\n" not in data:
            x = c.recv(65536)
            if not x:
                return None
            data += x
        head, body = data.split(b"\r\n\r\n", 1)
        lines = head.decode("latin-1").split("\r\n")
        headers = [l.split(":", 1) for l in lines[1:]]
        headers = [(k.strip().lower(), v.strip()) for k, v in headers]
        named = dict(headers)
        whole = len(named) == len(headers) and len(lines[0].split(" ")) == 3
        if named.get("transfer-encoding", "").lower() == "chunked":
            raw, body = body, b""
            while whole:
                while b"\r\n" not in raw:
                    x = c.recv(65536)
                    if not x:
                        whole = False
                        break
                    raw += x
                if not whole:
                    break
                size, raw = raw.split(b"\r\n", 1)
                n = int(size, 16)
                while len(raw) < n + 2:
                    x = c.recv(65536)
                    if not x:
                        whole = False
                        break
                    raw += x
                body, raw = body + raw[:n], raw[n + 2:]
                if n == 0:
                    break
        else:
            n = int(named.get("content-length", "0"))
            while len(body) < n:
                x = c.recv(65536)
                if not x:
                    whole = False
                    break
                body += x
            whole = whole and len(body) == n
        verb, path, _ = (lines[0].split(" ") + ["", ""])[:3]
        return {"by": self.index + 1, "verb": verb, "path": path, "agent": named.get("user-agent", ""), "type": named.get("content-type", ""),
                "host": named.get("host", "").split(":")[0], "body": body.hex(), "whole": whole}

    def handle(self, c):
        b = self.behaviour
        if b["kind"] == "dropped":
            return
        r = self.read(c)
        if r is None:
            return
        self.log.append(r)
        if b["kind"] == "closed":
            return
        if b["kind"] == "reset":
            c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            return
        if b["kind"] == "garbage":
            c.sendall(bytes.fromhex(b["raw"]))
            return
        self.answer(c, b, r)

    def answer(self, c, b, r):
        body, status, how = bytes.fromhex(b["hex"]), b["status"], b.get("how", "plain")
        if r["path"].endswith("/elsewhere"):
            status, body = 200, b'{"transactionid":"' + b"ab" * 32 + b'"}'
        elif b.get("redirect"):
            c.sendall(("HTTP/1.1 %d Moved\r\nLocation: http://explorer%d.test:%d/elsewhere\r\nContent-Length: 0\r\nConnection: close\r\n\r\n"
                       % (status, self.index + 1, self.port)).encode())
            return
        head = "HTTP/1.1 %d %s\r\nContent-Type: application/json; charset=utf-8\r\nConnection: close\r\n" % (status, "OK" if status == 200 else "Status")
        none = status in (204, 304)
        if b["kind"] == "cut":
            k = len(body) * b["at"] // 100
            if how == "chunked":
                c.sendall((head + "Transfer-Encoding: chunked\r\n\r\n%x\r\n" % (len(body) + 5)).encode() + body[:k])
            else:
                c.sendall((head + "Content-Length: %d\r\n\r\n" % (len(body) + 1 if k == len(body) else len(body))).encode() + body[:k])
            return
        if none:
            c.sendall((head + "\r\n").encode())
        elif how == "chunked":
            n = max(1, len(body) // 3)
            chunks = [body[i:i + n] for i in range(0, len(body), n)]
            c.sendall((head + "Transfer-Encoding: chunked\r\n\r\n").encode() + b"".join(b"%x\r\n%s\r\n" % (len(x), x) for x in chunks) + b"0\r\n\r\n")
        elif how == "close":
            c.sendall(("HTTP/1.0 %d OK\r\nContent-Type: application/json\r\n\r\n" % status).encode() + body)
        elif how == "pieces":
            data = (head + "Content-Length: %d\r\n\r\n" % len(body)).encode() + body
            n = max(1, len(data) // 4)
            for i in range(0, len(data), n):
                c.sendall(data[i:i + n])
                time.sleep(0.002)
        else:
            c.sendall((head + "Content-Length: %d\r\n\r\n" % len(body)).encode() + body)

    def close(self):
        try:
            self.sock.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass
        self.sock.close()
        self.thread.join(5)


def getaddrinfo(host, port, *a, **k):
    h = host.decode() if isinstance(host, bytes) else host
    if world and isinstance(h, str) and h.endswith(".test"):
        n = int(h[len("explorer"):-len(".test")]) - 1
        if world.explorers[n].behaviour["kind"] == "unresolved":
            world.asks.append(n + 1)
            raise socket.gaierror(socket.EAI_NONAME, "Name or service not known")
        return [(socket.AF_INET, socket.SOCK_STREAM, 6, "", ("127.0.0.1", int(port)))]
    return real_getaddrinfo(host, port, *a, **k)


def connect(self, address):
    e = world.by_port.get(address[1]) if world and isinstance(address, tuple) else None
    if e is None:
        return real_connect(self, address)
    world.asks.append(e.index + 1)
    k = e.behaviour["kind"]
    if k == "timeout":
        raise TimeoutError(errno.ETIMEDOUT, "Connection timed out")
    if k == "unroutable":
        raise OSError(errno.EHOSTUNREACH, "No route to host")
    if k == "refused":
        return real_connect(self, ("127.0.0.1", world.closed.getsockname()[1]))
    return real_connect(self, address)


socket.getaddrinfo, socket.socket.connect = getaddrinfo, connect

CLASSES = [("ExplorerNoContent", "none"), ("ExplorerServerPostError", "rejected"), ("ExplorerServerError", "server"),
           ("ExplorerNotAvailable", "unavailable"), ("ExplorerInvalidResponse", "invalid")]


class World:
    def __init__(self, p):
        self.log, self.asks = [], []
        self.explorers = [Explorer(i, self.log) for i in range(p["count"])]
        self.by_port = {e.port: e for e in self.explorers}
        self.closed = socket.socket()          # bound, and never listening
        self.closed.bind(("127.0.0.1", 0))
        self.addresses = ["http://explorer%d.test:%d%s" % (i + 1, e.port, p["base"]) for i, e in enumerate(self.explorers)]
        self.client = TFChainExplorerClient(addresses=list(self.addresses))
        self.chain = TFChainClient(explorer_client=self.client, network_type=NetworkType.STANDARD)

    def close(self):
        for e in self.explorers:
            e.close()
        self.closed.close()

    def query(self, q):
        if q["op"] == "get":
            r = self.client.get(q["endpoint"])
            return {"hex": r.hex() if isinstance(r, (bytes, bytearray)) else "", "type": type(r).__name__}
        if q["op"] == "post":
            d = q["data"]
            data = json.loads(text(d[1])) if d[0] == "dict" else d[1] if d[0] == "text" else d[1].encode()
            r = self.client.post(q["endpoint"], data)
            return {"hex": r.hex() if isinstance(r, (bytes, bytearray)) else "", "type": type(r).__name__}
        if q["op"] == "put":
            raw = text(q["json"])
            d = transactions.from_json(raw)
            d = {"object": lambda: d, "dict": d.json, "text": lambda: json.dumps(d.json()), "bytes": lambda: json.dumps(d.json()).encode()}[q["form"]]()
            r = self.chain.transaction_put(d)
            return {"id": r if isinstance(r, str) else repr(r)}
        if q["op"] == "mint":
            c = self.chain.minter.condition_get(q["height"] if q["height"] >= 0 else None)
            return {"json": tag(c.json())}
        raise ValueError(q["op"])

    def run(self, q):
        for e, b in zip(self.explorers, q["bs"]):
            b = dict(b)
            b["hex"] = body_of(b["body"]).hex() if "body" in b else ""
            e.behaviour = b
        del self.log[:], self.asks[:]
        if q["order"] == "given":
            random.shuffle = lambda x, *a: None
        else:
            random.shuffle = real_shuffle
            random.seed(q["order"])
        signal.alarm(60)
        try:
            res = self.query(q)
            res["k"] = "ok"
        except Exception as x:
            res = {"k": "err", "err": type(x).__name__, "why": str(x)[:160], "class": next((c for n, c in CLASSES if isinstance(x, getattr(tfchain.errors, n))), "other"),
                   "endpoint": str(getattr(x, "endpoint", "")), "of": list(getattr(x, "addresses", [])) == self.addresses}
        finally:
            signal.alarm(0)
            random.shuffle = real_shuffle
        e = dict(q, e="query", res=res, asked=list(self.asks), requests=[dict(r, json=self.parsed(r["body"])) for r in list(self.log)],
                 hexes=[x.behaviour["hex"] for x in self.explorers])
        return e

    def parsed(self, body):
        if not body:
            return ["x", ""]
        try:
            return tag(json.loads(bytes.fromhex(body).decode()))
        except ValueError:
            return ["x", "?"]


def main():
    global world
    signal.signal(signal.SIGALRM, alarm)
    sys.stdout = open(os.devnull, "w")
    progs = json.load(open(sys.argv[1]))
    with open(sys.argv[2], "w") as out:
        out.write("[")
        for n, p in enumerate(progs):
            out.write(",\n" if n else "")
            t = {"id": p["id"], "events": []}
            world = World(p)
            try:
                for q in p["cases"]:
                    t["events"].append(dict(world.run(q), base=p["base"]))
            except Exception:
                t["crash"] = traceback.format_exc()[-2000:]
            finally:
                world.close()
                world = None
            out.write(dumps(t))
        out.write("]")


if __name__ == "__main__":
    main()
