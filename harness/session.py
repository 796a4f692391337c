"""Runs programs (lists of abstract steps) against the real wallet in a simulated world, and records the traces.

usage: session.py PROGRAMS.json TRACES.json      (a list of programs in, a list of traces out)
"""
import contextlib
import copy
import io
import json
import random
import re
import signal
import sys
import time
import traceback

import minicodec as mc
from tag import tag, dumps
from world import World, NoContent, Rejected

import tfchain.errors as errors
from tfchain.TFChainClient import NetworkType, TFChainClient
from tfchain.TFChainExplorerClient import TFChainExplorerClient
from tfchain.TFChainWallet import MultiSigWalletBalance, TFChainWallet, WalletBalance, WalletsBalance
from tfchain.types import ConditionTypes
from tfchain.types.ConditionTypes import AtomicSwapSecret, AtomicSwapSecretHash, UnlockHash
from tfchain.types.CryptoTypes import PublicKey
from tfchain.types.ERC20 import ERC20Address
from tfchain.types.PrimitiveTypes import Currency, Hash
from tfchain.types.ThreeBot import BotName
from tfchain.types import transactions

OP_SECONDS = 60
SWAP_SECRETS = [mc.blake(b"secret %d" % i) for i in range(4)]


class Explorer(TFChainExplorerClient):
    """The seam: everything the wallet learns or submits passes here."""

    def __init__(self, world):
        super().__init__(addresses=["http://world"])
        self.world = world

    def get(self, endpoint):
        try:
            return self.world.get(endpoint)
        except NoContent:
            raise errors.ExplorerNoContent("GET: no content available", endpoint)

    def post(self, endpoint, data):
        if isinstance(data, (bytes, bytearray)):
            data = data.decode()
        data = json.loads(data if isinstance(data, str) else json.dumps(data))
        try:
            return self.world.post(endpoint, data)
        except Rejected as e:
            raise errors.ExplorerServerPostError("POST: error (code: 500): {}".format(e), endpoint, data=data)


class Hang(BaseException):
    pass


def _alarm(*_):
    raise Hang()


def word_numbers(text):
    """Positions of the words of a mnemonic in the BIP-39 word list."""
    import mnemonic
    words = mnemonic.Mnemonic("english").wordlist
    return [words.index(w) if w in words else 9999 for w in text.split()]


def dec(n):
    n = int(n)
    return str(n) if n >= 0 else "negative"


def units(c):
    """A reported Currency in the smallest unit, read from its JSON form."""
    return dec(0 if isinstance(c, int) and c == 0 else c.json())


class Session:
    def __init__(self, prog):
        self.rng = random.Random(prog["seed"])
        self.fee = {"std": 10 ** 8, "dev": 10 ** 9}[prog.get("net", "std")]
        self.world = World(self.rng, self.fee)
        self.client = TFChainClient(explorer_client=Explorer(self.world),
                                    network_type=self.network(prog.get("net", "std")))
        self.seeds, self.wallets, self.txs, self.contracts, self.keys = [], [], [], [], {}
        self.objs = {}              # the objects of transactions that the wallet returned
        self.dust = self.rng.choice([0, 1]) * self.rng.randrange(1, 1000)
        self.prog = prog
        self.balances, self.slots = {}, []
        self.asked = []
        for i, w in enumerate(prog["wallets"]):
            self.seeds.append(mc.blake(b"seed %d %d" % (prog["seed"], i)) if not w.get("short") else mc.blake(b"%d %d" % (prog["seed"], i))[:16])
        first = prog.get("mint", ["k", 1, 0])
        self.world.mint(self.cond(first))

    def network(self, net):
        """The network in one of the forms the interface accepts; without any, the explorer knows it."""
        name = {"std": self.rng.choice(["standard", "testnet"]), "dev": "devnet"}[net]
        k = self.rng.randrange(3)
        self.world.network = name
        return name if k == 0 else NetworkType.from_str(name) if k == 1 else None

    # ---- resolving references ----------------------------------------------------------------
    def pair(self, w, i):
        """Texts of key address and public key i of wallet w, computed without the code under test. A wallet with a gap
        holds that many keys between its first one and the others."""
        from ed25519 import SigningKey
        if i > 0 and w <= len(self.seeds):
            i += self.prog["wallets"][w - 1].get("gap", 0)
        if (w, i) not in self.keys:
            seed = self.seeds[w - 1] if w <= len(self.seeds) else mc.blake(b"stranger %d" % w)
            sk = SigningKey(mc.blake(seed + mc.le(i)))
            raw = sk.get_verifying_key().to_bytes()
            self.keys[w, i] = (mc.key_addr(raw), "ed25519:" + raw.hex())
        return self.keys[w, i]

    def key(self, w, i):
        return self.pair(w, i)[0]

    def pub(self, w, i):
        return self.pair(w, i)[1]

    def norm(self, r):
        """Normalised recipient: ["nil"], ["addr", text], ["multi", owners, n] or ["erc20", text]."""
        if r[0] == "nil":
            return ["nil"]
        if r[0] == "k":
            return ["addr", self.key(r[1], r[2])]
        if r[0] == "x":
            return ["addr", mc.addr_text(1, mc.blake(b"foreign %d" % r[1]))]
        if r[0] == "m":
            return ["multi", [self.norm(o if isinstance(o[0], str) else ["k"] + list(o))[1] for o in r[1]], r[2]]
        if r[0] == "e":
            return ["erc20", "0x" + mc.blake(b"erc20 %d" % r[1])[:20].hex()]
        raise ValueError(r)

    def cond(self, r, lock=0):
        n = self.norm(r)
        c = {"type": 0} if n[0] == "nil" else {"type": 1, "data": {"unlockhash": n[1]}} if n[0] == "addr" else \
            {"type": 4, "data": {"unlockhashes": n[1], "minimumsignaturecount": n[2]}}
        return {"type": 3, "data": {"locktime": lock, "condition": c}} if lock else c

    def text(self, r):
        n = self.norm(r)
        return mc.NIL if n[0] == "nil" else mc.multi_addr(n[1], n[2]) if n[0] == "multi" else n[1]

    def recipient(self, n):
        """A normalised recipient in one of the forms the interface accepts."""
        rng = self.rng
        if n[0] in ("nil", "addr", "multi") and rng.random() < 0.1:
            return ConditionTypes.from_json({"type": 0} if n[0] == "nil" else {"type": 1, "data": {"unlockhash": n[1]}} if n[0] == "addr" else
                                            {"type": 4, "data": {"unlockhashes": n[1], "minimumsignaturecount": n[2]}})
        if n[0] == "nil":
            return None
        if n[0] == "addr":
            k = rng.random()
            return n[1] if k < 0.65 else UnlockHash.from_json(n[1]) if k < 0.92 else rng.choice([bytes, bytearray])(bytes.fromhex(n[1]))
        if n[0] == "erc20":
            return n[1]
        owners = [UnlockHash.from_json(o) if rng.random() < 0.3 else o for o in n[1]]
        if n[2] == len(owners) and rng.random() < 0.5:
            return owners
        return (owners, n[2]) if rng.random() < 0.6 else (n[2], owners)

    def lock(self, k):
        """(argument, normalised)"""
        h, t = self.world.height, self.world.time
        if k in (None, "none"):
            return None, ["none"]
        if k[0] == "d":
            n = int(k[1:])
            s = self.rng.choice(["+{}s".format(n), "+ {}m".format(n // 60) if n % 60 == 0 else "+{}s".format(n)])
            return s, ["dur", str(n)]
        v = {"hp": max(1, h - 5), "he": h, "hn": h + 1, "hf": h + 1000, "tp": t - 100, "te": t, "tn": t + 300, "tf": t + 10 ** 7, "t1": t + 1}[k]
        return v, ["abs", str(v)]

    def value(self, v, w=1, src=None):
        """An amount in the smallest unit."""
        if isinstance(v, list):                      # ["top", d]: everything that can be spent, plus d
            return max(0, self.top(w, src) - self.fee + v[1])
        return v * self.fee + (self.dust if v > 0 else 0)

    def held(self, w):
        return [self.key(w, i) for i in range(12)]

    def top(self, w, src):
        who = set(self.text(r) for r in src) if src else set(self.held(w))
        vals = sorted((o["value"] for o in self.world.outs.values() if o["spent"] is None and o["addr"] in who
                       and not self.locked(mc.lock_of(o["cond"]))), reverse=True)
        return sum(vals[:99])

    def locked(self, v):
        return (self.world.height if v < 500000000 else self.world.time) < v

    def amount(self, n):
        """An amount in one of the forms the interface accepts."""
        whole, frac = divmod(n, 10 ** 9)
        text = "{}.{:09d}".format(whole, frac).rstrip("0").rstrip(".") if frac else str(whole) + ".0"
        k = self.rng.randrange(4)
        if k == 0:
            return Currency.from_json(str(n))
        if k == 1:
            return text + self.rng.choice([" TFT", "TFT", " tft"])
        if k == 2 and frac == 0:
            return whole
        return text

    def too_long(self):
        """More data than a transaction can carry, which is counted in bytes."""
        return self.rng.choice([b"x" * 84, b"\0" * 84, bytearray(200), "x" * 84, "\u00e9" * 42, "\u20ac" * 28, "x" * 82 + "\u00e9"])

    def data(self, k):
        """(argument, normalised hex)"""
        if not k:
            return None, ""
        b = self.rng.randbytes(k) if self.rng.random() < 0.5 else bytes(self.rng.choice(b"abc xyz0123") for _ in range(k))
        if self.rng.random() < 0.5:
            try:
                s = b.decode("ascii")
                return s, b.hex()
            except UnicodeDecodeError:
                pass
        return self.rng.choice([bytes, bytearray])(b), b.hex()

    def sources(self, src):
        """(argument, normalised)"""
        if src is None:
            return None, ["any"]
        texts = [self.text(r) for r in src]
        objs = [UnlockHash.from_json(t) if self.rng.random() < 0.4 else t for t in texts]
        return (objs[0] if len(objs) == 1 and self.rng.random() < 0.6 else objs), ["list", texts]

    # ---- recording -----------------------------------------------------------------------------
    def op(self, name, w, args, f):
        """Perform one operation and record what went in, what was submitted, and what came out."""
        self.world.posts = posts = []
        t0 = int(time.time())
        out = io.StringIO()
        val = None
        random.seed(0)              # what must not repeat does not come from here
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(OP_SECONDS)
        try:
            with contextlib.redirect_stdout(out):
                val, res = f()
            res = dict({"k": "ok"}, **res)
        except Hang:
            res = {"k": "err", "err": "Hang"}
        except (NoContent, Rejected) as e:
            raise RuntimeError("world exception escaped") from e
        except Exception as e:
            res = {"k": "err", "err": type(e).__name__, "msg": str(e)[:300].encode("ascii", "replace").decode()}
        finally:
            signal.alarm(0)
        t1 = int(time.time()) + 1
        addrs, last = [], None
        if w:
            try:
                for _ in range(40):
                    addrs = [str(a) for a in self.wallets[w - 1].addresses]
                    if addrs == last:
                        break
                    last = addrs
            except Exception as e:
                addrs = ["error " + type(e).__name__]
        self.world.emit(e="op", op=name, w=w, a=args, posts=copy.deepcopy(posts), res=res, t0=str(t0), t1=str(t1), addrs=addrs)
        return val

    def txres(self, tx, submitted, signed=None):
        i = len(self.txs)
        j = tx.json()
        self.txs.append(json.loads(json.dumps(j)))
        self.objs[i] = tx
        r = {"tx": tag(j), "sub": bool(submitted), "id": "" if tx.id is None else str(tx.id), "n": i,
             "flag": submitted is True or submitted is False}
        if signed is not None:
            r["signed"] = bool(signed)
        return r

    def sendres(self, r):
        return r, self.txres(r.transaction, r.submitted)

    # ---- steps ---------------------------------------------------------------------------------
    def make_wallet(self, w, seed, keys, scan):
        """Create or recover wallet w."""
        form = self.rng.randrange(3)
        args = {"seed": seed.hex(), "keys": max(1, keys), "scan": 3 if scan < 0 else scan, "words": form > 0}

        def f():
            s = bytes(seed) if form == 0 else bytearray(seed)
            if form:
                import mnemonic
                s = mnemonic.Mnemonic("english").to_mnemonic(bytes(seed))
            wl = TFChainWallet(seed=s, key_count=keys, key_scan_count=scan, client=self.client)
            self.place(w, wl)
            return wl, {"addr": str(wl.address), "words": word_numbers(wl.mnemonic), "seedout": bytes(wl.seed).hex()}
        return self.op("wallet", w, args, f)

    def query(self, name, w, args, f):
        """A question that can be asked again later; args tells what is asked then."""
        self.asked.append((name, w, args, f))
        self.op(name, w, args(), f)

    def do_again(self, s):
        if self.asked:
            name, w, args, f = self.asked[-1 - s["i"] % len(self.asked)]
            self.op(name, w, args(), f)

    def run(self):
        self.world.emit(e="net", fee=str(self.fee), owner=self.world.list_owner)
        for i, w in enumerate(self.prog["wallets"]):
            if not w.get("late"):
                self.make_wallet(i + 1, self.seeds[i], w.get("keys", 1) + w.get("gap", 0), w.get("scan", -1))
        for s in self.prog["steps"]:
            getattr(self, "do_" + s["a"])(s)
        self.do_botall({})
        return {"id": self.prog["id"], "events": self.world.events}

    def do_wallet(self, s):
        self.make_wallet(s["w"], self.seeds[s["w"] - 1], s.get("keys", 1), s.get("scan", -1))

    def do_fresh(self, s):
        """A wallet with a seed of its own."""
        w, made = s["w"], []
        args = {"seed": "", "keys": s["keys"], "scan": 3, "words": False}

        def f():
            wl = TFChainWallet(key_count=s["keys"], client=self.client)
            args["seed"] = bytes(wl.seed).hex()
            self.seeds[w - 1] = bytes(wl.seed)
            self.keys = {k: v for k, v in self.keys.items() if k[0] != w}
            self.place(w, wl)
            return wl, {"addr": str(wl.address), "words": word_numbers(wl.mnemonic), "seedout": bytes(wl.seed).hex()}
        self.op("wallet", w, args, f)

    def do_words(self, s):
        """Words that may not be those of any seed."""
        import mnemonic
        m = mnemonic.Mnemonic("english")
        words = m.to_mnemonic(self.seeds[s["w"] - 1]).split()
        i = s["i"] % len(words)
        if s["word"] < 2048:
            words[i] = m.wordlist[s["word"]]
        elif s["word"] == 2048:
            words[i] = "zzzz"
        else:
            del words[i]
        text = " ".join(words)

        def f():
            wl = TFChainWallet(seed=text, client=self.client)
            return wl, {"addr": str(wl.address), "seedout": bytes(wl.seed).hex()}
        self.op("words", 0, {"words": word_numbers(text), "bad": ""}, f)

    def place(self, w, wl):
        while len(self.wallets) < w:
            self.wallets.append(None)
        self.wallets[w - 1] = wl

    def do_give(self, s):
        for _ in range(s.get("n", 1)):
            outs = []
            for o in s["outs"]:
                lock = self.lock(o.get("l"))[0] or 0
                v = self.value(o["v"])
                if v == 0:                           # worth less than the fee
                    v = self.rng.randrange(1, self.fee // 50)
                elif s.get("j"):
                    v += self.rng.randrange(s["j"])
                outs += [(v, self.cond(o["r"], lock))] * o.get("n", 1)
            self.world.give(outs, confirmed=s.get("conf", True), kind=s.get("kind", "genesis"))

    def do_mine(self, s):
        only = None
        if s.get("only") == "none":
            only = []
        elif s.get("only") == "some":
            only = [i for i, t in self.world.txs.items() if t["height"] is None and self.rng.random() < 0.5]
        dt, blocks, w = s.get("dt"), s.get("blocks", 1), self.world
        if "c" in s and self.contracts:              # near the refund time of this contract
            o = w.outs.get(self.contracts[s["c"] % len(self.contracts)]["id"])
            if o:
                dt = max(1, mc.inner(o["cond"])["data"]["timelock"] + s["edge"] - w.time)
        elif "k" in s:                               # up to the moment at which something changes: just before it, at it, or just after it
            conds = [o["cond"] for o in w.outs.values() if o["spent"] is None]
            at = {mc.lock_of(c) for c in conds} | {mc.inner(c)["data"]["timelock"] for c in conds if mc.inner(c).get("type") == 2}
            at = sorted(v for v in at | {b["expiration"] for b in w.bots.values()} if v > (w.height if v < 500000000 else w.time))
            if at:
                v = at[s["k"] % len(at)]
                if v < 500000000:
                    blocks = max(1, v + s["edge"] - w.height)
                else:
                    dt = max(1, v + s["edge"] - w.time)
        w.mine(only=only, dt=dt, blocks=blocks)

    def do_reject(self, s):
        self.world.reject = "refused" if s.get("on", True) else None

    def request(self, s):
        """Arguments common to everything that is funded."""
        src, nsrc = self.sources(s.get("src") or None)
        refund = nref = None
        if s.get("refund") and s["refund"][0] != "nil":        # None means that no refund address is given
            nref = self.norm(s["refund"])
            refund = self.recipient(nref)
        data, ndata = self.data(s.get("data"))
        return (src, refund, data), {"src": nsrc, "refund": nref or ["none"], "data": ndata, "bad": s.get("bad", "")}

    def do_send(self, s):
        wl = self.wallets[s["w"] - 1]
        (src, refund, data), args = self.request(s)
        outs, nouts = [], []
        for o in s["outs"]:
            n = self.norm(o["r"])
            v = self.value(o["v"], s["w"], s.get("src") or None)
            l, nl = self.lock(o.get("l"))
            outs.append((self.recipient(n), self.amount(v), l))
            nouts.append({"r": n, "v": str(v), "l": nl})
        args["outs"] = nouts
        bad = s.get("bad")
        if bad == "data":
            data = self.too_long()
        if bad == "amount":
            outs[0] = (outs[0][0], self.rng.choice([0, "0", "0.0000000001", "-1", "1.5 BTC", "", Currency()]), outs[0][2])
        if bad == "recipient":
            a = str(self.key(1, 0))
            outs[0] = (self.rng.choice([a[:-1] + ("0" if a[-1] != "0" else "1"), a[:50], "04" + a[2:], (5, [a]), (0, [a]), 42, [],
                                       ConditionTypes.multi_signature_new(min_nr_sig=self.rng.choice([0, 2]), unlockhashes=[a])]),) + outs[0][1:]
            if outs[0][2] is None and self.rng.random() < 0.2:
                outs[0] = (ConditionTypes.locktime_new(lock=10, condition=ConditionTypes.multi_signature_new(min_nr_sig=2, unlockhashes=[a])),) + outs[0][1:]
        if bad == "lock":
            outs[0] = outs[0][:2] + (self.rng.choice([-1, "+x", "soon", 1.5]),)
        if bad == "source":
            a = str(self.key(1, 0))
            src = self.rng.choice([a[:-1] + ("0" if a[-1] != "0" else "1"), 42, [a, 7]])
        if bad == "refund":
            refund = self.rng.choice(["nonsense", 42, (1, 2, 3)])
        again = self.rng.random() < 0.3
        if s.get("builder") or len(outs) > 1:
            def f():
                b = wl.coin_transaction_builder_new()
                for r, v, l in outs:
                    b.output_add(r, v, lock=l)
                try:
                    return self.sendres(b.send(source=src, refund=refund, data=data))
                finally:
                    if again:                        # a builder is used once
                        with contextlib.suppress(Exception):
                            b.send(source=src, refund=refund, data=data)
        else:
            def f():
                r, v, l = outs[0]
                return self.sendres(wl.coins_send(r, v, source=src, refund=refund, lock=l, data=data))
        self.op("send", s["w"], args, f)

    def do_craft(self, s):
        """A transaction made by somebody else, without signatures."""
        ins, total = [], 0
        for i in s["ins"]:
            who = self.text(i["r"])
            of = [(k, o) for k, o in self.world.outs.items() if o["addr"] == who and k not in [x[0] for x in ins]]
            of = [x for x in of if (x[1]["spent"] is not None) == i["spent"]] or of
            if of:
                ins.append(of[i["n"] % len(of)])
        if not ins:
            ins = [(mc.blake(b"no output %d" % len(self.txs)).hex(), None)]
        elif s.get("unknown"):
            ins.insert(self.rng.randrange(len(ins) + 1), (mc.blake(b"no output %d" % len(self.txs)).hex(), None))
        cis = []
        for k, o in ins:
            c = o["cond"] if o else {"type": 1}
            c = c["data"]["condition"] if c["type"] == 3 else c
            total += o["value"] if o else 10 ** 9
            cis.append({"parentid": k, "fulfillment": {"type": 3, "data": {"pairs": []}} if c["type"] == 4 else
                        {"type": 1, "data": {"publickey": ":" + 64 * "0", "signature": ""}}})
        self.txs.append({"version": 1, "data": {"coininputs": cis, "minerfees": [str(self.fee)],
                         "coinoutputs": [{"value": str(max(1, total - self.fee)), "condition": self.cond(s["r"])}]}})

    def known(self, t):
        """Spent outputs that the object of a transaction remembers."""
        return [str(ci.parentid) for ci in t.coin_inputs if ci.parent_output is not None]

    def do_sign(self, s):
        if not self.txs:
            return
        wl = self.wallets[s["w"] - 1]
        i = s["t"] % len(self.txs) if s["t"] >= 0 else len(self.txs) + s["t"]
        if i < 0:
            return
        j, submit = self.txs[i], s.get("submit", True)
        form = self.rng.randrange(4)
        if form == 3 and i in self.objs:             # the object itself, as earlier operations left it
            j = json.loads(json.dumps(self.objs[i].json()))
        else:
            form %= 3

        def f():
            t = copy.deepcopy(j) if form == 0 else json.dumps(j) if form == 1 else self.objs[i] if form == 3 else transactions.from_json(copy.deepcopy(j))
            r = wl.transaction_sign(t, submit=submit) if not submit or self.rng.random() < 0.5 else wl.transaction_sign(t)
            return r, self.txres(r.transaction, r.submitted, r.signed)
        self.op("sign", s["w"], {"tx": tag(j), "submit": submit, "known": self.known(self.objs[i]) if form == 3 else [], "bad": ""}, f)

    def classes(self, b):
        def lst(os):
            return [[str(o.id), units(o.value)] for o in os]
        unc = list(b.outputs_unconfirmed.values())
        ua = b.outputs_unconfirmed_available
        uaid = set(str(o.id) for o in ua)
        return {"av": lst(b.outputs_available), "ua": lst(ua), "ul": lst(o for o in unc if str(o.id) not in uaid),
                "sp": lst(b.outputs_spent.values()), "us": lst(b.outputs_unconfirmed_spent.values()),
                "tav": units(b.available), "tlk": units(b.locked), "tua": units(b.unconfirmed), "tul": units(b.unconfirmed_locked)}

    def balance_of(self, w):
        b = self.wallets[w - 1].balance
        p = self.classes(b)
        p["addrs"] = [str(a) for a in b.addresses]
        ms = []
        for a, m in b.wallets.items():
            c = self.classes(m)
            c.update(key=str(a), addr=str(m.address), owners=[str(o) for o in m.owners], n=int(m.signature_count))
            ms.append(c)
        said = re.findall(r"([0-9.]+) TFT", repr(b))
        wide = self.wallets[w - 1].addresses_multisig if self.rng.random() < 0.3 else b.addresses_multisig
        return b, {"p": p, "m": ms, "maddrs": [str(a) for a in b.addresses_multisig], "wide": [str(a) for a in wide], "h": int(b.chain_height), "t": dec(b.chain_time),
                   "id": str(b.chain_blockid), "said": said}

    def do_balance(self, s):
        b = self.op("balance", s["w"], {"bad": ""}, lambda: self.balance_of(s["w"]))
        if b is not None:
            self.balances[s["w"]] = b
            if self.rng.random() < 0.6:
                self.address_balances(b)

    def address_balances(self, b):
        """The balances of single addresses, as the client reports them."""
        of = [str(a) for a in b.addresses] + [str(a) for a in b.addresses_multisig]
        of = sorted(set(of))
        of = self.rng.sample(of, min(4, len(of)))

        def f():
            res = []
            for a in of:
                try:
                    r = self.client.unlockhash_get(a if self.rng.random() < 0.8 else UnlockHash.from_json(a))
                except errors.ExplorerNoContent:
                    continue
                x = r.balance() if self.rng.random() < 0.5 else r.balance(info=self.client.blockchain_info_get())
                res.append({"addr": a, "r": self.slot(x)})
            return res, {"list": res}
        if of:
            self.op("addrbals", 0, {"of": of, "bad": ""}, f)

    # ---- balances that are kept and merged --------------------------------------------------------
    def slot(self, b):
        c = self.classes(b)
        c.update(h=int(b.chain_height), t=dec(b.chain_time), id=str(b.chain_blockid), addrs=[str(a) for a in b.addresses])
        c["k"] = "M" if isinstance(b, MultiSigWalletBalance) else "S" if isinstance(b, WalletsBalance) else "W"
        if c["k"] == "M":
            c.update(addr=str(b.address), owners=[str(o) for o in b.owners], n=int(b.signature_count))
        c["ws"] = [dict(self.slot(m), key=str(a)) for a, m in b.wallets.items()] if c["k"] == "S" else []
        return c

    def slot_op(self, name, w, args, f):
        self.op(name, w, args, f)
        self.world.events[-1]["all"] = [self.slot(b) for b in self.slots]

    def do_snap(self, s):
        if len(self.slots) >= 7:
            return
        dh, dt = s.get("dh", 0), s.get("dt", 0)
        kind = s["from"]
        a = {"from": kind, "addr": self.text(s["r"]) if kind == "addr" else "", "dh": dh, "dt": dt, "bad": ""}

        def f():
            if kind == "wallet":
                b = self.wallets[s["w"] - 1].balance
            elif kind == "addr":
                r = self.client.unlockhash_get(self.recipient(self.norm(s["r"])))
                b = r.balance() if self.rng.random() < 0.5 else r.balance(info=self.client.blockchain_info_get())
            else:
                b = {"W": WalletBalance, "S": WalletsBalance}[s["k"]]()
            if dh or dt:
                b.chain_height += dh
                b.chain_time += dt
            self.slots.append(b)
            return b, {"r": self.slot(b)}
        self.slot_op("snap", s["w"] if kind == "wallet" else 0, a, f)

    def do_merge(self, s):
        if len(self.slots) < 2:
            return
        i, j = s["i"] % len(self.slots), s["j"] % len(self.slots)

        def f():
            self.slots[i] = r = self.slots[i].balance_add(self.slots[j])
            return r, {}
        self.slot_op("merge", 0, {"i": i + 1, "j": j + 1, "bad": ""}, f)

    def do_put(self, s):
        if not self.slots:
            return
        i, j = s["i"] % len(self.slots), s["j"] % len(self.slots)
        b, src = self.slots[i], self.slots[j]
        kind = self.slot(b)["k"]
        outs = [o for p in [src] + (list(src.wallets.values()) if isinstance(src, WalletsBalance) else [])
                for o in list(p.outputs_available) + list(p.outputs_unconfirmed.values()) + list(p.outputs_spent.values()) + list(p.outputs_unconfirmed_spent.values())]
        outs = sorted((o for o in outs if kind == "S" or (str(o.condition.unlockhash) == str(b.address) if kind == "M" else str(o.condition.unlockhash)[:2] == "01")),
                      key=lambda o: str(o.id))
        if not outs:
            return
        o = outs[s["n"] % len(outs)]

        def f():
            b.output_add(o, confirmed=s["conf"], spent=s["spent"])
            return b, {}
        self.slot_op("put", 0, {"i": i + 1, "id": str(o.id), "conf": s["conf"], "spent": s["spent"], "bad": ""}, f)

    def do_newaddr(self, s):
        wl = self.wallets[s["w"] - 1]

        def f():
            if s.get("pub"):
                k = wl.public_key_new()
                return k, {"addr": str(k.unlockhash)}
            a = wl.address_new()
            return a, {"addr": str(a)}
        self.op("newaddr", s["w"], {"bad": ""}, f)

    def do_txs(self, s):
        wl = self.wallets[s["w"] - 1]
        self.op("txs", s["w"], {"bad": ""}, lambda: (0, {"txs": [
            {"id": str(t.id), "h": int(t.height), "u": bool(t.unconfirmed), "tx": tag(t.json())} for t in wl.transactions]}))

    def do_drain(self, s):
        wl = self.wallets[s["w"] - 1]
        n = self.norm(s["r"])
        l, nl = self.lock(s.get("l"))
        data, ndata = self.data(s.get("data"))
        which = ["p"] if not s.get("m") else ["m", self.text(s["m"])]
        unc = bool(s.get("unconf"))
        r = self.recipient(n)

        def f():
            b = wl.balance
            if which[0] == "m":
                if which[1] not in b.wallets:        # nothing there to be drained
                    return [], {"txs": []}
                b = b.wallets[which[1]]
            kw = dict(unconfirmed=True) if unc else {}
            if data is not None:
                kw["data"] = data
            if l is not None:
                kw["lock"] = l
            ts = b.drain(r, wl.client.minimum_miner_fee, **kw)
            js = [t.json() for t in ts]
            return ts, {"txs": [tag(j) for j in js]}
        ts = self.op("drain", s["w"], {"r": n, "l": nl, "data": ndata, "which": which, "unconf": unc, "bad": ""}, f)
        if s.get("sign") and ts:
            for t in ts:
                before = t.json()
                if self.rng.random() < 0.3:
                    t = json.dumps(before)
                self.op("sign", s["w"], {"tx": tag(before), "submit": True, "known": [] if isinstance(t, str) else self.known(t), "bad": ""},
                        lambda: (lambda r: (r, self.txres(r.transaction, r.submitted, r.signed)))(wl.transaction_sign(t)))

    # ---- atomic swaps --------------------------------------------------------------------------
    def contract(self, c):
        return {"id": str(c.outputid), "sender": str(c.sender), "receiver": str(c.receiver), "hash": str(c.secret_hash),
                "time": dec(c.refund_timestamp), "amount": units(c.amount), "unspent": bool(c.unspent)}

    def swaptime(self, k):
        """Refund time: (argument or None for the default, normalised)"""
        t = self.world.time
        if k is None:
            return None, ["default"]
        if k[0] == "d":
            n = int(k[1:])
            return "+{}s".format(n) if n % 3600 or self.rng.random() < 0.5 else "+{}h".format(n // 3600), ["dur", str(n)]
        v = t + int(k[1:])
        return v, ["abs", str(v)]

    def do_swap(self, s):
        wl = self.wallets[s["w"] - 1]
        (src, refund, data), args = self.request(s)
        to = self.text(s["to"])
        who = to if self.rng.random() < 0.7 else UnlockHash.from_json(to)
        v = self.value(s["v"], s["w"], s.get("src") or None)
        rt, nrt = self.swaptime(s.get("time"))
        kw = {} if rt is None else {"refund_time": rt}
        if not s.get("submit", True):
            kw["submit"] = False
        secret = SWAP_SECRETS[s.get("secret", 0)]
        hashed = __import__("hashlib").sha256(secret).hexdigest()
        args.update(to=to, v=str(v), time=nrt, submit=s.get("submit", True), part=bool(s.get("part")), hash=hashed if s.get("part") else "")
        amount = self.amount(v)
        if s.get("bad") == "amount":
            amount = self.rng.choice([0, "0", "-1"])
        if s.get("bad") == "secret":
            hashed = hashed[:-2]
        if s.get("bad") == "data":
            data = self.too_long()

        def f():
            if s.get("part"):
                k = self.rng.random()
                h = hashed if k < 0.6 else bytes.fromhex(hashed) if k < 0.85 else AtomicSwapSecretHash(value=hashed)
                r = wl.atomicswap.participate(who, amount, h, source=src, refund=refund, data=data, **kw)
                sec = secret.hex()
            else:
                r = wl.atomicswap.initiate(who, amount, source=src, refund=refund, data=data, **kw)
                sec = str(r.secret)
            c = self.contract(r.contract)
            x = self.txres(r.transaction, r.submitted)
            x.update(c=c, secret="" if s.get("part") else sec)
            return (c["id"], sec), x
        v = self.op("swap", s["w"], args, f)
        if v:
            self.contracts.append({"id": v[0], "secret": v[1]})

    def swap_target(self, s):
        """An output identifier and the secret that goes with it."""
        k = s.get("c", -1)
        if s.get("plain"):
            ids = [i for i, o in self.world.outs.items() if mc.inner(o["cond"]).get("type") != 2]
            return (self.rng.choice(ids) if ids else "00" * 32), SWAP_SECRETS[0].hex()
        if s.get("none") or not self.contracts:
            return mc.blake(b"nothing").hex(), SWAP_SECRETS[0].hex()
        c = self.contracts[k % len(self.contracts)]
        return c["id"], c["secret"]

    def do_give_swap(self, s):
        """A contract made by others."""
        secret = SWAP_SECRETS[s.get("secret", 1)]
        h = __import__("hashlib").sha256(secret).hexdigest()
        if s.get("near"):                            # almost the hash of that secret
            h = h[:-1] + "0123456789abcdef"[int(h[-1], 16) ^ 1]
        c = {"type": 2, "data": {"sender": self.text(s["from"]), "receiver": self.text(s["to"]), "hashedsecret": h,
                                 "timelock": self.world.time + s.get("dt", 1000)}}
        if s.get("l"):
            c = {"type": 3, "data": {"locktime": self.lock(s["l"])[0], "condition": c}}
        _, ids = self.world.give([(self.value(s["v"]), c)], confirmed=s.get("conf", True))
        self.contracts.append({"id": ids[0], "secret": secret.hex()})

    def do_redeem(self, s):
        wl = self.wallets[s["w"] - 1]
        oid, secret = self.swap_target(s)
        if s.get("wrong"):
            secret = mc.blake(b"wrong").hex() if self.rng.random() < 0.5 else secret[:-2] + "%02x" % (int(secret[-2:], 16) ^ 64)
        data, ndata = self.data(s.get("data"))

        def f():
            i = oid if self.rng.random() < 0.7 else Hash(value=oid)
            k = self.rng.random()
            t = wl.atomicswap.redeem(i, secret if k < 0.6 else bytes.fromhex(secret) if k < 0.85 else AtomicSwapSecret(value=secret), data=data)
            return t, self.txres(t, True)
        self.op("redeem", s["w"], {"id": oid, "secret": secret, "data": ndata, "bad": ""}, f)

    def do_refund(self, s):
        wl = self.wallets[s["w"] - 1]
        oid, _ = self.swap_target(s)
        data, ndata = self.data(s.get("data"))

        def f():
            t = wl.atomicswap.refund(oid if self.rng.random() < 0.7 else Hash(value=oid), data=data)
            return t, self.txres(t, True)
        self.op("refund", s["w"], {"id": oid, "data": ndata, "bad": ""}, f)

    def do_verify(self, s):
        wl = self.wallets[s["w"] - 1]
        oid, secret = self.swap_target(s)
        o = self.world.outs.get(oid)
        cond = (o or {}).get("cond") or {}
        d = cond.get("data") or {} if cond.get("type") == 2 else {}
        kw, n = {}, {"amount": "", "hash": "", "time": ["none"], "sender": bool(s.get("sender")), "receiver": bool(s.get("receiver")),
                     "id": oid, "bad": ""}
        if s.get("amount") is not None:
            v = (o["value"] if o else 10 ** 9) + s["amount"]
            kw["amount"], n["amount"] = self.amount(v), str(v)
        if s.get("hash") is not None:
            h = d.get("hashedsecret", "11" * 32)
            if not s["hash"]:
                h = mc.blake(b"other").hex() if self.rng.random() < 0.5 else h[:-1] + "0123456789abcdef"[int(h[-1], 16) ^ 1]
            k = self.rng.random()
            kw["secret_hash"], n["hash"] = (h if k < 0.6 else bytes.fromhex(h) if k < 0.85 else AtomicSwapSecretHash(value=h)), h
        if s.get("time") is not None:
            k = s["time"]
            if k[0] == "p":                          # stated as a time that is in the past, or now
                v = max(0, self.world.time - int(k[1:]))
                kw["min_refund_time"], n["time"] = v, ["abs", str(v)]
            elif k != "z":                           # relative to the contract's own refund time
                v = max(0, int(d.get("timelock", self.world.time)) + int(k[1:]))
                if k[0] == "d" and v > self.world.time:
                    kw["min_refund_time"], n["time"] = "+{}s".format(v - self.world.time), ["abs", str(v)]
                else:
                    kw["min_refund_time"], n["time"] = v, ["abs", str(v)]
            else:
                kw["min_refund_time"], n["time"] = 0, ["abs", "0"]
        for k in ("sender", "receiver"):
            if s.get(k):
                kw[k] = True
        pre = s.get("pre")

        def f():
            i = oid if self.rng.random() < 0.7 else Hash(value=oid)
            if pre:
                c0 = wl.atomicswap.verify(oid)
                c = wl.atomicswap.verify(i, contract=c0, **kw)
            else:
                c = wl.atomicswap.verify(i, **kw)
            return c, {"c": self.contract(c)}
        (self.op("verify", s["w"], n, f) if isinstance(kw.get("min_refund_time"), str) else self.query("verify", s["w"], lambda: n, f))

    # ---- minting -------------------------------------------------------------------------------
    def do_mintdef(self, s):
        wl = self.wallets[s["w"] - 1]
        n = self.norm(s["r"])
        data, ndata = (self.too_long(), "") if s.get("bad") == "data" else self.data(s.get("data"))
        r = self.recipient(n)
        if s.get("bad") == "recipient":
            a = str(self.key(1, 0))
            r = self.rng.choice([None, "nonsense", (2, [a]), ConditionTypes.multi_signature_new(min_nr_sig=2, unlockhashes=[a])])
        self.op("mintdef", s["w"], {"r": n, "data": ndata, "bad": s.get("bad", "")},
                lambda: self.sendres(wl.minter.definition_set(r, data=data)))

    def do_mintcoins(self, s):
        wl = self.wallets[s["w"] - 1]
        n = self.norm(s["r"])
        data, ndata = (self.too_long(), "") if s.get("bad") == "data" else self.data(s.get("data"))
        l, nl = self.lock(s.get("l"))
        v = self.value(s["v"])
        amount, r = self.amount(v), self.recipient(n)
        if s.get("bad") == "amount":
            amount = self.rng.choice([0, "0", "-3"])
        self.op("mintcoins", s["w"], {"outs": [{"r": n, "v": str(v), "l": nl}], "data": ndata, "bad": s.get("bad", "")},
                lambda: self.sendres(wl.minter.coins_new(r, amount, lock=l, data=data)))

    def do_mintcond(self, s):
        """A minting condition set by others."""
        self.world.mint(self.cond(s["r"]))

    # ---- 3Bots ---------------------------------------------------------------------------------
    def do_bot(self, s):
        """A 3Bot registered by others, or set up for the test."""
        key = self.pub(*s["key"][1:]) if s["key"][0] == "k" else "ed25519:" + mc.blake(b"bot %d" % s["key"][1]).hex()
        self.world.bot(s["id"], key, s.get("names", []), s.get("addresses", []), self.world.time + s.get("exp", 10 ** 6))

    def do_botnew(self, s):
        wl = self.wallets[s["w"] - 1]
        (src, refund, _), args = self.request(s)
        kw = {}
        if s.get("fresh"):
            s = {k: v for k, v in s.items() if k != "key"}
        if "key" in s:
            kw["key_index"] = s["key"]
        if "months" in s:
            kw["months"] = s["months"]
        if s.get("names") is not None:
            kw["names"] = s["names"]
        if s.get("addresses") is not None:
            kw["addresses"] = s["addresses"]
        args.update(months=s.get("months", 1), names=s.get("names") or [], addrs=s.get("addresses") or [], key=s.get("key", -1))
        self.op("botnew", s["w"], args, lambda: self.sendres(wl.threebot.record_new(source=src, refund=refund, **kw)))

    def do_botupd(self, s):
        wl = self.wallets[s["w"] - 1]
        (src, refund, _), args = self.request(s)
        kw = {k: s[k] for k in ("months", "names_to_add", "names_to_remove", "addresses_to_add", "addresses_to_remove") if s.get(k) is not None}
        args.update(id=s["id"], months=s.get("months") or 0, nadd=s.get("names_to_add") or [], ndel=s.get("names_to_remove") or [],
                    aadd=s.get("addresses_to_add") or [], adel=s.get("addresses_to_remove") or [])
        self.op("botupd", s["w"], args, lambda: self.sendres(wl.threebot.record_update(s["id"], source=src, refund=refund, **kw)))

    def do_botxfer(self, s):
        wl = self.wallets[s["w"] - 1]
        (src, refund, _), args = self.request(s)
        args.update(id=s["from"], to=s["to"], names=s["names"])
        self.op("botxfer", s["w"], args,
                lambda: self.sendres(wl.threebot.name_transfer(s["from"], s["to"], s["names"], source=src, refund=refund)))

    def do_botget(self, s):
        b = self.world.bots.get(s["id"])
        key = s.get("by", "id")
        what = s["id"]
        others = [x for x in self.world.bots.values() if x is not b]
        if key == "key" and b and all(x["publickey"] != b["publickey"] for x in others):
            what = b["publickey"] if self.rng.random() < 0.6 else PublicKey.from_json(b["publickey"])
        elif key == "name" and b:
            names = [n for n in b["names"] if all(n not in x["names"] for x in others)]
            if names:
                what = s.get("name") or self.rng.choice(names)
                what = what if self.rng.random() < 0.6 else BotName(value=what)

        def f():
            r = self.client.threebot.record_get(what)
            return r, {"id": int(r.identifier), "names": [str(n) for n in r.names], "addrs": [str(a) for a in r.addresses],
                       "key": str(r.public_key), "exp": dec(r.expiration)}
        self.op("botget", 0, {"id": s["id"], "bad": ""}, f)

    def do_botall(self, s):
        """Every 3Bot, in every way it can be looked up."""
        for i, b in list(self.world.bots.items()):
            self.do_botget({"id": i, "by": "id"})
            self.do_botget({"id": i, "by": "key"})
            for n in b["names"]:
                if all(n not in x["names"] for x in self.world.bots.values() if x is not b):
                    self.do_botget({"id": i, "by": "name", "name": n})

    # ---- ERC20 ---------------------------------------------------------------------------------
    def do_ercsend(self, s):
        wl = self.wallets[s["w"] - 1]
        (src, refund, _), args = self.request(s)
        v = self.value(s["v"], s["w"], s.get("src") or None)
        to = self.norm(s["to"])[1]
        amount = self.amount(v)
        if s.get("bad") == "amount":
            amount = self.rng.choice([0, "0", "-3"])
        args.update(to=to, v=str(v))
        addr = self.rng.choice([to, to[2:], "0X" + to[2:], bytes.fromhex(to[2:]), bytearray.fromhex(to[2:]), ERC20Address(value=to)])
        via, bad = self.rng.random() < 0.5, s.get("bad")
        if bad in ("lock", "data"):
            via = True
        kw = {"lock": {"lock": 5}, "data": {"data": "x"}}.get(bad, {})
        self.op("ercsend", s["w"], args, lambda: self.sendres(
            wl.coins_send(addr, amount, source=src, refund=refund, **kw) if via else
            wl.erc20.coins_send(addr, amount, source=src, refund=refund)))

    def do_ercreg(self, s):
        wl = self.wallets[s["w"] - 1]
        (src, refund, _), args = self.request(s)
        k = s.get("of")
        val, n = None, ["new"]
        if isinstance(k, int):
            val, n = k, ["index", k]
        elif k:
            val = self.text(k)
            n = ["addr", val]
            if self.rng.random() < 0.4:
                val = UnlockHash.from_json(val)
        args.update(of=n)
        self.op("ercreg", s["w"], args, lambda: self.sendres(
            wl.erc20.address_register(val, source=src, refund=refund) if val is not None else
            wl.erc20.address_register(source=src, refund=refund)))

    def do_erc20(self, s):
        self.world.register(self.text(s["r"]))

    def ercinfo(self, i):
        return {"tft": str(i.address_tft), "erc": str(i.address_erc20), "conf": int(i.confirmations)}

    def do_ercget(self, s):
        wl = self.wallets[s["w"] - 1]
        k = s.get("of")
        val, n = (None, ["none"]) if k is None else (k, ["index", k]) if isinstance(k, int) else (self.text(k), ["addr", self.text(k)])
        self.query("ercget", s["w"], lambda: {"of": n, "bad": ""}, lambda: (0, self.ercinfo(self.wallets[s["w"] - 1].erc20.address_get(val))))

    def do_ercall(self, s):
        wl = self.wallets[s["w"] - 1]
        self.query("ercall", s["w"], lambda: {"bad": ""}, lambda: (0, {"infos": [self.ercinfo(i) for i in self.wallets[s["w"] - 1].erc20.addresses_get()]}))

    # ---- explorer queries ----------------------------------------------------------------------
    def plain_tx(self, t):
        return {"id": str(t.id), "h": int(t.height), "u": bool(t.unconfirmed), "tx": tag(t.json()),
                "ins": [["" if ci.parent_output is None else str(ci.parent_output.id), "0" if ci.parent_output is None else units(ci.parent_output.value),
                         tag({}) if ci.parent_output is None else tag(ci.parent_output.condition.json())] for ci in t.coin_inputs],
                "outs": [[str(o.id), units(o.value)] for o in t.coin_outputs]}

    def do_gettx(self, s):
        ids = list(self.world.txs) or ["22" * 32]
        i = ids[s.get("i", 0) % len(ids)] if not s.get("none") else mc.blake(b"no tx").hex()
        self.query("gettx", 0, lambda: {"id": i, "bad": ""}, lambda: (0, self.plain_tx(self.client.transaction_get(
            i if self.rng.random() < 0.6 else bytes.fromhex(i)))))

    def do_getout(self, s):
        ids = list(self.world.outs) or ["22" * 32]
        i = ids[s.get("i", 0) % len(ids)] if not s.get("none") else mc.blake(b"no out").hex()

        def f():
            o, c, sp = self.client.coin_output_get(i)
            return 0, {"id": str(o.id), "v": units(o.value), "cond": tag(o.condition.json()), "made": str(c.id),
                       "spent": "" if sp is None else str(sp.id)}
        self.query("getout", 0, lambda: {"id": i, "bad": ""}, f)

    def do_getblock(self, s):
        ids = list(self.world.blocks)
        i = ids[s.get("i", 0) % len(ids)]

        def f():
            b = self.client.block_get(i if not s.get("height") else self.world.blocks[i]["height"])
            return 0, {"id": str(b.id), "h": int(b.height), "t": dec(b.timestamp), "parent": str(b.parentid),
                       "txs": [str(t.id) for t in b.transactions],
                       "payouts": [[str(p.id), units(p.value), str(p.unlockhash)] for p in b.miner_payouts]}
        b = self.world.blocks[i]
        self.query("getblock", 0, lambda: {"id": i, "h": b["height"], "t": str(b["time"]), "parent": b["parent"], "txs": list(b["txs"]), "bad": "",
                                "payouts": [[p, q["value"], q["unlockhash"]] for p, q in zip(b["ids"], b["payouts"])]}, f)

    def do_getaddr(self, s):
        a = self.text(s["r"])

        def f():
            r = self.client.unlockhash_get(self.recipient(self.norm(s["r"])))
            return 0, {"addr": str(r.unlockhash), "txs": [{"id": str(t.id), "h": int(t.height), "u": bool(t.unconfirmed)} for t in r.transactions],
                       "ms": [str(x) for x in r.multisig_addresses]}
        self.query("getaddr", 0, lambda: {"addr": a, "bad": ""}, f)

    def do_getmint(self, s):
        h = s.get("h")
        hh = None if h is None else max(0, self.world.height - h)
        self.query("getmint", 0, lambda: {"h": -1 if hh is None else hh, "bad": ""},
                lambda: (0, {"cond": tag(self.client.minter.condition_get(hh).json())}))

    def do_info(self, s):
        def f():
            i = self.client.blockchain_info_get()
            return 0, {"id": str(i.blockid), "h": int(i.height), "t": dec(i.timestamp)}
        self.op("info", 0, {"bad": ""}, f)


def main():
    progs = json.load(open(sys.argv[1]))
    with open(sys.argv[2], "w") as out:
        out.write("[")
        for n, p in enumerate(progs):
            out.write(",\n" if n else "")
            ses = None
            try:
                ses = Session(p)
                t = ses.run()
            except Exception:
                t = {"id": p["id"], "events": ses.world.events if ses else [], "crash": traceback.format_exc()[-2000:]}
            out.write(dumps(t))
        out.write("]")


if __name__ == "__main__":
    main()
