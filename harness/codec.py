"""Runs cases on the real code: values and their notations. The record of what happened is judged by spec/Codec.tla."""
import itertools
import json
import random
import signal
import sys
import time
import traceback
from datetime import datetime, timedelta, timezone
from decimal import Decimal
from fractions import Fraction

from tag import dumps, tag

from tfchain.crypto import MerkleTree
from tfchain.encoders import encoder_rivine_get, encoder_sia_get
from tfchain.internal.jsutils import duration, jsdatetime
from tfchain.types import ConditionTypes, FulfillmentTypes, transactions
from tfchain.types.ConditionTypes import OutputLock, UnlockHash, UnlockHashType
from tfchain.types.CryptoTypes import PublicKey
from tfchain.types.ERC20 import ERC20Address
from tfchain.types.IO import BlockstakeOutput, CoinInput, CoinOutput
from tfchain.types.PrimitiveTypes import BinaryData, Blockstake, Currency, Hash
from tfchain.types.ThreeBot import BotName, NetworkAddress
from tfchain.types.transactions import Transactions
from tfchain.types.transactions.ERC20 import TransactionV210
from tfchain.types.transactions.ThreeBot import BotTransactionBaseClass
import hashlib


def in_bot(what):
    """A name or network address of a 3Bot, given to one of the transactions it can be given to."""
    def f(text):
        k = sum(text.encode()) % 3
        if what == "name":
            x = [transactions.threebot_registration_new, transactions.threebot_record_update_new, transactions.threebot_name_transfer_new][k]()
            field = ["names", "names_to_add", "names"][k]
        else:
            x = [transactions.threebot_registration_new, transactions.threebot_record_update_new, transactions.threebot_record_update_new][k]()
            field = ["addresses", "addresses_to_add", "addresses_to_remove"][k]
        setattr(x, field, [text])
        got = getattr(x, field)
        if len(got) != 1:
            raise ValueError("it was left out")
        return str(got[0])
    return f


NEAR = {"name": in_bot("name"), "net": in_bot("net"), "addr": UnlockHash.from_json, "pk": PublicKey.from_json, "erc": lambda t: ERC20Address(value=t)}


class Hang(Exception):
    pass


def alarm(*a):
    raise Hang("takes too long")


def text(j):
    """The JSON text of a tagged value."""
    k = j[0]
    if k == "o":
        return "{" + ",".join(json.dumps(x) + ":" + text(y) for x, y in (j[1].items() if j[1] else [])) + "}"
    if k == "a":
        return "[" + ",".join(text(x) for x in j[1]) + "]"
    if k in "ix":
        return j[1]
    return "null" if k == "n" else json.dumps(j[1])


def untag(j):
    return json.loads(text(j))


def guarded(f):
    signal.alarm(30)
    try:
        r = f()
        r["k"] = "ok"
    except Exception as e:
        r = {"k": "err", "err": type(e).__name__, "why": str(e)[:120]}
    finally:
        signal.alarm(0)
    return r


def pair(f):
    e = encoder_sia_get() if f == "sia" else encoder_rivine_get()
    return e


OBJECTS = {
    "cur": lambda v: Currency.from_json(v), "stake": lambda v: Blockstake(int(v)), "bin": lambda v: BinaryData(value=v),
    "hash": lambda v: Hash(value=v), "addr": UnlockHash.from_json, "pk": PublicKey.from_json,
    "cond": lambda v: ConditionTypes.from_json(untag(v)), "fulf": lambda v: FulfillmentTypes.from_json(untag(v)),
    "in": lambda v: CoinInput.from_json(untag(v)), "out": lambda v: CoinOutput.from_json(untag(v)),
    "net": NetworkAddress.from_json, "name": BotName.from_json}


def value(v):
    k = v[0]
    if k == "int":
        return int(v[1])
    if k == "bool":
        return v[1]
    if k == "bytes":
        return bytes.fromhex(v[1]) if v[2:] == ["b"] else bytearray.fromhex(v[1])
    if k == "text":
        return v[1]
    if k == "utf":                                     # text, of which the program has the bytes
        return bytes.fromhex(v[1]).decode("utf-8")
    if k == "list":
        l = [value(x) for x in v[1]]
        form = v[2] if len(v) > 2 else "list"
        return {"list": lambda: l, "tuple": lambda: tuple(l), "iter": lambda: iter(l), "gen": lambda: (x for x in l)}[form]()
    if k == "float":
        return float(v[1])
    if k == "dec":
        return Decimal(v[1])
    if k == "frac":
        return Fraction(v[1])
    if k == "none":
        return None
    if k == "thing":
        return object()
    return OBJECTS[k](v[1])


METHODS = {"add": "add", "byte": "add_byte", "array": "add_array", "slice": "add_slice", "all": "add_all", "int": "add_int", "int8": "add_int8",
           "int16": "add_int16", "int24": "add_int24", "int32": "add_int32", "int64": "add_int64"}


def objects(e, op, v):
    x = value(v)
    if op == "all":
        getattr(e, METHODS[op])(*x)
    else:
        getattr(e, METHODS[op])(x)


def operand(a):
    k = a[0]
    if k == "cur":
        return Currency.from_json(a[1])
    if k == "int":
        return int(a[1])
    if k == "float":
        return float(a[1])
    if k == "dec":
        return Decimal(a[1])
    if k == "none":
        return None
    return a[1]


def forms(c):
    s, u, j = str(c), c.str(with_unit=True), c.json()
    return {"int": str(int(c)), "json": j, "str": s, "unit": u,
            "again": [str(int(Currency(value=s))), str(int(Currency(value=u))), str(int(Currency.from_json(j)))]}


class Run:
    def __init__(self, p):
        self.events = []
        self.enc = {"sia": encoder_sia_get(), "riv": encoder_rivine_get()}
        self.tree, self.h = None, "blake"

    def emit(self, c, **e):
        d = dict(c)
        d["e"] = d.pop("c")
        d.update(e)
        self.events.append(d)

    def do(self, c):
        getattr(self, "do_" + c["c"])(c)

    # ---- encoders
    def do_reset(self, c):
        self.enc[c["f"]].reset()
        self.emit(c)

    def do_enc(self, c):
        f = c["f"]
        e = self.enc[f]
        before = bytes(e.data)
        made = []
        try:
            value(c["v"])                              # the parts themselves are valid
        except Exception:
            return self.emit({"c": "skip"})

        def run():
            objects(e, c["op"], c["v"])
            after = bytes(e.data)
            return {"new": after[len(before):].hex(), "kept": after[:len(before)] == before}
        r = guarded(run)
        if r["k"] != "ok":
            self.enc[f] = pair(f)
        self.emit(c, res=r)

    def do_long(self, c):
        e = pair(c["f"])
        n = c["n"]

        def run():
            if c["kind"] == "bytes":
                v = bytes(n)
            elif c["kind"] == "text":
                v = "\0" * n
            else:
                v = [False] * n
            e.add_slice(v)
            d = e.data
            head = len(d) - n
            return {"head": bytes(d[:max(head, 0)]).hex(), "len": len(d), "rest": d.count(0, max(head, 0)) == n}
        self.emit(c, res=guarded(run))

    def do_data(self, c):
        self.emit(c, hex=bytes(self.enc[c["f"]].data).hex())

    def do_alone(self, c):
        def run():
            from tfchain.encoders import rivine_encode, sia_encode
            v = value(c["v"])
            return {"sia": bytes(sia_encode(v)).hex(), "riv": bytes(rivine_encode(value(c["v"]))).hex()}
        self.emit(c, res=guarded(run))

    # ---- amounts
    def do_amt(self, c):
        op = c["op"]
        more = {}
        if op == "make":
            a = c["a"]
            r = guarded(lambda: forms(Currency.from_json(untag(a[1])) if a[0] == "json" else Currency(value=operand(a))))
        elif op == "sum":
            r = guarded(lambda: forms(sum(Currency.from_json(x) for x in c["list"])))
        else:
            a, b, how = operand(c["a"]), operand(c["b"]), c["how"]
            if op in ("add", "sub", "mul"):
                def run():
                    nonlocal a
                    if how == "i":
                        if op == "add":
                            a += b
                        elif op == "sub":
                            a -= b
                        else:
                            a *= b
                        return forms(a)
                    x, y = (b, a) if how == "r" else (a, b)
                    return forms(x + y if op == "add" else x - y if op == "sub" else x * y)
                r = guarded(run)
                more = {"aa": str(int(a)), "bb": str(int(b)) if isinstance(b, Currency) else ""}
            else:
                r = guarded(lambda: {"val": {"lt": lambda: a < b, "le": lambda: a <= b, "eq": lambda: a == b, "ne": lambda: a != b,
                                             "gt": lambda: a > b, "ge": lambda: a >= b}[op]()})
        self.emit(c, res=r, **more)

    # ---- addresses
    def do_addr(self, c):
        def run():
            u = UnlockHash.from_json(c["text"])
            e, f = encoder_sia_get(), encoder_rivine_get()
            e.add(u), f.add(u)
            return {"str": str(u), "json": u.json(), "type": int(u.type), "hash": str(u.hash), "sia": bytes(e.data).hex(), "riv": bytes(f.data).hex()}
        self.emit(c, res=guarded(run))

    def do_near(self, c):
        """All texts that are close to a text: which of them are accepted?"""
        t, make = c["text"], NEAR[c["kind"]]
        near = set()
        for i in range(len(t) + 1):
            for ch in c["chars"]:
                near.add(t[:i] + ch + t[i:])
                near.add(t[:i] + ch + t[i + 1:])
                near.add(t[:i] + ch + ch + t[i + 2:])
            near.add(t[:i] + t[i + 1:])
            near.add(t[:i] + t[i + 1:i + 2] + t[i:i + 1] + t[i + 2:])
        near.discard(t)
        if c["kind"] in ("name", "net"):
            res = []
            for x in [t] + random.Random(t).sample(sorted(near), min(50, len(near))):
                r = guarded(lambda: {"str": make(x)})
                res.append({"text": x, "ok": "err" not in r, "str": r.get("str", "")})
            self.emit(c, res={"k": "ok", "all": res})
            return
        got = []
        for x in sorted(near):
            r = guarded(lambda: {"str": str(make(x))})
            if "err" in r:
                continue
            got.append({"text": x, "str": r["str"]})
        got.sort(key=lambda x: all(ch in "0123456789abcdef:xdABCDEF" for ch in x["text"]))      # the odd ones first
        self.emit(c, res={"k": "ok", "got": got[:60]})

    def do_addrmake(self, c):
        def run():
            u = UnlockHash(type=UnlockHashType(c["type"]), hash=c["hash"])
            return {"str": str(u), "again": str(UnlockHash.from_json(str(u)))}
        self.emit(c, res=guarded(run))

    def do_addreq(self, c):
        def run():
            a, b = UnlockHash.from_json(c["a"]), UnlockHash.from_json(c["b"])
            return {"eq": bool(a == b), "ne": bool(a != b), "same": hash(a) == hash(b)}
        self.emit(c, res=guarded(run))

    def do_pk(self, c):
        def run():
            p = PublicKey.from_json(c["text"])
            e, f = encoder_sia_get(), encoder_rivine_get()
            e.add(p), f.add(p)
            return {"str": str(p), "addr": str(p.unlockhash), "sia": bytes(e.data).hex(), "riv": bytes(f.data).hex()}
        self.emit(c, res=guarded(run))

    def do_condaddr(self, c):
        self.emit(c, res=guarded(lambda: {"addr": str(ConditionTypes.from_json(untag(c["json"])).unlockhash)}))

    def do_multi(self, c):
        def run():
            res = []
            orders = list(itertools.islice(itertools.permutations(c["owners"]), 24))
            for k, o in enumerate(orders):
                o = list(o)
                conds = [ConditionTypes.multi_signature_new(min_nr_sig=c["n"], unlockhashes=o)]
                if 1 <= c["n"] <= len(o):
                    conds.append(ConditionTypes.from_recipient((c["n"], o) if k % 2 else (o, c["n"])))
                if c["n"] == len(o):
                    conds.append(ConditionTypes.from_recipient(o))
                res += [str(x.unlockhash) for x in conds] + [str(ConditionTypes.from_json(conds[0].json()).unlockhash)]
            return {"addrs": res}
        self.emit(c, res=guarded(run))

    def do_erc(self, c):
        def run():
            a = ERC20Address.from_unlockhash(UnlockHash.from_json(c["addr"]))
            return {"str": str(a), "json": a.json()}
        self.emit(c, res=guarded(run))

    def do_erctext(self, c):
        self.emit(c, res=guarded(lambda: {"str": str(ERC20Address.from_json(c["text"]) if c.get("json") else ERC20Address(value=c["text"]))}))

    # ---- locks
    def do_lock(self, c):
        form, arg = c["form"], c["arg"]
        if form == "int":
            v = int(arg)
        elif form == "text":
            v = arg
        elif form == "td":
            v = timedelta(seconds=int(arg))
        elif form == "dt":
            v = datetime.fromtimestamp(int(arg), timezone(timedelta(minutes=0 if c.get("naive") else c.get("zone", 0))))
            if c.get("naive"):
                v = v.replace(tzinfo=None)             # local time is UTC here
        elif form == "lock":
            v = OutputLock(int(arg))
        else:
            v = None
        t0 = int(time.time())
        year = datetime.now().year

        def run():
            l = OutputLock(v, current_timestamp=int(c["now"])) if c["now"] else OutputLock(v)
            r = {"value": str(int(l)), "ts": l.is_timestamp, "locked": [l.locked_check(h, int(t)) for h, t in c["at"]]}
            again = ""
            if l.is_timestamp:
                try:
                    s = str(l)
                except (ValueError, OverflowError, OSError):
                    s = None                            # beyond the calendar
                if s is not None and len(s.split("/")[0]) == 4:
                    again = str(jsdatetime.fromString(s))
            r["again"] = again
            if int(l) < 1 << 64:
                cond = ConditionTypes.locktime_new(lock=l, condition=ConditionTypes.nil_new())
                back = ConditionTypes.from_json(cond.json())
                out = CoinOutput(value=Currency(value=1), condition=cond)
                r.update(cond=str(int(cond.lock)), json=str(int(back.lock)),
                         inout=[out.condition.lock.locked_check(height=h, time=int(t)) for h, t in c["at"]])
            return r
        r = guarded(run)
        if r["k"] != "ok":
            r.update(value="0")
        t1 = int(time.time())
        if datetime.now().year != year:
            return self.emit({"c": "skip"})
        self.emit(c, res=r, t0=str(t0), t1=str(t1), year=year)

    def do_dur(self, c):
        def run():
            n = duration.fromString(c["text"])
            s = duration.toString(n)
            return {"secs": str(n), "str": s, "again": str(duration.fromString(s))}
        self.emit(c, res=guarded(run))

    # ---- Merkle trees
    def hash(self, h):
        return hashlib.sha256 if h == "sha" else lambda b: hashlib.blake2b(b, digest_size=32)

    def new(self, h):
        f = self.hash(h)
        return MerkleTree(hash_func=lambda o: f(bytes(o)).digest())

    def do_tree(self, c):
        self.tree, self.h = self.new(c["h"]), c["h"]
        self.emit(c)

    def do_push(self, c):
        def run():
            self.tree.push(bytearray.fromhex(c["leaf"]))
            return {"root": bytes(self.tree.root()).hex() if c["look"] else ""}
        self.emit(dict(c, h=self.h), res=guarded(run))

    def do_grow(self, c):
        def run():
            t, roots = self.new(c["h"]), []
            for n in range(1, c["n"] + 1):
                t.push(bytearray((n + c["salt"]).to_bytes(4, "little")))
                if n in c["at"]:
                    roots.append([n, bytes(t.root()).hex()])
            return {"roots": roots}
        self.emit(c, res=guarded(run))

    # ---- transactions
    def extra(self, x):
        k = x[0]
        if k == "none":
            return []
        if k == "pos":
            return [x[1]]
        if k == "key":
            return [x[1], PublicKey.from_json(x[2])]
        if k == "secret":
            return [x[1], PublicKey.from_json(x[2]), Hash(value=x[3])]
        if k == "keyonly":
            return [PublicKey.from_json(x[1])]
        return [{"sender": BotTransactionBaseClass.SPECIFIER_SENDER, "receiver": BotTransactionBaseClass.SPECIFIER_RECEIVER,
                 "registration": TransactionV210.SPECIFIER_REGISTRATION_SIGNATURE}[x[1]]]

    def look(self, t, extra):
        try:
            b = bytes(t.binary_encode()).hex()
        except Exception as e:
            b = "cannot: " + type(e).__name__
        def each(n, f):
            res = []
            for i in range(n):
                try:
                    res.append(str(f(i)))
                except Exception as e:
                    res.append("cannot: " + type(e).__name__)
            return res
        return {"bin": b, "coins": each(len(t.coin_outputs), t.coin_outputid_new), "stakes": each(len(t.blockstake_outputs), t.blockstake_outputid_new),
                "hashes": each(len(extra), lambda i: bytes(t.signature_hash_get(*self.extra(extra[i]))).hex())}

    def requests(self, c, t):
        def parents(ins, conds, kind):
            for ci, j in zip(ins, conds):
                if j[0] == "o":
                    ci.parent_output = kind(condition=ConditionTypes.from_json(untag(j)))
        parents(t.coin_inputs, c["parents"], CoinOutput)
        parents(t.blockstake_inputs, c["stakes"], BlockstakeOutput)
        if c["mint"][0] == "o" and int(t.version) in (128, 129):
            t.parent_mint_condition = ConditionTypes.from_json(untag(c["mint"]))
        b = [PublicKey.from_json(x) if x else None for x in c["bots"]]
        if int(t.version) == 145 and b[0]:
            t.parent_public_key = b[0]
        if int(t.version) == 146:
            if b[0]:
                t.sender_parent_public_key = b[0]
            if b[1]:
                t.receiver_parent_public_key = b[1]
        res = []
        for r in t.signature_requests_new():
            a = str(r.wallet_address)
            res.append([a, str(r.input_hash_new(PublicKey.from_json(c["keys"].get(a, c["other"]))))])
        return {"reqs": res, "full": "yes" if t.is_fulfilled() else "no"}

    def do_tx(self, c):
        raw = text(c["json"])
        extra = c["extra"]

        def parse():
            if c["form"] == "dict":
                return Transactions.from_json(json.loads(raw))
            if c["form"] == "bytes":
                return Transactions.from_json(raw.encode())
            return Transactions.from_json(raw)

        def run():
            t = parse()
            first, seen = t.json(), self.look(t, extra)
            wire = dumps(first)
            u = Transactions.from_json(wire)
            kept = self.look(u, extra)
            r = {"json": tag(json.loads(wire)), "again": tag(u.json()), "kept": kept == seen and t.json() == first}
            r.update(seen)
            return r
        r = guarded(run)
        e = dict(c, json=tag(json.loads(raw)))
        if r["k"] == "ok" and c.get("ask"):
            q = guarded(lambda: self.requests(c, parse()))
            r["reqs"], r["full"] = (q["reqs"], q["full"]) if q["k"] == "ok" else ([[q["err"], q["why"]]], q["err"])
        self.emit(e, res=r)

    def do_txtext(self, c):
        raw = c["raw"]
        self.emit(c, res=guarded(lambda: {"x": len(str(Transactions.from_json(raw.encode() if c.get("bytes") else raw).json()))}))


def main():
    signal.signal(signal.SIGALRM, alarm)
    progs = json.load(open(sys.argv[1]))
    with open(sys.argv[2], "w") as out:
        out.write("[")
        for n, p in enumerate(progs):
            out.write(",\n" if n else "")
            r = Run(p)
            t = {"id": p["id"], "events": r.events}
            try:
                for c in p["cases"]:
                    r.do(c)
            except Exception:
                t["crash"] = traceback.format_exc()[-2000:]
            out.write(dumps(t))
        out.write("]")


if __name__ == "__main__":
    main()
