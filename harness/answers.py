"""Asks the real client, which gets prescribed answers. What it reports is judged by spec/AnswersTrace.tla."""
import json
import os
import signal
import sys
import traceback

from tag import dumps, tag

import tfchain.errors
from tfchain.TFChainClient import NetworkType, TFChainClient
from tfchain.TFChainExplorerClient import TFChainExplorerClient
from tfchain.types.ConditionTypes import UnlockHash
from tfchain.types.CryptoTypes import PublicKey
from tfchain.types.PrimitiveTypes import Hash
from tfchain.types.ThreeBot import BotName


class Hang(Exception):
    pass


def alarm(*a):
    raise Hang("takes too long")


def text(j):
    k = j[0]
    if k == "o":
        return "{" + ",".join(json.dumps(x) + ":" + text(y) for x, y in (j[1].items() if j[1] else [])) + "}"
    if k == "a":
        return "[" + ",".join(text(x) for x in j[1]) + "]"
    if k in "ix":
        return j[1]
    if k == "b":
        return "true" if j[1] else "false"
    return "null" if k == "n" else json.dumps(j[1])


class Answers(TFChainExplorerClient):
    def __init__(self, answers):
        super().__init__(addresses=["http://explorer.test"])
        self.answers, self.asked = {}, []
        for endpoint, j in answers:
            self.answers.setdefault(endpoint, text(j).encode())

    def get(self, endpoint):
        self.asked.append(endpoint)
        if endpoint not in self.answers:
            raise tfchain.errors.ExplorerNoContent("nothing", endpoint)
        return self.answers[endpoint]

    def post(self, endpoint, data):
        raise tfchain.errors.ExplorerServerPostError("nothing", endpoint, data=data)


def output(o):
    return {"id": str(o.id), "json": tag(o.json())}


def spent(i):
    return dict(output(i.parent_output), parent=str(i.parentid))


def whole(n):
    return str(n) if isinstance(n, int) and not isinstance(n, bool) else repr(n)


def txn(t):
    return {"id": str(t.id), "height": whole(t.height), "unconfirmed": bool(t.unconfirmed), "json": tag(t.json()),
            "ins": [spent(i) for i in t.coin_inputs], "stakeins": [spent(i) for i in t.blockstake_inputs],
            "outs": [output(o) for o in t.coin_outputs], "stakeouts": [output(o) for o in t.blockstake_outputs]}


def erc(i):
    return {"tft": str(i.address_tft), "erc": str(i.address_erc20), "confirmations": whole(i.confirmations)}


def identifier(c):
    i, f = c["arg"], c["form"]
    return {"str": lambda: i, "hash": lambda: Hash(value=i), "bytes": lambda: bytes.fromhex(i), "bytearray": lambda: bytearray.fromhex(i)}[f]()


def block(b):
    return {"id": str(b.id), "parentid": str(b.parentid), "height": whole(b.height), "timestamp": whole(b.timestamp), "txs": [txn(t) for t in b.transactions],
            "payouts": [{"id": str(p.id), "value": str(int(p.value)), "to": str(p.unlockhash)} for p in b.miner_payouts]}


def ask(client, c):
    k, arg = c["kind"], c["arg"]
    if k == "tx":
        return txn(client.transaction_get(identifier(c)))
    if k == "block":
        return block(client.block_get(identifier(c)))
    if k == "at":
        return block(client.block_get(int(arg)))
    if k in ("coin", "stake"):
        o, created, sp = (client.coin_output_get if k == "coin" else client.blockstake_output_get)(identifier(c))
        return {"out": output(o), "created": txn(created), "spent": [txn(sp)] if sp is not None else []}
    if k == "addr":
        target = {"none": lambda: None, "text": lambda: arg, "object": lambda: UnlockHash.from_json(arg), "tuple": lambda: (c["owners"], 1)}[c["form"]]()
        r = client.unlockhash_get(target)
        return {"addr": str(r.unlockhash), "txs": [txn(t) for t in r.transactions], "multi": [str(a) for a in r.multisig_addresses],
                "erc": [erc(r.erc20_info)] if r.erc20_info is not None else []}
    if k == "info":
        r = client.blockchain_info_get()
        return {"id": str(r.blockid), "height": whole(r.height), "timestamp": whole(r.timestamp)}
    if k == "mint":
        return tag(client.minter.condition_get(int(arg) if arg else None).json())
    if k == "erc":
        return erc(client.erc20.address_get(arg if c["form"] == "text" else UnlockHash.from_json(arg)))
    if k == "bot":
        w = {"int": lambda: int(arg), "text": lambda: arg, "pk": lambda: PublicKey.from_json(arg), "name": lambda: BotName.from_json(arg)}[c["form"]]()
        r = client.threebot.record_get(w)
        return {"id": whole(r.identifier), "names": [str(n) for n in r.names], "addresses": [str(a) for a in r.addresses], "key": str(r.public_key),
                "expiration": whole(r.expiration)}
    raise ValueError(k)


def run(c):
    client = TFChainClient(explorer_client=Answers(c["answers"]), network_type=NetworkType.STANDARD)
    signal.alarm(30)
    try:
        return {"k": "ok", "r": ask(client, c)}
    except Exception as e:
        return {"k": "err", "err": type(e).__name__, "why": str(e)[:160]}
    finally:
        signal.alarm(0)


def main():
    signal.signal(signal.SIGALRM, alarm)
    progs = json.load(open(sys.argv[1]))
    with open(sys.argv[2], "w") as out:
        out.write("[")
        for n, p in enumerate(progs):
            out.write(",\n" if n else "")
            t = {"id": p["id"], "events": []}
            try:
                for c in p["cases"]:
                    r = run(c)
                    t["events"].append(dict(c, e="answer", answers=[[a, tag(json.loads(text(j)))] for a, j in c["answers"]], res=r))
            except Exception:
                t["crash"] = traceback.format_exc()[-2000:]
            out.write(dumps(t))
        out.write("]")


if __name__ == "__main__":
    main()
