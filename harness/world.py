"""A simulated chain with an explorer, the world in which the real wallets act.

It accepts whatever is submitted, without judging it, and reports it faithfully, varying everything
an explorer may vary: the order of transactions, absent or null fields, and whether the transactions
of a multisig wallet or swap contract are also listed for the addresses involved. Everything that
happens is appended to `events`, the trace which the specification (spec/Session.tla) checks.
"""
import json

import minicodec as mc
from tag import tag

GENESIS_TIME = 1550000000


class NoContent(Exception):
    pass


class Rejected(Exception):
    pass


class World:
    def __init__(self, rng, fee):
        self.rng, self.fee = rng, fee
        self.height = rng.choice([100, 100, 1, 30, 9998, 99998, 299000, 9999999])
        self.time = GENESIS_TIME + rng.randrange(10 ** 6)
        self.blocks = {}                    # id -> block
        self.txs = {}                       # id -> {tx, height (None: pending), seq}
        self.outs = {}                      # id -> {value, cond, addr, tx, spent}
        self.stakes = {}
        self.bots, self.erc20 = {}, {}
        self.mints = []                     # [(height, condition)]
        self.events, self.posts = [], []
        self.reject = None
        self.queries = 0
        self.list_owner = rng.random() < 0.5   # list multisig and swap transactions for the addresses involved?
        self.n = 0
        self._block([])

    def emit(self, **e):
        self.events.append(e)

    # ---- chain ---------------------------------------------------------------------------------
    def _block(self, txids):
        self.n += 1
        bid = mc.blake(b"block %d %d" % (self.n, self.height)).hex()
        parent = self.tip if self.blocks else "00" * 32
        payouts = [{"value": str(10 ** 9), "unlockhash": mc.addr_text(1, mc.blake(b"miner %d" % i))}
                   for i in range(self.rng.randrange(3))]
        self.blocks[bid] = dict(id=bid, height=self.height, time=self.time, txs=list(txids), parent=parent, payouts=payouts,
                                ids=[mc.blake(b"payout %d %d" % (self.n, i)).hex() for i in range(len(payouts))])
        self.tip = bid
        self.emit(e="tip", h=self.height, t=str(self.time), id=bid)

    def mine(self, only=None, dt=None, blocks=1):
        """Confirm pending transactions (all of them unless limited; always with their ancestors)."""
        pend = [i for i, t in self.txs.items() if t["height"] is None]
        if only is not None:
            keep, more = set(only), True
            while more:
                more = False
                for i in list(keep):
                    for ci in mc.coin_ins(self.txs[i]["tx"]):
                        o = self.outs.get(ci["parentid"])
                        if o and self.txs[o["tx"]]["height"] is None and o["tx"] not in keep:
                            keep.add(o["tx"])
                            more = True
            pend = [i for i in pend if i in keep]
        self.height += blocks
        self.time += dt if dt is not None else 60 + self.rng.randrange(600)
        for i in pend:
            self.txs[i]["height"] = self.height
        if pend:
            self.emit(e="confirm", ids=pend, h=self.height)
        self._block(pend)
        for i in pend:
            self._apply(self.txs[i]["tx"])

    def _apply(self, tx):
        d = tx["data"]
        if tx["version"] == 128:
            self.mint(d["mintcondition"])
        elif tx["version"] == 144 and d["identification"]["publickey"] not in [b["publickey"] for b in self.bots.values()]:   # one bot per key
            self.bot(len(self.bots) + 1, d["identification"]["publickey"], d.get("names") or [], d.get("addresses") or [],
                     self.time + 30 * 86400 * d["nrofmonths"])
        elif tx["version"] == 145 and d["id"] in self.bots:
            b = self.bots[d["id"]]
            new = {}
            for k in ("names", "addresses"):
                c = d.get(k) or {}
                new[k] = [x for x in b[k] if x not in (c.get("remove") or [])] + (c.get("add") or [])
            self.bot(d["id"], b["publickey"], new["names"], new["addresses"],
                     max(b["expiration"], self.time) + 30 * 86400 * (d.get("nrofmonths") or 0))
        elif tx["version"] == 146 and d["sender"]["id"] in self.bots and d["receiver"]["id"] in self.bots:
            s, r, nn = self.bots[d["sender"]["id"]], self.bots[d["receiver"]["id"]], d.get("names") or []
            self.bot(s["id"], s["publickey"], [x for x in s["names"] if x not in nn], s["addresses"], s["expiration"])
            self.bot(r["id"], r["publickey"], r["names"] + nn, r["addresses"], r["expiration"])
        elif tx["version"] == 210:
            self.register(mc.key_addr(bytes.fromhex(d["pubkey"].split(":")[1])))

    def add(self, tx, confirmed):
        """A transaction enters the chain (confirmed) or the pool of pending transactions."""
        self.n += 1
        txid = mc.blake(b"txid %d" % self.n + mc.id_input(tx)).hex()
        self.txs[txid] = dict(tx=tx, height=self.height if confirmed else None, seq=self.n)
        for ci in mc.coin_ins(tx):
            o = self.outs.get(ci["parentid"])
            if o and o["spent"] is None:
                o["spent"] = txid
        ids = mc.output_ids(tx)
        for oid, o in zip(ids, mc.coin_outs(tx)):
            self.outs[oid] = dict(value=int(o["value"]), cond=o["condition"], addr=mc.cond_addr(o["condition"]), tx=txid, spent=None)
        self.emit(e="tx", id=txid, tx=tag(tx), conf=bool(confirmed), ids=ids)
        if confirmed:
            self.blocks[self.tip]["txs"].append(txid)
            self._apply(tx)
        return txid, ids

    def give(self, outs, confirmed=True, kind="genesis"):
        """Outputs that come from outside: genesis, minting, or the transactions of others."""
        outs = [{"value": str(v), "condition": c} for v, c in outs]
        self.n += 1
        if kind == "mint":
            import base64
            tx = {"version": 129, "data": {"nonce": base64.b64encode(self.n.to_bytes(8, "big")).decode(),
                                           "mintfulfillment": {"type": 1, "data": {"publickey": "ed25519:" + "01" * 32, "signature": "02" * 64}},
                                           "coinoutputs": outs, "minerfees": [str(self.fee)]}}
        elif kind == "erc20" and len(outs) == 1 and outs[0]["condition"].get("type") == 1:
            tx = {"version": 209, "data": {"address": outs[0]["condition"]["data"]["unlockhash"], "value": outs[0]["value"],
                                           "txfee": str(self.fee), "blockid": "0x" + mc.blake(b"eb %d" % self.n).hex(),
                                           "txid": "0x" + mc.blake(b"et %d" % self.n).hex()}}
        else:
            import base64
            tx = {"version": 1, "data": {"coininputs": [], "coinoutputs": outs, "minerfees": [str(self.fee)],
                                         "arbitrarydata": base64.b64encode(b"%d" % self.n).decode()}}
        return self.add(tx, confirmed)

    def mint(self, cond):
        self.mints.append((self.height, cond))
        self.emit(e="mint", cond=tag(cond), h=self.height)

    def bot(self, i, key, names, addresses, expiration):
        self.bots[i] = dict(id=i, publickey=key, names=list(names), addresses=list(addresses), expiration=expiration)
        self.emit(e="bot", id=i, key=key, names=list(names), addresses=list(addresses), exp=str(expiration))

    def register(self, addr):
        c = self.rng.randrange(1000)
        self.erc20[addr] = c
        self.emit(e="erc20", addr=addr, conf=c)

    # ---- explorer ------------------------------------------------------------------------------
    def multisigs(self, addr):
        res = []
        conds = [o["cond"] for o in self.outs.values()] + [c for _, c in self.mints]
        conds += [t["tx"]["data"]["mintcondition"] for t in self.txs.values() if t["tx"]["version"] == 128]
        for c in conds:
            c = mc.inner(c)
            if c.get("type") == 4 and addr in c["data"]["unlockhashes"]:
                a = mc.cond_addr(c)
                if a not in res:
                    res.append(a)
        self.rng.shuffle(res)
        return res

    def touches(self, tx, addr):
        """Is a transaction listed for an address?"""
        conds = [self.outs[ci["parentid"]]["cond"] for ci in mc.coin_ins(tx) if ci["parentid"] in self.outs]
        conds += [o["condition"] for o in mc.coin_outs(tx)]
        if tx["version"] == 128:
            conds.append(tx["data"]["mintcondition"])
        for c in conds:
            if mc.cond_addr(c) == addr:
                return True
            if self.list_owner:
                d = mc.inner(c).get("data") or {}
                if addr in (d.get("unlockhashes") or []) or addr in (d.get("sender"), d.get("receiver")):
                    return True
        return False

    def explorer_tx(self, txid):
        t = self.txs[txid]
        tx, rng = t["tx"], self.rng
        co = []
        for ci in mc.coin_ins(tx):
            o = self.outs[ci["parentid"]]
            co.append({"value": str(o["value"]), "condition": o["cond"], "unlockhash": o["addr"]})
        e = {"id": txid, "height": t["height"] if t["height"] is not None else rng.choice([0, 0, self.height + 1]),
             "parent": self.tip, "rawtransaction": tx, "coininputoutputs": co or rng.choice([None, []]),
             "coinoutputids": mc.output_ids(tx) or rng.choice([None, []]),
             "blockstakeinputoutputs": None, "blockstakeoutputids": mc.stake_ids(tx) or None}
        if t["height"] is None:
            e["unconfirmed"] = True
        elif rng.random() < 0.5:
            e["unconfirmed"] = False
        items = list(e.items())
        rng.shuffle(items)
        return dict(items)

    def explorer_block(self, bid):
        b = self.blocks[bid]
        return {"blockid": bid, "height": b["height"], "transactions": [self.explorer_tx(i) for i in b["txs"]],
                "minerpayoutids": b["ids"] or self.rng.choice([None, []]),
                "rawblock": {"parentid": b["parent"], "timestamp": b["time"],
                             "minerpayouts": b["payouts"] or self.rng.choice([None, []])}}

    def get(self, endpoint):
        self.queries += 1
        return json.dumps(self._get(endpoint))

    def _get(self, endpoint):
        rng = self.rng
        if endpoint == "/explorer":
            return {"blockid": self.tip, "height": self.height}
        if endpoint == "/explorer/constants":
            return {"chaininfo": {"NetworkName": self.network}}
        p = endpoint.split("/")[2:]
        if p[0] == "blocks":
            for b in self.blocks.values():
                if b["height"] == int(p[1]):
                    return {"block": self.explorer_block(b["id"])}
            raise NoContent(endpoint)
        if p[0] == "mintcondition":
            h = int(p[1]) if len(p) > 1 else self.height
            cs = [c for ch, c in self.mints if ch <= h] or [c for _, c in self.mints[:1]]
            return {"mintcondition": cs[-1]}
        if p[0] in ("3bot", "whois"):
            what = p[-1]
            for b in self.bots.values():
                if what in ([b["publickey"], str(b["id"])] if p[0] == "3bot" else b["names"]):
                    r = dict(b)
                    if not r["names"] and rng.random() < 0.7:
                        r["names"] = None
                    if not r["addresses"] and rng.random() < 0.7:
                        del r["addresses"]
                    return {"record": r}
            raise NoContent(endpoint)
        if p[0] != "hashes":
            raise NoContent(endpoint)
        h = p[1]
        if len(h) == 78:
            txs = [i for i in self.txs if self.touches(self.txs[i]["tx"], h)]
            ms = self.multisigs(h)
            if not txs and not ms and h not in self.erc20:
                raise NoContent(endpoint)
            rng.shuffle(txs)
            r = {"hashtype": "unlockhash", "block": {}, "blocks": None, "transactions": [self.explorer_tx(i) for i in txs]}
            if ms or rng.random() < 0.5:
                r["multisigaddresses"] = ms or rng.choice([None, []])
            if h in self.erc20:
                r["erc20info"] = {"tftaddress": h, "erc20address": "0x" + mc.blake(mc.addr(h))[12:].hex(),
                                  "confirmations": self.erc20[h]}
            return r
        if h in self.blocks:
            return {"hashtype": "blockid", "block": self.explorer_block(h)}
        if h in self.txs:
            return {"hashtype": "transactionid", "transaction": self.explorer_tx(h)}
        if h in self.outs:
            o = self.outs[h]
            txs = [o["tx"]] + ([o["spent"]] if o["spent"] else [])
            rng.shuffle(txs)
            return {"hashtype": "coinoutputid", "transactions": [self.explorer_tx(i) for i in txs]}
        raise NoContent(endpoint)

    def post(self, endpoint, tx):
        rec = {"tx": tag(tx), "ep": endpoint, "ok": False, "id": ""}
        self.posts.append(rec)
        if self.reject is not None:
            raise Rejected(self.reject)
        before = self.events
        self.events = []                     # the specification takes the transaction from the operation itself
        try:
            txid, _ = self.add(tx, False)
        finally:
            self.events = before
        rec["ok"], rec["id"] = True, txid
        return json.dumps({"transactionid": txid})
