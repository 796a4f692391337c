"""Wire format of the chain for the simulated explorer: output identifiers and addresses.

Written independently of tfchain from the same rules as spec/Wire.tla; the specification recomputes
and compares every identifier that the simulated explorer hands out.
"""
import base64
import hashlib


def blake(b):
    return hashlib.blake2b(bytes(b), digest_size=32).digest()


def le(n, size=8):
    return int(n).to_bytes(size, "little")


def rivlen(n):
    if n < 1 << 7:
        return le(n << 1, 1)
    if n < 1 << 14:
        return le(n << 2 | 1, 2)
    if n < 1 << 21:
        return le(n << 3 | 3, 3)
    return le(n << 3 | 7, 4)


def slc(f, b):
    return (le(len(b)) if f == "sia" else rivlen(len(b))) + bytes(b)


def many(f, bs):
    return (le(len(bs)) if f == "sia" else rivlen(len(bs))) + b"".join(bs)


def amount(f, v):
    v = int(v or 0)
    return slc(f, v.to_bytes((v.bit_length() + 7) // 8, "big"))


def key(f, pk):
    if not pk:
        return bytes(24) if f == "sia" else b"\0"
    raw = bytes.fromhex(pk.split(":")[1])
    return b"ed25519".ljust(16, b"\0") + slc("sia", raw) if f == "sia" else b"\1" + raw


def addr_text(t, h):
    return (bytes([t]) + h + (bytes(6) if t == 0 else blake(bytes([t]) + h)[:6])).hex()


NIL = addr_text(0, bytes(32))


def addr(a):
    return bytes.fromhex(a or NIL)[:33]


def key_addr(raw):
    return addr_text(1, blake(slc("sia", key("sia", "ed25519:" + bytes(raw).hex()))))


def merkle(leaves):
    if len(leaves) == 1:
        return blake(b"\0" + leaves[0])
    k = 1
    while 2 * k < len(leaves):
        k *= 2
    return blake(b"\1" + merkle(leaves[:k]) + merkle(leaves[k:]))


def multi_addr(owners, n):
    return addr_text(3, merkle([le(len(owners))] + [addr(o) for o in sorted(owners)] + [le(n)]))


def cond_data(f, c):
    t, d = c.get("type", 0) or 0, c.get("data") or {}
    if t == 0:
        return b""
    if t == 1:
        return addr(d["unlockhash"])
    if t == 2:
        return addr(d["sender"]) + addr(d["receiver"]) + bytes.fromhex(d["hashedsecret"]) + le(d["timelock"])
    if t == 3:
        return le(d["locktime"]) + bytes([d["condition"].get("type", 0) or 0]) + cond_data(f, d["condition"])
    return le(d["minimumsignaturecount"]) + many(f, [addr(a) for a in d["unlockhashes"]])


def cond(f, c):
    return bytes([c.get("type", 0) or 0]) + slc(f, cond_data(f, c))


def inner(c):
    return c["data"]["condition"] if c.get("type") == 3 else c


def lock_of(c):
    return c["data"]["locktime"] if c.get("type") == 3 else 0


def cond_addr(c):
    c = inner(c)
    t, d = c.get("type", 0) or 0, c.get("data") or {}
    if t == 0:
        return NIL
    if t == 1:
        return d["unlockhash"]
    if t == 2:
        return addr_text(2, blake(slc("sia", cond_data("sia", c))))
    return multi_addr(d["unlockhashes"], d["minimumsignaturecount"])


def pair(f, p):
    return key(f, p.get("publickey")) + slc(f, bytes.fromhex(p.get("signature") or ""))


def fulf(f, j):
    t, d = j["type"], j.get("data") or {}
    if t == 1:
        b = pair(f, d)
    elif t == 2:
        b = pair(f, d) + bytes.fromhex(d.get("secret") or "")
    else:
        b = many(f, [pair(f, p) for p in d.get("pairs") or []])
    return bytes([t]) + slc(f, b)


def out(f, o):
    return amount(f, o["value"]) + cond(f, o["condition"])


def ins(f, s):
    return many(f, [bytes.fromhex(i["parentid"]) + fulf(f, i["fulfillment"]) for i in s])


def outs(f, s):
    return many(f, [out(f, o) for o in s])


SPEC = {128: b"minter defin tx", 129: b"coin mint tx", 144: b"bot register tx", 145: b"bot recupdate tx",
        146: b"bot nametrans tx", 208: b"erc20 convert tx", 209: b"erc20 coingen tx", 210: b"erc20 addrreg tx"}


def netaddr(s):
    import ipaddress
    if ":" in s:
        return bytes([2 + 64]) + ipaddress.IPv6Address(s).packed
    if s.replace(".", "").isdigit():
        return bytes([1 + 16]) + ipaddress.IPv4Address(s).packed
    return bytes([4 * len(s)]) + s.encode()


def coin_ins(tx):
    return (tx.get("data") or {}).get("coininputs") or []


def coin_outs(tx):
    d = tx.get("data") or {}
    if tx["version"] == 209:
        return [{"value": d["value"], "condition": {"type": 1, "data": {"unlockhash": d["address"]}}}]
    if tx["version"] in (144, 145, 146, 208, 210):
        return [d["refundcoinoutput"]] if d.get("refundcoinoutput") else []
    return d.get("coinoutputs") or []


def unhex0x(s):
    return bytes.fromhex(s[2:] if s.startswith("0x") else s)


def id_input(tx):
    v, d = tx["version"], tx.get("data") or {}
    s, r = "sia", "riv"
    data = base64.b64decode(d.get("arbitrarydata") or "")
    fees = d.get("minerfees") or []
    refund = [d["refundcoinoutput"]] if d.get("refundcoinoutput") else []
    if v == 1:
        return b"\1" + slc(s, ins(s, coin_ins(tx)) + outs(s, coin_outs(tx)) + ins(s, d.get("blockstakeinputs") or [])
                           + outs(s, d.get("blockstakeoutputs") or []) + many(s, [amount(s, x) for x in fees]) + slc(s, data))
    b = SPEC[v].ljust(16, b"\0")
    if v in (128, 129):
        b += base64.b64decode(d["nonce"]) + fulf(s, d["mintfulfillment"])
        b += cond(s, d["mintcondition"]) if v == 128 else outs(s, coin_outs(tx))
        return b + many(s, [amount(s, x) for x in fees]) + slc(s, data)
    fee = amount(r, d.get("txfee"))
    inputs = ins(r, coin_ins(tx)) if v != 209 else b""
    ref = b"".join(out(r, o) for o in refund)
    opt = (b"\1" if refund else b"\0") + ref

    def lst(o, k):
        return (d.get(o) or {}).get(k) or []
    if v == 144:
        na, nn = d.get("addresses") or [], d.get("names") or []
        flags = d.get("nrofmonths", 0) + (32 if na else 0) + (64 if nn else 0) + (128 if refund else 0)
        ident = d["identification"]
        return (b + bytes([flags, len(na) + 16 * len(nn)]) + b"".join(map(netaddr, na))
                + b"".join(slc(r, n.encode()) for n in nn) + fee + inputs + ref
                + key(r, ident["publickey"]) + bytes.fromhex(ident["signature"]))
    if v == 145:
        aa, ar, na, nr = lst("addresses", "add"), lst("addresses", "remove"), lst("names", "add"), lst("names", "remove")
        flags = (d.get("nrofmonths") or 0) + (32 if aa + ar else 0) + (64 if na + nr else 0) + (128 if refund else 0)
        b += le(d["id"], 4) + bytes([flags])
        if aa + ar:
            b += bytes([len(aa) + 16 * len(ar)]) + b"".join(map(netaddr, aa + ar))
        if na + nr:
            b += bytes([len(na) + 16 * len(nr)]) + b"".join(slc(r, n.encode()) for n in na + nr)
        return b + fee + inputs + ref + slc(r, bytes.fromhex(d["signature"]))
    if v == 146:
        nn = d.get("names") or []
        return (b + le(d["sender"]["id"], 4) + slc(r, bytes.fromhex(d["sender"]["signature"]))
                + le(d["receiver"]["id"], 4) + slc(r, bytes.fromhex(d["receiver"]["signature"]))
                + bytes([len(nn) + (16 if refund else 0)]) + b"".join(slc(r, n.encode()) for n in nn) + fee + inputs + ref)
    if v == 208:
        return b + unhex0x(d["address"]) + amount(r, d["value"]) + fee + inputs + opt
    if v == 209:
        return b + addr(d["address"]) + amount(r, d["value"]) + fee + unhex0x(d["blockid"]) + unhex0x(d["txid"])
    if v == 210:
        return (b + key(r, d["pubkey"]) + slc(r, bytes.fromhex(d["signature"])) + amount(r, d["regfee"])
                + fee + inputs + opt)
    raise ValueError(v)


def output_ids(tx):
    base = b"coin output".ljust(16, b"\0") + id_input(tx)
    return [blake(base + le(i)).hex() for i in range(len(coin_outs(tx)))]


def stake_ids(tx):
    base = b"blstake output".ljust(16, b"\0") + id_input(tx)
    return [blake(base + le(i)).hex() for i in range(len((tx.get("data") or {}).get("blockstakeoutputs") or []))]
