"""The parts that checks are made of. Each runs something and yields the rules that were broken."""
import glob
import json
import os
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
ASSUMPTIONS = [
    "the cryptographic primitives (blake2b, SHA-256, Ed25519) of the specification are those of its Java overrides, cross-checked against recorded chain transactions",
    "the chain and its explorers are the simulated world of harness/world.py (X01, X02: real HTTP servers on the loopback network); what reaches the specification are the wallet's own requests, results and submissions",
    "bounded: a few wallets, keys and outputs per history; random histories beyond the exhaustively explored sizes",
]

# ---- exhaustive exploration of the abstract system --------------------------------------------------------
MC = """SPECIFICATION MCSpec
VIEW View
CONSTANTS
 NW = {nw}
 NK = 1
 MaxIn = 2
 Unit = 0
 Pick <- AllPicks
 Deco <- Id
 Menu = {{{menu}}}
 MaxSteps = {steps}
 MaxTxs = 3
 MaxOuts = 4
 Vals = {{{vals}}}
 Minters0 <- {minters}
INVARIANTS Conservation SpentOnce SpentByRecorded Entitled OnlyOwners PositiveOutputs InputLimit ClaimsRight Balanced
PROPERTIES NoLockedSpent RefundsInTime OutputsStay SignaturesStay MintedRightly
"""
# name: (menu, wallets, minters, (steps, values) quick, (steps, values) thorough)
MODELS = {
    "pay": ("give mine send sign top", 2, "M22", (3, "2"), (4, "2")),
    "three": ("give send sign", 3, "M23", (4, "2"), (5, "2")),
    "swap": ("give mine swap claim send", 2, "M22", (4, "3"), (5, "3")),
    "mint": ("mint sign mine", 2, "M22", (4, "2"), (6, "2")),
    "bots": ("give bot erc mine sign", 2, "M22", (3, "2"), (4, "2")),
    "drain": ("give drain mine sign", 2, "M22", (4, "1, 3"), (5, "1, 3")),
}


class Models:
    source = "model"

    def __init__(self, *names):
        self.names, self.name = names, "models " + " ".join(names)

    def run(self, eng, tier, seed, deadline, pid):
        res = []
        for n in self.names:
            menu, nw, minters, q, t = MODELS[n]
            steps, vals = t if tier == "thorough" else q
            cfg = MC.format(nw=nw, menu=", ".join('"%s"' % m for m in menu.split()), steps=steps, vals=vals, minters=minters)
            res.append(eng.model_check(n, "SystemMC.tla", cfg, timeout=600))
        return {"name": self.name, "bad": [], "models": res, "states": sum(r["states"] for r in res), "transitions": sum(r["transitions"] for r in res)}


KEYS = """CONSTANTS
 MaxKey = {max}
 MaxSteps = {steps}
 Counts {counts}
 Scans {scans}
 Random = {random}
"""


class KeyModel:
    source, name = "keymodel", "model of key recovery"

    def run(self, eng, tier, seed, deadline, pid):
        big = tier == "thorough"
        cfg = "SPECIFICATION Spec\nVIEW View\n" + KEYS.format(max=9 if big else 7, steps=9 if big else 7, counts="= {1, 2, 4}", scans="= {0, 1, 2, 3}", random="FALSE") + \
            "INVARIANTS NoKeyTwice NoneLost HandedOutHeld GapsInOrder RecoveryRight\nPROPERTIES KeepsKeys NextIsLowest\n"
        r = eng.model_check("keys", "KeysMC.tla", cfg, timeout=600)
        return {"name": self.name, "bad": [], "models": [r], "states": r["states"], "transitions": r["transitions"]}


class MergeModel:
    source, name = "mergemodel", "laws of merging"

    def run(self, eng, tier, seed, deadline, pid):
        cfg = "SPECIFICATION Spec\nCONSTANTS\n Outs = {{1}}\n Rich = {}\nINVARIANTS Commutes Idempotent Again Grouped NothingLost NotMixed\n"
        rs = [eng.model_check("merging", "MergingMC.tla", cfg.format("FALSE"))]
        if tier == "thorough":
            rs.append(eng.model_check("merging with multisig balances", "MergingMC.tla", cfg.format("TRUE")))
        return {"name": self.name, "bad": [], "models": rs, "states": sum(r["states"] for r in rs), "transitions": sum(r["transitions"] for r in rs)}


class SelfTest:
    """The wire format of the specification against recorded chain transactions and vectors."""
    source, name = "selftest", "self test"

    def run(self, eng, tier, seed, deadline, pid):
        rc, out = eng.tlc("SelfTest.tla", "SPECIFICATION Spec\n", ["-workers", "8"])
        import engine
        if rc or "Error" in out:
            raise engine.Broken("the self test of the specification fails:\n" + out[-2000:])
        return {"name": self.name, "bad": []}


# ---- histories: programs from the specification, run on the real code, judged by the specification --------
GEN = """SPECIFICATION GenSpec
CONSTANTS
 NW = 3
 NK = 2
 MaxIn = 99
 Unit = {unit}
 Pick <- Greedy
 Deco <- Details
 Menu <- Menu{menu}
 Depth = {depth}
 Big = {big}
"""
SESSION = "SPECIFICATION Spec\nCONSTANT KeyMax = 22\n"
# menu: (programs, depth, large coins?)
MENUS = {"Pay": (100, 26, False), "Multi": (90, 26, False), "Balance": (80, 26, False), "Bulk": (40, 12, False), "Drain": (130, 22, False),
         "Swap": (110, 26, False), "Verify": (110, 24, False), "Mint": (110, 28, False), "Bot": (110, 24, True), "Erc": (110, 24, False),
         "Merge": (90, 36, False), "Keys": (110, 30, False), "Ask": (90, 30, False), "All": (100, 34, False)}


class Sessions:
    source = "session"
    harness, judge_spec, judge_cfg = "session.py", "Session.tla", SESSION
    corpus_dir = "programs"

    def __init__(self, *menus):
        self.menus, self.name = menus, "histories " + " ".join(menus)

    def config(self, menu, depth, big, dev):
        return GEN.format(unit=1 if dev else 10, menu=menu, depth=depth, big="TRUE" if big else "FALSE")

    def generate(self, eng, menu, num, depth, big, seed, dev=False):
        if menu == "Keys":
            cfg, spec = "SPECIFICATION WalkSpec\n" + KEYS.format(max=14, steps=depth, counts="<- ManyCounts", scans="<- ManyScans", random="TRUE"), "KeysMC.tla"
        else:
            spec = "SystemGen.tla"
            cfg = self.config(menu, depth, big, dev)
        ps = eng.generate(spec, cfg, num, depth + 6, seed)
        for i, p in enumerate(ps):
            p.update(id="%s-%d-%d" % (menu, seed, i), seed=seed * 1000 + i)
            if dev:
                p.update(id=p["id"] + "-dev", net="dev")
        return ps

    def corpus(self, pid):
        res = []
        for f in sorted(glob.glob(os.path.join(HERE, "corpus", self.corpus_dir, "*.json"))):
            with open(f) as h:
                for p in json.load(h):
                    if pid in p.get("for", [pid]):
                        p.setdefault("seed", 1)
                        res.append(p)
        return res

    def programs(self, eng, tier, seed, rnd):
        todo = []
        for k, m in enumerate(self.menus):
            num, depth, big = MENUS[m]
            if tier == "thorough":
                num, depth = 3 * num, depth + 12 * (rnd % 3)
            s = seed * 100000 + rnd * 100 + k * 10
            todo.append((m, num, depth, big, s, False))
            if rnd or tier == "quick":
                todo.append((m, num // 4, depth, big, s + 1, True))
        with ThreadPoolExecutor(6) as ex:
            return [p for l in ex.map(lambda x: self.generate(eng, *x), todo) for p in l]

    def is_operation(self, e):
        return e["e"] == "op"

    def summary(self, t):
        return [[e["op"], e["res"]["k"]] for e in t["events"] if e["e"] == "op"]

    def run(self, eng, tier, seed, deadline, pid):
        acc = {"name": self.name, "bad": [], "traces": 0, "evaluations": 0, "hits": {}, "samples": [], "states": 0, "transitions": 0}
        rnd = 0
        while True:
            t0 = time.time()
            ps = self.programs(eng, tier, seed, rnd)
            if rnd == 0:
                ps = self.corpus(pid) + ps
            self.judge(eng, ps, acc)
            rnd += 1
            if tier != "thorough" or acc["bad"] or time.time() + (time.time() - t0) * 1.3 > deadline:
                return acc

    def judge(self, eng, ps, acc):
        by = {p["id"]: p for p in ps}
        traces = eng.harness(self.harness, ps)
        verdicts = eng.judge(self.judge_spec, self.judge_cfg, traces)
        for t in traces:
            v = verdicts[t["id"]]
            acc["traces"] += 1
            acc["evaluations"] += sum(self.is_operation(e) for e in t["events"])
            acc["states"] += v["n"]
            acc["transitions"] += v["n"]
            for h in v["hit"]:
                acc["hits"][h] = acc["hits"].get(h, 0) + 1
            bad = [(b[0], b[1], b[2]) for b in v["bad"]]
            if "crash" in t:
                bad.append((len(t["events"]), "*", "the operations work: " + t["crash"].strip().splitlines()[-1][:200]))
            for n, p, rule in bad:
                acc["bad"].append({"property": p, "rule": rule, "event": n, "where": t["id"], "source": self.source, "case": by[t["id"]],
                                   "recorded": {"event": t["events"][n - 1] if n else None, "why": v.get("why"), "crash": t.get("crash")}})
        if len(acc["samples"]) < 2:
            acc["samples"].append({"program": ps[-1], "operations": self.summary(traces[-1])})

    def again(self, eng, case):
        acc = {"bad": [], "traces": 0, "evaluations": 0, "hits": {}, "samples": [], "states": 0, "transitions": 0}
        self.judge(eng, [case], acc)
        return acc["bad"]


# ---- values and notations ---------------------------------------------------------------------------------
# kind: (programs, cases per program)
KINDS = {"Enc": (2000, 25), "Amt": (1600, 40), "Addr": (2400, 25), "Names": (300, 12), "Lock": (1600, 40), "Merkle": (1600, 24), "Tx": (400, 14), "Mut": (300, 30), "Gap": (100, 1)}


class Codec(Sessions):
    """Programs of values, notations and transactions, each a function of a drawn seed."""
    source = "codec"
    harness, judge_spec, judge_cfg = "codec.py", "Codec.tla", "SPECIFICATION Spec\n"
    corpus_dir = "codec"

    def __init__(self, *kinds):
        self.kinds, self.name = kinds, "values " + " ".join(kinds)

    def one(self, eng, kind, num, count, seed):
        cfg = 'SPECIFICATION Spec\nCONSTANTS\n Kind = "%s"\n Count = %d\n' % (kind, count)
        ps = eng.generate("CodecGen.tla", cfg, num, 4, seed)
        for i, p in enumerate(ps):
            p.update(id="%s-%d-%d" % (kind, seed, i), seed=seed * 1000 + i)
        return ps

    def programs(self, eng, tier, seed, rnd):
        todo = []
        for k, kind in enumerate(self.kinds):
            num, count = KINDS[kind]
            share = 4 if tier == "thorough" else 2
            todo += [(kind, num // 2 if tier == "thorough" else num // share, count, seed * 100000 + rnd * 100 + k * 10 + x) for x in range(share)]
        with ThreadPoolExecutor(8) as ex:
            return [p for l in ex.map(lambda x: self.one(eng, *x), todo) for p in l]

    def is_operation(self, e):
        return "res" in e

    def summary(self, t):
        return [[e["e"], e["res"]["k"]] for e in t["events"] if "res" in e][:20]


# family: (from, to) quick, (from, to) thorough
FAMILIES = {"lengths": ((0, 0), (0, 0)), "values": ((1, 60), (1, 250)), "amounts": ((0, 0), (0, 0)), "dates": ((4000, 9000), (0, 47481)),
            "durations": ((0, 4000), (0, 90000)), "clocks": ((0, 20000), (0, 86399)), "roots": ((1, 110), (1, 360)), "addresses": ((1, 3), (1, 40)),
            "owners": ((0, 0), (0, 0)), "transactions": ((1, 2500), (1, 30000))}
FAMILY = """SPECIFICATION MCSpec
CONSTANTS
 Kind = ""
 Count = 1
 Family = "{0}"
 From = {1}
 To = {2}
INVARIANT Law
"""


class CodecModel:
    source = "codecmodel"

    def __init__(self, *families):
        self.families, self.name = families, "laws of " + " ".join(families)

    def run(self, eng, tier, seed, deadline, pid):
        rs = []
        for f in self.families:
            a, b = FAMILIES[f][tier == "thorough"]
            rs.append(eng.model_check("laws of " + f, "CodecMC.tla", FAMILY.format(f, a, b), timeout=700))
        return {"name": self.name, "bad": [], "models": rs, "states": sum(r["states"] for r in rs), "transitions": sum(r["transitions"] for r in rs)}


# ---- explorers ---------------------------------------------------------------------------------------------
class ExplorerModel:
    source = "explorermodel"
    name = "model of queries over explorers"

    def run(self, eng, tier, seed, deadline, pid):
        cfg = ("SPECIFICATION MCSpec\nCONSTANTS\n Count = %d\nINVARIANTS NobodyTwice NeverInvented SucceedsIfPossible UnavailableOnlyIfSo NotFoundOnlyIfSaid OneSubmission Rejections\n"
               "PROPERTIES Finishes\n" % (4 if tier == "thorough" else 3))
        r = eng.model_check("queries", "ExplorerMC.tla", cfg, timeout=700)
        return {"name": self.name, "bad": [], "models": [r], "states": r["states"], "transitions": r["transitions"]}


class Explorers(Codec):
    """Queries over explorers on the loopback network: all behaviours of a few explorers, and random histories."""
    source = "explorer"
    harness, judge_spec, judge_cfg = "explorer.py", "ExplorerTrace.tla", "SPECIFICATION Spec\n"
    corpus_dir = "explorer"

    def __init__(self, *kinds):
        self.kinds, self.name = kinds, "queries " + " ".join(kinds)

    def one(self, eng, kind, num, count, seed, size=1, slice=50):
        cfg = 'SPECIFICATION ESpec\nCONSTANTS\n Kind = "%s"\n Count = %d\n Size = %d\n Portion = %d\n' % (kind, count, size, slice)
        if kind == "Each":
            ps = eng.generate("ExplorerGen.tla", cfg, 1, 10000, seed)
        else:
            ps = eng.generate("ExplorerGen.tla", cfg, num, 4, seed)
        for i, p in enumerate(ps):
            p.update(id="%s-%d-%d-%d" % (kind, size, seed, i))
        return ps

    def programs(self, eng, tier, seed, rnd):
        todo = []
        for k, kind in enumerate(self.kinds):
            if kind == "Each":
                todo += [(kind, 1, 1, 1, n, s) for n, s in ((1, 10), (2, 20), (3, 60))] if rnd == 0 else []
            else:
                num = 120 if tier == "thorough" else 40
                todo += [(kind, num, 16, seed * 100000 + rnd * 100 + k * 10 + x) for x in range(4)]
        with ThreadPoolExecutor(8) as ex:
            return [p for l in ex.map(lambda x: self.one(eng, *x), todo) for p in l]


class Answered(Codec):
    """Queries with their answers, right ones and corrupted ones."""
    source = "answers"
    harness, judge_spec, judge_cfg = "answers.py", "AnswersTrace.tla", "SPECIFICATION Spec\n"
    corpus_dir = "answers"

    def __init__(self):
        self.kinds, self.name = ("Answers",), "answers to queries"

    def one(self, eng, kind, num, count, seed):
        ps = eng.generate("AnswersGen.tla", 'SPECIFICATION ASpec\nCONSTANTS\n Kind = ""\n Count = %d\n' % count, num, 4, seed)
        for i, p in enumerate(ps):
            p.update(id="Answers-%d-%d" % (seed, i))
        return ps

    def programs(self, eng, tier, seed, rnd):
        todo = [("Answers", 120 if tier == "thorough" else 50, 20, seed * 100000 + rnd * 100 + x) for x in range(6)]
        with ThreadPoolExecutor(8) as ex:
            return [p for l in ex.map(lambda x: self.one(eng, *x), todo) for p in l]


BY_SOURCE = {"session": Sessions(), "codec": Codec(), "explorer": Explorers(), "answers": Answered()}
