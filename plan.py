"""What decides each property."""
from parts import Answered, Codec, CodecModel, ExplorerModel, Explorers, KeyModel, MergeModel, Models, SelfTest, Sessions

TECHNIQUE = "TLA+ specification: TLC model checking of the system, generated behaviours replayed on the real code, recorded traces checked against the specification"


VALUES = ("TLA+ specification of the notations: TLC checks its laws over families of values; values and corrupted texts that the specification draws are run "
          "through the real code, and what the code made of them is checked against the specification")
QUERIES = ("TLA+ specification of a query over several explorers: TLC checks it exhaustively and generates all sequences of faults, which real servers then show to the "
           "real client over HTTP; what was asked and what came back is checked against the specification")
REPORTS = ("TLA+ specification of what each answer of an explorer says: answers that the specification draws, right and corrupted ones, are given to the real client and "
           "its reports are checked against the specification, as are the histories recorded from whole sessions")
NOTES = ("Bounded: the abstract system is explored exhaustively at small sizes, and random behaviours of it are run on the real code; every recorded "
         "operation is judged by the specification with real signatures and identifiers. Trusted: TLC, the Java overrides for the hash and signature "
         "primitives (cross-checked against recorded chain transactions), and the simulated chain of the harness.")


def plan(*parts, level="model_checking", note="", technique=TECHNIQUE):
    return {"parts": list(parts), "level": level, "note": note, "technique": technique}


PLAN = {
    "W01": plan(Models("pay"), Sessions("Pay", "Multi", "Bulk", "Swap")),
    "W02": plan(Models("pay"), Sessions("Pay", "Multi", "Bulk", "Swap", "Bot", "Erc")),
    "W03": plan(Models("pay"), Sessions("Pay", "Bulk", "Multi", "Erc", "Swap", "Bot", "Mint")),
    "W04": plan(Models("pay"), Sessions("Balance", "Pay", "Keys")),
    "W05": plan(Models("three"), Sessions("Balance", "Multi")),
    "W06": plan(MergeModel(), Sessions("Merge")),
    "W07": plan(KeyModel(), Sessions("Keys", "Bot")),
    "W08": plan(Models("pay", "three"), Sessions("Multi", "Mint", "Swap", "Bot")),
    "W09": plan(Models("three", "mint"), Sessions("Multi", "Mint", "Pay", "Bot"), Codec("Tx")),
    "W10": plan(Models("drain"), Sessions("Drain", "Balance")),
    "A01": plan(Models("swap"), Sessions("Swap")),
    "A02": plan(Models("swap"), Sessions("Swap")),
    "A03": plan(Models("swap"), Sessions("Verify", "Swap")),
    "B01": plan(Models("bots"), Sessions("Bot")),
    "B02": plan(Models("bots"), Sessions("Bot"), Codec("Names")),
    "M01": plan(Models("mint"), Sessions("Mint")),
    "E01": plan(Models("bots"), Sessions("Erc")),
    "T01": plan(CodecModel("transactions"), Codec("Tx", "Mut", "Gap"), technique=VALUES),
    "T02": plan(SelfTest(), CodecModel("transactions"), Codec("Tx", "Gap"), technique=VALUES),
    "T03": plan(CodecModel("lengths", "values"), Codec("Enc"), technique=VALUES),
    "T04": plan(CodecModel("amounts"), Codec("Amt"), technique=VALUES),
    "T05": plan(CodecModel("addresses", "owners"), Codec("Addr"), technique=VALUES),
    "T06": plan(CodecModel("dates", "durations", "clocks"), Codec("Lock"), technique=VALUES),
    "T07": plan(CodecModel("roots"), Codec("Merkle"), technique=VALUES),
    "X01": plan(ExplorerModel(), Explorers("Each", "Query"), technique=QUERIES),
    "X02": plan(ExplorerModel(), Explorers("Each", "Submit"), technique=QUERIES),
    "X03": plan(Models("pay"), Answered(), Sessions("Ask", "All"), technique=REPORTS),
}
