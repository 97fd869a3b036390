#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

p("C01", "Signing yields only signatures the network accepts",
  "Whenever signing reports success, every input of the final transaction carries an unlocking script that satisfies the spent output's locking script under the network's rules: strict low-S signatures committing to all inputs, all outputs, the spent value and the final change amounts. This holds for single-key hash, bare public key and m-of-n key-hash locking scripts in any mix, with the keys given in any order together with unrelated ones, and the keys reported as used are exactly the supplied keys whose signatures were placed. When only some keys are supplied, signing reports the missing key and every signature it did place is still valid for the transaction as returned.",
  ["inputs", "configurations"],
  "All builders with 1..n inputs of every signable script type, any key set and order, any output set, sequence, lock time, version, fee rate and change setting.",
  "The tests sign single-key-hash inputs only, with one or two fixed layouts, and assert little beyond no error; no test signs an m-of-n or bare-key input or runs a script interpreter.",
  ["sign.go", "sig_hash.go"],
  [("per-input signing by script template", "sign.go signInput"), ("re-signing after every fee adjustment", "sign.go Sign"), ("m-of-n reverse ordering of sub scripts", "sign.go signInput")],
  ["unlocking scripts of the returned transaction", "keys returned by signing"])

p("C02", "Signature hash equals the fork-id BIP-143 digest",
  "For every transaction, input, locking script, spent value and signature hash type, the digest used for signing is the double SHA-256 of the BIP-143 preimage with the fork-id bit set, and the preimage functions return exactly those preimage bytes. The script part is what follows the last code separator, byte for byte, and an input index outside the transaction is refused with an error.",
  ["inputs"],
  "All transactions, all defined hash types (all/none/single with or without anyone-can-pay and the other flag bits), all parseable locking scripts including pushes of every size and code separators.",
  "The tests pin a handful of recorded digests, nearly all for the default hash type, one input and no code separator.",
  ["sig_hash.go"],
  [("preimage writer", "sig_hash.go writeSignatureHashPreimageBytes"), ("code separator handling", "sig_hash.go afterOpCodeSeparator")],
  ["returned digest and preimage bytes"])

p("C03", "A reused signature-hash cache never changes a result",
  "Digests and preimages computed with one cache over a whole history of requests, with the cache cleared as documented (everything after any change, or only the outputs part after a change of outputs), equal those computed with a new cache each time. Clearing forgets everything it says it forgets, so no stale part of an earlier transaction state reaches a signature.",
  ["histories"],
  "All interleavings of hash requests of every type and input, transaction edits and the matching clear calls.",
  "The tests use a new cache per digest; no test reuses a cache across an edit.",
  ["sig_hash.go", "sign.go"],
  [("memoised partial hashes", "sig_hash.go SigHashCache"), ("full and outputs-only clear", "sig_hash.go Clear, ClearOutputs")],
  ["digests with shared versus new cache"])

p("C04", "A signed transaction pays at least the configured fee rate",
  "When signing succeeds with all keys present, inputs minus outputs is at least the fee rate times the serialized size, rounded up. Signing does succeed whenever the inputs cover the outputs plus the estimated fee and change can be placed, and otherwise reports insufficient value (or the need of a change address) instead of returning an underpaying transaction. With some keys missing, the fee likewise covers the transaction as it is once the others have signed.",
  ["inputs", "configurations"],
  "All mixes of inputs and outputs, fee rates from zero to well above one satoshi per byte, surpluses from a deficit through exactly enough to large.",
  "The tests check a few fixed layouts at two or three fee rates; the boundary where value is just enough or one short, and non-P2PKH sizes, are not visited.",
  ["sign.go", "fees.go"],
  [("pre-sign fee estimate", "sign.go Sign"), ("post-sign fee correction", "sign.go Sign / fees.go AdjustFee")],
  ["fee and size of the returned transaction", "returned error"])

p("C05", "Signing returns surplus as change and never overpays",
  "When signing succeeds with all keys and the transaction has a change output, the fee is no more than the estimated fee of that transaction. Without a change output, the surplus over the estimated fee is at most the fee for adding one plus the fees for creating and spending it; a change output that signing adds itself goes to the configured change script with its key id and is worth more than those creation and spending fees. Signing an already signed transaction again changes nothing.",
  ["inputs", "configurations"],
  "All builders with or without a change output or change script, surpluses concentrated around the change threshold, all fee rates.",
  "The tests check a few surpluses away from the threshold and never check that the surplus left to the miner is bounded.",
  ["sign.go", "fees.go"],
  [("change creation threshold", "fees.go AdjustFee"), ("fee tolerance loop", "sign.go Sign")],
  ["fee, change output and its metadata after signing"])

p("C06", "Funding and signing preserve what the caller asked for",
  "Adding funding, calculating the fee, signing and every failed attempt at them leave all payments (outputs not marked as change or remainder) with the same script, value and order, keep existing inputs with their outpoint, sequence and order, and keep version and lock time. At most new inputs and change outputs are appended and change values differ, and inputs always equal outputs plus fee.",
  ["inputs", "histories"],
  "All builders and all sequences of funding, fee calculation, signing and signing-only calls with enough or too little value and with or without the keys.",
  "The tests look at the total fee of the end result; none compares the requested payments before and after or checks the state after a failure.",
  ["inputs.go", "fees.go", "sign.go"],
  [("only change outputs absorb fee changes", "fees.go AdjustFee"), ("funding appends inputs and change", "inputs.go AddFunding, AddFundingBreakChange")],
  ["inputs, outputs, version and lock time before and after each call"])

p("C07", "Funding takes offered coins in order until paid for, no further",
  "Adding funding appends offered coins in the given order, skipping ones already spent by the transaction, and stops at the first point where the inputs cover the outputs and the estimated fee; the funded transaction can then be signed and pays the fee rate. Surplus goes to the existing change output or to a new one at the change script with its key id when it exceeds the dust limit and, for a new one, pays for that output; a surplus too small for an acceptable output is left as fee. It reports insufficient value only if no such point exists, and asks for a change address only if surplus worth returning has nowhere to go.",
  ["inputs", "configurations"],
  "All partial transactions and lists of offered coins (mixed script types, duplicates, uneconomical coins, hundreds of coins), fee and dust rates, with and without change.",
  "The tests use a handful of equal coins and generous values; duplicates, uneconomical coins, mixed scripts, thresholds and counts above 252 are not reached.",
  ["inputs.go", "fees.go"],
  [("running needed-funding total", "inputs.go AddFunding"), ("duplicate skip", "inputs.go AddFunding / AddInputUTXO")],
  ["inputs, change and error after funding"])

p("C08", "Funding with broken-up change conserves value and stays signable",
  "Funding with a list of change addresses appends offered coins in order until outputs, fee and a change output are covered, and then either pays all surplus to an existing change output or spreads it over the given addresses, in which case inputs equal payments plus change plus a fee that covers the estimated size and exceeds it only by rounding and by surplus too small for a change output. Each change output uses a different given address with its key id, and exactly one is the remainder. It reports insufficient value only when existing inputs and all offered coins together do not cover outputs and fee, and the result can be signed.",
  ["inputs", "configurations"],
  "All partial transactions including already funded ones, offered coins, break values from tiny to larger than the surplus, 1..n change addresses, fee rates, with every random choice the splitting makes.",
  "The tests run one layout at random values and check the fee rate loosely; already funded transactions are tested with one surplus only.",
  ["inputs.go", "break_value.go"],
  [("running size estimate", "inputs.go AddFundingBreakChange"), ("value splitting that subtracts output fees", "break_value.go BreakValue")],
  ["inputs, outputs, metadata and error after funding"])

p("C09", "Send-max spends every offered coin and keeps nothing back",
  "With a send-max output, funding adds every offered coin that is not already an input and gives the send-max output exactly all input value minus the other outputs and the estimated fee; other outputs are untouched. If the coins do not cover the other outputs and the fee it reports insufficient value, and the funded transaction can be signed.",
  ["inputs", "configurations"],
  "All coin lists (mixed scripts, duplicates, tiny coins), other outputs, fee and dust rates, address or script recipients, both funding entry points.",
  "The tests use fixed coin values, one fee rate and P2PKH coins.",
  ["inputs.go", "outputs.go", "fees.go"],
  [("send-max flag", "outputs.go AddMaxOutput, AddMaxScriptOutput"), ("fee taken from the remainder", "fees.go CalculateFee")],
  ["inputs and outputs after funding"])

p("C10", "The size estimate is a tight upper bound of the signed size",
  "The estimated size of a transaction whose inputs can be signed is never below the serialized size after signing and exceeds it by no more than the usual variation of the signatures. Estimated input, output and variable-integer sizes equal the serialized sizes of such items with maximum-length signatures, for every supported script type, count and script length; embedded unlocking data supplies the size and value of inputs whose script is unknown, and unknown scripts are sized like single-key-hash inputs.",
  ["inputs"],
  "All input mixes, m-of-n thresholds up to more than 100 keys, agent transfer scripts, output scripts around every variable-integer boundary, input and output counts around 252/253.",
  "The tests compare a few constants and one multi-key layout.",
  ["fees.go"],
  [("script template sizes", "fees.go UnlockingScriptSize, InputSize, OutputSize"), ("transaction total", "fees.go EstimatedSize")],
  ["estimated sizes versus serialized bytes"])

p("C11", "Fee, dust and cost figures equal their exact definitions",
  "A fee for a size is the exact product of size and rate rounded up (down for the rounding-down variant), the dust limit of an output is three times the rate times its size plus the standard input size, at least one satoshi, and every helper giving fees, dust or total cost for an address, script, coin or output equals these applied to the item's serialized size. The figures never decrease when size or rate grows.",
  ["inputs"],
  "All sizes from 0 to hundreds of megabytes, fee rates representable as 32 bit floats from 0 to large, all script types and lengths.",
  "The tests check about ten size and rate pairs and a few dust limits.",
  ["fees.go", "outputs.go", "inputs.go"],
  [("fee rounding", "fees.go EstimatedFeeValue, EstimatedFeeValueDown"), ("dust limit", "outputs.go DustLimit*"), ("cost helpers", "outputs.go OutputFeeAndDust*, OutputTotalCost; inputs.go UTXOFee, LockingScriptInputFee, AddressOutputFee")],
  ["returned figures"])

p("C12", "Output values follow the minimum-value and dust rules",
  "A spendable output whose value is below the fee for including it is refused with the below-dust error unless it is a dust output or a send-max remainder; dust outputs get exactly the dust limit. Adding value to a dust output replaces the dust amount (refusing less than the dust limit) and to any other output adds to it; subtracting never leaves less than the dust limit and never wraps around; resetting to dust sets the dust limit and the dust mark. A refused request changes nothing.",
  ["inputs", "histories"],
  "All sequences of adding, inserting, topping up, reducing and resetting outputs of any script and value around the fee and dust thresholds, for all rates.",
  "The tests only add outputs with comfortable values and one dust output.",
  ["outputs.go"],
  [("minimum value rule", "outputs.go AddOutput, InsertOutput"), ("dust replacement", "outputs.go AddValueToOutput, SubtractValueFromOutput, SetOutputToDust")],
  ["outputs, marks and errors"])

p("C13", "A builder never spends the same coin twice",
  "No sequence of adding, inserting, replacing or funding inputs lets two inputs of one transaction refer to the same outpoint; a request that would do so is refused with the duplicate-input error and changes nothing (funding skips such coins). Coins differing only in transaction id or only in output index are not duplicates, replacing an input by the same coin is allowed, and a removed coin can be added again.",
  ["inputs", "histories"],
  "All histories of input operations over a small pool of coins sharing transaction ids and indexes, at all positions.",
  "The tests never add the same coin twice.",
  ["inputs.go"],
  [("outpoint scan before each insertion", "inputs.go AddInputUTXO, AddInput, InsertInput, UpdateInputUTXO, AddFunding")],
  ["outpoints of the transaction", "errors"])

p("C14", "Builder bookkeeping mirrors the transaction after any edits",
  "After any history of adding, inserting, updating and removing inputs and outputs and setting change, the transaction and its per-input and per-output data (script, value, key id, remainder and dust marks) are exactly those of a simple list model: each operation affects only its position and shifts the rest. Totals (inputs, outputs with or without change, fee, value recoverable by dropping change), addresses and spent outputs reported by the builder match that model, and an index outside the transaction is refused with an error that leaves everything unchanged.",
  ["histories"],
  "All operation histories with positions from the start to past the end, arbitrary scripts, values and key ids.",
  "The tests build transactions by appending only; insertion, update, removal and out-of-range positions are not exercised.",
  ["inputs.go", "outputs.go", "txbuilder.go", "fees.go"],
  [("paired slices of transaction and supplement", "inputs.go, outputs.go"), ("totals", "fees.go InputValue, OutputValue, Remainder, Fee")],
  ["builder fields and accessors after every step"],
  [("per-input data", "script, value and key id aligned with the inputs", "models.go InputSupplement"), ("per-output data", "change/dust marks and key id aligned with the outputs", "models.go OutputSupplement")])

p("C15", "Breaking a value into outputs conserves it exactly",
  "Breaking a value over addresses or scripts neither creates nor loses satoshis: without fee subtraction the output values sum to the value, with it they sum to the value minus the fee of each created output, unless the value is too small to create any output. Each output pays a different one of the given recipients with its key id, every output is at least nine tenths of the break value except one that takes the rest and is then worth the fee for spending it, and exactly one output is marked as remainder if requested, none otherwise.",
  ["inputs"],
  "All values, break values from one satoshi up, 1..n recipients of every script type, rates, both flags, and all random choices.",
  "The tests run one value and break value with ten addresses and print results.",
  ["break_value.go"],
  [("running remaining value", "break_value.go BreakValue, BreakValueLockingScripts")],
  ["returned outputs"])

p("C16", "Breaking a quantity conserves it within the requested count",
  "Breaking a quantity returns at most the requested number of positive quantities that sum exactly to the original. Every quantity but one is at least nine tenths of the break value.",
  ["inputs"],
  "All quantities, break values from one up, counts from one up, and all random choices.",
  "No test calls it.",
  ["break_value.go"],
  [("running remaining value", "break_value.go BreakQuantity")],
  ["returned quantities"])

p("C17", "Shuffling outputs permutes them together with their data",
  "Randomizing the outputs, or those after a position, yields a permutation: each output keeps its script, value, key id and remainder and dust marks, the outputs up to the given position stay in place, and inputs are untouched. Every eligible output can land in every eligible place.",
  ["inputs"],
  "All output lists (with equal and distinct outputs and marks), all positions including the last, and all random choices.",
  "The tests only check values of one list; the per-output data is never compared.",
  ["break_value.go"],
  [("shuffle of paired output data", "break_value.go RandomizeOutputs, RandomizeOutputsAfter")],
  ["outputs and supplements before and after"])

p("C18", "A copied builder is equal and fully independent",
  "A copy of a builder equals the original in every observable respect (transaction, input and output data, change settings, rates, send-max, later behaviour of the same calls). No later operation on either one, including in-place edits of scripts, marks and values, is visible through the other.",
  ["inputs", "histories"],
  "All builder states reachable by edits and fee calculations, followed by any edits on the copy or on the original.",
  "No test copies a builder.",
  ["txbuilder.go"],
  [("deep copy", "txbuilder.go Copy")],
  ["full state of both builders"])

p("C19", "A transaction survives serialization and rebuilding",
  "Serializing a builder gives the standard wire encoding, which decodes to the same transaction with the same id, and a builder read back from JSON has the same transaction, data and settings. Rebuilding a builder from the wire transaction with the parent transactions, the coins, or any source of spent outputs gives each input the script, value and key id of the output it spends and each output its data, so totals, size estimate and signing are the same as for the original. If some spent output is not available, that is reported as missing input data and the others are still filled in without any later call crashing.",
  ["inputs"],
  "All transactions, including coin-creating inputs and spent outputs with an empty script, parents and coin lists in any order, with unrelated and missing entries and out-of-range output indexes.",
  "No test rebuilds a builder with missing or shuffled parents.",
  ["txbuilder.go"],
  [("parent and coin lookup", "txbuilder.go NewTxBuilderFromWire, NewTxBuilderFromWireUTXOs, NewTxBuilderFromTransactionWithOutputs"), ("serialization", "txbuilder.go Serialize, models.go")],
  ["bytes, ids and builder fields"])

p("C20", "Sign-only touches nothing but missing signatures",
  "Signing without fee adjustment changes only the unlocking scripts of inputs that had none and whose keys are supplied: already signed inputs, amounts, outputs and everything else stay the same. Parties signing one after another in any order and grouping end with a valid fully signed transaction equal to one signed in a single call, a missing key is reported as such until then, and the signed-state queries tell which inputs are done; signing a single key-hash input refuses a wrong key or script type without change.",
  ["inputs", "histories"],
  "All transactions with mixed script types, any split of the keys over parties, any order, and all wrong keys, indexes and script types for single-input signing.",
  "No test signs in several steps or with missing keys.",
  ["sign.go"],
  [("skip of signed inputs", "sign.go SignOnly"), ("key and template checks", "sign.go SignP2PKHInput")],
  ["unlocking scripts and everything else before and after"])

p("C21", "Fee adjustment moves exactly the requested amount",
  "Raising the fee takes exactly the amount from the first change output, and is refused with insufficient value, leaving everything unchanged, if that output does not exist, is too small, or would drop below its creation and spending fees (unless it was added by an earlier adjustment, in which case it is dropped). Lowering the fee adds exactly the amount to the first change output, or creates one at the change script when the amount pays for it, and otherwise leaves the amount as fee; calculating the fee makes the fee equal to the estimate and zeroizing makes it zero when a change output exists.",
  ["inputs", "histories"],
  "All builder states and adjustment sequences of either sign, amounts concentrated around the thresholds, with and without change output and change script.",
  "The tests call the fee calculation with three layouts and never the adjustment or zeroizing directly.",
  ["fees.go"],
  [("change lookup and thresholds", "fees.go AdjustFee"), ("targets", "fees.go CalculateFee, ZeroizeFee")],
  ["outputs, fee and result after each adjustment"])

p("C22", "The fee helper package reports true sizes, values and fees",
  "For any transaction with known spent outputs the standalone helpers report fee as inputs minus outputs, the sums of values, and a size and fee estimate that bounds the signed transaction and equals the builder's figures for the same scripts; embedded unlocking data supplies size and value where the spent output is unknown, and its absence is an error. Unlocking sizes for every supported script type equal the builder's, unknown scripts are an error and never a crash, and dust limits are the exact three-times-cost figure rounded up, at least one.",
  ["inputs"],
  "All transactions, script types, embedded data, sizes and 64 bit rates.",
  "The package has no tests.",
  ["fees/fees.go"],
  [("size and value estimation", "fees/fees.go EstimateSize, EstimateInputSize, EstimateUnlockingSize, InputsValue"), ("dust and cost helpers", "fees/fees.go DustLimit*, OutputTotalCost")],
  ["returned figures and errors"])

p("C23", "Printed transaction reports show the true figures",
  "The textual reports list every input and output in order with its true outpoint, sequence, script, value, key id and marks, and give the true id, raw size, lock time, estimated size, fee and input and output totals. Fee and size lines appear exactly when the data needed for them is known, with a deficit shown as a negative fee.",
  ["inputs"],
  "All transactions with known and unknown spent outputs, embedded unlocking data, values up to the money supply, surplus or deficit.",
  "No test looks at the reports.",
  ["print.go", "txbuilder.go"],
  [("report writers", "print.go TxString; txbuilder.go String")],
  ["report text"])

p("C24", "The command line tool emits valid, correctly paid transactions",
  "For coins known to the chain service, the send, chained-send and consolidate commands print transactions that spend exactly the requested coins, pay exactly the requested amount to the recipient (everything when consolidating) and the rest back to the key's address, are validly signed, pay the configured fee rate, and in a chain spend the previous one's output. Extended encodings carry the same transaction and spent outputs, and when the request cannot be met a message is printed and no transaction, never a crash.",
  ["inputs", "configurations"],
  "All keys, recipients, amounts, coin sets, chain lengths, fee settings and service failures.",
  "The command has no tests.",
  ["cmd/main.go"],
  [("commands over the builder", "cmd/main.go CreateSend, CreateSends, Consolidate")],
  ["standard output of the tool run against a local stand-in of the chain service"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
