S = " Covers sampled inputs only."
notes = {
 "C01": "Generated builders of P2PKH, P2PK and m-of-n inputs (up to 5 inputs, 30 signers) signed with generated key lists; then changed and signed again; every unlocking script is verified by an independent digest and signature check and by the script interpreter." + S,
 "C02": "Generated transactions (0-6 inputs and outputs, scripts with any push encoding, several code separators, all values) and all defined hash types; digest and preimage compared with an independent encoder. Undefined hash types are outside the domain because a stable test pins their digests." + S,
 "C03": "Generated histories of up to 12 digest requests, edits and clears with one cache, compared with a new cache at each request and with the independent encoder." + S,
 "C04": "Generated builders with values around every fee and change threshold, up to 255 inputs and outputs, with all or some keys; fee of the serialized result compared with an exact rational computation." + S,
 "C05": "Same generator as C04 with surpluses concentrated on the change threshold; bound on the fee, change placement and idempotence are checked against the reference size model." + S,
 "C06": "Generated builders and sequences of funding, fee and signing calls with enough or too little value, with payments and inputs added in between; payments, inputs, version and lock time compared before and after each call." + S,
 "C07": "Generated builders and offered coin lists with totals around each stopping point, with duplicates of inputs, and counts around 252; selection and change compared with a reference model." + S,
 "C08": "Generated builders, offers, break values and change lists; conservation, fee bound, recipients, marks and signability checked from the result, not compared with random choices." + S,
 "C09": "Generated builders with a send-max output and offered coins around the point where they suffice; values compared with a reference model and the result is signed." + S,
 "C10": "Generated input and output mixes with counts and lengths around variable-integer boundaries; estimates compared with a reference size model and with the size after signing." + S,
 "C11": "Generated sizes, rates and scripts; results compared with exact rational arithmetic and checked for monotony." + S,
 "C12": "Generated outputs with values around the output fee and the dust limit and sequences of value edits, compared with a list model." + S,
 "C13": "Generated edit histories of inputs over a small pool of outpoints that differ in hash or index only; compared with a set model." + S,
 "C14": "Generated histories of up to about 20 edits with valid and invalid positions compared step by step with a list model." + S,
 "C15": "Generated values, break values, rates and recipient lists; sums, recipients, marks and minimum values checked from the result." + S,
 "C16": "Generated quantities over the whole 64 bit range, break values and counts; sum, count and minimum checked from the result." + S,
 "C17": "Generated output lists shuffled many times; each result checked to be a permutation with its data, and all places must be reached within a number of trials with a false alarm chance below 1e-9." + S,
 "C18": "Generated builder states copied, followed by edits and in-place changes of one side; the other side must stay the same and the same later calls must give the same results." + S,
 "C19": "Generated transactions rebuilt from parents, coins or a source of outputs with some missing; data, totals, estimates and signatures compared with the original." + S,
 "C20": "Generated builders signed by parties in generated orders and groupings; unlocking scripts, signed-state queries and the final transaction compared with one call and verified independently." + S,
 "C21": "Generated histories of fee raises, cuts, calculations and zeroizing with amounts around every threshold, compared with an exact model." + S,
 "C22": "Generated transactions with known, unknown and embedded spent outputs; helper results compared with exact arithmetic, the reference size model and the builder." + S,
 "C23": "Generated transactions printed and the text parsed back; every figure compared with the reference." + S,
 "C24": "The tool is run as a process against a local stand-in of the chain service with generated coins, amounts, chains and failures; printed transactions compared with the fee model and verified independently." + S,
}
