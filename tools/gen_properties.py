#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property texts live here, one place)."""
import json, os
V = "src/verify.rs"; S = "src/seals.rs"
EV = "src/verify.rs: ContractVerify::evaluate"
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
            "anchors": {"files": files,
                        "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                        "mechanism": [dict(name=a, where=b) for a, b in mech],
                        "observe_at": list(observe), "hook_needed": hook}}
ALLST = "every consignment stream (any number of operations, any content), every contract API implementation and every seal protocol"
SEALS = ("open seals", "map from cell address to the resolved seal which must be closed to destroy the cell", EV)
P = [
p("C01", "State is destroyed only with proof that its seals are closed over the operation",
  "When evaluation accepts an operation, then for every state cell the operation destroys, the single-use seal under which the cell was assigned is proven by this same operation's witness to be included and closed over this same operation's id. An operation which destroys at least one cell and carries no witness is never accepted, and a witness which does not commit to the operation id is never accepted even if no cell is destroyed.",
  ["inputs", "histories"], ALLST,
  "The tests evaluate six fixed two-operation consignments with at most one input and never one with a valid closing; which seals reach the seal check, for which message and witness, has to be right for any number of inputs and any history of earlier operations.",
  [V], [("closing check of all collected seals over the operation id", EV), ("rejection of a missing witness", EV)], [SEALS],
  ["return value of evaluate", "calls to the contract API"]),
p("C02", "Each cell's seal is known beforehand and is spent at most once",
  "An operation is accepted only if each cell it destroys has a usable seal which was defined earlier in the same consignment and which no earlier input of the consignment (of the same or of any previous operation) has already spent. A spent seal becomes unusable for the rest of the evaluation (unless the operation defining that cell is itself presented again later), while all other seals stay exactly as they were.",
  ["inputs", "histories"], ALLST,
  "Double spends need two references to one cell, in one operation or across operations; the tests have no consignment where any cell is successfully spent even once.",
  [V], [("removal of the seal from the map of open seals when an input names it", EV), ("rejection of an input with no open seal", EV)], [SEALS],
  ["return value of evaluate", "calls to the contract API"]),
p("C03", "Nothing is applied that the codex has not verified in the current state",
  "An operation which the contract does not already know is accepted only if the contract's own codex verifies it under the contract's own id, with the contract's own memory and script libraries as they are after the effects of all previous operations of the consignment and before any effect of this one. The operation applied to the contract is exactly the object produced by that verification, and a verification failure ends the evaluation with an error.",
  ["inputs", "histories"], ALLST,
  "Tests never get to the codex with a failing operation and use one contract id; whether the check is done on each operation, against which state and for whose contract id is a question over all histories.",
  [V], [("codex verification of unknown operations", EV)], [],
  ["argument of the apply-operation API call", "return value of evaluate"]),
p("C04", "A reported seal definition matches the token of the very cell it is for",
  "An operation is accepted only if every seal definition reported with it stands at the position of an existing destructible output of the operation, and the authentication token computed from the definition equals the token which the operation assigns to this output. A definition may be missing for any output, but no definition reported for another output, another operation or no output at all is ever accepted or used.",
  ["inputs"], ALLST,
  "The tests report at most one definition, at position zero, for an operation with one output; mismatches between positions, with several outputs sharing or swapping tokens, are never sampled.",
  [V], [("comparison of reported and defined tokens", EV)], [],
  ["return value of evaluate", "argument of the apply-seals API call"]),
p("C05", "The first operation is checked as the genesis of this contract",
  "Unless the stream is empty, evaluation succeeds only if the first operation carries the id of the contract's own codex in place of the contract id; its operation id (used for its cells, its witness and its seals) is computed with the real contract id put there instead. This treatment is given to the first operation only: any later operation is taken, identified and verified with the contract id it carries.",
  ["inputs", "histories"], ALLST,
  "Two tests sample one good and one bad codex id for a stream of one operation; that no later operation gets the genesis treatment, and which id is used for what, is not tested.",
  [V], [("codex commitment check and contract id substitution for the first block", EV)], [],
  ["return value of evaluate", "operation ids passed to the contract API"]),
p("C06", "A rejected operation leaves no trace and ends the evaluation",
  "When evaluation returns an error while processing an operation, the contract has received no effect (applied operation, witness or seals) of that operation and of any operation after it. All effects of the operations before it have been delivered completely.",
  ["inputs", "histories"], ALLST,
  "All error tests discard the contract after the panic and never look at its state, and each of them fails at a single fixed point.",
  [V], [("all checks precede the first apply call of an operation", EV)], [],
  ["calls to the contract API before an error is returned"]),
p("C07", "Each accepted operation is delivered exactly once, completely and in order",
  "For each accepted operation the contract receives its witness (exactly once, if and only if the operation has one), then the verified operation (exactly once, if and only if it is neither the first one nor already known), then its seal definitions (exactly once, if and only if at least one is reported); each with this operation's id and with exactly the data read from the stream. No other effects are ever delivered, and the effects of consecutive operations are not interleaved.",
  ["inputs", "histories"], ALLST,
  "Only the success tests check delivered effects: for the empty consignment and for one with a bare genesis, where nothing is to be delivered.",
  [V], [("apply_witness / apply_operation / apply_seals calls", EV)], [],
  ["sequence of calls to the contract API with their arguments"]),
p("C08", "Spendable seals come from their own operation's definition and witness",
  "A seal definition which is complete by itself is used verbatim as the seal for the cell at its position in its operation. A definition relative to a witness is resolved with the id of the witness of the operation defining it (never of another one), and when that operation has no witness the cell cannot be spent later in the evaluation.",
  ["inputs", "histories"], ALLST,
  "One test has a witness-relative definition (without a witness) and no test resolves one: which witness id goes to which definition is a matter of history.",
  [V], [("collection of complete and of witness-resolved seal sources per operation", EV)], [SEALS],
  ["seals passed to the witness of the later operation", "return value of evaluate"]),
p("C09", "A valid consignment is never rejected",
  "Evaluation succeeds on every stream in which each operation is valid: the first one commits to the codex, reported seals match their outputs, each input names a distinct cell with an open seal, unknown operations pass the codex, and the witness (mandatory if there are inputs) closes the seals. It succeeds for the empty stream, delivering no effects, and returns an error only if the stream cannot be read or one of these conditions is violated.",
  ["inputs", "histories"], ALLST,
  "Only two valid streams are tested: the empty one and a lone genesis; no accepted state transition at all.",
  [V], [("conditions guarding each error return", EV)], [],
  ["return value of evaluate"]),
p("C10", "The error names the condition which is really violated, with its data",
  "A returned error states a condition which is indeed violated by the operation being processed and carries the actual data: the operation id, the id of its witness and the seal protocol's own error, the input address with no open seal, the reported and the actual tokens together with the text of each reported definition, the codex verification error, or the error of the stream reader.",
  ["inputs", "histories"], ALLST,
  "Each kind of an error is tested with a single input at a single place in the stream.",
  [V], [("construction of VerificationError values", EV)], [],
  ["error value returned by evaluate"]),
p("C11", "The stream is read to its end, and not a single item beyond",
  "Evaluation returns success only after the reader has reported the end of the stream, having processed all operations it gave, in their order. It asks for the next operation only after the previous one was accepted and completely delivered, and never reads again after the end or after an error of the reader, which is returned as the error of evaluation.",
  ["inputs", "histories"], ALLST,
  "The test reader never fails, and the tested streams have at most two operations.",
  [V], [("the reading loop", EV)], [],
  ["calls to the stream reader", "return value of evaluate"]),
p("C12", "Auth token of a bitcoin seal is the truncated commitment to all its data",
  "The authentication token of a bitcoin seal definition is formed by the first 30 bytes, in order, of the commitment id of the whole definition (primary and fallback part) and of nothing else, for every definition. Computing it never panics and is deterministic.",
  ["inputs"], "every seal definition: any primary (witness-relative or external output) and any fallback or noise",
  "One test vector is checked for a single definition.",
  [S], [("truncation of the commitment id", "src/seals.rs: bitcoin: RgbSealDef::auth_token for WTxoSeal")], [],
  ["return value of auth_token"]),
p("C13", "Bitcoin seal definitions resolve faithfully and coherently",
  "Resolving a definition with an external primary outpoint yields exactly that outpoint, whatever the witness id is; resolving a witness-relative one yields its output number in the transaction given by the witness id; the fallback part is always preserved. A definition can be converted without a witness if and only if its primary is external, and the result then equals the resolved seal for any witness id.",
  ["inputs"], "every seal definition and every witness id",
  "Two definitions with output number zero are tested with one transaction id.",
  [S], [("match on the primary part", "src/seals.rs: bitcoin: RgbSealDef::resolve and to_src for WTxoSeal")], [],
  ["return values of resolve and to_src"]),
p("C14", "Strict encoding of an operation with its seals is lossless",
  "Strict-encoding an operation with its seals and witness writes each of its three parts exactly once; strict-decoding reads them back in the same order, each into its own place. Decoding an encoded value thus gives a value with the same operation, seal definitions and witness, and encoding it again gives the same bytes.",
  ["inputs"], "every operation, set of seal definitions and witness, and every seal protocol (with encodings of the parts being lossless)",
  "There are no tests which encode or decode the structure.",
  [V], [("derived StrictEncode and StrictDecode", "src/verify.rs: OperationSeals")], [],
  ["strict_encode / strict_decode of OperationSeals"]),
p("C15", "A clone of an operation with its seals is the same value",
  "Cloning an operation with its seals gives a value with the same operation, the same seal definitions at the same positions and the same witness (being present in the clone if and only if it was present), leaving the original intact.",
  ["inputs"], "every value of the structure and every seal protocol",
  "Tests clone a reader but compare nothing with the original.",
  [V], [("hand-written Clone", "src/verify.rs: impl Clone for OperationSeals")], [],
  ["clone of OperationSeals"]),
p("C16", "Evaluation never panics on untrusted data",
  "Whatever operations, seal definitions and witnesses the stream contains, evaluation itself returns either success or an error and never panics (given that the contract API, the seal protocol, the stream reader and the script libraries don't).",
  ["inputs", "histories"], ALLST,
  "Consignments come from untrusted peers; tests sample eight benign or simply broken ones.",
  [V], [("absence of unwraps, unchecked indexing and overflows", EV)], [],
  ["evaluate returns"]),
p("C17", "Operations already known are neither verified nor applied again",
  "An operation which the contract reports as known (at the moment when all previous operations of the consignment have been applied) is accepted without running the codex and is not applied for the second time. Its seal definitions, the closing of the seals of its inputs and its witness are still checked, used and delivered in the same way as for an unknown one.",
  ["inputs", "histories"], ALLST,
  "No test has a known operation other than a lone genesis.",
  [V], [("known operations bypass the codex verification only", EV)], [],
  ["calls to the contract API", "return value of evaluate"]),
p("C18", "Serde serialization of an operation with its seals is lossless",
  "With the serde feature on, serializing an operation with its seals and witness writes each of its three parts exactly once under its own camelCase name, and deserializing reads each part back into its own place, both from formats with named fields (in any order) and from sequences.",
  ["inputs", "configurations"], "every value of the structure, every seal protocol, self-describing and sequential serde formats",
  "There are no tests which serialize the structure.",
  [V], [("derived Serialize and Deserialize", "src/verify.rs: OperationSeals")], [],
  ["serialize / deserialize of OperationSeals"]),
p("C19", "The verification procedure cannot be overridden by a client",
  "For every type implementing the contract API the verification procedure is the one provided by the library; a client library can not supply its own one for its contract type.",
  ["programs"], "every client program",
  "It is a statement over all programs compiling against the library, not over values a test may sample.",
  [V], [("blanket implementation", "src/verify.rs: impl ContractVerify for C: ContractApi")], [],
  ["compilation of client code"]),
p("C20", "The text of an error shows the data it carries",
  "The text of every evaluation error - its display, its debug output and its conversion to a string - contains the text of each piece of data the error carries: the reader's own error; the operation id; the witness id, the operation id and the seal protocol's own error; the cell address; the operation id, all tokens assigned, all tokens reported and all definition texts; the codex error. Producing it never panics and fails if and only if the output can't be written, and the texts of errors of different kinds differ in more than their data.",
  ["inputs"], "every error value of every seal protocol, every output",
  "The tests look at the texts of one value for six of the seven kinds of errors, with one seal protocol.",
  [V], [("derived Display, hand-written Debug", "src/verify.rs: VerificationError")], [],
  ["formatting of VerificationError"]),
]
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
