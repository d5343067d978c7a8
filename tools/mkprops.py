#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source for ids, titles, statements)."""
import json
V="src/verify.rs"; S="src/seals.rs"
def p(id,title,statement,over,qtext,why,files,mech,state=(),obs=(),hook=None):
    return dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
        state=[dict(name=n,meaning=m,where=w) for n,m,w in state],observe_at=list(obs),hook_needed=hook))
CB=["callbacks of the contract the evaluation is run on (apply witness / operation / seals), per block read","result of the evaluation"]
SEALS=("seals","cell address -> fully resolved single-use seal, local to one evaluation",V+" ContractVerify::evaluate")
GEN=("is_genesis","whether the next block is the first of the stream",V+" ContractVerify::evaluate")
LEDG=("contract","the client's ledger: known operations, destructible and immutable memory, recorded seals and witnesses",V+" ContractApi")
P=[
p("C01","Consumed state is authorised by closing its seal over the very operation",
  "An operation of a consignment is accepted - whether it is new to the contract or already known - only if, for every destructible cell it consumes, a single-use seal for exactly that cell was revealed by an earlier block of the same stream, and the witness delivered in the operation's own block validly closes all of those seals over that operation's id. A block which consumes anything but carries no witness, a witness that omits one of the seals, closes it over another operation, or has no valid commitment, is never accepted.",
  ["inputs","histories"],"every consignment stream (any order and mixture of new and known operations, any number of inputs, honest or forged witnesses) evaluated on every reachable contract state",
  "The tests evaluate one operation with one input against four broken witnesses, and never reach a successful closing at all: no test accepts an operation with a valid witness, none has two inputs, a known operation, or a witness of another operation.",
  [V,S],[("removal of the input's seal from the live seal map, error when absent",V+" evaluate: loop over destructible_in"),("seal closing verification of all collected seals over the operation id",V+" evaluate: verify_seals_closing"),("missing witness rejection",V+" evaluate: NoWitness")],[SEALS],CB),
p("C02","A destructible cell is consumed at most once",
  "No accepted sequence of blocks consumes the same destructible cell twice: not twice in the inputs of one operation, and not in two different operations of a stream unless the operation which defined the cell is delivered again in between. On a contract whose memory forgets destroyed cells, no two operations which destroy the same cell are ever both applied, over any sequence of evaluations of any streams.",
  ["inputs","histories"],"every stream and every sequence of evaluations on one contract, including competing spends, repeated inputs, repeated (known) operations and re-delivered definitions",
  "No test lets even one consumption succeed, so none can see a second one; the guarantee is about all histories of evaluations.",
  [V],[("seal leaves the live map when an input consumes it",V+" evaluate: seals.remove"),("inputs of a new operation must be present in contract memory",V+" evaluate: Codex::verify with self.memory()")],[SEALS,LEDG],CB),
p("C03","A revealed seal is bound to the token committed at its own output position",
  "Whenever a block is accepted, each seal definition it reveals for an output position has an authorisation token equal to the token which the operation commits to at that same position, and the position exists in the operation. A stream revealing any other definition - foreign, swapped between two outputs, or for a position that does not exist - is rejected at that block, while revealing only some of the definitions, or none, is always allowed.",
  ["inputs"],"every operation with any number of outputs (equal or different tokens), every map of positions to seal definitions, known and unknown operations, genesis included",
  "One test reveals one foreign definition for a genesis with one output; permuted, duplicated, partial and out-of-range revelations on several outputs are not sampled.",
  [V,S],[("comparison of revealed tokens with committed tokens",V+" evaluate: SealsDefinitionMismatch"),("token of a definition",S+" RgbSealDef::auth_token")],[SEALS],CB),
p("C04","Witness-relative seals anchor to the defining operation's own witness only",
  "A seal defined relative to a witness becomes usable only when the operation which defines it comes with a verified witness, and then denotes the output of exactly that witness; without a witness it stays unusable, unless the operation is delivered again with one. A seal defined independently of a witness denotes the same seal whatever witness (or none) accompanies the operation that defines it.",
  ["inputs","histories"],"every mixture of witness-relative and independent definitions in one operation, with or without witness, chains of operations, the same operation delivered under different witnesses in different evaluations",
  "The only test with a witness-relative seal checks that it is unusable in a genesis without a witness; no test ever spends a witness-relative seal.",
  [V,S],[("independent definitions are converted directly, relative ones with the id of the block's witness after it verified",V+" evaluate: seal_sources"),("resolution",S+" RgbSealDef::resolve/to_src")],[SEALS],CB),
p("C05","Only the contract's own genesis starts an evaluation, and it is never applied",
  "A non-empty stream is accepted only if its first operation commits to the contract's codex in place of the contract id and is the contract's own genesis; it is identified under the contract's id, and is never applied as a state transition. Only the first block of a stream gets this treatment: an operation committing to the codex, or to any other contract id, is not accepted as a new operation anywhere later.",
  ["inputs","histories"],"every first block and every later block with any contract id field (own, codex, other), on every contract state, over repeated evaluations",
  "Tests try the right genesis and one with a wrong codex id; they do not try a genesis-style operation later in the stream, an ordinary operation first, another contract's genesis under the same codex, or an operation of another contract.",
  [V],[("codex commitment check and contract id substitution for the first block",V+" evaluate: is_genesis"),("contract id check",V+" evaluate: Codex::verify(contract_id, ..)")],[GEN],CB),
p("C06","Only operations valid under the codex and the current state are applied",
  "An operation is applied to the contract only if the contract's codex accepts it for this contract's id, with every destructible and immutable cell it reads present in the contract memory as left by the blocks accepted before it, its verification script succeeding and every input lock satisfied. Every accepted operation which is neither the first block nor already known is applied, exactly once, with unchanged content.",
  ["inputs","histories"],"every operation content (missing cells, failing scripts, unknown calls, locks, other contract ids), every order of dependent operations, every contract memory",
  "The tests' codex always succeeds and the tests never apply an operation.",
  [V],[("verification by the codex before anything is applied",V+" evaluate: self.codex().verify(..)"),("application",V+" evaluate: self.apply_operation")],[LEDG],CB),
p("C07","Known operations are not re-validated or re-applied, yet stay fully seal-checked",
  "An operation the contract already knows is never applied again and is accepted although the cells it consumed are gone from the contract memory, while its revealed seals, consumed seals and witness are checked and reported just as for a new one. Hence evaluating an accepted consignment again on the same contract is accepted and applies nothing.",
  ["inputs","histories"],"every split of operations into known and new, all sequences of repeated and overlapping consignments, with the same or different witnesses and revealed seals",
  "The only known operation in the tests is the genesis; no test evaluates twice or has a known operation with inputs.",
  [V],[("known operations skip codex verification and application",V+" evaluate: is_known"),("seal checks are done before and regardless of that",V+" evaluate")],[LEDG,SEALS],CB),
p("C08","A rejected block leaves no trace and ends the evaluation",
  "When a block is rejected, the contract has received exactly the effects of the blocks accepted before it, in order, and nothing of the rejected block: no witness, operation or seals. Evaluation ends there with an error; no further block is read and none is applied.",
  ["inputs","histories","fault_sequences"],"every position of the first invalid block in a stream, every reason for its rejection, any valid blocks before and after it",
  "Tests look only at the error text of streams that fail; they never look at the contract after a failure, and no failing block in them carries anything whose effects could leak next to accepted blocks.",
  [V],[("effects of a block are issued only after its last check; every check returns at once",V+" evaluate")],[LEDG],CB),
p("C09","Accepted blocks are reported completely, faithfully and in order",
  "For each accepted block the contract is given: its witness, unchanged and under the operation's id, if and only if the block has one; then the operation, if it is new and not the first block; and its revealed seals, unchanged, with their positions and under the same id, if and only if there are any - each exactly once, the witness before the operation, and blocks in stream order. Nothing else is ever reported.",
  ["inputs","histories"],"every accepted block (genesis, known, new; with and without witness; with none, some or all seals revealed) on every contract state",
  "The tests' final comparison of collected seals and witnesses only ever runs on an empty or a genesis-only stream.",
  [V],[("apply_witness, apply_operation, apply_seals",V+" evaluate")],[LEDG],CB),
p("C10","Rule-abiding consignments are always accepted in full",
  "If every block of a stream obeys the rules - first block is the contract's genesis, later operations are known or valid for the current state, all revealed seals match, all consumed cells had their seals revealed before and closed by the block's witness - then the evaluation succeeds and consumes the whole stream. This includes the empty stream, operations that consume nothing and have no witness, partially revealed seals, several inputs closed by one witness, one witness shared by several operations, and both commitment methods of bitcoin witnesses.",
  ["inputs","histories"],"every rule-abiding stream on every contract state it is valid for, including long chains, many inputs and many outputs",
  "Only the empty and the genesis-only stream are accepted in tests; no transfer has ever been accepted in them.",
  [V,S],[("the whole evaluation",V+" evaluate"),("bitcoin seals",S+" mod bitcoin")],[LEDG,SEALS],CB),
p("C11","A failing consignment source is reported, never mistaken for its end",
  "If reading the stream fails at any point, the evaluation fails with that reading error and not with success or another error, no later item is read, and the blocks accepted before stay reported exactly as if the stream had continued. A stream that ends normally is read up to its end and not beyond.",
  ["fault_sequences","inputs"],"every position of a read failure in every stream, including before the first block and after the last one, and sources which would deliver more after a failure or after the end",
  "The test reader cannot fail.",
  [V],[("mapping of reader errors",V+" evaluate: read_operation().map_err")],[],["calls of the stream reader"]+CB),
p("C12","A rejection names the violated rule and the culprit",
  "The error a rejected consignment produces names a rule which the rejected block really violates, with the culprit's own data: the operation id, the consumed cell without a known seal, the witness id and the unclosed seal, the committed and revealed tokens and definitions, or the codex verdict. In particular an error never blames an operation, cell or witness other than one of the rejected block.",
  ["inputs"],"every invalid block, including blocks that violate several rules at once, after any accepted prefix",
  "Each error text is compared for one single-fault example, always in the first or second block.",
  [V],[("error construction",V+" evaluate / VerificationError")],[],["result of the evaluation (error value and its text)"]),
p("C13","Bitcoin seal definitions resolve coherently",
  "Resolving a bitcoin seal definition against a witness id gives the outpoint of that witness with the defined output number if the definition is witness-relative, and the defined outpoint, independent of the witness id, otherwise; the secondary part is always carried over unchanged. Conversion without a witness id succeeds exactly for definitions that are not witness-relative and then equals every resolution.",
  ["inputs"],"every primary (relative or external, any transaction id and output number), every secondary (noise or fallback) and every witness id",
  "Tests try output number 0, the zero outpoint and one witness id.",
  [S],[("resolve, to_src",S+" impl RgbSealDef for WTxoSeal")],[],["return values of the seal definition API"]),
p("C14","Authorisation tokens commit to the entire seal definition",
  "The authorisation token of a bitcoin seal definition is the first 30 bytes of the consensus commitment id of the whole definition, primary and secondary: it is deterministic, and definitions which differ in any part have different tokens.",
  ["inputs"],"every definition, in particular pairs which differ only in kind, output number, transaction id, or secondary part",
  "A single definition's token is pinned.",
  [S],[("auth_token",S+" impl RgbSealDef for WTxoSeal")],[],["return values of the seal definition API"]),
p("C15","Copying or serialising a consignment block never changes what it means",
  "A block that was cloned, or written with strict encoding or as JSON and read back, is equal to the original in its operation, revealed seals and witness, and every stream of such blocks is judged exactly like the stream of originals. The strict encoding of a block is the concatenation of the encodings of its operation, revealed seals and optional witness.",
  ["inputs"],"every block (with/without witness, seals of all kinds, any operation content)",
  "No test serialises a block; cloning is used only on blocks without a valid witness.",
  [V],[("Clone impl and strict / serde derives of the block type",V+" OperationSeals")],[],["encoded bytes and decoded blocks","result of evaluating them"]),
p("C16","Contract state depends on what was accepted, not on how it was delivered",
  "Two copies of a contract which accepted the same operations hold the same state, whatever valid order, split into consignments, repetition or interleaving with rejected consignments brought the operations to each of them. No information from one evaluation - seals it revealed or witnesses it verified - influences the verdict on a later one, except through the operations it applied to the contract.",
  ["histories","inputs"],"all sequences of evaluations on several copies of a contract, all topological orders and splits of an operation graph, with failed and partial deliveries in between",
  "Every test runs exactly one evaluation on one contract.",
  [V],[("the live seal map and genesis flag are local to an evaluation",V+" evaluate"),("known operations are recognised by id",V+" evaluate: is_known")],[LEDG,SEALS],CB),
p("C17","Evaluation is total: every stream gets a verdict, never a panic",
  "For every finite stream whatsoever, however malformed, adversarial or large, evaluation on a correctly implemented contract terminates with success or an error, without panicking, after reading each block at most once.",
  ["inputs"],"every stream: empty operations, extreme positions and output numbers, duplicate everything, inconsistent witnesses (spending nothing, without outputs, with out-of-range bundle maps), large maps and long streams",
  "Tests run ten fixed small streams.",
  [V,S],[("absence of indexing and unwraps in the evaluation",V+" evaluate"),("seal conversion",S)],[],["result of the evaluation, including panics"]),
p("C18","Verdicts follow the one reference semantics for every seal protocol",
  "The verdict on a stream and all its reported effects are a function of the contract state and the stream alone, equal to the reference rules, and stay the same when the bitcoin seal protocol is replaced by any other protocol under which the same seals are closed by the same witnesses. Evaluating the same stream on equal contracts always gives the same verdict.",
  ["inputs","histories","configurations"],"every stream and contract state, replayed under bitcoin output seals with both commitment methods and under an unrelated seal protocol",
  "All tests use bitcoin seals, and each looks at one hand-written stream.",
  [V],[("evaluation generic over the seal protocol traits",V+" ContractVerify, "+S+" RgbSeal, RgbSealDef")],[LEDG,SEALS],CB),
p("C19","Forging a second definition for a given token is infeasible",
  "Nobody can find, with feasible work, two different bitcoin seal definitions with the same authorisation token, although the token is a 30-byte truncation of a 32-byte commitment.",
  ["inputs"],"every computationally bounded adversary",
  "A cryptographic hardness claim; tests pin one token.",
  [S],[("truncation of a tagged SHA-256 commitment",S+" auth_token")],[],["token values"]),
p("C20","Competing operations can only be accepted with conflicting witnesses",
  "If two different operations which consume the same destructible cell are ever accepted - in one consignment or in several, by one client or by different clients - then they come with different published witnesses which both spend the output denoted by the cell's seal, so that a ledger without double spends contains at most one of them; or else the cell's seal is witness-relative, and the operation which defines the cell was itself accepted under two different witnesses, with either closing the seal at the one it builds on. One published witness never lets two competing operations through.",
  ["histories","inputs"],"every pair of accepted closings of the seal of a cell over all consignments and all clients of a contract: separate witnesses, one witness with several bundles, protocols or anchors, witnesses mentioning several operations, inputs repeated in a witness, redelivered definitions",
  "This is the protection from double spending, a relation between two consignments evaluated by different clients who know nothing of each other; every test evaluates one consignment on one contract, and none accepts a spending.",
  [V,S],[("closing of all seals of the inputs over the operation id",V+" evaluate: verify_seals_closing"),("seals resolved from the definitions of the same stream",V+" evaluate: seals")],[SEALS,LEDG],CB),
p("C21","Acceptance is transferable between clients",
  "A consignment accepted by a client who knew nothing but the contract's genesis is accepted by every client of the contract, whatever consignments that one accepted, rejected or rolled back before, unless it holds an operation, not contained in the consignment, which consumes a cell that the consignment consumes; and afterwards that client knows every operation of the consignment. So what a sender could validate, no honest recipient can be made unable to.",
  ["histories","inputs"],"all pairs of clients: one accepting a consignment from scratch, the other with any history of complete, partial, failed and repeated evaluations and roll-backs",
  "Tests evaluate on one new contract only and accept nothing beyond the genesis.",
  [V],[("known operations skip the codex, others are verified against the memory",V+" evaluate: is_known"),("nothing but the ledger survives an evaluation",V+" evaluate")],[LEDG,SEALS],CB),
]
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))
open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=True)+"\n" for x in P))
