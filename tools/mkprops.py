#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), obs=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(obs), hook_needed=hook)))

CR="contracts/connection-router/src/"; GW="contracts/gateway/src/"; AV="contracts/aggregate-verifier/src/"
VV="contracts/voting-verifier/src/"; MS="contracts/multisig/src/"; MP="contracts/multisig-prover/src/"
RW="contracts/rewards/src/"; SR="contracts/service-registry/src/"; NG="contracts/nexus-gateway/src/"
BT="contracts/batching/src/"; WS="packages/axelar-wasm-std/src/"; RA="packages/connection-router-api/src/"

# ---------------------------------------------------------------- router
p("R01","Only a chain's own live gateway may inject messages for that chain",
  "The router accepts a batch of messages only from the gateway currently registered for some chain, and only if every message in the batch claims that same chain as its source, or from the configured nexus gateway. Any other sender, a replaced gateway, or a batch containing one message that claims another source chain is refused as a whole and leaves no trace.",
  ["inputs","histories","configurations"],
  "every batch, sender and history of registrations, gateway upgrades and freezes",
  "Unit tests try one good and a few bad senders on fixed two-chain set-ups; they do not cover every sender against every registry history (upgrades, swaps) or the position of the offending message in a batch.",
  [CR+"contract/execute.rs",CR+"state.rs",CR+"contract.rs"],
  [("validate_msgs",CR+"contract/execute.rs"),("find_chain by gateway index",CR+"state.rs")],
  [("CHAINS","chain endpoint per chain, indexed by gateway address",CR+"state.rs")],
  ["RouteMessages result and emitted messages"])
p("R02","Accepted batches are delivered whole, unmodified, once and in order",
  "When the router accepts a batch, every message in it is handed exactly once, unmodified and in its original relative order per destination, to the gateway currently registered for its destination chain, and to nobody else. Messages for unregistered destinations go to the nexus gateway, except that messages coming from the nexus gateway to an unregistered chain are refused; if any message cannot be delivered, none is.",
  ["inputs","histories"],
  "every batch of messages over registered, unregistered and frozen destinations, from every sender, after every registration history",
  "Tests check single messages and one fixed three-way batch; grouping, mixed batches with unregistered and frozen destinations, and delivery after an upgrade are not enumerated.",
  [CR+"contract/execute.rs"],[("route_messages grouping",CR+"contract/execute.rs")],
  [],["messages sent by the router"])
p("R03","Freezing blocks exactly the frozen direction until it is unfrozen",
  "While a chain is frozen for incoming (outgoing) traffic no message from (to) it passes the router, traffic in the other direction and of other chains is unaffected, and freeze and unfreeze calls add and remove exactly the named directions, in any combination, without touching the chain's gateway or other chains. A gateway upgrade does not lift a freeze.",
  ["histories","inputs"],
  "every sequence of freeze/unfreeze calls with every direction combination interleaved with upgrades and routed messages",
  "Tests cover a handful of freeze/unfreeze orders on one chain; the full algebra of four direction values over histories and its independence per chain is not enumerated.",
  [CR+"contract/execute.rs",WS+"flagset.rs",CR+"state.rs"],
  [("FlagSet insert/remove",WS+"flagset.rs"),("freeze_chain/unfreeze_chain",CR+"contract/execute.rs")],
  [("ChainEndpoint.frozen_status","direction flags",RA+"primitives.rs")],["RouteMessages result, chain info query, freeze events"])
p("R04","Chain registry: governance-only, unique chains, unique gateways",
  "Only governance can register a chain or change its gateway, only the admin can freeze or unfreeze one, and refused calls change nothing. A chain name (ignoring letter case) is registered at most once, no gateway address ever serves two chains at the same time, and the registry always reports the most recently set gateway.",
  ["histories","inputs"],
  "every sequence of registry calls by every caller, including re-registration, gateway swaps and reuse of an abandoned gateway address",
  "Tests cover single calls; uniqueness must hold over all histories of registrations and upgrades.",
  [CR+"contract/execute.rs",CR+"contract.rs",CR+"state.rs"],
  [("require_governance/require_admin",CR+"contract/execute.rs"),("GatewayIndex",CR+"state.rs")],
  [],["RegisterChain/UpgradeGateway results, chain info query"])
# ---------------------------------------------------------------- gateway + aggregate verifier
p("G01","A gateway forwards a message to the router only if it is verified",
  "Whoever calls it, the gateway sends a message onward to the router only if its verifier currently reports exactly that message as verified; unverified messages in the same batch are withheld and reported as failed, and the verified ones are still forwarded unmodified in order. A batch that repeats a message id is refused as a whole.",
  ["inputs","histories"],
  "every batch, caller and verifier answer",
  "Tests sample a few batches against a mocked verifier; not every mix of verification answers, callers and duplicated ids.",
  [GW+"contract/execute.rs",AV+"contract.rs"],[("route_outgoing/route_incoming split by sender",GW+"contract/execute.rs"),("partition by verification status",GW+"contract/execute.rs")],
  [],["messages sent to the router, routing events"])
p("G02","Only the router can fill a gateway's outbox, which is stored faithfully",
  "A message becomes available for proving at a gateway only when the router itself delivered it there; each delivered message is then retrievable by its id with exactly the delivered content. A lookup of several ids returns exactly the stored messages in the order asked, and fails if any of them was never delivered.",
  ["histories","inputs"],
  "every history of deliveries and of calls by non-router senders, and every lookup",
  "Tests store fixed batches once and look them up; lookups across histories, re-deliveries and forged senders are not enumerated.",
  [GW+"contract/execute.rs",GW+"contract/query.rs",GW+"state.rs"],[("sender == router check",GW+"contract/execute.rs"),("OUTGOING_MESSAGES",GW+"state.rs")],
  [],["GetMessages query"])
p("G03","Verification requests reach the verifier once, only for unverified messages",
  "A gateway passes on to its verifier exactly those messages of a request that are not yet verified, refuses requests that repeat a message id, and sends nothing if all are verified already. Passed through the verifier front-end, the request reaches the configured verifier unmodified and succeeds whenever that verifier accepts it, returning the verifier's own answer.",
  ["inputs","histories"],
  "every batch and every verification state of its messages, through the real front-end and the real verifier",
  "Tests use mocks at each hop, so the hop-to-hop agreement on requests and answers is never exercised.",
  [GW+"contract/execute.rs",AV+"contract.rs",VV+"contract.rs"],[("verify_messages filter",GW+"contract/execute.rs"),("reply data decoding",AV+"contract.rs")],
  [],["messages sent to the verifier; transaction outcome and response data"])
# ---------------------------------------------------------------- voting verifier
p("V01","A message counts as verified only by a quorum of its poll's snapshot",
  "A message is reported verified only if, in the poll that was opened for exactly that message, participants holding at least the configured threshold of the weight snapshotted when the poll opened voted that it succeeded on the source chain. Votes for another message, position or outcome, or by accounts outside the snapshot, never contribute, and as soon as the quorum is reached the message is reported verified.",
  ["schedules","histories","inputs","configurations"],
  "every interleaving of polls, votes and ends over every batch, worker set and threshold",
  "Tests drive one poll with unanimous or fixed votes; per-message tallies under every vote combination, threshold rounding and overlapping polls are not sampled.",
  [VV+"execute.rs",VV+"query.rs",WS+"voting.rs",WS+"snapshot.rs"],
  [("WeightedPoll.cast_vote/consensus",WS+"voting.rs"),("message_status",VV+"query.rs")],
  [("POLL_MESSAGES","message -> poll and index",VV+"state.rs"),("POLLS/tallies","votes per message",VV+"state.rs")],["message status queries, vote results"])
p("V02","Votes: snapshot participants only, once each, in time, one vote per message",
  "A vote is accepted only from a participant of the poll's snapshot, at most once per participant, strictly before the poll's expiry height and with exactly one vote per message in the poll; a refused vote changes no tally. Every vote that meets these conditions is accepted.",
  ["schedules","histories","inputs"],
  "every voter, block height, vote length and order of votes, finishes and worker deregistrations",
  "Tests hit each error once; boundary heights and orders (vote after finish, after quorum, by a worker that joined after the snapshot) are not covered.",
  [VV+"execute.rs",WS+"voting.rs"],[("cast_vote",WS+"voting.rs"),("vote",VV+"execute.rs")],[],["Vote result, status queries"])
p("V03","A poll is opened exactly for messages that need one; verified is final",
  "A verification request opens one new poll, with a fresh id and the configured expiry, over exactly those requested messages that are neither verified nor under vote, in request order; messages whose poll ended without success can be retried. Once a message is reported verified it stays so forever, whatever is voted, ended or requested later.",
  ["histories","schedules","inputs"],
  "every history of requests, votes, ends and passing blocks",
  "Tests check one request per state; permanence of verification and fresh ids over arbitrary histories are not checked.",
  [VV+"execute.rs",VV+"query.rs",VV+"state.rs"],[("verify_messages",VV+"execute.rs"),("Counter POLL_ID",WS+"counter.rs")],[],["poll events, response statuses, status queries"])
p("V04","Worker-set changes are attested only by a quorum over that exact set",
  "The verifier reports a worker set as confirmed only if a quorum of the snapshot of the latest poll opened for exactly that operator set, with those weights and that threshold, voted success; votes in message polls or for other sets never confirm it. A confirmed set cannot be re-polled and stays confirmed.",
  ["histories","schedules","inputs"],
  "every history of confirmation requests, votes and ends interleaved with message polls",
  "Tests cover one confirmation; confusion between polls, sets and repeated requests is not explored.",
  [VV+"execute.rs",VV+"query.rs",WS+"operators.rs"],[("verify_worker_set",VV+"execute.rs"),("operators hash",WS+"operators.rs")],[],["worker-set status query"])
p("V05","Polls end once, at or after expiry, and reward exactly the consensus voters",
  "A poll can be ended only at or after its expiry height, only once, and by anybody. Ending it reports to the rewards contract, once each and under that poll's id, exactly the participants who voted and whose votes agree with the outcome on every message that reached one.",
  ["histories","schedules","inputs"],
  "every vote pattern, threshold and time of ending",
  "Tests end one poll with a fixed vote pattern.",
  [VV+"execute.rs",WS+"voting.rs"],[("finish and consensus participation",WS+"voting.rs"),("end_poll",VV+"execute.rs")],[],["messages sent to the rewards contract, EndPoll result"])
p("V06","Verification requests are validated before any poll is opened",
  "Requests that are empty, that contain a message of another source chain, or (when a poll is needed) an id not of the form transaction:index are refused as a whole and leave no trace. A poll is opened only over the workers that are active for the source chain at that moment, and with no active worker the request is refused.",
  ["inputs","histories"],
  "every request content and every worker registry state",
  "Tests try a few malformed ids and one fixed worker list.",
  [VV+"execute.rs",VV+"query.rs",WS+"snapshot.rs"],[("verify_messages guards",VV+"execute.rs"),("take_snapshot",VV+"execute.rs")],[],["VerifyMessages result, poll started events"])
# ---------------------------------------------------------------- multisig
p("M01","Only governance-approved contracts can start signing sessions",
  "A signing session is opened only for a caller that governance has authorized and not since revoked, only for a registered worker set, and only for a well-formed 32-byte payload; each session gets a fresh id larger than all earlier ones. Only governance can authorize or revoke callers.",
  ["histories","inputs"],
  "every caller, and every history of authorizations and revocations",
  "Tests check one authorized and one unauthorized caller.",
  [MS+"contract.rs",MS+"contract/execute.rs"] if os.path.exists("/repo/"+MS+"contract/execute.rs") else [MS+"contract.rs"],
  [("AUTHORIZED_CALLERS",MS+"state.rs"),("start_signing_session",MS+"contract.rs")],[],["StartSigningSession result, session query"])
p("M02","Every recorded signature is valid, by a set member, at most one per member",
  "A signature is recorded in a session only if its sender belongs to the session's worker set, has not signed that session yet, and the signature verifies over exactly that session's payload under the public key recorded for the sender in that worker set. Anything else is refused without trace, and every signature that meets the conditions (while the session accepts signatures) is recorded.",
  ["inputs","histories","schedules"],
  "every signer, key, payload, signature bytes and order, including signatures valid for other sessions, keys re-registered later, and both key types",
  "Tests use a fixed session and one corrupt signature; cross-session replay, key rotation and foreign keys are not enumerated.",
  [MS+"signing.rs",MS+"contract.rs",MS+"key.rs"],[("validate_session_signature",MS+"signing.rs"),("save_signature",MS+"state.rs")],[],["SubmitSignature result, multisig query"])
p("M03","Sessions complete exactly at threshold weight, once, and then stay completed",
  "A session is completed exactly when the summed weight of its distinct recorded signers first reaches the worker set's threshold, at that block height, announced once; it never reverts and the height never changes. After completion signatures are accepted up to and including the configured grace period and never later, and before completion there is no deadline.",
  ["histories","schedules","configurations"],
  "every order of signers, weights, thresholds, block heights and grace periods",
  "Tests use equal weights and one order; exact threshold crossing with unequal weights and grace boundaries are not enumerated.",
  [MS+"signing.rs",MS+"contract.rs"],[("recalculate_session_state",MS+"signing.rs"),("grace period check",MS+"signing.rs")],[],["multisig query, signing completed events"])
p("M04","Key and worker-set registries bind what was registered to who registered it",
  "A public key is stored only under its sender's account and its own key type, only if it has the length its type requires, and later registrations replace only the sender's own key of that type. A registered worker set is retrievable under its id with exactly the registered signers, keys, weights and threshold, and sets that differ in any of these never share an id.",
  ["histories","inputs"],
  "every order of registrations by every account and key type; every pair of worker sets",
  "Tests register one or two keys and one set.",
  [MS+"contract.rs",MS+"key.rs",MS+"worker_set.rs",MS+"state.rs"],[("PUB_KEYS keyed by sender and type",MS+"state.rs"),("WorkerSet::hash",MS+"worker_set.rs")],[],["GetPublicKey and GetWorkerSet queries"])
p("M05","Every accepted signature is reported for rewards exactly once",
  "Each accepted signature, including those within the grace period, reports exactly its signer's participation in exactly that session to the rewards contract once; refused signatures report nothing, and no other call does.",
  ["histories"],
  "every history of accepted and refused signatures over several sessions",
  "Tests check one session's messages.",
  [MS+"contract.rs"],[("submit_signature response",MS+"contract.rs")],[],["messages sent to the rewards contract"])
# ---------------------------------------------------------------- prover
p("P01","A proof covers exactly the requested, routed messages for its own chain",
  "A proof session is started only if every requested message was delivered to the prover's gateway and is destined for the prover's chain; the payload submitted for signing commits to exactly the requested messages (one approval per requested message, with its own source, destination address and payload hash) and to the destination chain, and the signing session uses the current worker set. If anything is missing or foreign, nothing is stored or sent. What a session is about never changes afterwards.",
  ["inputs","histories"],
  "every set and order of requested ids over every gateway content and worker-set state",
  "Tests construct one proof from fixed data; other orders, subsets, repeats and foreign messages are not enumerated.",
  [MP+"execute.rs",MP+"types.rs",MP+"encoding/mod.rs",MP+"encoding/abi.rs",MP+"encoding/bcs.rs"],[("construct_proof",MP+"execute.rs"),("CommandBatchBuilder",MP+"encoding/mod.rs")],[],["StartSigningSession message, proof query"])
p("P02","A finished proof carries enough matching signatures, in verifiable form",
  "A proof is returned as completed only once its signing session is, and its execution data then decodes to exactly the batch that was signed plus the full operator list in ascending order with weights and threshold, and signatures of current-set members whose weight reaches the threshold, each verifying over the signed payload. Before that it is reported pending.",
  ["inputs","histories","configurations"],
  "every subset and order of signers, weights and thresholds, both encodings",
  "Tests compare against a few recorded proofs; signer selection for other weight distributions and signer orders is not covered.",
  [MP+"query.rs",MP+"encoding/abi.rs",MP+"encoding/bcs.rs"],[("optimize_signatures and encode_execute_data",MP+"encoding/mod.rs"),("get_proof",MP+"query.rs")],[],["GetProof query, decoded independently"])
p("P03","The active worker set changes only to the announced set, once confirmed",
  "After initialization the prover's worker set changes only to the pending set it announced to the destination chain in a batch signed by the current set, and only when the verifier reports that exact set as confirmed; then the pending set is cleared and the new set is registered for signing. While a change is pending, no different set can become pending.",
  ["histories","schedules"],
  "every history of updates, proofs, confirmations and registry changes",
  "Tests follow the one good rotation and a couple of refusals.",
  [MP+"execute.rs",MP+"state.rs"],[("confirm_worker_set",MP+"execute.rs"),("save_next_worker_set",MP+"execute.rs")],
  [("CURRENT_WORKER_SET/NEXT_WORKER_SET","active and pending set",MP+"state.rs")],["worker set query, signing session messages, RegisterWorkerSet messages"])
p("P04","Worker sets mirror the active, key-holding workers and the signing threshold",
  "Every worker set the prover forms contains exactly the workers active for its chain at that moment, each with its registered key and weight, and a threshold that is the configured fraction of the total weight rounded up; a rotation is initiated exactly when more than the configured number of members differ, and then the first command of the batch announces the new operators.",
  ["histories","inputs","configurations"],
  "every change of the worker registry, keys, threshold fraction and tolerance",
  "Tests use a fixed five-worker set.",
  [MP+"execute.rs",MP+"encoding/mod.rs",WS+"snapshot.rs"],[("make_worker_set",MP+"execute.rs"),("should_update_worker_set",MP+"execute.rs")],[],["worker set query, decoded commands"])
# ---------------------------------------------------------------- rewards
p("W01","Reward pools are conserved: no reward is created, lost or taken from another",
  "At all times the contract's balance in the reward denomination is at least the sum over pools of what was added minus what was paid out, payouts for one pool are taken only from that pool, and a distribution that the pool cannot fully cover is refused without any effect. Deposits are accepted only as a single non-zero coin of the reward denomination.",
  ["histories","inputs"],
  "every history of deposits, participation, parameter changes and distributions over several pools",
  "Tests follow one pool for a few steps.",
  [RW+"contract/execute.rs",RW+"state.rs",RW+"contract.rs"],[("RewardsPool.sub_reward",RW+"state.rs"),("distribute_rewards",RW+"contract/execute.rs")],[],["bank balances, DistributeRewards result"])
p("W02","Each closed epoch is paid at most once, in order, and only when settled",
  "Distribution covers consecutive epochs starting right after the last distributed one, at most as many as requested and never an epoch less than two epochs before the current one; no epoch is ever paid twice or skipped, whatever the order of participation, distribution and parameter changes. With nothing to distribute the call is refused without effect.",
  ["histories","schedules"],
  "every history of participation and distribution calls at every height and with every epoch limit",
  "Tests try a few limits in one order.",
  [RW+"contract/execute.rs",RW+"state.rs"],[("RewardsWatermark",RW+"state.rs")],[],["payouts"])
p("W03","Exactly the sufficiently participating workers share an epoch's reward equally",
  "For a distributed epoch with recorded events, each worker whose recorded participation in that epoch, with that contract, reaches the participation threshold of the epoch's events receives the epoch's reward divided by the number of such workers rounded down, and nobody else receives anything. An event belongs to the epoch in which it was first reported, is counted once, and its epoch is judged by the parameters in force when the epoch's first event was recorded.",
  ["histories","inputs","configurations"],
  "every participation pattern, threshold, event order and epoch boundary",
  "Tests use a few fixed participation tables.",
  [RW+"contract/execute.rs",RW+"state.rs"],[("EpochTally.rewards_by_worker",RW+"state.rs"),("record_participation",RW+"contract/execute.rs")],[],["payouts"])
p("W04","The epoch clock never runs backwards and parameter changes keep it consistent",
  "The epoch number never decreases as blocks pass and advances by one per configured duration; a parameter change, which only governance can make, neither skips nor repeats epochs, takes effect for the current epoch's remaining length, and ends the current epoch at once if it has already lasted longer than the new duration.",
  ["histories","schedules"],
  "every sequence of duration changes at every height",
  "Tests check single changes.",
  [RW+"contract/execute.rs",RW+"state.rs"],[("current_epoch",RW+"state.rs"),("update_params",RW+"contract/execute.rs")],[],["which epoch events fall in, seen through payouts"])
# ---------------------------------------------------------------- service registry
p("S01","Bonded stake is returned only to its owner, in full, once, after unbonding",
  "Everything a worker bonds for a service stays held until it is paid back to that same worker, exactly once and in full, by a claim made no earlier than the service's unbonding period after unbonding began; while bonded or unbonding it cannot be claimed or moved in any other way. Bonds in any other denomination are refused.",
  ["histories","schedules","inputs"],
  "every history of bonds, rebonds, unbonds and claims by several workers over several services at every time",
  "Tests follow one worker through the good path.",
  [SR+"contract.rs",SR+"state.rs"],[("BondingState transitions",SR+"state.rs"),("claim_stake",SR+"contract.rs")],[],["bank balances, claim results"])
p("S02","Active workers are exactly those authorized, bonded enough and supporting",
  "The active workers reported for a service and chain are exactly the workers that governance has authorized for the service and not revoked, whose current bond is at least the service's minimum and not being withdrawn, and who declared support for that chain. Nothing else about other services, chains or workers influences the list.",
  ["histories","inputs"],
  "every history of authorization, bonding, unbonding and declarations over several workers, services and chains",
  "Tests check each condition once.",
  [SR+"contract.rs",SR+"state.rs"],[("get_active_workers",SR+"contract.rs")],[],["GetActiveWorkers query"])
p("S03","Worker lifecycle and governance control of services",
  "Services are registered once, by governance only, which alone authorizes and revokes workers; a worker moves only between bonded, unbonding and unbonded in the prescribed order, by its own calls, and its record is reported faithfully. Authorization survives bonding changes and bonding survives authorization changes.",
  ["histories","inputs"],
  "every history of calls by every caller",
  "Tests follow single transitions.",
  [SR+"contract.rs",SR+"state.rs"],[("require_governance",SR+"contract.rs"),("Worker state",SR+"state.rs")],[],["GetService and GetWorker queries, call results"])
# ---------------------------------------------------------------- nexus gateway
p("N01","Nexus bridge: router-only out, nexus-only in, each message out at most once",
  "Only the router can send messages out to nexus and only nexus can send messages in to the router; each distinct message id is emitted to nexus at most once ever, even when repeated later or within the same batch, and never dropped on first arrival. In both directions the message arrives with its chains, addresses, payload hash and transaction reference faithfully translated, in order.",
  ["histories","inputs"],
  "every history of batches with repeats within and across batches, every sender, every id form",
  "Tests send a couple of fixed batches.",
  [NG+"contract/execute.rs",NG+"nexus.rs",NG+"state.rs"],[("ROUTED_MESSAGE_IDS",NG+"state.rs"),("nexus::Message conversions",NG+"nexus.rs")],[],["emitted custom messages, messages to the router"])
# ---------------------------------------------------------------- batching
p("B01","Batches: mandatory calls are all-or-nothing, optional failures stay isolated",
  "A batch executes its mandatory calls in order and then its optional calls; if a mandatory call fails nothing in the batch takes effect, while a failing optional call is undone alone, reported, and affects nothing else, and a succeeding one takes effect.",
  ["inputs","fault_sequences"],
  "every combination of succeeding and failing mandatory and optional calls",
  "The contract's tests inspect the response of one batch; they do not execute batches with failures at each position.",
  [BT+"contract.rs"],[("SubMsg::reply_always and reply",BT+"contract.rs")],[],["effects on called contracts, failure events"])
# ---------------------------------------------------------------- shared data rules
p("D01","Thresholds and quorums are exact and never rounded in an attacker's favour",
  "A valid threshold is a fraction greater than zero and at most one, a majority threshold additionally exceeds one half, and the quorum of a snapshot is its total weight times the threshold rounded up, for arbitrary weights; invalid fractions, empty or zero-weight participant sets are refused. Values at the extremes of the number range are handled exactly or refused.",
  ["inputs","configurations"],
  "every numerator, denominator and weight assignment",
  "Tests sample a few fractions.",
  [WS+"threshold.rs",WS+"snapshot.rs",WS+"nonempty/uint.rs"],[("Threshold/MajorityThreshold TryFrom",WS+"threshold.rs"),("Snapshot::new",WS+"snapshot.rs")],[],["constructors and instantiate messages"])
p("D02","Chain names and message ids are well-formed and compared consistently",
  "Only well-formed chain names and message ids are accepted anywhere; chain names that differ only in letter case denote the same chain for registration, routing, freezing and lookup; and the textual form of a message id parses back to the same id.",
  ["inputs"],
  "every string and every letter-case variant of a name, at every entry point",
  "Tests sample a few strings and constructors only.",
  [RA+"primitives.rs",CR+"state.rs"],[("ChainName/CrossChainId parsing",CR+"state.rs"),("ChainName of the API",RA+"primitives.rs")],[],["message acceptance, queries"])
p("D03","Distinct messages never share an identity",
  "Two messages that differ in id, source, destination or payload hash are never treated as the same message by verification: votes about one never change the status of the other, and submitting one never prevents the other from being verified.",
  ["inputs","histories"],
  "every pair of distinct messages and every order of submitting them",
  "Tests pin one hash value; no test considers pairs.",
  [CR+"state.rs",VV+"query.rs",VV+"execute.rs"],[("Message::hash",CR+"state.rs"),("poll message content comparison",VV+"query.rs")],[],["message status queries"])
# ---------------------------------------------------------------- end to end
p("E01","End to end: only quorum-attested source-chain messages become provable",
  "In the assembled system, a message from an external chain can appear in a destination gateway's outbox, and hence in any proof for the destination chain, only if a quorum of the source chain's active workers attested that exact message, neither end was frozen when it passed, and its content is unchanged. Every message so attested can be carried through by anybody.",
  ["histories","schedules"],
  "every interleaving of user calls, votes, freezes, worker changes and relays over two chains",
  "The integration tests cannot be built here and follow one good path; unit tests mock every neighbour.",
  [GW+"contract/execute.rs",VV+"execute.rs",CR+"contract/execute.rs",AV+"contract.rs",MP+"execute.rs"],[("composition of gateway, verifier, router and prover",GW+"contract/execute.rs")],[],["all queries of the composed system"])
p("E02","End to end: worker-set rotation keeps prover, signers and verifier in step",
  "In the assembled system, whenever the prover holds an active worker set that set is registered with the signing contract, so that proofs can be signed by it; every completed proof is signed by the set that was active when it was requested, and a set becomes active only after the workers of the chain confirmed it by quorum.",
  ["histories","schedules"],
  "every interleaving of worker registrations, key registrations, updates, proofs, signatures, confirmations and votes",
  "Unit tests mock the neighbours; the rotation crosses four contracts.",
  [MP+"execute.rs",MS+"contract.rs",VV+"execute.rs",SR+"contract.rs"],[("update/confirm worker set",MP+"execute.rs"),("RegisterWorkerSet",MS+"contract.rs")],[],["queries of the composed system"])
p("E03","End to end: rewards are earned only by agreeing votes and recorded signatures",
  "In the assembled system, the rewards contract pays a participant only for polls that ended and in which its vote agreed with every outcome, and for signatures of its own that were recorded in a signing session, each counted once; every such act counts towards its pool's epoch, and nothing else does. Payments come only out of what was deposited into the pool of the contract the act happened in.",
  ["histories","schedules"],
  "every interleaving of polls, votes, ends, signing sessions, deposits, parameter epochs and distributions across the voting verifier, the signing contract and the rewards contract",
  "Unit tests of the verifier and of the signing contract look at the message they send; unit tests of the rewards contract call it by hand. Whether the two agree is never run.",
  [VV+"execute.rs",MS+"contract.rs",RW+"contract.rs",RW+"contract/execute.rs"],[("end_poll rewards messages",VV+"execute.rs"),("signing rewards message",MS+"contract.rs"),("record_participation",RW+"contract/execute.rs")],[],["balances and queries of the composed system"])
# ---------------------------------------------------------------- the worker daemon
AM="ampd/src/"
p("A01","The daemon votes the truth about its chain",
  "For every poll of its own verifier about its own chain in which it participates and which has not expired, the worker daemon casts exactly one vote per message of the poll, in the order of the poll: succeeded exactly if the message's transaction is in a final block and its log at the message's index was emitted by the poll's gateway and is a contract call with exactly the message's source, destination and payload hash, not found otherwise. A worker-set poll is answered alike about the transfer of operatorship to exactly that set. It does not vote while it cannot learn what is final. Finality is the chain's finalized block (Ethereum) or the poll's number of confirmations (other EVM chains), for any such number; on Sui, where events of transaction blocks take the place of logs, a block is final once it is in a checkpoint. What the daemon cannot parse in a message does not keep it from answering for the others.",
  ["inputs","histories"],
  "every poll over every content of the source chain's blocks, receipts and logs, every final and latest height, and every answer of the chain's node",
  "Unit tests look at single receipts with one or two logs in one function each; the path from the Axelar event to the broadcast vote, with several messages per transaction, finality and node failures, is not run.",
  [AM+"handlers/evm_verify_msg.rs",AM+"handlers/evm_verify_worker_set.rs",AM+"evm/verifier.rs",AM+"evm/finalizer.rs",AM+"handlers/sui_verify_msg.rs",AM+"handlers/sui_verify_worker_set.rs",AM+"sui/verifier.rs",AM+"sui/json_rpc.rs"],
  [("verify_message, verify_worker_set",AM+"evm/verifier.rs"),("verify_message, verify_worker_set (Sui)",AM+"sui/verifier.rs"),("finalized_transaction_blocks",AM+"sui/json_rpc.rs"),("EthereumFinalizer, PollingFinalizer",AM+"evm/finalizer.rs"),("finalized_tx_receipts",AM+"handlers/evm_verify_msg.rs")],[],["votes given to the broadcaster"])
p("A02","The daemon answers exactly what it is asked",
  "The worker daemon answers every poll of the configured voting verifier, about its own chain, in which it participates, until the block of expiry, and every signing session of the configured signing contract that lists it with its current key; to nothing else does it react, whatever events other contracts emit. An answer names the right poll or session, goes to the contract that asked, and a signature is made over exactly the session's message with exactly the key that the session lists for the worker.",
  ["inputs","histories"],
  "every sequence of events from the verifier, the signing contract and arbitrary other contracts, of any content, at any block height",
  "Unit tests try one matching and one mismatching event per handler.",
  [AM+"handlers/evm_verify_msg.rs",AM+"handlers/evm_verify_worker_set.rs",AM+"handlers/sui_verify_msg.rs",AM+"handlers/sui_verify_worker_set.rs",AM+"handlers/multisig.rs","packages/events/src/event.rs"],
  [("handle of each handler",AM+"handlers/multisig.rs"),("event parsing","packages/events/src/event.rs"),("derive(try_from)","packages/events-derive/src/lib.rs")],[],["messages given to the broadcaster","requests to the signer"])
p("A03","Queued messages are broadcast exactly once, in order, within the limit, in time",
  "Every message handed to the daemon's broadcast queue is broadcast exactly once, in the order handed over, in batches whose estimated gas stays below the configured limit unless a single message reaches it; a batch goes out when the next message would not fit, when the broadcast interval has passed, when the broadcast is forced, and at the latest when all senders are gone. A failing broadcast ends the queue with an error.",
  ["schedules","histories"],
  "every sequence of hand-overs from several senders, waits, forced broadcasts, closings and failures, for every limit, capacity and gas estimate",
  "Unit tests send ten messages of one size, once per trigger.",
  [AM+"queue/queued_broadcaster.rs",AM+"queue/msg_queue.rs"],
  [("QueuedBroadcaster::run",AM+"queue/queued_broadcaster.rs"),("MsgQueue",AM+"queue/msg_queue.rs")],[("queue","messages waiting and their gas",AM+"queue/msg_queue.rs")],["batches given to the broadcaster"])
p("A04","The daemon follows the chain block by block, over restarts and crashes",
  "Every handler of the daemon is given every event of every block from the one after the last it completed, in order and exactly once, as long as the daemon runs or is stopped and started in whatever way; after a crash it may see events again but misses none. What it persists at its end, and only then, is for each handler the last block it completed, also when a signal arrives in the middle of a block, a block cannot be read, a handler fails or the node reports older blocks; answers already queued are broadcast before it ends. It makes its key once and keeps it.",
  ["crash_points","schedules","histories"],
  "every interleaving of new blocks, node outages, regressions of the latest block, signals, handler failures, crashes at any block, restarts with other handlers and long and short waits",
  "Unit tests run each task of the daemon alone for a few blocks; no test stops and restarts it, and its assembly in lib.rs is not tested at all.",
  [AM+"lib.rs",AM+"event_sub.rs",AM+"event_processor.rs",AM+"state.rs",AM+"handlers/end_block.rs",AM+"commands/daemon.rs",AM+"block_height_monitor.rs"],
  [("App::run, configure_handler",AM+"lib.rs"),("process_blocks_from, skip_to_block",AM+"event_sub.rs"),("consume_events",AM+"event_processor.rs"),("StateUpdater",AM+"state.rs")],
  [("handlers","last completed block of each handler",AM+"state.rs"),("pub_key","the daemon's key",AM+"state.rs")],["state file","broadcast messages","exit result"])
p("A05","A worker's transaction carries its messages once, paid for and signed",
  "What the daemon or a command of its command line sends to the Axelar chain is one transaction with exactly the given messages in their order, for the worker's own account on the configured chain, with the sequence number that is due as long as nobody else uses the account, with the gas that the node estimated for just these messages times the configured adjustment, with a fee of that gas times the configured price (rounded up, so never too low), and with a signature by the worker's key over exactly this. It counts as sent only when the node has it in a block and it was executed; a node that does not estimate, does not take it, does not show it within the configured number of retries, or shows that it failed, makes the sending fail, as does a signer that does not sign or an account that the node does not know. The commands send what they are named for (bond with the given coin, chain support, the worker's public key) to the configured contract, and never make a second key when the state file has one.",
  ["inputs","fault_sequences","histories"],
  "every sequence of batches, commands, uses of the account by others, reconnections and failures at each of the requests to the node and the signer, for every gas estimate, adjustment, price and number of retries",
  "Unit tests mock the node and look at one transaction at a time; none checks the signature of a second transaction, the sequence after a failure, or the commands at all.",
  [AM+"broadcaster.rs",AM+"broadcaster/tx.rs",AM+"broadcaster/accounts.rs",AM+"broadcaster/dec_coin.rs",AM+"commands/mod.rs"],
  [("broadcast, estimate_fee, confirm_tx",AM+"broadcaster.rs"),("sign_with",AM+"broadcaster/tx.rs"),("account",AM+"broadcaster/accounts.rs"),("broadcast_tx, worker_pub_key",AM+"commands/mod.rs")],
  [("acc_sequence","the sequence of the next transaction",AM+"broadcaster.rs")],["transactions the node receives","result of sending"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
