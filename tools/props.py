#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept as a generator only to keep the JSON well formed).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if observe: d["anchors"]["observe_at"]=observe
    if state: d["anchors"]["state"]=state
    assert len(title)<=80,(id,len(title))
    P.append(d)

B="internal/bls/"; C="internal/polycommit/"; A="internal/party/"
p("P01","Scalar encoding is canonical, total and lossless",
  "Every scalar below the group order encodes to exactly 32 little-endian bytes that decode back to the same scalar, and every 64-bit integer or decimal string becomes the scalar it denotes. A 32-byte string that denotes a value at or above the group order is rejected and leaves the destination unchanged; every other 32-byte string is accepted. This holds identically in every selectable scalar backend.",
  ["inputs","configurations"],"all 2^256 32-byte strings, all scalars, all uint64, each build-tag backend",
  "Tests round-trip a few random scalars and one invalid encoding; the boundary around the order, short encodings and other backends are measure-zero for sampling.",
  [B+"bignum_kilic.go",B+"bignum_hbls.go",B+"bignum_hol256.go",B+"bignum_pure.go",B+"bignum_all.go",B+"globals.go"],
  [("FrFrom32/FrTo32/ValidFr","internal/bls/bignum_*.go"),("AsFr/SetFr","internal/bls/bignum_*.go")])
p("P02","Scalar arithmetic is arithmetic modulo the group order",
  "Addition, subtraction, multiplication, division, inversion (single and batched), exponentiation, equality tests, linear combinations and polynomial evaluation (coefficient and evaluation form) return exactly the mathematical result modulo the group order for every operand. The result may overwrite an operand, no other argument is modified, and mismatched lengths are refused. All scalar backends compute the same results.",
  ["inputs","configurations"],"all scalar operands, all aliasing patterns, polynomial sizes up to the bound, each backend",
  "Tests use fixed or a few random operands and never alias; algebraic identities must hold for all 2^255 scalars.",
  [B+"bignum_kilic.go",B+"bignum_hol256.go",B+"bignum_pure.go",B+"globals.go"],
  [("Add/Sub/Mul/Div/Inv/ExpModFr, BatchInvModFr","internal/bls/bignum_*.go"),("EvalPolyAt, EvaluatePolyInEvaluationForm, PolyLinComb, LinCombFr","internal/bls/globals.go")])
p("P03","Group operations and pairing checks follow the exponents",
  "Scalar multiplication, addition, subtraction, negation and multi-scalar combination of curve points act on discrete logarithms exactly as the corresponding scalar operations, and the pairing comparison accepts exactly when the products of the paired exponents agree. Operands other than the destination are left untouched, and compressing then decompressing (or text-marshalling) a point gives back the same point.",
  ["inputs"],"all scalars and points (as exponents), multi-combination sizes up to the bound, including identity and zero",
  "Tests check a handful of points; the representation conversion between internal and plain scalar form must be right for every scalar and must not corrupt the caller's operand.",
  [B+"bls_kilic.go",B+"bls_all.go"],
  [("MulG1/MulG2/LinCombG1/AddG1/SubG1/NegG1","internal/bls/bls_kilic.go"),("PairingsVerify","internal/bls/bls_kilic.go"),("MarshalText/UnmarshalText","internal/bls/bls_all.go")])
p("P04","KZG single openings: complete, and accepted only if the equation holds",
  "A commitment to any polynomial within the setup size is the setup combination of its coefficients, and the opening proof computed for any point verifies with the true evaluation. For every commitment, proof, point and value, verification accepts if and only if the committed value minus the claimed value equals the proof times (secret minus point); in particular a proof never verifies for two different values.",
  ["inputs"],"all coefficients, points, values, proofs and commitments; polynomial sizes up to the bound",
  "Tests open one polynomial at a few points; wrong values, zero points, zero or constant polynomials and forged proofs are not explored.",
  [C+"kzg_single_proofs.go",C+"poly.go",C+"setup.go",C+"kzg.go"],
  [("CommitToPoly, ComputeProofSingle, CheckProofSingle","internal/polycommit/kzg_single_proofs.go"),("polyLongDiv","internal/polycommit/poly.go"),("GenerateTestingSetup","internal/polycommit/setup.go")])
p("P05","KZG multi-point openings: complete, and exact verification",
  "The multi-point proof computed for a polynomial over any power-of-two coset verifies with the true evaluations on that coset. Verification accepts if and only if the commitment minus the commitment to the interpolated values equals the proof times the coset's vanishing value at the secret.",
  ["inputs"],"all coefficients, coset offsets, claimed values and proofs; polynomial and coset sizes up to the bound",
  "The test opens a single fixed polynomial on one coset size; other size relations and wrong values are not reached.",
  [C+"kzg_multi_proofs.go",C+"poly.go"],
  [("ComputeProofMulti/CheckProofMulti","internal/polycommit/kzg_multi_proofs.go")])
p("P06","Fourier transforms evaluate, invert and commute with the exponent",
  "The forward transform of any coefficient vector is its evaluation at the successive powers of the right root of unity, and the inverse transform is its exact inverse, for scalars (padding shorter inputs with zeros) and for curve points alike. Inputs are not modified by the copying variants, and vectors longer than the domain or, where required, not a power of two are refused with an error.",
  ["inputs"],"all vectors of every length up to the bound, every domain scale up to the bound",
  "Tests run one or two fixed vectors at one scale; strided sub-domains and recursion thresholds vary with size.",
  [C+"fft.go",C+"fft_fr.go",C+"fft_g1.go"],
  [("FFT/InplaceFFT/_fft/simpleFT","internal/polycommit/fft_fr.go"),("FFTG1","internal/polycommit/fft_g1.go"),("NewFFTSettings","internal/polycommit/fft.go")])
p("P07","Bulk (FK20) proofs equal the individually computed proofs",
  "For every polynomial, the bulk proof algorithms return, at each domain position (or coset) and in the documented order, exactly the opening proof that direct computation gives, so that each one verifies against the commitment. Inputs whose upper half should be zero but is not, or whose size is unsupported, are refused.",
  ["inputs"],"all coefficients; sizes and chunk lengths up to the bound",
  "One polynomial of one size is compared; the Toeplitz index arithmetic depends on size and chunk length.",
  [C+"fk20_single.go",C+"fk20_multi.go",C+"kzg.go",C+"reverse_bit_order.go"],
  [("FK20SingleDAOptimized/DAUsingFK20/FK20Single","internal/polycommit/fk20_single.go"),("FK20MultiDAOptimized/DAUsingFK20Multi","internal/polycommit/fk20_multi.go"),("NewFK20SingleSettings/NewFK20MultiSettings","internal/polycommit/kzg.go")])
p("P08","Data extension yields the unique low-degree completion",
  "Extending the values at the even positions of a domain produces values at the odd positions such that the combined vector is the evaluation of a polynomial whose upper half of coefficients is zero. Requests larger than the domain are refused.",
  ["inputs"],"all value vectors; all sizes and domain scales up to the bound",
  "Tests extend one fixed vector; correctness over all field values and strides is not sampled.",
  [C+"das_extension.go"],[("DASFFTExtension","internal/polycommit/das_extension.go")])
p("P09","Recovery from samples returns the original data or an error",
  "Given evaluations of a polynomial of less than half the domain size with at most half of the samples missing, recovery returns exactly the original evaluations, whatever the values and whichever positions are missing. It never returns data that contradicts a sample it was given, and does not crash when nothing or little is missing.",
  ["inputs"],"all polynomials and all erasure patterns up to half, sizes up to the bound, both recovery algorithms",
  "Tests draw random erasures at a few sizes with fixed seeds; edge patterns (none, one, contiguous, all odd positions) are not covered.",
  [C+"recover_from_samples.go",C+"legacy_recovery.go",C+"zero_poly.go"],
  [("RecoverPolyFromSamples","internal/polycommit/recover_from_samples.go"),("ErasureCodeRecover","internal/polycommit/legacy_recovery.go"),("ZeroPolyViaMultiplication","internal/polycommit/zero_poly.go")])
p("P10","Vanishing polynomial vanishes exactly on the missing positions",
  "For every set of missing positions, the computed vanishing polynomial is the monic product of (x minus domain point) over exactly that set, and the accompanying evaluation vector is zero precisely at those positions. This includes sets large enough to need the tree reduction.",
  ["inputs"],"all subsets of the domain up to the bound; tree reduction at selected sizes",
  "Random subsets of one size are tested; subset structure drives leaf splitting and padding.",
  [C+"zero_poly.go"],[("ZeroPolyViaMultiplication/reduceLeaves/makeZeroPolyMulLeaf","internal/polycommit/zero_poly.go")])
p("P11","Bit-reversal reordering is the self-inverse bit-reversal permutation",
  "For every power-of-two length, reordering moves the element at each index to the index with its bits reversed, loses and duplicates nothing, and applying it twice restores the original order, for scalars, scalar pointers and curve points.",
  ["inputs"],"all 32-bit indices and power-of-two lengths; full permutations up to the bound",
  "Tests compare a few lengths with a reference; the bit trick must be right for all 2^32 indices.",
  [C+"reverse_bit_order.go",C+"fft_fr.go",C+"fft_g1.go"],[("reverseBits/reverseBitsLimited/reverseBitOrder","internal/polycommit/reverse_bit_order.go")])
p("P12","Interpolation returns the unique polynomial through the points",
  "For any distinct abscissae and any ordinates, interpolation returns the unique polynomial of the given degree through them, and the Lagrange coefficients for any target (including index zero and the known indices) recombine values, commitments and witnesses of any polynomial of that degree to its value, commitment or witness at the target.",
  ["inputs","configurations"],"all distinct abscissae, ordinates and targets; degrees and committee sizes up to the bound",
  "Random points are sampled at each degree; targets inside/outside the known set and arbitrary index sets are not.",
  ["internal/polyring/interpolation.go",A+"party_utils.go",A+"party.go"],
  [("LagrangeInterpolate","internal/polyring/interpolation.go"),("GetLagrangeCoefficients, InterpolateComOrWit, InterpolateComOrWitByKnownIndexes","internal/party/party_utils.go"),("LagrangeCoefficients table","internal/party/party.go")])
p("P13","Honest sharing completes and reconstructs the secret",
  "When the dealer is honest, every party accepts what it receives, stores a full share consistent with the public commitments, and the shares of any sufficiently large subset of parties determine the dealer's secret and no other value. This holds for every secret and every outcome of the dealer's randomness.",
  ["inputs","configurations"],"all secrets and dealer coins, all parties and subsets, committee sizes up to the bound",
  "One run per test with one secret; a share that is wrong with particular coins, party index or subset would pass.",
  [A+"client.go",A+"VSS.go",A+"party_utils.go"],
  [("Client.Share","internal/party/client.go"),("VSSShareReceive/VerifyVSSSendReceived","internal/party/VSS.go"),("EncapsulateVSSSend/SetFromVSSMessage","internal/party/party_utils.go")])
p("P14","A dealer's inconsistent sharing is rejected without side effects",
  "A party accepts a dealer's message only if the announced commitment of the secret matches the sharing polynomial's commitments, every masking commitment opens to zero and is consistent with its row commitment, and every value verifies against its row commitment at that party's index. If any of these fails the party rejects, and its stored share, witnesses and commitments stay as they were.",
  ["inputs","fault_sequences"],"all dealer messages (arbitrary points and values), every party index, committee sizes up to the bound",
  "Tests only run an honest dealer; no malicious message is ever delivered.",
  [A+"VSS.go"],[("VerifyVSSSendReceived","internal/party/VSS.go"),("VSSShareReceive","internal/party/VSS.go")])
p("P15","A corruption-bounded coalition learns nothing about the shared secret",
  "The joint private view (received evaluations) of any set of at most F parties is compatible with every value of the secret and equally so: for any two secrets there is a one-to-one change of the dealer's coins that yields the same private view. F+1 parties' reduced points, or a full quorum, are needed to determine it.",
  ["inputs","configurations"],"all pairs of secrets, all dealer coins, all F-subsets of parties, committee sizes up to the bound",
  "Independence from the secret is a relation between runs over all coins; no single execution can show it.",
  [A+"client.go"],[("Client.Share randomness use","internal/party/client.go")])
p("P16","Message encodings round-trip and reject nothing valid",
  "Every protocol payload and envelope that is encoded for sending decodes to the same type, identifier, sender and contents at the receiver; integers used as lengths, rounds and party indices convert to four big-endian bytes and back without loss; and the length-prefixed stream carries every message intact, in order, however the transport fragments it.",
  ["inputs","schedules"],"all field contents, all 32-bit integers, all fragmentations of the stream within the bound",
  "Tests encode fixed samples; fragmentation and boundary integers are not explored and the transport tests are disabled.",
  ["pkg/core/message_encapsulation.go","pkg/core/receive.go","pkg/core/send.go","pkg/utils/utils.go",A+"party_utils.go"],
  [("Encapsulation/Decapsulation","pkg/core/message_encapsulation.go"),("MakeSendChannel/MakeReceiveChannel","pkg/core/send.go, receive.go"),("Uint32ToBytes/BytesToUint32/IntToBytes/BytesToInt","pkg/utils/utils.go"),("EncapsulateVSSSend","internal/party/party_utils.go")])
p("P17","Messages reach exactly the intended queue and recipient",
  "A delivered message is queued exactly once, in arrival order, under precisely its type and instance identifier, and is never visible to another type or instance, even if nobody has asked for that queue yet. Sending reaches only the addressed party (broadcast: every party once, minus an excluded one), and an out-of-range or uninitialised destination is reported as an error.",
  ["inputs","schedules"],"all message sequences up to the bound over symbolic types/identifiers, all interleavings of arrival and subscription within the bound, all destinations",
  "Tests send matching messages in a benign order over localhost.",
  ["pkg/core/dispatche.go",A+"party_utils.go"],
  [("MakeDispatcheChannels","pkg/core/dispatche.go"),("GetMessage, Send, Broadcast, BroadcastExclude, SendToNextCommittee","internal/party/party_utils.go")])
p("P18","Handing a share down: any F+1 honest contributions, no forged one",
  "An old member sends each new member the true commitment, value and opening of that member's column; a new member adopts a reduced share only from F+1 openings that verify against one commitment, and it then equals the committed column polynomial. Invalid, mismatched or repeated contributions (whatever their order) never enter the result and never stop the member from finishing once F+1 distinct honest contributions have arrived.",
  ["inputs","schedules","fault_sequences"],"all sharings, all choices and arrival orders of contributors, up to F arbitrary Byzantine messages, committee size 4",
  "Tests run with all-honest parties over localhost in whatever order arrives.",
  [A+"ShareReduce.go"],[("ShareReduceSend/ShareReduceReceive","internal/party/ShareReduce.go")])
p("P19","Public commitments are adopted only when an honest old member vouches",
  "A new member adopts the public commitments only after F+1 different old members sent identical ones, adopts exactly those, and does so for every arrival order and whatever up to F faulty members send, however often they repeat it.",
  ["inputs","schedules","fault_sequences"],"all commitment vectors, all interleavings of F+1 honest and arbitrarily many faulty messages within the bound",
  "All-honest runs only; repetition or divergence by a faulty member is never tried.",
  [A+"ShareReduce.go"],[("PrepareSend/PrepareReceive","internal/party/ShareReduce.go")])
p("P20","Refresh contributions are endorsed only if they verify in full",
  "A member endorses (signs and forwards) another member's refresh contribution only if its commitments share zero, every masking commitment opens to zero and matches, and every single value it received opens the matching commitment at its own index; honest contributions are always endorsed, with correctly interpolated values and witnesses for every recipient.",
  ["inputs","fault_sequences","schedules"],"all contributions (arbitrary points, values), corruption at any single position, committee size 4",
  "Only honest contributions are ever produced in tests.",
  [A+"ProactivizeAndShareDist.go"],[("Commit/Verify/Reshare/Vote","internal/party/ProactivizeAndShareDist.go")])
p("P21","Refresh re-randomises shares without changing the secret",
  "After agreement on a set of contributions every honest member's refreshed share equals its old one plus the sum of exactly the agreed contributions at its index, so the shared secret is unchanged and the members' shares stay on one sharing; this holds for every contribution, every agreed set and every order in which the pieces arrive, including when a member must recover a contribution from others' forwarded values.",
  ["inputs","schedules","fault_sequences"],"all old shares and contributions, agreed sets, arrival orders within the bound, committee size 4",
  "Tests never compare the refreshed sharing with the old secret over all inputs and see only benign timings.",
  [A+"ProactivizeAndShareDist.go"],[("Recover, Refresh","internal/party/ProactivizeAndShareDist.go")])
p("P22","Distributed full shares are consistent with the refreshed commitments",
  "A member completes a handoff only with a full share interpolated from 2F+1 values of distinct members, each verified at its own index against a new commitment that equals the old commitment plus the agreed refresh; a wrong commitment or value is never used. The result is the same whichever members' values are used.",
  ["inputs","schedules","fault_sequences"],"all shares, all subsets and orders of senders, a faulty sender's arbitrary message, committee size 4",
  "Honest-only runs on localhost; the chosen subset is whatever arrives first.",
  [A+"ProactivizeAndShareDist.go"],[("ShareDist: Distribute/Commit/Verify/Interpolate","internal/party/ProactivizeAndShareDist.go")])
p("P23","A full handoff between honest committees preserves the secret",
  "After an all-honest sharing and handoff every new member terminates with a full share, the new shares lie on one sharing of the original secret, and any sufficiently large subset of them reconstructs it.",
  ["inputs","schedules"],"all secrets and coins; message schedules within the stated deviation bound; committee size 4",
  "The handoff test runs one secret with one timing and checks no algebraic relation for other inputs.",
  [A+"ShareReduce.go",A+"ProactivizeAndShareDist.go",A+"VSS.go",A+"client.go"],[("whole pipeline","internal/party")])
p("P24","Reliable broadcast: one proposal per instance reaches everyone intact",
  "If the sender of an instance is honest, every honest party delivers exactly the proposed message, whatever up to F faulty parties send and in whatever order messages arrive. No two honest parties deliver different messages in the same instance, even if the sender is faulty.",
  ["inputs","schedules","fault_sequences"],"all messages up to the length bound, faulty parties' arbitrary echo/ready messages, delivery orders within the bound, committee size 4",
  "Tests broadcast one message among honest parties; equivocation and corrupted shards are not tried.",
  [A+"RBC.go"],[("RBCSend/RBCReceive","internal/party/RBC.go")])
p("P25","Broadcast votes and deliveries respect their quorums",
  "A party votes for a message digest at most once per instance, and only after N-F distinct parties echoed the same shard of it or F+1 distinct parties voted for it together with F+1 matching echoes; it delivers only a message matching the digest that N-F distinct parties voted for. Repeating messages never helps reach a quorum.",
  ["inputs","schedules","fault_sequences"],"all sequences of echo/ready messages up to the bound with symbolic contents and repeated senders, committee size 4",
  "The quorum edge (one below, duplicates, mixed digests) never occurs in an honest run.",
  [A+"RBC.go"],[("Echo and Ready handlers, amplification","internal/party/RBC.go")])
p("P26","Provable broadcast certificates are backed by a quorum on one value",
  "A sender obtains a certificate only from valid endorsements of its own value by 2F+1 different parties, and the certificate verifies under the committee key; duplicates and invalid endorsements neither count nor spoil it. A receiver endorses at most one value per instance and stage, only from that instance's sender, and in the second stage only if the first-stage certificate for the same value verifies; an invalid one is ignored without harm.",
  ["inputs","schedules","fault_sequences"],"all values, all sequences of endorsements with duplicates/invalid ones up to the bound, committee size 4",
  "Tests run honest parties only.",
  [A+"pb.go",A+"spb.go"],[("Sender/Receiver","internal/party/pb.go"),("SPBSender/SPBReceiver/validator","internal/party/spb.go")])
p("P27","Agreement decides only a value certified for the elected leader",
  "In the agreement protocol a party halts only with a value carrying a valid second-stage certificate of the round's leader; the leader is the same at all parties, a function of the jointly signed round coin; a party votes, locks and carries over values only on the evidence the protocol requires, and certificates it forwards verify.",
  ["inputs","schedules","fault_sequences"],"all message sequences up to the bound including invalid, duplicate and cross-round ones, committee size 4",
  "Honest parties always take the shortcut path in tests, so the pre-vote/vote/view-change branches and forged messages are never exercised.",
  [A+"main_process.go",A+"message_handler.go"],[("messageHandler, preVote, vote, election, MainProcess","internal/party/message_handler.go, main_process.go")])
p("P28","Honest parties agree on one proposed value",
  "When all parties run the agreement with arbitrary proposals, every party that outputs, outputs the same value, and that value is one of the proposals; with all parties honest every party outputs.",
  ["inputs","schedules"],"all proposals, all leaders, delivery schedules within the deviation bound, committee size 4",
  "One honest run per test; schedules in which parties finish at different points are not controlled.",
  [A+"main_process.go",A+"message_handler.go",A+"pb.go",A+"spb.go"],[("MainProcess","internal/party/main_process.go")])
p("P29","Threshold signing keys: any quorum of shares combines, fewer do not",
  "The generated key shares lie on one polynomial whose degree is one less than the threshold and whose public commitment matches: any threshold-sized set of signature shares combines to the unique signature that verifies under the committee key, share verification accepts exactly correctly computed shares, and keys derived from stored coefficients are the same at every party.",
  ["inputs","configurations"],"all coefficient choices and all threshold-sized subsets, committee sizes up to the bound",
  "Tests combine one subset of one key.",
  [A+"keygen.go"],[("SigKeyGen/SigKeyGenFix/SigKeyGenFix_New/GenCoefficientsFile","internal/party/keygen.go")])
p("P30","Malformed or misaddressed input from a faulty party never kills a party",
  "No message content from a faulty party or dealer (undecodable points, missing or short fields, out-of-range indices, truncated payloads) makes an honest party panic, exit or read out of bounds; the message is ignored and the protocol step still completes from honest messages.",
  ["inputs","fault_sequences"],"each protocol step, each field of its message individually malformed or absent, every sender index",
  "Tests never deliver a malformed message.",
  [A+"VSS.go",A+"ShareReduce.go",A+"ProactivizeAndShareDist.go",A+"RBC.go",A+"pb.go",A+"message_handler.go","pkg/core/receive.go"],[("message parsing in every receive step","internal/party/*.go")])
p("P31","Consecutive handoffs keep working",
  "The state a committee holds after completing a handoff is sufficient to hand over again: its contributions to the next committee verify, and the next committee's shares still reconstruct the original secret.",
  ["inputs","histories"],"all sharings, histories of two consecutive handoffs, committee size 4",
  "Tests perform a single handoff.",
  [A+"ProactivizeAndShareDist.go",A+"ShareReduce.go"],[("end-of-handoff state: full share, witnesses, commitments","internal/party/ProactivizeAndShareDist.go")])
p("P32","Every protocol step terminates under asynchrony",
  "With at most F faulty parties and eventual delivery, sharing, handoff, broadcast and agreement terminate (with probability one for agreement) at every honest party under every schedule.",
  ["schedules","fault_sequences"],"unbounded fair schedules, committees of any size",
  "Termination is a limit property over infinite schedules and random coins.",
  [A+"main_process.go",A+"RBC.go",A+"ProactivizeAndShareDist.go"],[("whole protocol","internal/party")])
p("P33","Commitments and shares hide the secret computationally",
  "An adversary that sees all public commitments, proofs and F parties' state cannot compute the secret, and cannot open a commitment to two values, under the discrete-log type assumptions the scheme relies on.",
  ["inputs"],"all polynomial-time adversaries","Cryptographic hardness is not observable in executions.",
  [A+"party.go",C+"setup.go",C+"kzg_single_proofs.go"],[("KZG commitments, trusted setup","internal/polycommit, internal/party/party.go")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
