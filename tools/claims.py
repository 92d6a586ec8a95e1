claims.update({
"P01":dict(bounds="all 32-byte strings, all uint64, all scalars (symbolic), in the default, bignum_pure, bignum_hol256 and bignum_hbls builds",assumptions=["kilic/bls12-381, math/big, holiman/uint256 and herumi implement integers and the field as documented (modelled; native replays use the real ones)"]),
"P02":dict(bounds="all scalar operands and aliasing patterns of the binary/unary operations, and chosen operands around limb and modulus limits; vectors and polynomials up to 8 coefficients and of 15,16,17,33; exponents enumerated; domain sizes up to 8; each in the default, bignum_pure, bignum_hol256 and bignum_hbls builds; every ordered pair of operations in a row, in each build",assumptions=["kilic/bls12-381, math/big, holiman/uint256 and herumi implement integers and the field as documented (modelled; native replays use the real ones)"]),
"P03":dict(bounds="all scalars and points (symbolic exponents); combinations of up to 8 and of 16,17,33,64 points; pairings of all four operands; every ordered pair of operations in a row"),
"P04":dict(bounds="polynomials up to 16 coefficients (32 thorough) with symbolic coefficients, point, secret; verification for fully symbolic commitment, proof, point, value; every ordered pair of a list of operations of the package in a row on shared settings, this property's before or after each other one"),
"P05":dict(bounds="cosets of up to 8 points, polynomials up to 16 (64 thorough) coefficients, symbolic coefficients, coset offset and secret; every ordered pair of a list of operations of the package in a row on shared settings, this property's before or after each other one"),
"P06":dict(bounds="domains up to 32 (128 thorough), every input length, symbolic entries, settings larger than the input; every ordered pair of a list of operations of the package in a row on shared settings, this property's before or after each other one"),
"P07":dict(bounds="polynomials of 1..16 coefficients (32 thorough) with symbolic coefficients and secret, every chunk length, every coset; every ordered pair of a list of operations of the package in a row on shared settings, this property's before or after each other one"),
"P08":dict(bounds="2..64 symbolic values (256 thorough), settings up to 4 times larger; every ordered pair of a list of operations of the package in a row on shared settings, this property's before or after each other one"),
"P09":dict(bounds="domains 2,4,8 (16 thorough), every erasure pattern, symbolic data; domains 16..64 (256 thorough) and 128 with chosen patterns of up to half the positions; both recovery algorithms; every ordered pair of a list of operations of the package in a row on shared settings, this property's before or after each other one"),
"P10":dict(bounds="every subset of domains 2,4,8 (16 thorough) and larger settings; orders of up to 4 positions; tree reduction on domains 128 and 256 (1024 thorough) with chosen sets up to n-1; every ordered pair of a list of operations of the package in a row on shared settings, this property's before or after each other one",note="The inputs here are finite sets: each is a path of the exploration."),
"P11":dict(bounds="bit functions over all 32-bit values; permutations of up to 2^7 symbolic elements (2^10 thorough); every ordered pair of a list of operations of the package in a row on shared settings, this property's before or after each other one"),
"P12":dict(bounds="degree up to 16 (32 thorough) with symbolic values; symbolic distinct points up to degree 2 (3); party interpolation for f=1..3 (4 thorough), every target; known indexes in every choice and order for f=1 (f=2 thorough), in chosen ones for f=2,3 (4); every ordered pair of 20 party interpolations and of 10 point sets in a row"),
})
claims.update({
"P13":dict(bounds="F=1..3 (4 thorough), N=3F+1; symbolic secret and every coin of the dealer; every subset of F+1 parties; two dealings in a row, F=1 and 2, received in either order",assumptions=["messages are delivered unmodified"]),
"P14":dict(bounds="F=1 and F=2; every group element, value and witness of the dealer's message is symbolic, as is the party's previous state; one delivery; the same after a correct delivery to this or another party (F=1)",assumptions=["the message decodes (malformed messages are P30)"]),
"P15":dict(bounds="F=1 every coalition, F=2 three coalitions (all thorough); symbolic secret, coins and linear functional",note="Perfect secrecy of the private evaluations is decided as: the view is affine in secret and coins (for all values) and no functional of it independent of the coins depends on the secret (for all functionals)."),
"P16":dict(bounds="all 32-bit integers; every payload type with symbolic contents of 0,1,3 bytes; streams of up to 2 messages (3 thorough) with symbolic contents, lengths up to 70000 around the prefix boundaries, every pair of cut points of a two-message stream; VSS message for F=1..3",assumptions=["proto.Marshal/Unmarshal implement the proto3 wire format as documented (modelled)","TCP is a reliable ordered byte stream"]),
"P17":dict(bounds="up to 3 messages (4 thorough) over 2 types and 3 symbolic identifiers that may coincide; destinations and excluded parties over all 32-bit values for N=4,7; a concurrent reader with up to 2 preemptions (3 thorough) at synchronisation operations"),
"P18":dict(bounds="F=1 with up to 5 and F=2 with up to 4 arrivals before the honest ones complete (more thorough) in every order and mix of honest, repeated and arbitrary symbolic contributions of the F faulty members",assumptions=["KZG binding: no faulty member opens the honest commitment to another value","channels are authenticated (Message.Sender is true)"]),
"P19":dict(bounds="F=1 with up to 5 and F=2 with up to 3 early arrivals (more thorough), faulty members with two arbitrary symbolic commitment vectors each that may equal the honest one",assumptions=["SHA-256 is collision free on the messages of one execution","channels are authenticated (Message.Sender is true)"]),
})
claims.update({
"P26":dict(bounds="N=4 and N=7: up to 5 arrivals of valid, repeated and malformed endorsements at a sender; N=4: a receiver with valid and foreign senders, two values per stage, every kind of first-stage certificate; both stages with every pair of quorums; certificates compared as group elements with symbolic key and hash-to-curve exponents",assumptions=["hash-to-curve outputs are unrelated group elements (generic group model)","SHA-2/SHA-3 are collision free on the messages of one execution","pairings are the bilinear map on exponents"]),
"P27":dict(bounds="N=4 and N=7, one round at a real party (the second round's proposal included); up to 5 messages of each phase in mixes of valid, repeated, cross-round, other-leader, wrong-stage and malformed messages; the elected leader symbolic",assumptions=["hash-to-curve outputs are unrelated group elements (generic group model)","SHA-2/SHA-3 are collision free on the messages of one execution","channels are authenticated (Message.Sender is true)"]),
"P28":dict(bounds="N=7: two parties slow or silent, two views of votes with two equivocating voters, proposals of the second round; N=4, symbolic proposals and leaders; default order with one party or any one link slow, or one party silent, over 2 rounds (3 thorough); two parties with any 3 of 4 votes each, one voter equivocating; ten kinds of second-round proposals; two parties with their own views of two rounds (N=4 and 7) or three rounds (N=4), 0 or 1 yes votes in each",assumptions=["hash-to-curve outputs are unrelated group elements (generic group model)","SHA-2/SHA-3 are collision free on the messages of one execution"]),
"P29":dict(bounds="(N,T) of committee sizes 4 and 7 and one asymmetric shape; symbolic key polynomial; every threshold-sized set of shares (and every smaller coalition); forged shares of every index; stored coefficients through the real file format",assumptions=["hash-to-curve outputs are unrelated group elements (generic group model)","gob and the file system return what was written (modelled)"]),
})
claims.update({
"P24":dict(bounds="N=5 and N=7: an honest sender with F silent, lying or otherwise voting parties and a late party, a faulty sender and helper that propose, echo and vote two ways to any prefix split of the others; N=4,F=1, symbolic message of 2-3 bytes (0..3 all-honest; more thorough); every order of an honest sender's proposal, three echoes and three votes with a faulty party's symbolic echo, vote, repeated echo or forged proposal at every point; two views of every vote pattern with a faulty voter's symbolic shard; four parties with a faulty sender that proposes, echoes and votes two ways (up to renaming of the parties; all 27^3 thorough)",assumptions=["SHA-256 is collision free on the messages of one execution","channels are authenticated (Message.Sender is true)"]),
"P25":dict(bounds="N=4 and N=5, F=1 (where N-F, 2F+1 and 2F differ): every sequence of 5 echoes and votes over 2 digests and 2 shards with senders up to renaming; 4 (5 thorough) symbolic repeats of one sender; delivery from any order of votes with F false ones, N=4 (7 thorough), symbolic message and shards; own echoes for messages of symbolic contents",assumptions=["SHA-256 is collision free on the messages of one execution","channels are authenticated (Message.Sender is true)"]),
})
HO=["SHA-256 and SHA3 are collision free on the messages of one execution","channels are authenticated (Message.Sender is true)","threshold signatures and the coin: hash-to-curve values are independent generic scalars; the first round's leader is fixed by the choice of the handoff's name","rounds after the second of the agreement are not explored"]
claims.update({
"P20":dict(bounds="N=4, F=1 and N=7, F=2: arbitrary commitments (12 or 20 symbolic points) and values (3 or 5 symbolic scalars and witnesses) of one member (the first or the last; N=7 quick: the last) towards one recipient, before and after the commitments arrive; all-honest contributions with symbolic polynomials; F+1..F+3 repeats of a faulty member's values before or between the others'",assumptions=HO),
"P21":dict(bounds="N=4, F=1 and N=7, F=2, symbolic sharing and contributions; the pieces of one contribution late at one member (N=4: every member, contributions 1-2; all thorough); F faulty members, the first or the last: wrong, missing, repeated or misdirected values and endorsements, silence; every kind of invalid proposal by a faulty leader",assumptions=HO),
"P22":dict(bounds="N=4, F=1 and N=7, F=2, symbolic sharing; the members whose values arrive first at two members (N=4: every pair; all members thorough); F faulty members' (the first or the last) symbolic commitment or value, another member's value, repeats, silence; 0..3 successes with repeats",assumptions=HO),
"P23":dict(bounds="N=7, F=2: the refresh and distribution with a symbolic sharing; N=4, F=1, symbolic secret and coins: the whole pipeline (dealer, sharing, Prepare, ShareReduce, refresh, distribution) with one member's Prepare or ShareReduce messages late; the refresh with the messages of one of 10 types from one of two members (all, or on one link) late (every member and link thorough)",assumptions=HO),
"P34":dict(bounds="N=4 (every member) and N=7 (members 0, 3, 6); symbolic coins, shares held and linear functional over all values handed to F+1 members (which determine the contribution)",note="Decided as in P15: the values are an affine function of the coins (for all coins and shares) and the only functionals that vanish on every coin direction are multiples of the zero-sharing relation (for all functionals).",assumptions=HO),
"P31":dict(bounds="N=4, F=1, symbolic sharing; two consecutive handoffs (four thorough), one member's messages late; the state kept after a handoff with late values on every link",assumptions=HO),
})
claims.update({
"P30":dict(bounds="N=4, F=1: in a full refresh of a symbolic sharing one message of each of the 11 types that a faulty member sends is malformed (contents of a symbolic byte (2 thorough), absent, every field absent, one symbolic byte, truncated, too long or undecodable, lists too short or too long, sender indexes N and 2^32-1), delivered before the proper one; broadcasts with malformed contents; votes of the view change, the old committee's and the dealer's messages likewise; a raw connection with 3 (5 thorough) symbolic bytes after length prefixes that are right, too small, too large and huge, cut and closed anywhere; a peer that goes away",assumptions=HO),
})
claims.update({
"P35":dict(bounds="N=4, F=1 and N=7, F=2; symbolic coins, the first or the last F old members silent or none, either committee started first, address lists exact or longer; every pair of contributions to every 2F+1 of the new members (N=4); timers 4, 5 and 6 s with virtual time; the whole of main() is executed for every node, in one program, with one member replaced by a party that uses the library",assumptions=HO+["all nodes share one machine, so a wrong IP address with the right port is not seen"]),
})
claims.update({
"P36":dict(bounds="N=4, F=1 (and N=7, F=2) with goroutine-per-link networks from the dealing through a handoff to the committee itself; two concurrent broadcasts; one agreement; two links with three concurrent senders and consumers; twice each of 10 transforms, 2 recoveries, 7 proof operations and 6 FK20 operations on shared settings; four scheduling policies (run to block, yield after unlock, yield after send, last-come-first-served); the happens-before order of each explored schedule decides every pair of accesses along it",note="A candidate is confirmed by running the counterexample under Go's race detector.  Slices and arrays are tracked by their first and last elements (arrays: first eight); values shared between different nodes of the simulation and the curve package's constants are exempt.",assumptions=["schedules beyond the four policies only change which accesses are reached, not the order of those reached"]),
})
na["P32"]="termination under every schedule is a liveness statement about unbounded executions of a randomised protocol; bounded symbolic execution decides safety within a bound only"
na["P33"]="a computational (discrete-log) hardness claim: there is no assertion over the code's executions for a solver to decide"
