#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list is readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))
A="iris-mpc/src/aby3/"; M="iris-mpc/src/aby3_mal/protocol.rs"; S="iris-mpc/src/spdzwise/"; W="iris-mpc/src/swift3/"

prop("C01","Sharing a value and opening it returns the value at every party",
 "For each of the four protocols, whatever value is secret-shared (by a party as input, or by a dealer ahead of the session) the three parties hold mutually consistent replicated shares of exactly that value. Opening one value or a batch of them, arithmetic or Boolean, returns exactly the shared values, in order, at all three parties.",
 ["inputs","programs"],"every ring type the protocol supports, every value including the extremes and negative ones, every input party, every batch length, anywhere in a session",
 "The tests share one random value per ring and inspect only the opened result in fixed places; a wrong or unreplicated share that happens to cancel, an input party or batch length not tried, or a signed extreme is not seen.",
 [A+"protocol.rs",A+"share.rs",M,S+"protocol.rs",W+"protocol.rs",W+"share.rs"],
 [("input / share / open / open_many / open_bit / open_bit_many",A+"protocol.rs, "+M+", "+S+"protocol.rs, "+W+"protocol.rs"),("replicated share layout",A+"share.rs, "+W+"share.rs")],
 [("Share","the two (ABY3, SPDZ-wise) or three (Swift3) components a party holds",A+"share.rs")],
 ["return values of the public MpcTrait operations at all three parties"])
prop("C02","Arithmetic on shares equals ring arithmetic on the shared values",
 "After any sequence of additions, subtractions, multiplications and operations with public constants on shared values, with the protocol's methods or the operators of the share types, in any of the four protocols, the three parties hold consistent shares of exactly the value that the same sequence gives in the ring of integers modulo 2^k. Operands are not altered: every earlier value still opens to what it was.",
 ["inputs","programs"],"every program of add, sub, add_const, sub_const, mul, mul_const (methods, and the operators + - * << and their assigning forms on shares) over every supported ring, and all operand values including wrap-around",
 "Each test runs a single operation on one random operand pair; compositions, reuse of results, operand aliasing and boundary values are not reached, and consistency of the three parties' shares is not looked at.",
 [A+"protocol.rs",A+"share.rs",M,S+"protocol.rs",S+"share.rs",W+"protocol.rs",W+"share.rs"],
 [("local share algebra",A+"share.rs, "+W+"share.rs, "+S+"share.rs"),("multiplication with re-sharing",A+"protocol.rs, "+M+", "+S+"protocol.rs, "+W+"protocol.rs")],
 [], ["shares returned by each operation at all three parties, and opened values"])
prop("C03","Dot products, batched and masked, equal the plaintext dot products",
 "In every protocol, the shared dot product of two shared vectors opens to the ring dot product of the vectors, a batch of dot products gives each pair's own product in order, and a masked batch over full-size iris codes counts exactly the positions its own mask selects. This holds for every vector length and batch size and leaves the parties with consistent shares.",
 ["inputs"],"all vector lengths and contents, all batch sizes, mixed lengths within a batch, all masks, all supported rings",
 "The tests use one fixed length per ring with random contents (the Swift3 dot-product test is ignored), so other lengths, batches with several different masks and ring extremes are not exercised.",
 [A+"protocol.rs",M,S+"protocol.rs",W+"protocol.rs","iris-mpc/src/traits/mpc_trait.rs"],
 [("dot / dot_many / masked_dot_many","iris-mpc/src/traits/mpc_trait.rs and the four protocol.rs files")],[],
 ["shares returned by dot, dot_many, masked_dot_many and the opened values"])
prop("C04","Sign-bit extraction, OR and OR-reduction equal their plaintext results",
 "In every protocol, extracting the most significant bit of shared ring elements yields consistent shares of exactly those bits, in order, the OR of two shared bits is their OR, and reducing a list of shared bits by OR yields 1 exactly when some bit is 1. This holds for every batch length and every chunk size.",
 ["inputs"],"every ring, all element values, all batch lengths including ones that are not multiples of the packing width, all chunk sizes >= 1, all bit patterns including a single 1 at any position",
 "The tests extract the sign bit of one random value per ring and never vary batch length, chunk size or the position of the only 1; most lengths take different packing, padding and tree paths.",
 [A+"protocol.rs",A+"utils.rs","iris-mpc/src/traits/binary_trait.rs",M,S+"protocol.rs",W+"protocol.rs"],
 [("binary adder circuits and packing","iris-mpc/src/traits/binary_trait.rs, "+A+"utils.rs"),("or_tree / reduce_binary_or","the four protocol.rs files")],[],
 ["get_msb, get_msb_many, binary_or, reduce_binary_or and open_bit(_many)"])
prop("C05","A database query answers exactly what plaintext iris matching answers",
 "A membership query returns true, at all three parties, exactly when some database code is within the matching threshold of the query code under the masked fractional Hamming distance, and this agrees with the plaintext reference. The answer does not depend on the protocol, the ring, the chunk size, the position of the match, or the queries asked before on the same session.",
 ["inputs","histories"],"all codes and masks (including distances exactly at, one below and one above the threshold and masks at the minimum size), all database sizes and chunk sizes >= 1, all supported rings, and sequences of queries on one session",
 "The tests use a few random codes, whose distances are never near the threshold, databases of one or two fixed sizes and one chunk size; boundary distances, mask interplay, uneven last chunks and repeated queries are not reached, and the Swift3 ones are ignored for being slow.",
 ["iris-mpc/src/iris/protocol.rs","plain-reference/src/lib.rs","iris-mpc/src/traits/mpc_trait.rs"],
 [("masked distance, threshold, chunking, OR, open","iris-mpc/src/iris/protocol.rs"),("plaintext matching","plain-reference/src/lib.rs")],[],
 ["the result of a membership query at each party", "the plaintext reference's decision"])
prop("C06","Iris pairs with too little usable mask are refused, never decided",
 "A query in which the combined mask of the query and any database entry leaves fewer than the minimum number of usable bits ends in an error at every party and no match result is produced; with exactly the minimum it is decided normally. This holds wherever in the database, and in whichever chunk, the entry lies.",
 ["inputs"],"all masks, with combined weight below, at and above the minimum; all positions and chunk sizes; all protocols",
 "No test combines masks near the minimum; the generated codes have nearly full masks, so the refusing branch is never taken with a multi-entry database.",
 ["iris-mpc/src/iris/protocol.rs","plain-reference/src/lib.rs"],
 [("combined mask weight check","iris-mpc/src/iris/protocol.rs")],[],
 ["the result of a membership query at each party"])
TT="all executions in which one of the three parties deviates: every message it sends, altered in every explored way (changed bits, added offsets, replaced or replayed content, consistent changes to several messages, corrupted local shares)"
prop("C07","Malicious-secure ABY3: one cheating party cannot make others accept wrong data",
 "If one party of a malicious-secure ABY3 session sends anything other than what the protocol prescribes, then each honest party either obtains the correct result or an error: no operation and no opening hands an honest party a wrong value. In particular what is opened is never wrong.",
 ["fault_sequences","inputs"],TT,
 "No test of the repository ever alters a message: every test runs three honest parties, so deleting any check leaves all of them passing.",
 [M,"iris-mpc/src/commitment/mod.rs",A+"utils.rs"],
 [("jointly sent messages and transcript hash comparison",M),("triple sacrifice and dot sacrifice",M),("joint coin",M)],
 [("send / receive queues","what was sent jointly and what was received, compared by hash before opening",M)],
 ["results of operations and opens at the two honest parties while the third's messages are altered"])
prop("C08","SPDZ-wise: one cheating party cannot make others accept wrong data",
 "If one party of an SPDZ-wise session deviates, then no opening, arithmetic or Boolean, and no membership query hands an honest party a wrong value: after the verification that an opening includes or the caller ran, each honest party has the correct value or an error. Altered values, MACs, multiplication triples, AND gates and opening messages are all covered.",
 ["fault_sequences","inputs"],TT+"; rings whose verification ring leaves at least 40 bits of slack",
 "No test alters a message; with three honest parties the MAC check, the triple checks and the transcript check can all be removed without a test noticing.",
 [S+"protocol.rs",S+"triples.rs","iris-mpc/src/iris/protocol.rs"],
 [("MAC check over the verification queue",S+"protocol.rs"),("triple generation, cut-and-choose, sacrifice and AND-gate check",S+"protocol.rs, "+S+"triples.rs"),("transcript hash comparison",S+"protocol.rs")],
 [("verification queue, triple buffer","authenticated values and AND gates still to be checked",S+"protocol.rs")],
 ["results of opens, verify and queries at the two honest parties while the third's messages are altered"])
prop("C09","Swift3: one cheating party cannot make others accept wrong data",
 "If one party of a Swift3 session deviates, then once the session's verification has been run each honest party has either an error or values that are all correct: no altered multiplication, AND gate, dot product, input, proof or opening message leads an honest party to accept a wrong opened value.",
 ["fault_sequences","inputs"],TT,
 "No test alters a message; verification is only ever run on honest transcripts, so a verifier that accepts everything passes all tests.",
 [W+"protocol.rs","iris-mpc/src/dzkp/mul_proof.rs","iris-mpc/src/dzkp/and_proof.rs","iris-mpc/src/dzkp/dot_proof.rs","iris-mpc/src/dzkp/polynomial.rs"],
 [("distributed zero-knowledge proofs for mul, AND, dot","iris-mpc/src/dzkp"),("transcript hash comparison",W+"protocol.rs"),("commit-and-open coins",W+"protocol.rs")],
 [("recorded multiplications, ANDs, dots","what has to be proven at verification",W+"protocol.rs")],
 ["results of verify and of opens at the two honest parties while the third's messages are altered"])
prop("C10","Malformed, truncated or missing messages end in an error, not a panic or a hang",
 "If a message reaching a party is truncated, extended, empty or has arbitrary contents, or if a peer disappears, at any point of any operation of any of the four protocols, then every party's call terminates: with an error, or with a value, but never by crashing and never by waiting for ever for a party that has already given up.",
 ["fault_sequences"],"every message of every operation, every length and content of the replacement, every point at which a peer's connections close",
 "The tests only use honest in-process networks that neither lose nor alter anything, so decoding and error paths are never run.",
 [A+"utils.rs",A+"protocol.rs",M,S+"protocol.rs",W+"protocol.rs","iris-mpc/src/types/int_ring.rs","iris-mpc/src/types/bit.rs"],
 [("length and content checks while decoding",A+"utils.rs, iris-mpc/src/types")],[],
 ["how each party's call ends"])
prop("C11","SPDZ-wise values always carry a MAC under the session's one secret key",
 "Every authenticated value that an SPDZ-wise operation returns, whatever operations produced it, has as its MAC shares a consistent sharing of key times value in the verification ring, under the one key the three parties share; this includes values dealt under a key that is then installed, and holds after a key change for values created since.",
 ["programs","inputs","histories"],"all programs of input, share, linear, multiplication and dot-product operations, key installation and change, all rings",
 "Tests check only opened values; a wrong MAC on an intermediate value that is not opened, or on the path through constants, is invisible to them.",
 [S+"protocol.rs",S+"share.rs",S+"vecshare.rs"],
 [("value and MAC computed side by side",S+"protocol.rs")],[("MAC key share","each party's replicated share of the key",S+"protocol.rs")],
 ["value and MAC shares returned by each operation, and the key shares"])
prop("C12","SPDZ-wise never runs short of multiplication triples in an honest session",
 "When a caller announces how many AND gates it will use and then uses no more than that, or uses the membership query, which announces for itself, an honest SPDZ-wise session never fails for lack of precomputed triples, whatever was precomputed, used and verified before; no triple is used to check two different gates.",
 ["histories","inputs","configurations"],"all sequences of announcements, uses and verifications in one session, all database and chunk sizes",
 "Each test runs one operation on a fresh session with one batch size, so leftovers from earlier batches and sizes around the batch bound never occur.",
 [S+"protocol.rs",S+"triples.rs","iris-mpc/src/iris/protocol.rs"],
 [("announce / generate / consume accounting",S+"protocol.rs (precompute_and_triples, triple verification)"),("gate estimate of a query","iris-mpc/src/iris/protocol.rs (msb_and_gates, iris_in_db)")],
 [("precomputed triples, logged gates","stock and pending consumption",S+"protocol.rs, "+S+"triples.rs")],
 ["errors returned by operations, verify and queries in honest sessions"])
prop("C13","Honest sessions always pass their own verification",
 "In every protocol with a verification step, verification of an honest history succeeds: after any sequence of operations, of any sizes and values, at any point of the session, any number of times, including with nothing to verify, and the session remains usable afterwards.",
 ["programs","histories","inputs"],"all operation sequences, batch sizes, rings and placements of verify calls",
 "Verification is run by the tests after one operation kind at a time with fixed sizes; proof padding, mixed lengths and repeated verification are not reached (the heavy Swift3 tests are ignored).",
 [W+"protocol.rs","iris-mpc/src/dzkp/mul_proof.rs","iris-mpc/src/dzkp/and_proof.rs","iris-mpc/src/dzkp/dot_proof.rs",S+"protocol.rs",M],
 [("proof generation and verification with padding","iris-mpc/src/dzkp"),("MAC and triple checks",S+"protocol.rs")],[],
 ["result of verify, and of opens after it, in honest sessions"])
prop("C14","Setup fixes every party's keys before any is revealed, and keys agree",
 "After setup each pair of parties holds the same pairwise randomness, so shares made from it stay consistent, and different sessions have independent keys. In malicious-secure ABY3 and Swift3 no party reveals its key contribution, and in Swift3 no contribution to a joint coin, before it has received the other parties' commitments, and a contribution that does not match its commitment is refused with an error.",
 ["schedules","fault_sequences"],"all message timings, and every alteration of a setup or coin message",
 "Tests only run honest setup; ordering of commit and reveal, and refusal of mismatching reveals, leave no trace in their results.",
 [A+"random/prf.rs",A+"protocol.rs",M,W+"random/prf.rs",W+"protocol.rs","iris-mpc/src/commitment/mod.rs"],
 [("commit, exchange, open, combine",M+", "+W+"protocol.rs, iris-mpc/src/commitment/mod.rs")],[("pairwise seeds","keyed generators shared with each neighbour",A+"random/prf.rs, "+W+"random/prf.rs")],
 ["order of sends and receives during setup and coins; results of preprocess under altered messages"])
prop("C15","Message timing and party speed never change results or block progress",
 "Three honest parties that call the same operations in the same order all finish them with the same correct results, whatever the delays on each link and the relative speeds of the parties, as long as each link delivers in order and buffers at least eight messages; every message sent is consumed by the operation that it belongs to.",
 ["schedules"],"all interleavings of the three parties and all per-link delays, for every operation and sequence of operations of the four protocols",
 "Each test runs one arbitrary schedule on an unbounded in-memory network; reordering of sends and receives, cyclic waits on bounded links and leftover messages do not show.",
 [A+"utils.rs",A+"protocol.rs",M,S+"protocol.rs",W+"protocol.rs"],
 [("send-before-receive round structure","the four protocol.rs files, "+A+"utils.rs")],[],
 ["per-party sequences of sends and receives, results"])
prop("C16","Secret-dependent messages are masked with fresh common randomness",
 "What a party learns from the messages of an operation other than an opening does not depend on the other parties' secrets: every re-shared product, shared input and masked value is blinded by randomness that is drawn afresh each time, is the same at the parties that must share it and unknown to the receiver. Repeating an operation on the same operands gives unrelated shares and messages.",
 ["inputs","histories"],"all operations, values, and repetitions in a session and across sessions",
 "Results are the same whether masks are fresh, reused, constant or absent, so no functional test can notice.",
 [A+"random/prf.rs",A+"protocol.rs",W+"random/prf.rs",W+"protocol.rs",M,S+"protocol.rs"],
 [("correlated randomness",A+"random/prf.rs, "+W+"random/prf.rs")],[],
 ["shares and messages of repeated operations"])
prop("C17","Channels deliver every message once, intact, in order, to the named peer",
 "Over the real network layer, every message sent to a party while the connection is up is received by exactly that party, exactly once, unaltered and in the order sent, on the channel it was sent on, whatever the message sizes up to the frame limit and however sends and receives are interleaved, including what a protocol party sent just before it finished; messages on different channels do not mix, and a broadcast returns the three parties' messages in order of their ids.",
 ["schedules","inputs"],"all message sizes from empty to the frame limit, all interleavings of sends and receives, several channels per connection, managed and unmanaged channels, byte and typed messages",
 "mpc-net has no tests; the examples send a few short messages in lock step.",
 ["mpc-net/src/channel.rs","mpc-net/src/codecs.rs","mpc-net/src/lib.rs",A+"network.rs"],
 [("channel and job queues","mpc-net/src/channel.rs"),("party-to-channel mapping",A+"network.rs, mpc-net/src/lib.rs")],[],
 ["messages received at each party over loopback"])
prop("C18","Three parties connect in any start order, and each link leads to the right peer",
 "If the three parties of a valid configuration are started in any order, with delays within the half minute that a connection attempt lasts, all of them become connected and have channels to both others, each link labelled with the party that really is at its other end, and they can open further sets of channels likewise. Configurations that do not name the own id, repeat an id or do not have three parties with ids 0 to 2 are refused with an error.",
 ["schedules","configurations"],"all start orders, delays up to the connection timeout, all orders of the parties in the configuration, several rounds of channel creation, invalid configurations",
 "mpc-net has no tests; nothing in the suite establishes a real connection.",
 ["mpc-net/src/lib.rs","mpc-net/src/config.rs",A+"network.rs"],
 [("client/server roles by id, ascending channel creation","mpc-net/src/lib.rs"),("check_config","mpc-net/src/config.rs")],[],
 ["result of establishing, and who answers on each channel"])
prop("C19","Invalid arguments are refused with an error by every party",
 "Operations called with arguments that make no sense - a party id that does not exist, a missing input value at the inputting party, vectors or batches of different lengths, codes of the wrong size, an empty or inconsistent database, a ring too small for iris codes - return an error at each party that was given them, without crashing, and without giving a result.",
 ["inputs"],"all invalid argument shapes for every public operation of the four protocols",
 "The tests call operations with well-formed arguments only.",
 [A+"protocol.rs",M,S+"protocol.rs",W+"protocol.rs","iris-mpc/src/iris/protocol.rs","iris-mpc/src/traits/mpc_trait.rs"],
 [("argument checks","the four protocol.rs files and iris-mpc/src/iris/protocol.rs")],[],
 ["results of the operations"])
prop("C20","Ring elements and typed messages survive encoding and decoding",
 "Encoding a ring element or a typed network message and decoding it gives the same element back, for every ring type and value; two's-complement conversion, bit decomposition and modular inverse agree with the integers modulo 2^k.",
 ["inputs"],"every value of every ring type, every typed message",
 "The tests convert a few random values per type.",
 ["iris-mpc/src/types/int_ring.rs","iris-mpc/src/types/ring_element.rs","iris-mpc/src/types/bit.rs","iris-mpc/src/types/sharable.rs","mpc-net/src/codecs.rs"],
 [("byte encodings and conversions","iris-mpc/src/types"),("typed codec","mpc-net/src/codecs.rs")],[],
 ["public ring type functions"])
prop("C21","Sample databases hold consistent shares of the codes they list, and the match programs answer by them",
 "The database generators add exactly as many entries as asked for to a database, keep the entries it has, and give each entry a full-size code and mask and shares that reconstruct to exactly the bits of the code - for SPDZ-wise also MACs under the MAC key stored with them, whose own shares reconstruct to it. Shares are random and fresh for each entry. The same seed gives the same entries; different seeds, or none, give unrelated ones; an unknown protocol is refused and changes nothing. The match programs, plain and of the three MPC parties, answer for a database and query what comparing masked Hamming distances answers, for every chunk size and every time they are asked; a query made from the first entry matches; a database without entries, with too little mask in common with the query, or with no or several MAC keys is refused.",
 ["inputs","histories"],"all protocols, seeds, numbers of entries, and sequences of generator runs; all databases and queries, chunk sizes and numbers of rounds",
 "The binaries and examples have no tests at all; the shares they write are only looked at inside of an MPC run.",
 ["iris-mpc/src/bin/create_sample_data.rs","plain-reference/src/bin/create_sample_data_plain.rs","plain-reference/src/bin/find_match.rs","plain-reference/src/lib.rs","iris-mpc/examples","iris-mpc/src/aby3/share.rs","iris-mpc/src/spdzwise/share.rs"],
 [("one loop per entry, columns share_* and mac_*","iris-mpc/src/bin/create_sample_data.rs"),("chunked matching against the columns of the own party","iris-mpc/examples")],[],
 ["contents of the database file, output and exit status of the programs"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
