#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json, os
P=[]
S="secure-computation-library/"
I=S+"include/scl/"; C=S+"src/scl/"
def p(id,title,statement,over,text,why,files,mech,observe=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                   observe_at=observe or [],hook_needed=None)))

p("C01","TurboPack delivers the circuit's value to every output owner",
 "For every arithmetic circuit, every assignment of inputs and every admissible combination of party count, threshold and packing size, when all parties run the function-independent preprocessing, the function-dependent preprocessing and the online phase, each output owner obtains exactly the value that evaluating the circuit in the clear gives. This includes circuits whose layers or client input/output lists do not fill a batch, span several batches or are empty, wires that are used several times, squared, doubled or output directly, and additions of any nesting.",
 ["programs","inputs","configurations"],"all circuits (wiring, layer widths, owners), all field inputs, all (n,t,k) with n=t+2k-1>2t",
 "The tests run two or three hand-made circuits with one (n,t,k) each and mostly dummy preprocessing; padding, several batches per layer, repeated wires, other k and t are not reached.",
 ["src/tp/correlator.cc","src/tp/fi_prep.cc","src/tp/mult_gate.cc","src/tp/circuits/offline.cc","src/tp/circuits/online.cc","src/tp/input_gate.h","src/tp/output_gate.h"],
 [("mu/lambda masking and packed Beaver multiplication","src/tp/mult_gate.cc"),("mapping of preprocessing to gates and batches","src/tp/circuits/offline.cc"),("padding gates","src/tp/mult_gate.h")],
 ["tp::Circuit::GetOutputs","tp::OutputGate::GetValue"])
p("C02","TurboPack is deadlock-free and its result independent of scheduling",
 "For every interleaving of the parties (each running the whole protocol on its own over reliable in-order channels), and of the concurrent sending and receiving activities inside one party (overlapped as in the benchmark program, with a threshold of at least 1), the protocol terminates, consumes every message that was sent, and yields the same correct outputs.",
 ["schedules"],"all interleavings of n parties and of the sender/receiver threads within a party",
 "Unit tests drive all parties in lock-step from one thread, so no party ever waits and no two activities overlap.",
 ["src/tp/circuits.h","src/tp/circuits/online.cc","src/tp/circuits/offline.cc","src/tp/fi_prep.cc","src/tp/correlator.cc","src/tp/mult_gate.cc","experiments/ours.cc"],
 [("matching per-channel send/receive orders of all phases","src/tp/circuits/offline.cc"),("threads overlapping send and receive","experiments/ours.cc")],
 ["outputs of every party; blocked parties; bytes left in channels"])
p("C03","The DN07 baseline delivers the circuit's value to every output owner",
 "For every circuit, every input assignment and every honest-majority setting n>2t, running the DN07 baseline (its own preprocessing or constant dummy preprocessing, function-dependent phase, input, multiplication and output phases) gives every output owner exactly the value of the circuit evaluated in the clear. A party count that does not exceed twice the threshold is rejected.",
 ["programs","inputs","configurations"],"all circuits, all inputs, all (n,t) with n>2t; all rejected (n,t)",
 "Tests use a single circuit and threshold, with all inputs owned by few parties.",
 ["src/tp/dn07.cc","src/tp/dn07.h"],
 [("random and double sharings through Vandermonde extraction","src/tp/dn07.cc"),("zero-share compression of the last t parties","src/tp/dn07.cc")],
 ["tp::DN07::GetOutput"])
p("C04","DN07 is deadlock-free and its result independent of scheduling",
 "For every interleaving of the parties running the DN07 baseline over reliable in-order channels, and of the concurrent send and receive activities used inside one party, the protocol terminates, consumes every message and produces the same correct outputs.",
 ["schedules"],"all interleavings of n parties and of the sender/receiver threads within a party",
 "Unit tests drive all parties in lock-step from one thread.",
 ["src/tp/dn07.cc","experiments/dn07.cc"],
 [("per-layer queues of shares at the first party","src/tp/dn07.h"),("matching send/receive orders","src/tp/dn07.cc")],
 ["outputs; blocked parties; bytes left in channels"])
p("C05","Function-independent preprocessing yields well-formed correlated randomness",
 "After the function-independent preprocessing, whatever random values the parties draw: every individual mask sharing is a polynomial of degree at most n-k taking one and the same value at all k secret positions; every multiplication batch holds packed sharings A, B, C with C equal to A times B at every secret position; and every zero sharing handed to a multiplication, input or output batch is zero at all secret positions. Every gate and batch of the circuit gets its own entry, additions get the sum and outputs the copy of their parents' mask.",
 ["inputs","configurations","programs"],"all random draws of all parties, all (n,t,k), all numbers of gates and batches (including block sizes that do not divide them)",
 "Tests only see the final output of one run with one fixed seed; degree and consistency of the shares are never checked.",
 ["src/tp/fi_prep.cc","src/tp/correlator.h","src/tp/circuits/offline.cc"],
 [("Vandermonde extraction of t+1 sharings from n dealers","src/tp/fi_prep.cc"),("shares of the unit vectors e_i","src/tp/correlator.h"),("degree reduction through the first party","src/tp/fi_prep.cc")],
 ["tp::Circuit::GetCorrelator maps"])
p("C06","Preprocessing masks are fresh, independent and unknown to any t parties",
 "Given independently seeded parties, the masks of all input and multiplication wires, all triple factors, all product masks and all zero sharings handed out for one circuit are jointly uniform and independent, even given everything dealt by any t parties; in particular no random sharing is used twice.",
 ["inputs","configurations","programs"],"all random draws, all sets of at most t corrupted dealers, all circuits and (n,t,k)",
 "Reused or correlated masks do not change any output, so no functional test notices them.",
 ["src/tp/fi_prep.cc","src/tp/correlator.h","src/tp/dn07.cc"],
 [("one extracted sharing per gate/batch with running counters","src/tp/correlator.h"),("distribution of zero sharings to O1,O2,O3 and I/O batches","src/tp/fi_prep.cc")],
 ["tp::Circuit::GetCorrelator maps; messages sent in preprocessing"])
p("C07","The online phase is correct for any consistent masks (dummy preprocessing paths)",
 "With trusted dummy preprocessing in any of its supported forms (all-zero, one constant mask, arbitrary per-wire masks from which the packed sharings are derived, dummy function-independent data followed by the real function-dependent phase), the online phase delivers the cleartext value of the circuit to every output owner; the first party learns for every wire exactly the value minus its mask. Masks of addition and output wires are the sum and the copy of their parents' masks, for the trusted masks and for the individual shares alike.",
 ["inputs","programs","configurations"],"all mask assignments, inputs, circuits and (n,k)",
 "Tests use one constant mask for all wires, for which several wrong derivations of the packed sharings coincide with the right one.",
 ["src/tp/circuits/offline.cc","src/tp/gate.h","src/tp/input_gate.h","src/tp/output_gate.h","src/tp/mult_gate.h","src/tp/mult_gate.cc"],
 [("PrepFromDummyLambdas of input, output and multiplication batches","src/tp/mult_gate.h"),("lazy propagation of masks through add/output gates","src/tp/gate.h")],
 ["tp::Circuit::GetOutputs","tp::Gate::GetMu"])
p("C08","Circuit construction and cleartext evaluation match the arithmetic circuit",
 "For every sequence of construction calls, cleartext evaluation returns for every output exactly the value of the arithmetic circuit that was described, per client and in order; gates can be fetched by owner/layer and position in creation order; and size, width, depth, input/output counts and batch counts agree with what was built and padded. Synthetic circuits generated from a configuration have exactly the requested shape, and configurations that violate the documented constraints are rejected.",
 ["programs","inputs"],"all construction sequences, inputs and generator configurations",
 "Tests build a handful of circuits with round numbers.",
 ["src/tp/circuits.h","src/tp/circuits/building.cc","src/tp/circuits/cleartext.cc","src/tp/circuits/generic.cc","src/tp/mult_gate.h","src/tp/input_gate.h","src/tp/output_gate.h"],
 [("batching and padding of layers","src/tp/mult_gate.h"),("flat gate lists next to batched layers","src/tp/circuits/building.cc"),("synthetic generator","src/tp/circuits/generic.cc")],
 ["tp::Circuit::GetClearOutputs","tp::Circuit metrics"])
p("C09","Prime-field arithmetic agrees with integers modulo p",
 "For all elements of the 61-bit and the 127-bit Mersenne prime field, construction from an int, addition, subtraction, negation, multiplication, inversion, division and equality agree with integer arithmetic modulo p, results are canonical (equal values compare equal, print and serialise identically), operands may alias, and inverting zero is an error.",
 ["inputs"],"all pairs of elements, in particular around 0, p, powers of two and carry boundaries",
 "Tests use a few dozen values.",
 [I+"math/ff.h",I+"math/ring.h",I+"math/fields/details.h",I+"math/fields/def.h",C+"math/fields/mersenne61.cc",C+"math/fields/mersenne127.cc"],
 [("Mersenne reduction of the double-width product","/repo/"+C+"math/fields/mersenne127.cc"),("extended Euclid","/repo/"+I+"math/fields/details.h")],["scl::FF operators"])
p("C10","Arithmetic modulo 2^K is exact for every K from 1 to 128",
 "For every bit length K in 1..128 and all elements, addition, subtraction, negation, multiplication, comparison, least significant bit, inversion of odd elements and division agree with integer arithmetic modulo 2^K, and inverting an even element is an error. Reading and writing an element touches exactly its stated byte size, and reading what was written gives the same element.",
 ["inputs","configurations"],"all K and all pairs of elements",
 "Tests instantiate K=32, 62 and 123 only and compare with few constants.",
 [I+"math/z2k.h",I+"math/z2k/details.h"],
 [("lazy normalisation with a K-bit mask","/repo/"+I+"math/z2k/details.h"),("Newton iteration for inverses","/repo/"+I+"math/z2k/details.h")],["scl::Z2k operators"])
p("C11","Textual and binary forms of ring elements round-trip and denote the right value",
 "Parsing a binary, decimal, hexadecimal or base64 string gives the element congruent to the denoted integer (as long as the integer fits the element's storage), malformed strings are rejected with an exception, and printing gives the canonical decimal value. Writing any element, vector or matrix and reading it back gives an equal object, consuming exactly the announced number of bytes, whatever the buffer's alignment.",
 ["inputs"],"all strings up to a length over the relevant alphabet, all boundary values, all shapes, all alignments",
 "Tests parse a few well-formed strings.",
 [I+"math/str.h",C+"math/str.cc",I+"math/ff.h",I+"math/z2k.h",I+"math/vec.h",I+"math/mat.h",C+"math/fields/mersenne61.cc",C+"math/fields/mersenne127.cc"],
 [("string conversions","/repo/"+I+"math/str.h"),("Read/Write of elements, vectors and matrices","/repo/"+I+"math/mat.h")],["FromString, ToString, Read, Write"])
p("C12","Vector and matrix algebra follows its mathematical definition",
 "For all shapes and contents, entry-wise addition, subtraction and multiplication, scaling, sums, inner products, matrix products, transposition, reshaping, identity tests, comparison and conversion between vectors and matrices give the textbook result, in-place variants agree with the copying ones (also when an operand is the object itself), and copying variants leave their operands unchanged. Incompatible shapes and empty matrices are rejected with an exception.",
 ["inputs"],"all shapes up to a bound and all contents over a small field",
 "Tests use one or two shapes and mostly square or tiny operands.",
 [I+"math/vec.h",I+"math/mat.h"],[("row-major storage","/repo/"+I+"math/mat.h"),("compatibility checks","/repo/"+I+"math/vec.h")],["scl::Vec, scl::Mat"])
p("C13","Linear solving and row reduction are right for every system",
 "Row reduction produces the unique reduced row echelon form of any matrix of any shape. Solving a square linear system reports success exactly when the system has a unique solution and then returns that solution; consistency testing reports a solution exactly when one exists, and extracting a solution from a consistent reduced system yields a vector that satisfies it with free variables set to one.",
 ["inputs"],"all matrices up to a size over a small field",
 "Tests reduce three example matrices.",
 [I+"math/la.h"],[("Gauss-Jordan elimination with pivot search","/repo/"+I+"math/la.h"),("back substitution","/repo/"+I+"math/la.h")],["scl::details::SolveLinearSystem, RowReduceInPlace, HasSolution, ExtractSolution"])
p("C14","Polynomial arithmetic is exact",
 "For all polynomials over a field, evaluation, addition, subtraction and multiplication agree with the mathematical definition, results have no zero leading coefficients (so degree, leading term and zero test are right), and division returns a quotient and a remainder of smaller degree with dividend = divisor*quotient + remainder; dividing by zero is an error.",
 ["inputs"],"all pairs of polynomials up to a degree over small fields",
 "Tests divide two example polynomials.",
 [I+"ss/poly.h"],[("normalising constructor","/repo/"+I+"ss/poly.h"),("long division","/repo/"+I+"ss/poly.h")],["scl::details::Polynomial"])
p("C15","Packed sharings reconstruct, have the requested degree, and interpolate exactly",
 "For every list of secrets, degree, position and randomness, the shares produced by the packed-sharing routines lie on one polynomial of the requested degree that takes the secrets at positions 0,-1,-2,... (or at the requested point), reconstruction from enough shares returns exactly the secrets, and sums and products of sharings reconstruct to sums and products. A polynomial given by evaluations evaluates everywhere to the interpolating polynomial's value, and addition/subtraction of such polynomials act point-wise and the zero test recognises exactly the zero polynomial; mismatching or empty inputs are rejected.",
 ["inputs","configurations"],"all secrets, randomness, degrees, numbers of secrets and shares over small fields",
 "Tests share one or two vectors with one degree.",
 [I+"ss/packed.h",I+"ss/evpoly.h"],[("Lagrange evaluation","/repo/"+I+"ss/evpoly.h"),("placement of secrets and random points","/repo/"+I+"ss/packed.h")],["scl::details packed-sharing functions, EvPolynomial"])
p("C16","Shamir and additive sharings reconstruct; errors are detected and corrected",
 "For every secret, threshold, number of shares, evaluation points and randomness: any t+1 shares reconstruct the secret (or the value at any requested point); reconstruction with detection returns the right value on consistent shares and throws whenever the shares it was given are not all on one degree-t polynomial; reconstruction with correction returns the sharing polynomial whenever at most t of the 3t+1 shares it uses are wrong and throws when no degree-t polynomial is that close. Too few shares or points, a zero threshold and zero parties are rejected, and additive shares always sum to the secret.",
 ["inputs","fault_sequences"],"all sharing polynomials, all error positions and error values over small fields",
 "Tests flip two or three fixed shares of one sharing.",
 [I+"ss/shamir.h",I+"ss/additive.h"],[("Lagrange interpolation","/repo/"+I+"ss/shamir.h"),("Berlekamp-Welch decoding","/repo/"+I+"ss/shamir.h")],["ReconstructShamir*, CreateShamirShares, CreateAdditiveShares"])
p("C17","Any t shares are independent of the secret (perfect privacy)",
 "For every secret-sharing routine, the joint distribution of the shares of any set of parties below the privacy bound (t for Shamir with threshold t, n-1 for additive, degree+1-k for packed sharing of k secrets) does not depend on the secrets and is uniform, when the generator's output is uniform.",
 ["inputs"],"all secrets, all share subsets, all random tapes over small fields",
 "A test sees individual samples, never a distribution.",
 [I+"ss/shamir.h",I+"ss/additive.h",I+"ss/packed.h",I+"math/vec.h"],[("random coefficients / evaluations","/repo/"+I+"ss/shamir.h"),("partial randomisation","/repo/"+I+"math/vec.h")],["CreateShamirShares, CreateAdditiveShares, EvPolyFromSecrets*"])
p("C18","The PRG is AES-128 in counter mode: seed-determined and never repeating",
 "For every seed and every sequence of requests, each request returns the next blocks of AES-128 in counter mode under that seed, starting at a fresh block, independent of how the caller stores them; the generator writes exactly the requested bytes, resetting restarts the stream, copies continue independently, and blocks are never handed out twice. Equal seeds give equal streams and the reported seed and counter are accurate.",
 ["inputs","histories"],"all request-size sequences up to a bound with resets and copies, a set of seeds",
 "Tests compare two generators with each other rather than with AES and use few sizes.",
 [I+"prg.h",C+"prg.cc"],[("AES-NI key expansion and encryption","/repo/"+C+"prg.cc"),("counter increment per block","/repo/"+C+"prg.cc")],["scl::PRG::Next"])
p("C19","The hash functions compute SHA3-256/384/512 for every message and chunking",
 "For every message and every way of splitting it into updates (including empty updates and word-unaligned pieces), the digest equals the standard SHA-3 digest of the message.",
 ["inputs","histories"],"all message lengths across several blocks, all two- and three-way splits, structured contents",
 "Tests hash the empty string, 'abc', and one repeated byte, for which many wrong word assemblies coincide with the right one.",
 [I+"hash.h",C+"hash.cc"],[("word assembly and partial-word buffering","/repo/"+I+"hash.h"),("Keccak permutation","/repo/"+C+"hash.cc")],["scl::Hash256/384/512"])
p("C20","In-memory channels are reliable FIFO byte streams between the right parties",
 "For every sequence of sends and receives of bytes, plain values, vectors and matrices with arbitrary sizes on the two ends of a channel, the receiver gets exactly the sent bytes in order, regardless of how sends and receives are cut, and nothing leaks to another direction or channel. In an in-memory or mock network every pair of parties, including a party and itself, is joined by its own channel; flushing discards exactly the pending incoming data.",
 ["histories","inputs","schedules"],"all operation sequences up to a depth, all fragmentations, all network sizes up to a bound, all interleavings of sender and receiver",
 "Tests use one or two messages of matching sizes.",
 [I+"net/mem_channel.h",C+"net/mem_channel.cc",I+"net/channel.h",C+"net/network.cc",I+"net/network.h"],
 [("overflow buffer for partially consumed messages","/repo/"+C+"net/mem_channel.cc"),("pairing of channels","/repo/"+C+"net/network.cc")],["scl::InMemoryChannel, scl::Network"])
p("C21","TCP channels deliver bytes exactly despite fragmentation and report failures",
 "Whatever portions the operating system accepts or delivers in each socket call, a TCP channel sends every byte exactly once in order and a receive fills exactly the requested bytes; a failing or closed connection is reported by an exception, never by returning unfilled data as if received. Closing is idempotent and closes the socket exactly once.",
 ["fault_sequences","histories","inputs"],"all sequences of short reads/writes, end-of-stream and errors for messages up to a bound",
 "Loopback sockets deliver small messages whole, so partial transfers and failures are never exercised.",
 [C+"net/tcp_channel.cc",I+"net/tcp_channel.h",C+"net/tcp_utils.cc"],[("read/write loops with offset and remainder","/repo/"+C+"net/tcp_channel.cc")],["scl::TcpChannel"])
p("C22","The shared queue is a linearizable blocking FIFO",
 "Under every interleaving of producers and consumers, every pushed element is popped exactly once, elements of one producer come out in order, a consumer blocks only while the queue is empty, and no consumer stays blocked while elements are available to it; size and peek agree with some sequential order of the operations.",
 ["schedules"],"all interleavings of 2-4 threads with a few operations each, including every choice of the woken waiter",
 "Tests exercise the queue only through lightly loaded channels.",
 [I+"net/shared_deque.h"],[("mutex, condition variable and wait loop","/repo/"+I+"net/shared_deque.h")],["scl::details::SharedDeque"])
p("C23","The threaded sender delivers everything in order and shuts down cleanly",
 "Under every interleaving of the application and the background sender and every fragmentation by the socket, data handed to a threaded-sender channel reaches the peer completely and in order while the channel is open, sending never waits for the network, receiving works concurrently, and closing always terminates.",
 ["schedules","fault_sequences"],"all interleavings of application and sender threads, all short writes",
 "One test sends two buffers and closes afterwards; the race between closing and sending is not controlled.",
 [I+"net/threaded_sender.h",C+"net/threaded_sender.cc",I+"net/shared_deque.h",C+"net/tcp_channel.cc"],
 [("peek, send, pop loop of the sender","/repo/"+C+"net/threaded_sender.cc"),("stop signal","/repo/"+C+"net/threaded_sender.cc")],["scl::ThreadedSenderChannel"])
p("C24","Networks connect every pair of parties correctly in any start order",
 "For every network size and every order in which parties start, listen, connect and are accepted (including connection attempts before the peer listens), network creation terminates for all parties and afterwards channel j of party i is connected to channel i of party j and channel i to party i itself; listening sockets are released.",
 ["schedules","configurations"],"all interleavings of 2-4 parties starting up, within a preemption bound; both network flavours",
 "The test starts three local parties once, in whatever order the OS picks.",
 [C+"net/network.cc",C+"net/tcp_utils.cc",I+"net/network.h"],[("identifier handshake after connect","/repo/"+C+"net/network.cc"),("retrying connect","/repo/"+C+"net/tcp_utils.cc")],["scl::Network::Create, CreateThreadedSenders"])
p("C25","Discovery gives all parties the same, correct configuration or fails",
 "For every number of parties, server identity, assignment of identities to clients and arrival order, the discovery server and all clients end with the same list of parties in which every participant appears exactly once under the identity and port it announced and the host it connected from, each knowing its own identity, and the server's listening socket is released. Announcements with an out-of-range or already taken identity make the server fail instead of producing a configuration.",
 ["schedules","configurations","inputs"],"all permutations of arrival, all server ids, all announced ids (valid, duplicate, out of range), interleavings within a bound",
 "Tests use three parties and a couple of orders.",
 [C+"net/discovery/server.cc",C+"net/discovery/client.cc",I+"p/simple.h"],[("collect ids and ports, then broadcast","/repo/"+C+"net/discovery/server.cc")],["scl::DiscoveryServer, scl::DiscoveryClient"])
p("C26","Network configurations are parsed, validated and addressed consistently",
 "A configuration file with one 'id,host,port' entry per line yields exactly these parties; configurations with missing or duplicate identities, identities or an own identity out of range (also after wrapping around), or malformed lines (not two commas, an id or port that is not a number) are rejected with an exception; looking up a party by identity returns the party with that identity, and an identity that is not listed is rejected. The localhost generator and the textual form agree with the listed parties.",
 ["inputs","configurations"],"all files of up to 4 lines built from a small token alphabet, all own ids, all local sizes",
 "Tests load three fixed files.",
 [I+"net/config.h",C+"net/config.cc"],[("line splitting and validation","/repo/"+C+"net/config.cc")],["scl::NetworkConfig"])
p("C27","Malformed or oversized incoming data is rejected without memory corruption",
 "Whatever bytes a peer sends as the size header of a vector or matrix, receiving either yields an object of exactly the announced size read from the stream or throws, never accesses memory outside its buffers and never accepts an object larger than the configured limit; a connecting peer that announces an invalid or taken identity, or leaves before announcing one, is refused rather than corrupting memory; a party list received from a discovery server with an invalid, duplicate or oversized entry is rejected.",
 ["inputs","fault_sequences"],"all boundary size headers and their pairs, all announced identities from a boundary set",
 "Tests check one oversized vector and matrix.",
 [I+"net/channel.h",C+"net/network.cc",C+"net/discovery/client.cc",C+"net/discovery/server.cc"],[("size limits on received containers","/repo/"+I+"net/channel.h"),("identity validation","/repo/"+C+"net/network.cc")],["scl::Channel::Recv"])
p("C28","Misuse of gates, batches and protocol objects is reported, not silently accepted",
 "Asking for a value that is not available yet (an unset input, an unlearned masked value, a missing mask), appending to a full batch or to a batch of another owner, using an incomplete batch, providing the wrong number of inputs or clients, setting a network before the circuit is closed, creating preprocessing without a network or choosing inconsistent parameters always raises an exception and leaves the object usable; the corresponding correct uses never do.",
 ["histories","inputs"],"all operation sequences up to a depth over gates, batches, circuits",
 "Tests check a few of the exceptions in isolation.",
 ["src/tp/gate.h","src/tp/input_gate.h","src/tp/output_gate.h","src/tp/mult_gate.h","src/tp/circuits.h","src/tp/circuits/cleartext.cc","src/tp/circuits/online.cc","src/tp/correlator.h","src/tp/dn07.h"],
 [("learned/set/evaluated flags","src/tp/gate.h"),("batch size and owner checks","src/tp/input_gate.h"),("parameter checks","src/tp/correlator.h")],["exceptions thrown by tp:: classes"])
p("C29","The benchmark programs finish and compute the right result under every schedule",
 "For every admissible party count, size and depth, when all parties run the TurboPack (or DN07) benchmark program against each other, every program terminates under every interleaving of the parties and their helper threads, even though the connections buffer only a bounded amount of data, and the party that owns the outputs obtains the circuit's cleartext value. Invalid party ids are rejected.",
 ["schedules","configurations"],"all interleavings; a grid of party counts, sizes, depths and channel capacities",
 "No test runs the programs at all.",
 ["experiments/ours.cc","experiments/dn07.cc","src/tp/circuits/generic.cc"],[("parameter derivation t, k, n","experiments/ours.cc"),("overlapping send and receive threads","experiments/ours.cc")],["program exit, built-in output assertion"])
p("C30","No t parties learn anything beyond their own inputs and outputs",
 "For every circuit and every admissible setting, in TurboPack and in DN07 alike, everything that any t parties receive during preprocessing, function-dependent phase and online phase together is distributed independently of the other parties' inputs, except for what the outputs of those t parties reveal. Parties follow the protocol and draw their randomness independently.",
 ["programs","inputs","configurations"],"all circuits, all inputs, all random draws, all sets of t parties",
 "A missing mask, a reused mask or a sharing of too low degree leaves every output right, so functional tests cannot see it.",
 ["src/tp/fi_prep.cc","src/tp/mult_gate.cc","src/tp/correlator.cc","src/tp/input_gate.cc","src/tp/output_gate.cc","src/tp/dn07.cc"],
 [("masked values and their opening to the first party","src/tp/mult_gate.cc"),("zero sharings and masks added before sending","src/tp/correlator.cc"),("double sharings","src/tp/dn07.cc")],
 ["messages between the parties"])
p("C31","A failure while a network is being set up reaches the caller and leaves no socket open",
 "When a socket operation fails while a party creates its network (with plain or threaded channels), serves a discovery or takes part in one -- acquiring, configuring, binding or listening on a socket, accepting a connection, announcing or receiving an identity or a configuration -- or the host name of a party to connect to is unusable, the call either recovers and delivers a complete network or configuration, or ends with an exception which the caller can catch, in whichever thread the failure occurs and also when other parties never connect; the process is not terminated, no thread is left behind and every socket the call opened is closed. Refused connection attempts are repeated until the peer listens. (The parties with smaller identities listen, and parties that connect announce themselves.)",
 ["fault_sequences","schedules","configurations"],"every socket call of the set-up failing in turn with every listed error, unusable host names, pairs of both, under all interleavings of 1-4 parties",
 "Tests only set up networks and discoveries in which no operating system call fails.",
 [C+"net/network.cc",C+"net/tcp_utils.cc",C+"net/discovery/server.cc",C+"net/discovery/client.cc"],
 [("errors of the accepting thread handed to the caller","/repo/"+C+"net/network.cc"),("sockets closed before an error is reported","/repo/"+C+"net/tcp_utils.cc")],["scl::Network::Create, CreateThreadedSenders, scl::DiscoveryServer::Run, scl::DiscoveryClient::Run"])
for q in P:
    for m in q["anchors"]["mechanism"]: m["where"]=m["where"].replace("/repo/","")
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for q in P: f.write(json.dumps(q)+"\n")
print(len(P))
