#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json
import os

P = []


def prop(pid, title, statement, over, text, why, files, mech, observe=()):
    assert len(title) <= 80, title
    P.append({
        'id': pid, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {'files': ['src/frn/' + f for f in files],
                    'mechanism': [{'name': n, 'where': 'src/frn/' + w} for n, w in mech],
                    'observe_at': list(observe)}})


prop('C01', 'Field arithmetic is exact and canonical',
     'For both supported primes, addition, subtraction, multiplication and negation of field elements give the residue of the integer result modulo the prime, always stored as the unique representative below the prime, for every pair of operands. '
     'Building an element from any machine word reduces it modulo the prime, and equality of elements is equality of residues. '
     'The inverse of a non-zero element multiplied by that element is one, and inverting zero is refused with an exception.',
     ['inputs'], 'every pair of representatives below the prime, and every machine word given to a constructor',
     'The operand space has 2^122 (or 2^254) pairs; boundary sums such as x+y=p or a product whose halves add up to p occur with probability 2^-61 in random testing, and the repository has no arithmetic test at all.',
     ['lib/math/fp.h', 'lib/math/p.h', 'lib/math/ring.h', 'lib/math/arithmetic.h', 'lib/math/arithmetic.cc'],
     [('conditional subtraction, Mersenne folding', 'lib/math/arithmetic.cc'), ('modular helpers', 'lib/math/arithmetic.h'), ('operators derived from the in-place ones', 'lib/math/ring.h')],
     ['value printed, compared or serialized after an operation'])

prop('C02', 'Serialization is fixed-width, symmetric and canonical',
     'Serializing a field element, a vector, a replicated share or a list of shares writes exactly count times the element size bytes, the i-th item at offset i times the item size and nothing outside, and reading those bytes back with the same count gives the same items in the same order. '
     'Reading reduces every element modulo the prime, whatever bytes it is given.',
     ['inputs'], 'every value, every vector and share length and every list length; arbitrary bytes on the reading side',
     'Tests round-trip a few small shares; wrong strides, truncated tails and non-canonical incoming bytes need particular lengths and values.',
     ['lib/math/fp.h', 'lib/math/vec.h', 'lib/secret_sharing/rep.h'],
     [('element to and from bytes', 'lib/math/fp.h'), ('vector to and from bytes', 'lib/math/vec.h'), ('share strides', 'lib/secret_sharing/rep.h')],
     ['bytes written', 'elements read back'])

prop('C03', 'Every sharing reconstructs to its secret and is distributed consistently',
     'Splitting a secret into pieces always gives pieces that add up to the secret, and the share of each party consists of exactly the pieces whose party set contains that party, in ascending piece order, so all holders of a piece hold the same value. '
     'Reconstruction from all shares returns the sum of one copy of every piece, which for consistent shares is the secret; sharing a list of secrets gives each party one share per secret, in the order of the list.',
     ['inputs', 'configurations'], 'every secret, every list of secrets, every number of parties n and threshold t with 0 < t < n, every state of the random generator',
     'Tests use a handful of (n, t) pairs and secrets; an indexing slip that only shows for particular parties, thresholds or a list longer than one is not sampled.',
     ['lib/secret_sharing/rep.h', 'lib/secret_sharing/additive.h', 'lib/math/vec.h'],
     [('pieces and the completing piece', 'lib/secret_sharing/additive.h'), ('distribution by index set', 'lib/secret_sharing/rep.h'), ('reconstruction', 'lib/secret_sharing/rep.h')],
     ['returned shares', 'reconstructed secret'])

prop('C04', 'All pieces of a sharing but one are fresh random field elements',
     'When a secret is split into m pieces, m-1 of them are read from disjoint, consecutive positions of the random generator output and do not depend on the secret; the last one is the secret minus the others. '
     'The random generator is advanced past everything that was consumed, so a later sharing never reuses those positions, and splitting into zero pieces is refused.',
     ['inputs', 'histories'], 'every secret, every m, every history of earlier draws from the same generator',
     'A piece drawn from overlapping positions, a reused generator state or a constant piece still reconstructs correctly, so functional tests pass while privacy is lost.',
     ['lib/secret_sharing/additive.h', 'lib/secret_sharing/rep.h', 'lib/primitives/prg.h'],
     [('one buffer filled by one draw, one element per stride', 'lib/secret_sharing/additive.h'), ('generator passed by reference', 'lib/secret_sharing/rep.h')],
     ['pieces of a sharing', 'generator state afterwards'])

prop('C05', 'Reconstruction with detection rejects any disagreement between copies',
     'Reconstruction with error detection compares every copy of every piece held by any party with the other copies of that piece, throws if any two differ, and otherwise returns the sum of the pieces.',
     ['inputs', 'fault_sequences'], 'every set of shares, every position and value of one or more altered elements, every n and t',
     'A test alters one element; skipping the last copy, one party, one piece or the final piece is invisible unless exactly that copy is altered.',
     ['lib/secret_sharing/rep.h'],
     [('gathering of copies', 'lib/secret_sharing/rep.h'), ('comparison of copies', 'lib/secret_sharing/rep.h')],
     ['exception or returned secret'])

prop('C06', 'The tables that assign pieces to parties agree with each other',
     'Piece numbers follow the enumeration of the party subsets of size n-t from the first one on: the subset stored for a piece, the reverse lookup of that subset and the index sets of the parties all describe the same assignment, each index set ascending and without duplicates. '
     'The number of elements by which two shares differ is computed from the index sets, and a threshold of zero or not below n is refused.',
     ['configurations'], 'every n and t accepted by the constructor',
     'The tests construct a few sizes and compare a few table entries; disagreement between the tables needs the sizes and entries that a test does not pick.',
     ['lib/secret_sharing/rep.h'],
     [('one enumeration loop filling all three tables', 'lib/secret_sharing/rep.h'), ('argument validation in the constructor', 'lib/secret_sharing/rep.h')],
     ['subset of a piece', 'piece of a subset', 'index set of a party'])

prop('C07', 'Local linear operations on shares act on the secret',
     'Adding and subtracting shares and multiplying a share by a constant act piece by piece, so the secrets are added, subtracted and scaled. '
     'Adding or subtracting a public constant changes exactly one piece, the same one at every party holding it and none at the others, with the sign that gives a+c, a-c and c-a; the operands are not modified.',
     ['inputs', 'configurations'], 'all shares and constants, every party of every n and threshold',
     'Tests check a few parties and values; an error at a party which does not hold the adjusted piece, or in the sign of one variant, needs that party and variant.',
     ['shr.h', 'shr.cc'],
     [('element-wise loops', 'shr.cc'), ('position of the adjusted piece', 'shr.cc')],
     ['returned share'])

prop('C08', 'Local multiplication accounts for every cross product exactly once',
     'For every ordered pair of pieces a party holds, the multiplication table has an entry naming the piece of the double-threshold sharing to which the product belongs - the first n-2t parties common to both piece subsets - and the first of these parties, exactly when the party holds that piece. '
     'The double-degree product of a party adds each tabulated product into the position of its piece, and the additive product adds exactly those whose first party is this party, so that summed over the parties each cross product occurs exactly once.',
     ['inputs', 'configurations'], 'all operands, every party of every n and threshold',
     'The product of two random sharings can be right for the tested n, t and parties while pairs are assigned wrongly for others; and tests only see the final sum.',
     ['shr.h', 'shr.cc', 'lib/secret_sharing/rep.h'],
     [('multiplication table', 'shr.cc'), ('double degree and additive products', 'shr.cc')],
     ['product shares', 'table entries'])

prop('C09', 'The reconstruction table sends every piece to exactly those who lack it',
     'For every piece of the double-threshold sharing held by a party, the reconstruction table lists exactly the parties outside the subset of that piece, in ascending order, and marks the piece to be sent as a value by the first party of the subset and as a digest by every other holder.',
     ['configurations'], 'every party of every n and threshold',
     'The current tests only count entries for two sizes; a recipient list polluted by another entry or a missing recipient passes them.',
     ['shr.h', 'shr.cc'],
     [('table built per held piece', 'shr.cc')],
     ['table entries'])

prop('C10', 'Correlated randomness is the same secret at every party',
     'Each random sharing is drawn by the holders of a key piece from identically seeded generators in the same order, so all holders get equal pieces; the replicated value is the sum over the contributing parties of their pieces, and the additive share of a contributing party is the sum of the pieces it dealt. '
     'Every call consumes each generator exactly once per drawn element, parties outside the contributing set get an additive share of zero, and the dummy variants contain only zeros.',
     ['inputs', 'histories', 'configurations'], 'every number of earlier calls, every seed, every party of every n and t',
     'Tests check the first one or two sharings of one configuration; generators that go out of step, are copied instead of advanced or are read in a different order show later or elsewhere.',
     ['corr.h', 'corr.cc'],
     [('per-dealer, per-piece generators', 'corr.cc')],
     ['random share of a party'])

prop('C11', 'Multiplication gives a sharing of the product, for any number of products',
     'After preparing any number of pairs, one run makes the first 2t+1 parties send their masked additive products to the first party, which adds the shares of all contributors product by product and sends the sums to the first n-t parties; each party outputs, in preparation order, its random sharing shifted by the opened value of that product. '
     'Exactly one random sharing is consumed per product, and the material recorded for the later check (sent shares, received shares per party, opened values, product sharings and count) is the data actually exchanged.',
     ['inputs', 'histories', 'configurations'], 'any number of prepared pairs, any shares, every party of every n and t',
     'Tests run one or a few multiplications per batch; errors in indexing by product or by party, or in what is recorded for the check, need several products or a party the test does not look at.',
     ['mult.h', 'mult.cc'],
     [('preparation', 'mult.h'), ('three steps of a run', 'mult.cc')],
     ['messages sent', 'output shares', 'recorded check data'])

prop('C12', 'Every party input is shared correctly, for any number of inputs and inputters',
     'The setup deals each party a key and expands its pieces so that the mask known to an inputter is the secret of the mask shares the others hold, for the same position in both sequences, however many masks have been used. '
     'A run sends each prepared secret minus its mask to every party in preparation order, receives from every party as many values as were announced for it, and outputs for each inputter and position the mask share shifted by the received value.',
     ['inputs', 'histories', 'configurations'], 'every n and t, any number of inputs per party, any interleaving of own and announced inputs',
     'Tests use one configuration and few inputs; a mask reused for the second input or a key piece count that is only right for one n stays invisible.',
     ['input.h', 'input.cc', 'input_corr.h', 'input_corr.cc'],
     [('setup', 'input_corr.cc'), ('masks and mask shares', 'input_corr.h'), ('run', 'input.cc')],
     ['messages sent', 'output shares'])

prop('C13', 'The check combines all recorded multiplications with the right coefficients',
     'The check draws one coefficient per recorded multiplication and combines, with the same coefficient for the same multiplication, the shares sent, the values opened and the shares received from each of the 2t+1 contributors, as well as every contributor message share. '
     'It then sends to each party, piece by piece in table order, the combined messages of the pieces that party lacks when this party is the first holder, and one digest per such piece otherwise, each list preceded by its length.',
     ['inputs', 'histories', 'configurations'], 'any number of recorded multiplications, every party of every n and t',
     'Tests look at a few parties and one multiplication count; a contributor, multiplication or recipient left out changes nothing in honest runs.',
     ['check.h'],
     [('coefficients, compression, preparation, exchange', 'check.h')],
     ['messages sent', 'values consumed'])

prop('C14', 'Every message sent by a protocol is received by its peer with the same shape',
     'In every protocol, for every pair of parties the messages one sends to the other equal, in number, order, kind and length, the messages the other expects from it when both follow the protocol with matching inputs. '
     'No party waits for a message before it has sent everything its peers need to send theirs, so an honest run terminates.',
     ['configurations', 'inputs', 'schedules'], 'every pair of parties of every n and t, any number of multiplications, inputs and checked values',
     'Tests run all parties in one process for a few sizes; a mismatch for one pair of parties or for an empty batch blocks forever and does not occur there.',
     ['mult.cc', 'input.cc', 'input_corr.cc', 'check.h'],
     [('send and receive loops', 'mult.cc'), ('send and receive loops', 'input.cc'), ('send and receive loops', 'check.h')],
     ['messages on each channel'])

prop('C15', 'Nothing derived from a secret leaves a party unmasked',
     'In one run of a protocol, every field element a party sends that depends on a private input, a share of a product or a share held by that party alone is masked by random material that is used for no other message, and a share is only ever sent to the party it was created for.',
     ['inputs', 'histories', 'configurations'], 'every message of the input setup, the input and the multiplication protocols, for any number of inputs and products',
     'Leaking a value does not change any output, so no functional test notices a missing mask, a mask used twice or a share sent to the wrong party.',
     ['input_corr.cc', 'input.h', 'input.cc', 'mult.h', 'mult.cc'],
     [('masking before queueing a value', 'input.h'), ('masking by the random additive share', 'mult.h'), ('share i goes to party i', 'input_corr.cc')],
     ['messages sent'])

prop('C16', 'The random generator is a deterministic stream of distinct blocks',
     'The output of a generator is determined by its seed and the number of blocks produced so far: a request for b bytes returns the first b bytes of the next ceil(b/16) consecutive counter blocks and advances the counter by exactly that many, so consecutive requests never overlap. '
     'A request writes exactly b bytes, needs room for them or is refused, a reset returns to the first block, and the default seed is all zeros.',
     ['inputs', 'histories'], 'every seed, every sequence of request sizes including 0 and sizes that are not a multiple of the block',
     'Tests compare one or two outputs; block reuse across requests, writing past the destination or a counter advanced once too little needs particular sizes and histories.',
     ['lib/primitives/prg.h', 'lib/primitives/prg.cc'],
     [('counter mode loop', 'lib/primitives/prg.cc'), ('AES-128 key schedule and rounds', 'lib/primitives/prg.cc')],
     ['bytes written', 'counter'])

prop('C17', 'Hashing absorbs every byte exactly once however the data is split',
     'The digest depends only on the concatenation of all bytes given to the hash: every byte is absorbed once, at its position, whatever the sizes of the pieces it arrives in. '
     'The digest is SHA-3 of that concatenation: rate, round constants, rotations, lane permutation, padding and output truncation are those of the standard for 256, 384 and 512 bits.',
     ['inputs', 'histories'], 'every byte string and every way of splitting it into updates',
     'Splits that leave a word partly filled across updates, or a partial word at a block boundary, are combinations a few known-answer tests do not contain.',
     ['lib/primitives/hash.h'],
     [('update with a pending partial word', 'lib/primitives/hash.h'), ('permutation', 'lib/primitives/hash.h'), ('padding', 'lib/primitives/hash.h')],
     ['digest'])

prop('C18', 'A connection delivers the whole message in order, or fails',
     'Sending or receiving on a connection or channel transfers exactly the requested bytes, once each and in order, however the operating system splits the transfer, and returns only when all of them are done. '
     'If the transfer cannot be completed - an error or the end of the stream - it ends with an exception and never reports success; bytes left over from a larger local message are kept for the next request.',
     ['inputs', 'fault_sequences', 'schedules'], 'every message size, every sequence of short reads and writes, errors and ends of stream',
     'Short reads and writes depend on buffering and timing; a local test socket nearly always transfers a message in one piece.',
     ['lib/net/connector.cc', 'lib/net/connector.h', 'lib/net/channel.h'],
     [('transfer loops', 'lib/net/connector.cc'), ('transfer loops', 'lib/net/channel.h'), ('local buffer', 'lib/net/connector.h')],
     ['buffer contents', 'exception'])

prop('C19', 'No failed system call is taken for success',
     'Every system call that a connection makes goes through the one replaceable interface, whose entries pass their arguments on unchanged and return what the call returned; the result of each such call is examined before the connection relies on it, and a failure puts the connection into the error state and raises an exception carrying the error code of that call, except that connecting is retried. '
     'No function outside the interface reaches a socket primitive.',
     ['fault_sequences'], 'each system call failing at each point at which it is made',
     'Each failure has to be injected separately and in each place; tests inject none of them.',
     ['lib/net/connector.cc', 'lib/net/connector.h', 'lib/net/sysi.cc', 'lib/net/sysi.h'],
     [('negative results raise', 'lib/net/connector.cc'), ('pass-through interface', 'lib/net/sysi.cc')],
     ['exceptions', 'connection state', 'calls made'])

prop('C20', 'Asynchronous sending loses, reorders and duplicates nothing',
     'Every message given to an asynchronous channel is handed to the connection exactly once, complete, in the order of the send calls, whatever its content or length. '
     'Closing waits until everything queued before has been handed over, then closes the connection and reports a failure of the sending thread to the caller; data shared by the threads is only accessed under its lock or atomically.',
     ['schedules', 'inputs', 'fault_sequences'], 'every interleaving of the sending thread with the caller, every message including empty ones, failures of the connection at any message',
     'Which messages are still queued when close is called depends on timing; the loss or race shows on rare schedules only.',
     ['lib/net/channel.h', 'lib/net/channel.cc', 'lib/net/connector.h', 'lib/net/shared_deque.h'],
     [('queue with a sentinel entry', 'lib/net/channel.cc'), ('wait before close, rethrow after', 'lib/net/channel.cc')],
     ['calls made on the connection', 'exceptions from close'])

prop('C21', 'The shared queue is a first-in first-out queue safe for threads',
     'Every access to the queue happens while its lock is held; reading or removing waits, re-testing after each wake-up, until there is an element, and every insertion wakes a waiter after the element is in place. '
     'Elements are inserted at the back and read and removed at the front, so they come out once each in insertion order.',
     ['schedules'], 'every interleaving of producers and consumers, including spurious wake-ups',
     'A missing lock, a wait without a re-test or a missed notification needs a particular interleaving.',
     ['lib/net/shared_deque.h'],
     [('lock, condition loop, notify', 'lib/net/shared_deque.h')],
     ['elements returned'])

prop('C22', 'A network is built only from a complete and consistent description',
     'Building succeeds only if the identifier, the size and a supported transport have been given, the identifier is non-negative and below the size, a given base port lies in 1025..65535, and the peer addresses are all local or exactly one per party; anything else is refused with a logic error, whatever the order in which the options were set. '
     'The built network has the given identifier and size, one channel per party in party order, and uses the given addresses, logger and base port, or the documented defaults.',
     ['inputs', 'histories'], 'every sequence of builder calls with every argument',
     'The validity of a combination depends on the order of the calls; tests exercise a few orders.',
     ['lib/net/builder.h', 'lib/net/builder.cc'],
     [('checks in the setters and in the build', 'lib/net/builder.cc')],
     ['exception or network'])

prop('C23', 'Both ends of every connection agree on roles and port, and ports are unique',
     'For every pair of parties exactly one side listens and the other connects, both use the same port, the connecting side uses the address listed for the listening party, and each party talks to itself through a local connection. '
     'No two pairs of parties share a port, and no port outside 1025..65535 is ever used.',
     ['configurations'], 'every pair of parties of every network size and every base port',
     'Tests connect a few parties on one base port; a clash or disagreement needs particular identifiers and sizes.',
     ['lib/net/builder.cc', 'lib/net/connector.h', 'lib/net/connector.cc'],
     [('role by comparison of identifiers', 'lib/net/builder.cc'), ('port number formula', 'lib/net/builder.cc'), ('port range test', 'lib/net/connector.h')],
     ['connections created'])

prop('C24', 'The network carries what it was given and counts it',
     'Every send on the party network puts exactly the serialized items, in order, on the channel of the addressed party, and every receive takes exactly the announced number of items from the channel of the named party; a broadcast reaches every party once. '
     'The communication summary shows, per party, exactly the bytes sent to and received from it, and opening and closing the network opens and closes every channel once.',
     ['inputs', 'histories'], 'every sequence of sends and receives of every kind and length, every party',
     'Counters are only printed, and tests send a few short messages between a few parties.',
     ['tcp_network.h', 'lib/net/network.h'],
     [('serialization and accounting', 'tcp_network.h'), ('dispatch to channels', 'lib/net/network.h')],
     ['bytes on each channel', 'summary'])

prop('C25', 'Connections release their sockets and report their state truthfully',
     'Every socket a connection acquires is either the one it keeps for the established connection or closed before the attempt ends, on success and on every failure, and none is used before it is acquired or after it is closed. '
     'A connection reports idle before, active after a completed connect, closed after a completed close and error after a failure; closing closes exactly the kept socket.',
     ['fault_sequences', 'histories'], 'every point of failure while connecting, sending, receiving and closing',
     'Leaks appear only on failure paths, each of which has to be provoked separately, and are not visible in results.',
     ['lib/net/connector.h', 'lib/net/connector.cc'],
     [('closing on each failure path', 'lib/net/connector.cc'), ('state changes', 'lib/net/connector.h')],
     ['descriptors open', 'reported state'])

prop('C26', 'Vector operations work element by element on equal lengths',
     'Vector addition, subtraction, multiplication, scaling, inner product and sum give the element-wise result, or the sum over all positions, for vectors of any length including zero; the in-place forms change only the left operand and the others change none. '
     'Operands of different length are refused with an exception before anything is changed.',
     ['inputs'], 'all vectors of all lengths',
     'Tests do not cover these functions for more than a few lengths, if at all; the first or last element left out needs the right length and value.',
     ['lib/math/vec.h'],
     [('iterator loops guarded by a length test', 'lib/math/vec.h')],
     ['results', 'operands afterwards'])

prop('C27', 'Matrix operations address the right entry and stay in bounds',
     'Every matrix operation - access, extraction of a submatrix, entry-wise sums, differences and products, scaling, matrix product, Vandermonde construction and printing - gives the entry that the definition in terms of rows and columns prescribes, for every shape including non-square ones. '
     'Incompatible shapes are refused with an exception, and no entry outside the matrix is read or written.',
     ['inputs', 'configurations'], 'all shapes and entries',
     'No test of the repository uses the matrix class; row and column mixed up is invisible on square matrices.',
     ['lib/math/mat.h'],
     [('row-major index', 'lib/math/mat.h'), ('shape tests', 'lib/math/mat.h')],
     ['entries of results'])

prop('C28', 'The experiment programs refuse parameters outside the supported range',
     'The experiment programs run exactly when given a number of parties from 4 to 16, an identifier below that number and a workload below the maximum (100000 products, 1000000 inputs), and refuse everything else before connecting. All parties of a run use the threshold (n-1)/3, the same base port and their own shares of the same secrets; exactly the requested number of inputs (given by party 0) or products is processed, in one run between connecting and closing the network, which is closed once at the end; the check is given the data recorded by the products.',
     ['inputs'], 'every command line',
     'The programs are not run by the tests.',
     ['exp_input.cc', 'exp_mult.cc', 'exp_check.cc'],
     [('validation of arguments', 'exp_mult.cc'), ('validation of arguments', 'exp_input.cc'), ('validation of arguments', 'exp_check.cc')],
     ['process exit'])

prop('C29', 'The enumeration of party subsets is complete and lexicographic',
     'Enumerating the subsets of size k of m parties visits every subset exactly once, in lexicographic order, each as an ascending list, and the number of subsets computed in advance equals the number visited.',
     ['configurations'], 'every m and k with 0 < k <= m for which the products in the formula for the count fit a machine word',
     'Tests enumerate a few small cases.',
     ['lib/secret_sharing/rep.h'],
     [('successor of a combination', 'lib/secret_sharing/rep.h'), ('binomial coefficient', 'lib/secret_sharing/rep.h')],
     ['tables of a sharing scheme'])

prop('C30', 'A protocol run ends when a peer fails',
     'If a peer closes its connections or crashes during a protocol, every other party ends its run with an exception after a bounded time instead of waiting for ever.',
     ['fault_sequences', 'schedules'], 'every point of failure of every peer',
     'Tests have no failing peers.',
     ['lib/net/channel.cc', 'lib/net/connector.cc', 'mult.cc', 'check.h'],
     [('end of stream and write errors raise', 'lib/net/connector.cc')],
     ['termination of the run'])

prop('C31', 'Cheating is detected except with negligible probability',
     'If a minority of the parties deviates from the multiplication protocol, the check makes the honest parties abort except with probability about one over the field size.',
     ['fault_sequences', 'inputs'], 'every strategy of up to t corrupted parties',
     'A probabilistic statement over all adversaries.',
     ['check.h', 'mult.h'],
     [('random linear combination', 'check.h')],
     ['abort or output'])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P))
