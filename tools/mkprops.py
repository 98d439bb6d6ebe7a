import json
def P(id,title,st,over,text,why,files,mech,state=(),obs=(),hook=None):
    return dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=hook))
CO='cmd/coordinator/Coordinator.go';CH='cmd/coordinator/CoordinatorHandler.go';CL='cmd/coordinator/CoordinatorLauncher.go'
SH='cmd/server/AnonServerHandler.go';SL='cmd/server/ServerLauncher.go'
KH='cmd/client/ClientHandler.go';KL='cmd/client/ClientLauncher.go'
BR='cmd/bridge/bridge.go';UT='util/Util.go';FO='primitive/fujiokam/FujiOkamCommitment.go';EQ='primitive/pedersen_fujiokam/equality.go'
PE='primitive/pedersen/PedersenCommitment.go';LR='primitive/lrs/LinkableRingSignature.go'
wire='messages on the wire between the processes'
L=[
P('C01','Reputation follows the accepted votes, round after round',
 "A client starts with the starting credit of 5, and in every later round the commitment published beside its pseudonym opens, with the randomness the client was sent, to exactly that credit plus all the +1/-1 votes accepted on its bridges in all earlier rounds. The client's own idea of its reputation is that same number: it can request that many bridges and no more. Votes on one provider's bridges change no one else's reputation.",
 ['histories','schedules','inputs'],'every number of servers, clients, rounds and votes, every order of votes and registrations, also negative and zero totals',
 'No test runs the system at all; the primitives are tested on one commitment each, never through votes, two shuffles, rebinding and re-randomisation over rounds.',
 [CH,CL,SH,KH,PE],[('vote sum per provider','handleVote, closeRound'),('rDiff broadcast and client update','closeRound, handleBroadcastPedersenRDiff, handleRoundEnd'),('re-randomisation of commitments with GT/HT','server handleAnnouncement/handleRoundEnd')],
 [('ReputationDiffMap','votes of this round per provider nym',CO),('BeginningCommMap/EndingCommMap','commitments between / during rounds',CO),('R, Reputation','client opening','cmd/client/DissentClient.go')],[wire]),
P('C02','Every round publishes one complete table that all parties share',
 "In every round the published table has exactly one entry for each fake client and for each client registered before that round opened, no more and no fewer; a registered client's entry is its private key's pseudonym under the published generator, next to that client's own commitment. The coordinator, every server and every client get the same table, generator and commitment bases in a round. When the round has ended, the long-term public keys that enter the next round are exactly the same ones plus the newly registered.",
 ['histories','schedules','configurations'],'every number of servers (one or more), clients, rounds; registrations spread over rounds',
 'No test runs two rounds, or even one announcement; losing, duplicating or swapping entries in the two-way encrypt/shuffle/decrypt chain needs multi-process histories.',
 [CH,CL,SH,KH],[('key map and rebinding','server handleAnnouncement, handleRoundEnd, rebindReputation, convertToOrigin'),('table distribution','coordinator handleAnnouncement, server/client handleAnnouncementFinalize')],
 [('KeyMap','encrypted key to previous key of this round',SH),('EndingKeyMap','table of the round',CO)],[wire]),
P('C03','Pseudonyms, commitments and order are fresh in every round',
 "In every round, at every server, the generator, each pseudonym, each published commitment and both commitment bases are changed by fresh randomness, so that none of them ever equals an earlier one, and the order of the table is permuted anew at random. Nothing that is published or sent between the parties lets anyone tell which pseudonyms of two rounds, or which registration and which pseudonym, belong to the same client.",
 ['histories','configurations','inputs'],'every pair of rounds, every client, every server in the chain, both directions of the chain',
 'Unlinkability is a statement about pairs of rounds and about all the published values; no test produces two rounds.',
 [SH,CL,CH,'util/shuffle/pair.go'],[('fresh round key and E per round','server handleAnnouncement/handleRoundEnd'),('Neff shuffle','util/shuffle'),('re-randomised commitments','server')],
 [('Roundkey','this round\'s exponent',SH)],[wire]),
P('C04','A bridge goes to at most one requester per round, and the quota is exact',
 "Within a round, every posted bridge is assigned to at most one requester, however often and by whomever it is posted again and whatever is requested, repeated or replayed. A valid request for n bridges is given exactly min(n, number of bridges still unassigned) of them; each one was posted in this round, under the provider pseudonym it is assigned with. Every assignment, with its certificate, is delivered to the requester exactly once and to nobody else, and bridges do not carry over to later rounds.",
 ['histories','schedules','inputs'],'every interleaving of posts, repeated posts, requests, repeated requests and server signatures by any number of clients over any number of rounds',
 'No test posts or requests a bridge; exclusivity is a property of histories.',
 [CO,CH,CL],[('Used flag and first-post rule','GetBridge, handlePostBridge'),('SeenRequests','handleRequestBridges'),('ClearBridges','closeRound')],
 [('Bridges','posted bridges of this round with provider and used flag',CO)],[wire]),
P('C05','Bridges are assigned and certified only on an authorised request',
 "The coordinator assigns bridges, and a server signs assignments, only for a request that is signed by the holder of a pseudonym of the current table and proves that the requested number is at most the reputation committed beside that pseudonym. A request with a larger number, another client's proof, pseudonym, commitment or signature, any altered, mixed, missing or out-of-range field, or a proof from an earlier round is refused, as are posts that are not signed by a current pseudonym. A server checks for itself that the pseudonym is in the table, that the proof covers the number under the commitment beside that pseudonym, and that the assignments are for that pseudonym and no more than that number; it does not rely on the coordinator for this.",
 ['inputs','histories'],'every reputation and requested number, every alteration or recombination of the fields of honest requests, every round',
 'The tests verify one honest proof of each kind; soundness is about all the dishonest requests.',
 [BR,CH,SH,UT,FO,EQ],[('VerifyInd','cmd/bridge/bridge.go'),('IsCurrentNym, ElGamalVerify','handleRequestBridges, handlePostBridge'),('coversAssignments','server handleSignAssignments')],(),[wire,'return value of bridge.VerifyInd']),
P('C06','Honest posts, requests and votes always succeed',
 "For every reputation that honest voting can produce and every number up to it, the request that the client program makes is accepted by the coordinator and by all servers, and, when enough bridges are posted, brings that many bridges with certificates that verify. Every honestly made post is offered to requesters and every honest vote on a received bridge is counted. This holds in every round, for any number of clients and servers, and whatever other clients do.",
 ['inputs','histories','schedules'],'every reputation/number pair, every round, every order in which honest clients act',
 'Tests prove and verify a handful of constants; completeness must hold for every value, base and round.',
 [KL,KH,BR,FO,EQ,CH,SH],[('requestBridges / VerifyInd agreement','client, bridge'),('GOT_SIGNS collection','handleGotSignatures')],(),[wire]),
P('C07','Each certified assignment gets at most one vote, of +1 or -1, by its requester',
 "A vote changes a reputation only if it is signed by the very pseudonym to which the bridge was assigned in this round, carries the valid signatures of the coordinator and of every server on that assignment, and its value is +1 or -1; it then changes the provider's reputation by exactly that value. Repeated, conflicting, forged, altered, transplanted or replayed votes, and votes with any other value, change nothing.",
 ['inputs','histories','schedules'],'every sequence of honest and dishonest votes over several rounds, clients and assignments',
 'No test casts a vote.',
 [CH,BR,CO],[('checks in handleVote','cmd/coordinator/CoordinatorHandler.go'),('VotedAssignments','cmd/coordinator/Coordinator.go')],
 [('ReputationDiffMap','effect of the votes',CO)],[wire]),
P('C08','Certificates are complete, valid and unforgeable',
 "A requester gets an assignment only once the coordinator and every server have signed exactly that assignment: requester pseudonym, bridge address and provider pseudonym. A signature that is invalid, for another assignment, from another party, or sent twice neither counts nor makes the certificate complete, and does not keep a valid one from completing it later. A client accepts an assignment only with the coordinator's signature, and a server never signs an assignment of a request it has refused, for another requester, or beyond the requested number.",
 ['inputs','histories','schedules'],'every order of the servers\' replies, every number of servers, every forged or misplaced signature message',
 'No test exchanges signatures.',
 [CH,CO,SH,KH,BR],[('IsWaitingForSignature, AddAssignmentSignature','cmd/coordinator/Coordinator.go'),('handleGotSignatures','coordinator, client'),('coversAssignments','server')],
 [('AssignmentSignaturesLog','signatures collected per bridge',CO)],[wire]),
P('C09','Signatures and encryption bind message, key and generator',
 "A signature verifies exactly for the message, public key and generator it was made with: every honestly made one verifies, and none verifies after any change to the message, the key, the generator or the signature itself, nor can one be made without the private key. Encryption followed by decryption with the matching key gives back the plaintext, and with another key does not.",
 ['inputs'],'all messages of any length (empty included), keys, generators, and all altered or crafted signature strings',
 'The tests check one signature and one encryption with fixed inputs.',
 [UT],[('ElGamalSign/ElGamalVerify/hashElGamal','util/Util.go'),('ElGamalEncrypt/ElGamalDecrypt','util/Util.go')],(),['return values']),
P('C10','No randomness is ever reused and no secret can be computed from messages',
 "Every signature, proof, commitment, re-randomisation and key is made with fresh unpredictable randomness: no two of them, by any party, process or round, share a nonce or blinding value. In particular no two messages that a party ever sends let anyone solve for its private key, a commitment's opening or the coordinator's trapdoors.",
 ['histories','schedules','configurations'],'all messages of all parties over any number of rounds and restarts',
 'A test sees one output; reuse is a relation between several outputs, processes and restarts.',
 [UT,CO,KL,SH,FO,EQ,LR],[('random.Stream as nonce source','all signing and proving calls')],(),[wire,'outputs of the signing and proving functions']),
P('C11','The non-negativity argument is complete and sound',
 "For every non-negative value and every parameter base, the argument made for a commitment to it verifies. No argument verifies for a commitment to a negative number, for another commitment than the one it was made for, or after any of its parts has been changed (to a value that is not the same one modulo the group order); the prover refuses a negative value.",
 ['inputs'],'all values, bases and blinding, all alterations of a proof, all known ways to choose the free values after the challenge',
 'Tests prove a few constants with one base and try no dishonest prover.',
 [FO],[('three-square decomposition','decomposeThreeSquareHelper'),('Fiat-Shamir challenge over all commitments','ProveNonnegHelper, VerifyNonnegHelper')],(),['VerifyNonneg result']),
P('C12','The equality argument ties both commitments to one integer',
 "For every value in use, the argument for a Pedersen and a Fujisaki-Okamoto commitment to it verifies. No argument verifies when the two committed integers differ (also when they are equal modulo the group order only), for other commitments than those it was made for, when a commitment is not a group element, or after any of its parts has been changed (to a value that is not the same one modulo the group order).",
 ['inputs'],'all values, bases and blinding, all alterations, provers that choose any value after the challenge, and commitments outside the group',
 'One test proves one constant.',
 [EQ],[('challenge over statement and T1, T2','challenge'),('bound on S1 and unit check','VerifyEqual')],(),['VerifyEqual result']),
P('C13','Ring signatures are complete, unforgeable, anonymous and linkable',
 "A ring signature made by any member of any ring verifies for that ring and message, and not for another message or ring, with any part changed, added or removed, or without a member's private key. Two signatures by one member on the same message and ring are always recognised as linked, whatever the signer does to the signature; signatures by different members, or on different messages or rings, never are; and nothing but the linking tag depends on who signed.",
 ['inputs'],'all ring sizes, positions, messages and keys, and all altered or crafted signatures',
 'Tests sign with a fixed small ring and message.',
 [LR,'primitive/lrs/Encoding.go'],[('y0 range and group check, shape check','VerifyHelper'),('Linkable','Linkable')],(),['Verify, Linkable results']),
P('C14','The shuffle output is a permutation and its proof cannot be forged',
 "For every list of ElGamal pairs, the shuffle gives a re-encryption of the same plaintexts in an order chosen at random among all orders, and its proof verifies. No proof verifies when the output is anything but a permuted re-encryption of the input, for other inputs or keys than its own, or after any change to the proof itself (bytes appended after its end are not part of it); the same holds for the shuffle of two pairs (biffle) and for the simple shuffle.",
 ['inputs'],'all list lengths from 2 up, lists with repeated entries, all keys, all single and combined alterations, and provers that choose values after the challenge',
 'The shuffle has one test with one list of one size (which does not even compile as a package), and no dishonest prover.',
 ['util/shuffle/pair.go','util/shuffle/simple.go','util/shuffle/biffle.go'],[('PairShuffle prove/verify','util/shuffle/pair.go'),('SimpleShuffle','util/shuffle/simple.go'),('Biffle','util/shuffle/biffle.go')],(),['proof.HashVerify result, shuffled lists']),
P('C15','The commitment parameters are proved honest, and the trapdoors stay secret',
 "A client makes no request before the coordinator has proved, to a challenge that the client picked at random for itself, that all six generators are powers of the common one; a proof with any single wrong answer, or for a generator outside that group, is refused, and so is any proof for parameters with which it could not prove anything (too small a modulus, a base that is not invertible). An honest coordinator's proof is always accepted, and no set of answers to any challenges by any clients lets anyone compute how the generators were made.",
 ['inputs','histories','fault_sequences'],'all challenges, all wrong answers in any of the 480 places, repeated and crossing challenges by several clients, a dishonest coordinator',
 'One test runs one honest challenge.',
 [FO,CH,KH,KL],[('CheckAllGnHonesty','primitive/fujiokam'),('one answer per proof','handleGnHonestyChallenge'),('GnHonestyChecked','client requestBridges')],
 [('GnHonestyProofs','unanswered proofs per client address',CO)],[wire,'CheckAllGnHonesty result']),
P('C16','Pedersen commitments are additive, re-randomisable and open one way',
 "A commitment verifies with the value and randomness it was made with and with no other value. Sums and differences of commitments are commitments to the sums and differences of values and randomness, negative ones included, and raising a commitment and both bases to the same power keeps its opening. Two commitments to one value are never equal.",
 ['inputs'],'all values (negative, zero and large), randomness and bases',
 'Tests open one commitment.',
 [PE],[('Commit, CommitWithR, Add, Sub, Randomize, Verify','primitive/pedersen/PedersenCommitment.go')],(),['return values']),
P('C17','Every wire encoding is lossless and rejects what it cannot represent',
 "Whatever one party encodes (numbers, points, secrets, lists of them, bit lists, proofs, signatures, assignments and whole messages), the other decodes to an equal value, for every value that can occur, empty lists, negative numbers and leading zeros included. Different requests, posts, votes and certificates never have the same signed bytes where they would mean something different, and a string that is not the encoding of a group element is refused as a point.",
 ['inputs'],'all values of all encoded types',
 'Tests round-trip one or two constants.',
 [UT,BR,'primitive/lrs/Encoding.go','primitive/fujiokam/point.go'],[('Encode*/Decode*/ProtobufEncode*','util/Util.go'),('EncodeAssignment*','cmd/bridge/bridge.go'),('MessageOf*','cmd/bridge/bridge.go')],(),['decoded values']),
P('C18','Hostile peers, garbage and departed clients cannot stop the service',
 "Whatever bytes any peer sends to the coordinator or a server, malformed, truncated, oversized, mistyped, incomplete, or well-formed client messages that are invalid, and whether it breaks off, stalls or has left when it is sent to, both keep running, and the round goes on for all others with the same result as without it. Neither a single message nor a connection makes them use more than a bounded amount of memory and time. (Every message states its sender's address itself. Well-formed messages forged in the name of the coordinator, a server of the chain or another client are outside this claim.)",
 ['inputs','fault_sequences','schedules'],'all byte strings and all malformed variants of every message type, sent in any phase; connections reset or stalled at any point; clients that vanish in any phase',
 'No test sends a message.',
 [CH,CL,SH,SL,UT],[('recover in Handle','coordinator, server'),('read deadline, TrySendEvent','listeners, util')],(),[wire,'process exit status']),
P('C19','The processes are free of data races',
 "The coordinator, the servers and the clients each access the state that their listener shares with their main loop only under proper synchronisation, whatever the timing of user commands, phase changes and incoming messages.",
 ['schedules'],'every interleaving of the listener goroutine with the life cycle or command loop, in every phase',
 'Tests run no listener; races need concurrent executions under instrumentation.',
 [CH,CL,SH,SL,KH,KL],[('mu','package mutex of coordinator, server and client')],(),['race detector reports']),
P('C20','A client can register at any time and always gets in',
 "A client that registers before the first round, during any phase of a round, or while a round opens or closes becomes a member of the next round that opens after its registration has reached the coordinator and the servers, at the latest the second one, with exactly one table entry, the starting credit and a matching opening. Registering the same key again changes nothing, and a registration never disturbs the running round or the other clients.",
 ['schedules','histories','fault_sequences'],'every position of one or more registrations among all the other messages, commands and phase changes',
 'No test registers a client.',
 [CH,CL,SH,KH],[('PendingClients, Registering, closeRound','coordinator')],
 [('PendingClients','registrations waiting for a round to open',CO),('NewClientsBuffer','clients registered in this round',CO)],[wire]),
P('C21','The servers form one chain and each adds its own share to the commitment base',
 "Servers that register in any order and timing before the start, also at the same moment, end up in one chain in which each table passes every server exactly once from first to last when a round opens and from last to first when it ends. The second commitment base that is broadcast contains a fresh random factor of every one of them, so that no proper subset of them knows its logarithm. Repeated or late registrations and unsolicited updates of the base change nothing.",
 ['schedules','configurations','histories'],'every number of servers, every interleaving of their registrations and updates with each other and the start command',
 'No test starts a server.',
 [CH,CO,CL,SH],[('RegisteringServer, PendingServers','coordinator'),('NextHop/PreviousHop','server')],
 [('ServerList','chain order',CO)],[wire]),
P('C22','Messages count only in their own phase and round',
 "A post, request, server signature, vote, announcement or end-of-round table that reaches the coordinator takes effect only in the phase and round it belongs to: when it is delayed, replayed or sent too early, the table, the assignments and all reputations are the same as if it had not been sent. Nothing recorded in one round (bridges, requests, votes, signatures) has any effect in a later one.",
 ['schedules','histories'],'every recorded message of every type delivered again, or late, in every other phase and in later rounds',
 'No test runs a phase.',
 [CH,CL,CO],[('phaseOfEvent','coordinator Handle'),('clearBuffer, ClearBridges','coordinator')],
 [('Status','phase',CO)],[wire]),
P('C23','A request reveals nothing about the reputation beyond the requested number',
 "The messages of two requests for the same number by clients of different reputation cannot be told apart: the values in the request are blinded by randomness much wider than what they blind, whatever the reputation. In particular nobody can compute the reputation, or test a guess of it, from the commitments and proofs of a request.",
 ['inputs','histories'],'all reputations, all requested numbers, all requests of a client in a round together',
 'The tests check only that proofs verify; hiding is a property of distributions.',
 [KL,FO,EQ,PE],[('blinding ranges','genRandomSecret, t1Bits, t3'),('fresh rind, FOCommd per request','client requestBridges')],(),[wire,'distribution of proof values']),
P('C24','A server that breaks the shuffle is caught by the next honest one',
 "A server processes the table it gets from the previous one only if the shuffle proof that comes with it verifies for the lists in the message; otherwise it sends nothing on and the round does not continue with that table. No previous server can replace, drop, duplicate or alter entries without being caught.",
 ['inputs','fault_sequences'],'all alterations of the table, lists and proof in a message between two servers, in both directions of the chain',
 'No test runs two servers.',
 [SH,'util/shuffle/pair.go'],[('verifyNeffShuffle','cmd/server/AnonServerHandler.go')],(),[wire]),
P('C25','Bridges and secrets reach only those they are meant for',
 "A bridge address reaches no client but its provider and the one that it is assigned to in that round, and no server before it is assigned; it never leaves a server but in its answer to the coordinator. The first opening of a client's commitment reaches only that client. No message of the coordinator, a server or a client contains a private key, a round key, a re-encryption exponent, a trapdoor of the commitment parameters or a factor of their modulus, whatever requests are short of bridges, refused, repeated or malformed.",
 ['inputs','histories'],'every message that any party sends in any run, with any mix of posts, requests and refused messages',
 'No test looks at messages.',
 [CH,CL,SH,SL,KL],[('RequesterAddrs','coordinator handleGotSignatures'),('Params of the events sent','all roles')],
 [('Bridges','posted bridges and whether they are used',CO)],[wire]),
]
for p in L:
    assert len(p['title'])<=80,p['title']
open('/verif/properties.jsonl','w').write(''.join(json.dumps(p)+'\n' for p in L))
