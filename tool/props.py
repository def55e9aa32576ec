#!/usr/local/bin/python3
# Source of properties.jsonl: python3 tool/props.py > properties.jsonl
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"state":[{"name":n,"meaning":m,"where":w} for n,m,w in state],
      "mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":list(observe),"hook_needed":hook}})

p("C01","The DHT ring is a faithful cyclic sorted set",
 "After any sequence of insertions and removals, the ring holds exactly the identifiers inserted and not since removed. A nearest-k query returns exactly the k members (all of them when there are fewer, never the excluded one) at the smallest distance round the ring, ties to the counter-clockwise side, listed clockwise; a range query returns exactly the members met walking clockwise from start to end inclusive, wrapping past zero. Queries and rejected inputs never change the ring.",
 ["histories","inputs"],"all insert/remove/query histories over any identifiers, including both ends of the number range, ties, wrap-around, empty and one-member rings",
 "The unit tests build one 18-member and one 4-member ring and ask five queries; they never remove a member and then look at what is left, ask for more members than exist, or query a small ring.",
 ["common/pkg/dhtring/dhtring.go"],[("doubly linked sorted ring with cached distances; queries insert and remove a temporary node","common/pkg/dhtring/dhtring.go")],
 [("Ring.head/size","smallest member and member count","common/pkg/dhtring/dhtring.go")],["Insert","Remove","GetClosest","GetWithinRange","Size"])

p("C02","The provider's offer store returns exactly the stored, unexpired offers",
 "For every history of adding group offers and single-CID (DHT) offers and of time passing, looking up a CID, listing group or DHT offers, listing a CID range, and looking up an offer digest returns exactly those unexpired added offers that match, each once, and no more than the limit asked for. Expired offers are never returned, and removing them never removes or hides an unexpired one. An offer added twice is stored once.",
 ["histories","inputs"],"all histories of adds, lookups and clock positions over offers that share CIDs, digests, prices, expiries and both storages",
 "The tests add a few offers and read them back once; no test lets an offer expire beside a live one, adds duplicates across storages, or asks for limits.",
 ["common/pkg/fcroffermgr/offer_manager.go","common/pkg/fcroffermgr/offer_storage.go"],[("two storages (group, DHT), each with CID and digest maps; DHT ring of offered CIDs","common/pkg/fcroffermgr")],
 [("cidMap/digestMap","offers by CID and by digest","common/pkg/fcroffermgr/offer_storage.go")],["AddGroupOffer","AddDHTOffer","GetOffers","GetGroupOffers","GetDHTOffers","GetDHTOffersWithinRange","GetOfferByDigest"])

p("C03","The gateway's offer store returns exactly the stored, unexpired offers",
 "For every history of adding offers and of time passing, the gateway's database-backed offer store returns, for a CID lookup or listing, a listing of a range from a lower to a higher CID, and a digest lookup, exactly the unexpired added offers that match - whether published as group or single-CID offers, which this store does not tell apart - each once, also when it names a CID twice, and complete (same provider, CIDs in order, price, expiry, QoS and signature as added), and never more than a positive limit asked for. Adding an offer already stored changes nothing. All of this is independent of the time zone the process runs in.",
 ["histories","inputs","configurations"],"all histories of adds and lookups over offers sharing CIDs, with expiries before, at and after now, in every time zone offset",
 "The tests insert one or two offers and read one back, in whatever time zone the machine has.",
 ["common/pkg/offermgr/offer_manager.go","common/pkg/offermgr/offer_repository.go","common/pkg/database/database.go"],[("two SQL tables joined by digest; expiry filter in SQL","common/pkg/offermgr")],
 [],["AddOffer","AddGroupOffer","AddDHTOffer","GetOffers","GetDHTOffersWithinRange","GetOfferByDigest"])

p("C04","A crash or failing write never leaves a half-stored offer",
 "If the process is killed, or the database refuses a write, at any point while an offer is being added, then after reopening the store each offer is either completely present or completely absent; every offer whose add had reported success is completely present; and every lookup still works. Adding the same offer again afterwards makes it completely present. A store that was open when a single write was refused goes on to serve in the same way, without being reopened.",
 ["crash_points","fault_sequences"],"every statement boundary and every single-statement failure during histories of adds, each followed by a reopen and all lookups",
 "No test interrupts or fails a database write.",
 ["common/pkg/offermgr/offer_manager.go","common/pkg/offermgr/offer_repository.go"],[("inserting an offer and its CIDs","common/pkg/offermgr")],[],["AddOffer","GetOffers","GetOfferByDigest"])

p("C05","Concurrent use of the offer stores loses and corrupts nothing",
 "Under every interleaving of concurrent adds and lookups on the same offer store, every add takes effect exactly once, every lookup returns a result explainable by some order of the overlapping operations, there is no data race or deadlock, and no offer that was added and has not expired is missing afterwards.",
 ["schedules"],"all interleavings (within the preemption bound) of 2-3 threads doing adds of offers that share CIDs, lookups, range listings and expiry",
 "No test uses a store from two goroutines.",
 ["common/pkg/fcroffermgr/offer_storage.go","common/pkg/fcroffermgr/offer_manager.go","common/pkg/offermgr/offer_manager.go"],[("read-write mutexes around the maps","common/pkg/fcroffermgr/offer_storage.go")],[],["AddGroupOffer","AddDHTOffer","GetOffers","GetDHTOffersWithinRange","GetOfferByDigest"])

p("C06","Paying never exceeds the channel and never reuses a voucher",
 "On each lane of a payment channel, successive payments yield vouchers with strictly increasing nonces whose amounts are the running total paid on that lane, so each voucher is worth exactly the amount asked for more than the last. The total of all vouchers never exceeds what was put in the channel; when it would, no voucher is issued, nothing changes, and the caller is told to top up. The caller's amounts are never modified.",
 ["histories","fault_sequences"],"all histories of top-ups (succeeding, failing) and payments over small amounts, lanes and recipients, including amounts exactly at the balance",
 "The payment manager's tests are skipped without a live Lotus node; nothing checks a sequence of payments.",
 ["common/pkg/fcrpaymentmgr/payment_manager.go"],[("per-recipient channel state: balance, redeemed, lanes with nonce and redeemed amount","common/pkg/fcrpaymentmgr/payment_manager.go")],[],["Topup","Pay","Shutdown"])

p("C07","A voucher is credited at most once and only when it is sound",
 "Receiving a voucher on a channel credits exactly its value above what the lane has already redeemed, and only if it was signed by that channel's payer for that very channel, which pays this node, its nonce is newer than any accepted on that lane, its amount is above what that lane has redeemed, the credit fits in the channel, and it can be redeemed without further conditions (no time lock, secret, other actor's consent, later settlement or merged lanes). A replayed, stale, forged, foreign, oversized or malformed voucher credits nothing and changes nothing. The sum credited on a channel never exceeds its balance.",
 ["histories","inputs","fault_sequences"],"all sequences of deliveries (in order, reordered, duplicated, altered in each field) of vouchers over channels, lanes and balances, with the chain queries answering or failing",
 "The payment manager's tests are skipped without a live Lotus node.",
 ["common/pkg/fcrpaymentmgr/payment_manager.go"],[("Receive: decode, verify signature, query channel, lane bookkeeping","common/pkg/fcrpaymentmgr/payment_manager.go")],[],["Receive"])

p("C08","Concurrent payments and receipts behave as if done one at a time",
 "Under every interleaving of concurrent top-ups, payments and receipts on one payment manager, the results are those of some one-at-a-time order: no two payments get the same nonce or overspend the channel, the same voucher is never credited twice, at most one channel is created per recipient and no top-up is lost, without data race or deadlock.",
 ["schedules"],"all interleavings (within the preemption bound) of 2-3 threads mixing Topup, Pay and Receive, on new and existing channels",
 "No test uses the manager from two goroutines, and its tests need a live Lotus node.",
 ["common/pkg/fcrpaymentmgr/payment_manager.go"],[("map lock plus per-channel lock","common/pkg/fcrpaymentmgr/payment_manager.go")],[],["Topup","Pay","Receive"])

p("C09","A gateway serves paid content only for at least its price",
 "For every paid (version 2) discovery or offer request of a client or gateway, the gateway returns offers, offer digests or DHT results only if the voucher it accepted in that request was worth at least the price set for what is returned, and then returns exactly what its store has for the request; otherwise it answers that payment is insufficient or that the request failed, sends exactly one reply, and returns no offers, digests or results. A request past its time to live is served nothing and takes no payment. Serving requests never changes the configured prices. Unknown CIDs and digests get a well-formed, signed 'not found' answer, not a crash.",
 ["inputs","histories"],"all combinations of request kind, stored/unknown/expired content, payment below/at/above price, failing voucher, and order of requests",
 "The gateway's API packages have no tests.",
 ["gateway/internal/api/clientapi","gateway/internal/api/gatewayapi"],[("payment check at the head of each handler","gateway/internal/api")],[],["client REST handlers","gateway P2P handlers"])

p("C10","A gateway stores and acknowledges only genuine published offers",
 "A gateway adds a published offer to its store only if the message and every offer in it name one registered provider and are correctly signed by it, and, in a publication of single-CID (DHT) offers, every offer has exactly one CID; otherwise nothing of the message is stored and it is not acknowledged. This holds for offers published to the gateway and for those it asks a provider to list. An acknowledgement it gives is for exactly the publication received, and every unexpired offer it acknowledges is retrievable from its store.",
 ["inputs","histories"],"all combinations of registered/unregistered provider, right/wrong key on message and offers, tampered offers, empty and mixed offer lists, group and DHT publication",
 "The gateway's API packages have no tests.",
 ["gateway/internal/api/providerapi","gateway/internal/api/gatewayapi/list_dht_offer_requester.go"],[("signature checks against the register","gateway/internal/api/providerapi")],[],["P2P publish handlers"])

p("C11","P2P connections deliver each message once, in order, however bytes arrive",
 "Whatever way the byte stream of a peer connection is cut into reads, delayed or pipelined, the receiving side gets exactly the messages written, each once, whole and in order. A read time-out between or inside messages loses, duplicates and corrupts nothing, and a truncated, oversized or undecodable frame ends or skips only that message's connection, never the server.",
 ["fault_sequences","inputs"],"all ways of cutting 1-3 message streams into chunks, with time-outs placed at every chunk boundary, back-to-back messages, and every truncation",
 "The P2P server has no test that splits, delays or pipelines frames.",
 ["common/pkg/fcrp2pserver/tcp_comms.go","common/pkg/fcrp2pserver/server.go","common/pkg/fcrp2pserver/server_reader.go","common/pkg/fcrp2pserver/server_writer.go"],[("4-byte length prefix framing with read deadlines","common/pkg/fcrp2pserver/tcp_comms.go")],[],["server handlers","requesters"])

p("C12","Concurrent P2P requests to peers pair up and do not block each other forever",
 "Under every interleaving of concurrent requests to the same or different peers, each requester gets the reply to its own request or an error, never another's reply; a failed or closed connection affects only requests using it and the next request reconnects; at most one pooled connection per peer is in use at a time; and there is no data race or deadlock.",
 ["schedules","fault_sequences"],"all interleavings (within the preemption bound) of 2-3 requests to 1-2 peers with connection failures at each step",
 "The pool has no concurrency test.",
 ["common/pkg/fcrp2pserver/pool.go","common/pkg/fcrp2pserver/server.go"],[("pool of per-peer connections, each with its own lock","common/pkg/fcrp2pserver/pool.go")],[],["RequestGatewayFromGateway","RequestProvider"])

p("C13","Nodes see the register as it is",
 "After a forced refresh returns, lookups of gateways and providers (single, all, near a CID) reflect what the register served for a pull begun after the refresh was asked for: changed records are replaced and new ones appear. The gateways reported near a CID are exactly the registered ones nearest to it, and looking up an unknown ID yields nothing rather than an error or a hang, whether or not periodic discovery is running. A node is told that it is registered only if the register took its record.",
 ["histories","inputs"],"all histories of register contents changing, forced refreshes, periodic updates and lookups, with discovery of either kind on or off",
 "The tests pull one fixed register answer once.",
 ["common/pkg/fcrregistermgr/register_manager.go"],[("update loops pull the register, replace maps and ring; refresh channel","common/pkg/fcrregistermgr/register_manager.go")],[],["Refresh","GetGateway","GetProvider","GetAllGateways","GetAllProviders","GetGatewaysNearCID","GetGatewayCIDRange"])

p("C14","The register manager never deadlocks, races or reports stale refreshes",
 "Under every interleaving of lookups, forced refreshes, background updates and shutdown, every call returns, there is no data race, a refresh returns only after a complete pull begun after the call, and a range or nearest query returns an answer that was right for the gateways the manager knew at some moment during the call (it takes in a pull one record at a time).",
 ["schedules"],"all interleavings (within the preemption bound) of 2-3 callers with the two background update loops and their timers",
 "The tests call one method at a time and sleep.",
 ["common/pkg/fcrregistermgr/register_manager.go"],[("RW locks over maps and ring; unbuffered refresh/shutdown channels","common/pkg/fcrregistermgr/register_manager.go")],[],["Refresh","Get*","Shutdown"])

p("C15","Reputation is exact and bounded for every client and history",
 "For every sequence of reputation events per client, the reputation is the documented initial value plus the documented change for each event since it was established, held within the minimum and maximum after each step, where an administrator's setting within those limits replaces the value; a client never established has none, and one client's events never affect another's. Under every interleaving of concurrent events none is lost and there is no data race.",
 ["histories","schedules"],"all event sequences up to a depth for two clients, from values at and near both bounds, and all interleavings of concurrent events",
 "The tests apply each event once to one client from one goroutine.",
 ["gateway/internal/reputation/reputation.go","gateway/internal/reputation/reputation_constants.go"],[("map under a mutex; clamp after each change","gateway/internal/reputation/reputation.go")],[],["EstablishClientReputation","SetClientReputation","GetClientReputation","ClientExists","event methods"])

p("C16","Every protocol message survives encoding and is never mistaken for another",
 "For every message kind and all field values, decoding an encoded message yields exactly the values encoded, also after the message crosses the wire form. A decoder rejects every message of another kind, and no two kinds share a type number.",
 ["inputs"],"all message kinds x boundary values of each field (empty/one/many lists, extreme numbers, special strings), and every ordered pair of kinds",
 "Each message test encodes one fixed value and never feeds one kind to another's decoder.",
 ["common/pkg/fcrmessages"],[("JSON bodies tagged with a numeric type","common/pkg/fcrmessages/type.go")],[],["Encode*/Decode* pairs"])

p("C17","A signed message verifies only as signed",
 "A message verifies under exactly the key pair that signed it, any number of times and after crossing the wire; any change to its type, version fields, body or signed value (the signature apart from key version and recovery byte), or any other key, makes verification fail. Verifying - successfully or not - leaves the message unchanged.",
 ["inputs"],"all single-byte and field alterations of signed messages of several kinds, all pairs of keys, repeated verification",
 "The tests verify one message with its right key and one wrong key.",
 ["common/pkg/fcrmessages/fcrmessage.go","common/pkg/fcrcrypto/msg_signing.go"],[("signature over the JSON form without signature","common/pkg/fcrmessages/fcrmessage.go")],[],["Sign","Verify"])

p("C18","Offers are authentic: only the provider's exact terms verify",
 "A CID offer, and each single-CID part cut from it, verifies under the provider's key exactly when every term - provider, CIDs and their order, price, expiry, quality of service - and, for a part, its membership in the group, is as the provider signed; changing any one of them makes the signature or the membership check fail, also after encoding and decoding. The digest identifies the offer: same terms same digest, different terms different digest. An offer counts as expired exactly when its expiry has passed, for every expiry.",
 ["inputs"],"all offers with 1..N CIDs, every part, every alteration of one field, every swap of parts/proofs between offers",
 "The tests check one offer with two or three CIDs and its right key.",
 ["common/pkg/cidoffer/cidoffer.go","common/pkg/cidoffer/subcidoffer.go"],[("Merkle root over CIDs signed with the terms","common/pkg/cidoffer")],[],["NewCIDOffer","Sign","Verify","GenerateSubCIDOffer","VerifyMerkleProof"])

p("C19","Merkle proofs are complete and sound",
 "For every list of leaves, the proof generated for each leaf verifies against the tree's root, also after encoding and decoding; a proof never verifies for other content of leaf length or against another list's root, and any alteration of a proof (other than the side of a node paired with itself) makes it fail. Malformed proofs are rejected without a crash.",
 ["inputs"],"all trees up to a size, all leaves, all pairs of leaf and proof, all single alterations of path and index, malformed lengths",
 "The tests use trees of a few sizes and one tampering.",
 ["common/pkg/fcrmerkletree"],[("tree and proof wrapper with verification","common/pkg/fcrmerkletree/proof.go")],[],["CreateMerkleTree","GenerateMerkleProof","VerifyContent"])

p("C20","Keys round-trip and signatures bind key, version and message",
 "Every key pair and key version decodes from its encoded form to an equal one, also after wrapping around of versions; encodings of the wrong length, alphabet or algorithm, and private keys out of range, are rejected with an error, never a crash. A signature verifies exactly for its message and public key, carries the key version it was made with, and a signature whose signed value (not its recovery byte or version prefix) is altered is rejected.",
 ["inputs"],"all single-character alterations and truncations of encodings, all versions at the boundaries, all pairs of messages and keys from a small set",
 "The tests round-trip single keys and damage one encoding.",
 ["common/pkg/fcrcrypto"],[("versioned algorithm-tagged encodings; recoverable secp256k1 signatures","common/pkg/fcrcrypto")],[],["Decode*","Encode*","SignMessage","VerifyMessage","ExtractKeyVersionFromMessage"])

p("C21","No peer input can crash a node",
 "Whatever bytes a peer, client or register sends - wrong types, missing, extra, empty, malformed or extreme fields at any position of any message, offer, proof or identifier - decoding and handling returns a result or an error and never crashes or hangs the process, whether or not the node has been given its key and wallet, and the node then still serves well-formed requests.",
 ["inputs"],"every decoder x every single-field removal, type change, emptying, truncation and extreme value of a valid encoding, and pairs of such changes for the nested structures",
 "Tests feed decoders only valid or one malformed input.",
 ["common/pkg/fcrmessages","common/pkg/cidoffer","common/pkg/fcrmerkletree","common/pkg/cid","common/pkg/nodeid","common/pkg/register"],[("decoders return errors","common/pkg/fcrmessages")],[],["all Decode* functions and handlers"])

p("C22","A provider records only what gateways really acknowledged",
 "A provider's record that a gateway holds a DHT offer, and the acknowledgement it hands to clients, exist only if that gateway, identified by the register, signed an acknowledgement of exactly that published message; replies that are missing, wrongly signed, or for other messages record nothing. Requests for published offers, for offers in a gateway's range and for acknowledgements are answered exactly from what was published and acknowledged; the provider's list of gateways that accept group offers follows their signed notices; and concurrent updates lose nothing.",
 ["histories","inputs","schedules","fault_sequences"],"all combinations of gateway reply (right, wrong key, wrong digest, nonce, none) per publication, requests before and after, and interleavings of concurrent updates",
 "The provider has no tests.",
 ["provider/internal/core/core.go","provider/internal/api"],[("ack verification and ack map under a lock","provider/internal/api/providerapi/publish_dht_offer_requester.go")],[],["admin, client and gateway API of the provider"])

p("C23","A client accepts only offers it has verified",
 "Every offer a client's discovery returns is for the CID asked for, comes from a registered provider, carries that provider's valid signature and a valid membership proof, arrived in a reply signed by the gateway asked and matching the request, and the number returned respects the limit; everything else is dropped without harming the rest. A publication acknowledgement is reported as found only if request, acknowledgement and offer all verify under the right keys and belong together.",
 ["inputs","fault_sequences"],"all combinations of honest and dishonest replies (each single check violated in turn) from 1-2 gateways, in each discovery mode",
 "The client has no tests.",
 ["client/pkg/fcrclient/filecoin_retrieval_client.go","client/pkg/api/clientapi"],[("validation of replies and offers against the register","client/pkg/fcrclient")],[],["FindOffers*","FindDHTOfferAck","FindDHTOfferAck"])

p("C24","A client talks only to gateways it chose and proved",
 "Finding gateways yields only registered gateways of the asked region, each once, all of them or as many as asked. At every moment the active gateways are a subset of those the user asked to use; a gateway becomes active only after it proved, by a signed answer to a fresh challenge, that it holds the key registered for its ID; removing a gateway from use deactivates it. Discovery through a gateway that is not active is refused without sending it anything. The counts reported by add and remove calls equal the real changes, and this holds under every interleaving of concurrent calls, without data race or deadlock.",
 ["histories","schedules","inputs"],"all sequences of find/add/remove/list calls over a few gateways with honest and dishonest establishment answers, and all interleavings of two concurrent calls",
 "The client has no tests.",
 ["client/pkg/fcrclient/filecoin_retrieval_client.go","client/pkg/api/clientapi/establishment_requester.go"],[("two gateway maps under locks; challenge verification","client/pkg/fcrclient")],[],["AddGatewaysToUse","RemoveGatewaysToUse","AddActiveGateways","RemoveActiveGateways"])

p("C25","The register keeps exactly what was registered",
 "After any sequence of registrations, lookups, listings and deletions of gateways and providers, the register returns exactly the latest registration for each node ID, lists exactly those registered and not deleted, keeps gateways and providers apart, and reports an unknown ID as absent. A storage error on any operation yields an error answer and never a crash or a false success.",
 ["histories","fault_sequences"],"all operation sequences up to a depth over a few node IDs of both kinds, with a storage failure injected at every storage call",
 "The register has no tests.",
 ["register/internal/handlers","common/pkg/register"],[("redis hash per kind","register/internal/handlers")],[],["REST handlers of the register"])

p("C26","Requests reach exactly the handler registered for their type and port",
 "A request delivered to a node is handled by exactly the handler registered for that listening address and message type, once, and its reply is what the handler produced; requests that are empty, undecodable, of unregistered type or to the wrong port get an error and reach no handler; servers cannot start twice or be changed once started.",
 ["inputs","configurations"],"all combinations of listening address, message type, registered or not, body well-formed or not, in each order of registration and start",
 "The REST server has no tests; the P2P server only one happy path.",
 ["common/pkg/fcrrestserver/server.go","common/pkg/fcrp2pserver/server.go","gateway/cmd/gateway/main.go","provider/cmd/provider/main.go"],[("two-level map listen address -> type -> handler","common/pkg/fcrrestserver/server.go")],[],["AddHandler","Start","REST endpoint"])

p("C27","Identifiers keep their value in every form, and distances are exact",
 "Node IDs and content IDs convert between bytes, hex text, numbers and JSON without changing value, for all values including leading zeros; inputs of the wrong length or alphabet are rejected. The distance between two identifiers is the length of the shorter way round the number ring, symmetric and zero only for equal ones, and sorting by distance is correct.",
 ["inputs"],"all byte patterns at the boundaries (leading/trailing zeros, all lengths 0..N), all pairs from a boundary set",
 "Tests convert a few fixed values.",
 ["common/pkg/nodeid/nodeid.go","common/pkg/cid/cid.go","common/pkg/dhtring/dhtring.go"],[("fixed-size big-endian byte arrays","common/pkg/nodeid/nodeid.go")],[],["NewNodeID*","NewContentID*","ToString","MarshalJSON"])

p("C28","Random values are never repeated by concurrent use",
 "Under every interleaving of concurrent draws from a shared random generator, no two draws return the same bytes, every requested byte is filled, and there is no data race; reseeding never repeats earlier output.",
 ["schedules","inputs"],"all interleavings (within the preemption bound) of 2-3 threads drawing and reseeding, all small output lengths and bounds",
 "Tests draw from one goroutine.",
 ["common/pkg/fcrcrypto/prng.go"],[("hash-chained state","common/pkg/fcrcrypto/prng.go")],[],["GetPublicPRNG","GetPrivatePRNG"])

p("C29","A paying requester pays the asked price, once",
 "When a client or gateway asks another node for paid discovery or offers, it sends a voucher worth exactly the price it was configured or asked to pay to that node; if funds are short it tops up as needed and retries, and if it still cannot pay it gives up with an error without sending a request. A request that answers 'insufficient funds' or fails does not spend more than was sent.",
 ["histories","fault_sequences"],"all combinations of channel missing/short/funded, top-up succeeding/failing, single and multiple items, and peer answers",
 "Neither requester has tests.",
 ["client/pkg/fcrclient","client/pkg/api/clientapi","gateway/internal/api"],[("pay, top up, pay again","client/pkg/api/clientapi")],[],["requesters"])

p("C30","A gateway's DHT discovery reports each asked gateway truthfully",
 "When a client asks a gateway to discover a CID through the DHT, each of the asked-for number of nearest other gateways is reported exactly once, either as contacted with exactly the reply it gave (checked to be signed by that gateway and to match the request) or as uncontactable; results stay matched to the gateway they came from, and an expired request is not served.",
 ["inputs","fault_sequences"],"all combinations of per-gateway outcome (honest, refusing, wrong key, wrong nonce, wrong CID, unreachable) over 1-3 gateways and requested counts",
 "The gateway's API packages have no tests.",
 ["gateway/internal/api/clientapi/dht_discover_handler.go","gateway/internal/api/clientapi/dht_discover_handler_v2.go","gateway/internal/api/gatewayapi"],[("fan-out over nearest gateways","gateway/internal/api/clientapi")],[],["client REST handlers"])

p("C31","Administrative control obeys only genuine, complete commands",
 "A node's administrative operations - installing its key, publishing, listing and requesting offers, changing which content or reputation it serves - take effect exactly as commanded and are acknowledged truthfully by a reply signed with the node's key; before the key is installed they change nothing and report failure. An administrator's tool reports success only for a reply that verifies under the node's registered key and says so.",
 ["inputs","histories"],"all orders of administrative commands before and after key installation, well-formed and not, and all replies to the tool (right, wrong key, wrong kind, failure)",
 "Only one provider-admin request builder has a test.",
 ["gateway/internal/api/adminapi","provider/internal/api/adminapi","gateway-admin/pkg/api/adminapi","provider-admin/pkg/api/adminapi"],[("admin handlers and requesters","gateway/internal/api/adminapi")],[],["admin REST handlers and requesters"])

p("C32","A gateway tells who may ask exactly what it has, in time",
 "A client's standard discovery, and another gateway's DHT discovery (unpaid or paid at its price), is answered with exactly one sub-offer (or offer digest) for each stored, unexpired offer covering the content asked for and nothing else, each sub-offer proving its content under its provider's signature, in a reply signed by the gateway and bearing the question's content and nonce; a gateway's question is answered only if the gateway it names is registered and signed exactly this question with its currently registered key, and a question refused for its sender or its time costs nothing. A client's establishment is answered with its challenge, signed. Questions past their time to live are served nothing.",
 ["inputs","histories"],"parties named x signers x alterations x times to live x nonces; all sets of overlapping offers; all histories of key changes, register reads and questions up to a depth",
 "The gateway's API packages have no tests.",
 ["gateway/internal/api/clientapi","gateway/internal/api/gatewayapi"],[("checks at the head of each handler","gateway/internal/api/gatewayapi/dht_discover_handler.go")],[],["client REST handlers","gateway P2P handlers"])

p("C33","A component runs with exactly the settings it was given",
 "A node starts with exactly what its settings say: every address, key, identity, limit, duration and amount has the value given under its own name, whichever other settings are made; one that is not made, or is not a duration or a whole amount, takes the documented default and never another value, and one the node cannot do without refuses the start. The client's and administrators' libraries build settings holding what was last set, else the documented defaults, with a key (and ID) newly made up for each when none was given, and never without a blockchain key; settings already built do not change. Nodes read the register as often as set.",
 ["configurations","histories"],"all pairs of settings at all their value classes, over both backgrounds; all sequences of builder calls up to a depth",
 "The configuration packages and builders have no tests.",
 ["gateway/config/config.go","provider/config/config.go","client/pkg/fcrclient/builder.go","gateway-admin/pkg/fcrgatewayadmin/builder.go","provider-admin/pkg/fcrprovideradmin/builder.go","gateway/cmd/gateway/main.go","provider/cmd/provider/main.go"],[("environment and flags into AppSettings","gateway/config/config.go"),("settings builders","client/pkg/fcrclient/builder.go")],[],["config.NewConfig","config.Map","CreateSettings","Build"])


for x in P:
    print(json.dumps(x,ensure_ascii=False))
