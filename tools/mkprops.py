#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source for property texts)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    P.append(dict(id=id,title=title,statement=statement,quantifier={"over":over,"text":text},why_tests_cant=why,anchors=a))

D="crates/sip-dialog/src/"
p("D01","In-dialog requests are accepted only in CSeq order",
  "Within one dialog the sequence numbers of the accepted non-ACK requests from the peer are strictly increasing, never zero, never above 2^31-1 and never more than 1000 above the previous accepted one; an ACK is accepted only for the last accepted request's number. A request that is refused leaves the dialog exactly as it was, so a retransmission or an out-of-order request can never change dialog state or make a later correct request be refused.",
  ["histories","inputs"],"every sequence of in-dialog requests (all methods, in order, duplicated, reordered, out of range, from a wrong peer), for UAC- and UAS-created dialogs, with and without a first accepted request",
  "The tests feed two or three hand-picked requests; the claim is about every history of accepted and refused requests and about what refused ones leave behind.",
  [D+"lib.rs"],[("Dialog::update_from_request",D+"lib.rs"),("cseq_number / sequence checks",D+"lib.rs")],[("remote_cseq","last accepted sequence number of the peer")])
p("D02","Dialog lifecycle is early, confirmed, terminated and never goes back",
  "A dialog is created only by a tagged response that can create one, is early after a provisional and confirmed after a 2xx response, and moves only forward: early to confirmed (by the 2xx to its INVITE, never by a failure or by the response to another request), and either of them to terminated. A terminated dialog accepts no further request, no later response changes it, it never becomes early or confirmed again, and its Call-ID and tags never change. The numbers it gives to its own requests strictly increase.",
  ["histories","inputs"],"every sequence of responses of all classes and of in-dialog requests, from either end, starting from every creating response",
  "Tests sample a few linear call flows; forward-only movement is a statement about all interleavings of responses and requests, including late provisionals, late finals and requests after the end.",
  [D+"lib.rs"],[("Dialog::new_uac / new_uas / update_from_response / update_from_request",D+"lib.rs")],[("state","early, confirmed or terminated")])
p("D03","Dialog routing: route set order, fixation and target refresh",
  "The route set of a dialog is the Record-Route list of the creating message, in reverse order at the caller and in the same order at the callee, and never changes once the dialog is confirmed (it is recomputed only from the 2xx that confirms an early dialog). The remote target is the peer's Contact and is replaced only by the Contact of an accepted target-refresh request (INVITE, UPDATE, SUBSCRIBE, NOTIFY, REFER), or of a 2xx (while early, also a provisional) response to one, in a live dialog.",
  ["histories","inputs"],"every Record-Route list and Contact in the creating message and in every later response or request of the dialog, in every order",
  "The tests check one route list at creation; they cannot exclude a later message of some kind, in some state, changing the path or the target.",
  [D+"lib.rs"],[("build_route_set_uac / build_route_set_uas, target refresh",D+"lib.rs")],[("route_set","ordered list of proxies"),("remote_target","where requests of the dialog are sent")])
p("D04","Dialog and subscription tables agree with what was put in and removed",
  "A stored dialog or subscription can be found by its identity, by any in-dialog message of either direction that belongs to it, and by nothing else; counts and listings equal exactly the set of live entries, with no duplicates. Removal and cleanup of ended entries drop exactly those entries, updating an existing entry always succeeds, and the documented capacity limits are never exceeded.",
  ["histories","schedules","configurations"],"every sequence (and concurrent interleaving) of insert, update, lookup, remove, terminate and cleanup, over dialogs that share Call-IDs or tags, at and around the capacity limits",
  "Tests insert one or two entries; agreement with an abstract map for all operation histories, shared keys, capacity boundaries and interleavings is outside what they sample.",
  [D+"lib.rs",D+"storage.rs"],[("DialogManager",D+"lib.rs"),("SubscriptionManager",D+"lib.rs"),("InMemoryDialogStore",D+"storage.rs")])
p("D05","Each reliable provisional is acknowledged at most once and only by its PRACK",
  "The sequence numbers given to the reliable provisional responses of a dialog increase by exactly one. A PRACK is accepted if and only if it names the response number, CSeq number and method of a reliable provisional of that same dialog that is still awaiting acknowledgement (not given up after five minutes, not displaced by ten later ones), and none is accepted twice; dialogs never influence each other.",
  ["histories","inputs"],"every interleaving of sending reliable provisionals, receiving matching, duplicate and mismatching PRACKs, expiry and clearing, over several dialogs",
  "Tests check one response and one PRACK; duplicates, crossings between dialogs, overflow of the pending list and expiry interact only over longer histories.",
  [D+"prack_validator.rs",D+"lib.rs"],[("PrackValidator",D+"prack_validator.rs"),("RSeqManager",D+"lib.rs")],[("pending","unacknowledged reliable provisionals per dialog")])
p("D06","Session timers fire exactly when due and never after refresh or stop",
  "For a dialog with an active session timer the refresher is told to refresh once at half the interval and expiry is reported once at the end of the interval, counted from the last start or refresh, and never earlier. After a stop, refresh or restart no event of the old interval is reported, and a stopped or replaced timer never disturbs the new one.",
  ["schedules","histories"],"every timing and order of start, refresh, stop and expiry for one and several dialogs, including operations that coincide with a due event",
  "Tests wait for one timer in one order; the guarantee is about every relative timing of refresh or stop and expiry, which needs a model of time and a controlled clock.",
  [D+"session_timer_manager.rs"],[("SessionTimerManager start_timer/refresh_timer/stop_timer and timer task",D+"session_timer_manager.rs")])
p("D07","Session interval negotiation respects both parties' bounds",
  "When a session timer is agreed, the agreed interval is never below either party's minimum and never above what was asked unless a minimum forces it up, and a request below the local minimum is refused naming that minimum. Exactly one side is designated refresher, both ends derive complementary answers, and an interval stored on a dialog always lies within the permitted range.",
  ["inputs","configurations"],"every requested interval, local minimum, peer minimum, local preference and refresher parameter, on either side, including boundary values",
  "Tests pick a handful of numbers; the claim is an ordering property over the whole input space and over both ends of the negotiation together.",
  [D+"lib.rs","crates/sip-core/src/session_timer.rs"],[("negotiate_session_expires, determine_refresher_role, set_session_expires",D+"lib.rs"),("SessionExpires / MinSessionExpires",  "crates/sip-core/src/session_timer.rs")])
p("D08","Subscriptions come only from successful SUBSCRIBEs and never revive",
  "A subscription is created only from a SUBSCRIBE answered with success that carries both tags, an event package, a Contact and a valid sequence number; its identity is Call-ID, both tags and event, so that several subscriptions of one dialog stay apart, and its lifetime is the one granted. Once terminated it stays terminated, its own request numbers strictly increase, and lookups, listings by event and clean-up of the subscription table reflect exactly the subscriptions put in and not removed.",
  ["histories","inputs"],"every SUBSCRIBE exchange (tags, events with parameters, Contact, CSeq, Expires, status code) on either side, and every sequence of state changes, table operations and local requests",
  "Tests drive one subscription through one lifecycle; absorption of termination and agreement of the table with an abstract map concern all histories and shared identities.",
  [D+"lib.rs"],[("Subscription",D+"lib.rs")])

A="crates/sip-auth/src/lib.rs"
p("A01","Authentication succeeds only with proof of the password",
  "A request is authenticated only if it carries digest credentials for a known user whose response value was computed with that user's password over this request's method and URI, under a nonce this authenticator issued and that is still valid, and with the realm, algorithm, opaque value and quality of protection it demanded. Every request with correct credentials is authenticated, and changing any protected part of a correct request makes it fail.",
  ["inputs","configurations","histories"],"every combination of credential fields (right, wrong, missing, foreign), algorithm, quality of protection and body, for registered and unknown users, in any order of challenges and attempts",
  "Tests forge a few single-field mutations; soundness is over every combination of fields and configurations, and completeness over every valid one.",
  [A],[("DigestAuthenticator::verify / verify_async / prepare_digest",A)],[("nonces","nonces issued and their counters")])
p("A02","Digest credentials cannot be replayed",
  "For each nonce the accepted nonce counts never go back: once a count has been accepted, no different request (another method, address or body) is accepted with the same or a lower count, and a copy of the last accepted one is tolerated only as a retransmission. An attempt that fails verification never consumes a count, extends a nonce's life or otherwise changes what will be accepted later.",
  ["histories","schedules","inputs"],"every interleaving of valid, replayed, reordered and forged attempts under shared and distinct nonces, including concurrent ones",
  "Tests replay one request once; the guarantee is about the whole history of a nonce, including forged attempts in between and simultaneous attempts.",
  [A],[("NonceManager::verify_and_update / nonce count tracking",A)],[("last_nc","highest accepted count of a nonce")])
p("A03","Nonces expire, are bounded in number and are reported stale honestly",
  "A nonce is accepted only between its issue and the end of its configured lifetime, and the number of nonces remembered never exceeds the configured maximum. An attempt is reported as stale exactly when it names a nonce this server issued that has run out, or that was used before and then left unused for too long, and never for a nonce it did not issue or that is still usable.",
  ["histories","configurations"],"every history of issuing, using, ageing and evicting nonces, for all lifetimes and capacities including very small ones",
  "Tests use one nonce and one sleep; expiry, eviction and staleness interact over histories with a moving clock.",
  [A],[("NonceManager generate/cleanup/eviction, nonce_is_stale",A)])
p("A04","A client given the right password always interoperates with the server",
  "For every algorithm, quality of protection and body the stack supports, a client that answers this stack's challenge with the right password is accepted, on the first and on every later request it signs with increasing counts, and rejected with any other password. The server's authentication information verifies at the client exactly for that exchange, and challenges and credentials survive being written to the wire and parsed back; a challenge carries the Via, From, To, Call-ID and CSeq of its request.",
  ["configurations","histories","inputs"],"every algorithm x qop x method x body combination and every run of successive signed requests, including new challenges in between",
  "Tests try a few algorithm pairs for one request each; agreement of two independent halves has to hold for all combinations and across counter histories.",
  [A,"crates/sip-core/src/auth.rs"],[("DigestClient, DigestAuthenticator, AuthInfo",A)])

R="crates/sip-registrar/src/lib.rs"
p("R01","The location table is exactly what the accepted REGISTERs add up to",
  "After any history of REGISTER requests, the contacts found for an address are exactly those last registered and neither removed nor expired, each with its latest parameters, and addresses never affect each other. A successful answer lists exactly these contacts with their remaining lifetimes, and a contact never remains past its expiry nor disappears before it.",
  ["histories","inputs"],"every history of adding, refreshing, removing, wildcard removal, cleanup and passage of time over several addresses and contacts, including several contacts per request",
  "Tests check one or two requests; equality with an abstract table over arbitrary histories and clock movement is not sampled.",
  [R],[("BasicRegistrar::handle_register / handle_register_async",R),("MemoryLocationStore",R)],[("bindings","contacts per address with expiry")])
p("R02","A refused or outdated REGISTER changes nothing",
  "Any REGISTER that is not answered with success leaves every binding of every address untouched, even if it names several contacts of which only one is unacceptable. A REGISTER with a sequence number not above the one that last set a contact under the same Call-ID is refused, for removals and wildcard removals as well.",
  ["histories","inputs","fault_sequences"],"every multi-contact request with an unacceptable part at any position, every replayed or reordered request, in both the blocking and the asynchronous entry points, and at the binding limits",
  "Tests use requests that are wholly good or wholly bad; partial failure in the middle of a request and replay of old requests against later state are not covered.",
  [R],[("REGISTER processing loop",R)])
p("R03","Only the authenticated owner can change an address's bindings",
  "When authentication is enabled, a REGISTER takes effect only if its credentials verify and the authenticated user is the user of the address being registered; every other request is challenged or forbidden and has no effect. This holds for every form of address, including telephone numbers, host-only addresses and differently written equal addresses, and different written forms of one address always reach the same bindings.",
  ["inputs","configurations","histories"],"every pairing of authenticated user and address form, with absent, wrong, stale and replayed credentials",
  "Tests pair a few users with a few addresses; the claim covers every address form and every credential outcome.",
  [R],[("AOR authorization (aor_identity, usernames_equal), normalize_aor",R)])

L="crates/sip-ratelimit/src/lib.rs"
p("L01","The rate limiter never admits more than burst plus refill, per key",
  "In every period the number of requests admitted for a key is at most the burst capacity plus the tokens refilled in that period, and every request is admitted when the key's bucket holds a whole token; blocked requests and queries consume nothing. Keys are independent, and this holds no matter how calls from several threads interleave.",
  ["histories","schedules","configurations"],"every sequence of checks, queries and time steps for several keys and configurations, and concurrent checks on one key",
  "Tests exhaust one bucket once; the bound is over all windows of all histories and over interleavings.",
  [L],[("TokenBucket refill/try_consume, RateLimiter::check_rate_limit",L)],[("tokens","remaining tokens of a key")])
p("L02","Limiter housekeeping never grants extra requests and accounting adds up",
  "Removing idle keys frees exactly the keys unused for longer than the idle time, and never lets a client make more requests than its rate allows provided the idle time covers a complete refill; new keys are refused when the limit of tracked keys is reached and a known key keeps working there. Every check is counted exactly once as allowed or blocked, and the reported remaining allowance and retry time agree with what is then admitted.",
  ["histories","configurations"],"every history of checks, clean-ups, resets and idle periods over many keys, including limits where refill is slower than the idle time",
  "Tests clean up one idle key; the interaction of clean-up with partly refilled buckets and with accounting needs histories with time.",
  [L],[("cleanup_idle, get_limit_info, RateLimitMetrics",L)])

O="crates/sip-core/src/sdp_offer_answer.rs"; SN="crates/sip-sdp/src/negotiate.rs"
p("O01","Every generated SDP answer is a legal answer to its offer",
  "An answer has one media line per offered line, in the same order and of the same type and protocol; each is either rejected with port zero or accepted with a non-empty list of formats that were offered and are supported locally, in the offerer's order and with matching codec mappings. A line the offerer disabled or has nothing in common with is rejected, a line with something in common is accepted unless local policy refuses it, and the direction of an accepted line is one permitted by the offered direction.",
  ["inputs","configurations"],"every offer (lines, types, protocols, formats, mappings, directions at session or media level, disabled lines) against every local capability set",
  "Tests have a dozen fixed offers; legality is a relation over all offers and capabilities, including orderings that depend on hashing.",
  [O,SN],[("OfferAnswerEngine::generate_answer",O),("negotiate_answer",SN)])
p("O02","Hold and resume negotiate consistent media directions",
  "Through any sequence of hold and resume offers from either side and their answers, the two ends' directions stay complementary: media flows one way only if the sender sends and the receiver receives. A hold never lets the held party send, resuming a stream right after a hold restores what it was, and each hold or resume offer carries a higher session version than the description it is made from.",
  ["histories","inputs"],"every sequence of hold, resume and re-offer by either party over streams of every initial direction",
  "Tests perform a single hold or resume; consistency of both ends over sequences is a history property.",
  [O],[("create_hold_offer, create_resume_offer, negotiate_direction",O)])
p("S01","SDP survives being written and read back",
  "Every session description that is parsed or built through the validating builder and setters is written in a form that parses back to an equal description, and writing it again gives the same text; each line of an accepted text keeps its meaning, place and order (of a repeated single-valued line the last counts). Malformed text is refused with an error and never accepted as something else, builder arguments that could not be read back are refused, setters replace exactly what they name, and no input makes the parser crash or accept lines beyond its limits.",
  ["inputs"],"every session description over all line types, repeated and optional parts, and every mutation of its text",
  "Tests round-trip a few fixed descriptions; the claim quantifies over all descriptions and texts.",
  ["crates/sip-sdp/src/parse.rs","crates/sip-sdp/src/serialize.rs","crates/sip-sdp/src/lib.rs"],[("parse_sdp_with_limits","crates/sip-sdp/src/parse.rs"),("serialize_sdp","crates/sip-sdp/src/serialize.rs")])

p("S02","Core session descriptions are read and written back without loss",
  "Every SDP text the core reader (directly or through a message body) accepts is written so that it reads back to an equal description and writes the same again. Each line of an accepted text keeps its meaning: repeated lines stay complete and in order, every repeat line stays with its time line, every media line with what belongs to it, the last of a repeated single-valued line counts, groups, media identifiers, RTCP addresses and capability sets are recognised at their level and everything else stays a plain attribute. Lines of unknown kind are skipped before the first media line and refused after it. Text with a required line missing (v, o, s in that order, a time, a connection for the session or all media), a malformed line, control characters or anything beyond a documented limit is refused. The direction, codec mapping, format parameter, bandwidth and precondition queries say what the attributes say, in their order, and leave out unusable ones.",
  ["inputs"],"every text over all line kinds, repeats, orders and attributes, every edit of one and every limit from both sides",
  "Tests read a few dozen fixed texts; losslessness quantifies over all combinations and orders of lines.",
  [O.replace("_offer_answer",""),"crates/sip-parse/src/header_values.rs"],[("SdpSession::parse, Display, extract_*, find_*",O.replace("_offer_answer","")),("parse_sdp","crates/sip-parse/src/header_values.rs")])
p("O03","Preconditions are answered from the answerer's side and met only when reserved",
  "Preconditions of a medium are met exactly when each mandatory desired status has current statuses of the same precondition type and status type that together cover every direction it wants; optional or absent wishes never hold a session up, and a further reservation never makes a met precondition unmet. In the answer to an offer every accepted medium carries one line for each quality-of-service current, desired and confirm status of the offer, in order and seen from the other side: local and remote exchanged, send and receive exchanged, end-to-end kept. A desired strength is never lowered and only an optional one becomes mandatory, when that is asked for; the current status of a segment is what the answerer reports for it. A rejected medium carries none, other precondition types are not claimed, and an answer never repeats the offerer's own RTCP address or capability set.",
  ["inputs","configurations"],"every combination of current, desired and confirm lines over accepted and rejected media, against every status the answerer may report",
  "Tests answer a handful of offers with one precondition each; coverage of directions by several statuses and the mirror relation are over all combinations.",
  [O,O.replace("_offer_answer","")],[("handle_preconditions, negotiate_media",O),("are_preconditions_met, direction_meets_requirement",O.replace("_offer_answer",""))])

UR="crates/sip-core/src/uri.rs"; TU="crates/sip-core/src/tel_uri.rs"
p("U01","An address is read one way only and what is built reads back",
  "A SIP, SIPS or tel URI is accepted exactly when its parts (user up to the @, host name or bracketed IPv6 address, port 1 to 65535, parameters, headers; telephone number with the context a local one needs) are well formed and within the limits, and the parts reported are those of the text: schemes, SIP host, parameter and header names ignore letter case, escapes in the user and host are decoded, and no decoded user contains a delimiter. Whatever is built or changed through the interface is either refused or written so that it parses back to exactly the old address with that one part changed: nothing supplied as one part becomes another, a URI stripped of headers has none, and no URI text contains white space, quotes, angle brackets or control characters.",
  ["inputs","histories"],"every text, including every small edit of well-formed ones, and every sequence of changes to a parsed or built address",
  "Tests parse some fixed addresses; that hostile users, parameters or hosts can never shift the boundary between parts is a statement about all texts and all chains of changes.",
  [UR,TU],[("SipUri::parse, with_* and without_uri_headers",UR),("Uri::parse",UR),("TelUri::parse, with_parameter, with_phone_context",TU)])

M="crates/sip-parse/src/lib.rs"
p("M01","Messages are framed unambiguously or refused",
  "The body of an accepted message is exactly as long as its declared length, or the rest of the datagram when nothing valid is declared; messages with a length beyond the data, conflicting lengths, repeated single-valued headers, folded or malformed header lines, an invalid sequence number or one for another method are refused. Strict parsing accepts only messages whose declared length equals the data, everything it accepts is accepted identically by ordinary parsing, and no input crashes either.",
  ["inputs"],"every combination of header lines, compact forms, letter case, duplicates, lengths and body sizes, for requests and responses, and arbitrary damage to them",
  "Tests send selected malformed messages; the accept-or-refuse rule and the agreement of two parsers are over all inputs.",
  [M],[("parse_request, parse_response and strict variants",M)])
p("M02","Messages survive the wire and header values cannot inject lines",
  "A request or response that is written and parsed back has the same start line, the same headers with the same values in the same order, and the same body, with exactly one correct length header. No value supplied through the public construction interface, however hostile, can make the written message contain an additional header line, start line or body boundary.",
  ["inputs"],"every message assembled from arbitrary methods, addresses, header names and values, reasons and bodies, including control characters and non-ASCII text",
  "Tests write a few friendly messages; injection and loss depend on unusual values that only quantification over inputs reaches.",
  [M,"crates/sip-core/src/headers.rs","crates/sip-core/src/msg.rs"],[("serialize_request, serialize_response",M),("Headers::push and name/value validation","crates/sip-core/src/headers.rs")])
p("M03","Header lists change only as asked and hop counts only go down",
  "A message's header list holds at most 200 well-formed fields in the order they were added, found by name without regard to letter case (all values in order, the first, how many, whether any). Setting, replacing or removing a field changes exactly the fields it names and nothing else, and a refused change leaves the list as it was. Decrementing Max-Forwards lowers a valid value (at most 255) by exactly one, adds 69 when absent, reports zero as exhausted and anything malformed or larger as invalid, and never raises it or changes another field.",
  ["histories","inputs"],"every sequence of additions, changes, removals and decrements with names and values of every kind, starting from parsed and built messages, at and around the limits",
  "Tests do one operation on a short list; equality with an abstract ordered list after any history, with duplicates, mixed case and refusals in between, is beyond them.",
  ["crates/sip-core/src/headers.rs","crates/sip-core/src/max_forwards.rs",M],[("Headers","crates/sip-core/src/headers.rs"),("decrement_max_forwards","crates/sip-core/src/max_forwards.rs"),("header",M)])

N="crates/sip-dns/src/lib.rs"
p("N01","Server location follows the standard order for every zone",
  "For a given address and DNS content the list of targets is the one RFC 3263 prescribes: a numeric host is used directly, an explicit port skips service records, otherwise service choices are taken by NAPTR order and preference, then SRV priority with weighted choice inside a priority, and only without any of them the host's addresses with the default port. A secure address never yields an insecure target, a requested transport is honoured, and the certificate name for resolved addresses is the original domain.",
  ["inputs","configurations","fault_sequences"],"every combination of address (numeric or name, port, transport, secure) and zone (NAPTR, SRV, address records present, absent, multiple or failing)",
  "The tests cannot query a zone at all offline and only exercise helpers; the guarantee is about complete resolutions over all zones.",
  [N],[("SipResolver::resolve, lookup_naptr, lookup_srv, select_by_weight",N)])
p("N02","DHCP-provided servers are decoded exactly and tried before DNS",
  "Server lists in DHCP options are decoded to exactly the servers encoded, in order, and malformed options are refused. A resolver using DHCP returns the targets of its servers in the given order, skipping only servers that cannot be resolved, and turns to DNS for the original address exactly when DHCP gives nothing usable; the number of targets stays within its limit.",
  ["inputs","fault_sequences"],"every option content, every sequence of address and name servers with any subset failing to resolve, for secure and ordinary addresses",
  "Tests have a few fixed options; order and fall-back under every pattern of failing servers is not sampled.",
  [N],[("parse_dhcp_option_120/66/150, DhcpResolver, HybridResolver",N)])
E="crates/sip-dns/src/enum_lookup.rs"
p("N03","A telephone number has one ENUM name and one best SIP record",
  "A global number (a plus sign and digits only, or a global tel URI of any written form) is looked up under exactly one name, its digits reversed one by one below e164.arpa, and no other text or local number has a name. Among the records found the chosen one is a SIP service record (in any letter case) with the lowest order and, within it, the lowest preference, the first of equals; sorting and filtering only reorder and drop records, and the address of a record is exactly the replacement part of its expression, escaped delimiters included.",
  ["inputs"],"every text as a number and every list of records (orders, preferences, services, flags, expressions)",
  "Tests map a handful of numbers and sort three records; the mapping and the choice are functions over all numbers and record lists, ties included.",
  [E],[("enum_to_domain, tel_uri_to_enum_domain",E),("sort_enum_records, filter_sip_records, select_best_sip_record, extract_uri",E)])
I="crates/sip-identity/src/"
p("I01","Caller identity verifies only when genuinely signed and trusted",
  "An identity token verifies if and only if it was signed with ES256 by the key presented over exactly the header and claims it carries, and, with certificates, only if that key's certificate chains to a configured trust anchor and is valid at the given time. Tokens produced by signing always decode to the signed claims and verify; any altered, truncated, re-encoded or mismatched token, certificate or key is refused without a crash.",
  ["inputs","configurations"],"every combination of signing key, presented certificate, intermediates, anchors, time, algorithm label and alteration of any token part",
  "Tests try single alterations; acceptance must coincide with genuineness for every combination.",
  [I+"verify.rs",I+"chain.rs",I+"passport.rs",I+"sign.rs",I+"header.rs"],[("Passport::verify_signature, verify_with_chain",I+"chain.rs"),("sign",I+"sign.rs")])
T="crates/sip-transaction/src/"
p("T01","Client transactions deliver each outcome once and stop retransmitting",
  "A client transaction retransmits its request only over unreliable transport, at the standard doubling intervals, and only until a response permits it to stop; it reports to its user every provisional, and one outcome (a final response, a time-out, or the failure of every address it was given, tried in order), followed by nothing except that a success which still arrives after an INVITE's failure is reported as well. Every non-2xx final response to an INVITE is acknowledged each time it arrives, and every transaction ends within bounded time after its last event; only a ringing INVITE may wait for as long as it rings.",
  ["histories","schedules","configurations"],"every order of responses, timer expiries and transport errors, over reliable and unreliable transport",
  "Tests walk a few paths of the state machine; the guarantees are over all event orders including late timers and retransmitted responses.",
  [T+"fsm.rs",T+"timers.rs"],[("ClientInviteFsm, ClientNonInviteFsm",T+"fsm.rs")])
p("T02","Server transactions absorb retransmissions and send one final answer",
  "A server transaction answers every retransmission of its request with the last response sent (an INVITE not any more once acknowledged), sends at most one final answer chosen by its user, and repeats a non-2xx final answer to INVITE over unreliable transport until acknowledged or timed out. From its final answer on it ends within bounded time and, once ended, sends nothing.",
  ["histories","schedules","configurations"],"every order of request retransmissions, user responses, ACKs, timer expiries and transport errors, over both kinds of transport",
  "Tests walk a few paths; the claim is over every order of events.",
  [T+"fsm.rs",T+"timers.rs"],[("ServerInviteFsm, ServerNonInviteFsm",T+"fsm.rs")])
p("T03","The transaction layer routes messages to the right transaction only",
  "Each incoming response reaches exactly the client transaction whose branch and method it carries and no other; each new request other than an ACK creates one server transaction and its retransmissions create none; an ACK reaches the INVITE it acknowledges. The number of live transactions on each side stays within its limit by giving up the oldest, whose user is told unless it already had its answer, and ended transactions are forgotten.",
  ["histories","schedules","configurations"],"every interleaving of sends, receives, timer expiries and failures over several simultaneous transactions, at and around the limits",
  "Tests run one transaction at a time; isolation and bounds concern many at once over long histories.",
  [T+"manager.rs"],[("TransactionManager",T+"manager.rs")])
X="crates/sip-proxy/src/"
p("X01","A forking proxy forwards one best final response and every success",
  "For a forked request the proxy forwards to the caller every 2xx response whenever it arrives, and a failure only if no 2xx or 6xx was forwarded before: a 6xx at once, otherwise, as soon as every branch has finished, the best of all their failures (lowest class, the first within it), carrying the challenges of every 401 and 407. Once a 2xx or 6xx was forwarded every unfinished branch is cancelled, none is added after a 6xx, and only further 2xx are forwarded. Provisionals other than 100 are forwarded until then and restart the branch's ringing timer, whose expiry counts as a 408; retransmitted failures and anything else late change nothing.",
  ["histories","schedules","inputs"],"every order of provisional, final, repeated and late responses, transport errors and ringing time-outs over up to several branches",
  "Tests use two branches in one order; the guarantee is over all arrival orders and repetitions.",
  [X+"stateful.rs"],[("ProxyContext::process_response, select_best_response, fire_timer_c",X+"stateful.rs")])
K="crates/sip-core/src/"
p("C01","Caller preferences select and order contacts exactly as declared",
  "A contact is dropped only if it advertised features and agrees with every feature of some Reject-Contact, or if an Accept-Contact that requires its features gets no point from it; all others are kept. Its score is the average over the Accept-Contacts of the share of their features it agrees with (all of them for a header without features, none for an explicit header when it advertised nothing), its own score when there is no header. The kept contacts come in order of the callee's preference and, within it, of their score. Request-Disposition texts yield for each kind of directive the last one named, ignoring unknown ones and letter case, and written ones read back; limits on the number of contacts and headers are enforced.",
  ["inputs","configurations"],"every combination of advertised and requested features and values, modifiers, header counts, callee preferences and directive texts",
  "Tests score three contacts with one or two boolean features; the outcome is a function of all combinations of features, kinds of values and modifiers.",
  [K+"caller_preferences.rs"],[("AcceptContact::matches, RejectContact::matches, score_contacts, RequestDisposition",K+"caller_preferences.rs")])
p("C02","Advertised capabilities read back from Contact parameters and match",
  "A capability set holds for each feature the value last added and nothing that was refused (malformed or over-long tokens and strings, over-long lists). Written as Contact parameters and read back it is the same set, except that FALSE is left out, a token that reads as a decimal number becomes that number, and the value of a list feature becomes a list; unknown parameters are ignored, names compare without case, and a malformed or badly quoted value refuses the whole. A set satisfies a requirement exactly if it has every required feature with an agreeing value: same kind and equal, tokens without case, a list containing all required tokens.",
  ["inputs","histories"],"every set of features and values of each kind, every parameter text, every required set",
  "Tests convert one value of each kind; the round trip and the matching hold over all values, texts and sets.",
  [K+"capabilities.rs"],[("FeatureValue, CapabilitySet",K+"capabilities.rs")])
p("P01","The privacy service removes what identifies the user, and only that",
  "A Privacy value is read as its list of known kinds (a known list, letter case and blanks aside) or refused, and 'none' excludes every other kind; what is asked is what the first Privacy line says. Asking for identity (or user) privacy leaves one anonymous From and one anonymous Contact in place of those present, keeping only the header parameters of the first address, and removes asserted and preferred identities; asking for header (or user) privacy removes exactly Subject, Call-Info, Organization, User-Agent, Reply-To, In-Reply-To and Server. Whatever the message, nothing else is changed, added or removed, and an address longer than the limit is an error instead of a leak.",
  ["inputs","configurations"],"every message (any headers, repeated, in any letter case, any quoting and lists of addresses) and every combination of privacy kinds",
  "Tests anonymize a handful of well-formed messages; that nothing identifying survives and nothing else changes is a claim over all messages.",
  [K+"privacy.rs"],[("enforce_privacy, apply, parse_privacy_header, requires_privacy",K+"privacy.rs")])
p("P02","Asserted and preferred identities read back exactly as they were set",
  "An identity (display name, URI, parameters) set on a P-Asserted-Identity or P-Preferred-Identity value and written to a message reads back, from any number of lines and in order, with the same name, URI and parameters; no name or parameter value can add an identity or parameter of its own. Values that cannot be written safely (control characters, over-long or unbalanced texts, too many parameters or identities, names that are not tokens, repeated names) are refused when set, and lines that cannot be read completely are an error. The first SIP and the first telephone identity are the ones reported.",
  ["inputs","histories"],"every name, URI, parameter list and number of identities and lines, with any quotes, escapes, delimiters and blanks",
  "Tests write one name and one parameter; injection through quotes, escapes and delimiters needs all texts.",
  [K+"p_headers.rs","crates/sip-parse/src/header_values.rs"],[("PAssertedIdentityHeader, PPreferredIdentityHeader, PIdentity",K+"p_headers.rs"),("parse_p_asserted_identity","crates/sip-parse/src/header_values.rs")])
p("H01","Address headers are read as written and written as they are read",
  "From, To, Contact, Route, Path, Service-Route, Call-Info, History-Info, Geolocation and Referred-By values are read as exactly their addresses in order, over all their lines: the display name unquoted and unescaped, the URI without headers, the parameters with names in lower case and values unquoted. Delimiters inside quotes or angle brackets do not separate. What is built from names, URIs and parameters and written reads back as the same addresses; nothing in a name or value can add an address or parameter. Values beyond the limits, with control characters, invalid parameter names or repeated names are refused when built. Tags, loose routing, history indexes and the Referred-By content id are reported accordingly.",
  ["inputs"],"every list of addresses, each with any name, URI and parameters, in any quoting and split over any number of lines",
  "Tests read and write a few plain addresses of each kind; agreement of writing and reading under quoting and lists is a claim over all texts.",
  [K+"name_addr.rs",K+"route.rs",K+"service_route.rs",K+"history_info.rs",K+"geolocation.rs",K+"referred_by.rs","crates/sip-parse/src/header_values.rs"],[("NameAddr, RouteHeader, PathHeader, ServiceRouteHeader",K),("parse_from_header, parse_contact_header, parse_route_headers, parse_history_info, parse_geolocation_header","crates/sip-parse/src/header_values.rs")])
p("H02","Parameterised header values are read as written and refuse injection",
  "Event, Subscription-State, Reason, Replaces, P-Access-Network-Info, P-Visited-Network-ID, Geolocation-Error, Geolocation-Routing and media type values are read as exactly their main value and parameters: parameter names in lower case, blanks around them dropped, quoted values unquoted and unescaped, delimiters inside quotes not separating. A Reason, Replaces or media type value that can be built is written as text that reads back equal: no value can add a parameter, a header or a line. Values beyond the limits, with control characters, names or tokens that are not tokens, repeated names, missing or repeated Replaces tags, are refused both when built and when read (Geolocation-Error and Geolocation-Routing instead read what is valid of them). Known states and protocols are recognised in any case; the cause, text, event id and the texts of Q.850 causes and SIP status codes are reported as defined.",
  ["inputs"],"every main value and every list of parameters, with any quotes, escapes, delimiters, blanks and lengths",
  "Tests use one plain value per header; agreement of writing and reading, and refusal of injected delimiters, is a claim over all texts.",
  [K+"event.rs",K+"reason.rs",K+"replaces.rs",K+"mime.rs",K+"p_headers.rs",K+"geolocation.rs","crates/sip-parse/src/header_values.rs"],[("EventHeader, SubscriptionStateHeader",K+"event.rs"),("ReasonHeader",K+"reason.rs"),("ReplacesHeader",K+"replaces.rs"),("MimeType",K+"mime.rs"),("parse_event_header, parse_subscription_state, parse_p_access_network_info, parse_p_visited_network_id, parse_geolocation_error, parse_geolocation_routing, parse_mime_type","crates/sip-parse/src/header_values.rs")])
p("H03","Plain typed header values accept exactly their form and read back the same",
  "Token lists (Allow, Supported), SIP-ETag and SIP-If-Match, Resource-Priority, Priority, Subject, Refer-Sub, RSeq, RAck and Date values accept exactly their grammar within the documented limits and refuse all else, and what can be built is written as text that reads back equal. Numbers beyond 31 bits, zero, signs or trailing text are refused; the next RSeq is one more and never wraps. Methods and tokens in lists are found in any case; entity tags match only when identical. A Date stands for exactly its moment (leap years, month lengths, weekday); one that is no real date stands for none. Passing a request on lowers Max-Forwards by exactly one (69 when absent), refuses to go below zero and reports values that are no number. A Via branch is valid exactly when it starts with z9hG4bK, has more, is a token and is at most 256 long.",
  ["inputs"],"every text and every number offered to each header, up to beyond its limits",
  "Tests try a handful of values; that every other text is refused and every accepted one reads back is a claim over all texts.",
  [K+"token_list.rs",K+"sip_etag.rs",K+"resource_priority.rs",K+"priority.rs",K+"subject.rs",K+"refer_sub.rs",K+"rseq.rs",K+"date.rs",K+"max_forwards.rs","crates/sip-parse/src/header_values.rs"],[("TokenList","crates/sip-core/src/token_list.rs"),("SipETagHeader, SipIfMatchHeader",K+"sip_etag.rs"),("ResourcePriorityHeader",K+"resource_priority.rs"),("RSeqHeader, RAckHeader",K+"rseq.rs"),("DateHeader",K+"date.rs"),("decrement_max_forwards, is_valid_branch",K+"max_forwards.rs")])
p("B01","Text message bodies read back what they were built from and never split",
  "CPIM messages (RFC 3862), message summaries (RFC 3842) and message fragments (RFC 3420) hold exactly what was put in them, in order, and written as text they read back the same, whatever the values (blanks around a value may go). CPIM header values may hold any text: quotes, backslashes, tabs and line breaks are escaped when written and restored when read, so a value never adds a header line or ends the section; parameters follow the colon; names, parameters, content headers and content type that cannot be written are refused; the body is taken exactly as it stands. In a message summary each message's headers form their own group, counts are read with and without urgent numbers, totals add up and stop at the largest number instead of wrapping, and a summary without its status line is refused. A fragment carries a body only with a Content-Type and the matching Content-Length. Limits on sizes and numbers of headers hold on every path.",
  ["inputs"],"every text, header, count and body built into or read from these documents",
  "Tests read a handful of sample documents; that every value survives being written and read, and that none can forge a line, is a claim over all values.",
  [K+"cpim.rs",K+"message_waiting.rs",K+"sipfrag.rs"],[("CpimMessage, parse_cpim",K+"cpim.rs"),("MessageSummary, parse_message_summary",K+"message_waiting.rs"),("SipFrag",K+"sipfrag.rs")])
p("B02","Presence, watcher and registration documents are exact, escaped XML",
  "Presence documents (PIDF, RFC 3863), watcher information (RFC 3858) and registration information (RFC 3680) hold exactly what was put in, in order. What is written is well-formed XML in which every text and attribute value is exactly the one put in, whatever characters it contains (none can add an element or attribute), with each optional part present exactly when it was set, in the order of the schema. PIDF and watcher documents read back the same, and are read with any order of attributes, either kind of quotes, any blanks between attributes and around element texts, unknown attributes, empty elements, entities and character references. Documents without a required attribute, with an unknown status, event or state, with two contacts or timestamps in a tuple, with unclosed elements, with too long or control characters, or beyond the limits (50 tuples, 10 and 20 notes, 100 lists, 1000 watchers, 100 registrations, 50 contacts) are refused and leave what there was unchanged.",
  ["inputs"],"every document built from any texts, and every layout in which it may be written",
  "Tests write and read a few documents of harmless texts; that no text can break out of its place and every layout reads the same is a claim over all of them.",
  [K+"presence.rs",K+"watcher_info.rs",K+"reg_event.rs"],[("PresenceDocument, Tuple, parse_pidf",K+"presence.rs"),("WatcherinfoDocument, parse_watcherinfo",K+"watcher_info.rs"),("RegInfo, Registration, Contact",K+"reg_event.rs")])
p("C03","Security agreement offers are exact and the best common mechanism is chosen",
  "Security-Client, Security-Server and Security-Verify headers (RFC 3329) hold exactly the mechanisms and parameters put in, in order; what is written reads back the same. A mechanism or parameter name that is no token of 1..64 characters, a value that is too long (256), has control characters, or would read as something else (separators outside closed quotes, blanks around it), a 21st parameter or an 11th mechanism is refused and leaves everything unchanged. Names of mechanisms and parameters are compared without regard to case and setting a parameter again replaces it. The preference is the q parameter between 0 and 1 (with up to three decimals); one that is no such number is ignored, and without one it is 0.001. Ordering by preference lists every entry once, the preferred first and equal ones in their order. The best match is an entry of the server whose mechanism the client offers too, with the greatest product of the two preferences, the first of equal ones, and there is none exactly when no mechanism is common. Security-Verify matches exactly the server entries whose mechanism it lists.",
  ["inputs","histories"],"every list of mechanisms, parameters and preferences of both sides",
  "Tests negotiate a handful of pairs; that the choice is the best common one, and that no value can add a parameter or mechanism, is a claim over all lists.",
  [K+"security.rs"],[("SecurityEntry, Security*Header, find_best_match, parse_security_*",K+"security.rs")])
p("H04","Via headers and credentials are read as written and refuse injection",
  "A Via header (RFC 3261) is exactly SIP/2.0/transport, a sent-by (host, host:port, [IPv6] or [IPv6]:port with a port of 1..65535) and at most 20 parameters whose names (tokens of 1..64 characters, compared without regard to case) occur once; anything else is refused, among it a comma list of several Vias. A parameter value is kept as written, up to 256 characters, with separators only inside closed quotes, so that no value can add a parameter or a header, and whatever a Via is built from or read from reads back the same after it is written. Adding a name that is there is refused, setting one replaces it, and a refused step changes nothing. Credentials (Authorization, Proxy-Authorization) have a token as scheme and up to 30 parameters with unique token names (case ignored) and values of at most 256 characters without line breaks; a quoted value is the text between its quotes, its commas and equal signs included. What is written reads back with the same scheme, names and values (quotes and backslashes in a value come back with their escapes), whatever the values contain; Digest's username, realm, nonce, uri, response, opaque and cnonce are quoted, its algorithm, qop, nc, stale and userhash tokens are not. Unclosed quotes, a parameter without value and repeated names are refused.",
  ["inputs","histories"],"every header text and every sequence of adding, setting and re-reading parameters, at and around the limits",
  "Tests try a few headers; that no parameter value whatever can split into another parameter, header or credential, and that all else reads back, is a claim over every text.",
  [K+"via.rs",K+"auth.rs","crates/sip-parse/src/header_values.rs"],[("ViaHeader::parse / with_param / set_param",K+"via.rs"),("AuthorizationHeader",K+"auth.rs"),("parse_authorization_header","crates/sip-parse/src/header_values.rs")])
F="crates/sip-transport/src/"
p("F01","A TCP stream is cut into exactly its messages however it arrives",
  "What arrives on a TCP connection, accepted by the listener or opened by the connection pool, is delivered as exactly the messages it consists of, byte for byte and in order, as soon as the last byte of each is there, and marked with the peer it came from; it makes no difference into which pieces the stream was cut on the way or what arrives on other connections. A message is its header block up to an empty line and as many bytes of body as its Content-Length says (long or compact name, any case; header lines that repeat it must agree; neither the start line nor a continued header line counts as one); line breaks before a message are keep-alives and ignored. After the last complete message a connection whose next message has no Content-Length, one that is no number, different ones, more than 64 KiB of header or more than 10 MiB of body delivers nothing more and is closed; messages up to these sizes are delivered. An incomplete message is dropped when the peer closes. What is sent in answer to a message reaches its peer on the same connection. An accepted connection is closed after 60 seconds of silence until its first message is complete and after 1800 seconds from then on, and at most 64 are served per peer address, ended ones not counted.",
  ["inputs","schedules","histories"],"every stream of messages and keep-alives in every cutting, over several connections at once, with silences and closing at any point",
  "Tests split whole buffers in one call; that no segmentation, pipelining or disguised length changes what is delivered is a claim over all streams and schedules.",
  [F+"lib.rs",F+"pool.rs"],[("run_tcp, spawn_stream_session, drain_sip_frames",F+"lib.rs"),("ConnectionPool::send_tcp (reader)",F+"pool.rs")])
p("F02","Pooled connections carry every accepted message once, within the limit",
  "A message the connection pool accepts for a peer arrives there exactly once and whole, messages sent one after the other in their order, over the one pooled connection to that peer; it is opened when there is none, also when several sends start at the same time, and used again as long as it lasts. When a peer cannot be reached the send fails. A connection that the peer closes leaves the pool at once, and the next send opens a fresh one. At most the configured number is kept: for a new connection to another peer the idle ones are given up or else the least recently used (a tenth of the limit, at least one), nothing else is, and with a limit of zero sends fail. Cleaning up removes exactly the connections unused for longer than the idle time. What is given up is closed and reported as closed. A keep-alive of two line breaks is sent once per interval since the last message, and never when switched off. A peer that does not read holds up nobody but the senders to it, and what was accepted for it arrives once it reads again.",
  ["schedules","histories","configurations"],"every history of sends (also at once), closings, silences and unreachable peers, at and around the limit",
  "Tests put fake entries into the table; that no schedule of opening, closing and eviction loses, duplicates or blocks a message is a claim over all histories.",
  [F+"pool.rs"],[("ConnectionPool",F+"pool.rs"),("spawn_writer_supervisor",F+"pool.rs")])
if __name__=="__main__":
    out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
    with open(out,"w") as f:
        for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
    print(len(P),"properties")
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
