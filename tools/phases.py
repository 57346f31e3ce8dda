# property -> phases (Test functions of the harness), and how cases are made
PHASES, RULES = {}, {}
def prop(id, rule, *phases):
    PHASES[id] = list(phases)
    RULES[id] = rule
def ph(test, race=False, quick=1, thorough=1):
    return dict(test=test, race=race, reps=dict(quick=quick, thorough=thorough))

prop("C01", "random operation histories over random buffer geometries (allocated, reserved, wrapping slices), all observable state compared with a model after every operation; distinct = different geometry/history",
     ph("C01"))
prop("C02", "every fill level of small buffers x every integer operation, value sweeps, random histories; raw bytes compared with an independent encoder; distinct = different level, width or history",
     ph("C02"))
prop("C03", "random transfer histories with readers/writers that give short counts and errors with and without data and scribble over the space offered; distinct = different history",
     ph("C03"))
prop("C04", "families of copy-on-write/direct-copy snapshots under random operations, each member compared with its own model after every step (sequential) and with one goroutine per member under the race detector (concurrent); distinct = different family history with at least one snapshot",
     ph("C04seq"), ph("C04conc", race=True, thorough=2))
prop("C05", "every segmentation of short message sequences, random messages/segmentations/cache capacities driven through the decoder between two probes with the delivered set checked after every segment, and two whole stacks joined by a connection that cuts and coalesces writes; distinct = different sizes and cuts",
     ph("C05direct"), ph("C05stack", race=True, thorough=2))
prop("C06", "partial segments of several connections (all with the same name) interleaved step by step, fed by one goroutine per connection under the race detector, and through a whole stack with connections ending in mid frame in several ways; distinct = different interleaving",
     ph("C06direct"), ph("C06conc", race=True, thorough=2), ph("C06stack", race=True, thorough=2))
prop("C07", "hostile streams (garbage, truncated, corrupted, oversized, empty frames, disconnects anywhere, any segmentation) against every codec and header combination while another connection carries good traffic and a new one follows; an independent decoder computes what may be delivered; distinct = different composition, stream and cuts",
     ph("C07", race=True, thorough=2), ph("C07raw"))
prop("C08", "messages of exactly limit-12..limit+12 encoded bytes for every codec, MTU and overhead; random round trips with the caller's message, the buffers and the delivered messages scrambled afterwards; refused values, also from endpoints of whole stacks; one codec shared by goroutines under the race detector; distinct = different codec/limits/messages",
     ph("C08"), ph("C08stack", race=True), ph("C08conc", race=True, thorough=2))
prop("C09", "random compositions of processors with every MTU from the overhead up and payload sizes around the limit, wire bytes and delivered messages compared with the declared overhead; distinct = different composition/MTU/sizes",
     ph("C09", race=True, thorough=2))
prop("C10", "random assignments of sessions (0..2^32-1) to endpoints on both sides, several connections, destination choices, missing sessions, replies; each delivery compared with the addressed endpoint and connection; distinct = different assignment and traffic",
     ph("C10", race=True, thorough=2))
prop("C11", "two real stacks over TCP and unix sockets with framing, several endpoints and connections, both directions, slow, bursty and stalled consumers; hours of standstill of consumers and connections in virtual time; every (endpoint, connection) flow is numbered and checked online; distinct = different configuration",
     ph("C11", race=True, thorough=2), ph("C11stall", race=True, thorough=2))
prop("C12", "histories of run/stop/close/send/receive on pairs of reference transports against a queue model checked at every quiescent point; concurrent senders and receivers with one side closed or stopped at a random moment (race detector); whole stacks with random processors exchanging objects of many kinds, identity checked, with restarts; distinct = different history/composition",
     ph("C12direct", race=True, thorough=2), ph("C12conc", race=True, thorough=4), ph("C12stack", race=True, thorough=6))
prop("C13", "every shaping processor, enabled and disabled, between two probes; every outcome vector of up to five filter/forward functions; whole stacks with an echo, discarder, loopback or pass-through processors at random positions, messages up to the size limit; distinct = different processor/outcomes/composition",
     ph("C13direct"), ph("C13stack", race=True, thorough=6))
prop("C14", "concurrent endpoint senders and connection feeders with collection requests (and peers' responses) mixed in, counter enabled/disabled between rounds; exact counts, answering connection and name checked at every quiescent point, monotony in between; distinct = different configuration and counts",
     ph("C14", race=True, thorough=6))
prop("C15", "virtual-time schedules of heartbeats (gaps just below the timeout, long silences, application data in between, stuck readers and writers, every way of closing) on many connections; loss reports, closings and sent heartbeats compared with the schedule; pairs of stacks watching each other; distinct = different settings and schedule",
     ph("C15", race=True, thorough=6), ph("C15pair", race=True, thorough=4))
prop("C16", "pairs of stacks with heartbeat/statistics/load-balancer processors in any order exchanging payloads that look like control messages over cut and coalesced connections in virtual time; streams with control messages of any form injected at any layer; reference connections with these processors; distinct = different composition and traffic",
     ph("C16", race=True, thorough=6))
prop("C17", "connections ending by one or several causes at the same moment (local/peer close, read failure with and without data, write failure, heartbeat loss, removal, bad frame, closes from listeners, stuck readers), every observer's trace checked: one announcement before the first data, one closed event after the last; real TCP, unix and reference connections under the race detector; distinct = different causes",
     ph("C17", race=True, thorough=4), ph("C17sock", race=True, thorough=4))
prop("C18", "random histories of adding, removing, re-adding (also from listeners), redundant calls, second endpoints with a session, full receive queues, stuck writers, with traffic checked for every endpoint in every state; goroutines adding and removing endpoints beside steady request/response traffic; endpoints removed at the moment their last messages are taken, 4000 times per case, with messages queued straight after; distinct = different history",
     ph("C18", race=True, thorough=3), ph("C18conc", race=True, thorough=3), ph("C18cut"))
prop("C19", "TCP and unix server transports stopped before listening, while accepting, with queued and active connections, twice, concurrently, and restarted on the same address; transports added to and removed from running stacks (server and client side) beside traffic on another transport; address, socket file and every raw peer connection probed after each stop; distinct = different stop history",
     ph("C19", race=True, thorough=4))
prop("C20", "random histories of publishing, adding, removing, re-adding and redundant calls on one stack (before and after Run), with parties reacting to events by publishing and registering, and several goroutines at once; every party's log is matched against the publication and registration intervals (exactly once, order per publisher, nothing else); distinct = different history",
     ph("C20", race=True, thorough=2), ph("C20conc", race=True, thorough=3))
prop("C21", "histories of arrivals, setting, replacing, clearing (also from inside the listener), slow listeners and direct reads, with handled+queued compared with what was queued at every quiescent point; free-running producers and setters with listeners that use unprotected state under the race detector; distinct = different history",
     ph("C21", race=True, thorough=2), ph("C21conc", race=True, thorough=3))
prop("C23", "random interleaved chains of every setter on every kind of object (library's and user-derived processors and features), all getters of all objects compared with models after each call; option values of 18 types against the parsers; behaviour with wrongly typed options compared with an object without the option, and with right ones measured (virtual time); distinct = different objects/calls",
     ph("C23"), ph("C23effect", race=True, thorough=2))
prop("C24", "client transports in virtual time against a watched server socket that appears (or not) at a random moment, stopped at a random moment, restarted; delivery and give-up times compared with the retry schedule and connections counted exactly with a marker connection; stops while attempts hang on a full queue and at any moment of a successful one (race detector); distinct = different schedule",
     ph("C24", race=True, thorough=3), ph("C24hang", race=True, thorough=3))
prop("C25", "cycles of adding endpoints and transports, connections with traffic, backlogs, stuck and failing writes ending in every way, heartbeat and collection senders, and removal in any order; the goroutines the library started (all stacks dumped) and the socket descriptors of the process must be back at the count before; in stacks and servers that run on, weak references tell how many ended connections and removed endpoints and transports are still held; distinct = different composition and endings",
     ph("C25", race=True, thorough=4), ph("C25keep", thorough=2), ph("C25sock", race=True, thorough=2))
prop("C22", "stacks over socket, pipe and reference transports where application goroutines send, receive, close connections, publish, add/remove endpoints and transports and query, with listeners doing the same, all at once under the race detector with a stall watchdog; each processor alone between goroutines of endpoints, connections and publishers; distinct = different mix of operations and composition",
     ph("C22", race=True, thorough=3), ph("C22proc", race=True, thorough=2))
prop("C26", "random chains of probes and library processors that must pass references through; each message carries an itinerary (consumed, passed on twice, later or turned back at one probe) and logs every hop with its neighbour's mark; connections with waiting data and slow set-up; distinct = different chain, itineraries and traffic",
     ph("C26", race=True, thorough=2))
prop("C27", "virtual-time schedules of connections coming and going (several at once, some with stuck writes) for intervals of 1 s to 50 min and values that are no interval, with application traffic; two stacks polling each other; the time of every request written is compared with the schedule; distinct = different settings and schedule",
     ph("C27", race=True, thorough=2))
prop("C28", "bursts of 20 to 170 clients (some leaving at once) at TCP and unix server transports taken late, slowly or by several goroutines, each client's number exchanged both ways; descriptors exhausted (own process limit) while clients connect and given back; distinct = different burst or exhaustion history",
     ph("C28", race=True, thorough=2))
