# Chains -------------------------------------------------------------------------------------------------------------
ch = 'chains'
check('C01',
  H('VP_C01_history', ch, dict(n=4), dict(n=5), 40, 500, 'block,micro', 'histories of n blocks and micro-blocks over every tree shape, 2 peers, 2 generators, timestamps < 2^47, base targets of 3 values'),
  H('VP_long_branch', ch, dict(d=300, lens=3), dict(d=600), 60, 300, 'branch', 'a chain of d blocks and a branch of 1 to 260 blocks parting at one of twelve heights'),
  H('VP_again', ch, dict(q=1, n=2), dict(q=1, n=3), 60, 300, 'end', 'the answers before and after each of n events (blocks, micro-blocks, moved leashes, repetitions, refusals) on a small tree'),
  note='bounded: all histories up to the stated length; symbolic timestamps and base targets; the key-value store is modelled')
check('C02',
  H('VP_C02_unlinkable', ch, dict(n=2), dict(n=3), 40, 400, 'parent,ref', 'arbitrary 256/512-bit IDs after every history of n events'),
  H('VP_C02_known', ch, dict(n=3), dict(n=4), 30, 300, 'known,unknown', 'arbitrary ID after every history of n events'),
  H('VP_C02_again', ch, dict(n=2), dict(n=3), 40, 400, 'block again,micro again', 'any known block delivered again with any content'),
  H('VP_again', ch, dict(q=2, n=2, faults=1, queries=1, reads=1), dict(q=2, n=3, faults=1, queries=1, reads=1), 60, 300, 'unread,unwritten,end', 'the answers before and after each of n events (blocks, micro-blocks, moved leashes, repetitions, refusals, failing reads and writes) on a small tree'),
  note='bounded: identifiers fully symbolic, histories up to the stated length')
check('C03',
  H('VP_C03_tree', ch, dict(n=4), dict(n=5), 30, 300, 'pair', 'all pairs of blocks of all trees of n events'),
  H('VP_C03_deep', ch, dict(trunk=9, a=9, b=9), dict(trunk=33, a=17, b=17), 40, 400, 'pair', 'all pairs of blocks of two branches of lengths a and b parting at any height of a trunk'),
  H('VP_C03_line', ch, dict(d=18), dict(d=66), 30, 300, 'ancestor,micro', 'all ancestors of a block of a chain of d blocks'),
  H('VP_long_branch', ch, dict(d=300, lens=4), dict(d=1100), 60, 300, 'branch', 'a chain of d blocks and a branch of 1 to 260 blocks parting at one of twelve heights'),
  note='bounded tree sizes and chain lengths')
check('C04',
  H('VP_C04_lcb', ch, dict(n=2, peers=2), dict(n=3, peers=3), 40, 600, 'lcb', 'trees of n events, symbolic scores, any leashes, all map orders'),
  H('VP_C04_lcb', ch, dict(n=3, peers=3, orders=0, micros=0), dict(n=4, peers=3, orders=0), 60, 600, 'lcb', 'trees of n events, symbolic scores, any leashes, one map order'),
  H('VP_wide_peers', ch, dict(w=300), dict(w=600), 60, 300, 'peer', 'a store of w branches and w peers of which the weight of one block is free'),
  H('VP_again', ch, dict(q=4, n=2, targets=2), dict(q=4, n=3, targets=2, peers=3), 60, 300, 'end', 'the answers before and after each of n events (blocks, micro-blocks, moved leashes, repetitions, refusals) on a small tree'),
  H('VP_crowded', ch, dict(w=300), dict(w=600), 60, 300, 'crowded', 'w peers of which all but a few have their leashes on one of three blocks, the heaviest or not'),
  note='bounded tree size and number of peers; scores symbolic over 2 base targets; enumeration order of maps symbolic')
check('C05',
  H('VP_C05_forks', ch, dict(n=2, peers=3), dict(n=3, peers=3), 40, 600, 'all,some', 'trees of n events, symbolic scores, any leashes, any selection of peers'),
  H('VP_C05_none', ch, {}, {}, 20, 60, 'none', 'a store without leashes'),
  H('VP_wide_forks', ch, dict(w=300), dict(w=600), 80, 300, 'report', 'a store of w branches and w peers of which the weight of one block is free; four selections of peers'),
  H('VP_again', ch, dict(q=5, n=2, targets=2), dict(q=5, n=2, targets=2, peers=3), 60, 300, 'end', 'the answers before and after each of n events (blocks, micro-blocks, moved leashes, repetitions, refusals) on a small tree'),
  H('VP_crowded', ch, dict(w=300), dict(w=600), 60, 300, 'crowded', 'w peers of which all but a few have their leashes on one of three blocks, the heaviest or not'),
  note='bounded tree size and number of peers; scores symbolic over 2 base targets')
check('C06',
  H('VP_C06_fork', ch, dict(n=2, peers=3), dict(n=3, peers=3), 40, 600, 'compared', 'trees of n events, symbolic scores, any leashes'),
  H('VP_wide_peers', ch, dict(w=300), dict(w=600), 60, 300, 'peer', 'a store of w branches and w peers of which the weight of one block is free'),
  H('VP_again', ch, dict(q=6, n=2, targets=2), dict(q=6, n=3, targets=2, peers=3), 60, 300, 'end', 'the answers before and after each of n events (blocks, micro-blocks, moved leashes, repetitions, refusals) on a small tree'),
  H('VP_crowded', ch, dict(w=300), dict(w=600), 60, 300, 'crowded', 'w peers of which all but a few have their leashes on one of three blocks, the heaviest or not'),
  note='bounded tree size and number of peers; scores symbolic over 2 base targets')
check('C07',
  H('VP_C07_leashes', ch, dict(n=2, peers=2), dict(n=4, peers=2), 40, 400, 'checked', 'n operations of peers with arbitrary IPv4 and IPv6 addresses'),
  H('VP_wide_heads', ch, dict(w=300), dict(w=600), 60, 300, 'reopened', 'a store of w branches and w peers of which the weight of one block is free, before and after reopening'),
  H('VP_again', ch, dict(q=7, n=2), dict(q=7, n=3), 60, 300, 'end', 'the answers before and after each of n events (blocks, micro-blocks, moved leashes, repetitions, refusals) on a small tree'),
  H('VP_crowded', ch, dict(w=300), dict(w=600), 60, 300, 'crowded', 'w peers of which all but a few have their leashes on one of three blocks, the heaviest or not'),
  note='addresses fully symbolic; number of operations bounded')
check('C08',
  H('VP_C08_heads', ch, dict(n=3), dict(n=5), 40, 400, 'head', 'every history of n events of 2 peers'),
  H('VP_C08_history', ch, dict(n=5), dict(n=6), 40, 400, 'step', 'every history of n events, checked after each'),
  H('VP_wide_heads', ch, dict(w=300), dict(w=600), 60, 300, 'reopened', 'a store of w branches and w peers of which the weight of one block is free, before and after reopening'),
  H('VP_again', ch, dict(q=8, n=2), dict(q=8, n=3), 60, 300, 'end', 'the answers before and after each of n events (blocks, micro-blocks, moved leashes, repetitions, refusals) on a small tree'),
  note='bounded histories')
check('C09',
  H('VP_C09_score', ch, dict(n=2), dict(n=5), 60, 400, 'score', 'chains of n blocks with arbitrary 64-bit base targets'),
  note='base targets range over all 64-bit values; chain length bounded')
check('C10',
  H('VP_C10_ids', ch, dict(n=4), dict(n=5), 40, 400, 'genesis,cut', 'any 64-bit count, every block of every tree of n events'),
  H('VP_C10_line', ch, dict(d=70), dict(d=260), 60, 400, 'genesis,cut', 'any 64-bit count, four topmost blocks of a chain of d blocks with micro-blocks'),
  H('VP_C10_unknown', ch, dict(n=2), dict(n=3), 20, 100, 'unknown', 'arbitrary unknown ID and count'),
  H('VP_long_branch', ch, dict(d=300, lens=3), dict(d=600), 60, 300, 'branch', 'a chain of d blocks and a branch of 1 to 260 blocks parting at one of twelve heights'),
  H('VP_again', ch, dict(q=10, n=2), dict(q=10, n=3), 60, 300, 'end', 'the answers before and after each of n events (blocks, micro-blocks, moved leashes, repetitions, refusals) on a small tree'),
  note='counts range over all 64-bit values; tree size bounded')
check('C11',
  H('VP_C11_generators', ch, dict(n=3), dict(n=4), 40, 400, 'counted', 'any 64-bit count, every block of every tree of n events, 3 generators'),
  H('VP_C11_line', ch, dict(d=70), dict(d=260), 60, 400, 'counted', 'any 64-bit count, four topmost blocks of a chain of d blocks with micro-blocks'),
  H('VP_C10_unknown', ch, dict(n=2), dict(n=3), 20, 100, 'unknown', 'arbitrary unknown ID and count'),
  H('VP_long_branch', ch, dict(d=300, lens=2), dict(d=600), 60, 300, 'branch', 'a chain of d blocks and a branch of 1 to 260 blocks parting at one of twelve heights'),
  H('VP_many_generators', ch, dict(d=300), dict(d=1000), 30, 300, 'generators', 'a chain of d blocks of as many generators'),
  H('VP_again', ch, dict(q=11, n=2), dict(q=11, n=3), 60, 300, 'end', 'the answers before and after each of n events (blocks, micro-blocks, moved leashes, repetitions, refusals) on a small tree'),
  note='counts range over all 64-bit values; tree size bounded')
check('C12',
  H('VP_C12_stats', ch, dict(d=7), dict(d=12), 40, 400, 'long,short', 'two branches of 0..d blocks with symbolic base targets on a trunk of 0..2, with and without a third peer'),
  H('VP_C05_none', ch, {}, {}, 20, 60, 'none', 'a store without leashes'),
  H('VP_long_branch', ch, dict(d=300, lens=5), dict(d=600), 60, 300, 'branch', 'a chain of d blocks and a branch of 1 to 260 blocks parting at one of twelve heights'),
  H('VP_wide_forks', ch, dict(w=140), dict(w=600), 60, 300, 'report', 'a store of w branches and w peers of which the weight of one block is free; four selections of peers'),
  H('VP_again', ch, dict(q=12, n=1), dict(q=12, n=2), 60, 400, 'long,end', 'the answers before and after each of n events (blocks, micro-blocks, moved leashes, repetitions, refusals) on a small tree'),
  note='branch lengths bounded around the threshold')
check('C13',
  H('VP_C13_deliver', ch, dict(n=1), dict(n=3), 40, 600, 'crash,failure,recorded,not recorded', 'one delivery interrupted at any write by an error or a crash before or after it, after every history of n events'),
  H('VP_C13_init', ch, {}, {}, 20, 60, 'crash,failure', 'the first opening interrupted at any write'),
  H('VP_C13_sequence', ch, dict(n=3), dict(n=4), 40, 400, 'crash,failure', 'n deliveries interrupted at any write and repeated'),
  H('VP_again', ch, dict(q=0, n=1, faults=1), dict(q=0, n=2, faults=1), 60, 300, 'unread,unwritten,end', 'the answers before and after each of n events (blocks, micro-blocks, moved leashes, repetitions, refusals, failing reads and writes) on a small tree'),
  note='every crash point and write failure within the bounds; a batch is assumed to be written atomically and durably (goleveldb journal)')
check('C14',
  H('VP_C14_reopen', ch, dict(n=3), dict(n=4), 40, 400, 'other,reopened', 'reopening at every point of every history of n events'),
  H('VP_again', ch, dict(q=0, n=1, reopen=1), dict(q=0, n=3, reopen=1), 60, 300, 'reopened,end', 'the answers before and after each of n events (blocks, micro-blocks, moved leashes, repetitions, refusals, restarts) on a small tree'),
  note='bounded histories')
check('C15',
  H('VP_C15_orders', ch, dict(n=2, preempt=1), dict(n=2, preempt=3), 150, 800, 'end', 'any n operations of 28 kinds in parallel against all their sequential orders, all schedules with at most preempt preemptions; data races are reported'),
  H('VP_C15_orders', ch, dict(n=3, preempt=0), dict(n=3, preempt=0), 1, 800, 'end', 'the same with three operations', only='thorough'),
  H('VP_C15_deliveries', ch, dict(preempt=0), dict(preempt=3), 60, 700, 'first,second', 'two deliveries and one query in parallel, all schedules with at most preempt preemptions; data races are reported'),
  note='threads, operations and preemptions bounded')
check('C16',
  H('VP_C16_hostile', ch, dict(n=1), dict(n=2, small=1), 60, 700, 'accepted,block,micro', 'n deliveries with arbitrary versions, base targets, timestamps, keys, signatures'),
  H('VP_C16_hostile', ch, dict(n=2, small=1), dict(n=1), 60, 300, 'accepted,block,micro', 'n deliveries with arbitrary timestamps and links, extreme base targets'),
  note='all content fields symbolic; number of deliveries bounded')
check('C17',
  H('VP_C17_kinds', ch, {}, {}, 40, 200, 'same,different', 'two blocks and a micro-block with arbitrary 256/512-bit identifiers'),
  note='identifiers range over all values of both kinds')
check('C18',
  H('VP_C18_queries', ch, dict(n=2), dict(n=2), 60, 200, 'reported', 'any one read failing in any of the queries after every history of n events'),
  H('VP_C18_forks', ch, dict(n=2), dict(n=3), 60, 400, 'reported', 'any one read failing in forks, fork, statistics and last common block after every history of n events'),
  H('VP_C18_deliver', ch, dict(n=2), dict(n=3), 60, 400, 'refused', 'any one read failing in a delivery of a block or micro-block, known, linkable or not, after every history of n events'),
  H('VP_C18_open', ch, dict(n=2), dict(n=3), 20, 100, 'refused', 'any one read failing while the store is reopened'),
  H('VP_again', ch, dict(q=0, n=1, faults=1, reads=3, new=1), dict(q=0, n=2, faults=1), 60, 300, 'unread,unwritten,end', 'the answers before and after each of n events (blocks, micro-blocks, moved leashes, repetitions, refusals, failing reads and writes) on a small tree'),
  note='every single failing read within the bounds; histories bounded')
# Peers --------------------------------------------------------------------------------------------------------------
pe = 'peers'
st = dict(synctest=True)
check('P01',
  H('VP_P01_cycle', pe, dict(k=2), dict(k=4), 40, 500, 'cycle', 'k configured versions with arbitrary major, minor and patch numbers, k+1 offers, with and without gossip before', **st),
  H('VP_P01_cycle', pe, dict(k=3), dict(k=3), 40, 300, 'cycle', 'k configured versions with arbitrary major, minor and patch numbers, k+1 offers, with and without gossip before', **st),
  H('VP_P01_states', pe, {}, {}, 20, 60, 'states', 'any patch number of the version connected with', **st),
  H('VP_versions_many', pe, dict(k=400), dict(k=400), 30, 100, 'cycle', 'k configured versions in disorder, some minor versions twice, two full cycles', **st),
  note='version numbers symbolic; number of configured versions bounded')
check('P02',
  H('VP_P02_register', pe, dict(name=1), dict(name=2), 60, 600, 'registered,refused,hostile,declared', 'any two of: arbitrary IPv4/IPv6/own/invalid address, application name, node name (name free bytes), version, declared address', **st),
  H('VP_P05_fault', pe, {}, dict(writes=2), 30, 100, 'crash,failure,uninterrupted', 'one operation interrupted at any write', **st),
  note='addresses and version numbers range over all values; strings bounded')
check('P03',
  H('VP_P03_hostile', pe, dict(n=2), dict(n=3), 60, 600, 'hostile', 'n operations of 11 kinds after eight ways to become hostile', **st),
  H('VP_crowd', pe, dict(n=140), dict(n=600), 60, 300, 'crowd,taken', 'any of six operations of one of the last peers, in any state, of a registry of n peers in all states, free nonce and score', **st),
  H('VP_again', pe, dict(n=2, peers=1, faults=1), dict(n=2, peers=2, faults=1), 60, 500, 'taken,unwritten,end', 'the answers before and after each of n events (connections, disconnections, refusals, hand-outs, scores, gossip, failing writes) on registered peers', **st),
  note='bounded number of operations')
check('P04',
  H('VP_P04_dial', pe, dict(n=2, prior=1), dict(n=3), 80, 800, 'taken', 'two hand-outs after n operations of 10 kinds on 2 peers, one of them in any of 7 prior states, times around the back-off', **st),
  H('VP_P04_self', pe, {}, {}, 20, 60, 'port', 'any port; own address recorded before', **st),
  H('VP_crowd', pe, dict(n=300), dict(n=600), 60, 300, 'crowd,taken', 'any of six operations of one of the last peers, in any state, of a registry of n peers in all states, free nonce and score', **st),
  H('VP_again', pe, dict(n=1, peers=2, takes=1, faults=1, priors=8), dict(n=2, peers=2, takes=1, faults=1, priors=8), 60, 600, 'taken,unwritten,end', 'hand-outs and everything else before and after each of n operations on registered peers, some of which fail to write', **st),
  note='bounded number of operations and peers')
check('P05',
  H('VP_P05_history', pe, dict(n=2, prior=1), dict(n=3), 80, 800, 'connected,hostile,unknown', 'n operations of 11 kinds on 2 peers, one of them in any of 7 prior states, nonces and scores symbolic, records compared before and after reopening', **st),
  H('VP_P05_fault', pe, {}, dict(writes=2), 30, 100, 'crash,failure,uninterrupted', 'one operation interrupted at any write by an error or a crash', **st),
  H('VP_P05_foreign', pe, {}, {}, 30, 100, 'v4,v6', 'look-ups of arbitrary IPv4 and IPv6 addresses', **st),
  H('VP_crowd', pe, dict(n=300), dict(n=600), 60, 300, 'crowd,taken', 'any of six operations of one of the last peers, in any state, of a registry of n peers in all states, free nonce and score', **st),
  H('VP_again', pe, dict(n=1, peers=2, faults=1), dict(n=2, peers=2, faults=1), 60, 500, 'taken,unwritten,end', 'the answers before and after each of n events (connections, disconnections, refusals, hand-outs, scores, gossip, failing writes) on registered peers', **st),
  note='bounded number of operations and peers')
check('P06',
  H('VP_P06_gossip', pe, dict(k=2), dict(k=4), 40, 600, 'added,filtered,duplicate', 'k arbitrary addresses and ports offered to a registry with a known and a hostile peer', **st),
  H('VP_gossip_many', pe, dict(n=150), dict(n=300), 40, 200, 'gossip', 'a list of over n new and old addresses, some twice, offered to a registry of peers in two states', **st),
  note='addresses range over all values; list length bounded')
check('P07',
  H('VP_P07_broadcast', pe, dict(n=3), dict(n=4), 40, 600, 'reached,spared', 'n connections, disconnections, refusals and restarts of 2 peers', **st),
  H('VP_P05_history', pe, dict(n=2), dict(n=3), 60, 800, 'connected,hostile,unknown', 'n operations of 11 kinds on 2 peers, listings compared before and after reopening', **st),
  H('VP_crowd', pe, dict(n=300), dict(n=600), 60, 300, 'crowd,taken', 'any of six operations of one of the last peers, in any state, of a registry of n peers in all states, free nonce and score', **st),
  H('VP_again', pe, dict(n=2, peers=1, faults=1), dict(n=2, peers=2, faults=1), 60, 500, 'taken,unwritten,end', 'the answers before and after each of n events (connections, disconnections, refusals, hand-outs, scores, gossip, failing writes) on registered peers', **st),
  note='bounded number of operations and peers')
check('P08',
  H('VP_P08_concurrent', pe, dict(preempt=1), dict(preempt=2), 60, 800, 'first,second,refused,registered,taken before,taken after', 'twelve pairs of operations and one of four queries in parallel, all schedules with at most preempt preemptions; data races are reported', **st),
  note='threads, operations and preemptions bounded')
check('P09',
  H('VP_P09_requests', pe, dict(k=3), dict(k=6), 40, 400, 'ids,signatures', 'any peer version, lists of up to k arbitrary IDs of both kinds', **st),
  H('VP_requests_many', pe, dict(k=300), dict(k=1000), 30, 100, 'requests', 'a request of k IDs of both kinds and as many single requests', **st),
  note='versions and IDs range over all values; list length bounded')
check('P10',
  H('VP_P10_listings', pe, {}, {}, 40, 100, 'reported,taken', 'any one read failing in any of the listings of a registry of 3 peers in any states', **st),
  H('VP_P10_changes', pe, {}, {}, 30, 100, 'reported,repeated', 'any one read or write failing in any of the changing operations', **st),
  note='every single failing read or write of one operation')
check('P11',
  H('VP_P11', pe, dict(n=3), dict(n=4), 40, 400, 'end,other,own', 'n connections, failures of any connection or attempt, messages of one address', **st),
  H('VP_P11_crossed', '.', dict(n=3), dict(n=5), 40, 300, 'again,broke,connected,end,ended', 'an incoming connection and an attempt to dial crossing in any order, then n failures', **st),
  note='bounded number of connections and failures; the second part goes through the distributor, the respawn and the gowaves stack')
# Loading ------------------------------------------------------------------------------------------------------------
lo = 'loading'
check('L01',
  H('VP_L01', lo, dict(pool=4, offer=4), dict(pool=6, offer=5), 40, 700, 'known,wait', 'any list of up to offer distinct IDs of a pool, any of them known, any leash, after none or one earlier batch'),
  H('VP_big_batch', lo, dict(n=260), dict(n=260, orders=1), 60, 300, 'known,done,fail', 'one or two lists of n IDs of which 0 to n are known, one block late or never, in four orders of arrival', **st),
  H('VP_again', lo, dict(n=2), dict(n=2, peers=3), 60, 400, 'nobody,started,failed,continued,left,shared,end', 'n attempts with peers that come, go, announce scores and get blocks before, between and during the attempts; a real registry and store', **st),
  note='bounded length of the list; what is known is symbolic; the block store is an environment whose answers are free')
check('L02',
  H('VP_L02', lo, dict(offer=3, events=4), dict(offer=4, events=5), 60, 600, 'done', 'lists of up to offer IDs, then events blocks of a pool of 4 in any order, requested or not, repeated or missing'),
  H('VP_L02', lo, dict(offer=3, events=4, pool=3, lead=1), dict(offer=4, events=5, lead=1), 40, 600, 'done', 'the same with any of the IDs known before'),
  H('VP_big_batch', lo, dict(n=260), dict(n=260, orders=1), 60, 300, 'known,done,fail', 'one or two lists of n IDs of which 0 to n are known, one block late or never, in four orders of arrival', **st),
  note='bounded length of the list and number of deliveries')
check('L03',
  H('VP_L03', lo, dict(pool=3), dict(pool=7), 40, 600, 'wait,fail', 'any waiting time up to 100 s in nanoseconds, before and after the IDs arrived, any subset of blocks received, after none or one earlier batch', **st),
  H('VP_big_batch', lo, dict(n=260), dict(n=260, orders=1), 60, 300, 'known,done,fail', 'one or two lists of n IDs of which 0 to n are known, one block late or never, in four orders of arrival', **st),
  note='the waiting time is symbolic; length of the list bounded')
check('L04',
  H('VP_L04', lo, dict(events=4), dict(events=5), 40, 600, 'ok,fail,timeout', 'every sequence of the given number of events of 5 kinds'),
  H('VP_L04', lo, dict(events=3, faults=8), dict(events=4, faults=10), 60, 600, 'ok,fail,timeout', 'the same with any operation of the store failing, or any block refused by it'),
  note='bounded number of events')
check('L05',
  H('VP_L05', lo, {}, {}, 20, 60, 'end', 'start and restart with any leash, last common block and answer of the store'),
  H('VP_L08', lo, dict(rounds=12), dict(rounds=24), 40, 200, 'restart,success', 'a real registry and store', **st),
  H('VP_big_sync', lo, dict(peers=70, batches=3), dict(peers=300, batches=5), 60, 300, 'synchronised', 'full batches of 100 blocks of one of many connected peers, at four heights', **st),
  H('VP_again', lo, dict(n=2), dict(n=2, peers=3), 60, 400, 'nobody,started,failed,continued,left,shared,end', 'n attempts with peers that come, go, announce scores and get blocks before, between and during the attempts; a real registry and store', **st),
  note='bounded number of downloads; the history carried over is bounded to 2 IDs in the first part')
check('L06',
  H('VP_L06', lo, dict(peers=2), dict(peers=3), 60, 800, 'first,other,nobody,loaded', 'any scores up to 65 bits, any leashes on a chain of 3 blocks, connected or not, then anything from anybody', **st),
  H('VP_big_sync', lo, dict(peers=70, batches=3), dict(peers=300, batches=5), 60, 300, 'synchronised', 'full batches of 100 blocks of one of many connected peers, at four heights', **st),
  H('VP_again', lo, dict(n=2), dict(n=2, peers=3), 60, 400, 'nobody,started,failed,continued,left,shared,end', 'n attempts with peers that come, go, announce scores and get blocks before, between and during the attempts; a real registry and store', **st),
  note='number of peers bounded; scores symbolic; the random choice among lagging peers is free')
check('L07',
  H('VP_L07_stuck', lo, dict(events=2), dict(events=4), 40, 600, 'next', 'every sequence of events of 6 kinds of 2 peers after the first download started', **st),
  H('VP_L07_stuck', lo, dict(events=2, reads=20), dict(events=2, reads=40), 150, 400, 'next,fault', 'the same with any one read of the databases failing', **st),
  H('VP_L07_stuck', lo, dict(events=2, writes=6), dict(events=3, writes=6), 60, 600, 'next,fault', 'the same with any one write of the databases failing', **st),
  H('VP_L07_continue', lo, dict(batches=3), dict(batches=5), 30, 100, 'continued,moved on', 'batches of 0 to 2 blocks of a peer that is 1 to 4 blocks ahead, with and without an earlier download of another peer', **st),
  H('VP_L07_run', lo, dict(rounds=3), dict(rounds=5), 30, 200, 'timeout,known,loaded,stalled', 'the running loader with its timers', **st),
  H('VP_big_sync', lo, dict(peers=70, batches=3), dict(peers=300, batches=5), 60, 300, 'synchronised', 'full batches of 100 blocks of one of many connected peers, at four heights', **st),
  H('VP_again', lo, dict(n=2), dict(n=2, peers=3), 60, 400, 'nobody,started,failed,continued,left,shared,end', 'n attempts with peers that come, go, announce scores and get blocks before, between and during the attempts; a real registry and store', **st),
  note='bounded number of events and peers; timers by a virtual clock')
check('L08',
  H('VP_L08', lo, dict(rounds=12), dict(rounds=24), 40, 200, 'restart,success', 'one success at any place or none, with and without 11 failures of another peer before or in between', **st),
  note='bounded number of rounds')
# API ----------------------------------------------------------------------------------------------------------------
ap = 'api'
check('A01',
  H('VP_A01', ap, dict(peers=2), dict(peers=3), 80, 800, 'empty,some', 'any leashes of peers on a tree of 5 blocks with a fork, any states of the peers, any subset listed in 5 spellings, both endpoints', **st),
  H('VP_A01_bad', ap, {}, {}, 20, 60, 'bad', '11 malformed addresses at three places of a list', **st),
  H('VP_crowd_forks', ap, dict(w=300), dict(w=600), 60, 300, 'report', 'a store of w branches and a registry of w peers in all states', **st),
  H('VP_again', ap, dict(q=1, n=1), dict(q=1, n=2, reads=3), 60, 600, 'failed,end', 'the answers before and after each of n events (blocks, moved leashes, connections, disconnections, scores, gossip, failing requests)', **st),
  note='bounded number of peers and one tree; requests go through the router to the real handlers; the JSON codec is modelled')
check('A02',
  H('VP_A02', ap, dict(peers=2, states=0), dict(peers=3, states=0), 60, 600, 'fork,generators,unknown,negative', 'any leashes of peers on a tree of 5 blocks with a fork, 12 spellings of counts', **st),
  H('VP_A02_bad', ap, {}, {}, 20, 60, 'count,address', 'malformed addresses and counts', **st),
  H('VP_A02_v6', ap, {}, {}, 20, 60, 'found,unusual', 'spellings of an IPv6 address', **st),
  H('VP_A02_long', ap, dict(n=1003), dict(n=1200), 40, 100, 'long', 'a chain of n blocks, longest or not, four counts', **st),
  H('VP_crowd_fork', ap, dict(w=300, step=50), dict(w=600), 60, 300, 'fork', 'a store of w branches and a registry of w peers in all states', **st),
  H('VP_again', ap, dict(q=2, n=1), dict(q=2, n=2, reads=3), 60, 600, 'failed,end', 'the answers before and after each of n events (blocks, moved leashes, connections, disconnections, scores, gossip, failing requests)', **st),
  note='bounded number of peers and one tree; requests go through the router to the real handlers')
check('A03',
  H('VP_A03', ap, dict(peers=2), dict(peers=3), 40, 600, 'heads,leashes,status', 'any leashes of peers on a tree of 5 blocks with a fork, any states of the peers, and a fresh store', **st),
  H('VP_A03_tie', ap, dict(peers=3), dict(peers=4), 40, 300, 'tie', 'any leashes of peers on a tree of 5 blocks some of which have equal scores', **st),
  H('VP_crowd_lists', ap, dict(w=420), dict(w=700), 60, 300, 'heads,leashes', 'a store of w branches and a registry of w peers in all states', **st),
  H('VP_crowd_forks', ap, dict(w=140), dict(w=600), 60, 300, 'report', 'a store of w branches and a registry of w peers in all states', **st),
  H('VP_again', ap, dict(q=3, n=1), dict(q=3, n=2, reads=3), 60, 600, 'failed,end', 'the answers before and after each of n events (blocks, moved leashes, connections, disconnections, scores, gossip, failing requests)', **st),
  note='bounded number of peers and one tree; requests go through the router to the real handlers')
check('A04',
  H('VP_A04', ap, dict(peers=2), dict(peers=3), 40, 600, 'all,friendly,connections', 'every state of the peers, any nonces and scores', **st),
  H('VP_crowd_peers', ap, dict(w=300), dict(w=600), 60, 300, 'peers', 'a store of w branches and a registry of w peers in all states', **st),
  H('VP_again', ap, dict(q=4, n=2), dict(q=4, n=2, reads=3), 60, 600, 'failed,end', 'the answers before and after each of n events (blocks, moved leashes, connections, disconnections, scores, gossip, failing requests)', **st),
  note='bounded number of peers; nonces and scores symbolic')
check('A05',
  H('VP_A05', ap, dict(peers=1, states=2), dict(peers=2, states=2), 40, 300, 'reported', 'any one read of either database failing in any endpoint, any leashes of peers on a tree of 5 blocks, states of the peers', **st),
  note='every single failing read of one request; bounded number of peers and one tree')
# Main ---------------------------------------------------------------------------------------------------------------
ma = '.'
check('M01',
  H('VP_M01', ma, {}, {}, 20, 60, 'end', 'all 256 kinds of messages with any lengths', **st),
  note='the kind and the header fields are symbolic; complete over all kinds')
check('M02',
  H('VP_M02_seq', ma, dict(n=2), dict(n=3), 90, 700, 'block,orphan,micro,sigs,ids,error,junk,end', 'n messages or events of 10 kinds of 2 peers, one block pool, both encodings', **st),
  H('VP_M02_block', ma, {}, {}, 30, 100, 'known,orphan,impossible,end', 'blocks of any base target, timestamp, generator and parent', **st),
  H('VP_M02_peers', ma, dict(n=2), dict(n=3), 30, 200, 'new,end', 'lists of up to n addresses of 7 kinds', **st),
  H('VP_M02_fault', ma, dict(n=12), dict(n=12), 30, 100, 'fault,end', 'any one of the first reads or writes failing under any message', **st),
  H('VP_many_peers', ma, dict(n=280), dict(n=600, k=600), 60, 300, 'end', 'n peers that connect, send lists of k IDs and addresses and a chain of k blocks, and go away', **st),
  H('VP_M02_again', ma, dict(n=1), dict(n=2), 60, 400, 'fault,end', 'each of 10 messages or events once more after n others of two peers, or after any one of its first reads or writes failed', **st),
  note='bounded number of messages and peers; blocks are decoded by the real code of the gowaves library')
check('M03',
  H('VP_M03', ma, dict(n=1, preempt=1), dict(n=2, preempt=1), 60, 800, 'end', 'n messages of 4 kinds in flight, all schedules of distributor, loader, respawn and the shutdown with at most preempt preemptions', **st),
  H('VP_M03_run', ma, dict(preempt=0, **{'from': 2}), dict(preempt=1, **{'from': 2}), 30, 500, 'end', 'the whole program terminated at any moment of a synchronisation, all schedules with at most preempt preemptions', **st),
  H('VP_M03_run', ma, dict(preempt=0, to=1), dict(preempt=1, to=1), 25, 400, 'end', 'the whole program terminated at any moment of its start or of a dial, all schedules with at most preempt preemptions', **st),
  note='messages in flight and preemptions bounded')
check('M04',
  H('VP_M04', ma, dict(n=3, addrs=1, tries=1), dict(n=4, addrs=1, tries=2), 30, 300, 'connected,refused,fault,gone,end', 'n periods, failures and departures, any outcome of every dial', **st),
  H('VP_M04', ma, dict(n=2, addrs=2, tries=1), dict(n=3, addrs=2, tries=1), 30, 200, 'connected,refused,fault,gone,end', 'the same with two addresses', **st),
  H('VP_M04_fault', ma, dict(n=3), dict(n=5), 60, 200, 'fault,again,connected,hostile,end', 'any one of the first reads or writes of a round failing', **st),
  H('VP_many_dials', ma, dict(addrs=280), dict(addrs=600), 60, 300, 'connected,refused,end', 'half an hour with many addresses of any outcome', **st),
  note='bounded number of rounds and addresses; connections go through the gowaves stack to fake sockets')
check('M05',
  H('VP_M05_network', ma, {}, {}, 20, 60, 'started,refused', 'all networks in several spellings, 9 lists of up to 40 peers', **st),
  H('VP_M05_address', ma, dict(n=3), dict(n=5), 40, 300, 'accepted,refused,declared,empty', '3 flags, 15 forms of hosts, ports of up to n arbitrary bytes', **st),
  H('VP_M05_versions', ma, dict(n=2), dict(n=3), 40, 200, 'accepted,refused', 'up to n versions of 1 to 3 parts of up to one arbitrary byte', **st),
  H('VP_M05_versions', ma, dict(digits=2), dict(digits=3), 40, 200, 'accepted,refused', 'a version of 1 to 3 parts of up to digits arbitrary bytes', **st),
  H('VP_M05_rest', ma, {}, {}, 20, 60, 'accepted,refused', 'folders of 4 kinds, names of 5 lengths, 6 log levels', **st),
  note='bytes of ports, versions and names are symbolic, their lengths bounded; flag, strconv and netip are the real code')
check('M06',
  H('VP_M06', ma, dict(n=4), dict(n=5), 40, 100, 'asked,end', 'n minutes, connections, disconnections, messages and failures of 2 peers', **st),
  H('VP_many_peers', ma, dict(n=280), dict(n=600, k=600), 60, 300, 'end', 'n peers that connect, send lists of k IDs and addresses and a chain of k blocks, and go away', **st),
  note='bounded number of events; virtual clock')
check('M07',
  H('VP_M07_accept', ma, dict(n=3), dict(n=4), 60, 300, 'left,refused,second,welcome,silent,late,end', 'n connections of 9 kinds of two peers, also silent ones', **st),
  H('VP_M07_start', ma, dict(preempt=0), dict(preempt=0), 40, 100, 'closed,none,end', 'start and shutdown with an incoming connection, all schedules without preemptions', **st),
  H('VP_M07_start', ma, dict(preempt=1, incoming=0), dict(preempt=3, incoming=0), 40, 300, 'closed,none,end', 'start and shutdown, all schedules with at most preempt preemptions; data races are reported', **st),
  note='bounded number of connections and preemptions; connections go through the gowaves stack to fake sockets')
check('M08',
  H('VP_M08', ma, dict(n=2), dict(n=3), 40, 400, 'in,out,declared,end', 'n connections of two peers in any direction, completed or not; any nonce, name of up to 3 bytes, declared address and port', **st),
  note='bounded number of connections and length of the name; handshakes are written and read by the real code of the gowaves library')

check('M09',
  H('VP_M09', ma, dict(n=1, nodes=1, restart=2, changed=1), dict(n=3, nodes=1, restart=2, changed=1), 40, 500, 'synced,incoming,end,again,changed', 'the whole program with one node of 4 behaviours, n events of 4 kinds, then time, a signal, and a restart with the same or another configuration', **st),
  H('VP_M09', ma, dict(n=0, nodes=2, restart=2), dict(n=1, nodes=2, restart=2, changed=1), 60, 800, 'synced,end,again', 'the same with two nodes on one or two forks', **st),
  H('VP_M09_fault', ma, dict(writes=14, reads=8), dict(writes=40, reads=40), 40, 300, 'refused,started,end', 'any one of the first reads or writes failing at the first or second start', **st),
  note='bounded number of nodes and events; random choices take turns; sockets, HTTP server and signals are stand-ins')
