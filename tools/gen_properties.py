#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source for titles/statements)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a,b,c in (state or [])],
            mechanism=[dict(name=a, where=b) for a,b in mech],
            observe_at=observe or [], hook_needed=hook)))

KNN="pkg/searchutils/knn.go"; DIST="pkg/mathutils/distance.go"; VT="pkg/mathutils/vectools.go"
CEN="pkg/kmeans/centroid/centroid.go"; CM="pkg/kmeans/centroidmanager/cmanager.go"; DP="pkg/kmeans/common/datapoint.go"
RPC="pkg/kmeans/rpc/rpc.go"; SRV="pkg/kmeans/rpc/server.go"; SU="pkg/kmeans/rpc/serverutils.go"; CLI="pkg/kmeans/rpc/client.go"
GET="core/dps/getdps.go"; PUT="core/dps/putdps.go"; DPS="core/dps/dps.go"; NOD="core/nodes/nodes.go"; NVEC="core/nodes/vecs.go"
API="core/api/api.go"; HND="core/api/handler.go"; CONV="core/api/conv.go"
EL="core/eventloop/el.go"; ELT="core/eventloop/eltask.go"; ELU="core/eventloop/eltaskutils.go"; ELC="core/eventloop/cfg.go"; ARB="pkg/arbiter/arbiter.go"

prop("C01","Nearest/furthest search is exact",
 "For any query vector, candidate sequence and count k, a k-nearest (or k-furthest) search returns exactly min(k, number of comparable candidates) distinct positions of the sequence, ordered best first, and no candidate left out is strictly better than one returned. Candidates whose dimension differs from the query are never returned, and their presence anywhere does not shift the reported positions. This holds for both supported measures, cosine similarity and Euclidean distance.",
 ["inputs"],"all candidate sequences (any length, order, duplicates, zero vectors, foreign dimensions), all queries, all k >= 0",
 "Existing tests use one three-vector pool and k=2 per function; ties, duplicates, k at or beyond the pool size, zero vectors, mixed dimensions and long pools are never tried.",
 [KNN,DIST],[("KNNBrute/bubble keep the k best in order",KNN),("distance functions",DIST)],observe=["searchutils.KNNCos/KFNCos/KNNEuc/KFNEuc/KNNBrute"])
prop("C02","Distance measures and vector arithmetic are correct",
 "The Euclidean distance of two vectors is the square root of the sum of their squared component differences; their cosine similarity is their normalised dot product, lies in [-1,1] up to rounding, does not depend on argument order or positive scaling, and is zero whenever either vector is zero (all as far as the squares of the components neither overflow nor underflow). Comparing vectors of different dimension is reported as an error rather than a number. Mean, sum, difference, scaling and comparison of vectors are element-wise exact, report dimension mismatches, and never modify or alias their inputs.",
 ["inputs"],"all pairs/sequences of vectors of any dimension",
 "The measures and vector helpers have no tests of their own; only the ordering of one collinear pool is exercised.",
 [DIST,VT],[("EuclideanDistance, CosineSimilarity",DIST),("VecMean, VecAdd, VecSub, VecMulScalar, VecDivScalar, VecEq, VecIn, Vec",VT)])
prop("C03","A group's centre is the mean of its members",
 "After any sequence of operations on a group of datapoints (adding, draining, looking up with or without removal, expiring, trimming memory, distributing to others), the centre it reports equals the arithmetic mean of the vectors of the datapoints it still holds, whenever it holds at least one. The centre never becomes NaN or infinite.",
 ["histories"],"all operation histories on a group, from empty and pre-populated states",
 "Tests apply one operation to one hand-made group; drift only appears when operations are chained (e.g. trimming then adding).",
 [CEN,VT],[("incremental centre update on add/remove",CEN),("MoveVector",CEN)],state=[("vec","centre of the group","centroid.Centroid.vec"),("DataPoints","members","centroid.Centroid.DataPoints")],observe=["Centroid.Vec, Centroid.DataPoints"])
prop("C04","A node's summary vector is the mean of its group centres",
 "For each namespace, after any completed sequence of operations on a node (adds including automatic splits, drains, lookups, nearest-group extraction, splitting, merging, expiring, trimming, internal and external distribution), the summary vector the node reports equals the arithmetic mean of the centres of the groups it holds, whenever it holds at least one group. The summary vector never becomes NaN or infinite, also when the last group is taken away.",
 ["histories"],"all operation histories on a node-local store, from empty and pre-populated states",
 "Tests check the summary after single operations with singleton groups, where the incremental formulas happen to coincide; splits, multi-member merges, trims and removing the last group are not covered (the trim test is empty).",
 [CM,CEN],[("prepVecUpdate, MoveVector and per-operation adjustments",CM)],state=[("vec","mean of group centres","CentroidManager.vec"),("Centroids","groups","CentroidManager.Centroids")],observe=["CentroidManager.Vec, KMeansServer.Vec"])
prop("C05","Node-local operations neither lose nor duplicate datapoints",
 "After any sequence of node-local operations, the unexpired datapoints stored are exactly those accepted minus those handed out by draining operations: splitting, merging, trimming, expiring, re-centring, internal distribution and non-draining reads never lose, duplicate or alter a datapoint's vector, payload or expiry. A draining operation hands out each removed datapoint exactly once, and distribution to receivers leaves every datapoint in exactly one place even if receivers refuse it.",
 ["histories"],"all operation histories on groups and stores, with distinguishable datapoints (also equal vectors)",
 "Tests look at counts after one operation; loss or duplication depends on operation sequences, index handling and which groups are involved.",
 [CEN,CM],[("rmDataPoint/Drain*/Distribute*/Split/Merge/MemTrim",CM),("slice surgery in groups",CEN)],observe=["Centroids[i].DataPoints contents by identity"])
prop("C06","Lookups are complete, ordered and drain exactly what they return",
 "A lookup for k datapoints on a node returns exactly min(k, number of stored unexpired datapoints of the query's dimension), all distinct, visiting groups from nearest to farthest centre and, inside a group, nearest members first, so that no skipped member of a visited group is strictly nearer than a returned one. A draining lookup removes exactly the returned datapoints; a non-draining one changes nothing stored except dropping expired datapoints.",
 ["histories","inputs"],"all stored states reachable by operation histories (including emptied and expired groups), all queries and k >= 0",
 "Tests look up k<=2 in fresh two-group stores; emptied groups, expired members, k spanning several groups and zero vectors are not tried.",
 [CEN,CM,KNN],[("KNNLookup on group and store",CM)],observe=["CentroidManager.KNNLookup, Centroid.KNNLookup"])
prop("C07","Drains are bounded, even and worst-fit first",
 "Draining n datapoints from a node returns at most n, and exactly min(n, stored) when nothing has expired; nothing is returned or moved for n = 0. The load is even: the amounts taken from two groups differ by at most one unless the smaller contributor was emptied. An ordered drain takes from each group the members least similar to the group's centre; the same bounds apply to how many datapoints a distribution moves.",
 ["histories","inputs"],"all stored states reachable by operation histories, all n >= 0",
 "Tests drain n=2 from two groups of equal size; zero, n beyond the stored amount, and skewed group sizes are not covered.",
 [CM,CEN],[("centroidDataPointPortions",CM),("DrainOrdered/DrainUnordered",CEN)])
prop("C08","Expired datapoints never surface and live ones are never expired",
 "At any point of any history, a datapoint whose expiry is enabled and has passed is refused when added and is never returned by a lookup, drain or distribution that starts after it expired; after an expire or trim operation none remain stored. A datapoint that is not expired (expiry disabled, or instant not yet passed) is never dropped because of expiry.",
 ["histories","schedules"],"all histories interleaving operations with the passage of time, on groups, stores and over the network",
 "Tests sleep once for one datapoint and call one operation; they cannot sweep the expiry instant over every position of a history or mix live and expired members of the same group.",
 [DP,CEN,CM],[("DataPoint.Expired",DP),("skipping/removing expired members in generators and drains",CEN)])
prop("C09","Splitting, merging and trimming restructure groups as requested",
 "Splitting halves exactly the groups selected by the criterion that have at least two members (sizes differ by at most one) and leaves the others alone; merging ends with no selected group left unless it is the only group, and only ever combines whole groups, nearest first. A group that reaches the configured size limit by an add is split by that add. Trimming leaves no empty group and no expired datapoint, and keeps every unexpired one.",
 ["histories","inputs"],"all reachable group configurations, all size criteria and thresholds",
 "Tests split one group of four and merge one pair; multi-group, chained, threshold-edge and exclusive-range cases are not covered.",
 [CM],[("splitCentroid/SplitCentroids/MergeCentroids/MemTrim/AddDataPoint auto split",CM)])
prop("C10","Datapoints go to the nearest group or receiver",
 "An added datapoint joins a group whose centre is nearest to it under the node's similarity measure (ties allowed), or founds the first group if there is none. A distributed datapoint is offered to the receiver that is nearest at that moment and stays at its origin only if that receiver refuses it. Asking for the n nearest groups returns the n groups with the nearest centres, best first, and removes exactly those if and only if removal was requested.",
 ["histories","inputs"],"all reachable group configurations and all vectors, for both measures",
 "Tests use two clearly separated groups; ordering among several groups, changes of centres during the distribution, and index shifts while extracting several groups are not covered.",
 [CM,CEN],[("AddDataPoint/NearestCentroids/DistributeDataPoints",CM)])
prop("C11","Requests that cannot be honoured are refused without harm",
 "A request that cannot be honoured as given - a vector of the wrong dimension, a negative or absurdly large count, an unknown namespace, an already expired datapoint - is answered by a refusal, an error, or an empty or complete result. It never crashes or wedges the node or the client, and it changes nothing stored (in particular it creates no namespace and discards no datapoint).",
 ["inputs","histories"],"all operations with all degenerate arguments, in every reachable store state, locally, over RPC and over the HTTP API",
 "Tests use well-formed arguments only; a degenerate argument is a different input on every operation and state.",
 [CM,CEN,KNN,SRV,CLI,GET,HND],[("argument checks in store, server, client and API",SRV)])
prop("R01","Remote operations behave like the same local operations",
 "For every operation offered over the network, calling it through the client on a node has the same effect on that node's store and yields the same answer (up to encoding of empty values) as performing the operation locally, in any history. Calls on an unknown namespace or an unreachable node report an error through the client's error value, successful calls report none, and namespace listings and metadata always equal the actual contents.",
 ["histories","inputs"],"all histories of client operations over one node, several namespaces, known and unknown",
 "Tests call each operation once in a fixed state; wrong forwarding of an argument, result or range only shows for particular states and arguments.",
 [CLI,SRV,RPC],[("client facade",CLI),("server forwarding",SRV)],observe=["KMeansClient methods vs CentroidManager methods"])
prop("R02","A put is acknowledged exactly when it was stored",
 "Storing a datapoint on a node reports success if and only if the datapoint is now stored in the requested namespace of that node, exactly once; a refusal (expired, wrong dimension) is reported as such and leaves no trace. The first successful put of a namespace creates it, and later puts never replace or empty an existing namespace.",
 ["histories","inputs"],"all histories of puts (valid, expired, foreign dimension, new and existing namespaces) mixed with other operations",
 "The tests put valid datapoints only, so an acknowledgement that ignores the outcome is indistinguishable from a correct one.",
 [SRV,RPC,CM],[("KMeansServer.AddDataPoint",SRV),("namespace creation",RPC)])
prop("R03","Concurrent requests on a node behave as if executed one at a time",
 "For any set of requests concurrently executed by a node - including the very first uses of a namespace - the answers and the final contents are those of some sequential order of the same requests that respects their real-time order. In particular no acknowledged put is ever lost or doubled and no datapoint is handed out by two draining requests.",
 ["schedules"],"all interleavings (bounded preemptions) of two to three concurrent clients with one to two requests each, on existing and new namespaces",
 "The test suite issues requests one after the other; a lost update in the check-then-create of a namespace needs a particular interleaving.",
 [RPC,SRV],[("CManagerTable/CManagerSlot locking",RPC)],observe=["client responses and final store contents"],hook="import-rewriting overlay (no source hooks)")
prop("R04","Namespaces are isolated and independent",
 "No operation on one namespace changes, reveals or returns data of another, for any names (including empty and unusual ones). A long-running operation on one namespace never blocks requests to other namespaces nor namespace listing and creation.",
 ["histories","schedules"],"all histories over two namespaces holding the same vectors; all schedules in which an operation is held inside one namespace",
 "Tests use a single namespace and no concurrency.",
 [RPC,SRV,ELU],[("two-level locking: table lock, then slot lock",RPC)])
prop("R05","Concurrent requests always complete",
 "Any set of concurrent requests - including nodes distributing to or taking groups from each other and from themselves, metadata and listings - completes under every schedule: no deadlock and no endless loop, whatever the other nodes are doing or if they fail.",
 ["schedules","fault_sequences"],"all interleavings (bounded) of two to three cross-node requests over two nodes, with and without failing calls",
 "Lock-order or lock-across-call deadlocks need two nodes calling each other at the right moment; the tests run one call at a time.",
 [RPC,SRV,SU],[("locks are not held across network calls",SRV)])
prop("R06","No data races; every reply is a consistent snapshot",
 "Concurrent use of a node, of its start/stop functions and of the maintenance loop never accesses shared memory without synchronisation. Every reply reflects the node's contents at one instant between request and reply, even if other requests change the node while the reply is being transmitted.",
 ["schedules"],"all interleavings (bounded) of pairs of operations, with the encoding of replies as a separate step, under a happens-before race detector",
 "The tests are sequential and not run under the race detector, and a torn reply needs a mutation exactly between computing and encoding it.",
 [RPC,SRV,EL],[("slot lock; replies built under the lock",SRV)])
prop("R07","Distributing datapoints across nodes never loses them",
 "When a node distributes datapoints to other nodes (fast or accurate variant), every unexpired datapoint it took out ends up stored on some node of the same namespace, for any list of target addresses (empty, only itself, unreachable, lacking the namespace), any schedule of concurrent requests and any pattern of failing calls. Without failing calls it ends up on exactly one node, and it goes to the node reported nearest to it among those reachable.",
 ["schedules","fault_sequences","inputs"],"all target lists over three nodes, all counts, all single/double call faults, bounded interleavings with concurrent requests",
 "Tests distribute between healthy, initialised nodes with a full address list and no concurrency; loss needs an empty/failed list or a failed call at the right position.",
 [SRV,SU,CLI],[("drain, offer to best-fit nodes, put back",SRV)])
prop("R08","Taking groups from another node conserves data and reports truthfully",
 "When a node takes groups from another for balancing, every unexpired datapoint is afterwards on exactly one of the two nodes, also with concurrent requests to either node; it keeps taking whole groups until the limit is reached or the other node has none left, and takes none once the limit is reached. The reported number equals the datapoints actually transferred and the reported status is false exactly if the other node could not be contacted or lacks the namespace.",
 ["histories","schedules","fault_sequences"],"all reachable source/target states (including emptied groups and missing namespaces), limits, call failures and bounded interleavings",
 "The one test takes one group of two from a healthy node; empty groups, missing namespaces, limits spanning groups and concurrent puts are not covered.",
 [SRV,CLI,CM],[("StealCentroid",SRV),("client re-initialisation of transferred groups",CLI)])
prop("R09","Node start and stop",
 "A started node serves every connection made to it, sequentially or concurrently, until it is stopped; starting on an address in use reports an error instead of a running node. After stopping, new connections are refused, the address can be used again, and stopping never hangs or crashes, whenever it happens.",
 ["schedules","histories"],"all short histories of start/connect/call/stop, with stop at every point",
 "Tests start nodes once and stop them at the very end.",
 [RPC],[("StartListen",RPC)])
prop("N01","Best-fit node ranking",
 "Ranking nodes for a vector returns exactly the reachable nodes that hold the namespace with a comparable dimension, each once and with its own address, ordered from best to worst fit by their summary vectors (fast) or by their nearest group centre (accurate) - regardless of the order in which the nodes answer and of nodes that fail.",
 ["schedules","fault_sequences","inputs"],"all assignments of contents to three nodes (missing, empty, foreign dimension), all answer orders, all failing subsets",
 "Tests rank three healthy nodes whose replies arrive in whatever order the machine produced.",
 [NOD,NVEC],[("fetchVecs/collect/intoAddrs correlation",NVEC),("bestFitNodes",NOD)])
prop("N02","Put routing places a datapoint on exactly one suitable node",
 "A routed put (random, fast or accurate) stores the datapoint on exactly one node if it reports success and on none if it reports failure, for any state of the nodes. The fast and accurate variants choose the best-fit node that accepts it and skip nodes that are unreachable or refuse it; the random variant succeeds whenever some reachable node accepts it, whichever random order is drawn.",
 ["inputs","fault_sequences","schedules"],"all node states, vectors, random orders, answer orders and unreachable subsets of three nodes",
 "Tests put into pre-arranged healthy nodes; refusals, failures and each random order are not explored.",
 [PUT,DPS,NOD],[("putDataPoint tries nodes in order",PUT),("shuffleAddrs",DPS)])
prop("N03","Gathering from several nodes is complete, bounded and duplicate-free",
 "A routed lookup for n datapoints returns at most n distinct datapoints of the namespace, visiting nodes from best to worst fit (or a random order), and returns fewer only if the reachable nodes that hold comparable data together have fewer unexpired ones. A draining lookup removes exactly the returned datapoints from the network and a non-draining one removes none; unreachable nodes are skipped without affecting the rest.",
 ["inputs","fault_sequences","schedules"],"all distributions of datapoints over three nodes, n, drain flags, orders and unreachable subsets",
 "Tests fetch from one best node; spanning several nodes, partial results and failing nodes are not covered.",
 [GET,NOD,CLI],[("getDataPoints accumulates until n",GET)])
prop("A01","HTTP API: puts are retrievable, malformed requests have no effect",
 "A put answered with success makes the datapoint retrievable, unaltered (vector, payload, expiry), by later queries of the same namespace until it is drained or expires, also when no node knew the namespace before; a put that could not be stored is answered with a server error. A request that is not valid for its endpoint is answered with a client error and changes nothing. A query answers with the matching datapoints as JSON (an empty list if there are none) and honours n and drain.",
 ["histories","inputs"],"all histories of puts and queries (accurate or not, draining or not, several namespaces, valid and malformed bodies) over one to two nodes",
 "The single API test posts one datapoint and is excluded as flaky; no malformed body, failure status, drain or namespace case is tested.",
 [HND,CONV,API,PUT,GET],[("putDataPoint/queryDataPoint handlers",HND),("JSON conversion",CONV)])
prop("E01","Background maintenance never loses or misplaces data",
 "With any number of nodes each running the maintenance loop under any configuration, every acknowledged datapoint that is neither expired nor drained is stored exactly once in its own namespace whenever no maintenance step is in flight, and can be retrieved; this holds for any interleaving of maintenance with client puts, lookups and drains.",
 ["histories","configurations","schedules"],"networks of one to three nodes, all task mixes and size parameters from small domains, client operations at every position, bounded schedule deviations",
 "The maintenance loop has no automated test at all (its only test is a nine-minute manual monitor).",
 [EL,ELT,ELU,ELC,SRV],[("task functions driving the RPC operations",ELT)])
prop("E02","Maintenance tasks run at their configured cadence and stop",
 "For any configuration, including zero, negative or oversized skip intervals, the maintenance loop keeps running without crashing; within its counting cycle a task with interval k runs in exactly every k-th loop starting with the first, in every namespace the local node holds, with the configured amounts and ranges. After it is stopped it starts no further task beyond one already being started, and terminates.",
 ["configurations","schedules"],"all interval combinations from a small domain incl. out-of-range values, stop at every point of a loop",
 "The maintenance loop has no automated test.",
 [EL,ELT,ELC],[("withSkip/clamp",ELC),("elStep stop checks",EL)])
prop("E03","Load balancing only pulls from clearly fuller nodes",
 "During load balancing a node only pulls into itself, never from itself, only in namespaces present in the network, only while it holds at most 60 % of the mean number of datapoints per node having the namespace (rounded), and only from nodes that stay above the mean by the same margin after giving the requested amount - or from the only holder. The amount requested never exceeds its own shortfall, and a node above that bound requests nothing. Conversely, a pass does request something in a namespace when the node's shortfall is at least three datapoints per configured node and another node holds so many that it would stay above that margin even after giving the whole shortfall (or is the only holder).",
 ["inputs","histories"],"all assignments of small datapoint counts and group sizes to two to three nodes and one to two namespaces, every node acting as balancer",
 "The maintenance loop has no automated test; the guard arithmetic only matters for particular count combinations.",
 [ELT,ELU],[("eltLoadBalancing guards",ELT),("fetchRemoteLenDPs",ELU)])
prop("E04","Monitoring reports the true contents and every task",
 "Whenever metadata is due the loop hands its logger exactly one report covering exactly the configured nodes (only the local one if so configured), with for each reachable node exactly the namespaces it holds at that moment and their true numbers of datapoints and groups, and nothing for an unreachable node. While the local node is reachable, every task the loop runs in a namespace is announced to the logger exactly once, naming the namespace. Without a configured logger the loop prints, for every such task and every configured node, the node's address with its true totals of namespaces, groups and datapoints.",
 ["configurations","histories"],"all networks of one to three nodes from an alphabet of contents (several namespaces, odd names, empty groups, expired members, unreachable), task mixes, report intervals and puts between the reports",
 "The loop and its loggers have no automated test.",
 [ELT,"core/eventloop/log.go",SRV,SU],[("eltMeta",ELT),("defaultLogger.LogTask/LogMeta","core/eventloop/log.go"),("KMeansServer.Meta",SRV)])
prop("S01","The shipped service keeps and serves what is put into it",
 "The service program runs a storage node, the maintenance loop and the HTTP API on the configured addresses with the configured group limit, search functions, amounts and intervals, and keeps running. Whatever was put through its API with success and is neither expired nor drained is stored exactly once and retrievable at any later time, however many maintenance passes went by, alone or with other nodes (reachable or not) in its network; a query answers nearest first within a group and never with expired or drained datapoints, and expired datapoints leave the memory within the configured expiry interval.",
 ["histories","configurations","schedules"],"all histories of API requests and maintenance passes up to a depth under the shipped configuration and small variants of it, with and without peers; a request at the moment of every task, in every schedule within a deviation bound",
 "The program itself has no test: no test runs the maintenance loop, the node and the API together, and hours of passes cannot be waited for.",
 ["cmd/service/service.go","cfg/cfg.go",EL,ELT,API,HND,SRV],[("main wires node, loop and API","cmd/service/service.go"),("shipped values","cfg/cfg.go")])
prop("B01","Arbiter election agrees and respects its configuration",
 "After a voting round every two members that report a valid arbiter report the same one, it is one of the allowed members, and it stays valid for exactly the configured duration; members reject sessions with addresses outside their whitelist. The summaries over per-node errors and statuses report an error if and only if some node has one, and uniformity if and only if all statuses equal the given one.",
 ["schedules","fault_sequences","inputs"],"all vote combinations of one to three members, all answer orders, single call faults; all error/status maps of up to three nodes",
 "The election test is excluded as flaky because members vote at random; it samples one outcome per run.",
 [ARB],[("NewSessionMember/NewArbiterServer wiring",ARB),("ArbErrs.CheckAll, ArbStats.UniformStatus",ARB)])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
