# The properties: source of properties.jsonl and MANIFEST.json (tools/gen.py)
PROPS = []


def P(id, title, statement, over, forall, tests, files, mech, note=None, na=None):
    d = dict(id=id, title=title, statement=statement, over=over, forall=forall, tests=tests, files=files, mech=mech)
    if na:
        d["na"] = na
    else:
        d["note"] = note
    PROPS.append(d)


TRUST = " Trusted: the analyzer, the SSA construction of x/tools, and the models of the standard library and of go-cache."

P("C01", "An acknowledged insert is stored",
  "When an insert into a dataset reports success, the datum given is stored in that dataset under its own key, or an unexpired datum with the same key, the same value and (within ten seconds) the same expiry already was. "
  "An insert call answered by a node without error was accepted by the dataset the request names, with the datum and the options of the request. "
  "An insert sent to a peer reports success only when the peer answered it without error.",
  ["inputs", "histories", "schedules"],
  "Every datum, option combination, dataset configuration and prior content; every path from the call to its successful return.",
  "The tests insert a handful of data into fresh datasets and look at counts; the paths that report success without storing (duplicate of an expired datum, rejected or failed forwarding) need particular prior content.",
  ["data/newsync.go", "data/insert.go", "node/nodeservice.go", "node/datasourceclient.go"],
  [("store on every successful path", "data.(*Data).Insert, InsertBDMap"), ("errors forwarded", "node.(*Node).Insert, node.(*DataSourceClient).Insert")],
  "Every path of the insert code is covered, for all inputs; sound up to the models. It is about what is in the map when the call returns, not about later removal (C04)." + TRUST)

P("C02", "Data are stored under the exact encoding of their key",
  "The encoding of a datum key or datum value has every byte of every field in it, exactly once and in a fixed order: the features and the group label with their lengths, both sizes and both dimensions, and the version and the label of a value, so that different keys never have the same encoding. "
  "Every encoding has exactly the length announced for it, and lies in memory of its own. "
  "Every access to the stored data goes by the complete encoding of the key.",
  ["inputs"],
  "Every key and value, with features and labels of any length.",
  "The tests encode a few short vectors; a wrong offset, a wrong shift or a dropped byte shows only for particular lengths and magnitudes.",
  ["data/gencoder", "data/data.go", "data/newsync.go"],
  [("hand-written codec", "data/gencoder"), ("map key", "data.GetKeyAsBytes, InsertBDMap, Delete")],
  "Per field: where each byte goes, for every length; the announced length as a sum over the fields. Decoding is not covered: nothing but tests decodes." + TRUST)

P("C03", "Expired data is never delivered and expiry is kept as asked",
  "The expiry stored with a datum is the one asked for: none without a time to live, otherwise the time of the insert plus the time to live, or the end of time when that does not fit. "
  "A datum whose expiry has passed is not handed out by an exact search, a data stream or a synchronisation with peers, and does not enter a newly built index.",
  ["inputs", "histories", "schedules"],
  "Every time to live up to the maximum of its type, every stored content and every moment at which a search, stream or synchronisation looks at it.",
  "The tests never wait for an expiry at a particular moment, and never use times to live near the limits of the type.",
  ["data/newsync.go", "data/search.go", "data/sync.go", "data/data.go"],
  [("expiry check while iterating", "data.(*Data).LoopDBMap"), ("expiry at insert", "data.(*Data).InsertBDMap")],
  "Every hand-out of a stored datum on every path of search, stream and synchronisation. Approximate searches use the index of the last synchronisation and are out of scope." + TRUST)

P("C04", "Stored data is removed only for a valid reason",
  "A stored datum disappears from a dataset only by a delete of its key, by its expiry having passed, or because a peer acknowledged that very datum while the dataset was closing or still above its eviction threshold counting what this pass already evicted. "
  "Removal by expiry or eviction never takes away a newer datum stored under the same key in the meantime.",
  ["histories", "schedules", "fault_sequences"],
  "Every sequence of inserts, deletes and synchronisations, every answer of the peers, and every interleaving of an insert with an expiry or an eviction.",
  "The tests cannot interleave an insert between the check and the removal, and no test makes a peer refuse a hand-over.",
  ["data/newsync.go", "data/data.go", "data/sync.go"],
  [("conditional removal", "data.(*Data).LoopDBMap, evictBDMap"), ("eviction after acknowledgement", "data.(*Data).Process")],
  "Every removal from the store in the source is found and judged on every path that reaches it." + TRUST)

P("C05", "Hand-over and replication preserve datum and lifetime",
  "A datum handed over to a peer during synchronisation carries the time it has left: no expiry if it has none, otherwise its expiry minus now, at least one second. "
  "A replica sent to a peer on insert is the inserted datum with the time to live of the request. "
  "Both are marked so that the receiver does not replicate them again, and the peer always gets the datum together with its own options.",
  ["inputs", "histories", "fault_sequences"],
  "Every stored datum, expiry and peer set; every synchronisation and every insert.",
  "No test observes the options a peer receives for data close to expiry.",
  ["data/newsync.go", "data/sync.go", "data/data.go"],
  [("remaining time", "data.InsertConfigFromExpireAt"), ("hand-over", "data.(*Data).Process"), ("replication", "data.(*Data).Insert")],
  "Every value that reaches a peer's insert from synchronisation or insert is traced to where it was made." + TRUST)

P("C06", "A full dataset accepts no more data",
  "A dataset with a target size stores a datum only while the count of data it reports is below the target; a dataset without a target is not limited. "
  "All data enters a dataset through this check.",
  ["inputs", "histories", "configurations"],
  "Every configuration and every insert, local or from a peer.",
  "The tests fill one dataset with one configuration.",
  ["data/newsync.go", "data/data.go"],
  [("capacity check", "data.(*Data).Insert, isMoreDataAllowed")],
  "Every write to the store in the source; judged against the count kept by the synchronisation, as the code defines it." + TRUST)

P("C07", "Enforced replication acknowledges enough copies",
  "With enforced replication, a first-hand insert succeeds only when the configured number of copies, the local one included, was acknowledged, each copy by a different peer. "
  "The options object of the caller is never changed by an insert.",
  ["inputs", "configurations", "fault_sequences"],
  "Every replication number, every set of peers and every pattern of peer failures.",
  "No test makes some of the peers fail.",
  ["data/newsync.go", "data/data.go"],
  [("count of acknowledged copies", "data.(*Data).Insert, RunOnRandomSources")],
  "Every successful return of an insert, with the number of acknowledgements as a ghost counter." + TRUST)

P("C08", "Exact search delivers the best stored data, best first",
  "A search with a score function that is not approximate looks at every stored datum, gives each one that has not expired and passes the filters its own score for the query under the requested function, and offers it exactly once. "
  "Of what is offered, the best are kept up to the limit and ordered best first in the requested direction: a candidate is dropped only when the limit is reached and it is not better than the worst one kept. "
  "All that is kept is delivered, in that order.",
  ["inputs", "histories"],
  "Every stored content, query, limit, direction and score function.",
  "The tests search small fixed data sets in one direction; dropping the wrong candidate needs a particular order of scores around the limit.",
  ["data/search.go", "data/newsync.go"],
  [("keeping the best", "data.(*Collector).Insert"), ("iteration", "data.(*Data).Search, LoopDBMap"), ("delivery", "data.(*Data).StreamSearch")],
  "Every path of search and collector for all inputs; that the best are kept follows by induction over the inserts. The order among equal scores is free, and so are scores that are not numbers." + TRUST)

P("C09", "Merging keeps the best result per key, in order, within the limits",
  "Results received from the local search and from peers before the time-out are all merged: for every key only the best score seen is kept, the merged list is ordered best first within the limit, and the result is its first elements up to the result limit when there is one; a search context, if given, makes the score of a result the best of its own (unless the context is prioritized) and those for the data of the context. "
  "With a group limit, results are grouped by group label, every group keeps its best up to the group limit, and every group with results is represented by its best datum. "
  "Everything in the merged result is delivered.",
  ["inputs", "schedules", "fault_sequences"],
  "Every set and order of results from any number of searches, every limit and direction.",
  "The order in which results of concurrent searches arrive is not controlled by tests, and duplicates with different scores need several peers.",
  ["data/aggregator.go", "data/search.go"],
  [("merged list", "data.(*Aggregator).Insert, InsertToList"), ("groups", "data.(*Aggregator).Insert, Result, One"), ("receiving", "data.(*Data).AggregatedSearch, MultiAggregatedSearch")],
  "Every path of the aggregator and of both receiving loops. The score given to a group and the scores made from a search context are not judged." + TRUST)

P("C10", "Only data that matches all filters becomes a result",
  "A datum becomes a result of a search, exact or approximate, only when every filter of the search exists in its label and every group filter exists in its group label. "
  "A datum that has them all is not filtered out.",
  ["inputs"],
  "Every list of filters, every label and every score function.",
  "The tests use at most one filter.",
  ["data/search.go"],
  [("filter", "data.(*Collector).PassesFilters"), ("use", "data.(*Data).Search, SearchAnnoy")],
  "Every path to a result in both searches; what a filter expression means is left to gjson." + TRUST)

P("C12", "Cached results belong to the query that gets them",
  "A search answers from its cache of results only when it asks for caching, and only with results stored for the same query key under a config that agrees in everything but the query id and the time-out. "
  "Results are cached only when caching is asked for, and for the duration asked for. "
  "What is kept in the cache is never shared with what is handed out: results are copied before they are cached and again before they are delivered.",
  ["inputs", "histories"],
  "Every pair of queries and configs, every history of searches.",
  "Confusing two queries needs two configs that differ in just one field; a shared result shows only when a receiver changes it later.",
  ["data/search.go"],
  [("cache key", "data.GetSearchKey, EncodeSearchConfig"), ("copies", "data.CloneResult"), ("use", "data.(*Data).AggregatedSearch")],
  "Every use of the cache on every path. That the textual encoding of different configs differs is taken from the JSON encoder." + TRUST)

P("C13", "A query is searched once per node, in full",
  "A node searches for a query only after registering the query id as new, atomically and for the time the cache of ids keeps it; a query without id gets one first, and a query whose id is new is never answered without a search. "
  "The search is the one asked for: the named dataset, all vectors, the config and the context of the request. "
  "Every vector of a query is searched exactly once, with the config given, and when there are several each gets a query id of its own derived from that of the query, so that peers do not mistake one for another.",
  ["inputs", "histories", "schedules"],
  "Every request and every interleaving of requests with the same id.",
  "Two requests with one id have to overlap, and lost vectors show only with several vectors and peers.",
  ["node/nodeservice.go", "data/search.go"],
  [("registration", "node.(*Node).SearchStream"), ("one search per vector", "data.(*Data).MultiAggregatedSearch")],
  "Every path of both functions." + TRUST)

P("C14", "A search waits for all its parts and never sends to a closed stream",
  "Every part of a search, local or sent to a peer, is counted before it is started and signals its end exactly once, on every path and after its last result. "
  "The stream of results is closed only after all parts signalled their end. "
  "Until all parts have ended somebody receives from the stream, also after a time-out, so that no part is blocked forever.",
  ["schedules", "fault_sequences", "inputs"],
  "Every number of vectors and peers, every interleaving, every failure of a peer, time-outs at any moment.",
  "A send to a closed stream or a lost signal needs a peer that answers or fails at a particular moment.",
  ["data/search.go", "node/datasourceclient.go"],
  [("signals", "data.(*Data).StreamSearch, AggregatedSearch, node.(*DataSourceClient).StreamSearch"), ("wait and drain", "data.(*Data).AggregatedSearch, MultiAggregatedSearch")],
  "Every path of the searching functions and of the threads they start. Panics are not considered." + TRUST)

P("C15", "Peers are asked the same query with less time",
  "The local data and every peer taking part in a search are asked for the vector of the query with the config of the query; only the time-out differs, and a peer gets less time than the search itself has. "
  "No search changes a config it was given, since configs are shared between concurrent searches. "
  "The request a peer gets consists of exactly that vector and config.",
  ["inputs", "schedules"],
  "Every query and config, any number of concurrent searches.",
  "The tests have one node and one search at a time.",
  ["data/search.go", "node/datasourceclient.go", "data/aggregator.go"],
  [("forwarding", "data.(*Data).AggregatedSearch"), ("request", "node.(*DataSourceClient).StreamSearch")],
  "Every call that starts a part of a search; every store to a config in the searching code." + TRUST)

P("C16", "The native index is never used unbuilt, freed or beyond its vectors",
  "The native index of a dataset is published only after it was built completely, is used for searching only while its lock is held and it is the published one, and is freed exactly once, after or while it is taken out of use under the write lock. "
  "Index, list of data and dimension are replaced in one critical section. "
  "No vector shorter than the dimension of the index is ever given to it, neither when building nor when searching, and an item without datum is never used as one.",
  ["schedules", "inputs", "histories"],
  "Every interleaving of searches with index rebuilds, every mix of vector lengths, datasets emptied and refilled at any time.",
  "Use after free and reading beyond a vector happen in native code, only under a particular interleaving or with vectors of mixed length, and often go unnoticed.",
  ["data/newsync.go", "data/search.go", "data/data.go"],
  [("building and publishing", "data.(*Data).Process"), ("searching", "data.(*Data).SearchAnnoy")],
  "Every path of Process, including its walk over the data, and of SearchAnnoy; the native library itself is trusted." + TRUST)

P("C17", "Approximate results are stored data with their own score",
  "Every item of the index stands for the datum its vector was taken from, and the index and its list of data are replaced together; the index of a dataset found empty by a rebuild is taken out of use. "
  "An approximate search asks the index for the vector of the query and returns, of the items found and in that order, the data they stand for that pass the filters, each with the requested score of that datum for the query. "
  "Without an index usable for the query the search is done exactly, with the same query and config.",
  ["inputs", "histories", "schedules"],
  "Every content of a dataset, query and config, every moment of a rebuild.",
  "The tests use one vector length and a dataset that does not change while the index is built.",
  ["data/newsync.go", "data/search.go"],
  [("building", "data.(*Data).Process"), ("searching", "data.(*Data).SearchAnnoy")],
  "Every path of Process and SearchAnnoy. Recall is N02. An index answers from its last rebuild, so data removed since then may still be found." + TRUST)

P("C18", "Shared state is accessed under its lock, and locks are always released",
  "Config and statistics of a dataset, its index and the known addresses of a node are accessed only while a lock of the same object is held, exclusively for writing; the insert, run and connection counters are accessed atomically. "
  "Every lock taken is released on every path exactly once, is not taken again while held, and locks are taken in one global order. "
  "No lock is held while waiting for a channel, a wait group, a timer or a remote call.",
  ["schedules"],
  "Every interleaving of any number of callers of every exported function and of every thread the node starts.",
  "Races and deadlocks depend on the schedule.",
  ["data/data.go", "data/newsync.go", "data/search.go", "data/dataset.go", "node/node.go", "util/connpool.go"],
  [("dataset", "data.(*Data).*"), ("node", "node.(*Node).*"), ("connections", "util.(*ConnectionPool).*")],
  "Every exported function and thread of the packages data, node, server, state and util; unexported functions in the context of their callers; lock order over the call graph. Fields outside the list above are not covered." + TRUST)

P("C21", "No message from the network crashes the node",
  "Whatever parts a request or a peer's answer lacks and whatever numbers or vector lengths it carries, the node does not dereference a missing message, index or slice a list out of range, divide by zero, or size an allocation by a number of the message. Where the result of a call may be missing (a peer that gives no information, a connection that cannot be made, a dataset that could not be created) it is looked at before it is used. No remote procedure ends the process.",
  ["inputs"],
  "Every message with any part missing, any vector length, any number in any field, and every failure of a peer.",
  "Tests send complete messages with vectors of one dimension and healthy peers; the crash needs a particular missing part at a particular site",
  ["node/nodeservice.go", "node/node.go", "node/datasourceclient.go", "data/insert.go", "data/newsync.go", "data/search.go", "data/aggregator.go", "data/util.go", "data/data.go"],
  [("requests", "node.(*Node).Insert, SearchStream, DataStream, GetDataInfo, CreateDataIfNotExists, Join, AddPeer, Ping"), ("data", "data.(*Data).Insert, AggregatedSearch, StreamSearch, Process"), ("vectors", "data.VectorDistance and other scores, CalculateAverage")],
  "Interprocedural: what a function uses of its arguments without looking is required of its callers, to a fixpoint; a handler may require nothing of its request. Lists, channels, caches and three fields hold no missing message, which is checked wherever they are filled." + TRUST)

P("C19", "A live dataset has exactly one processor, which nothing blocks",
  "At most one background processor of a dataset runs at any time, whoever starts it, and it ends only when the dataset is no longer alive; when it ends another one can be started. "
  "A synchronisation writes data to be handed over only to a stream that a thread reads to its end, and always ends that stream.",
  ["schedules", "histories"],
  "Every interleaving of any number of starts of the processor, every content of the dataset and every failure of peers.",
  "A second processor or a blocked one needs concurrent starts, an empty count or a failing peer at the right moment.",
  ["data/data.go", "data/newsync.go"],
  [("processor", "data.(*Data).Run"), ("synchronisation", "data.(*Data).Process")],
  "Every path of Run and Process, every use of the counter of processors. Process called by Close may overlap with the last pass of the processor; that is not claimed." + TRUST)

P("C20", "Data and results are streamed completely and unchanged, or the call fails",
  "A data stream that ends without error delivered every unexpired datum of the dataset, as stored, and the call does not return while data is still being sent; no failure of sending is lost. "
  "A streamed search that ends without error delivered every result of the search, in order and unchanged. "
  "Every result received from a peer is passed on unchanged until the stream of the peer ends.",
  ["inputs", "schedules", "fault_sequences"],
  "Every content of a dataset, every list of results, every failure of a stream at any element.",
  "The failure has to happen at a particular element of a stream while the other side still produces.",
  ["node/nodeservice.go", "node/datasourceclient.go", "data/newsync.go"],
  [("data", "node.(*Node).DataStream"), ("results", "node.(*Node).SearchStream"), ("peer", "node.(*DataSourceClient).StreamSearch")],
  "Every path of the three functions and their threads, with every call of a stream failing or succeeding." + TRUST)

P("C24", "Datasets are found by their name, created once, and keep their newest config",
  "Looking up a dataset by name gives the dataset created under that name; creating one adds a new dataset with the config, name and folder asked for and starts it, and never replaces an existing one. "
  "The config of an existing dataset is replaced, under its lock, exactly when one with a higher version is given for it, and a config in use is never changed in place. "
  "A dataset is kept for the retention of its config in seconds, for the default when there is none, and a retention that does not fit never makes it expire early.",
  ["inputs", "schedules", "histories"],
  "Every name and config, every history of configs received, every interleaving of creations.",
  "The order and versions of configs and concurrent creations of one name are not explored by tests.",
  ["data/dataset.go", "data/data.go"],
  [("lookup", "data.(*Dataset).Get, GetNoCreate, GetOrCreateIfNotExists"), ("creation", "data.(*Dataset).CreateIfNotExists"), ("retention", "data.GetRetention")],
  "Every path of the getters and of creation; every store to a config in the repository. The cache library is trusted for atomicity of Add." + TRUST)

P("C25", "The saved list of datasets is complete, replaced atomically and loaded in full",
  "Saving writes the config of every dataset, each on a line of its own, to a temporary file and replaces the saved list by it only after everything was written, synced and closed without error, all under the lock of the datasets. "
  "Loading reads the same file to its end and creates a dataset, with a config of its own, for every line that can be decoded. "
  "A starting node loads the list; it is saved after a dataset was created or deleted, periodically, and when the datasets are closed.",
  ["fault_sequences", "crash_points", "inputs"],
  "Every set of datasets, every failure of a file operation, every moment of a crash.",
  "Tests neither crash between two file operations nor make them fail.",
  ["data/dataset.go", "node/node.go"],
  [("saving", "data.(*Dataset).SaveIndex"), ("loading", "data.(*Dataset).LoadIndex"), ("when", "data.NewDataset, node.(*Node).Periodic, data.(*Dataset).Close")],
  "Every path with every file operation failing or succeeding. A crash in between leaves either the old or the new file because rename is atomic." + TRUST)

P("C26", "Observing datasets never creates one or stores data",
  "Listing datasets, reading their configs or information, saving the list, describing the node, announcing it to peers and searching never create a dataset and never store a datum. "
  "Datasets enter the list only through the function that creates datasets.",
  ["inputs", "histories"],
  "Every state of the node and every order of calls.",
  "Needs a dataset to vanish between two steps, for example by expiry.",
  ["data/dataset.go", "data/data.go", "data/search.go", "node/node.go"],
  [("observers", "data.(*Dataset).List, DataConfigList, SaveIndex; node.(*Node).GetNodeInfo, Info, SearchStream; data.(*Data).GetDataInfo and searches"), ("creation", "data.(*Dataset).CreateIfNotExists")],
  "Reachability over the whole call graph, interface calls resolved to all implementations. Node.DataStream and Node.GetDataInfo do create a missing dataset and are not observers in this sense." + TRUST)

P("C28", "A draining node takes no inserts, is not ready, and is closed before it exits",
  "A draining node refuses inserts with an error, and never stops draining. "
  "Closing a node marks it as draining and not ready before its datasets are closed, and the server exits on a signal only after the node was closed. "
  "The node becomes ready only after a pass over all known peers; the readiness page reports success exactly when the node is ready and not draining, the health page exactly when it is healthy, in status and body alike.",
  ["histories", "schedules"],
  "Every order of signals, inserts, synchronisations and page requests.",
  "The tests do not shut a node down while it is used.",
  ["node/node.go", "node/nodeservice.go", "server/httpservice.go", "server/veriserviceserver.go"],
  [("inserts", "node.(*Node).Insert"), ("closing", "node.(*Node).Close, server.RunServer"), ("readiness", "node.(*Node).SyncWithPeers"), ("pages", "server.GetReady, server.GetHeath")],
  "Every path of these functions, every store to the state variables in the repository. An insert that passed the test before draining began may still complete." + TRUST)

P("C30", "Remote calls report success only when they succeeded, with the answer asked for",
  "A remote procedure of the node answers without error only when everything it did succeeded, and then with an answer: the information about the very dataset the request names, the peer of the request having been added. "
  "A request to another node goes to the node asked for, carries exactly the peer, dataset name or datum and options given, and reports success exactly when that node answered without error.",
  ["inputs", "fault_sequences"],
  "Every request, every failure of every call made on the way.",
  "Tests have no failing datasets or peers.",
  ["node/nodeservice.go", "node/datasourceclient.go"],
  [("procedures", "node.(*Node).Insert, Join, AddPeer, Ping, GetDataInfo, DataStream, SearchStream, CreateDataIfNotExists"), ("requests", "node.(*Node).SendJoinRequest, SendAddPeerRequest, SendPingRequest; node.(*DataSourceClient).Insert, GetDataInfo")],
  "Every path of every remote procedure and request with every fallible call failing or succeeding. Join answers with the address also when the peer was not added." + TRUST)

P("C22", "A node removes and overwrites only files that are its own",
  "Whatever a dataset is called, removing it removes only a folder strictly inside the data folder; apart from that the node removes only index files it created as temporary files, and on exit a server folder it created itself because none was configured. "
  "It renames or overwrites only its own list of datasets, and the folder of a dataset in use never changes.",
  ["inputs", "histories", "fault_sequences"],
  "Every dataset name, including empty, absolute and parent paths, every configuration and every failure.",
  "Names come from requests of any peer; tests use one harmless name.",
  ["data/data.go", "data/dataset.go", "data/newsync.go", "server/veriserviceserver.go"],
  [("folder", "data.(*Data).DeletePath"), ("index files", "data.(*Data).Process"), ("server folder", "server.RunServer"), ("list", "data.(*Dataset).SaveIndex")],
  "Every call in the repository that removes, renames, creates or writes a file, with the origin of its path." + TRUST)

P("C23", "What a node knows about peers is recent, newer than before, and never itself",
  "Information about a peer is kept, under an id made of its addresses in an order of their own, exactly when it does not describe the node itself, is recent (five minutes) and is newer than what is known, also when announcements arrive concurrently; it is forgotten only when stale. "
  "A peer is used exactly when it is another node and recent, and is added as a source of each dataset it announces through an address that is not the node's own. "
  "The node announces its known and advertised addresses, its services, the configs of its datasets and the current time.",
  ["inputs", "histories", "schedules"],
  "Every announcement, in every order and concurrently.",
  "Tests use two nodes announcing once.",
  ["node/node.go", "node/nodeservice.go"],
  [("keeping", "node.(*Node).AddPeerElement"), ("using", "node.(*Node).CheckPeer, SyncWithPeer, SyncWithPeers"), ("announcing", "node.(*Node).GetNodeInfo"), ("identity", "node.GetIdOfPeer, node.IsRecent")],
  "Every path of these functions with symbolic peers, addresses and timestamps, and the lock held between reading and writing the peer list. Timestamps in the future count as recent." + TRUST)

P("C29", "A dataset starts once and completely, and is closed before it is removed",
  "A dataset is initialised once, under its lock, and completely before its processor starts; a source is kept under its own id. "
  "It counts as inactive only when it holds no unexpired data and no source reports any; periodic maintenance closes and removes exactly the inactive datasets and starts the processors of the others. "
  "Closing marks a dataset as not alive first and then, if it has sources, hands over until nothing is left or a time limit has passed; a deleted or expired dataset, and every dataset of a node that closes, is closed.",
  ["histories", "schedules", "fault_sequences"],
  "Every order of creation, maintenance, deletion, expiry and shutdown, whatever the sources answer.",
  "Tests neither maintain nor expire datasets.",
  ["data/data.go", "data/dataset.go"],
  [("start", "data.(*Data).InitData, AddSource"), ("activity", "data.(*Data).CheckIfActive, data.(*Dataset).ReloadRuns"), ("closing", "data.(*Data).Close"), ("removal", "data.(*Dataset).Delete, Close, data.NewDataset")],
  "Every path of these functions with every answer of every source, and every store to the state of a dataset in the repository. An insert between the activity check and closing is not excluded; that the time limit is fixed before handing over starts is not checked." + TRUST)

P("C11", "A name stands for one scoring function, which computes what it is named after",
  "VectorDistance is the Euclidean distance, QuickVectorDistance the sum of absolute differences and VectorMultiplication the sum of products, each over all coordinates both vectors have; CosineSimilarity is the cosine with missing coordinates as 0, never beyond -1 or 1, and 0 if a vector is zero; AngularDistance is 1 - arccos(CosineSimilarity)/pi. "
  "GetVectorComparisonFunction returns for each of these names, and for AnnoyVectorDistance, AnnoyCosineSimilarity and AnnoyAngularDistance, the function named (without Annoy), for any other name VectorDistance, always the same.",
  ["inputs"],
  "Every pair of vectors of every length, and every name.",
  "Tests compare a few rankings; none checks a score, vectors of different lengths, zero vectors or the limits.",
  ["data/util.go", "data/search.go"],
  [("functions", "data.VectorDistance, QuickVectorDistance, VectorMultiplication, CosineSimilarity, AngularDistance"), ("names", "data.GetVectorComparisonFunction")],
  "Every path of the functions: the value returned is, as a formula over the real numbers, the one claimed, over sums that take every coordinate exactly once; every name in the table, which nothing changes. Rounding errors are not bounded (N03)." + TRUST)

P("C27", "Every request to a peer has a time limit and gives its connection back",
  "Every request a node sends to another node (join, add peer, ping, insert, search, dataset information) is made with a time limit, on a connection that it holds. A connection taken from the cache is given back exactly once, after its last use, on every path, and the connection opened for joining, the time limits and the file of the saved list are closed or released likewise; a connection that was not obtained is never given back.",
  ["inputs", "fault_sequences", "histories"],
  "For every request, failure of connecting, of the call or of its stream, and every path through the request.",
  "The leaks and hangs appear only on failing paths, slow peers, or after many calls; tests make a few successful calls between nodes on one machine.",
  ["node/nodeservice.go", "node/datasourceclient.go", "data/dataset.go"],
  [("SendJoinRequest, SendAddPeerRequest, SendPingRequest", "node/nodeservice.go"), ("DataSourceClient", "node/datasourceclient.go"), ("LoadIndex, SaveIndex", "data/dataset.go")],
  "Typestate over the path-sensitive analysis: connections, contexts and files are tracked from where they are obtained (success and failure apart) to where they are given back; every exit must hold none. The connection cache itself is trusted." + TRUST)

P("C32", "A dataset reports the exact number of its unexpired data",
  "The number of data N in the information of a dataset is the exact number of stored data found unexpired in one complete pass of Process over the dataset; nothing else changes it. N, average, histogram and maximum distance of a pass are published together in one hold of the dataset's write lock, after every successful and complete pass and never after an incomplete one. GetDataInfo returns these values, read in one hold of the lock, and timestamp, name, version, targets and NoTarget of the current config, each in the field of that name.",
  ["inputs", "schedules", "histories"],
  "Every content of the dataset, every mix of expired and unexpired entries, every moment of a reader.",
  "Tests insert a few data that never expire and look at N once; capacity decisions, eviction and hand-over depend on it at every moment.",
  ["data/newsync.go", "data/data.go"],
  [("pass", "data.(*Data).Process"), ("information", "data.(*Data).GetDataInfo")],
  "A counter of the analysis, raised once for every entry known to be unexpired, must equal the value stored as N; typestate of the lock and of the pass; equality of the returned fields. Every other store to N in the repository is reported." + TRUST)

# --- not applicable ---
NA = "Needs values of runtime quantities (message delivery, time, numeric error, the inner state of a native library) that no static argument over this source bounds."

P("N01", "Replicas converge",
  "When inserts stop and the peers stay connected, all peers of a dataset come to hold the same data up to their capacity.",
  ["histories", "schedules", "fault_sequences"], "Every history of inserts and every schedule of synchronisations.",
  "Convergence is a liveness property over unbounded time.", ["data/newsync.go"], [("synchronisation", "data.(*Data).Process")],
  na="Liveness under random peer selection and time-outs: hand-over is by random sampling, so convergence is probabilistic. " + NA)
P("N02", "Approximate search has useful recall",
  "An approximate search returns most of the nearest data an exact search would return.",
  ["inputs"], "Every data distribution.", "Recall is statistical.", ["data/newsync.go", "annoyindex"], [("index", "annoyindex")],
  na="Recall depends on random hyperplanes chosen inside a native library and on the data. " + NA)
P("N03", "Scores are numerically accurate",
  "Scores differ from the mathematical value of the distance or similarity by no more than the rounding error of the number type.",
  ["inputs"], "Every pair of vectors.", "Rounding error depends on all inputs.", ["data/search.go"], [("score functions", "data.VectorDistance and others")],
  na="A bound on accumulated floating-point error for vectors of unbounded length is out of reach of this analysis. " + NA)
P("N04", "Membership converges",
  "Every pair of live nodes connected through announced peers eventually knows each other, and a node that left is eventually forgotten.",
  ["histories", "schedules", "fault_sequences"], "Every topology and failure history.", "Liveness over a cluster.", ["node/node.go", "state/state.go"], [("gossip", "node.(*Node).SyncWithPeers")],
  na="Liveness of gossip over real time and a real network. " + NA)
P("N05", "Searches answer within their time-out",
  "A search returns within its time-out plus a small constant, whatever the peers do.",
  ["inputs", "fault_sequences", "schedules"], "Every behaviour of the peers.", "Wall-clock time.", ["data/search.go"], [("time-out", "data.(*Data).AggregatedSearch")],
  na="Wall-clock time of scheduling, iteration over the whole store and network calls is not bounded by the source. " + NA)
P("N06", "Concurrent inserts and deletes of a key are linearizable",
  "Concurrent inserts, deletes and searches of one key behave as if executed one after the other in an order consistent with real time.",
  ["schedules", "histories"], "Every interleaving.", "The number of interleavings.", ["data/newsync.go"], [("concurrent map", "data.(*Data).DBMap")],
  na="Needs the set of all interleavings of map operations as histories, which is a model-checking question; the static parts (atomic conditional removal, acknowledged means stored) are C01 and C04.")
