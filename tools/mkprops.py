#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property list)."""
import json, os
H="internal/helpers/arrays.go"; P="internal/domain/profile.go"; IO="internal/helpers/io.go"; FB="internal/helpers/file_buffer.go"
DP="internal/infra/delta/protocol.go"; DS="internal/infra/delta/storage.go"; DF="internal/infra/delta/storagefactory.go"
IP="internal/infra/index/protocol.go"; IS="internal/infra/index/storage.go"; IF="internal/infra/index/storagefactory.go"
RP="internal/infra/recdb/protocol.go"; RL="internal/infra/recdb/likeprotocol.go"; RI="internal/infra/recdb/iterator.go"; RS="internal/infra/recdb/likestorage.go"
NS="internal/domain/namespaceservice.go"; LN="internal/domain/likenamespace.go"; VN="internal/domain/valueobjects/namespacename.go"; VT="internal/domain/valueobjects/namespacetype.go"
EP="internal/api/shard/endpoints/namespaceendpoint.go"; CF="internal/api/shard/config.go"
props=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":m,"where":w} for m,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    props.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","The last preference expressed for an item is the one reported",
 "For every user profile and every sequence of like, dislike, unlike, undislike and remove operations, asking the profile about an item reports liked, disliked or unknown exactly as determined by the operations applied to that item, the latest deciding. Liking an item withdraws a dislike of it and vice versa, unliking leaves a dislike alone and undisliking leaves a like alone, and an operation on one item never changes what is reported for any other item. Operations never change the user the profile belongs to.",
 ["inputs","histories"],"all 64-bit item ids, all profiles whose lists are canonical, all operation sequences",
 "Tests run two fixed sequences over two item ids; nothing covers lists longer than two, gaps, or all item values.",
 [P,H],[("Profile.Like/Unlike/Dislike/Undislike/RemoveItem/QualifyItem",P),("BinaryIndexOf, PutSavingOrder, RemoveSavingOrder",H)],
 [("Likes, Dislikes","ascending id lists of the profile",P)],["QualifyItem"])
p("C02","A profile's like and dislike lists stay sorted, duplicate free and disjoint",
 "Starting from a new profile (or any profile whose two lists are strictly ascending and have no item in common), after any sequence of like, dislike, unlike, undislike and remove operations both lists are again strictly ascending, and no item is in both. Each list holds exactly the items currently liked, respectively disliked, and the two lists never share storage.",
 ["inputs","histories"],"all canonical profiles, all item ids, all operation sequences",
 "Tests look only at the answer of a query after a handful of operations, never at the lists for arbitrary contents.",
 [P,H],[("Profile mutators",P),("PutSavingOrder, RemoveSavingOrder",H)],[("Likes, Dislikes","ascending id lists",P)],["Likes","Dislikes"])
p("C03","Similarity is the weighted Jaccard percentage and always in [0,100]",
 "For any two profiles with canonical lists and any dislike factor in [0,1], the similarity is 100*(jl*wl + jd*wd)/(wl+wd), where jl and jd are the Jaccard indices (intersection size over union size, 0 when both are empty) of the like and dislike sets, wl is the size of the union of the like sets, and wd is the size of the union of the dislike sets times the factor, rounded down. The result is never NaN or infinite and always lies between 0 and 100; it is 0 when wl+wd is 0. Neither profile is modified.",
 ["inputs"],"all pairs of canonical profiles, all factors in [0,1]",
 "Five fixed fixtures, always with factor 1 and never with an empty list.",
 [P,H],[("ComputeSimilarity, computeSimilarityBetweenSets",P),("BinaryIndexOf",H)],None,["ComputeSimilarity"])
p("C04","Searching a list finds exactly what is there",
 "For every list, linear search returns the index of the first equal element, or -1 exactly when there is none. For every ascending list (duplicates allowed), binary search returns the index of an equal element, or -1 exactly when there is none; closest-element search over unsigned values returns -1 only for the empty list and otherwise the index of an element whose distance to the wanted value is minimal. Every search terminates, never indexes out of range and leaves the list unchanged.",
 ["inputs"],"all lists of all lengths, all wanted values, including empty lists, duplicates and extreme values",
 "About twenty fixed arrays of at most six ints; no duplicates, no 64-bit extremes.",
 [H],[("IndexOf, BinaryIndexOf, BinaryIndexOfClosest, Deviation",H)],None,["return values"])
p("C05","Ordered insertion and removal change a list by exactly one element",
 "Inserting at a valid position, or removing the element at a valid position while keeping order, yields exactly the old elements in their old order with that one element added or removed. Ordered insertion of an unsigned value into an ascending list (duplicates allowed) yields an ascending list with one more occurrence of the value; ordered put into a strictly ascending list yields the same list when the value is already present and otherwise a strictly ascending list with the value added. Unordered removal keeps every other element.",
 ["inputs"],"all lists, positions and values",
 "About thirty fixed arrays of at most five ints, none with duplicates around the insertion point.",
 [H],[("Insert, InsertSavingOrder, PutSavingOrder, RemoveSavingOrder, Remove",H)],None,["returned slice"])
p("C06","The in-memory file behaves like a random access file",
 "For every content, offset and argument, the in-memory file reads from the current offset exactly the bytes stored there (end-of-file exactly at the end), writes by overwriting from the current offset and extending as needed without touching any other byte, seeks relative to start, current position or end and refuses positions outside the content without moving, and truncates or zero-extends to the requested size. The offset advances by exactly the number of bytes transferred, and after closing every operation fails without changing anything.",
 ["inputs","histories"],"all contents, offsets, buffers, sizes, whence values and operation sequences",
 "It has no tests of its own; other tests use it with tiny files.",
 [FB],[("FileBuffer.Read/Write/Seek/Truncate/Close",FB)],[("buffer, offset, closed","the file content, position and state",FB)],["Read","Write","Seek","Truncate","Bytes"])
p("C07","Zero filling and skipping transfer exactly the requested number of bytes",
 "Asking to write n zero bytes (n >= 0) either writes exactly n zero bytes and reports n without an error, or reports an error; skipping n bytes either consumes exactly n bytes of the stream and reports n without an error, or reports an error. The bytes written are always zero, whatever was read or skipped before.",
 ["inputs","histories","fault_sequences"],"all sizes, all conforming writers and readers including failing ones",
 "Only reached through entry tests with 5 spare bytes; never more than one chunk, never a failing stream.",
 [IO],[("WriteZeros, SkipReading",IO)],[("zeros, dump","static buffers",IO)],["returned count and error"])
p("C08","Delta records are encoded exactly and decoded back to the same values",
 "Writing a delta prefix, header or entry emits exactly the documented bytes (8 magic bytes; version, lock, big-endian 32-bit count; operation, big-endian 64-bit user and item, one-byte modular sum of the preceding 17 bytes), and reading those bytes back consumes exactly them and yields the same values. The checksum predicate accepts an entry exactly when its stored checksum equals that sum, so any change of a single byte of an encoded entry is detected. Reading a prefix succeeds only on the magic bytes, and reading from a stream that is too short fails.",
 ["inputs"],"all header and entry values, all byte strings",
 "One fixed header and entry each way; one corrupted byte.",
 [DP],[("WritePrefix/ReadPrefix/WriteHeader/ReadHeader/WriteEntry/ReadEntry/CalcEntryChecksum/ValidateEntryChecksum",DP)],None,["bytes written","decoded structs"])
p("C09","Index records are encoded exactly and decoded back to the same values",
 "Writing an index prefix, header or entry emits exactly the documented bytes (6 magic bytes; version, lock, big-endian 32-bit count; big-endian 64-bit id and index) and reports their number; reading those bytes back consumes exactly them and yields the same values. Reading a prefix succeeds only on the magic bytes, and reading from a stream that is too short fails.",
 ["inputs"],"all header and entry values, all byte strings",
 "One fixed value each way.",
 [IP],[("WritePrefix/ReadPrefix/WriteHeader/ReadHeader/WriteEntry/ReadEntry",IP)],None,["bytes written","decoded structs"])
p("C10","Profile database records round-trip within their fixed capacity",
 "Writing a profile database prefix, header or entry emits exactly the documented layout (5 magic bytes; version, 8-byte type, lock, big-endian count; capacity, deleted flag, user, counted likes, counted dislikes, zero padding up to the capacity), and reading it back yields the same record and consumes exactly the record's capacity. An entry that does not fit its capacity is refused before anything is written, and reading a record whose data does not fit its stated capacity fails. Predicted sizes are the exact encoded sizes and the suggested capacity is never smaller than the size; creating a database writes a prefix and an unlocked header with no entries.",
 ["inputs"],"all headers, all profiles, all capacities, all byte strings",
 "One fixed 50-byte entry each way; creation is never tested.",
 [RP,RL,IO],[("Create/WritePrefix/ReadPrefix/WriteHeader/ReadHeader/WriteEntry/ReadEntry/PredictEntrySize/PredictEntryCapacity",RP),("ReadEntryData/WriteEntryData/PredictDataSize",RL),("WriteZeros/SkipReading",IO)],None,["bytes written","decoded structs"])
p("C11","Marking or testing a file's lock touches nothing but the lock byte",
 "For each of the three file formats, setting the lock state changes exactly the lock byte of the file (1 for locked, 0 for unlocked) and no other byte, and testing the lock state changes no byte and answers true exactly when that byte is not zero. Both leave the file position where it was when they succeed.",
 ["inputs"],"all file contents containing the lock byte, all file positions, both lock states",
 "Tests only use a header-only file at position 0 and never check the position.",
 [DP,IP,RP],[("WriteLocked, IsLocked (three copies)","delta, index and recdb protocol.go")],None,["file bytes","file position"])
p("C12","Recovery of a delta file keeps exactly the intact entries",
 "For every byte string, recovering it yields a well-formed unlocked delta file whose entries are exactly the complete entries of the source with a correct checksum, in the source order, and whose header counts exactly these entries; a source without an intact prefix and header yields an empty delta file. In-place recovery gives that result whatever the current file position is, leaves no trailing bytes, and leaves the file ready to be opened. Recovering a recovered file again changes nothing. (Sources of less than 77309411328 bytes, so that the entries can be counted in 32 bits.)",
 ["inputs"],"all source byte strings, all initial file positions; no I/O faults",
 "Six fixed sources of at most two entries, always positioned at the start.",
 [DP,DF],[("RecoverTo",DP),("Recover",DF),("FileBuffer",FB)],None,["recovered bytes"])
p("C13","A delta store reports the latest operation for each user-item pair",
 "For any history of additions and flushes on an open delta store, looking up a user-item pair returns the operation of the latest addition for that pair, or 'absent' exactly when there has been none (in this session or in the file opened). Adding for one pair never affects the answer for another pair, and flushing changes no answer. The user count is the number of distinct users with at least one stored operation, and, for a file without trailing bytes, the reported file size is exactly the file's length after the next successful flush. (Stores with fewer than 2^32 operations.)",
 ["inputs","histories"],"all users, items and operations, all interleavings of add, flush and lookup",
 "Three adds per test, never a lookup after a flush in the same session.",
 [DS],[("Add, Get, GetUserCount, GetTotalItemCount, GetFileSize, Flush",DS)],[("deltaCache, newDelta, totalItemCount","flushed and unflushed operations per user",DS)],["Get","GetUserCount","GetFileSize"])
p("C14","A delta store survives flush, close and reopen unchanged",
 "After a successful flush the file consists of the delta prefix, a header counting exactly the entries that follow, and those entries, every one with a correct checksum; entries already in the file are never altered. Opening a closed delta file (of exactly the size its header promises, with valid entry checksums, as closing and recovery leave it) gives a store that answers every lookup exactly as the closed store did, whatever order the store wrote its pending operations in.",
 ["inputs","histories"],"all store contents, all map iteration orders, files with fewer than 2^32 entries; no I/O faults",
 "One reopen of three entries.",
 [DS,DF,DP],[("flushHeader, flushEntries, Flush, Close",DS),("Open",DF),("entry codec",DP)],[("file content","the on-disk log",DS)],["file bytes","Get after reopen"])
p("C15","A delta file is locked exactly while it is open and reopening never fails",
 "Opening an empty file creates a well-formed delta file; a successfully opened file is marked locked until closed, opening a file marked locked fails without changing it, and a close that reports success leaves a file marked unlocked that has all entries. While a store is open no write ever clears the lock mark, and closing clears it only after all pending entries are in the file, so a crash at any point while a store is open or closing leaves a file that is either marked locked or complete. Opening with recovery succeeds on an empty file, on a file cut short before its first entry, and on any locked file (of less than 77309411328 bytes, so that its entries can be counted in 32 bits).",
 ["inputs","crash_points","histories"],"all file contents, all points between individual file writes of open, flush and close",
 "Tests check the lock byte after open and after close only; no test looks between writes or opens an empty or short file with recovery.",
 [DF,DS,DP],[("Open, OpenMaybeRecover, Recover",DF),("Close, Flush",DS),("WriteLocked, IsLocked",DP)],[("lock byte","header field",DP)],["file bytes after every write"])
p("C16","An index store is a map that survives close and reopen",
 "For any history of puts and removals, looking up an id returns the index last put for it, or 'absent' exactly when it was never put or was removed since; no operation affects another id. A successful close writes the prefix, an unlocked header with the exact number of ids, and one entry for every id, and opening that file gives a store that answers every lookup as the closed one did, whatever the order of entries.",
 ["inputs","histories"],"all ids and indices, all histories, all map iteration orders, fewer than 2^32 ids; no I/O faults",
 "Two ids per test; reopening with content is never tested.",
 [IS,IF,IP],[("Get, Put, Remove, Close, load, saveHeader, saveEntries, create",IS),("Open",IF)],[("indices","the id to index map",IS)],["Get","file bytes"])
p("C17","An index file is locked while open and never left unlocked half-written",
 "A successfully opened index file is marked locked; opening a file that is marked locked, or has a wrong prefix, or is shorter than its header promises, fails, and a locked one is reported as a corrupted file so that the caller can rebuild it. Closing marks the file unlocked only after the count and every entry have been written, so a crash or write failure at any point leaves the file either marked locked or complete.",
 ["inputs","crash_points","fault_sequences"],"all file contents, all points between individual file writes, failing writes",
 "Tests look at the lock byte before and after a close of an empty store.",
 [IS,IF,LN],[("load, create, Close, saveHeader, saveEntries",IS),("Open",IF)],[("lock byte","header field",IP)],["file bytes after every write","error kind"])
p("C18","Iterating a profile database visits each record and rewrites only that record",
 "For every well-formed unlocked database file, iteration yields all counted records in file order and then stops, rewinding starts again at the first record, and a locked file or wrong prefix is refused. Replacing the record returned last with one of the same capacity overwrites exactly the bytes of that record and nothing else, whatever its position in the file and however far the file was read ahead, and iteration continues with the following record; replacing before the first record, or with another capacity, fails and changes nothing.",
 ["inputs","histories"],"all databases, all record sizes and counts, all interleavings of next, rewind and replace",
 "Tests use files with a single 50-byte record, where the read-ahead happens to end at the record.",
 [RI,RP],[("NewIterator, Rewind, HasNext, Next, SetPrevious",RI)],[("fileOffset, entryIndex","iterator position",RI)],["returned entries","file bytes"])
p("C19","The namespace registry keeps names unique and applies requests to the named one",
 "Creating a namespace fails and changes nothing in the registry if the name is taken, and otherwise adds exactly one namespace with the requested name, type, limit (default 1000 when 0 is given) and factor; looking up a name returns the namespace with that name or nothing. Updating changes exactly the addressed namespace, refuses a name held by another one, and returns; deleting stops and removes exactly the addressed namespace. Names in the registry are unique after every sequence of requests.",
 ["inputs","histories"],"all registries with unique names, all request sequences",
 "There are no tests for the registry.",
 [NS,LN],[("CreateNamespace, UpdateNamespace, DeleteNamespace, GetNamespaceByName, forgeNamespace",NS),("NewLikeNamespace, Rename",LN)],[("namespaces","the registry",NS)],["GetNamespaces","GetNamespaceByName"])
p("C20","Only safe namespace names and known types are accepted",
 "A namespace name is accepted exactly when it consists of an ASCII letter followed by any number of ASCII letters, digits, underscores or hyphens, so a name can never contain a path separator, a dot or a line break or be empty; the accepted value is kept unchanged. A namespace type is accepted exactly when it is the like type, and requests with an unacceptable name or type are refused with an error naming the field.",
 ["inputs"],"all strings",
 "There are no tests for names or types.",
 [VN,VT,"internal/api/shard/dto"],[("ParseNamespaceName",VN),("ParseNamespaceType",VT),("ToDomain","internal/api/shard/dto")],None,["returned error","Value"])
p("C21","Storage code never reports success after a failed file operation",
 "Whenever a read, write, seek, truncate, flush or close of the underlying file or stream fails during an operation of the delta, index or profile database code that can report an error, that operation reports an error; only the end of the source during delta recovery counts as normal. No operation panics because of such a failure.",
 ["fault_sequences","inputs"],"every single underlying call of every operation failing, at any point, after any partial effect",
 "No test ever makes a file operation fail.",
 [DP,DS,DF,IP,IS,IF,RP,RL,RI,IO],[("error returns","all storage functions")],None,["returned errors"])
p("C22","Registered namespaces survive a restart",
 "After a successful create, update or delete, a newly started service that loads the saved registry has exactly the same namespaces with the same names, types, limits and factors.",
 ["histories","inputs"],"all request histories followed by a restart",
 "There are no tests for saving or loading.",
 [NS],[("SaveNamespaces, LoadNamespaces",NS)],[("namespaces.json","saved registry",NS)],["GetNamespaces after LoadNamespaces"])
p("C23","Every action of a batch is answered exactly once, on its own channel",
 "When the storage worker processes a batch of actions, each action gets exactly one answer, on the reply channel that fits its kind (a result for queries, an error or success for changes, an error for an unknown kind), in the order of the batch, and no action is answered twice or skipped.",
 ["inputs","histories"],"all batches of any length and mix of kinds",
 "There are no tests for action processing.",
 [RS,"internal/domain/actions.go"],[("ProcessActions",RS)],None,["messages on reply channels"])
p("C24","Concurrent clients of a namespace are always answered, also when it stops",
 "However client calls, stop and context cancellation interleave, every client call on a namespace returns (with a result or an error), no call panics, and after a stop or cancellation the stores are closed.",
 ["schedules"],"all interleavings of client calls, Stop and cancellation",
 "No test starts a namespace.",
 [LN],[("Start, Stop, sendStoppedLikeNamespaceErrorToActionWaiters",LN)],[("action","the action queue",LN)],["client call results"])
p("C25","Settings come from the environment with sane fallbacks",
 "The host is the environment's value when it is set and the given or built-in default otherwise; the port is the environment's value when that is a non-negative decimal number and the given or built-in default otherwise; the listen address is host, colon, port. The base path from the environment is used for all files, always separated by exactly one added slash when it does not end in one, and is empty when unset.",
 ["configurations","inputs"],"all environment values, all defaults",
 "There are no tests for the configuration.",
 [CF,NS],[("NewConfigFromEnv, GetHostPort",CF),("NewNamespaceService, getNamespacesJsonPath",NS)],None,["Config","file paths"])
p("C26","The REST handlers answer once, with the status that fits the outcome",
 "For every request, each namespace handler sends exactly one response: 201 with the created namespace only when it was created, 200 with the named namespace only when it exists, 404 when the named namespace does not exist, 400 when the body or name is invalid or the request is refused. The namespace addressed is the one named in the URL.",
 ["inputs","histories"],"all requests and registry states",
 "There are no tests for the REST API.",
 [EP,"internal/api/shard/endpoints/helpers.go","internal/api/shard/dto"],[("Create, Get, List, Update, RegisterRoutes",EP),("AbortWithBindingErrors, AbortWithValidationError","internal/api/shard/endpoints/helpers.go")],None,["HTTP status and body"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for q in props: f.write(json.dumps(q,ensure_ascii=False)+"\n")
print(len(props))
