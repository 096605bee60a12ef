#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept as a script only so the JSON stays well formed).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
        state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
        observe_at=obs or [],hook_needed=None)))
MM="src/findex_mm/mm.rs"; MS="src/findex_mm/structs.rs"; MC="src/findex_mm/compact.rs"
GG="src/findex_graph/graph.rs"; GS="src/findex_graph/structs.rs"; GC="src/findex_graph/compact.rs"
IX="src/index/mod.rs"; IS="src/index/structs.rs"; EM="src/edx/mod.rs"; ES="src/edx/structs.rs"
ET="src/edx/entry_table.rs"; CT="src/edx/chain_table.rs"; MA="src/macros.rs"
p("C01","Search returns exactly what the history of additions and deletions says",
 "After any sequence of successful additions and deletions under one key and label, a search returns for every requested keyword exactly the data whose latest operation (on that keyword, or on a keyword reachable from it through keyword associations) was an addition. Every requested keyword has an entry in the answer, which is empty when nothing is associated to it. Operations on one keyword never change what another, unrelated keyword returns.",
 ["histories","inputs"],"every finite history of add/delete calls, every set of keywords and values (any bytes, any number, repeated values), every later search",
 "the tests run a handful of fixed histories with few values and never repeat, interleave or re-add deleted values over several lines of a chain; the quantifier is over all histories",
 [MM,MS,GG,IX],[("chain of append-only lines replayed in order",MM+": decompose/recompose/get/insert/commit"),("last chain token kept in the entry",MM+": commit, derive_metadata, unroll"),("one modification list per keyword",IX+": add/delete"),("graph walk",GG+": get/walk")],
 [("entry","per-keyword record: chain seed, keyword hash, last chain token","entry store"),("chain lines","encrypted lines of blocks","chain store")],["Index::search results","storage content"])
p("C02","Keywords and data of any bytes and any length come back unchanged",
 "Whatever bytes a keyword or a piece of data is made of, and whatever its length (zero included), once indexed it is returned by searches and handed to callbacks byte for byte, with its kind (data or keyword association) unchanged. Two different values are never merged and one value is never split, truncated, padded or reordered. Indexing a value never makes the values already indexed under the same keyword unreadable.",
 ["inputs"],"every sequence of values of every length and content, in every position relative to block and line boundaries",
 "the tests use short printable strings and 32-byte values; the boundary cases (empty values, exact multiples of the block size, values spanning lines, bytes equal to markers) are an unbounded family",
 [MM,MS,GS],[("block codec with length / continuation byte",MS+": Link::{set,get}_block, {set,get}_operation"),("value <-> block sequence",MM+": decompose, recompose"),("kind prefix",GS+": IndexedValue <-> bytes")],
 [("line","1 operation byte and 5 blocks of 1+16 bytes","chain store")],["search results","data filter argument","interrupt argument"])
p("C03","Additions and deletions report exactly the newly indexed keywords",
 "An addition or deletion returns exactly those of the keywords it was given which had no entry in the index at the moment its change took effect. A keyword is therefore reported as new by one and only one successful operation, even when several operations race to create it, until a compaction removes it.",
 ["inputs","histories","schedules"],"every history and every interleaving of concurrent additions/deletions, every keyword set",
 "the tests check the returned set in two sequential calls; losing and winning a creation race is only sampled",
 [MM,IX],[("new-tag bookkeeping and retain after each upsert round",MM+": commit")],
 [("new_tags","keywords believed new","commit loop")],["return value of add/delete"])
p("C04","Concurrent additions and deletions never lose or damage each other's data",
 "When any number of additions and deletions run concurrently on the same index, under any interleaving of their storage requests, once all have succeeded a search returns, for each keyword, the result of executing their changes to that keyword one after the other in some order. No operation ever overwrites or removes a line written by another one.",
 ["schedules","histories"],"every interleaving of the storage calls of any number of concurrent add/delete operations on overlapping keywords",
 "one stress test runs concurrent additions under whatever interleaving the executor picks, in a memory store without suspension points; other schedules are never reached",
 [MM,ET,EM],[("compare-and-swap on entries, retried with the value found",MM+": commit"),("each winner reserves the next range of chain tokens",MM+": derive_chain_tokens"),("insert refuses tokens already used",EM+": DbInterface::insert")],
 [("last chain token","end of the range of chain tokens reserved so far","entry store")],["storage request sequence","later search"])
p("C05","A successful compaction preserves search results under the new key and label",
 "After a successful compaction of an index written under one key and label, with any compacting rate, a search under the new key and label returns for every keyword what the same search returned before under the old ones, minus the data rejected by the data filter (which applies only to the chains that were compacted). A search under the old key and label returns nothing. This holds again after any further operations and compactions, including when only the key or only the label changes.",
 ["histories","inputs","configurations"],"every index content (duplicates, deletions, cycles, empty chains), rate, filter, key and label change, and sequence of compactions and updates",
 "tests compact small fixed indexes a few times; which chains are compacted is random and the combination of partially compacted chains with later updates is unbounded",
 [MC,GC,IX],[("re-derivation and re-encryption of every entry",MC+": complete_compacting"),("reading of the chains",MC+": prepare_compacting"),("batching, filter and random selection",IX+": compact, compact_batch, select_random_tokens")],
 [("continuation data","entries and chain tokens read at the start","compaction")],["search under old and new credentials"])
p("C06","A full compaction leaves no deleted, duplicate or needlessly padded data",
 "After a successful compaction with a compacting rate of at least one (and no earlier failed operation), each keyword's chain holds exactly its live values, each once, in the smallest number of lines that can hold them (a value of n serialized bytes takes n/16 + 1 blocks, rounded down, and a line holds five), and the stores contain no line or entry that belongs to none of these chains. Keywords left without any value have no entry any more.",
 ["inputs","histories"],"every index content and history before the compaction, every data filter",
 "tests only compare sizes before and after on one data set",
 [MC,MM,IX],[("set semantics of the values read",MM+": recompose"),("deletion of old lines and entries",MC+": complete_compacting"),("full selection when enough draws are requested",IX+": get_compact_line_number, select_random_tokens")],
 [("number of stored lines","storage footprint","chain store")],["stored lines and entries after the compaction"])
p("C07","A failed or interrupted compaction never loses indexed data",
 "If any storage request of a compaction fails, or the process stops between two of them, what every keyword holds (its own values and keyword associations) can still be read completely (or, where its re-encryption took effect, completely as compacted) under the old or under the new key and label; the results of a search follow, except that after a compaction of more than a million keywords stopped halfway, keywords and the keywords they are associated to may need different credentials. When the insertion of the new entries or lines of a batch fails, the entries and lines stored before the batch are left in place and the lines the batch added are removed.",
 ["crash_points","fault_sequences","histories"],"every index content and every choice of the storage requests that fail or after which execution stops",
 "no test injects a storage failure or stops in the middle of a compaction",
 [MC,IX],[("insert new lines, insert new entries, only then delete old ones; revert on error",MC+": complete_compacting")],
 [("old and new lines and entries","coexist between insertion and deletion","both stores")],["storage content after the failure","search under both credentials"])
p("C08","Indexes under different keys or labels are isolated",
 "What is indexed under one key and label can be neither found, altered nor removed by additions, deletions and searches under another key or another label, even in the same stores and for the same keywords. A compaction asked to keep both the key and the label is refused, and one that would write two entries to the same place, or that meets entries it cannot decrypt, is refused too, without any change to the stores.",
 ["inputs","configurations","histories"],"all pairs of keys and labels (including labels that are prefixes of each other), all keywords, all histories",
 "tests use one wrong key and one wrong label on a fixed index",
 [ET,CT,MM,MC,IX],[("entry token derived from key, keyword hash and label",ET+": tokenize"),("chain key derived from a per-keyword random seed",CT+": derive_keys"),("identical-credentials guard",IX+": compact"),("collision guard",MC+": complete_compacting")],
 [],["search results","storage content"])
p("C09","The storage only sees derived tokens and freshly encrypted fixed-size values",
 "Every request sent to the storage backend carries only tokens derived with a secret key and values of constant length encrypted under a secret key; keywords, data, labels and keys never appear in them. Every encryption draws a new random nonce, every newly created chain and every compacted chain draws a new random seed, and a retried write is encrypted again.",
 ["inputs","histories"],"every operation on every input: all tokens and values sent to the store, all nonces and seeds ever used",
 "no test looks at the requests; uniqueness of nonces and seeds over all operations cannot be sampled meaningfully by outcome tests",
 [ES,ET,CT,MM,MC],[("random nonce per encryption",ES+": EncryptedValue::encrypt"),("random seed",ES+": Seed::new"),("fixed-length Entry and Link",MS),("seed for new entries",MM+": commit"),("seed for compacted chains",MC+": complete_compacting")],
 [("nonce","12 random bytes per stored value","encrypted value"),("seed","16 random bytes per chain","entry")],["DbInterface requests"])
p("C10","Tampered or foreign stored values are rejected, never returned as data",
 "A stored value is only accepted under the key it was encrypted with: if any byte of a stored entry or line was altered, or if it was encrypted under another key, every operation that reads it fails with an error and returns no data derived from it. A successful decryption returns exactly the value that was encrypted.",
 ["inputs","fault_sequences"],"every stored value, every alteration of it and every wrong key",
 "tests only decrypt genuine values",
 [ES,ET,CT,MM],[("AES-GCM tag check, result propagated",ES+": EncryptedValue::decrypt"),("resolve errors abort",MM+": fetch_entries, get, commit")],
 [],["result of search/add/delete/compact on altered stores"])
p("C11","Serialized encrypted values and tokens round-trip and reject wrong lengths",
 "Serializing an encrypted value gives a byte string of the announced constant length from which the same nonce, ciphertext and tag are read back; any byte string of another length is refused with an error, never with a crash. The same holds for tokens and for the plaintext entry record, whose keyword hash, seed and last chain token (present or absent) are read back unchanged.",
 ["inputs"],"every encrypted value, token and record; every byte string of every length",
 "tests round-trip one random value",
 [ES,MS],[("EncryptedValue <-> bytes",ES),("Token <-> bytes",ES),("Entry <-> bytes",MS)],[],["conversion results"])
p("C12","The bundled in-memory store implements the storage contract exactly",
 "The bundled store's conditional write accepts a new value exactly when the expected value (or absence) matches what is stored, returns the stored value for each rejected token, and fails without any change when a value is expected where none is stored. Its insertion is all-or-nothing and refuses to overwrite, its fetch returns exactly the present tokens among those requested, its deletion removes exactly the tokens given, and its dump lists exactly the stored tokens.",
 ["inputs","histories"],"every store content and every request, including several tokens with different outcomes in one request",
 "only single-token cases of the upsert table are exercised by tests",
 [EM],[("case analysis of the upsert table",EM+": in_memory::InMemoryDb::upsert"),("check before extend",EM+": in_memory::InMemoryDb::insert")],
 [("table","token -> encrypted value","InMemoryDb")],["results and content of the store"])
p("C13","A serialized in-memory store reads back identical, and bad input never crashes",
 "Serializing the bundled in-memory store and reading it back gives a store with the same content, and the number of bytes written is the announced one. Reading any other byte string either gives a store or an error, without crashing or allocating memory out of proportion to the input.",
 ["inputs"],"every store content (any number of values) and every byte string",
 "no test serializes a store",
 [EM],[("Serializable for the in-memory store",EM+": in_memory::InMemoryDb::{length,write,read}")],[],["bytes written, store read"])
p("C14","Graph search is complete, terminates on cycles and honours interrupts",
 "A search follows keyword associations through any number of levels, terminates on every graph including cyclic and self-referencing ones, and returns the data of every reachable keyword. The interrupt callback receives the results of every round exactly once, in order; when it asks to stop, no further round is made and the results obtained so far are returned; when it fails, the search fails with its error.",
 ["inputs","programs"],"every finite graph of keyword associations, every set of requested keywords, every interrupt behaviour",
 "tests walk one fixed three-level graph and one loop",
 [GG,IX],[("frontier loop with already-known filter",GG+": get"),("visited set",GG+": walk")],
 [("graph","keywords fetched so far and their values","search")],["search result","sequence of interrupt calls"])
p("C15","Storage errors surface, searches never write, failed updates keep earlier data",
 "When a storage request fails, the operation that made it returns an error: it never reports success or a partial result. A search sends only read requests. If an addition or deletion stops or fails between two storage requests, every value indexed by earlier operations is still returned as before, and later operations on the same keywords work normally.",
 ["fault_sequences","crash_points","histories"],"every history and every single or repeated failure/stop point among the storage requests of an operation",
 "no test injects failures",
 [MM,GG,IX,ET,CT],[("entry first, lines next; missing lines are skipped when reading",MM+": insert, get"),("errors propagated with ?",MM+", "+GG+", "+IX)],
 [("entry ahead of its lines","state between the two writes of an update","stores")],["operation results","later searches"])
p("C16","Updates are append-only and use the fewest possible constant-size lines",
 "An addition or deletion writes, for each keyword concerned, exactly the smallest number of new lines that can hold its values as sequences of blocks (n/16 + 1 blocks, rounded down, for a value of n serialized bytes; five blocks a line), all of the same size, and rewrites exactly one entry per keyword; it never rewrites, moves or deletes an existing line. The lines of a keyword are stored at the successive tokens that follow the ones it already uses.",
 ["inputs","histories"],"every list of values for every keyword in every index state",
 "no test inspects what is written",
 [MM,MS],[("dense packing of blocks",MM+": decompose"),("token chain continued from the last token",MM+": derive_chain_tokens, commit"),("insert-only writes of lines",MM+": insert")],
 [],["lines and entries written by one operation"])
p("C17","Tokens are deterministic, bound to key and label and separated by role",
 "Deriving keys and tokens is deterministic: the same seed, bytes and label always give the same token, in every process. Entry tokens depend on the key, on the bytes and on the label; chain tokens depend on the key and the bytes only; token and encryption sub-keys and the two tables' keys are derived with different domain separators from the whole seed. A value prepared with a key is read back unchanged with the same key.",
 ["inputs"],"every seed, byte string, label and value",
 "tests compare a few samples; a dropped input or a shared separator shows only for particular pairs",
 [ET,CT,ES,MA],[("derive_keys",ET+", "+CT),("tokenize",ET+", "+CT),("kmac macro",MA),("encrypt/decrypt",ES)],[],["tokens and keys produced"])
p("C18","The compaction data filter sees the live data and decides exactly what remains",
 "During a compaction the data filter receives exactly the live data of the chains being compacted (neither deleted data nor keyword associations), and exactly the data it returns stays associated to the keywords it was associated to; it cannot add associations, and keyword associations are never filtered out. If the filter fails, the compaction fails with its error and the stores are unchanged.",
 ["inputs","programs"],"every index content, every filter behaviour (dropping, keeping, inventing data, failing), every compacting rate",
 "tests use one filter on one data set",
 [IX,GC,MC],[("collection of the data, filtering of the associations",IX+": compact_batch"),("error mapping",IX+": compact_batch")],[],["filter argument","search after the compaction"])
p("C19","Secret keys and seeds are erased from memory when dropped",
 "Every key and seed held by the library is overwritten with zeros when it goes out of use.",
 ["inputs"],"every key and seed, every code path that drops it",
 "no test inspects freed memory",
 [ES],[("Zeroize / Drop for Seed, ZeroizeOnDrop for keys",ES)],[],["memory after drop"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
