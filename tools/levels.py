T = ('Trusted: the extraction rules, the shims of the standard library, the specifications of the crypto primitives (SHA3/KMAC outputs of '
     'distinct inputs distinct where a theorem says so, AES-GCM unforgeable) and the storage contract of DbInterface.')
V = 'deductive verification of the real functions (Verus contracts on the source extracted from /repo on every run)'
H = 'A storage request takes effect at one moment; one that fails has no effect.'
def q(i, note, th=(), assumptions=()):
    p(i, 'proof', note + ' ' + T, V + (' and theorems on histories over their contracts' if th else ''), assumptions, th)
q('C01', 'Contracts of search, add, delete, insert, commit, get, walk, decompose and recompose down to the two tables, discharged for all inputs; the theorems lift them to every history of operations.',
  ('theorem_history', 'theorem_order', 'theorem_read', 'theorem_latest', 'theorem_asked', 'theorem_search', 'theorem_untouched'),
  ('Tokens of different chains, keys and labels differ; no token of a chain repeats (hypotheses of the theorems).', H))
q('C02', 'Byte-exact round trip of decompose/recompose, of the line and block layout and of the conversions of keywords and data, for every length.', ())
q('C03', 'commit reports a tag as new iff its accepted conditional write expected no entry, up to Findex::add/delete; the theorems give "by exactly one operation" for every interleaving.',
  ('theorem_all_done', 'theorem_new_once'), (H,))
q('C04', 'Contracts hold for any content of the store between two requests of one operation; the theorems order the operations by their accepted writes for every interleaving.',
  ('theorem_history', 'theorem_order'), ('Tokens of different chains differ (hypothesis of the theorems).', H))
q('C05', 'Contracts of compact, compact_batch, prepare/complete_compacting for any rate, key, label and filter; the theorems give the content of each keyword after all the batches.',
  ('theorem_compacted', 'theorem_batches', 'theorem_compact_clean', 'theorem_compact_other'),
  ('No addition or other compaction runs during a compaction (required by the documentation).', 'Tokens of different chains, keys and labels differ.', H))
q('C06', 'Chains are rebuilt from the live set with the minimal number of lines; old lines and entries are deleted; with a rate of at least one every entry is drawn (the f64 computation of the batch length is proved from axioms on rounding to nearest).',
  ('theorem_compact_clean', 'theorem_compact_cut', 'theorem_compact_other'),
  ('f64 addition, multiplication and comparison against one half are monotone and exact on integers below 2^48; log2 of a number of at least one is not negative.', 'Tokens of different chains, keys and labels differ.', H))
q('C07', 'The contract of complete_compacting fixes the order of the requests and the roll-back and holds for logs cut after any request; the theorem gives the state of each keyword at any cut.',
  ('theorem_compact_cut', 'theorem_compact_other'),
  ('No other operation runs during a compaction.', 'Tokens of different chains, keys and labels differ.', H))
q('C08', 'Tokens are functions of key, label and bytes; contracts of compact and compact_batch refuse equal credentials, token collisions and undecryptable entries before any write; isolation by the theorems.',
  ('theorem_untouched', 'theorem_compact_other'), ('Tokens of different keys and labels differ.', 'A value encrypted under one key does not open under another (ax_authentic).'))
q('C09', 'Request events carry only tokens derived with a key and values sealed under the key of the table; each nonce and each new seed is a draw of its own, over all the requests of an operation (the retries of commit and the batches of compact included).',
  ('theorem_nonces', 'theorem_nonces_apart', 'theorem_seeds', 'theorem_compact_seeds'),
  ('Distinct draws of the random generator are distinct values.', 'KMAC and AES-GCM outputs reveal nothing about keywords, data, labels and keys.'))
q('C10', 'A value is returned only if the AEAD opens it under the key of the table; an unopenable line or entry makes every operation that reads it fail.', (), ('AES-GCM is unforgeable and key-committing (ax_authentic).',))
q('C11', 'Conversions of EncryptedValue, Token and Entry: Ok iff the length fits, round trip, no panic.')
q('C12', 'Each method of InMemoryDb against the storage contract written from the documentation of DbInterface.')
q('C13', 'write/read/length of InMemoryDb round-trip, the announced length is the written one, no panic on any bytes; while reading, each request of memory is for at most as many elements as there are input bytes, and so is the number of rows of the result.',
  ('theorem_memory_round_trip',), ('A hash table grows in proportion to the elements inserted.',))
q('C14', 'Contracts of FindexGraph::get and walk (rounds, frontier, callback, termination measure) and theorems for a fixed index.', ('theorem_search', 'theorem_search_ends'),
  ('The index does not change during the search (theorems only).',))
q('C15', 'A failed request makes each operation return an error; searches only log reads; contracts of add/delete hold for logs cut after any request; a compaction succeeds only if all its requests did.', ('theorem_history',), (H, 'Tokens of different chains differ.'))
q('C16', 'Number, size, tokens and uniqueness of the lines and entry writes of an insertion are postconditions of commit, insert, decompose and derive_chain_tokens.')
q('C17', 'Derivations are fixed functions of all their inputs with distinct separators; prepare/resolve round trip.')
q('C18', 'compact_batch: the filter gets exactly the live data of the drawn chains; what is kept is what it returned; its error is returned before any write.', ('theorem_compact_cut', 'theorem_compact_clean'))
