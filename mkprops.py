"""Regenerates properties.jsonl (kept so the statements have one editable source)."""
import json, os

T = 'src/zope/index/'
def P(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    return dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[T+f for f in files],
            state=[dict(name=a, meaning=b, where=T+c) for a, b, c in state],
            mechanism=[dict(name=a, where=T+b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook))

TB = 'text/baseindex.py'; TO = 'text/okapiindex.py'; TC = 'text/cosineindex.py'; TL = 'text/lexicon.py'
HIST = ('every history of index, reindex, unindex and clear calls, split into transactions on several database '
        'connections that commit, abort, roll back to savepoints, conflict and retry, with object-cache evictions '
        'and database restarts at arbitrary points')
props = [
P('C01', 'Field index range searches and counts match the current documents',
  'After any history of indexing, reindexing, unindexing and clearing, a field index range search returns exactly the ids of the documents whose current value lies between the two bounds inclusive, a bound of None being open, whatever orderable values (None included) are stored. Its document count and distinct-value count are those of the current documents. This holds in the transaction that made the changes and, once committed, on every connection, whatever was evicted from caches, aborted, retried or restarted in between.',
  ['histories', 'schedules', 'configurations'], HIST + '; values of every orderable kind; both id widths; any container node size',
  'The tests run a handful of fixed call sequences on one in-memory index; they never store the index in a database, evict it, or run two connections, so a change that is never written, or a forward and reverse map that drift apart, passes.',
  ['field/index.py'], [('forward/reverse maps kept in step', 'field/index.py: index_doc, unindex_doc')],
  [('_fwd_index', 'value -> set of ids', 'field/index.py'), ('_rev_index', 'id -> value', 'field/index.py'), ('_num_docs', 'number of documents', 'field/index.py')],
  ['FieldIndex.apply', 'documentCount', 'wordCount']),
P('C02', 'Field index sort orders exactly the indexed ids, whatever strategy it picks',
  'Sorting a collection of ids with a field index yields exactly those of them that are currently indexed, each once, in ascending (or, if asked, descending) order of their current values, None ordering below every other value; with a limit it yields a best prefix of that length. The answer (up to the order of ids with equal values) does not depend on which collection type holds the ids, how many of them are unknown, how big the index is, or on the history of updates, evictions, aborts and restarts behind it.',
  ['histories', 'inputs', 'configurations'], HIST + '; id collections of all kinds and sizes, so that each of the lazy, n-best and full-sort strategies is taken',
  'The strategy is chosen from sizes; tests force each strategy by hand on ten documents with small integers and never combine it with a history, unknown ids of other value types, or None.',
  ['field/sorting.py', 'field/index.py'], [('strategy choice and three sort paths', 'field/sorting.py: sort')],
  [], ['FieldIndex.sort']),
P('C03', 'Keyword index searches and counts match the current documents',
  'After any history of indexing, reindexing, unindexing, clearing, optimizing and threshold changes, an "and" (or "or") search of a keyword index returns exactly the ids whose current normalized keyword set contains all (or any) of the normalized query keywords; a document given no keywords is not in the index. Its document count, keyword count and membership test are those of the current documents. This holds in the changing transaction and, once committed, on every connection, whatever was evicted, aborted, retried or restarted in between.',
  ['histories', 'schedules', 'configurations'], HIST + '; keyword collections of any kind incl. ones that normalize to nothing; thresholds crossed in both directions',
  'Tests use five fixed documents in memory; set-to-tree conversion, emptied keywords and normalization to nothing are each tried once, never through storage or after one another.',
  ['keyword/index.py'], [('keyword set differencing on reindex', 'keyword/index.py: index_doc'), ('set/tree conversion', 'keyword/index.py: _insert_forward, optimize')],
  [('_fwd_index', 'keyword -> set of ids', 'keyword/index.py'), ('_rev_index', 'id -> keywords', 'keyword/index.py')],
  ['KeywordIndex.search', 'apply', 'has_doc', 'documentCount', 'wordCount']),
P('C04', 'Topic index searches match the latest objects and filters',
  'After any history of adding, replacing, deleting and clearing filters and of indexing, reindexing and unindexing objects, a topic search over existing filter ids returns exactly the ids of documents that satisfy all (or any) of those filters, a document satisfying a filter if the object it was last indexed with, since the filter was added or cleared, made the filter expression true (an expression that raises counts as false). This holds in the changing transaction and, once committed, on every connection, whatever was evicted, aborted, retried or restarted in between.',
  ['histories', 'schedules'], HIST + '; filter sets and expressions, including failing ones',
  'Tests index each object once and never reindex it with a different one, never store the index in a database, and so cannot see stale memberships or filter changes that are not saved.',
  ['topic/index.py', 'topic/filter.py'], [('per-filter id sets', 'topic/filter.py: FilteredSetBase, PythonFilteredSet'), ('fan-out to filters', 'topic/index.py')],
  [('_filters', 'filter id -> filter', 'topic/index.py'), ('_ids', 'ids satisfying a filter', 'topic/filter.py')],
  ['TopicIndex.search', 'apply']),
P('C05', 'Text queries match exactly the right current documents',
  'After any history of indexing, reindexing, unindexing and clearing, a text query of words, quoted or hyphenated phrases, trailing-wildcard patterns, AND, OR, NOT, hyphen-negation and parentheses returns exactly the current documents that satisfy it: a phrase only where its words are adjacent and in order, a pattern where some word fits, stop words ignored. The words recorded for a document are its normalized words in order, and document and word counts are those of the current documents. This holds (for pipelines that leave their own output unchanged) for both ranking methods, in the changing transaction and, once committed, on every connection, whatever was evicted, aborted, retried or restarted.',
  ['histories', 'schedules', 'inputs', 'configurations'], HIST + '; documents, queries, pipelines, vocabulary sizes (so word ids of one to four encoded bytes), both id widths',
  'Tests use vocabularies below 128 words and at most a dozen documents, in memory; encoded word sequences that only coincide for larger ids, map-to-tree promotion and demotion, and unsaved in-place edits are out of their reach.',
  [TB, 'text/textindex.py', 'text/widcode.py', 'text/parsetree.py', 'text/queryparser.py', 'text/setops.py', TL, 'text/htmlsplitter.py'],
  [('incremental reindex', TB + ': _reindex_doc'), ('phrase search on encoded word ids', TB + ': search_phrase'), ('query evaluation', 'text/parsetree.py'), ('set merging', 'text/setops.py')],
  [('_wordinfo', 'word id -> documents', TB), ('_docwords', 'document -> encoded word ids', TB)],
  ['TextIndex.apply', 'search', 'search_phrase', 'search_glob', 'get_words']),
P('C06', 'Relevance scores depend only on the current documents',
  'The scores returned by a text query equal, up to single-precision rounding, the documented BM25 (Okapi) or cosine value computed from the current documents alone, divided by the query weight; two indexes that hold the same documents score alike whatever histories led there, clearing included. The compiled and the pure-Python Okapi scoring give the same scores. This holds in the changing transaction and, once committed, on every connection, after any mix of commits, merges of concurrent commits, aborts, evictions and restarts.',
  ['histories', 'schedules', 'configurations'], HIST + '; both ranking methods, compiled and interpreted scoring',
  'Tests check a few scores on fresh indexes; running totals (document lengths, document counts) that drift after reindexing, clearing, merging or aborting are never compared to a recomputation.',
  [TO, 'text/okascore.c', TC, TB, 'text/textindex.py', 'text/setops.py'],
  [('running total of document lengths', TO + ': _change_doc_len'), ('compiled scoring loop', 'text/okascore.c'), ('document weights', TC + ': _get_frequencies')],
  [('_totaldoclen', 'sum of document lengths', TO), ('_docweight', 'document -> length or norm', TB)],
  ['TextIndex.apply scores', 'query_weight']),
P('C07', 'Word ids are unique, positive and permanent',
  'In a vocabulary, every known word has exactly one positive id and every id exactly one word, lookups both ways agree, and an unknown word has id 0. Once committed, the pairing of a word with its id never changes and its id is never given to another word, whatever transactions add words concurrently, abort, roll back, conflict, retry, crash, clear or unindex, in this process or another. The word count is the number of known words.',
  ['histories', 'schedules', 'crash_points'], 'every interleaving of transactions on several connections that add words to one vocabulary, with aborts, savepoint rollbacks, conflicts, evictions, crashes and restarts',
  'Tests create one vocabulary in memory and never add words from two connections or abort; id allocation from a counter that is merged on conflict is only exercised by real concurrency.',
  [TL], [('id allocation from an unloaded counter', TL + ': _new_wid, sourceToWordIds')],
  [('_wids', 'word -> id', TL), ('_words', 'id -> word', TL), ('wordCount', 'counter', TL)], ['Lexicon.items, words, wids, get_wid, get_word, wordCount']),
P('C08', 'Concurrent commits lose no update: each index ends serializable',
  'When transactions on different connections update the same index concurrently, each either commits or fails with a conflict, and after every commit all answers of the index equal those after making the changes of the committed transactions one transaction at a time in some order that keeps the order of those that did not overlap (an update that changed nothing when it ran counts as no change, and clearing topic filters removes the documents it found in them). No committed document change is lost, half-applied or applied twice. A transaction that nothing else committed during does not fail with a conflict.',
  ['schedules', 'histories'], 'every interleaving of transactions of two to four connections updating field, keyword, topic and text indexes, including ones that cross container-conversion thresholds, empty and refill entries, clear and optimize',
  'There is no test with two connections; automatic merging of concurrent container changes happens only there.',
  ['field/index.py', 'keyword/index.py', 'topic/index.py', 'topic/filter.py', TB, TO, TL],
  [('mergeable containers and counters', 'field/index.py, keyword/index.py, ' + TB), ('set/tree conversion', 'keyword/index.py: _insert_forward, optimize')], [],
  ['all searches and counts after each commit']),
P('C09', 'A failed or interrupted update leaves no trace once aborted',
  'If an update fails part-way for any reason (a bad value or source text, a storage read error, an exception raised asynchronously at any point, a commit refused by the storage), then after the transaction is aborted every answer of every index, on that connection and all others and in later transactions, is the same as if the transaction had never run. Rolling back to a savepoint likewise restores exactly the answers at the savepoint.',
  ['fault_sequences', 'crash_points', 'histories'], 'every update call, every point inside it (each executed source line, each storage read, each commit phase) at which an exception can surface, followed by abort or savepoint rollback, in any history',
  'Tests never make an update fail midway and then look at the index again through an aborted transaction.',
  ['field/index.py', 'keyword/index.py', 'topic/index.py', 'topic/filter.py', TB, TO, TL],
  [('all state in database-managed objects, marked changed before any in-place change of a plain container', TB + ': _add_wordinfo, _mass_add_wordinfo, _del_wordinfo')], [],
  ['all searches and counts after abort']),
P('C10', 'Committed index state survives eviction, crash and restart exactly',
  'After a crash at any byte of the database log or any phase of a commit, or after any restart or cache eviction, reopening the database, in the same or another process with a different hash seed, gives for every index exactly the answers after the transactions whose commit was acknowledged, plus at most the single one in flight, applied entirely or not at all. Nothing needed for answering is kept outside the database.',
  ['crash_points', 'histories', 'fault_sequences'], 'every history, every crash point in a commit (phase and log byte), every restart and eviction point, every process hash seed',
  'No test stores an index in a database, let alone crashes one.',
  ['field/index.py', 'keyword/index.py', 'topic/index.py', 'topic/filter.py', TB, TO, TC, TL],
  [('explicit re-assignment of plain dicts after change', TB + ': _add_wordinfo, _mass_add_wordinfo, _del_wordinfo'), ('persistent containers', 'all index modules')], [],
  ['all searches and counts after reopening']),
P('C11', 'A storage read failure always surfaces and never yields a wrong answer',
  'If the storage fails to deliver a record while an update or a query is running, the call either raises that failure or does its job completely and correctly; it never returns a wrong or partial answer, silently skips part of an update, or crashes the process. After the transaction is aborted and the storage works again, the same call succeeds with the right answer.',
  ['fault_sequences', 'histories'], 'every update and query, every storage read inside it, each kind of read failure (I/O error, missing-record error, read conflict)',
  'Tests run without a storage, so no read can fail.',
  ['field/index.py', 'keyword/index.py', 'topic/filter.py', TB, 'text/okascore.c', TO, TL, 'text/setops.py'],
  [('error propagation in the compiled scorer', 'text/okascore.c: score'), ('inconsistency tolerance in unindexing', 'field/index.py, keyword/index.py: unindex_doc')], [],
  ['outcome of each call']),
P('C12', 'Queries never write, and keep answering from their snapshot',
  'No query (search, sort, count, membership, word lookup, ranking) changes the database: a transaction that only queries writes nothing, never conflicts, and works on read-only and historical connections. Within a transaction the same query keeps giving the same answer while other connections commit, and a historical connection answers as of its time.',
  ['histories', 'schedules', 'configurations'], 'every query kind after every history, concurrently with commits of other connections; read-write, read-only and historical connections; indexes saved by older versions',
  'Tests have one check of one attribute for one method; without a database a write during a query goes unseen.',
  ['field/sorting.py', 'field/index.py', 'keyword/index.py', 'topic/index.py', TB, TO, TC, TL, 'text/textindex.py'],
  [('no opportunistic upgrade on read', TO + ': _search_wids')], [], ['database transaction log after query-only transactions']),
P('C13', 'Updates that change nothing write nothing',
  'Unindexing a document an index does not know, reindexing a field document with an equal value, giving no keywords to an unknown document, and optimizing an already optimal keyword index leave the database untouched: committing them adds no transaction record, so they can never conflict with other work. They also raise nothing and change no answer.',
  ['histories', 'schedules'], 'every state of every index reached by any history, every such call, with concurrent commits',
  'One README check patches a method on one field index; other indexes and database writes are not observed.',
  ['field/index.py', 'keyword/index.py', 'topic/filter.py', TB, TO, 'text/textindex.py'],
  [('early return on equal value', 'field/index.py: index_doc'), ('early return on unknown id', TO + ', ' + TB + ', field/index.py: unindex_doc')], [], ['database transaction log']),
P('C14', 'Independent additions by concurrent transactions commit without conflict',
  'Two or more concurrent transactions that each add different new documents to a small field, keyword or topic index, under values, keywords or filters that already have documents and that no two of them share, all commit without a conflict, and afterwards the document count equals the number of documents present.',
  ['schedules'], 'every interleaving of such transactions, index contents small enough that no container node splits',
  'Needs two connections; a counter that is not mergeable works in every unit test.',
  ['field/index.py', 'keyword/index.py', 'topic/filter.py'], [('conflict-resolving length counters', 'field/index.py, keyword/index.py: _num_docs')], [], ['commit outcomes', 'documentCount']),
P('C15', 'Results are independent snapshots and arguments are left alone',
  'A search result handed to a caller neither changes when the index is updated, cleared or its transaction ends later, nor, when the caller modifies it, changes any answer of the index; so unindexing while iterating over a result visits every hit. Query and update calls leave the collections and mappings passed to them as they were, so the same query object gives the same answer again.',
  ['histories', 'inputs'], 'every search kind in every state, followed by any updates or by changes to the result, at any distance',
  'Tests look at each result once, immediately, and pass fresh arguments each time.',
  ['keyword/index.py', 'topic/index.py', 'field/index.py', 'field/sorting.py', TB, TC, 'text/setops.py', 'text/textindex.py'],
  [('building fresh result sets', 'keyword/index.py, topic/index.py: search')], [], ['results and arguments after further calls']),
P('C16', 'Threads do not disturb each other',
  'Queries and updates run by several threads, each on its own database connection, give each thread exactly the answers it would get running alone on its snapshot and commit exactly its changes, however the threads are interleaved inside the calls. Queries run by several threads on one shared in-memory index that nobody changes each give the same answer as when run alone.',
  ['schedules'], 'every interleaving of threads at source-line and storage-read granularity inside the package',
  'There is no multi-threaded test; state shared by accident (class or module level) shows only when threads interleave inside a call.',
  ['text/queryparser.py', 'text/textindex.py', TL, TB, 'text/widcode.py', 'text/setops.py', 'keyword/index.py', 'field/sorting.py', 'topic/filter.py', 'nbest.py'],
  [('per-query parser and merge state', 'text/textindex.py: apply; text/setops.py')], [], ['answers and commits of each thread']),
P('C17', 'Indexes saved by older versions upgrade to exact counters on update',
  'A text index or vocabulary whose stored counters are of the older plain kind (missing counter objects, plain-number total length) is upgraded by the updates that need the counters: a plain total length gives right scores before and after any update, and a missing word or document counter object is put in place by the first update that adds or removes a document (until then the counts, and Okapi ranking, may be refused). From then on word count, document count, and scores are exactly those of the current documents, whatever mix of updates, aborts, concurrent commits and restarts follows.',
  ['histories', 'configurations', 'schedules'], 'every older state and every first update on it, on any connection, concurrent or aborted',
  'Tests upgrade one counter with one call each, in memory; order of change and upgrade, and concurrent upgrades, are untried.',
  [TB, TO, TL], [('opportunistic upgrade', TB + ': index_doc, unindex_doc, _add_wordinfo, _mass_add_wordinfo, _del_wordinfo; ' + TO + ': _change_doc_len; ' + TL + ': sourceToWordIds')], [], ['documentCount', 'wordCount', 'apply scores']),
P('C18', 'The N-best chooser keeps the best N even when its source fails midway',
  'After any history of single additions, bulk additions and removals of the smallest, the N-best chooser holds exactly what adding the consumed pairs one at a time, dropping one of the worst whenever there are more than N, and removing one of the worst on each removal leaves (which of several with equal worst scores goes is open), listed best first, each item with its own score, with the length to match. If the source of a bulk addition fails part-way (for example a failing storage read), the failure reaches the caller and the pairs consumed before it are kept, with all of the above still true.',
  ['histories', 'fault_sequences'], 'every sequence of additions and removals, sources failing at every position, scores with ties',
  'Tests feed complete lists; no test has a source that fails or mixes removals with a full chooser.',
  ['nbest.py'], [('parallel sorted lists', 'nbest.py: addmany')], [], ['getbest', 'pop_smallest', 'len']),
P('C19', 'Text indexes sharing a vocabulary do not influence each other',
  'Any number of text indexes may share one vocabulary: the answers, scores and counts of each depend only on its own documents, whatever the other indexes add, remove or clear, concurrently or not, committed or aborted. A word known only through another index matches nothing and adds no weight.',
  ['histories', 'schedules'], 'every interleaving of updates and queries on two or more text indexes of either kind over one vocabulary',
  'Tests give every index its own vocabulary.',
  [TB, TO, TC, TL], [('out-of-vocabulary filtering', TB + ': _remove_oov_wids')], [], ['apply, counts of each index']),
P('C20', 'Document and word counts stay exact through merges and failures',
  'At every moment the document count of every index that reports one equals the number of documents it currently holds, and the word count the number of distinct values, keywords or words in them, on every connection for its snapshot. Merging concurrent commits, conflicts, retries, aborts, savepoint rollbacks, failed calls, crashes and repeated or redundant updates never make them drift.',
  ['histories', 'schedules', 'fault_sequences'], HIST + ', with faults and crashes',
  'Counts are running counters merged by difference; tests check them after a few sequential calls.',
  ['field/index.py', 'keyword/index.py', TB, TO, 'text/textindex.py', TL], [('counter adjustments', 'each index: index_doc, unindex_doc, clear')], [], ['documentCount', 'wordCount']),
P('C21', 'Calls leave nothing behind in memory, whether they succeed or fail midway',
  'Repeating a query, or an update whose transaction is aborted each time, does not make the process hold ever more memory (or release what it does not own): a call that ends, with an answer or with an error, keeps nothing alive beyond the state of the index and bounded caches. Running out of memory inside the compiled scorer, or a record that cannot be read, surfaces as an error, never crashes the process, and leaves the next call right.',
  ['histories', 'fault_sequences'], 'every query and update, every failing storage read and every failing allocation of the scorer inside it, in every state',
  'No test repeats a call and looks at memory, and the error exits of the compiled scorer are reached by no test.',
  ['text/okascore.c', TO, TB, TC, 'text/textindex.py', 'keyword/index.py', 'field/sorting.py', 'topic/filter.py', TL, 'nbest.py'],
  [('reference counts on every exit', 'text/okascore.c: score')], [], ['memory blocks held after each repetition', 'answers afterwards']),
P('C22', 'Databases written by the version in use stay usable after an upgrade',
  'Indexes and vocabularies stored in a database by this version of the package (as of the commit under test) keep working when the package is replaced by a later version of the code: without any conversion step every answer, score, count and sort is right for the documents indexed before, and updates, removals, clearing and optimizing of what the earlier version stored work as on a fresh index, on any connection and after restarts, packing the database, or exporting its objects and importing them into another database.',
  ['histories', 'configurations'], 'every database an earlier version may have written, and every history of calls continued on it',
  'Tests build every index with the code that then reads it; nothing stored by earlier code is ever opened.',
  ['field/index.py', 'keyword/index.py', 'topic/index.py', 'topic/filter.py', TB, TO, TC, TL, 'text/textindex.py', 'text/widcode.py', 'text/htmlsplitter.py'],
  [('attributes and encodings of what is stored', 'clear() and __init__ of every index; text/widcode.py; ' + TB + ': _docwords, _docweight, _wordinfo; topic/filter.py')], [], ['every query, count and sort after the upgrade']),
# not applicable: pure functions
P('N01', 'The query parser accepts exactly the documented grammar',
  'A query string is parsed exactly as the documented grammar says: precedence, implied AND, hyphen negation, phrases, globs and stop-word removal give the documented tree, and every other string raises a parse error. The list of ignored terms is the stop words met.',
  ['inputs'], 'all query strings', 'Tests sample strings.',
  ['text/queryparser.py', 'text/parsetree.py'], [('recursive descent parser', 'text/queryparser.py')]),
P('N02', 'Word-id encoding round-trips',
  'Encoding a list of word ids below 2**28 and decoding it gives the list back, and the encoded form of one id never starts inside that of another.',
  ['inputs'], 'all lists of word ids', 'Tests sample ids in strides.', ['text/widcode.py'], [('encode/decode', 'text/widcode.py')]),
P('N03', 'Rice and delta coding round-trip',
  'Every list of positive integers rice-coded with any permitted parameter decodes to itself, and every increasing list of integers delta-coded decodes to itself.',
  ['inputs'], 'all lists and parameters', 'Tests use random lists with one common difference.', ['text/ricecode.py'], [('RiceCode, encode_deltas, decode_deltas', 'text/ricecode.py')]),
P('N04', 'Splitters, normalizers and stop-word removal follow their definitions',
  'Splitting, HTML stripping, case folding and stop-word removal transform any list of strings as documented, keeping wildcard characters only for patterns.',
  ['inputs'], 'all strings', 'Tests sample strings.', [TL, 'text/htmlsplitter.py', 'text/stopdict.py'], [('pipeline elements', TL + '; text/htmlsplitter.py')]),
P('N05', 'Weighted set merging equals the mathematical union and intersection',
  'Merging any number of weighted score maps gives, for each document of the union (or intersection), the sum of weight times score.',
  ['inputs'], 'all lists of maps and weights', 'Tests sample permutations of three maps.', ['text/setops.py'], [('mass_weightedUnion, mass_weightedIntersection', 'text/setops.py')]),
]
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'properties.jsonl'), 'w') as f:
    for p in props:
        f.write(json.dumps(p) + '\n')
print(len(props))
