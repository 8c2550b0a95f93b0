#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the anchors stay readable)."""
import json, os
I='gaoya/src/minhash/minhash_index.rs'; M='gaoya/src/minhash/mod.rs'; H='gaoya/src/minhash/min_hasher.rs'
H64='gaoya/src/minhash/min_hasher64.rs'; IC='gaoya/src/minhash/id_container.rs'; SI='gaoya/src/minhash/string_index.rs'
SH='gaoya/src/simhash/sim_hash.rs'; SX='gaoya/src/simhash/sim_hash_index.rs'; SP='gaoya/src/simhash/permutation.rs'
SB='gaoya/src/simhash/mod.rs'; T='gaoya/src/text/tokenizers.rs'; MS='gaoya/src/text/multi_shingles.rs'
CS='gaoya/src/clustering/clustering_serial.rs'; CP='gaoya/src/clustering/clusterer_parallel.rs'
PM='py-gaoya/src/min_hash.rs'; PS='py-gaoya/src/sim_hash.rs'; PL='py-gaoya/src/lib.rs'
PYM='py-gaoya/gaoya/minhash.py'; PYS='py-gaoya/gaoya/simhash.py'
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if state: a['state']=[{'name':n,'meaning':m,'where':w} for n,m,w in state]
    if observe: a['observe_at']=list(observe)
    a['hook_needed']=hook
    P.append({'id':id,'title':title,'statement':statement,'quantifier':{'over':over,'text':qtext},'why_tests_cant':why,'anchors':a})

IDX_STATE=[('bands','one bucket table per band: band content -> ids',I),('id_signatures','the current signature of every id',I)]

prop('C01','MinHash queries return exactly the current near-duplicates',
 'After any sequence of single and bulk insertions, re-insertions of an id with another signature, removals and clears, a MinHash query returns exactly those ids whose current signature equals the query on at least one complete band and agrees with it on at least the threshold fraction of positions (equality with the threshold counts). Every indexed id is therefore found by its own signature, nothing removed or overwritten ever influences an answer, and no query on such an index panics.',
 ['histories','inputs','configurations'],'every history of inserts, bulk inserts, re-inserts, removes, bulk removes and clears; every signature, band layout and threshold',
 'the unit tests run five short fixed histories; a stale bucket entry only shows after particular insert/re-insert/remove combinations and for queries hitting exactly that bucket',
 [I,IC],[('MinHashIndex::insert/par_bulk_insert/par_bulk_insert_pairs/remove/bulk_remove/clear keep the buckets in step with the signatures',I),('MinHashIndex::query* filter candidates by full similarity',I)],IDX_STATE,
 ['MinHashIndex::query','query_owned','query_by_id','query_one','query_owned_return_similarity','query_top_k'])
prop('C02','MinHash index contents follow the history exactly',
 'The number of documents, the signature looked up for an id, the map of all signatures and the number of distinct buckets reported per band always correspond to exactly the latest signature of each id that has been inserted and not removed since. Removing an id hands back its signature (nothing if the id is not indexed), clearing leaves an empty reusable index, and capacity management (initial capacity, shrinking) never changes the contents or fails. The numbers in the description an index prints of itself (threshold, hashes, bands, rows, size) are the actual ones.',
 ['histories','configurations'],'every history of mutations interleaved with capacity management, for every initial capacity',
 'tests check size after a handful of inserts and removes, never bucket counts, shrinking or clearing',
 [I,IC],[('id_signatures map and bucket tables updated together',I),('MinHashBand::remove drops emptied buckets',I),('shrink_to/shrink_to_fit/new_with_capacity',I)],IDX_STATE,
 ['MinHashIndex::size','get_signature','get_id_signature_map','band_sizes','remove','bulk_remove'])
prop('C03','All MinHash query forms agree and are ranked correctly',
 'The set, owned-set, by-id, with-similarity, single-best and bulk forms of a MinHash query report the same matches; every reported similarity is the fraction of agreeing positions and ranked lists are ordered best first. The single-best form returns a match of maximal similarity whenever the query has any match and nothing otherwise, and top-k returns, ordered by increasing distance, the k nearest of all ids sharing a complete band with the query (all of them when there are fewer than k).',
 ['histories','inputs'],'every index content and query, including ties, similarities equal to the threshold, k = 0 and k beyond the number of candidates',
 'tests compare one query form at a time on a few documents; none compares the forms with each other or sits on the threshold',
 [I,M],[('query/query_one/query_owned/query_owned_return_similarity/query_top_k/par_bulk_query*',I),('compute_minhash_similarity/distance',M)],IDX_STATE,
 ['MinHashIndex::query*','par_bulk_query','par_bulk_query_return_similarity'])
prop('C04','Bulk and parallel MinHash operations equal the one-by-one ones',
 'Bulk insertion (parallel id/signature lists or pairs), bulk removal, bulk query and bulk signature creation have exactly the effect, and give exactly the results in input order, of the corresponding single operations applied one after the other. This holds for every batch size including empty, for ids that are absent, already present or repeated within the batch, and for every number of worker threads.',
 ['histories','inputs','schedules'],'every batch, prior content and thread count',
 'tests bulk-insert two fresh batches and bulk-remove only present ids; absent and repeated ids in a batch are never tried',
 [I,M],[('par_bulk_insert/par_bulk_insert_pairs/bulk_remove/par_bulk_query',I),('MinHasher::bulk_create_signature*',M)],IDX_STATE,
 ['MinHashIndex after the bulk call'])
prop('C05','Id container and hash type do not change MinHash answers',
 'For the same history, a MinHash index answers every query and reports every size identically whichever id container (hash set, vector, small vector of any inline size), integer hash type and id type it is built with. Containers used on their own contain exactly what was pushed and not removed since.',
 ['histories','configurations'],'every history, for each container, hash integer type and id type',
 'tests run one common removal history on the three containers, with no repeated insertion of an id and buckets of at most four ids',
 [IC,I],[('IdContainer implementations: push/remove/copy_to/copy_refs_to/len',IC),('BandKey hashing',I)],[('container','ids of one bucket',IC)],
 ['MinHashIndex::query*','IdContainer methods'])
prop('C06','A rejected MinHash insertion leaves the index untouched',
 'Every insertion form refuses (by panicking) a signature whose length is not the number of hashes of the index, also when it is hidden anywhere inside a batch, and a refused call leaves contents, size, bucket counts and every query answer as they were.',
 ['fault_sequences','histories','inputs'],'every position of the malformed signature in a batch, too short and too long, at every point of a history',
 'no test passes a malformed signature',
 [I],[('length assertions at the top of insert/par_bulk_insert/par_bulk_insert_pairs',I)],IDX_STATE,['MinHashIndex state after catch_unwind'])
prop('C07','MinHash centroids take the most frequent value of every band',
 'For any non-empty group of indexed ids the centroid calculated by the index has the full signature length and, in every band, is one of the band values that occur most often among the current signatures of the group; ids that are not indexed do not count. When one signature is shared by more than half of the group the centroid is that signature, and querying by it finds them.',
 ['inputs','histories'],'every group of ids (repeats and unknown ids included) and every band layout',
 'two tests check the per-position helper on one matrix each; the band centroid of an index is never tested',
 [M,I],[('minhash_band_centroid_from_refs',M),('MinHashIndex::calculate_centroid',I)],[],['MinHashIndex::calculate_centroid'])
prop('C08','A MinHash signature is the position-wise minimum over the token set',
 'For every hasher, seed and number of hashes, the signature of a document depends only on its set of distinct tokens: token order, repetition and splitting into several documents do not matter, position by position the 32- and 64-bit signature of a union is the smaller of the two signatures, and the 8- and 16-bit signatures are the low bits of the 32-bit one. Equal parameters always give equal signatures, in every process and through the bulk forms, of the requested length, and the empty document has the all-zero signature.',
 ['inputs','configurations'],'every token multiset, hasher, seed, width and number of hashes',
 'tests only compare an estimated similarity of two sentences with a tolerance of 0.1 to 0.15',
 [H,H64,M],[('create_signature: minimum over all tokens of each hash function',H),('create_signature',H64),('seeded coefficients',H)],[],['MinHasher::create_signature','num_hashes'])
prop('C09','Similarity measures are exact fractions',
 'The similarity of two signatures is the number of agreeing positions divided by their length, their distance is one minus that, and the threshold predicate is true exactly when the similarity reaches the threshold. The Jaccard similarity of two token sequences, not both empty, is the size of the intersection of their token sets over the size of the union, whatever their order and repetitions; all measures are symmetric. The similarity a hasher reports for two documents is that of their signatures.',
 ['inputs'],'every pair of equally long signatures, every threshold in [0,1], every pair of token sequences not both empty',
 'one doc-test with a one-sided tolerance; the threshold predicate and the Jaccard functions have no test of their own',
 [M],[('compute_minhash_similarity/distance, similarity_greater_than_threshold, compute_jaccard_similarity/distance',M)],[],['the public functions'])
prop('C10','Banding parameters fit the hash budget and the recall target',
 'For every similarity in (0,1], number of hashes n >= 1 and target probability in (0,1), the computed number of bands b and rows r satisfy b >= 1, r >= 1 and b = n div r. Unless r = 1, two sets of that similarity share a band with probability above the target (1-(1-s^r)^b), this is also so for every smaller number of rows from 2 on, and one row more would miss the target unless only one band is left.',
 ['inputs'],'every (similarity, n, probability)',
 'two sample points in a doc-test',
 [M],[('calculate_b_and_r greedy loop',M)],[],['calculate_minhash_params','calculate_minhash_params_with_proba'])
prop('C11','SimHash signatures and centroids are bitwise majority votes',
 'A bit of a document\'s SimHash signature is set exactly when strictly more than half of its tokens, counted with multiplicity, have that bit set in their own single-token signature; so token order never matters and equal token multisets give equal signatures. A bit of a centroid is set exactly when strictly more than half of the given signatures have it set; both are all-zero for empty input and Hamming distances count differing bits and Hamming angles are the same fraction of a half turn; the high-bit extracts are the most significant 32 and 64 bits.',
 ['inputs','configurations'],'every token multiset and signature list, 64 and 128 bit, every hasher',
 'tests compare the distance of two sentences with a bound',
 [SH,SB,'gaoya/src/simhash/sim_hasher.rs'],[('SimHash::create_signature counters',SH),('SimHash::create_centroid',SH),('SimHashBits::hamming_distance',SB)],[],['SimHash::create_signature','create_centroid','SimHashBits::hamming_distance'])
prop('C12','SimHash queries have perfect recall and precision within the distance',
 'For every number of blocks (up to the number of bits) and allowed distance k below it, after any sequence of single and bulk insertions and re-insertions, a SimHash query returns exactly the ids whose current signature differs from the query in at most k bits, wherever those bits lie. All query forms agree, reported distances are exact and sorted in increasing order, the single-best form returns a match of minimal distance, bulk calls equal single calls in input order and the size is the number of distinct ids inserted.',
 ['inputs','histories','configurations'],'every (blocks, distance) layout, placement of differing bits, history and thread count, for 64 and 128 bits',
 'one test of the best match with random data close to the query; recall at the distance bound, block borders, re-insertion, bulk and size are untested',
 [SX,SP,SB],[('Permutation::create: one table per choice of blocks that must agree (pigeonhole)',SP),('SimHashTable::query distance filter',SX)],[('hash_tables','masked signature -> ids, per choice of blocks',SX),('id_signatures','current signature per id',SX)],['SimHashIndex::query*','size'])
prop('C13','Shingling yields every n-gram of the range exactly once',
 'For every text or token sequence and range 1 <= from <= to, the shingle iterators yield exactly the contiguous n-grams with from <= n <= to, one per start position and length, ordered by start position and then by length; the fixed-size forms are the case from = to, and token shingles of strings join the tokens of an n-gram. Character n-grams consist of n whole Unicode characters whatever their encoded width, and nothing is yielded when the text is shorter than from.',
 ['inputs'],'every string (all encoded widths) and token sequence, every range',
 'the text module has no tests',
 [MS,T],[('MultiShingles iterators for str and slices',MS),('shingle_text/shingle_text_range/shingle_text_boxed/shingle_tokens',T)],[('MultiShingles','remaining data and next size',MS)],['the iterators'])
prop('C14','Word splitting yields the maximal separator-free runs',
 'Splitting a text into words yields, in order, exactly its maximal non-empty runs of characters that are neither ASCII punctuation nor ASCII whitespace (space, tab, line feed, form feed, carriage return); all other characters, including non-ASCII spaces and punctuation, belong to words. The boxed form yields the same.',
 ['inputs'],'every string',
 'the text module has no tests',
 [T],[('whitespace_split and whitespace_split_boxed',T)],[],['the iterators'])
prop('C15','Serial clustering groups points greedily, completely and without overlap',
 'Serial clustering visits the points in order and, for each point not yet in a cluster, makes a cluster of all points similar to it that are in no cluster, provided there are at least the minimum number of them; so no point is in two clusters, each cluster has at least the minimum size, every point knows the id of its cluster, and no unclustered point is left with enough unclustered similar points. Cluster ids are distinct also over repeated runs of one clusterer, and points clustered before are left alone.',
 ['inputs','histories'],'every similarity relation, point order, minimum size and sequence of runs',
 'the clustering module has no tests',
 [CS],[('Clusterer::cluster loop and create_new_cluster',CS)],[('ClusterPointInner.cluster','cluster id of a point',CS)],['Clusterer::cluster result','ClusterPointInner.cluster'])
prop('C16','Parallel clustering never shares a point, in any schedule',
 'Whatever the number of threads and their interleaving, when parallel clustering ends every point is in at most one returned cluster, and its recorded cluster is exactly that one (none for points outside every cluster); every cluster has at least the minimum size, its members are all similar to one common point, and cluster ids are distinct. A cluster that was given up is never accessed after its memory is released.',
 ['schedules','inputs'],'every interleaving of the clustering threads at every atomic step, every similarity relation, thread count and minimum size',
 'the clustering module has no tests; conflicts need two threads building overlapping clusters at the same time',
 [CP],[('ClusterPointInner::assign_cluster compare-exchange',CP),('Cluster commit/rollback state machine',CP),('Clusterer::try_create_cluster conflict resolution',CP),('rollback_cluster_points',CP)],
 [('ClusterPointInner.cluster','owner of a point',CP),('Cluster.state','new, committed or rolled back',CP)],['Clusterer::cluster / cluster_par results','ClusterPointInner.cluster at every step'],'yield points before every atomic step of try_create_cluster, guarded by cfg(gaoya_verif)')
prop('C17','Parallel clustering always ends and makes progress',
 'Parallel clustering returns without panicking for every number of points and worker threads (also none or fewer points than threads) and every interleaving, and returns at least one cluster whenever some point initially has at least the minimum number of unclustered similar points; more precisely, at least one from each set of points that similarity connects (directly or through other points) in which there is such a point. Run on one thread it visits the points by decreasing number of similar points (ties in the given order) and clusters greedily, leaving no unclustered point with enough unclustered similar points.',
 ['schedules','inputs','configurations'],'every interleaving, similarity relation, number of points and threads',
 'the clustering module has no tests; two attempts giving each other up needs a particular interleaving',
 [CP],[('cluster_par chunking',CP),('lower cluster id wins a conflict',CP),('sort_by_most_number_of_similar_points',CP)],[],['Clusterer::cluster / cluster_par results'],'as C16')
prop('C18','The string index keeps and finds every document, however loaded',
 'Documents added one by one, from a reader, from a file, or from a file in parallel, in any order and combination, are all kept under distinct identities: the size is the total number of documents, each load reports how many it added, and a query returns the texts of exactly the documents near-duplicate to it, once per stored copy. Parallel and serial loading of the same file are indistinguishable, undecodable lines are skipped, and an unreadable file is an error or adds nothing, never a crash or a hang.',
 ['histories','inputs','fault_sequences'],'every sequence of inserts and loads, every file content including empty files, missing final newline, CRLF, invalid UTF-8 and unreadable paths',
 'one test loads six lines from memory; file loading, parallel loading and combinations are untested',
 [SI],[('doc_id numbering in insert and load_from_file_parallel',SI),('load_from_lines/load_from_file',SI)],[('doc_map','text per document id',SI),('doc_id','last used id',SI)],['MinHashStringIndex::query','size','load results'])
prop('C19','The Python MinHash index answers as the model over n-gram sets',
 'For every hash size, id container, analyzer (word, char or callable), case folding, n-gram range and band layout, the Python MinHash index represents a document by its set of n-grams and answers insertions, removals, sizes and queries as the MinHash index model does: exact matching set, similarities highest first, nothing for removed ids. Bulk insertion and bulk queries, below and above the internal batch threshold, equal the single calls in input order. When only a number of hashes is given, the layout is the one of the recall rule (target 0.99), and the printed description shows the actual layout, threshold and size.',
 ['histories','inputs','configurations'],'every configuration and history of Python calls',
 'the Python tests cover the default word analyzer on a dozen one-line documents, no char analyzer, no range, no batch over 8',
 [PYM,PM,PL],[('MinHashStringIndex dispatch',PYM),('py_minhash_index! methods and tokenizer selection',PM),('TokenizerSpecification::new',PL)],[],['the Python API'])
prop('C20','The Python SimHash index answers as the model, in every call form',
 'For every hash size, number of blocks, distance, analyzer (word, char or callable), case folding and n-gram range, the Python SimHash index returns exactly the ids of documents within the Hamming distance of the query document, with exact distances in increasing order when asked for. Inserting an id again replaces its document. The bulk forms, with and without distances, equal the single calls in input order, and documents with equal token multisets are at distance zero.',
 ['histories','inputs','configurations'],'every configuration and history of Python calls',
 'there is no Python SimHash test',
 [PYS,PS,PL],[('SimHashStringIndex dispatch',PYS),('py_simhash_index! methods',PS)],[],['the Python API'])
prop('C21','The Python indexes refuse exactly the invalid configurations',
 'Constructing a Python MinHash index raises ValueError exactly when the hash size is not 8, 16, 32 or 64, the threshold lies outside [0,1], the id container is unknown, or neither a complete band layout nor a number of hashes is given; a Python SimHash index exactly when the hash size is not 64 or 128, the number of blocks is not between 3 and 32, the distance is not below the number of blocks, or the analyzer is neither word, char nor callable. NaN lies outside [0,1]; sizes and distances are non-negative integers. Every accepted configuration with positive sizes gives a working index that finds an inserted document.',
 ['configurations','inputs'],'every combination of constructor arguments',
 'one test passes one invalid container name',
 [PYM,PYS,PM],[('constructor validation',PYM),('constructor validation',PYS),('band layout from num_hashes',PM)],[],['the Python constructors'])
prop('C22','MinHash similarity estimates Jaccard similarity',
 'The fraction of agreeing positions of two MinHash signatures is a fair estimate of the Jaccard similarity of the token sets. With 32- and 64-bit hashers, two documents with at least 8 different tokens between them deviate by at most 8 standard errors of as many fair draws (8/(2*sqrt(number of hashes))), and over about a hundred pairs under hashers of different seeds the mean square deviation is at most 2.2 squared standard errors (positions are independent draws). At every width (8 to 64 bits) the deviations over about a hundred pairs average to at most 0.03 (0.04 with 8 bits): the estimate is not biased, for few and for many tokens, close and far documents, and any token type and hash function offered.',
 ['inputs','configurations'],'every pair of documents, every hasher, width, number of hashes and seed',
 'tests sample three pairs of sentences with a wide tolerance',
 [H,H64],[('random linear hash family modulo a Mersenne prime',H),('the same for 64 bits',H64)],[],['MinHasher::compute_similarity'])
prop('C23','Every signature position, seed and key is a different hash function',
 'The positions of a 32- or 64-bit MinHash signature are different hash functions and different seeds give different ones: over a vocabulary of 18 or more distinct tokens no two (seed, position) pairs order the tokens by hash value in the same way, and distinct tokens never have the same single-token signature. Likewise distinct tokens and distinct SimHash keys have distinct single-token SimHash signatures. (Exceptions by chance have a probability below one in a million in everything examined.)',
 ['inputs','configurations'],'every hasher, number of hashes, set of seeds or keys and vocabulary',
 'tests use one seed and compare a similarity of two sentences; reusing one coefficient for several positions only widens the error of the estimate',
 [H,H64,'gaoya/src/simhash/sim_hasher.rs','gaoya/src/minhash/hashers.rs'],[('coefficients a and b per position from the seed',H),('coefficients per position from the seed',H64),('SipHash keys','gaoya/src/simhash/sim_hasher.rs')],[],['create_signature of single tokens'])
prop('C24','SimHash bits are fair, independent draws',
 'Under every pair of keys and at both widths, each bit of the SimHash signature of a single token is set for half of the tokens, and any two bits are equal for half of them, within 7 standard deviations of as many fair coins (over vocabularies of 400 tokens or more, numbers or text, alike or not). So Hamming distances mean what they should: over a hundred pairs of documents with c common and x and y own tokens, each under random keys, the distances average to the exact probability that two majorities of fair bits differ, within 0.04 of the width; the more tokens two documents share the smaller it is.',
 ['inputs','configurations'],'every vocabulary, pair of keys and pair of documents',
 'one test compares two sentences',
 ['gaoya/src/simhash/sim_hasher.rs','gaoya/src/simhash/sim_hash.rs'],[('token hash','gaoya/src/simhash/sim_hasher.rs'),('bit votes','gaoya/src/simhash/sim_hash.rs')],[],['SimHash::create_signature'])
prop('C25','Indexes are independent and can be read by many threads at once',
 'Any number of indexes and hashers in one process share nothing observable: what is done to one index never changes what another one answers, whatever their types, widths, layouts and ids have in common. One index may be asked by any number of threads at the same time, alternating with modifications under a lock, and every answer is the one it would give alone; asking never changes an index, and a hasher used by many threads gives the signatures it gives alone.',
 ['schedules','histories','configurations'],'every number of indexes, threads and interleaving of their calls',
 'every test uses one index on one thread',
 [I,SX,SP,H,H64],[('queries take &self and keep their intermediate results to themselves',I),('queries take &self',SX),('block masks are computed for every index',SP),('signatures take &self',H)],[],
 ['all query forms of MinHashIndex and SimHashIndex','MinHasher::create_signature','SimHash::create_signature'])
os.chdir(os.path.dirname(os.path.abspath(__file__))+'/..')
with open('properties.jsonl','w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
print(len(P))
for p in P:
    assert len(p['title'])<=80,(p['id'],len(p['title']))
