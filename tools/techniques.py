TECH['C01'] = ('round-trip (byte identity) over generated CoNLL-U, differential over entry points, metamorphic over read-only queries',
               'Random documents within stated bounds (sentences of 1-60 words); trusts the generator\'s notion of valid CoNLL-U.')
TECH['C05'] = ('stateful model-based testing: random edit histories against a parent-map model, structural invariants after every step, unchanged-on-error',
               'Random histories of up to 14 edits on trees up to 50 words; words removed earlier are not used again.')
TECH['C06'] = ('model-based testing: every move replayed on a list model of the word order; exhaustive over (word, reference, kind) on small random trees',
               'Random trees up to 30 words; exhaustive only within each generated tree.')
TECH['C07'] = ('differential testing of every query against naive definitions over head arrays, plus query purity',
               'Random trees up to 25 words; removed words and empty nodes are not queried.')
TECH['C08'] = ('stateful model-based testing: edit histories against one ordered sequence of words and empty nodes, plus save/reload',
               'Random histories; at most 16 empty nodes in one gap; contiguous numbering of loaded empty nodes assumed.')
TECH['C09'] = ('stateful model-based testing: identity-based edge model against deps and raw_deps over interleaved graph and tree edits',
               'Texts that were never parsed into deps are not expected to follow renumbering (documented lazy design).')
TECH['C10'] = ('stateful model-based testing: token/word set model and independent detokeniser over edit histories, saving and reloading',
               'Saved ranges are compared only while tokens are contiguous (tearing a token apart by moves is a documented TODO).')
TECH['C11'] = ('stateful model-based testing: dictionary + verbatim-string model against every view, over random write/read histories',
               'Duplicate names, empty entries and the default argument of get() are outside the stated domain.')
TECH['C12'] = ('stateful model-based testing: list-of-bundles model with ids and zones, rejected operations must leave no trace',
               'Random histories of up to 16 operations; user-given bundle ids are unique.')
TECH['C02'] = ('random API programs with save/reload round trip; the written text judged by an independent CoNLL-U parser; metamorphic line filter for writer options',
               'Attribute values without tabs/newlines/surrounding spaces; unique bundle ids; contiguous tokens.')
TECH['C03'] = ('model-based testing: generated files x reader options against a list model of filtering, grouping and limits; differential over entry points and parallel readers',
               'Bundle ids unique across files; newdoc only on the first tree of a bundle; up to 4 files of 6 bundles.')
TECH['C04'] = ('fuzzing (structured and mutational, coverage-guided corpus) with an independent cycle/range/column oracle and tree invariants on everything accepted',
               'Any exception counts as a reported error; ranges of multi-word tokens are not judged.')
TECH['C13'] = ('model-based testing: identity snapshots of all words, heads and tokens partitioned/concatenated by a model of each operation; computed texts against an independent detokeniser',
               'Cuts through a multi-word token, empty nodes and enhanced dependencies of moved words are not judged.')
TECH['C14'] = ('model-based testing: generated coreference layers (API or text with any legal bracket order) against an independent writer/reader of the annotation, save/load round trips',
               'Mentions of one entity never cross or share their span (documented limits); one zone; values without format characters.')
TECH['C15'] = ('stateful model-based testing: random edit histories of entities and mentions compared with a set model after every step, including rejected edits',
               'Words are not moved or removed while mentions exist; same-entity mentions have different spans.')
TECH['C16'] = ('model-based and metamorphic testing: each block against its transformation of the annotation model, all other columns against the input, and idempotence',
               'One zone; up to 5 entities; open choices (ties, empty-node heads) are checked as sets of allowed results.')
TECH['C17'] = ('model-based testing: naive application of the condition (filter, mark, evaluation event log, counts, forced alignment) to generated documents, compared by object identity',
               'Conditions read attributes of the word itself; forced token alignment for util.MarkDiff; nested keep_subtree matches may stay under their parent.')
TECH['C18'] = ('property-based testing: naive projectivity and ancestor relation as invariants of the result, a breadth-first reference model of de-projectivisation, round trip on trees with one crossing edge',
               'Random trees of 0-30 words; every word has a relation; MISC labels left after de-projectivisation are not judged.')
TECH['C19'] = ('differential testing against naive definitions of the scores over generated gold/predicted pairs; metamorphic (swap, identity, bounds); invariants of re-segmentation and of the bootstrap report',
               'Exact CoNLL scores only where the word alignment is forced; focused F1 exact only where the alignment of other words is forced.')
TECH['C20'] = ('round-trip property-based testing: the drawing is parsed back from its box-drawing characters and compared with the tree; metamorphic over colours, HTML and selection options',
               'Attribute values without box characters; empty cells are not drawn in aligned layouts.')
TECH['C21'] = ('round-trip property-based testing: each export is parsed back with an independent parser of its format (HTML, JSON, XML, TeX and VISL-CG escapes) and compared with the tree',
               'Words have all attributes; values without whitespace; CorefHtml is not covered.')
TECH['C22'] = ('model-based property-based testing: generated documents and output options run in a scratch directory; its whole content and the standard output are compared with a model of destinations',
               'Several documents for one file handle and documents read in parts with overwrite/path are not judged.')
TECH['C23'] = ('model-based property-based testing of the scenario runner with recording blocks (call log compared with a model); differential testing of the bin/udapy process against applying the blocks through the API; planted failures for the exit status',
               'Numbers are ASCII digit strings; the command line is exercised with a pool of blocks.')
TECH['C24'] = ('model-based property-based testing: blocks generated with random subsets of overridden hooks record every call, also while random edits are done inside the hooks; compared with the model of the call sequence',
               'Words created or removed during the processing of their own tree may or may not be visited.')
TECH['C25'] = ('model-based property-based testing: random scratch directories and file specifications, expanded and iterated; wildcards matched by an independent matcher, contents compared also for compressed files',
               'Relative entries of file lists are relative to the current directory.')
TECH['C26'] = ('model-based property-based testing: naive definitions of the repaired tree for the exact blocks, target property plus frame condition (words, order, other attributes, heads of words) for the heuristic ones; running twice changes nothing',
               'Punctuation: projectivity is judged for single unpaired marks between words and for one pair around projective words; other inputs only for a valid tree with one root child.')
TECH['C27'] = ('model-based property-based testing: an independent walk over the stored text (spaces), a model of the documented repair for sentences whose alignment is forced, an independent model of the spacing heuristics; metamorphic: one sentence alone vs in a document',
               'Exact results of ud.ComplyWithText only where the character alignment is forced (all characters differ); otherwise consistency of text and words, order of words and independence of sentences.')
TECH['C28'] = ('model-based and metamorphic property-based testing: raw texts with all kinds of Unicode whitespace tokenised and compared with a naive splitter, re-spelled from the MISC spaces; segmentation compared with the documented rules and re-joined',
               'Sentences have a text and no words; with several zones only the selected one is segmented.')
TECH['C29'] = ('model-based property-based testing: an identity-keyed word/token model of the documented splitting or joining is applied to generated sentences and compared word by word with the result of the block; text identity',
               'No enhanced dependencies; language-specific AddMwt blocks (8 languages) are judged by the frame condition and, for unconditional contractions, the words of the table.')
TECH['C30'] = ('model-based property-based testing of the plain-text readers over generated files and options; differential testing of read.Conll against read.Conllu; generated tables with random columns against the generating model; round trip write.Vislcg - read.Vislcg',
               'Line ends are \\n or \\r\\n; with bundles_per_doc a trailing document without bundles is allowed.')
TECH['C31'] = ('metamorphic property-based testing over 80 blocks: documents labelled with the vocabulary of the block (literals of its source) are processed whole, sentence by sentence, in another order and with zones=; results compared; frame condition per block; save-load round trip as invariant',
               'Six blocks written for one treebank may fail on a sentence if they do so also on the sentence alone; exact results are judged in other checks.')
TECH['C32'] = ('model-based property-based testing: the rules written independently over the generated trees predict every mark and the overview of ud.MarkBugs and ud.MarkFeatsBugs',
               'Documents of words with form, tag and relation; one block object processes up to three documents.')
TECH['C33'] = ('model-based property-based testing: an independent model of every conversion step over generated UD v1 trees predicts each word, the comments and the marks after ud.Convert1to2 with random skip=',
               'Every word has form, tag and relation; copulas with dependents are AUX or PRON; Negative= does not combine with neg.')
TECH['C34'] = ('model-based property-based testing: reports are parsed and compared with numbers counted in the generated annotation; the HTML page is parsed back to sentences, words and mentions',
               'Small documents; reports of named documents only where a name is printed; MISC order is not judged.')
TECH['C35'] = ('round trip and differential testing against an independent serialiser and parser of the old CorefUD style; model-based testing of the CoNLL-2012 and Corpus of Czech Verse readers and of the two correction blocks',
               'Mentions the formats can express; word numbers are correct; corefud.Gum2CorefUD is not judged (written for an older API).')
TECH['C36'] = ('model-based property-based testing: an independent model of each block, applied to the generated sentences, predicts every row of the written CoNLL-U or every printed line',
               'Tables of the blocks are restated in the model; chains of compound names and other inputs the blocks do not document are excluded.')
TECH['C37'] = ('model-based property-based testing: an independent model of each block, applied to the generated sentences, predicts every row of the written CoNLL-U or every printed line',
               'Word lists of the blocks are restated in the model.')
TECH['C38'] = ('model-based property-based testing: a compact independent model of each msf block (and of their pipeline), applied to the generated sentences, predicts every row of the written CoNLL-U',
               'The table of adpositions and conjunctions of msf.Case is compared with a stored copy.')
TECH['C39'] = ('model-based property-based testing: an independent model of the label rewriting predicts every row of the written CoNLL-U',
               'The tables of markers are compared with a stored copy; corrections of single sentences of particular treebanks are not generated.')
