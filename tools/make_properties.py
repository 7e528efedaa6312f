#!/usr/bin/env python3
"""Authoring source of /verif/properties.jsonl (run it to regenerate the file)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d['anchors']['observe_at'] = observe
    d['anchors']['hook_needed'] = None
    assert len(title) <= 80, title
    P.append(d)
C = 'udapi/core/'
B = 'udapi/block/'

prop('C01', 'Reading and re-writing a CoNLL-U file changes nothing',
 'For every valid CoNLL-U text, loading it and storing the document reproduces the text: every word, multi-word token and empty node with all ten columns, every non-empty comment, and the sent_id, text, newdoc, newpar, global.Entity and JSON metadata, in the same order, except that a missing sent_id or text comment is added. '
 'The output is the same whichever loading and storing entry point is used, when it is stored twice, and when the document was only queried (word attributes, features, enhanced dependencies, text, drawing) in between.',
 ['inputs'], 'all valid CoNLL-U documents (any mix of comments, zones, multi-word tokens, empty nodes, enhanced dependencies, Unicode) and all read-only query sequences between load and store',
 'The tests round-trip two sample treebank files; the guarantee is about every file, including rare comment layouts, Unicode, empty nodes and metadata that these samples do not contain.',
 [B+'read/conllu.py', B+'write/conllu.py', C+'document.py', C+'dualdict.py', C+'basereader.py'],
 [('comment placeholders keep special comments at their position', B+'write/conllu.py process_tree'),
  ('tab-separated parsing into nodes, ranges and empty nodes', B+'read/conllu.py read_tree_from_lines'),
  ('verbatim string kept until a dict is edited', C+'dualdict.py')], ['udapy -s', 'Document.from_conllu_string/to_conllu_string', 'load_conllu/store_conllu'])

prop('C02', 'Documents built through the API survive saving and reloading',
 'A document built or edited through the API (new trees and words, attributes, features, topology, word order, multi-word tokens, empty nodes, enhanced dependencies, zones, metadata) is written as well-formed CoNLL-U, and reading that back yields a document with the same sentences, words, attributes, tree structure, enhanced graph, multi-word tokens and metadata. '
 'Options that leave out sentence ids (with the newdoc and newpar marks), texts or empty trees remove exactly that and nothing else.',
 ['programs', 'inputs'], 'all sequences of public API calls that build or edit a document, and all writer options',
 'Unit tests never save an edited document with empty nodes or enhanced dependencies and compare the reloaded objects; the space of edit histories is unbounded.',
 [B+'write/conllu.py', B+'read/conllu.py', C+'node.py', C+'root.py', C+'mwt.py'],
 [('serialisation of live object state', B+'write/conllu.py process_tree'), ('parsing', B+'read/conllu.py read_tree_from_lines')],
 ['Document.to_conllu_string', 'udapy write.Conllu'])

prop('C03', 'Reader options deliver each sentence exactly once, in order, grouped as asked',
 'Whatever way of reading is used (several files, merging, splitting into documents at newdoc or after N bundles, a limit on documents, a sentence-id filter, zone and sentence-id overrides, compressed files), every selected sentence is delivered exactly once, in input order and with identical content, and trees with the same bundle id in different zones stay in one bundle. '
 'Document boundaries, document names and ids are exactly those the options ask for.',
 ['inputs', 'configurations'], 'all input file sets and all combinations of reader options',
 'The tests use one option (split_docs) on one file; the reader has a fast and a slow path plus a look-ahead buffer whose interplay depends on where boundaries fall.',
 [C+'basereader.py', B+'read/conllu.py', C+'files.py'],
 [('fast path', C+'basereader.py try_fast_load'), ('slow path with one-tree look-ahead', C+'basereader.py process_document'), ('filter', C+'basereader.py filtered_read_tree')],
 ['BaseReader.read_documents', 'udapy read.Conllu bundles_per_doc=...'])

prop('C04', 'Malformed CoNLL-U never yields a corrupt tree',
 'For every input text, reading CoNLL-U either reports an error or delivers trees that are consistent: each word has exactly one head, the heads form a tree under the technical root, and words are in order. '
 'Cycles (including self-loops) and out-of-range heads are always reported as errors, cycle repair keeps all words and re-attaches only words in a cycle, to the root, and strict reading rejects lines with a wrong number of columns while the robust mode fills missing columns.',
 ['inputs'], 'all texts: corrupted, truncated or cyclic CoNLL-U, missing columns, missing final newline, extra blank lines',
 'No test feeds malformed input; which corruption slips through depends on the combination of damage and on the order of words inside a cycle.',
 [B+'read/conllu.py', C+'basereader.py'],
 [('cycle check while attaching', B+'read/conllu.py read_tree_from_lines'), ('column count check', B+'read/conllu.py')],
 ['Document.from_conllu_string', 'read.Conllu strict=1 / fix_cycles=1'])

prop('C05', 'Every edit keeps the dependency structure a consistent ordered tree',
 'After any sequence of creating, re-attaching and removing words and flattening, the words of a sentence are numbered 1..n in word order, each word has exactly one head, the list of dependents of each word is sorted and mirrors the heads, and every word is reachable from the root. '
 'Each operation changes exactly what it promises (removal drops the subtree or re-attaches the dependents as requested), and an attempt to create a cycle, attach to an empty node or attach across trees raises an error and leaves the sentence unchanged.',
 ['histories'], 'all sequences of tree edits on trees of any shape, including rejected ones',
 'One test performs a handful of edits on one tree; invariants over interleavings of re-attachment, removal and rejected edits need generated histories.',
 [C+'node.py', C+'root.py'],
 [('parent setter with cycle check', C+'node.py Node.parent'), ('removal and renumbering', C+'node.py Node.remove'), ('creation', C+'node.py Node.create_child'), ('flatten', C+'root.py flatten')],
 ['Node.parent', 'Node.children', 'Node.descendants', 'Node.ord'],
 [('_descendants', 'words in order', C+'root.py'), ('_children', 'sorted dependents', C+'node.py')])

prop('C06', 'Word-order moves place exactly the requested words at the requested position',
 'Moving a word before or after another word or its subtree, with or without its own dependents, yields the word order in which precisely the moved words sit together in their original relative order at the requested boundary, and all other words keep their relative order. '
 'Heads, attributes and multi-word token membership do not change, numbering is again 1..n with sorted dependents, and impossible requests are rejected (or skipped when asked) without any change.',
 ['histories', 'inputs'], 'all trees (projective or not), all pairs of word and reference, all four kinds of move with and without dependents, and sequences of moves',
 'The tests check a few moves on one projective tree; correctness depends on gaps, on direction and on whether the reference lies inside the moved span.',
 [C+'node.py'], [('in-place rotation of the word list', C+'node.py _shift_before_ord'), ('public moves', C+'node.py shift_after_node, shift_before_node, shift_after_subtree, shift_before_subtree')],
 ['Node.shift_*', 'Node.ord', 'Root.descendants'])

prop('C07', 'Tree queries agree with their definitions',
 'For every tree, the navigation and measurement queries (children, siblings and descendants with their filters, ancestor tests, previous and next word, precedence inside and across sentences, leaf test, non-projective edge and gap tests, minimal common treelet, dependency and universal relation parts, and the attribute and pseudo-attribute lookup) return exactly what their documentation defines in terms of heads and word order. '
 'Queries never modify the tree.',
 ['inputs'], 'all trees, all nodes and node sets, all filter arguments',
 'Tests query a few nodes of two sample sentences; definitions such as non-projectivity or treelets differ only on particular configurations.',
 [C+'node.py', C+'root.py'], [('list views', C+'node.py ListOfNodes'), ('non-projectivity', C+'node.py is_nonprojective, is_nonprojective_gap'), ('treelet', C+'node.py find_minimal_common_treelet'), ('attributes', C+'node.py get_attrs')],
 ['Node query API'])

prop('C08', 'Empty nodes keep unique, ordered positions through every edit',
 'After any sequence of inserting and removing empty nodes and inserting, removing and moving words, empty nodes have unique decimal positions N.1, N.2, ... (including the tenth and later ones) between the words they stand between, the list of empty nodes is sorted, and the relative order of all surviving words and empty nodes is the expected one. '
 'A new empty node appears exactly where requested, and saving and reloading keeps the positions.',
 ['histories'], 'all interleavings of word and empty-node insertions, removals and moves',
 'Two tests insert a few empty nodes and remove three words; the decimal numbering must stay right for every history.',
 [C+'node.py', C+'root.py', B+'read/conllu.py'], [('insertion', C+'node.py create_empty_child'), ('renumbering on removal', C+'node.py Node.remove, EmptyNode.remove'), ('renumbering on moves', C+'node.py _shift_before_ord'), ('tenth and later empty nodes', C+'node.py OrdTuple')],
 ['Root.empty_nodes', 'Root.descendants_and_empty', 'saved ID column'])

prop('C09', 'Enhanced dependencies stay the same graph in both representations',
 'The textual and the structured view of the enhanced dependencies of a word or empty node always describe the same edges, whichever was set or edited last. '
 'Once the graph has been accessed, later renumbering, moving, inserting or removing of other words keeps each edge pointing at the same word or empty node, and removing an empty node removes just the edges to it.',
 ['histories', 'inputs'], 'all enhanced graphs (with empty nodes, multiple heads, subtyped relations) and all edit histories',
 'The tests read and set the enhanced dependencies of a few words and never combine them with later structural edits.',
 [C+'node.py', B+'read/conllu.py', B+'write/conllu.py'], [('lazy two-way conversion', C+'node.py raw_deps, deps'), ('edge clean-up', C+'node.py EmptyNode.remove')],
 ['Node.deps', 'Node.raw_deps', 'saved DEPS column'])

prop('C10', 'Multi-word tokens stay consistent with their words and with the surface text',
 'A word belongs to at most one multi-word token and the token lists exactly the words that point to it; creating a token over already covered words dissolves the old token, and removing a token keeps its words. '
 'The surface tokens and the computed sentence text of a tree or subtree consist of each token form exactly once, in order, separated by one space unless no space is marked, and the token range shown in the saved file matches its words.',
 ['histories', 'inputs'], 'all trees, all sets of adjacent words made into tokens, all create/remove/move histories',
 'Tests touch multi-word tokens only in passing; overlaps, spacing marks and re-numbering need generated combinations.',
 [C+'mwt.py', C+'root.py', C+'node.py'], [('creation and overlap handling', C+'root.py create_multiword_token'), ('removal', C+'mwt.py remove'), ('text', C+'node.py compute_text'), ('surface tokens', C+'root.py token_descendants')],
 ['Root.multiword_tokens', 'Node.multiword_token', 'Root.token_descendants', 'compute_text', 'get_sentence'])

prop('C11', 'Feature and misc dictionaries behave as dictionaries and as strings at once',
 'For every sequence of reads and writes through the dictionary view and the string view of FEATS, MISC and coreference attributes, both views describe the same mapping: missing names read as the empty string, setting to nothing deletes, the string lists entries sorted by lower-cased name after an edit and verbatim before, valueless entries are kept, and copies are independent. '
 'Assigning a string, a mapping, nothing or another such dictionary replaces the whole content, and the two parts of a dependency relation can be read and set independently.',
 ['histories', 'inputs'], 'all sequences of dictionary and string operations',
 'One test checks a dozen operations on features; the lazy synchronisation has hidden state whose faults show only in particular operation orders.',
 [C+'dualdict.py', C+'feats.py', C+'coref.py', C+'node.py'], [('lazy synchronisation', C+'dualdict.py DualDict'), ('coreference variant', C+'coref.py OtherDualDict'), ('relation parts', C+'node.py udeprel, sdeprel')],
 ['node.feats', 'node.misc', 'mention.other', 'str()'])

prop('C12', 'Document, bundle, zone and sentence ids stay consistent',
 'After any sequence of creating, adding, removing and renaming bundles, trees and zones, iterating the document visits each tree and each word once in order, zones within a bundle are unique and valid, each tree id equals its bundle id plus its zone, addresses follow from it, and bundle numbering supports comparing word order across sentences. '
 'Invalid or duplicate zones are rejected without changing anything.',
 ['histories'], 'all sequences of document, bundle and tree operations',
 'One small test checks the ids of a fresh document; renaming and removal in multi-zone bundles are not covered.',
 [C+'document.py', C+'bundle.py', C+'root.py', C+'node.py'], [('id synchronisation', C+'bundle.py bundle_id; '+C+'root.py sent_id, zone'), ('zone validation', C+'bundle.py check_zone'), ('numbering', C+'document.py create_bundle; '+C+'bundle.py remove')],
 ['Document/Bundle/Root API', 'Node.address', 'Node.precedes'])

prop('C13', 'Splitting, joining and moving sentences loses and reorders no words',
 'Moving words to another tree, splitting a sentence at a word, joining sentences and merging mis-segmented sentences keep every word exactly once in its original order with its attributes and multi-word tokens, and give well-formed trees on all sides. '
 'Dependencies between words that stay together are kept, the others are attached to the root (or as the operation documents), and the sentence texts stay equal to what the words spell.',
 ['inputs', 'histories'], 'all trees, all subsets of words moved and all split or join points, with multi-word tokens',
 'There are no tests for these operations at all.',
 [C+'root.py', B+'util/splitsentence.py', B+'util/joinsentence.py', B+'segment/merge.py', B+'util/resegmentgold.py'],
 [('word transfer', C+'root.py steal_nodes'), ('sentence splitting', B+'util/splitsentence.py'), ('sentence joining', B+'util/joinsentence.py, '+B+'segment/merge.py')],
 ['Root.steal_nodes', 'util.SplitSentence', 'util.JoinSentence', 'segment.Merge'])

prop('C14', 'Coreference annotation survives loading and saving',
 'For every consistent set of entities with nested, crossing, single-word, discontinuous and empty-node mentions, bridging links and split antecedents, saving the document and loading it again gives the same entities, types, mention spans, heads, extra attributes, bridging links and split antecedents, and saving once more gives the same file. '
 'Opening and closing brackets are written in the documented order, so that crossing and nested mentions are never confused, under every supported field layout.',
 ['inputs', 'configurations'], 'all entity and mention configurations over multi-sentence documents and all global.Entity field layouts',
 'The tests load one French sample and check a few entities; ambiguity of brackets arises only for particular overlaps and orders.',
 [C+'coref.py', C+'document.py', C+'basewriter.py'], [('parsing', C+'coref.py load_coref_from_misc'), ('serialisation with bracket order rules', C+'coref.py store_coref_to_misc')],
 ['Document.coref_entities', 'misc Entity/Bridge/SplitAnte in the saved file'])

prop('C15', 'Coreference edits keep entities, mentions and words in agreement',
 'After any sequence of creating entities and mentions, changing the span, words, head or entity of a mention and removing mentions, each word lists exactly the mentions whose span contains it and each entity lists exactly its mentions, all sorted in document order, and entity ids are unique. '
 'The span string and the word list of a mention determine each other, a head outside the mention is rejected, and mention and entity order is a total order that follows word order.',
 ['histories'], 'all sequences of coreference edits on documents with empty nodes',
 'One test performs a few edits on one sample; agreement of the redundant links must hold after every history.',
 [C+'coref.py', C+'document.py', C+'node.py'], [('words setter keeping back-links', C+'coref.py CorefMention.words'), ('entity setter', C+'coref.py CorefMention.entity'), ('spans', C+'coref.py span_to_nodes, nodes_to_span'), ('order', C+'coref.py __lt__')],
 ['Node.coref_mentions', 'CorefEntity.mentions', 'CorefMention.span/words/head', 'Document.coref_mentions'])

prop('C16', 'Coreference clean-up blocks do exactly their documented job',
 'Blocks that re-index entities, merge same-span mentions, remove attributes or annotation, enforce a single parent or move mention heads change only what they document: re-indexing only renames ids in document order, merging leaves no two same-span mentions, head moving picks the highest word of the mention, deletion removes all coreference annotation. '
 'All other mentions, spans, links and all syntax stay as they were, and applying a block a second time changes nothing.',
 ['inputs'], 'all documents with coreference annotation',
 'No test runs any of these blocks.',
 [B+'corefud/indexclusters.py', B+'corefud/mergesamespan.py', B+'corefud/movehead.py', B+'corefud/delete.py', B+'corefud/removemisc.py', B+'corefud/singleparent.py', B+'corefud/removenocorefentities.py', B+'corefud/fixinterleaved.py'],
 [('per-block transformation', B+'corefud/*.py')], ['udapy corefud.*'])

prop('C17', 'Selecting and marking blocks act on exactly the matching words or trees',
 'Filtering, marking, evaluating and splitting blocks apply a user-given condition to every word or tree in order and keep, delete, mark or change exactly those that satisfy it; everything else is untouched and in the same order. '
 'Splitting a document into parts distributes all bundles once, in order, as requested, and normalising or counting reports match a direct count.',
 ['inputs', 'configurations'], 'all documents and all conditions and modes of these blocks',
 'No test runs these blocks; each mode interacts with subtree removal, empty trees and several zones.',
 [B+'util/filter.py', B+'util/eval.py', B+'util/mark.py', B+'util/split.py', B+'util/normalize.py', B+'util/wc.py', B+'util/markdiff.py'],
 [('condition evaluation', B+'util/filter.py, '+B+'util/eval.py, '+B+'util/mark.py')], ['udapy util.*'])

prop('C18', 'Projectivisation yields projective trees and keeps the words',
 'Projectivising any tree gives a tree without non-projective edges over the same words in the same order with the same attributes, leaves an already projective tree unchanged, and re-attaches a word only to an ancestor of its original head. '
 'De-projectivisation with the recorded information restores a non-projective tree that is again well formed, and flattening attaches every word to the root.',
 ['inputs'], 'all trees of any size and shape',
 'There is no test of these transformations; non-projective configurations combine in ways samples do not show.',
 [B+'transform/proj.py', B+'transform/deproj.py', B+'transform/flatten.py'], [('lifting', B+'transform/proj.py'), ('restoring', B+'transform/deproj.py')], ['transform.Proj', 'transform.Deproj', 'transform.Flatten'])

prop('C19', 'Evaluation scores equal their definitions',
 'For every pair of gold and predicted analyses, the parsing, F1 and CoNLL shared-task evaluations report exactly the precision, recall, F1 and attachment scores defined over aligned words; identical analyses score 100 percent, scores lie between 0 and 100, and swapping the two sides swaps precision and recall.',
 ['inputs', 'configurations'], 'all pairs of documents (same or different tokenisation) and all attribute and focus settings',
 'No test evaluates anything; the scores must be right for every pair.',
 [B+'eval/parsing.py', B+'eval/f1.py', B+'eval/conll17.py', B+'eval/conll18.py'], [('counting', B+'eval/*.py')], ['printed scores of eval.Parsing, eval.F1, eval.Conll17, eval.Conll18'])

prop('C20', 'Tree drawings show every word once with its real head',
 'The text drawing of any tree or subtree prints each selected word exactly once, in the layout order, with exactly the requested attributes, and the drawn edges connect precisely the head-dependent pairs of the tree, also for non-projective trees. '
 'Options for marking, comments, undefined values, indentation and minimising crossings change only what they name, and stripping colours or HTML gives the plain drawing.',
 ['inputs', 'configurations'], 'all trees and all drawing options',
 'Tests compare the drawing of two sample sentences; the correctness of edge characters depends on the configuration of edges above each line.',
 [B+'write/textmodetrees.py', B+'write/textmodetreeshtml.py', C+'node.py'], [('column allocation and edge characters', B+'write/textmodetrees.py')], ['Node.draw', 'write.TextModeTrees', 'write.TextModeTreesHtml'])

prop('C21', 'Exports to other formats carry the same words and structure',
 'The exporters to plain sentences, HTML and JSON trees, SDParse, TikZ, VISL-CG and Treex write, for every tree, one record per word in order whose form, relation and head are those of the tree, with the characters special in the target format escaped so that the output parses back to the original values. ',
 ['inputs'], 'all trees and attribute values, including special characters',
 'No test runs these exporters.',
 [B+'write/sentences.py', B+'write/sentenceshtml.py', B+'write/html.py', B+'write/sdparse.py', B+'write/tikz.py', B+'write/vislcg.py', B+'write/treex.py'],
 [('formatting', B+'write/*.py')], ['output of udapy write.*'])

prop('C22', 'Writers put each document exactly where the options say and nowhere else',
 'For every combination of output options (explicit files, a file handle, file named after the document, overwriting the input, a target path pattern, encoding and newline), each document is written completely to exactly the requested destination, in order, and standard output is restored afterwards. '
 'Contradictory options and more documents than files are reported as errors, and no other file is touched.',
 ['configurations', 'histories'], 'all output option combinations and all sequences of documents',
 'Tests write one document to one file or a string.',
 [C+'basewriter.py', C+'files.py'], [('stdout redirection', C+'basewriter.py before_process_document, after_process_document')], ['files on disk', 'sys.stdout'])

prop('C23', 'A scenario runs its blocks in order with the given parameters',
 'Running a scenario from the command line or the API parses block names and parameters as written (numbers as numbers, everything after the first equals sign as the value), creates each block, applies the blocks in order to every document of every reader round, and calls the start and end hooks once. '
 'The command line gives the same result as applying the blocks through the API, shortcut options add the documented blocks, and any failure (unknown block, unknown parameter, failing block) gives a non-zero exit status.',
 ['configurations', 'inputs'], 'all scenarios over the available blocks, all parameters and readers',
 'External tests run two fixed command lines.',
 [C+'run.py', C+'block.py', 'bin/udapy'], [('scenario parsing', C+'run.py _parse_command_line_arguments'), ('rounds', C+'run.py run_blocks'), ('exit status', 'bin/udapy')], ['udapy', 'Run.execute', 'create_block'])

prop('C24', 'Each block hook is called for exactly the selected trees, words and mentions',
 'For every document, running a block calls its overridden processing hooks once for each bundle, tree, word, empty node, entity or mention, in document order, limited to the selected zones and honouring the empty-tree policy. '
 'Words created or removed by a hook while the tree is being processed cause no skipped, repeated or endless processing of the others.',
 ['inputs', 'configurations', 'programs'], 'all documents, all subsets of overridden hooks, all zone and empty-tree settings, hooks that edit the tree',
 'No unit test observes hook invocation.',
 [C+'block.py'], [('dispatch', C+'block.py process_document, process_bundle, process_tree'), ('selection', C+'block.py _should_process_tree')], ['calls received by a user block'])

prop('C25', 'Input and output file patterns expand to exactly the intended files',
 'Every file specification (lists, comma- or space-separated names, wildcard patterns, file lists with absolute entries or entries relative to the current directory) expands to exactly the denoted files in order, and iterating yields each once with correct numbering and a final end marker. '
 'Compressed files are read transparently with the same content, and an unmatched pattern or empty specification is an error.',
 ['inputs', 'configurations'], 'all directory contents and all file specification strings',
 'No test uses wildcards, file lists or compression.',
 [C+'files.py'], [('pattern expansion', C+'files.py _token_to_filenames'), ('opening', C+'files.py next_filehandle')], ['Files API', 'files= parameter'])

prop('C26', 'Structure-fixing blocks establish their target property on a valid tree',
 'Each tree-repair block (root, chain, right-headed, leaf, punctuation and punctuation-child fixing, multiple subjects) leaves a well-formed tree over the same words in the same order and establishes the property it is named for: one root child labelled root, no chained flat relations, no head-final flat relations, no dependents of punctuation, punctuation attached without causing non-projectivity. '
 'Trees that already have the property are not changed (punctuation attachment, a heuristic, only keeps the heads of all words that are not punctuation).',
 ['inputs'], 'all trees with all assignments of relations and punctuation',
 'No test runs these blocks.',
 [B+'ud/fixroot.py', B+'ud/fixchain.py', B+'ud/fixrightheaded.py', B+'ud/fixleaf.py', B+'ud/fixpunct.py', B+'ud/fixpunctchild.py', B+'ud/fixmultisubjects.py'],
 [('re-attachment heuristics', B+'ud/*.py')], ['udapy ud.Fix*'])

prop('C27', 'Space and text repair makes the sentence text and the words agree',
 'The blocks that set spacing from the stored text, reconcile words with the text, or set spacing heuristically leave the words spelling the stored text wherever the difference is one the block handles (spacing between words; words split by spaces; single words or punctuation that differ, found by alignment), change nothing on sentences that already agree, keep all other annotation, and treat each sentence independently of the others in the file. After reconciliation the stored text is always the one the words spell, and a replaced text is kept in a comment.',
 ['inputs'], 'all sentences, texts and tokenisations that differ in spacing or in individual words, in all orders of sentences',
 'No test runs these blocks.',
 [B+'ud/setspaceafterfromtext.py', B+'ud/complywithtext.py', B+'ud/setspaceafter.py', B+'ud/en/setspaceafter.py', B+'ud/ro/setspaceafter.py', B+'ud/goeswithfromtext.py'],
 [('text walking', B+'ud/setspaceafterfromtext.py'), ('alignment', B+'ud/complywithtext.py')], ['compute_text vs root.text'])

prop('C28', 'Tokenisers and segmenters preserve every character of the text',
 'Tokenising any raw sentence yields words numbered 1..n whose forms and spacing marks spell the sentence again, and splitting raw text into sentences yields consecutive sentences whose texts concatenate to the input; a simple tokeniser separates punctuation from letters as documented. ',
 ['inputs'], 'all Unicode sentences and texts',
 'No test tokenises or segments anything.',
 [B+'tokenize/onwhitespace.py', B+'tokenize/simple.py', B+'segment/simple.py'], [('tokenisation', B+'tokenize/*.py'), ('segmentation', B+'segment/simple.py')], ['tokenize.*', 'segment.Simple'])

prop('C29', 'Splitting and joining words keeps the spelling and the tree sound',
 'The blocks that create or dissolve multi-word tokens, split words on underscores or join adjacent words keep the surface text of the sentence as documented, keep the tree well formed with the outside attachments unchanged, and process every occurrence in a sentence. ',
 ['inputs'], 'all sentences with any number of adjacent occurrences and any tree around them',
 'No test runs these blocks.',
 [B+'ud/addmwt.py', B+'ud/removemwt.py', B+'ud/joinasmwt.py', B+'ud/jointoken.py', B+'ud/splitunderscoretokens.py', B+'ud/fixmwtspace.py'],
 [('word replacement', B+'ud/*.py')], ['compute_text', 'Root.multiword_tokens'])

prop('C30', 'Plain-text and legacy-format readers deliver what the file contains',
 'Reading plain sentences, plain text, parallel sentence or text files, and CoNLL-X/2009-style or VISL-CG files yields exactly one tree per sentence in order with the text, words, attributes and heads given in the file, honouring the options for empty lines, trailing whitespace and column order. '
 'Files written by the matching writer read back to the same words and structure.',
 ['inputs', 'configurations'], 'all input files of these formats and all reader options',
 'Only the plain-sentence reader is touched by a test, on one line.',
 [B+'read/sentences.py', B+'read/text.py', B+'read/addsentences.py', B+'read/addtext.py', B+'read/conll.py', B+'read/vislcg.py'],
 [('parsing', B+'read/*.py')], ['read.*'])

prop('C31', 'Conversion blocks treat each sentence alone and change only their part',
 'Each of the about 80 conversion and repair blocks (msf, mwe, tutorial, transform and ud including language-specific ones) gives for a sentence the same result whatever other sentences surround it, in whatever order and in whatever zone, and leaves the sentences of other zones unchanged. '
 'It completes without an error on every sentence with the universal annotation filled in, changes only the columns it is about (for example a case-marking block only MISC, an enhanced-relation block only DEPS), and its result is a well-formed document which can be saved and loaded unchanged.',
 ['inputs', 'configurations', 'histories'], 'all documents labelled with the vocabulary of the block; several sentences in any order; zone selection',
 'No unit test runs these blocks; leaks of state between sentences show only on documents with particular neighbours.',
 [B+'ud/*.py', B+'ud/*/*.py', B+'msf/*.py', B+'msf/slavic/*.py', B+'mwe/*.py', B+'tutorial/*.py', B+'transform/*.py'],
 [('per-tree processing', B+'ud/*.py process_tree/process_node'), ('zones', C+'block.py')], ['udapy <block>'])

prop('C32', 'Consistency checks mark exactly the offending words',
 'ud.MarkBugs and ud.cs-style feature checks derived from ud.MarkFeatsBugs mark with Bug=... exactly those words which break one of the documented rules, once per rule, in document order, honouring the selection by tests=, skip= and max_cop_lemmas=, change nothing else, and count in the final overview exactly the marks made, also when one block processes several documents.',
 ['inputs', 'configurations', 'histories'], 'all trees labelled with tags and relations near the rules; all selections of tests',
 'No unit test runs the checks.',
 [B+'ud/markbugs.py', B+'ud/markfeatsbugs.py'], [('rules', B+'ud/markbugs.py process_node'), ('overview', B+'ud/markbugs.py after_process_document'), ('feature permissions', B+'ud/markfeatsbugs.py')], ['udapy ud.MarkBugs'])

prop('C33', 'Conversion from UD v1 to v2 makes exactly the documented changes',
 'ud.Convert1to2 renames the tags, features and relations of UD v1 to those of UD v2, decides on neg and nmod, re-attaches remnants, coordination conjunctions and the members of flat, fixed, goeswith and appos structures, exactly as documented, reports in # text and in ToDo= marks exactly the cases to be checked by hand, honours skip=, and changes no other word and no other attribute, for every tree shape.',
 ['inputs', 'configurations'], 'all trees labelled with UD v1 tags, features and relations; all selections of skipped steps',
 'No unit test runs the conversion.',
 [B+'ud/convert1to2.py'], [('conversion steps', B+'ud/convert1to2.py process_tree')], ['udapy ud.Convert1to2'])

prop('C34', 'Coreference reports and pages state exactly what is annotated',
 'corefud.Stats, corefud.MiscStats, corefud.CountGaps and corefud.PrintMentions report exactly the entities, mentions, lengths, attributes and gaps present in the annotation and selected by their options, and write.CorefHtml shows every sentence, every word once and in order, and around each word exactly the mentions covering it, as well-formed HTML with special characters preserved; none of them changes the document.',
 ['inputs', 'configurations'], 'all documents with coreference annotation (nested, crossing and discontinuous mentions, empty nodes); all options',
 'No unit test runs these blocks.',
 [B+'corefud/stats.py', B+'corefud/miscstats.py', B+'corefud/countgaps.py', B+'corefud/printmentions.py', B+'write/corefhtml.py'],
 [('statistics', B+'corefud/stats.py'), ('gaps', B+'corefud/countgaps.py'), ('HTML page', B+'write/corefhtml.py process_tree'), ('selected mentions', B+'corefud/printmentions.py')], ['udapy corefud.Stats', 'udapy corefud.PrintMentions', 'udapy write.CorefHtml'])

prop('C35', 'Other coreference and verse formats are read and written without loss',
 'read.OldCorefUD and write.OldCorefUD convert between the old style of CorefUD (ClusterId, MentionSpan, ... in MISC) and the entities, mentions, heads, types, bridging, split antecedents and other attributes of the document without losing, adding or moving any; read.Conll2012 creates exactly the words, documents and mentions of the bracket column, read.Ccv exactly the poems, stanzas, verses, words and spaces of the JSON file, also when read in parts; corefud.FixCorefUD02 and corefud.FixToValidate make exactly their documented corrections.',
 ['inputs', 'configurations'], 'all documents with coreference annotation; all CoNLL-2012 and Corpus of Czech Verse files; all reader options',
 'No unit test reads or writes any of these formats.',
 [B+'read/oldcorefud.py', B+'write/oldcorefud.py', B+'read/conll2012.py', B+'read/ccv.py', B+'corefud/fixcorefud02.py', B+'corefud/fixtovalidate.py'],
 [('old CorefUD', B+'read/oldcorefud.py, '+B+'write/oldcorefud.py'), ('CoNLL-2012', B+'read/conll2012.py parse_node_line'), ('Corpus of Czech Verse', B+'read/ccv.py read_trees')], ['udapy read.OldCorefUD', 'udapy write.OldCorefUD', 'udapy read.Conll2012', 'udapy read.Ccv'])

prop('C36', 'Specialised repair blocks and reports do exactly what they document',
 'ud.AddPunctType, ud.Basic2Enhanced, ud.FixAdvmodByUpos, ud.FixCompoundName, ud.FixPseudoCop, ud.Lemmatize, ud.SetTranslation, ud.bg.RemoveDotAfterAbbr, ud.de.FixGSD, ud.es.FixExclamation, ud.kk.FixSpuriousAux, ud.ug.FixSpuriousAux, ud.pt.AddHyphenMwt, ud.zh.Lemmatize, mwe.Normalize and mwe.ToSubDeprels change exactly the words they are about, in exactly the documented way, and nothing else in the document; ud.PrintFixed and mwe.Possessives report exactly the fixed or multi-word expressions present; util.FindBug prints exactly the bundles on which the other block fails, as they were before it, and leaves the document unchanged.',
 ['inputs', 'configurations'], 'all trees and labels; all options; more sentences and documents processed by one block object',
 'No unit test runs these blocks.',
 [B+'ud/fixcompoundname.py', B+'ud/fixpseudocop.py', B+'ud/addpuncttype.py', B+'ud/fixadvmodbyupos.py', B+'ud/settranslation.py', B+'ud/printfixed.py', B+'mwe/normalize.py', B+'mwe/tosubdeprels.py', B+'util/findbug.py', B+'ud/de/fixgsd.py', B+'ud/es/fixexclamation.py', B+'ud/pt/addhyphenmwt.py'],
 [('names', B+'ud/fixcompoundname.py process_node'), ('pseudo-copulas', B+'ud/fixpseudocop.py process_node'), ('multi-word expressions', B+'mwe/normalize.py collect_mwes'), ('ordinals', B+'ud/de/fixgsd.py process_node'), ('bug search', B+'util/findbug.py process_document')], ['udapy ud.FixPseudoCop', 'udapy mwe.Normalize', 'udapy util.FindBug block=...'])

prop('C37', 'Language-specific repair blocks make exactly the documented changes',
 'ud.ro.FixNeg, ud.he.FixNeg, ud.ru.FixToEst, ud.es.FixVerbFeats, ud.es.FixTenerQue, ud.es.ElQue, ud.ca.ElQue, ud.ga.To2, ud.gl.To2, ud.yue.Lemmatize, ud.de.FixHDT, ud.da.FixMultiSubject, ud.mr.AddFormsInMwt, ud.hi.FixAux and the tutorial blocks AddArticles, AddCommas and Adpositions change exactly the words, relations, features, forms and lemmas they are about, in the basic tree and (where they treat it) in the enhanced graph, in exactly the documented way, never fail, and leave everything else in the document as it was; what they print is exactly what is present in the document.',
 ['inputs', 'configurations'], 'all trees and labels; all options; more sentences and documents processed by one block object',
 'No unit test runs these blocks.',
 [B+'ud/es/elque.py', B+'ud/es/fixtenerque.py', B+'ud/es/fixverbfeats.py', B+'ud/ga/to2.py', B+'ud/gl/to2.py', B+'ud/de/fixhdt.py', B+'ud/da/fixmultisubject.py', B+'ud/mr/addformsinmwt.py', B+'ud/hi/fixaux.py', B+'ud/ru/fixtoest.py', B+'ud/yue/lemmatize.py', B+'tutorial/addarticles.py', B+'tutorial/addcommas.py', B+'tutorial/adpositions.py'],
 [('relative clauses', B+'ud/es/elque.py fix_pattern'), ('auxiliaries', B+'ud/hi/fixaux.py process_node'), ('copulas', B+'ud/gl/to2.py process_node'), ('subjects', B+'ud/da/fixmultisubject.py')], ['udapy ud.es.ElQue fix=1', 'udapy ud.gl.To2', 'udapy tutorial.AddArticles'])

prop('C38', 'Periphrastic verb forms and case of phrases are derived as documented',
 'The msf blocks record, for every head word and only for it, which words form its periphrastic verb form (Phrase lists exactly their numbers in increasing order) and the tense, mood, voice, aspect, polarity, reflexivity and agreement of the form (msf.slavic.*); copy the morphological features to MSF attributes with phrase features taking precedence (msf.Init); derive the case from adpositions, conjunctions, quantifiers and the relation (msf.Case, msf.NumPhrase); add exactly one abstract subject to a finite predicate which has no subject in the tree or in the enhanced graph and move the agreement there (msf.CreateAbstract); and clean the function words (msf.RemoveFunc). Run in the documented order or one by one they change nothing else.',
 ['inputs', 'histories'], 'all trees, features and relations; single blocks and the whole pipeline; more sentences and documents processed by one block object',
 'No unit test runs these blocks.',
 [B+'msf/phrase.py', B+'msf/init.py', B+'msf/case.py', B+'msf/numphrase.py', B+'msf/createabstract.py', B+'msf/removefunc.py', B+'msf/slavic/past.py', B+'msf/slavic/future.py', B+'msf/slavic/present.py', B+'msf/slavic/conditional.py', B+'msf/slavic/infinitive.py', B+'msf/slavic/converb.py', B+'msf/slavic/imperative.py', B+'msf/slavic/preprocessor.py'],
 [('verb forms', B+'msf/slavic/*.py process_node'), ('values', B+'msf/phrase.py write_node_info'), ('case', B+'msf/case.py process_node'), ('abstract subjects', B+'msf/createabstract.py process_node')], ['udapy msf.slavic.Past msf.Init msf.Case'])

prop('C39', 'Labels of case-enhanced relations are normalised as documented',
 'The FixEdeprels blocks for Arabic, Czech, Lithuanian, Russian and Slovak give every enhanced relation with a case or conjunction marker (oblique and nominal modifiers, adverbial and adnominal clauses) the canonical marker and the case it governs: markers with one case get that case, layered markers keep the outermost one, prepositions with several cases take the case from the preposition when it has it and the documented default otherwise. The parents in the enhanced graph, all other relations and the rest of the annotation stay as they were, and the result for one relation does not depend on the other ones.',
 ['inputs'], 'all relations, markers of the tables and other ones, combinations of markers and cases; all trees',
 'No unit test runs these blocks.',
 [B+f'ud/{x}/fixedeprels.py' for x in ('ar', 'cs', 'lt', 'ru', 'sk')],
 [('labels', B+'ud/*/fixedeprels.py process_node'), ('case of the preposition', B+'ud/cs/fixedeprels.py copy_case_from_adposition')], ['udapy ud.cs.FixEdeprels'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w', encoding='utf-8') as f:
    for p in P:
        p['statement'] = p['statement'].strip()
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P))
