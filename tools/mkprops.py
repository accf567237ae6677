import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],**({'observe_at':observe} if observe else {}))))
N='udapi/core/node.py';R='udapi/core/root.py'
p('C01','Tree edits keep every dependency tree a well-formed tree',
 "After any sequence of creating children, re-attaching, removing (with or without rehanging) and flattening, every word of a tree has exactly one parent inside the same tree, is listed exactly once among that parent's children (which are ordered by word order), and reaches the technical root without a cycle. An edit changes the attachment of only the words it is asked to change. An illegal re-attachment (to itself, to one of its descendants, to None, to an empty node or into another tree) raises an exception and leaves every tree exactly as it was.",
 ['inputs','histories'],'all trees (any size and shape), all nodes of them, all edit operations and all sequences of them',
 'The tests perform a handful of edits on a few fixed trees; the invariant is over all trees and all histories of edits, including edits that are refused.',
 [N,R],[('Node.parent setter',N),('Node.create_child',N),('Node.remove',N),('Node.is_descendant_of',N),('Root.flatten',R)],['node.parent','node.children','root.descendants'])
p('C02','Word order is always 1..n, and shifts move exactly the requested block',
 "After creating, removing or shifting nodes, the words of a tree are numbered 1..n in the order in which the tree lists them. Shifting a node (alone or with its subtree) before or after a node or a subtree moves exactly those words, as one contiguous block, to the requested place, keeps the relative order of the moved words and of all the other words, and changes no attachment. A shift relative to a descendant of the shifted subtree or before the root is refused with no change (or skipped when so requested).",
 ['inputs','histories'],'all trees, all pairs of nodes, all shift operations and flags, all removals and creations',
 'Tests shift a few nodes in one tree; off-by-one errors and gaps in non-projective subtrees depend on the relative position of the moved words and the reference.',
 [N],[('Node._shift_before_ord',N),('Node.shift_after_node/shift_before_node/shift_after_subtree/shift_before_subtree',N),('Node.remove renumbering',N),('Node.create_child',N)],['node.ord','root.descendants'])
p('C03','Tree queries return exactly the nodes the topology and word order define',
 "For every node of every well-formed tree, children, siblings, descendants (in any order or sorted, with the add-self, preceding-only and following-only variants), the descendant test, previous/next word, precedence, leaf test and non-projectivity test return exactly what the parent relation and the word order define. Lists of nodes are returned sorted by word order and without repetitions. Asking never changes the tree.",
 ['inputs'],'all well-formed trees, all nodes, all argument combinations',
 'Tests query a few nodes of fixed small trees; traversal errors show only for particular shapes.',
 [N,R],[('Node.children/siblings/descendants/unordered_descendants',N),('ListOfNodes.__call__',N),('Node.is_descendant_of/precedes/prev_node/next_node/is_leaf/is_nonprojective',N),('Root.descendants/descendants_and_empty',R)])
p('C04','FEATS/MISC mappings: dictionary view and string view never disagree',
 "For every sequence of reads, assignments, deletions, clearings and whole-mapping assignments on a FEATS- or MISC-like mapping, the dictionary view and the string serialization describe the same set of attributes, and reading one never changes the other. Assigning None or an empty string deletes the attribute, a missing attribute reads as an empty string, and the canonical string of an empty mapping is '_'. A string that was stored is returned unchanged until the mapping is modified, and a serialization produced from a dictionary lists every attribute exactly once, ordered case-insensitively by name.",
 ['inputs','histories'],'all sequences of mapping operations with all keys and values',
 'The two representations are synchronized lazily, so whether a write is lost depends on the order of preceding operations; tests exercise a few orders.',
 ['udapi/core/dualdict.py','udapi/core/feats.py',N],[('DualDict._deserialize_if_empty/__setitem__/__delitem__/__getitem__/__str__/set_mapping/clear','udapi/core/dualdict.py'),('Node.feats/misc setters',N)])
p('C05','Derived node attributes read and write consistently',
 "The universal and language-specific parts of a dependency relation always recombine to the full relation: writing one part keeps the other, and reading back gives what was written. The no-space-after flag and the gloss always agree with the MISC attributes they abbreviate.",
 ['inputs'],'all relation strings (including None, no subtype, several colons), all written parts without a colon in the universal part',
 'Tests use a couple of relations; corner cases are None, empty, and multiple colons.',
 [N,'udapi/core/mwt.py'],[('Node.udeprel/sdeprel/no_space_after/gloss',N),('MWT.no_space_after','udapi/core/mwt.py')])
p('C06','Enhanced dependencies and empty nodes stay consistent',
 "Reading the enhanced dependencies of a node yields, in order, exactly the parent/relation pairs its serialized form names (empty nodes included), and serializing those pairs yields the same text. Assigning either form replaces the other, so the two never disagree. Creating an empty node gives it a new position strictly between the right neighbours with the empty nodes kept in order, and removing one drops it, and every enhanced dependency on it and nothing else.",
 ['inputs','histories'],'all trees with empty nodes, all enhanced-dependency strings naming existing nodes, all create/remove sequences',
 'Tests hold one small enhanced graph; the decimal positions and the caches depend on history.',
 [N,R],[('Node.deps/raw_deps',N),('Node.create_empty_child',N),('EmptyNode.remove, OrdTuple',N)])
p('C07','Reading CoNLL-U builds the tree the HEAD column says, or refuses',
 "For every sentence given to the CoNLL-U reader (word lines numbered 1..n, multi-word-token ranges not overlapping), either the result is a well-formed tree whose i-th word is attached to the word (or root) named by the HEAD of the i-th word line, with all columns taken over, or an error is raised. Cyclic, self-attached and out-of-range HEADs are errors unless cycle fixing is on, in which case one word on each cycle is attached to the root and every other word keeps its HEAD. Multi-word-token lines cover exactly the words of their range.",
 ['inputs'],'all lists of input lines with consecutive word ids, all HEAD values, both settings of cycle fixing',
 'Tests read a few valid files; cycles, order of attachment and malformed heads are not sampled.',
 ['udapi/block/read/conllu.py'],[('Conllu.read_tree_from_lines','udapi/block/read/conllu.py')],['root.descendants','node.parent'])
p('C08','CoNLL-U written by the writer is read back as the same sentence',
 "Writing a tree (words, empty nodes, multi-word tokens, all ten columns, sentence id, text and comments) in CoNLL-U and reading it back yields a tree equal in every column, in topology and in word grouping. Writing that tree again yields the same text. Word, empty-node and multi-word-token lines appear exactly once each, in word order, with a token line right before its first word.",
 ['inputs'],'all trees whose string fields contain no tab or newline and are not the placeholder character where that means absence',
 'Tests round-trip a few sample files; the guarantee is for all documents.',
 ['udapi/block/write/conllu.py','udapi/block/read/conllu.py','udapi/core/document.py'],[('Conllu.process_tree','udapi/block/write/conllu.py'),('Conllu.read_tree_from_lines/parse_comment_line','udapi/block/read/conllu.py')])
p('C09','Multi-word tokens partition words and the surface text follows from them',
 "A word belongs to at most one multi-word token; creating a token over some words makes exactly those words its members (releasing them from earlier tokens), and removing it releases them and nothing else. The token sequence of a sentence contains each multi-word token once, at its first word, and every word outside tokens once, in word order. The computed text concatenates the forms of exactly these tokens, with one space between neighbours unless the left one says there is none. (Tokens over consecutive words.)",
 ['inputs','histories'],'all trees, all groupings of words into tokens, all sequences of creating and removing tokens',
 'Tests create a few tokens; overlaps, adjacent tokens and removal during iteration are not sampled.',
 [R,'udapi/core/mwt.py',N,'udapi/block/ud/removemwt.py'],[('Root.create_multiword_token/token_descendants',R),('MWT.remove','udapi/core/mwt.py'),('Node.compute_text',N),('RemoveMwt.process_tree','udapi/block/ud/removemwt.py')])
p('C10','Documents, bundles and zones stay consistently identified and numbered',
 "Bundles of a document are numbered by position starting from 1 after any creation or removal of bundles. Within a bundle every zone occurs at most once, and looking up a zone returns the only tree with it or fails. The sentence id of a tree is always the id of its bundle plus '/' and the zone when the zone is non-empty, whichever of bundle id, zone or sentence id was assigned last. A tree in no bundle keeps the id it was given, its zone part following the zone assigned to it.",
 ['inputs','histories'],'all sequences of bundle/tree creation, removal and id/zone assignment',
 'Tests create one or two bundles; consistency depends on histories.',
 ['udapi/core/bundle.py','udapi/core/document.py',R],[('Bundle.bundle_id/add_tree/check_zone/get_tree/remove','udapi/core/bundle.py'),('Document.create_bundle','udapi/core/document.py'),('Root.zone/sent_id setters',R)])
p('C11','Coreference mentions and their words always point at each other',
 "For every mention, its span words are exactly the words that list the mention, its head is one of them, and the span is kept sorted by word order; re-assigning words or the span string keeps this. The span string of a list of nodes and the node list of a span string are inverse of each other. Mentions of an entity and the entity of a mention refer to each other.",
 ['inputs','histories'],'all documents, all mention/word assignments and their sequences, all sets of nodes of one sentence',
 'Coreference tests run over one or two files and do not check back-references after re-assignment.',
 ['udapi/core/coref.py'],[('CorefMention.words/head/span setters','udapi/core/coref.py'),('nodes_to_span/span_to_nodes','udapi/core/coref.py'),('CorefEntity.create_mention','udapi/core/coref.py')])
p('C12','Moving words between sentences loses, duplicates and reorders nothing',
 "Moving any set of words from one tree to the end of another leaves each word in exactly one of the two trees, both of them well-formed and numbered 1..n with relative word order kept. Attachments between words that moved together, and between words that stayed together, are unchanged; every other moved or orphaned word hangs on the root of the tree it is now in. Each multi-word token stays with its words (empty nodes are not moved).",
 ['inputs'],'all pairs of trees and all non-empty subsets of words of the source tree',
 'Tests move whole trees at best; partial moves cut subtrees and tokens in many ways.',
 [R,'udapi/block/util/splitsentence.py','udapi/block/util/joinsentence.py'],[('Root.steal_nodes',R)])
p('C13','Blocks process exactly the selected units, once each, in document order',
 "Running a block on a document calls its outermost overridden hook (bundle, tree, otherwise node and empty node) exactly once for every bundle, tree, node or empty node selected by the zone and empty-tree settings, in document order, and for nothing else. A scenario runs the start hooks, then every block on every document in the given order until all readers are finished, then the end hooks. Scenario words with '=' become arguments of the block named before them and all others become blocks.",
 ['inputs','configurations','programs'],'all documents, all zone and empty-tree settings, all sets of overridden hooks, all scenarios',
 'Tests run a few blocks over all zones; the selection depends on combinations of settings.',
 ['udapi/core/block.py','udapi/core/run.py'],[('Block.process_document/_should_process_tree/process_tree/process_bundle/run','udapi/core/block.py'),('Run.run_blocks/_parse_command_line_arguments','udapi/core/run.py')])
p('C14','Tokenization and sentence segmentation preserve the text',
 "Tokenizing a sentence text yields words whose forms, joined with the recorded spacing, give back the text up to whitespace normalization, with no character lost, added or moved. Rule-based segmentation splits a text into pieces whose concatenation is the original text up to whitespace at the boundaries. Setting spacing flags from a text makes the computed text equal to the stored one (up to whitespace normalization) whenever the stored one consists of the forms in order with or without whitespace between them.",
 ['inputs'],'all texts',
 'Tests tokenize one or two sentences.',
 ['udapi/block/tokenize/onwhitespace.py','udapi/block/segment/simple.py','udapi/block/ud/setspaceafterfromtext.py'],[('OnWhitespace.process_tree','udapi/block/tokenize/onwhitespace.py'),('Simple.segment_text','udapi/block/segment/simple.py'),('SetSpaceAfterFromText.process_tree','udapi/block/ud/setspaceafterfromtext.py')])
p('C15','Readers deliver every input sentence exactly once, in order',
 "The file iterator yields every given file exactly once in the given order and then reports the end, and its has-next answer agrees with what the next request delivers. Loading with any combination of document splitting, bundles per document, merging, zone assignment and filtering delivers each (selected) tree exactly once, in input order, and respects the limit of documents. Consecutive trees with the same sentence id share a bundle; all others get a new one.",
 ['inputs','configurations','histories'],'all lists of files, all sequences of trees, all reader settings',
 'Tests load single files with default settings.',
 ['udapi/core/files.py','udapi/core/basereader.py'],[('Files.next_filename/has_next_file/next_filehandle','udapi/core/files.py'),('BaseReader.process_document/filtered_read_tree','udapi/core/basereader.py')])
p('C16','Evaluation scores are computed from a correct alignment',
 "The token alignment used for F1 scoring is a longest common subsequence of the two token sequences. Correct, predicted and gold counts equal the size of that alignment and the lengths of the sequences, and precision, recall and F1 follow from them, lying between 0 and 1 (when only some tokens are in focus, the other tokens are aligned first, by a longest common subsequence, then those in focus between them, and the counts are over the tokens in focus). Comparing a document with some such token with itself gives 1.",
 ['inputs'],'all pairs of token sequences',
 'Tests evaluate one pair of files.',
 ['udapi/block/eval/f1.py'],[('find_lcs','udapi/block/eval/f1.py'),('F1.process_tree/process_end','udapi/block/eval/f1.py')])
p('C17','Coreference annotation survives being stored to MISC and loaded again',
 "Storing the coreference entities, mentions, bridging and split antecedents of a document into MISC attributes and loading them again gives the same entities with the same mentions, spans, heads and links. Storing again gives the same attributes up to the order of links. Crossing mentions of different entities and nested mentions are distinguished.",
 ['inputs'],'all documents with coreference annotation',
 'Tests round-trip one or two files.',
 ['udapi/core/coref.py'],[('store_coref_to_misc/load_coref_from_misc','udapi/core/coref.py')])
p('C18','The textual tree drawing shows every node once, in word order',
 "The text-mode rendering of a tree or subtree has exactly one line per node in word order. Edges drawn correspond exactly to parent-child pairs. Non-projective trees are rendered without losing nodes.",
 ['inputs'],'all trees',
 'Tests compare a few fixed drawings.',
 ['udapi/block/write/textmodetrees.py'],[('TextModeTrees.process_tree','udapi/block/write/textmodetrees.py')])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
