"""Which contracts decide which property, and what is left to the bounded run-time check."""
PROPS = {
    'C01': {
        'contracts': ['udapi.core.node.Node.is_descendant_of', 'udapi.core.node.Node.parent.setter', 'udapi.core.node.Node.create_child',
                      'udapi.core.root.Root.flatten', 'udapi.core.node.Node.remove', 'udapi.core.node.Node._shift_before_ord'],
        'bounded': {'ords of empty nodes after a removal or shift': 'run-time contract check only'},
    },
    'C02': {
        'contracts': ['udapi.core.node.Node.create_child', 'udapi.core.node.Node.remove', 'udapi.core.node.Node._shift_before_ord',
                      'udapi.core.node.Node.shift_after_node', 'udapi.core.node.Node.shift_before_node',
                      'udapi.core.node.Node.shift_after_subtree', 'udapi.core.node.Node.shift_before_subtree'],
        'bounded': {'ords of empty nodes after a removal or shift': 'run-time contract check only'},
    },
    'C03': {
        'contracts': ['udapi.core.node.Node.unordered_descendants', 'udapi.core.node.Node.descendants', 'udapi.core.root.Root.descendants',
                      'udapi.core.node.Node.children', 'udapi.core.node.Node.siblings', 'udapi.core.node.Node.prev_node',
                      'udapi.core.node.Node.next_node', 'udapi.core.node.Node.precedes', 'udapi.core.node.Node.is_leaf',
                      'udapi.core.node.ListOfNodes.__call__', 'udapi.core.node.Node.is_descendant_of'],
        'bounded': {},
    },
    'C04': {
        'contracts': [c + m for c in ('udapi.core.dualdict.DualDict.', 'udapi.core.coref.OtherDualDict.') for m in (
            '_deserialize_if_empty', '__str__', '__getitem__', '__contains__', '__len__', '__iter__', '__setitem__', '__delitem__', 'clear', 'set_mapping')]
        + [f'udapi.core.{o}{s}' for o in ('node.Node.feats', 'node.Node.misc', 'mwt.MWT.misc') for s in ('', '.setter')],
        'bounded': {'copy()': 'run-time contract check only'},
    },
    'C05': {
        'contracts': ['udapi.core.node.Node.' + f for f in ('udeprel', 'sdeprel', 'udeprel.setter', 'sdeprel.setter', 'no_space_after', 'gloss', 'gloss.setter')]
        + ['udapi.core.mwt.MWT.no_space_after'],
        'bounded': {},
    },
    'C06': {
        'contracts': ['udapi.core.node.Node.' + x for x in ('raw_deps', 'raw_deps.setter', 'deps', 'deps.setter', 'create_empty_child')],
        'bounded': {'EmptyNode.remove': 'run-time contract check only',
                    'OrdTuple (more than nine empty nodes after one word)': 'excluded from the proved domain of create_empty_child; run-time contract check only'},
    },
    'C07': {
        'contracts': [],
        'bounded': {'read.Conllu.read_tree_from_lines': 'run-time contract check only'},
    },
    'C08': {
        'contracts': [],
        'bounded': {'write.Conllu.process_tree, read.Conllu': 'run-time contract check only'},
    },
    'C09': {
        'contracts': ['udapi.core.mwt.MWT.remove', 'udapi.core.root.Root.create_multiword_token', 'udapi.core.root.Root.token_descendants', 'udapi.core.node.Node.compute_text'],
        'bounded': {'ud.RemoveMwt, mwt.ord_range/address': 'run-time contract check only'},
    },
    'C10': {
        'contracts': ['udapi.core.bundle.Bundle.' + f for f in ('check_zone', 'add_tree', 'create_tree', 'get_tree', 'has_tree', 'bundle_id.setter', 'remove')]
        + ['udapi.core.document.Document.create_bundle', 'udapi.core.root.Root.zone.setter', 'udapi.core.root.Root.sent_id.setter',
           'udapi.core.root.Root.sent_id', 'udapi.core.root.Root.remove'],
        'bounded': {'util.SplitSentence, JoinSentence, Split, segment.Simple, udpipe.Base': 'run-time contract check only'},
    },
    'C11': {
        'contracts': [],
        'bounded': {'CorefMention, CorefEntity.create_mention, nodes_to_span, span_to_nodes': 'run-time contract check only'},
    },
    'C12': {
        'contracts': [],
        'bounded': {'Root.steal_nodes, util.SplitSentence, JoinSentence': 'run-time contract check only'},
    },
    'C13': {
        'contracts': [],
        'bounded': {'Block.process_*, Run.run_blocks, argument parsing': 'run-time contract check only'},
    },
    'C14': {
        'contracts': [],
        'bounded': {'tokenize.OnWhitespace/Simple, segment.Simple, ud.SetSpaceAfterFromText': 'run-time contract check only'},
    },
    'C15': {
        'contracts': ['udapi.core.files.Files.' + f for f in ('number_of_files', 'filename', 'has_next_file', 'next_filename', 'next_filehandle')],
        'bounded': {'Files.string_to_filenames, BaseReader.process_document/try_fast_load, read.Conllu, read.Sentences': 'run-time contract check only'},
    },
    'C16': {
        'contracts': ['udapi.block.eval.f1.find_lcs', 'udapi.block.eval.f1.F1.f1'],
        'bounded': {'eval.F1 process_tree (counting, focus), process_end (report)': 'run-time contract check only'},
    },
    'C17': {
        'contracts': [],
        'bounded': {'store_coref_to_misc, load_coref_from_misc': 'run-time contract check only'},
    },
    'C18': {
        'contracts': [],
        'bounded': {'write.TextModeTrees.process_tree': 'run-time contract check only'},
    },
}
# property -> bound of the run-time check, in words
BOUNDS = {
    'C01': 'all edits of all trees of up to 4 words, all pairs of re-attachments of trees of up to 3 words, then random sequences of up to 12 edits on trees of up to 10 words',
    'C02': 'all shifts and removals in all trees of up to 4 words, then random sequences of up to 10 edits on trees of 5-12 words',
    'C03': 'all queries of all nodes of all trees of up to 4 words (thorough: 5), then of random trees of up to 11 words',
    'C04': 'all sequences of 1-2 operations of the three mapping classes (3 for small alphabets), lazily or eagerly loaded, then random sequences of up to 20 operations',
    'C05': 'all sequences of 1-3 writes of relation parts over 12 start relations and of 1-2 MISC writes, then random ones',
    'C06': 'all placements of 1-4 empty nodes in trees of 1-2 words and each removal, 9-21 empty nodes after one word, then random histories of creations, removals (of empty nodes and of words) and assignments',
    'C07': 'all HEAD vectors of up to 4 words (thorough: 5) with and without cycle fixing, all ranges of one token over up to 4 words, lists of column values and comments, then random sentences of up to 12 words',
    'C08': 'exhaustive small sentences over a list of column values and comments, then random sentences with empty nodes and tokens',
    'C09': 'all sequences of up to 3 tokens over up to 4 words and each removal, then random histories',
    'C10': 'all single operations and pairs of operations on a document of 3 bundles, then random histories of up to 12 operations; block-level splits and joins',
    'C11': 'all non-empty sets of nodes of sentences of up to 4 words with empty nodes, pairs of mentions over 3 words, then random histories of up to 15 operations',
    'C12': 'all subsets of words of all trees of up to 4 words, then random sequences of moves between 2-3 trees with multi-word tokens',
    'C13': 'all 16 sets of hooks x 8 zone settings x 6 empty-tree settings on fixed documents, all scenario word lists of up to 3 words of 8, then random documents and scenarios',
    'C14': 'all texts of up to 5 characters of 4 classes (thorough: 6), all pairs of 27 words for segmentation, all spacings of up to 3 forms, then random Unicode texts',
    'C15': 'all newdoc placements in 11 file shapes of up to 5 bundles x 19 reader settings, all file lists of up to 4 files, then random settings and histories',
    'C16': 'all pairs of sequences of up to 4 tokens over 2-3 letters (thorough: 5), then random pairs of up to 14 tokens, with and without focus',
    'C17': 'all pairs of mentions over sentences of 3-4 nodes, all triples over 3, then random documents of up to 3 sentences, 5 entities and 8 mentions with bridging and split antecedents',
    'C18': 'all trees of up to 4 words and all their subtrees with up to 12 settings, then random trees of up to 12 words with empty nodes',
}
NOT_APPLICABLE = {}
