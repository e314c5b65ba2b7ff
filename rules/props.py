"""The properties, in words, and where the code that is meant to make each hold lives.

`scope` lists the confirmed mechanism of the property as module:name patterns
(relative to tensorflow_transform).  A class stands for all its methods.  Private
same-module helpers reached from the scope are added automatically.
"""

PROPS = []


def prop(id, title, statement, over, text, why, files, mechanism, scope, rules=(), state=(), observe=(), decided=''):
    PROPS.append(dict(id=id, title=title, statement=' '.join(statement.split()), over=list(over), text=' '.join(text.split()),
                      why=' '.join(why.split()), files=files, mechanism=mechanism, scope=scope, rules=list(rules), state=list(state),
                      observe=list(observe), decided=' '.join(decided.split())))


T = 'tensorflow_transform/'
B = T + 'beam/'

prop('C01', 'Cache entries are reused only for the identical computation',
     '''A cached analysis result is reused only by a step that performs the same computation: the same kind of operation with
     the same parameters, fed by the same upstream steps over the same input columns, written by a compatible cache format.
     Changing anything that can change the result (an operation, one of its parameters, the user code producing its input, the
     cache format) changes the identity under which the result is stored.''',
     ['programs', 'histories'], 'all preprocessing functions, and all pairs of an earlier and a later one sharing a cache',
     '''Tests compare a handful of preprocessing functions with hard-coded hashes; the guarantee is over all pairs of
     programs, including operations and parameters no test pairs up.''',
     [B + 'analysis_graph_builder.py', B + 'analyzer_cache.py', T + 'graph_tools.py', T + 'nodes.py', T + 'analyzer_nodes.py'],
     [dict(name='hash of operation class, fields, upstream hashes and graph path', where=B + 'analysis_graph_builder.py:_OptimizeVisitor._make_next_hashed_path'),
      dict(name='graph path description', where=T + 'graph_tools.py:describe_path_as_analyzer_cache_hash'),
      dict(name='versioned entry key', where=B + 'analyzer_cache.py:make_cache_entry_key'),
      dict(name='parameter rendering', where=T + 'nodes.py:OperationDef.get_field_str')],
     ['beam.analysis_graph_builder:_OptimizeVisitor.*', 'beam.analysis_graph_builder:_OptimizationView', 'graph_tools:describe_path_as_analyzer_cache_hash',
      'graph_tools:_serialize_op_attr', 'graph_tools:InitializableGraphAnalyzer.get_unique_path', 'graph_tools:_GraphAnalyzer.get_unique_path',
      'graph_tools:_GraphAnalyzer._compute_analysis_result', 'graph_tools:_GraphAnalyzer.analyze_tensor', 'graph_tools:_GraphAnalyzer._compute_analysis_results_for_func_attributes',
      'graph_tools:_GraphAnalyzer._get_parents', 'graph_tools:get_func_graph_for_name', 'graph_tools:_AnalysisResult', 'graph_tools:_SourceInfo',
      'graph_tools:InitializableGraphAnalyzer.*',
      'beam.analyzer_cache:make_cache_entry_key', 'beam.analyzer_cache:_CACHE_VERSION*', 'beam.analyzer_cache:_PYTHON_VERSION', 'nodes:OperationDef.*', 'analyzer_nodes:*',
      'beam.beam_nodes:*', 'beam.analyzer_cache:_make_valid_cache_component', 'beam.analyzer_cache:_CACHE_COMPONENT_CHARACTER_REPLACEMENTS'],
     rules=['operation_identity', 'hash_inputs'],
     observe=['cache entry keys'],
     decided='''every field of every operation enters its rendered identity; the identity combines operation class, all
     fields, all upstream identities and the graph path; the key carries the format version''')

prop('C02', 'Analysis with a cache gives the result of analysing everything',
     '''Analysing a set of named datasets with any subset of a valid cache available yields the same transform as analysing all
     of the data without a cache: every dataset contributes exactly once, either through its cached accumulators or by being
     read. Results written to the cache are exactly those of cacheable per-dataset steps, under the keys that a later run of
     the same function will ask for, and a dataset is skipped only when all its entries are available.''',
     ['histories', 'programs', 'configurations'], 'all sequences of analysis runs over growing or shrinking dataset sets, with any subset of the cache present',
     '''Tests run a few two-step histories on tiny data; the guarantee quantifies over all histories, all dataset subsets
     and all preprocessing functions.''',
     [B + 'analysis_graph_builder.py', B + 'impl.py', B + 'analyzer_impls.py'],
     [dict(name='hit decodes, miss computes and encodes', where=B + 'analysis_graph_builder.py:_OptimizeVisitor._apply_operation_on_fine_grained_view'),
      dict(name='which datasets must be read', where=B + 'analysis_graph_builder.py:get_analysis_dataset_keys'),
      dict(name='which entries to load', where=B + 'analysis_graph_builder.py:get_analysis_cache_entry_keys'),
      dict(name='cache output assembly', where=B + 'impl.py:_make_output_cache')],
     ['beam.analysis_graph_builder:*', 'beam.impl:_make_output_cache', 'beam.impl:_AnalyzeDatasetCommon.*', 'beam.impl:AnalyzeDatasetWithCache.*', 'beam.impl:AnalyzeDataset.*',
      'beam.analyzer_impls:_EncodeCacheImpl.*', 'beam.analyzer_impls:_DecodeCacheImpl.*', 'beam.analyzer_impls:_InstrumentDatasetCacheImpl.*',
      'beam.analyzer_impls:_FlattenListsImpl.*', 'beam.analyzer_impls:_AddKeyImpl.*', 'beam.impl:_Flatten.*', 'beam.impl:_ExtractFromDictImpl.*', 'beam.analyzer_cache:DatasetKey.*', 'beam.analyzer_cache:_make_flattened_dataset_key',
      'beam.analyzer_cache:DatasetCache.*', 'analyzer_nodes:EncodeCache.*', 'analyzer_nodes:DecodeCache.*', 'analyzer_nodes:*Accumulate.*'],
     rules=['cache_codec_pairing', 'partitionable_consistency', 'hash_inputs'],
     observe=['transform graph', 'output cache'],
     decided='''structure of the cached graph: decode only on a hit, otherwise compute and (when cacheable) encode with the
     same coder; every dataset reaches every merge; keys asked for equal keys written''')

prop('C03', 'Cache written to storage is the cache read back',
     '''Writing an analysis cache to a directory and reading it back yields, for every dataset and entry asked for, the same
     accumulators and metadata that were written, including when several runs write to the same directory. An entry is never
     found under another dataset's or entry's name, and an unreadable or absent manifest means "no cache", never wrong data.''',
     ['histories', 'crash_points', 'inputs'], 'all dataset and entry names, and all sequences of writes and reads of one cache directory',
     '''Tests write one or two caches with friendly names; naming, manifest merging and filtering must be right for every name
     and every history.''',
     [B + 'analyzer_cache.py'],
     [dict(name='manifest merge', where=B + 'analyzer_cache.py:_ManifestFile'), dict(name='writer', where=B + 'analyzer_cache.py:WriteAnalysisCacheToFS'),
      dict(name='reader', where=B + 'analyzer_cache.py:ReadAnalysisCacheFromFS')],
     ['beam.analyzer_cache:*'],
     rules=['cache_path_agreement', 'manifest_scope'],
     observe=['files in the cache directory', 'returned cache'],
     decided='''writer and reader build the same paths and use the same codec; the manifest is merged, never overwritten with
     less; index allocation is fresh; unread entries are filtered by exact key''')

prop('C04', 'Cache coders are mirror images',
     '''For every kind of accumulator that can be cached, decoding an encoded accumulator yields an accumulator that merges and
     extracts exactly as the original would, for every value it can hold. Coders used for different kinds of accumulator
     preserve keys, element types and element order.''',
     ['inputs'], 'all accumulator values of all cacheable analyses',
     'Tests round-trip a few accumulators per coder; the guarantee covers all values, keys and types.',
     [T + 'analyzer_nodes.py', T + 'analyzers.py', T + 'experimental/analyzers.py', B + 'analyzer_cache.py'],
     [dict(name='coder classes', where=T + 'analyzer_nodes.py:CacheCoder'), dict(name='sketch coders', where=T + 'analyzers.py:_QuantilesSketchCacheCoder')],
     ['analyzer_nodes:*Coder*', 'analyzers:_QuantilesSketchCacheCoder.*', 'analyzers:*.accumulator_coder', 'experimental.analyzers:*Coder*', 'experimental.analyzers:*.accumulator_coder',
      'beam.analyzer_cache:DatasetCacheMetadata.*', 'analyzer_nodes:*.cache_coder', 'beam.analyzer_impls:_EncodeCacheImpl.*', 'beam.analyzer_impls:_DecodeCacheImpl.*',
      'analyzers:_LMomentsAccumulator.*', 'analyzers:_WeightedMeanAndVarAccumulator.*'],
     rules=['coder_mirror', 'coder_availability'],
     observe=['encoded bytes', 'decoded accumulators'],
     decided='''each decode step inverts an encode step in reverse order (formats, codecs, field order); every cacheable step
     supplies a coder''')

prop('C05', 'Every analysis step is executable and handled in every phase',
     '''Any analysis that the library can express can be translated and run: each kind of step has an implementation for every
     execution mode, produces as many outputs as it declares, and is given the inputs in the order in which it declares them.
     A graph with cycles, missing implementations or repeated step names is rejected instead of being executed wrongly.''',
     ['programs', 'configurations'], 'all preprocessing functions and execution modes (compatibility mode on or off)',
     'Tests run the analyzers they happen to use; that no kind of step is unhandled is a statement about all kinds and modes.',
     [T + 'nodes.py', T + 'analyzer_nodes.py', B + 'common.py', B + 'analyzer_impls.py', B + 'impl.py', B + 'analysis_graph_builder.py'],
     [dict(name='registry', where=B + 'common.py:register_ptransform'), dict(name='graph traversal', where=T + 'nodes.py:Traverser'),
      dict(name='translation', where=B + 'analysis_graph_builder.py:_TranslateVisitor')],
     ['nodes:*', 'beam.common:*', 'beam.beam_nodes:*', 'analyzer_nodes:*', 'beam.analysis_graph_builder:_ReadyVisitor.*', 'beam.analysis_graph_builder:_TranslateVisitor.*',
      'beam.analysis_graph_builder:build', 'beam.analyzer_impls:*Impl', 'beam.analyzer_impls:*Impl.__init__', 'beam.analyzer_impls:_ExtractOutputImpl.*', 'beam.impl:*Impl.__init__', 'beam.impl:*Impl', 'beam.impl:*ImplV2', 'beam.impl:_Flatten', 'beam.impl:_BindTensors.*',
      'beam.analyzer_impls:_PTransformImpl.*'],
     rules=['registry_exhaustive', 'impl_fields_exist', 'output_arity'],
     observe=['constructed pipeline'],
     decided='''every operation class is registered for every mode or translated away; implementations read only fields the
     operation has; declared and produced output counts agree; cycle and uniqueness checks are present on every path''')

prop('C06', 'Combining is insensitive to how the data is split',
     '''For every statistic computed by combining, every partial result is folded into the final result exactly once whatever the
     number, size and order of the batches and partial results, including empty ones. Combining does not alter inputs, other
     partial results or shared defaults, and global, per-key and packed execution use the same arithmetic.''',
     ['schedules', 'inputs'], 'all ways in which a runner may batch, bundle, order and merge partial results',
     'Tests use a local runner with a few bundlings; a distributed runner chooses among unboundedly many.',
     [T + 'analyzers.py', B + 'analyzer_impls.py', T + 'experimental/analyzers.py'],
     [dict(name='combiners', where=T + 'analyzers.py'), dict(name='runner adapters', where=B + 'analyzer_impls.py:_CombinerWrapper')],
     ['analyzers:NumPyCombiner.*', 'analyzers:WeightedMeanAndVarCombiner.*', 'analyzers:_LMomentsCombiner.*', 'analyzers:_LMomentsAccumulator.*', 'analyzers:_WeightedMeanAndVarAccumulator.*',
      'analyzers:QuantilesCombiner.*', 'analyzers:CovarianceCombiner.*', 'analyzers:PCACombiner.*', 'analyzers:_pad_arrays_to_match', 'experimental.analyzers:_VocabularyCombiner.*',
      'beam.analyzer_impls:_CombinerWrapper.*', 'beam.analyzer_impls:_PackedCombinerWrapper.*', 'beam.analyzer_impls:_WeightedMeanCombineFn.*', 'beam.analyzer_impls:sum_labeled_weights',
      'beam.analyzer_impls:_split_inputs_by_key', 'beam.analyzer_impls:_merge_outputs_by_key', 'beam.analyzer_impls:*Combine*Impl.*', 'analyzers:_numeric_combine', 'analyzers:_apply_cacheable_combiner*', 'analyzers:apply_cacheable_combine_operation',
      'analyzers:_min_and_max', 'analyzers:_sum_combine_fn_and_dtype', 'analyzers:size', 'analyzers:sum', 'analyzers:_mean_and_var*', 'analyzers:_tukey_parameters', 'analyzers:histogram', 'analyzers:count_per_key', 'analyzers:covariance', 'analyzers:pca'],
     rules=['combiner_purity', 'merge_consumes_all'],
     observe=['analysis outputs'],
     decided='''no combiner method writes to anything but the accumulator it owns; merging folds every given accumulator;
     update formulas are those of the confirmed merge algebra''')

prop('C07', 'Packing combines does not change any result',
     '''Merging several combine steps into one pass over the data gives each consumer exactly the output of its own step. No step
     is dropped or executed under another's name, steps are grouped only when they read the same input, and cached results
     refer to the same values as without packing.''',
     ['programs'], 'all analysis graphs, i.e. all numbers and arrangements of combine steps',
     'Tests compare printed graphs for a few preprocessing functions.',
     [B + 'combiner_packing_util.py', B + 'analyzer_impls.py'],
     [dict(name='packing passes', where=B + 'combiner_packing_util.py'), dict(name='packed combine', where=B + 'analyzer_impls.py:_PackedCombinerWrapper')],
     ['beam.combiner_packing_util:*', 'beam.analyzer_impls:_PackedCombinerWrapper.*', 'beam.analyzer_impls:_InitialAccumulatePackedCombineImpl.*', 'beam.analyzer_impls:_MergeAccumulatorsPackedCombineImpl.*',
      'beam.analyzer_impls:_ExtractOutputImpl.*', 'analyzer_nodes:PackedCombine*', 'analyzer_nodes:ExtractPackedCombineMergeOutputs.*', 'analyzer_nodes:ExtractCombineMergeOutputs.*', 'beam.analysis_graph_builder:build'],
     rules=['packing_labels'],
     observe=['analysis outputs'],
     decided='''visitors rebuild every node once, group by common input, pair every packed step with an extraction under its own
     label, and update cache references''')

prop('C08', 'Vocabularies are ordered deterministically',
     '''The order of entries in a vocabulary, and hence every index assigned from it, is fully determined by the data and the
     options: by decreasing frequency (or statistic) with ties broken by the token, or by a hash of the token when fingerprint
     shuffling is requested. The same order applies whether the entries are selected by threshold, by top-k, per key or after
     loading from a cache.''',
     ['schedules', 'inputs'], 'all data sets, bundlings and arrival orders',
     'A local runner delivers elements in one order; ties and arrival order are what distributed runs vary.',
     [B + 'analyzer_impls.py', T + 'analyzers.py'],
     [dict(name='total order', where=B + 'analyzer_impls.py:_OrderElementsFn'), dict(name='selection', where=B + 'analyzer_impls.py:_ApplyThresholdsAndTopK'),
      dict(name='sorted batches', where=B + 'analyzer_impls.py:_BatchAndPreSort')],
     ['beam.analyzer_impls:_BatchAndPreSort', 'beam.analyzer_impls:_OrderElementsFn.*', 'beam.analyzer_impls:_ApplyThresholdsAndTopK', 'beam.analyzer_impls:_VocabularyOrderAndWriteImpl.*', 'beam.analyzer_impls:_VocabularyPruneImpl.*',
      'beam.analyzer_impls:_count_and_token_to_bytes', 'beam.analyzer_impls:_VocabularyMergeImpl.*', 'beam.analyzer_impls:_VocabularyCountImpl.*', 'analyzers:_vocabulary_analyzer_nodes', 'analyzers:vocabulary', 'analyzers:_VocabOrderingType', 'beam.analyzer_impls:_PRESORT_BATCH_SIZE',
      'experimental.analyzers:_VocabularyCombiner.*', 'experimental.analyzers:_approximate_vocabulary_analyzer_nodes', 'analyzer_nodes:VocabularyOrderAndWrite.*', 'analyzer_nodes:VocabularyPrune.*', 'tf_utils:_split_vocabulary_entries', 'experimental.analyzers:approximate_vocabulary'],
     rules=['vocabulary_total_order'],
     observe=['vocabulary file'],
     decided='''every path that fixes an order sorts by a key that includes the token; pre-sorted batches and the final merge
     use the same key and direction''')

prop('C09', 'A vocabulary contains exactly the tokens its options ask for',
     '''A vocabulary holds precisely the tokens that meet the requested frequency threshold, are within the requested number of
     most frequent tokens, satisfy the coverage options, and are valid entries; counts and weights are summed over all the data.
     Reserved tokens and the placeholder used for an empty vocabulary appear exactly where documented.''',
     ['inputs', 'configurations'], 'all token multisets, weights, labels and option combinations',
     'Tests sample a few dozen option combinations of a large product space.',
     [T + 'analyzers.py', B + 'analyzer_impls.py', T + 'tf_utils.py', T + 'analyzer_nodes.py'],
     [dict(name='counting', where=B + 'analyzer_impls.py:_VocabularyAccumulateImpl'), dict(name='pruning', where=B + 'analyzer_impls.py:_VocabularyPruneImpl'),
      dict(name='selection', where=B + 'analyzer_impls.py:_ApplyThresholdsAndTopK'), dict(name='batch counting', where=T + 'tf_utils.py:reduce_batch_weighted_counts')],
     ['analyzers:_get_top_k_and_frequency_threshold', 'analyzers:vocabulary', 'analyzers:_get_vocabulary_analyzer_inputs', 'analyzers:_vocabulary_analyzer_nodes', 'analyzers:get_vocab_newline_characters_regex',
      'analyzers:_VocabOrderingType', 'analyzers:calculate_recommended_min_diff_from_avg', 'analyzers:get_empy_vocabulary_dummy_value', 'analyzers:_EMPTY_STRING_OR_NEWLINE_CHARS_REGEX', 'analyzers:LARGE_VOCAB_TOP_K',
      'beam.analyzer_impls:maybe_add_empty_vocabulary_dummy', 'beam.analyzer_impls:_ApplyThresholdsAndTopK', 'beam.analyzer_impls:_Vocabulary*', 'beam.analyzer_impls:_flatten_*', 'beam.analyzer_impls:_make_count_and_weights_means_accumulator',
      'beam.analyzer_impls:_clip_probability', 'beam.analyzer_impls:_calculate_mutual_information_for_feature_value', 'beam.analyzer_impls:_MutualInformation*', 'beam.analyzer_impls:_extract_sentinels', 'beam.analyzer_impls:_WeightedMeanCombineFn.*',
      'beam.analyzer_impls:sum_labeled_weights', 'beam.analyzer_impls:_ExtractVocabularyReservedTokensImpl.*', 'tf_utils:reduce_batch_weighted_counts', 'tf_utils:reduce_batch_weighted_cooccurrences', 'tf_utils:_compute_*', 'tf_utils:_preprocess_tensors_for_cooccurences',
      'tf_utils:extend_reduced_batch_with_y_counts', 'tf_utils:_make_regex_filter_fn', 'tf_utils:maybe_format_vocabulary_input', 'tf_utils:get_values', 'tf_utils:register_vocabulary_reserved_tokens', 'tf_utils:fetch_vocabulary_reserved_tokens', 'tf_utils:GLOBAL_Y_COUNT*', 'tf_utils:_VOCABULARY_RESERVED*',
      'experimental.analyzers:*Vocabulary*', 'experimental.analyzers:_get_approximate_vocabulary_analyzer_inputs', 'experimental.analyzers:_approximate_vocabulary_analyzer_nodes', 'experimental.analyzers:approximate_vocabulary', 'analyzer_nodes:Vocabulary*', 'analyzer_nodes:ExtractVocabularyReservedTokens.*', 'tf_utils:_to_string'],
     rules=['vocabulary_options_reach_filter'],
     observe=['vocabulary file', 'vocabulary size'],
     decided='''each option flows from the public call to the step that enforces it; boundary comparisons (inclusive/exclusive),
     summation over all inputs and filter conditions are those confirmed''')

prop('C10', 'Vocabulary writers and readers agree on name and format',
     '''A vocabulary written by analysis is found and parsed by every reader (lookup tables, size and list accessors) under the name
     and in the file format with which it was written, for every user-supplied name and for frequency-annotated and per-key
     vocabularies. Two vocabularies of one pipeline never share a file by accident.''',
     ['inputs', 'configurations'], 'all vocabulary names, formats and storage options',
     'Names and formats are exercised in a few combinations; agreement must hold for all of them.',
     [T + 'analyzers.py', B + 'analyzer_impls.py', T + 'output_wrapper.py', T + 'tf_utils.py', T + 'mappers.py', T + 'experimental/analyzers.py'],
     [dict(name='naming', where=T + 'analyzers.py:_get_vocab_filename'), dict(name='writer', where=B + 'analyzer_impls.py:_VocabularyOrderAndWriteImpl'),
      dict(name='readers', where=T + 'output_wrapper.py:TFTransformOutput.vocabulary_by_name')],
     ['analyzers:sanitized_vocab_filename', 'analyzers:_get_vocab_filename', 'analyzers:_maybe_get_per_key_vocab_filename', 'analyzers:register_vocab', 'analyzers:VOCAB_*', 'analyzers:*VOCABULARY_FILE_FORMAT*', 'analyzers:_maybe_annotate_vocab_metadata', 'analyzers:_vocabulary_analyzer_nodes', 'analyzers:vocabulary',
      'experimental.analyzers:_get_approx_vocab_filename', 'experimental.analyzers:_APPROX*', 'experimental.analyzers:_approximate_vocabulary_analyzer_nodes', 'beam.analyzer_impls:_VocabularyOrderAndWriteImpl.*', 'beam.analyzer_impls:_OrderElementsFn.*', 'beam.analyzer_impls:_count_and_token_to_bytes',
      'output_wrapper:TFTransformOutput.vocabulary*', 'output_wrapper:TFTransformOutput._vocabulary*', 'tf_utils:_make_vocab_entry_to_dtype_fn', 'tf_utils:_make_tfrecord_vocabulary_dataset', 'tf_utils:make_tfrecord_vocabulary_lookup_initializer', 'tf_utils:_split_vocabulary_entries', 'tf_utils:_DatasetInitializerCompat.*',
      'mappers:_make_construct_vocabulary_table_function', 'annotators:*', 'analyzer_nodes:_write_to_temporary_asset_file', 'analyzer_nodes:TemporaryAssetInfo', 'tf_utils:apply_per_key_vocabulary', 'tf_utils:_lookup_table', 'tf_utils:construct_and_lookup_table', 'tf_utils:lookup_table'],
     rules=['vocabulary_format_exhaustive'],
     observe=['asset files', 'vocabulary accessors'],
     decided='''writer and readers branch over the same set of formats, build the same file name from the same inputs, and use
     inverse line formats''')

prop('C11', 'Vocabulary application stays within the declared index range',
     '''Applying a vocabulary maps every in-vocabulary token to its position, every other token to the default index or to an
     out-of-vocabulary bucket after the last position, and the range recorded in the output schema covers exactly the values
     that can occur. Tokens are looked up in the form in which they were counted.''',
     ['inputs', 'configurations'], 'all tokens, vocabularies, default values and numbers of out-of-vocabulary buckets',
     'Tests check a few option combinations; a range error appears only for particular vocabularies and defaults.',
     [T + 'mappers.py', T + 'tf_utils.py', T + 'analyzers.py', T + 'schema_inference.py'],
     [dict(name='application and schema range', where=T + 'mappers.py:_apply_vocabulary_internal'), dict(name='lookup', where=T + 'tf_utils.py:construct_and_lookup_table')],
     ['mappers:compute_and_apply_vocabulary', 'mappers:apply_vocabulary', 'mappers:_apply_vocabulary_internal', 'mappers:_make_construct_vocabulary_table_function', 'mappers:get_num_buckets_for_transformed_feature', 'mappers:hash_strings',
      'tf_utils:apply_per_key_vocabulary', 'tf_utils:_split_vocabulary_entries', 'tf_utils:_lookup_table', 'tf_utils:construct_and_lookup_table', 'tf_utils:lookup_table', 'tf_utils:to_vocab_range', 'tf_utils:maybe_format_vocabulary_input', 'tf_utils:_to_string', 'tf_utils:make_tfrecord_vocabulary_lookup_initializer',
      'experimental.mappers:compute_and_apply_approximate_vocabulary', 'schema_inference:set_tensor_schema_override', 'schema_inference:_get_tensor_ranges*', 'output_wrapper:TFTransformOutput.num_buckets_for_transformed_feature', 'tf_utils:_DatasetInitializerCompat.*', 'tf_utils:lookup_key', 'tf_utils:_make_vocab_entry_to_dtype_fn', 'tf_utils:_make_tfrecord_vocabulary_dataset',
      'mappers:_to_term_frequency', 'mappers:tfidf', 'experimental.mappers:document_frequency', 'experimental.mappers:idf'],
     rules=['mapper_option_forwarding'],
     observe=['transformed values', 'schema domains'],
     decided='''the bounds handed to the schema are the bounds of the lookup; options are forwarded unchanged; counting and lookup
     share one token form''')

prop('C12', 'Training and serving apply the same computation',
     '''The saved transform contains exactly the user's graph in which every analysis result has been replaced by its final computed
     value: each placeholder is bound once, to its own analyzer's output, before the graph is saved and never to a temporary or
     another step's value. What is evaluated over the training data and what serving code loads are this same graph.''',
     ['programs', 'histories'], 'all preprocessing functions with any number of analysis phases',
     'Tests evaluate specific functions; the binding of values to placeholders must be right for every function.',
     [B + 'impl.py', T + 'graph_context.py', T + 'analyzer_nodes.py', T + 'impl_helper.py', B + 'analysis_graph_builder.py'],
     [dict(name='binding', where=B + 'impl.py:_CreateTensorBindingsImpl'), dict(name='replacement v1', where=B + 'impl.py:_replace_tensors_with_constant_values'),
      dict(name='replacement v2', where=T + 'graph_context.py:TFGraphContext'), dict(name='placeholders', where=T + 'analyzer_nodes.py:bind_future_as_tensor')],
     ['beam.impl:_CreateTensorBindingsImpl.*', 'beam.impl:_get_tensor_replacement_map', 'beam.impl:_replace_tensors_with_constant_values', 'beam.impl:_CreateSavedModelImpl.*', 'beam.impl:_create_v2_saved_model', 'beam.impl:_CreateSavedModelImplV2.*', 'beam.impl:_BindTensors.*', 'beam.impl:_TensorBinding',
      'graph_context:*', 'analyzer_nodes:bind_future_as_tensor', 'analyzer_nodes:_bind_future_as_tensor_v1', 'analyzer_nodes:_bind_future_as_tensor_v2', 'analyzer_nodes:_get_temporary_analyzer_output', 'analyzer_nodes:_write_to_temporary_asset_file', 'analyzer_nodes:wrap_as_tensor', 'analyzer_nodes:TensorSink', 'analyzer_nodes:TENSOR_REPLACEMENTS', 'analyzer_nodes:TensorInfo.*',
      'impl_helper:trace_preprocessing_function', 'impl_helper:_trace*', 'impl_helper:trace_and_write_v2_saved_model', 'impl_helper:get_traced_transform_fn', 'impl_helper:_validate_analyzers_fingerprint', 'impl_helper:_assert_no_analyzers_in_graph', 'impl_helper:analyze_in_place',
      'beam.analysis_graph_builder:build', 'beam.analysis_graph_builder:_TranslateVisitor.*', 'beam.beam_nodes:*', 'graph_tools:get_analyzers_fingerprint', 'graph_tools:_retrieve_source_keys', 'graph_tools:AnalyzersFingerprint', 'beam.impl:_AnalyzeDatasetCommon.expand', 'saved.saved_transform_io:write_saved_transform_from_session', 'saved.saved_transform_io_v2:write_v2_saved_model', 'saved.saved_transform_io_v2:trace_and_update_module',
      'tf_utils:track_asset_analyzer_output', 'tf_utils:_get_asset_analyzer_output_and_control_dependency', 'tf_utils:_ASSET_REPLACEMENTS'],
     rules=['binding_before_save'],
     observe=['saved transform', 'transformed data'],
     decided='''bindings are keyed by the placeholder's own name; all sinks of a phase are bound before saving; v1 and v2 paths
     agree; fingerprints are compared before saving''')

prop('C13', 'Each input row yields exactly its own output row',
     '''Transforming a dataset emits one output row for each input row, with the values that the transform computes for that row and
     with pass-through columns of that same row, in every supported output format. No row is lost, duplicated or paired with
     another row's values by batching, slicing, encoding or dropping of columns.''',
     ['inputs', 'schedules', 'configurations'], 'all datasets, batchings and output formats',
     'Batch boundaries, slices of over-large batches and pass-through columns are exercised by a few fixed inputs.',
     [B + 'impl.py', T + 'impl_helper.py'],
     [dict(name='graph evaluation', where=B + 'impl.py:_RunMetaGraphDoFn'), dict(name='conversion', where=B + 'impl.py:_convert_to_record_batch'),
      dict(name='transform', where=B + 'impl.py:TransformDataset')],
     ['beam.impl:_RunMetaGraphDoFn.*', 'beam.impl:_maybe_slice_large_record_batch', 'beam.impl:_convert_to_record_batch', 'beam.impl:_transformed_batch_to_instance_dicts', 'beam.impl:TransformDataset.*', 'beam.impl:EncodeTransformedDataset.*', 'beam.impl:AnalyzeAndTransformDataset.*',
      'beam.impl:_remove_columns_from_metadata', 'beam.impl:_MaybeInferTensorRepresentationsDoFn.*', 'beam.impl:_InstanceDictInputToTFXIOInput.*', 'impl_helper:_example_to_dict', 'impl_helper:record_batch_to_instance_dicts', 'impl_helper:make_tensor_to_arrow_converter', 'impl_helper:validate_varlen_sparse_value', 'impl_helper:get_type_specs_from_feature_specs',
      'beam.impl:_ApplySavedModelImpl.*', 'beam.impl:_ExtractInputForSavedModelImpl.*', 'beam.impl:_MAX_TRANSFORMED_BATCH_BYTES_SIZE', 'beam.context:Context.get_passthrough_keys', 'beam.context:Context.get_desired_batch_size', 'beam.impl:_clear_shared_state_after_barrier', 'beam.impl:_infer_metadata_from_saved_model*'],
     rules=['every_batch_emitted'],
     observe=['transformed dataset'],
     decided='''every path through the per-batch functions emits the batch; slices partition the batch; pass-through columns come
     from the same batch as the computed columns''')

prop('C14', 'The preprocessing function sees its own copies of the inputs',
     '''Tracing calls the user's function with one fresh tensor per declared input column, of the declared type and shape, so that
     the function may modify what it is given without affecting what the graph reads, and every declared output is kept under
     its own name. Graph-mode and function-mode tracing yield the same inputs, outputs and metadata.''',
     ['programs', 'configurations'], 'all preprocessing functions and feature specifications',
     'Only functions in the tests are traced; functions that mutate or return their inputs are rare there.',
     [T + 'impl_helper.py', T + 'tf_utils.py', T + 'saved/saved_transform_io_v2.py'],
     [dict(name='input construction', where=T + 'impl_helper.py:batched_placeholders_from_specs'), dict(name='tracing', where=T + 'impl_helper.py:get_traced_transform_fn'),
      dict(name='copies', where=T + 'tf_utils.py:copy_tensors')],
     ['impl_helper:batched_placeholders_from_specs', 'impl_helper:_is_feature_spec', 'impl_helper:_sanitize_scope_name', 'impl_helper:_batched_placeholder_from_*', 'impl_helper:get_traced_transform_fn', 'impl_helper:_trace_preprocessing_fn_v1', 'impl_helper:_trace_preprocessing_fn_v2', 'impl_helper:trace_preprocessing_function',
      'tf_utils:copy_tensors', 'tf_utils:_copy_tensor*', 'tf2_utils:*', 'impl_helper:_VALID_SCOPE_REGEX', 'impl_helper:_INVALID_SCOPE_CHAR', 'impl_helper:_trace_and_get_metadata', 'impl_helper:_trace_and_write_transform_fn', 'inspect_preprocessing_fn:*', 'schema_inference:get_traced_metadata_fn', 'impl_helper:analyze_in_place'],
     rules=['inputs_copied'],
     observe=['traced graph', 'output names'],
     decided='''the user function is called with copies on every path; names map one to one; both tracing modes apply the same
     steps''')

prop('C15', 'Scoped settings never leak',
     '''A setting, registry or piece of global state that is changed for the duration of a block is back to its previous value when
     the block ends, whether it ends normally or with an exception, and nested blocks see the innermost setting. Independent
     pipelines or threads do not observe each other's settings.''',
     ['programs', 'schedules', 'fault_sequences'], 'all nestings of scopes, all threads, all exceptions raised inside them',
     'Leaks appear only after an exception or in another thread, which tests rarely arrange.',
     [B + 'context.py', T + 'graph_context.py', T + 'annotators.py', T + 'common.py', B + 'impl.py'],
     [dict(name='pipeline context stack', where=B + 'context.py:Context'), dict(name='graph context', where=T + 'graph_context.py:TFGraphContext'),
      dict(name='object tracker scope', where=T + 'annotators.py:object_tracker_scope'), dict(name='logging context', where=T + 'common.py:logging_context')],
     ['beam.context:*', 'graph_context:*', 'annotators:object_tracker_scope', 'annotators:_get_object', 'annotators:track_object', 'annotators:make_and_track_object', 'annotators:ObjectTracker.*', 'common:logging_context', 'common:log_api_use', 'common:_in_logging_context', 'beam.impl:_CreateSavedModelImpl.*', 'beam.analyzer_cache:_ManifestFile.*',
      'beam.impl:_clear_shared_state_after_barrier', 'tf_metadata.schema_utils_legacy:*', 'impl_helper:_trace_preprocessing_fn_v1', 'impl_helper:_trace_preprocessing_fn_v2', 'impl_helper:get_traced_transform_fn', 'annotators:_OBJECT_TRACKER'],
     rules=['scope_restored', 'thread_local_scopes'],
     observe=['settings after the block'],
     decided='''every write of scoped global state is undone on all exits of its scope; enter and exit are mirror images; state is
     thread-local where declared so''')

prop('C16', 'A published transform function is complete or absent',
     '''A transform function written to a directory is first produced under a unique temporary name in the same location and moved
     into place only when complete, so that a reader never sees a partial one, a retried or concurrent bundle does no harm, and
     temporaries are cleaned up. Existing metadata is replaced, the written metadata is the one that belongs to the function, and
     reading returns what was written.''',
     ['crash_points', 'schedules', 'fault_sequences'], 'all crash and retry points during publication',
     'Tests write once to an empty directory; retries and crashes between steps are not exercised.',
     [B + 'tft_beam_io/transform_fn_io.py', B + 'tft_beam_io/beam_metadata_io.py', T + 'tf_metadata/metadata_io.py'],
     [dict(name='publication', where=B + 'tft_beam_io/transform_fn_io.py:WriteTransformFn'), dict(name='metadata writer', where=B + 'tft_beam_io/beam_metadata_io.py:WriteMetadata')],
     ['beam.tft_beam_io.transform_fn_io:*', 'beam.tft_beam_io.beam_metadata_io:*', 'tf_metadata.metadata_io:write_metadata', 'tf_metadata.metadata_io:read_metadata', 'beam.impl:_AnalyzeDatasetCommon.expand', 'impl_helper:METADATA_DIR_NAME'],
     rules=['publish_order', 'publish_after_metadata'],
     observe=['output directory'],
     decided='''copy precedes rename, rename source is the temporary and its target the destination, cleanup on failure, metadata is
     written through an atomic write''')

prop('C17', 'A saved transform is loaded faithfully',
     '''Applying a saved transform to logical inputs feeds each named input to the tensor recorded under that name and returns each
     output under its recorded name; inputs that are missing are accepted only if no requested output depends on them. Variables,
     tables and assets are restored from the saved transform, and both file versions and both execution modes behave alike.''',
     ['inputs', 'configurations', 'programs'], 'all saved transforms, input subsets and composite input types',
     'Tests load a few small transforms with nearly complete inputs.',
     [T + 'saved/saved_transform_io.py', T + 'saved/saved_transform_io_v2.py', T + 'saved/saved_model_loader.py', T + 'output_wrapper.py'],
     [dict(name='v1 loading', where=T + 'saved/saved_transform_io.py:_partially_apply_saved_transform_impl'), dict(name='v2 loading', where=T + 'saved/saved_transform_io_v2.py:SavedModelLoader')],
     ['saved.*:*', 'tf2_utils:*', 'output_wrapper:TransformFeaturesLayer.*', 'output_wrapper:TFTransformOutput.transform_raw_features', 'output_wrapper:TFTransformOutput._transform_raw_features_compat_v1', 'output_wrapper:TFTransformOutput.load_transform_graph', 'output_wrapper:TFTransformOutput.transform_features_layer', 'output_wrapper:TFTransformOutput._exported_as_v1',
      'graph_tools:get_dependent_inputs', 'graph_tools:InitializableGraphAnalyzer.get_dependent_inputs'],
     rules=['component_agreement'],
     observe=['transformed tensors'],
     decided='''composite tensors are decomposed and recomposed in the same component order; conditions for missing inputs and the
     choice of outputs are those confirmed; restore steps precede use''')

prop('C18', 'The output schema describes the outputs',
     '''The schema produced for a transform names exactly the transform's outputs, with the type, shape and representation of the
     tensors that it emits, and carries the ranges, annotations and overrides attached to each output by the function, and to no
     other. Values of analysis-dependent ranges are the final ones.''',
     ['programs'], 'all preprocessing functions and output types',
     'Tests cover a few outputs per type; the mapping must be right for every combination of outputs and annotations.',
     [T + 'schema_inference.py', B + 'impl.py', T + 'impl_helper.py'],
     [dict(name='inference', where=T + 'schema_inference.py:_infer_feature_schema_common'), dict(name='annotations', where=T + 'schema_inference.py:_get_schema_annotations_common')],
     ['schema_inference:*', 'beam.impl:_infer_metadata_from_saved_model*', 'impl_helper:_trace_and_get_metadata', 'analyzers:_maybe_annotate_vocab_metadata', 'mappers:_annotate_buckets', 'annotators:annotate_vocab_size', 'beam.impl:_remove_columns_from_metadata', 'experimental.annotators:*'],
     rules=['collections_paired', 'schema_variants_agree'],
     observe=['inferred schema'],
     decided='''graph collections are read by the names they are written under and kept parallel; v1 and v2 inference agree; every
     tensor kind has a case''')

prop('C19', 'Schema and feature specification describe the same features',
     '''Converting a feature specification to a schema and back yields the same specification, and every kind of feature, type, shape,
     domain and default is either represented or rejected with an error, never silently changed. Legacy schema files are read into
     the equivalent schema.''',
     ['inputs'], 'all feature specifications and schemas',
     'Round trips are tested on a fixed list of specifications.',
     [T + 'tf_metadata/schema_utils.py', T + 'tf_metadata/metadata_io.py', T + 'tf_metadata/dataset_metadata.py'],
     [dict(name='to schema', where=T + 'tf_metadata/schema_utils.py:schema_from_feature_spec'), dict(name='from schema', where=T + 'tf_metadata/schema_utils.py:schema_as_feature_spec')],
     ['tf_metadata.*:*', 'schema_inference:_feature_spec_from_batched_tensors', 'schema_inference:_ragged_feature_spec_from_batched_tensor', 'impl_helper:get_type_specs_from_feature_specs', 'output_wrapper:TFTransformOutput.*spec', 'output_wrapper:TFTransformOutput.*domains', 'output_wrapper:TFTransformOutput.*metadata'],
     rules=['spec_kinds_exhaustive', 'type_tables_inverse'],
     observe=['schema', 'feature specification'],
     decided='''both directions branch over the same feature kinds and type tables, unsupported cases raise, and each attribute read
     in one direction is written in the other''')

prop('C20', 'Instance coders encode exactly the instance they are given',
     '''Encoding an instance writes every feature of the schema with that instance's values in the declared type, and rejects values
     that do not fit the declared shape or type. Nothing of one instance appears in the encoding of another, and coders that are
     shipped to workers behave as the original.''',
     ['inputs', 'histories'], 'all instances and all sequences of instances given to one coder',
     'Coders reuse internal state across calls; tests encode a few instances in sequence.',
     [T + 'coders/example_proto_coder.py', T + 'coders/csv_coder.py', T + 'impl_helper.py'],
     [dict(name='example coder', where=T + 'coders/example_proto_coder.py:ExampleProtoCoder'), dict(name='csv coder', where=T + 'coders/csv_coder.py:CsvCoder')],
     ['coders.*:*', 'tf_utils:serialize_example', 'tf_utils:_encode_proto', 'tf_utils:_serialize_feature', 'tf_utils:_DEFAULT_VALUE_BY_DTYPE', 'tf_utils:_get_missing_value', 'impl_helper:_example_to_dict', 'impl_helper:validate_varlen_sparse_value', 'impl_helper:_FEATURE_VALUE_KIND_TO_NP_DTYPE'],
     rules=['coder_reduce', 'coder_kinds'],
     observe=['encoded bytes'],
     decided='''every feature handler is reset and filled on every call; every feature kind has a handler; reduce passes all
     constructor arguments''')

prop('C21', 'Element-wise transforms keep rows and structure',
     '''A transform that works value by value or row by row returns a tensor with the row count and, where documented, the exact
     dense, sparse or ragged structure of its input; each output value depends on the values of its own row and on global
     statistics only. Missing values stay missing.''',
     ['inputs'], 'all dense, sparse and ragged inputs, including empty rows and batches',
     'Tests use a few small tensors; structure errors show up for empty rows, higher ranks or ragged inputs.',
     [T + 'mappers.py', T + 'tf_utils.py', T + 'experimental/mappers.py'],
     [dict(name='composite wrapper', where=T + 'mappers.py:_make_composite_tensor_wrapper_if_composite'), dict(name='mappers', where=T + 'mappers.py')],
     ['mappers:*', 'experimental.mappers:*', 'tf_utils:copy_tensors', 'tf_utils:get_values', 'tf_utils:_map_values', 'tf_utils:map_per_key_reductions', 'tf_utils:_align_dims', 'tf_utils:_broadcast_to_x_shape', 'tf_utils:assign_buckets', 'tf_utils:document_frequency_to_idf', 'tf_utils:_get_ragged_batch_value_rowids', 'tf_utils:_sparse_reduce_batch_keep_shape', 'tf_utils:lookup_key'],
     rules=['composite_rewrapped'],
     observe=['transformed tensors'],
     decided='''values are taken from and put back into the same composite structure; row indices flow unchanged; per-row operators
     are applied on the row axis''')

prop('C22', 'Scaling never divides by zero',
     '''Scaling by range, by standard score, globally or per key, and to a Gaussian shape, is defined for every column: where the
     data is constant, empty or has no spread the documented fallback value is returned in place of a division by zero, and
     the output range is the requested one otherwise.''',
     ['inputs'], 'all numeric columns including constant, empty and single-valued ones, and all keys',
     'Degenerate columns and keys are sampled by a few tests; guards must cover every division.',
     [T + 'mappers.py', T + 'gaussianization.py', T + 'analyzers.py', T + 'tf_utils.py'],
     [dict(name='range scaling', where=T + 'mappers.py:_scale_by_min_max_internal'), dict(name='z-score', where=T + 'mappers.py:_scale_to_z_score_internal')],
     ['mappers:scale_*', 'mappers:_scale_*', 'gaussianization:*', 'analyzers:_min_and_max*', 'analyzers:_mean_and_var*', 'analyzers:tukey_*', 'analyzers:_tukey_parameters', 'tf_utils:map_per_key_reductions', 'mappers:_apply_buckets_with_keys', 'mappers:apply_buckets_with_interpolation', 'mappers:estimated_probability_density', 'analyzers:WeightedMeanAndVarCombiner.*', 'analyzers:_LMomentsCombiner.*',
      'tf_utils:reduce_batch_count_mean_and_var*', 'tf_utils:_reduce_batch_count_mean_and_var*', 'tf_utils:reduce_batch_count_l_moments', 'tf_utils:_num_terms_and_factors', 'tf_utils:_condition_l_moments*', 'tf_utils:_iteration_l_moments*', 'experimental.mappers:idf', 'tf_utils:document_frequency_to_idf', 'beam.analyzer_impls:_ScaleAndFlattenPerKeyBucketBouandariesImpl.*'],
     rules=['guarded_division'],
     observe=['scaled values'],
     decided='''each division in the scaling code is by a constant, by a guarded value, or selected away by a test of its divisor;
     formulas are those confirmed''')

prop('C23', 'Missing and non-finite values are excluded consistently',
     '''Batch statistics count, sum and compare only present values, exclude not-a-number values where documented, and do so in the
     same way for dense, sparse and ragged columns, weighted or not, per key or globally. Values used in a numerator and in the
     matching count are the same set of values.''',
     ['inputs'], 'all dense, sparse and ragged batches with any pattern of missing and non-finite values',
     'The pattern space is unbounded; tests use a few fixed masks.',
     [T + 'tf_utils.py', T + 'analyzers.py'],
     [dict(name='batch reductions', where=T + 'tf_utils.py'), dict(name='nan handling in merges', where=T + 'analyzers.py:NumPyCombiner')],
     ['tf_utils:*reduce_batch*', 'tf_utils:_is_finite', 'tf_utils:_sparse_minus_reduce_min_and_reduce_max', 'tf_utils:_FLOATING_NAN', 'tf_utils:_num_terms_and_factors', 'tf_utils:_condition_l_moments*', 'tf_utils:_iteration_l_moments*', 'tf_utils:reduce_batch_count_l_moments', 'tf_utils:_validate_and_get_dense_value_key_inputs', 'tf_utils:_get_missing_value', 'tf_utils:_MISSING_MASK_VALUE', 'tf_utils:_sparse_reduce_batch_keep_shape',
      'tf_utils:_compute_*', 'tf_utils:_preprocess_tensors_for_cooccurences', 'tf_utils:get_values', 'tf_utils:_get_ragged_batch_value_rowids', 'tf_utils:_map_values', 'analyzers:NumPyCombiner.*', 'analyzers:*make_nan_to_num', 'analyzers:_min_and_max*', 'analyzers:_mean_and_var*', 'analyzers:sum', 'analyzers:min', 'analyzers:max', 'analyzers:mean', 'analyzers:var', 'analyzers:histogram', 'analyzers:size', 'analyzers:count_per_key', 'analyzers:_sum_combine_fn_and_dtype', 'analyzers:QuantilesCombiner.*', 'analyzers:quantiles', 'analyzers:_quantiles_per_key', 'analyzers:_tukey_parameters'],
     rules=['mask_consistency'],
     observe=['statistics'],
     decided='''the same mask guards numerator and count; all tensor kinds have a case and agree on exclusion; merges treat not-a-number
     as confirmed''')

prop('C24', 'Required input columns are never under-reported',
     '''Every input column whose value can influence a requested analysis or output is reported as required, through any chain of
     operations, tables, control dependencies and nested functions. Columns reported as not required can be dropped without
     changing any result.''',
     ['programs'], 'all preprocessing functions',
     'Reachability through every kind of graph edge cannot be covered by sample functions.',
     [T + 'inspect_preprocessing_fn.py', T + 'graph_tools.py', B + 'analysis_graph_builder.py'],
     [dict(name='dependency walk', where=T + 'graph_tools.py:InitializableGraphAnalyzer.get_dependent_inputs'), dict(name='inspection', where=T + 'inspect_preprocessing_fn.py')],
     ['inspect_preprocessing_fn:*', 'graph_tools:*', 'saved.saved_transform_io_v2:SavedModelLoader._get_unfed_input_keys', 'saved.saved_transform_io_v2:SavedModelLoader._get_missing_inputs', 'saved.saved_transform_io_v2:_get_output_to_inputs_map', 'analyzer_nodes:get_input_tensors_value_nodes', 'beam.analysis_graph_builder:get_analysis_dataset_keys'],
     rules=['dependency_edges'],
     observe=['reported columns'],
     decided='''the walk follows data inputs, control inputs, table initialisers and function bodies; sources of all sinks are
     unioned''')

prop('C25', 'Analysis phases run only when their inputs are known',
     '''An analysis step is executed only after every analysis result on which its input depends has been computed and substituted,
     each step is executed in exactly one phase, and a table is initialised only when everything its initialiser reads is known.
     A function for which no such order exists is rejected with an error.''',
     ['programs'], 'all preprocessing functions, with any nesting of analyses, tables and control flow',
     'Nesting depth and control flow are unbounded; tests go to a few levels.',
     [B + 'analysis_graph_builder.py', T + 'graph_tools.py'],
     [dict(name='readiness', where=T + 'graph_tools.py:_GraphAnalyzer'), dict(name='phase loop', where=B + 'analysis_graph_builder.py:build')],
     ['graph_tools:*', 'beam.analysis_graph_builder:_ReadyVisitor.*', 'beam.analysis_graph_builder:_TranslateVisitor.*', 'beam.analysis_graph_builder:build', 'beam.analysis_graph_builder:_build_analysis_graph_for_inspection', 'nodes:Traverser.*', 'beam.analysis_graph_builder:_tensor_name'],
     rules=['ready_before_translate'],
     observe=['phases of the constructed pipeline'],
     decided='''readiness is the conjunction over all dependencies; translation is guarded by readiness; unresolved sinks raise''')

prop('C26', 'Dataset identities are validated and kept apart',
     '''Named datasets given to an analysis keep their identity through reading, caching and merging: no two are confused, the
     combined dataset is used for steps that need all the data, and invalid or clashing names are rejected before any work is done.
     Datasets supplied as empty are served from the cache or reported.''',
     ['inputs', 'configurations'], 'all sets of dataset names, with any subset empty or cached',
     'Tests use two or three names.',
     [B + 'analyzer_cache.py', B + 'impl.py', B + 'analysis_graph_builder.py'],
     [dict(name='key type', where=B + 'analyzer_cache.py:DatasetKey'), dict(name='validation', where=B + 'analyzer_cache.py:validate_dataset_keys'), dict(name='input assembly', where=B + 'impl.py:_AnalyzeDatasetCommon')],
     ['beam.analyzer_cache:DatasetKey.*', 'beam.analyzer_cache:DatasetKey', 'beam.analyzer_cache:_make_flattened_dataset_key', 'beam.analyzer_cache:validate_dataset_keys', 'beam.analyzer_cache:_get_dataset_cache_path', 'beam.analyzer_cache:_make_valid_cache_component', 'beam.impl:_AnalyzeDatasetCommon.*', 'beam.impl:AnalyzeDatasetWithCache.*', 'beam.impl:AnalyzeDataset.*', 'beam.impl:AnalyzeAndTransformDataset.*', 'beam.impl:_InstanceDictInputToTFXIOInput.*',
      'beam.impl:_ExtractInputForSavedModelImpl.*', 'beam.impl:_make_output_cache', 'beam.analysis_graph_builder:_OptimizeVisitor.*', 'beam.analysis_graph_builder:_OptimizationView', 'beam.analysis_graph_builder:get_analysis_dataset_keys', 'beam.beam_nodes:ExtractInputForSavedModel', 'beam.analysis_graph_builder:build', 'beam.impl:_ApplySavedModelImpl.*', 'beam.analyzer_cache:WriteAnalysisCacheToFS.*'],
     rules=['validated_before_use'],
     observe=['errors', 'pipeline inputs'],
     decided='''validation dominates use; key equality covers all identifying parts; per-dataset dictionaries are indexed by the key they
     iterate''')

prop('C27', 'Embedded Python functions and models run as registered',
     '''A Python function embedded in a transform is registered under its own token, survives saving, and is registered again before the
     loaded graph runs, so that each call reaches the function it was created with. Embedded pretrained models are restored from
     their own checkpoint and evaluated with the given inputs.''',
     ['programs', 'histories'], 'all transforms with any number of embedded functions and models, saved and loaded any number of times',
     'Tests embed one or two functions in a single process.',
     [T + 'py_func/pyfunc_helper.py', T + 'py_func/api.py', T + 'pretrained_models.py'],
     [dict(name='registration', where=T + 'py_func/pyfunc_helper.py:insert_pyfunc'), dict(name='re-registration', where=T + 'py_func/pyfunc_helper.py:register_pyfuncs_from_saved_transform')],
     ['py_func.*:*', 'pretrained_models:*', 'saved.saved_transform_io:_partially_apply_saved_transform_impl', 'saved.saved_transform_io:_load_transform_saved_model', 'saved.saved_transform_io:_maybe_register_addon_ops', 'pickle_helper:*'],
     rules=['proto_mirror'],
     observe=['transformed values after loading'],
     decided='''token, function and proto fields are written and read symmetrically; registration precedes import of the graph''')

prop('C28', 'Temporary locations are unique and complete before use',
     '''Each intermediate file or model is written to a location that no other step, phase, bundle or pipeline uses, and its path is
     handed to consumers only after the content is complete. Temporaries live under the directory the user designated.''',
     ['schedules', 'configurations'], 'all interleavings of concurrently running steps and pipelines',
     'Collisions and early reads only happen under concurrency that a local runner does not produce.',
     [B + 'common.py', B + 'context.py', B + 'impl.py', B + 'analyzer_impls.py', T + 'graph_context.py'],
     [dict(name='unique path', where=B + 'common.py:get_unique_temp_path'), dict(name='barrier before path', where=B + 'analyzer_impls.py:_VocabularyOrderAndWriteImpl')],
     ['beam.common:get_unique_temp_path', 'beam.context:Context.create_base_temp_dir', 'beam.context:Context.*', 'beam.impl:_CreateSavedModelImpl.*', 'beam.impl:_CreateSavedModelImplV2.*', 'beam.impl:_create_v2_saved_model', 'beam.analyzer_impls:_VocabularyOrderAndWriteImpl.*', 'graph_context:TFGraphContext.get_or_create_temp_dir', 'graph_context:TFGraphContext.*', 'analyzer_nodes:_write_to_temporary_asset_file', 'analyzer_nodes:_get_temporary_analyzer_output', 'analyzer_nodes:_bind_future_as_tensor_v1',
      'beam.tft_beam_io.transform_fn_io:*', 'beam.deep_copy:*', 'beam.experimental.analyzer_impls:*', 'experimental.analyzers:ptransform_analyzer', 'experimental.analyzers:_apply_analyzer', 'beam.impl:_AnalyzeDatasetCommon.expand', 'beam.impl:_RunMetaGraphDoFn.*'],
     rules=['unique_temp', 'write_before_path'],
     observe=['temporary directories'],
     decided='''every temporary path derives from a fresh unique component under the base directory; path values depend on the write''')

prop('C29', 'Invalid arguments are rejected before anything is built',
     '''Every documented constraint on the arguments of the public analysis and transform functions is enforced by an error on every
     path on which the constraint is violated, and valid arguments are never rejected. Options that are accepted take effect.''',
     ['inputs', 'configurations'], 'all argument combinations of the public functions',
     'Tests check a number of invalid combinations one by one.',
     [T + 'analyzers.py', T + 'mappers.py', T + 'tf_utils.py', B + 'impl.py', T + 'experimental/analyzers.py'],
     [dict(name='argument checks', where=T + 'analyzers.py'), dict(name='argument checks of mappers', where=T + 'mappers.py')],
     ['analyzers:*', 'mappers:*', 'experimental.analyzers:*', 'experimental.mappers:*', 'beam.impl:*.__init__', 'tf_utils:assert_same_shape', 'tf_utils:_validate_and_get_dense_value_key_inputs', 'analyzer_nodes:*.__new__', 'schema_inference:annotate*', 'schema_inference:set_tensor_schema_override', 'annotators:*', 'py_func.api:*', 'pretrained_models:*', 'beam.analyzer_cache:*.__init__', 'tf_utils:apply_per_key_vocabulary', 'tf_utils:maybe_format_vocabulary_input', 'beam.context:Context.__init__'],
     rules=['parameters_used', 'mapper_option_forwarding'],
     observe=['raised errors'],
     decided='''for each exception the exact condition under which it is raised; every parameter of a public function is used''')

prop('C30', 'Buckets partition the value range and match their declaration',
     '''Bucketizing assigns every value, whatever its position relative to the boundaries, to exactly one of the declared buckets,
     with equal results for dense, sparse and ragged inputs, and records that number of buckets in the schema. Boundaries are
     non-decreasing, and the same boundaries are used for analysis output and application.''',
     ['inputs', 'configurations'], 'all numeric inputs, boundaries and bucket counts',
     'Values on boundaries, duplicated boundaries and single-bucket cases are sampled sparsely.',
     [T + 'mappers.py', T + 'tf_utils.py', T + 'analyzers.py', B + 'analyzer_impls.py'],
     [dict(name='assignment', where=T + 'tf_utils.py:assign_buckets'), dict(name='boundaries', where=T + 'analyzers.py:quantiles'), dict(name='annotation', where=T + 'mappers.py:_annotate_buckets')],
     ['mappers:bucketize', 'mappers:bucketize_per_key', 'mappers:apply_buckets', 'mappers:_apply_buckets_with_keys', 'mappers:apply_buckets_with_interpolation', 'mappers:_annotate_buckets', 'mappers:_fill_shape', 'mappers:_make_composite_tensor_wrapper_if_composite', 'mappers:get_num_buckets_for_transformed_feature', 'tf_utils:assign_buckets', 'tf_utils:Side', 'tf_utils:reorder_histogram', 'analyzers:quantiles', 'analyzers:_quantiles_per_key', 'analyzers:remove_leftmost_boundary',
      'analyzers:QuantilesCombiner.*', 'analyzers:histogram', 'beam.analyzer_impls:_make_strictly_increasing_boundaries_rows', 'beam.analyzer_impls:_join_boundary_rows', 'beam.analyzer_impls:_ScaleAndFlattenPerKeyBucketBouandariesImpl.*', 'analyzer_nodes:ScaleAndFlattenPerKeyBucketBouandaries.*', 'mappers:estimated_probability_density', 'output_wrapper:TFTransformOutput.num_buckets_for_transformed_feature'],
     rules=['bucket_bounds'],
     observe=['bucket indices', 'schema domain'],
     decided='''assignment side and clamping, number of buckets recorded versus boundaries produced, monotone repair of boundaries''')

prop('C31', 'Per-key statistics are applied to their own key',
     '''A statistic computed per key is computed from the values of that key only and is applied to values of that key only, for any set
     of keys, with keys unseen during analysis handled as documented. Aggregates and keys are never misaligned by sorting, merging
     or file storage.''',
     ['inputs', 'schedules'], 'all key and value columns, key orders and numbers of keys',
     'Misalignment needs particular key orders or batch splits.',
     [T + 'tf_utils.py', T + 'analyzers.py', T + 'mappers.py', B + 'analyzer_impls.py'],
     [dict(name='alignment', where=T + 'tf_utils.py:map_per_key_reductions'), dict(name='key split and merge', where=B + 'analyzer_impls.py:_split_inputs_by_key')],
     ['tf_utils:map_per_key_reductions', 'tf_utils:lookup_key', 'tf_utils:_align_dims', 'tf_utils:_validate_and_get_dense_value_key_inputs', 'tf_utils:*per_key*', 'tf_utils:_split_vocabulary_entries', 'tf_utils:_lookup_table', 'analyzers:*per_key*', 'analyzers:_get_elementwise_per_key_output_shape', 'mappers:*per_key*', 'mappers:_scale_*_internal', 'mappers:_apply_buckets_with_keys', 'beam.analyzer_impls:_split_inputs_by_key', 'beam.analyzer_impls:_merge_outputs_by_key',
      'beam.analyzer_impls:*PerKey*', 'beam.analyzer_impls:_join_boundary_rows', 'beam.analyzer_impls:_make_strictly_increasing_boundaries_rows', 'analyzer_nodes:*PerKey*', 'analyzers:vocabulary', 'beam.analyzer_impls:_VocabularyOrderAndWriteImpl.*', 'tf_utils:hashable_tensor_or_op', 'tf_utils:_ASSET_REPLACEMENTS', 'beam.analyzer_impls:_CombinePerKeyFormat*', 'analyzers:histogram'],
     rules=['key_value_alignment'],
     observe=['per-key outputs', 'transformed values'],
     decided='''keys and values travel in one structure or are produced by one ordering; lookups use the key tensor of the same row''')

prop('C32', 'Accessors return what the pipeline wrote',
     '''The accessors of a finished transform output return the metadata, vocabulary sizes and contents, bucket counts, statistics paths
     and transform that were written for it, and raise or return the documented value for what does not exist. Repeated access
     gives the same answer.''',
     ['inputs', 'histories'], 'all transform outputs and accessor call sequences',
     'Tests query a few fixed outputs.',
     [T + 'output_wrapper.py', T + 'tf_metadata/dataset_metadata.py'],
     [dict(name='accessors', where=T + 'output_wrapper.py:TFTransformOutput')],
     ['output_wrapper:*', 'tf_metadata.dataset_metadata:*', 'tf_metadata.metadata_io:*', 'analyzers:sanitized_vocab_filename', 'annotators:get_asset_annotations', 'annotators:annotate_asset', 'annotators:clear_asset_annotations', 'annotators:annotate_vocab_size', 'experimental.annotators:get_vocabulary_size_by_name', 'mappers:get_num_buckets_for_transformed_feature'],
     rules=['memo_consistent'],
     observe=['returned values'],
     decided='''paths are built from the same constants as by the writers; memoised fields are filled before being returned''')

prop('C33', 'Copies of pipeline steps for retained data are faithful',
     '''When parts of a pipeline are duplicated to avoid materialising intermediate data, the copy performs the same steps with the same
     inputs and settings, side effects and materialisation points are not duplicated, and each copied step has a distinct name.
     Results are those of the original pipeline.''',
     ['programs', 'configurations'], 'all pipelines in which the optimisation is enabled',
     'Tests clone a few small pipelines.',
     [B + 'deep_copy.py', B + 'impl.py'],
     [dict(name='clone', where=B + 'deep_copy.py:deep_copy')],
     ['beam.deep_copy:*', 'beam.context:Context.get_use_deep_copy_optimization', 'beam.impl:_AnalyzeDatasetCommon.expand', 'beam.impl:_ExtractInputForSavedModelImpl.*', 'beam.impl:_ApplySavedModelImpl.*', 'beam.impl:TransformDataset.expand'],
     rules=['clone_complete'],
     observe=['constructed pipeline'],
     decided='''every input, side input and output tag of a copied step is mapped; boundary tests and unique labels are present''')


prop('C34', 'Statistics follow their documented formulas',
     '''Each analyzer and derived feature computes the documented quantity for every column, weight, key and axis option: counts,
     sums, minima, maxima, means, variances, covariances, principal components, quantiles, mutual information, term and inverse
     document frequencies, n-grams, bags of words, densities, L-moments and Tukey HH parameters use the documented terms,
     normalisers, degrees of freedom and reduction axes.''',
     ['inputs', 'configurations'], 'all columns, weights, keys and option values',
     'Tests compare a few small columns; a wrong term can vanish on symmetric, unweighted or one-dimensional data.',
     [T + 'analyzers.py', T + 'tf_utils.py', T + 'mappers.py', T + 'info_theory.py', T + 'gaussianization.py'],
     [dict(name='batch statistics', where=T + 'tf_utils.py:reduce_batch_count_mean_and_var'), dict(name='L-moments', where=T + 'tf_utils.py:reduce_batch_count_l_moments'),
      dict(name='mutual information', where=T + 'info_theory.py:calculate_partial_expected_mutual_information'), dict(name='tf-idf', where=T + 'mappers.py:_to_tfidf')],
     ['analyzers:*Combiner.*', 'analyzers:*Accumulator.*', 'analyzers:_min_and_max*', 'analyzers:_mean_and_var*', 'analyzers:sum', 'analyzers:size', 'analyzers:count_per_key', 'analyzers:histogram', 'analyzers:min',
      'analyzers:max', 'analyzers:mean', 'analyzers:var', 'analyzers:covariance', 'analyzers:pca', 'analyzers:tukey_*', 'analyzers:_tukey_parameters', 'analyzers:quantiles', 'analyzers:_quantiles_per_key', 'analyzers:_numeric_combine',
      'analyzers:_sum_combine_fn_and_dtype', 'analyzers:calculate_recommended_min_diff_from_avg', 'tf_utils:*reduce_batch*', 'tf_utils:_compute_*', 'tf_utils:_num_terms_and_factors', 'tf_utils:_condition_l_moments*',
      'tf_utils:_iteration_l_moments*', 'tf_utils:document_frequency_to_idf', 'tf_utils:reorder_histogram', 'tf_utils:extend_reduced_batch_with_y_counts', 'info_theory:*', 'gaussianization:*', 'mappers:tfidf', 'mappers:_to_*', 'mappers:_count_docs_with_term', 'mappers:_split_tfidfs_to_outputs',
      'mappers:ngrams', 'mappers:bag_of_words', 'mappers:word_count', 'mappers:estimated_probability_density', 'mappers:_scale_*', 'mappers:scale_*', 'experimental.mappers:*', 'beam.analyzer_impls:_calculate_mutual_information_for_feature_value',
      'beam.analyzer_impls:_clip_probability', 'beam.analyzer_impls:_WeightedMeanCombineFn.*', 'beam.analyzer_impls:sum_labeled_weights', 'beam.analyzer_impls:_MutualInformation*', 'beam.analyzer_impls:_CombinerWrapper.*'],
     observe=['analyzer outputs', 'transformed values'],
     decided='''the dataflow of each formula equals the confirmed one up to algebraic rearrangement: terms, factors, axes, masks, dtypes. Rounding,
     convergence and sketch accuracy are not decided (N01 to N05)''')

prop('C35', 'Counters report what the pipeline did',
     '''Each counter that the library exports (instances transformed, transform calls, analyzers and phases run, cache entries decoded,
     API uses) is incremented under its documented name once for each event of its kind and for no other, and counting neither
     consumes nor changes the counted data.''',
     ['programs', 'schedules'], 'all pipelines, batch sizes and cache states',
     'Few counters are asserted by tests and only for one pipeline each.',
     [B + 'impl.py', B + 'common.py', B + 'analyzer_impls.py', T + 'nodes.py'],
     [dict(name='batch metrics', where=B + 'impl.py:_RunMetaGraphDoFn._update_metrics'), dict(name='cache counters', where=B + 'analyzer_impls.py:_InstrumentDatasetCacheImpl'),
      dict(name='API use', where=B + 'impl.py:_InstrumentAPI')],
     ['beam.impl:_RunMetaGraphDoFn.*', 'beam.impl:_InstrumentAPI.*', 'beam.common:IncrementCounter.*', 'beam.common:METRICS_NAMESPACE', 'beam.analyzer_impls:_InstrumentDatasetCacheImpl.*', 'nodes:_CountGraphNodes.*', 'nodes:count_graph_nodes', 'common:*',
      'beam.impl:_AnalyzeDatasetCommon.expand', 'beam.impl:TransformDataset.expand', 'beam.impl:_warn_about_tf_compat_v1', 'beam.impl:_CreateSavedModelImpl*', 'beam.impl:_create_v2_saved_model', 'beam.analysis_graph_builder:_OptimizeVisitor.get_detached_sideeffect_leafs'],
     observe=['pipeline metrics'],
     decided='''each counter update, its name, its guard and its place in the graph are those confirmed''')


# Further code whose misbehaviour would break the property, beyond its central mechanism.
WIDER = {
    'C01': ['analyzers:*.accumulator_params', 'analyzers:*.__init__', 'experimental.analyzers:*.accumulator_params', 'experimental.analyzers:*.__init__', 'analyzers:_apply_cacheable_combiner*',
            'analyzers:apply_cacheable_combine_operation', 'analyzers:_vocabulary_analyzer_nodes', 'experimental.analyzers:_approximate_vocabulary_analyzer_nodes', 'graph_tools:*',
            'beam.analysis_graph_builder:*', 'beam.combiner_packing_util:*', 'beam.analyzer_cache:*'],
    'C02': ['beam.combiner_packing_util:_update_cache_value_node_references', 'beam.combiner_packing_util:perform_combiner_packing_optimization', 'beam.analyzer_impls:*Accumulate*', 'beam.analyzer_impls:*Merge*', 'beam.analyzer_cache:make_cache_entry_key', 'beam.analyzer_cache:validate_dataset_keys', 'beam.impl:_ExtractInputForSavedModelImpl.*', 'beam.impl:_ApplySavedModelImpl.*', 'analyzer_nodes:*Merge.*', 'nodes:apply_*', 'nodes:OperationDef.*', 'nodes:OperationNode.*', 'analyzers:_vocabulary_analyzer_nodes', 'analyzers:_apply_cacheable_combiner*'],
    'C03': ['beam.impl:_make_output_cache', 'analyzer_nodes:*Coder*', 'analyzers:*Coder*'],
    'C04': ['analyzer_nodes:*', 'analyzers:*Combiner.*', 'analyzers:*Accumulator.*', 'experimental.analyzers:*Combiner.*', 'beam.analyzer_impls:_VocabularyAccumulateImpl.*'],
    'C05': ['beam.analyzer_impls:*Impl.*', 'beam.analyzer_impls:_ApplyThresholdsAndTopK', 'beam.analyzer_impls:_BatchAndPreSort', 'beam.impl:*Impl.*', 'beam.impl:_create_v2_saved_model', 'beam.analysis_graph_builder:*', 'beam.experimental.analyzer_impls:*', 'experimental.analyzers:_apply_analyzer', 'experimental.analyzers:ptransform_analyzer', 'analyzers:apply_cacheable_combine_operation', 'analyzers:_apply_cacheable_combiner*', 'analyzers:_vocabulary_analyzer_nodes', 'beam.combiner_packing_util:*', 'beam.impl:_Instrument*'],
    'C06': ['beam.analyzer_impls:*Accumulate*', 'beam.analyzer_impls:*Merge*', 'beam.analyzer_impls:_VocabularyCountImpl.*', 'beam.analyzer_impls:_flatten_*', 'beam.analyzer_impls:_make_count_and_weights_means_accumulator', 'beam.combiner_packing_util:*Combine*', 'tf_utils:*reduce_batch_count*', 'analyzers:quantiles', 'analyzers:_quantiles_per_key', 'analyzers:min', 'analyzers:max', 'analyzers:mean', 'analyzers:var', 'analyzers:_min_and_max_per_key', 'analyzers:tukey_*'],
    'C07': ['nodes:*', 'analyzer_nodes:*', 'beam.analyzer_impls:*Combine*', 'beam.analysis_graph_builder:_perform_cache_optimization'],
    'C08': ['beam.analyzer_impls:*Vocab*', 'beam.analyzer_impls:_flatten_*', 'beam.analyzer_impls:_Mutual*', 'analyzers:_get_vocabulary_analyzer_inputs', 'experimental.analyzers:*', 'analyzer_nodes:Vocab*',
            'beam.analyzer_impls:maybe_add_empty_vocabulary_dummy', 'tf_utils:*vocab*', 'tf_utils:*Vocab*'] ,
    'C09': ['beam.analyzer_impls:_OrderElementsFn.*', 'beam.analyzer_impls:_BatchAndPreSort', 'beam.analyzer_impls:_count_and_token_to_bytes', 'info_theory:*', 'tf_utils:*vocab*', 'tf_utils:*reserved_tokens',
            'beam.analyzer_impls:_CombinePerKey*', 'beam.analyzer_impls:_split_inputs_by_key', 'analyzers:register_vocab'],
    'C10': ['output_wrapper:*', 'mappers:apply_vocabulary', 'mappers:_apply_vocabulary_internal', 'mappers:compute_and_apply_vocabulary', 'experimental.annotators:*', 'tf_utils:*vocab*', 'tf_utils:_*asset*',
            'analyzer_nodes:_bind_*', 'analyzer_nodes:wrap_as_tensor', 'beam.analyzer_impls:maybe_add_empty_vocabulary_dummy', 'schema_inference:annotate', 'schema_inference:_get_schema_annotations*',
            'experimental.analyzers:approximate_vocabulary', 'beam.impl:_replace_tensors_with_constant_values', 'beam.impl:_CreateTensorBindingsImpl.*', 'tf_utils:_map_values', 'tf_utils:track_asset_analyzer_output'],
    'C11': ['mappers:*', 'experimental.mappers:*', 'tf_utils:*vocab*', 'tf_utils:_map_values', 'tf_utils:*lookup*', 'schema_inference:*', 'tf_utils:get_values'],
    'C12': ['beam.impl:_infer_metadata_from_saved_model*', 'beam.impl:_RunMetaGraphDoFn.*', 'saved.*:*', 'analyzer_nodes:*', 'impl_helper:*trace*', 'tf_utils:*asset*', 'tf2_utils:*', 'beam.analysis_graph_builder:_ReadyVisitor.*', 'beam.context:Context.get_use_tf_compat_v1', 'output_wrapper:TransformFeaturesLayer.*', 'schema_inference:get_traced_metadata_fn', 'graph_tools:InitializableGraphAnalyzer.ready*'],
    'C13': ['beam.impl:*', 'impl_helper:*', 'beam.context:*', 'coders.example_proto_coder:*', 'tf_metadata.dataset_metadata:*', 'tf_metadata.schema_utils:schema_as_feature_spec'],
    'C14': ['impl_helper:*', 'graph_context:*', 'saved.saved_transform_io_v2:trace_and_update_module', 'schema_inference:infer_feature_schema*', 'inspect_preprocessing_fn:*', 'saved.saved_transform_io_v2:SavedModelLoader.*'],
    'C15': ['annotators:*', 'beam.impl:_RunMetaGraphDoFn.*', 'impl_helper:*', 'saved.saved_transform_io_v2:*', 'saved.saved_transform_io:*', 'py_func.pyfunc_helper:*', 'tf_utils:_ASSET_REPLACEMENTS',
            'beam.analyzer_cache:*', 'schema_inference:*', 'beam.impl:_CreateSavedModelImplV2.*', 'common:*', 'pickle_helper:*', 'tf_utils:*reserved_tokens', 'tf_utils:_VOCABULARY_RESERVED*'],
    'C16': ['beam.tft_beam_io.*:*', 'tf_metadata.metadata_io:*', 'output_wrapper:TFTransformOutput.*', 'beam.impl:_CreateSavedModelImpl*', 'beam.impl:_create_v2_saved_model', 'impl_helper:*metadata*',
            'tf_metadata.dataset_metadata:*', 'impl_helper:_trace_and_write_transform_fn', 'impl_helper:analyze_in_place', 'saved.saved_transform_io:write_saved_transform_from_session', 'saved.saved_transform_io_v2:write_v2_saved_model'],
    'C17': ['output_wrapper:*', 'graph_tools:*', 'beam.impl:_RunMetaGraphDoFn.*', 'py_func.pyfunc_helper:register_pyfuncs_from_saved_transform', 'impl_helper:trace_and_write_v2_saved_model'],
    'C18': ['impl_helper:*', 'beam.impl:_AnalyzeDatasetCommon.*', 'beam.impl:_remove_columns_from_metadata', 'tf_metadata.schema_utils:*', 'mappers:_apply_vocabulary_internal', 'mappers:apply_buckets', 'mappers:_apply_buckets_with_keys', 'analyzers:vocabulary',
            'analyzers:register_vocab', 'annotators:*', 'graph_context:TFGraphContext.get_evaluated_replacements', 'experimental.annotators:*', 'output_wrapper:TFTransformOutput.*'],
    'C19': ['impl_helper:*spec*', 'schema_inference:*', 'beam.impl:_InstanceDictInputToTFXIOInput.*'],
    'C20': ['impl_helper:*', 'tf_utils:*serialize*'],
    'C21': ['tf_utils:*key*', 'tf_utils:*vocab*', 'tf_utils:*bucket*', 'analyzers:_get_output_shape_from_input', 'analyzers:_get_elementwise_per_key_output_shape', 'gaussianization:*', 'tf_utils:*reduce_batch*'],
    'C22': ['mappers:_fill_shape', 'tf_utils:_align_dims', 'tf_utils:_map_values', 'tf_utils:*reduce_batch_minus*', 'tf_utils:_sparse_minus_reduce_min_and_reduce_max', 'analyzers:_numeric_combine', 'analyzers:min', 'analyzers:max', 'analyzers:mean', 'analyzers:var', 'experimental.mappers:document_frequency', 'mappers:tfidf', 'mappers:_to_tfidf', 'mappers:_to_term_frequency', 'tf_utils:_is_finite'],
    'C23': ['mappers:_scale_*', 'mappers:scale_*', 'analyzers:_get_vocabulary_analyzer_inputs', 'tf_utils:map_per_key_reductions', 'tf_utils:*lookup_key*'],
    'C24': ['tf2_utils:*', 'impl_helper:*trace*', 'saved.saved_transform_io_v2:*', 'nodes:Traverser.*', 'graph_context:*', 'analyzer_nodes:TENSOR_REPLACEMENTS', 'analyzer_nodes:wrap_as_tensor', 'analyzer_nodes:*bind*', 'analyzer_nodes:TensorSink', 'beam.analysis_graph_builder:_InspectVisitor.*', 'output_wrapper:TransformFeaturesLayer.*', 'output_wrapper:TFTransformOutput.transform_raw_features'],
    'C25': ['nodes:*', 'beam.analysis_graph_builder:*Visitor.*', 'analyzer_nodes:*bind*', 'analyzer_nodes:TensorSink', 'analyzer_nodes:TENSOR_REPLACEMENTS', 'beam.common:ConstructBeamPipelineVisitor.*', 'beam.impl:_AnalyzeDatasetCommon.expand', 'impl_helper:*trace*', 'tf_utils:*asset*', 'beam.impl:_get_tensor_replacement_map', 'beam.impl:_replace_tensors_with_constant_values'],
    'C26': ['beam.analyzer_cache:*', 'beam.analysis_graph_builder:*', 'beam.impl:_Flatten.*', 'beam.impl:_ExtractFromDictImpl.*', 'beam.impl:_CreateSavedModelImpl*', 'beam.analyzer_impls:_FlattenListsImpl.*', 'beam.analyzer_impls:_InstrumentDatasetCacheImpl.*', 'beam.impl:_Instrument*',
            'beam.combiner_packing_util:*'],
    'C27': ['saved.*:*', 'tf_utils:*asset*', 'graph_context:*', 'beam.impl:_RunMetaGraphDoFn.*'],
    'C28': ['beam.analyzer_impls:_Vocab*', 'beam.impl:_infer_metadata_from_saved_model*', 'beam.impl:_replace_tensors_with_constant_values', 'beam.impl:_get_tensor_replacement_map', 'analyzer_nodes:*bind*', 'impl_helper:*trace*', 'impl_helper:analyze_in_place', 'saved.*:*write*', 'beam.analyzer_cache:_ManifestFile.*', 'beam.analyzer_cache:WriteAnalysisCacheToFS.*', 'beam.analyzer_cache:_get_dataset_cache_path', 'analyzers:_get_vocab_filename', 'beam.impl:_clear_shared_state_after_barrier'],
    'C29': ['beam.context:*', 'impl_helper:*valid*', 'impl_helper:_trace_preprocessing_fn*', 'impl_helper:batched_placeholders_from_specs', 'tf_utils:*vocab*', 'tf_utils:*key*', 'nodes:*', 'tf_metadata.schema_utils:*', 'coders.*:*', 'output_wrapper:TFTransformOutput.*', 'experimental.annotators:*', 'schema_inference:*', 'inspect_preprocessing_fn:*', 'beam.analyzer_cache:validate_dataset_keys', 'beam.analyzer_cache:DatasetKey.*', 'beam.impl:*DatasetCommon.*', 'beam.impl:AnalyzeDataset*', 'beam.impl:TransformDataset.*', 'beam.impl:AnalyzeAndTransformDataset.*', 'beam.impl:EncodeTransformedDataset.*', 'beam.impl:_InstanceDictInputToTFXIOInput.*', 'beam.impl:_warn_about_tf_compat_v1'],
    'C30': ['mappers:*bucket*', 'analyzers:_apply_cacheable_combiner*', 'beam.analyzer_impls:*Bucket*', 'tf_utils:*bucket*', 'schema_inference:set_tensor_schema_override', 'schema_inference:_get_tensor_ranges*', 'schema_inference:_get_schema_overrides', 'schema_inference:_get_tensor_value*', 'schema_inference:_infer_feature_schema_common', 'tf_utils:map_per_key_reductions', 'tf_utils:lookup_key', 'tf_utils:_align_dims', 'tf_utils:*histogram*', 'analyzers:_QuantilesSketchCacheCoder.*'],
    'C31': ['analyzers:_get_vocab_filename', 'analyzers:_vocabulary_analyzer_nodes', 'mappers:bucketize*', 'mappers:_apply_vocabulary_internal', 'mappers:apply_buckets*', 'tf_utils:*key*', 'beam.analyzer_impls:_OrderElementsFn.*', 'beam.analyzer_impls:_VocabularyCountImpl.*', 'beam.analyzer_impls:_VocabularyMergeImpl.*', 'beam.analyzer_impls:_VocabularyPruneImpl.*', 'beam.analyzer_impls:_ApplyThresholdsAndTopK', 'beam.analyzer_impls:_BatchAndPreSort', 'beam.analyzer_impls:_CombinerWrapper.*', 'analyzer_nodes:ScaleAndFlatten*', 'analyzers:QuantilesCombiner.*', 'analyzers:NumPyCombiner.*'],
    'C32': ['annotators:*', 'experimental.annotators:*', 'schema_inference:*', 'tf_metadata.*:*', 'saved.saved_transform_io_v2:SavedModelLoader.*', 'beam.tft_beam_io.*:*', 'tf_utils:*vocab*', 'analyzers:*vocab*', 'beam.analyzer_impls:_count_and_token_to_bytes',
            'beam.analyzer_impls:_OrderElementsFn.*', 'beam.analyzer_impls:_VocabularyOrderAndWriteImpl.*'],
    'C33': ['beam.common:*', 'beam.context:*', 'beam.impl:_clear_shared_state_after_barrier', 'beam.impl:_CreateSavedModelImpl*', 'beam.impl:_BindTensors.*', 'beam.analyzer_impls:*Impl', 'beam.impl:*Impl'],
}
for _p in PROPS:
    _p['central'] = list(_p['scope'])
    _p['scope'] = _p['scope'] + [x for x in WIDER.get(_p['id'], ()) if x not in _p['scope']]

NOT_APPLICABLE = [
    ('N01', 'Approximate quantiles stay within the requested error',
     'The rank error of quantile boundaries, for any data and any way of splitting it, is at most the requested error.',
     ['inputs', 'schedules'], 'all data sets and bundlings',
     'Error depends on data size and merge order far beyond test sizes.',
     [T + 'analyzers.py'], 'analyzers.py:QuantilesCombiner',
     'a numerical bound of a sketch implemented in a native library outside the repository; no structural part of it is in this source (the call structure around the sketch is decided under C06 and C30)'),
    ('N02', 'Approximate vocabularies contain all sufficiently frequent tokens',
     'An approximate vocabulary contains every token whose frequency exceeds the documented error bound, with counts off by at most that bound.',
     ['inputs', 'schedules'], 'all token multisets and bundlings',
     'The bound concerns streams much longer than those of tests.',
     [T + 'experimental/analyzers.py'], 'experimental/analyzers.py:_VocabularyCombiner',
     'a probabilistic/numerical bound on a native sketch; static analysis of this repository cannot bound it'),
    ('N03', 'Streaming moments equal two-pass moments up to rounding',
     'Means, variances, covariances and L-moments computed from merged partial results equal those of the whole column up to floating-point rounding.',
     ['inputs', 'schedules'], 'all numeric columns and bundlings',
     'Rounding behaviour depends on magnitudes and order.',
     [T + 'analyzers.py', T + 'tf_utils.py'], 'analyzers.py:WeightedMeanAndVarCombiner',
     'floating-point accuracy is a quantitative runtime fact; the dataflow of the update formulas is decided under C06'),
    ('N04', 'Gaussianisation parameters invert the fitted distribution',
     'The fitted parameters map the data to an approximately standard normal distribution, and the iterative solvers converge.',
     ['inputs'], 'all numeric columns',
     'Convergence of numerical solvers is a statement about all real inputs.',
     [T + 'gaussianization.py'], 'gaussianization.py:compute_tukey_hh_params',
     'convergence and accuracy of iterative numerical solvers cannot be decided from the shape of the code; guards against division by zero are decided under C22'),
    ('N05', 'Adjusted mutual information has its stated numerical value',
     'The statistic used to rank label-aware vocabularies equals adjusted mutual information up to rounding.',
     ['inputs'], 'all contingency tables',
     'Numerical identity over all tables.',
     [T + 'info_theory.py'], 'info_theory.py:calculate_partial_expected_mutual_information',
     'a numerical identity over reals; out of reach of a sound static argument here'),
    ('N06', 'Pipelines give equal results on every runner and schedule',
     'Running the same pipeline on any runner, with any scheduling, retry and bundling, gives the same output.',
     ['schedules', 'fault_sequences'], 'all runners and schedules',
     'Tests use one local runner.',
     [B + 'impl.py'], 'beam/impl.py:AnalyzeDataset',
     'quantifies over histories of an external distributed engine; its structural necessary conditions (pure combiners, total orders, unique temporaries, exactly-once emission) are claimed as C06, C08, C13, C28'),
]
