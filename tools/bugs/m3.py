G = 'beam/analysis_graph_builder.py'
P = 'beam/combiner_packing_util.py'
K = 'beam/analyzer_cache.py'
I = 'beam/analyzer_impls.py'
# analysis graph builder
S('m3-ready-any', G, ("is_ready = all((self._graph_analyzer.ready_to_run(tensor) for tensor in operation_def.tensors))", "is_ready = any((self._graph_analyzer.ready_to_run(tensor) for tensor in operation_def.tensors))"))
S('m3-ready-first', G, ("is_ready = all(input_values)", "is_ready = input_values[0] if input_values else True"))
S('m3-tensor-name-strip', G, ("    return name[:-2] if name.endswith(':0') else name\n", "    return name.split(':')[0]\n"))
S('m3-shared-signature', G, ("        intermediate_output_signature = collections.OrderedDict()\n", "        intermediate_output_signature = analyzers_input_signature\n"))
S('m3-misses-overwritten', G, ("                self._dataset_has_cache_misses[dataset_key] |= False", "                self._dataset_has_cache_misses[dataset_key] = False"))
S('m3-hash-skips-none', G, ("""            if path is None:
                return None
            hash_container.update(path)""", """            if path is not None:
                hash_container.update(path)"""))
S('m3-hash-dedup', G, ("        for path in paths_to_hash:\n", "        for path in dict.fromkeys(paths_to_hash):\n"))
S('m3-hash-sorted-parents', G, ("paths_to_hash = list(parent_hashed_paths)", "paths_to_hash = sorted(parent_hashed_paths, key=lambda p: p or b'')"))
S('m3-hash-first-key', G, ("""            for key in operation_def.keys:
                path = self._tensor_keys_to_paths[key]
                paths_to_hash.append(path)""", """            path = self._tensor_keys_to_paths[operation_def.keys[0]]
            paths_to_hash.append(path)"""))
S('m3-hash-private-fields', G, ("""            for field in operation_def._fields:
""", """            for field in operation_def._fields:
                if field.startswith('input_'):
                    continue
"""))
S('m3-phase-any', G, ("operation_def.phase == 0:", "operation_def.phase < self._num_phases:"))
S('m3-prefer-all', G, ("any((v.fine_grained_view and v.prefer_fine_grained_view for v in input_values))", "all((v.fine_grained_view and v.prefer_fine_grained_view for v in input_values))"))
S('m3-hit-any-entry', G, ("(self._cache_dict.get(dataset_key, {}).get(cache_entry_key) is not None)", "self._cache_dict.get(dataset_key) is not None"))
S('m3-encode-uncached', G, ("if operation_def.cache_coder and dataset_key.is_cached:", "if operation_def.cache_coder:"))
S('m3-key-no-label', G, ("make_cache_entry_key(tf.compat.as_bytes(operation_def.label) + b'-' + next_hashed_path)", "make_cache_entry_key(tf.compat.as_bytes(operation_def.__class__.__name__) + b'-' + next_hashed_path)"))
S('m3-first-input-only', G, ("value_nodes = tuple((v[dataset_key] for v in fine_grained_views))", "value_nodes = tuple((v[dataset_key] for v in fine_grained_views[:1]))"))
S('m3-flattened-all', G, ("    if any((k.is_flattened_dataset_key() for k in result)):", "    if all((k.is_flattened_dataset_key() for k in result)):"))
S('m3-flattened-add', G, ("        result = dataset_keys\n    return result", "        result = {k for k in result if not k.is_flattened_dataset_key()}\n    return result"))
S('m3-entry-keys-intersection', G, ("""        for dataset_cache in cache_dict.values():
            result.update(dataset_cache.keys())""", """        for dataset_cache in cache_dict.values():
            result.update(dataset_cache.keys())
            break"""))
S('m3-initial-cache-given', G, ("specs, dataset_keys, {}, force_tf_compat_v1)\n    result = set()\n    if cache_dict", "specs, dataset_keys, None, force_tf_compat_v1)\n    result = set()\n    if cache_dict"))
S('m3-all-initializers', G, ("tuple(graph_analyzer.ready_table_initializers)", "tuple(graph.get_collection(tf.compat.v1.GraphKeys.TABLE_INITIALIZERS))"))
S('m3-ready-never-marked', G, ("            sink_tensors_ready[hashable_tensor] = True\n", "        sink_tensors_ready.update({tf_utils.hashable_tensor_or_op(t): True for t, _, _ in tensor_sinks})\n"))
S('m3-metadata-any', G, ("if dataset_cache_entries is not None and dataset_cache_entries.metadata:", "if dataset_cache_entries is not None:"))
S('m3-missing-default-false', G, ("self._dataset_has_cache_misses.get(dataset_key, True)", "self._dataset_has_cache_misses.get(dataset_key, False)"))
S('m3-side-effects-many-phases', G, ("if self._num_phases > 1:\n            return []", "if self._num_phases > 2:\n            return []"))
S('m3-savedmodel-flat-view', G, ("(saved_model_path_upstream_view.flattened_view, input_node)).outputs", "(saved_model_path_upstream_view.flattened_view, input_upstream_view.flattened_view)).outputs"))
S('m3-output-cache-order', G, ("        cache_dict[dataset_key][cache_key] = value_node\n", "        cache_dict[dataset_key].setdefault(dataset_key, value_node)\n"))
# packing
S('m3-pack-shared-keys', P, ("keys=parent.operation_def.keys, label=operation_def.label", "keys=sorted(parent.operation_def.keys), label=operation_def.label"))
S('m3-pack-all-groups', P, ("    packable_combines = {label: group for label, group in packable_combines.items() if len(group) > 1}\n", "    packable_combines = dict(list(packable_combines.items())[:1])\n"))
S('m3-pack-group-by-op', P, ("self._packed_combine_cache[grand_parent_label], keys=operation_def.label", "self._packed_combine_cache[grand_parent_label], keys=self._packable_combines[grand_parent_label][0].label"))
S('m3-merge-key-label', P, ("key=operation_def.label, label='AddKey[{}]'", "key=value.parent_operation.operation_def.label, label='AddKey[{}]'"))
S('m3-merge-multi-phase', P, ("    if num_phases > 1:\n        return (saved_model_future, cache_value_nodes)\n", ""))
S('m3-merge-min-two', P, ("packable_combine_extract_outputs) <= 1:", "packable_combine_extract_outputs) < 1:"))
S('m3-output-index-zero', P, ("                    output_index = intermidiate_value.value_index\n", "                    output_index = 0\n"))
S('m3-node-cache-class', P, ("            if op_def.label in labels_to_new_nodes:\n                return labels_to_new_nodes[op_def.label]\n", ""))
S('m3-depth-exceeded', P, ("_MAX_PACKED_POST_PROCESSING_DEPTH = 5", "_MAX_PACKED_POST_PROCESSING_DEPTH = 2"))
S('m3-final-label-any', P, ("if isinstance(packed_combine_op_def, analyzer_nodes.PackedCombineMerge) and packed_combine_op_def.label == self._final_packed_merge_combine_label:", "if isinstance(packed_combine_op_def, analyzer_nodes.PackedCombineMerge):"))
S('m3-cache-not-updated', P, ("    cache_value_nodes = _update_cache_value_node_references(cache_value_nodes, remove_redundant_traverser)\n", ""))
S('m3-cache-updated-early', P, ("    cache_value_nodes = _update_cache_value_node_references(cache_value_nodes, pack_acc_combine_traverser)\n    if num_phases", "    if num_phases"))
S('m3-parent-any', P, ("        if not isinstance(parent.operation_def, beam_nodes.ExtractFromDict):\n            return\n        assert len(parent.inputs) == 1\n", "        if not parent.inputs:\n            return\n"))
S('m3-merge-parent-types', P, ("_COMBINE_PARENT_NODE_TYPES = (beam_nodes.ExtractFromDict, beam_nodes.Flatten, analyzer_nodes.DecodeCache)", "_COMBINE_PARENT_NODE_TYPES = (beam_nodes.ExtractFromDict, beam_nodes.Flatten)"))
# cache
S('m3-cache-bracket', K, ("(']', '--'), ", ""))
S('m3-manifest-len', K, ("start_cache_idx = max(manifest.values()) + 1 if manifest else 0", "start_cache_idx = len(manifest)"))
S('m3-manifest-fresh', K, ("        manifest = manifest_file.read()\n        start_cache_idx = max(manifest.values()) + 1 if manifest else 0\n", "        manifest = {}\n        start_cache_idx = 0\n"))
S('m3-manifest-reuse-idx', K, ("            path = os.path.join(dataset_key_dir, str(cache_key_idx))\n", "            path = os.path.join(dataset_key_dir, str(manifest.get(cache_entry_key, cache_key_idx)))\n"))
S('m3-manifest-partial', K, ("            manifest[cache_entry_key] = cache_key_idx\n", "            manifest.setdefault(cache_entry_key, cache_key_idx)\n"))
S('m3-manifest-error-raises', K, ("            tf.compat.v1.logging.error(\"Can't load cache manifest contents: %s\", str(e))\n            return {}", "            tf.compat.v1.logging.error(\"Can't load cache manifest contents: %s\", str(e))\n            raise"))
S('m3-filter-empty', K, ("return self._filtered_cache_entry_keys is None or key in self._filtered_cache_entry_keys", "return not self._filtered_cache_entry_keys or key in self._filtered_cache_entry_keys"))
S('m3-read-glob', K, ("{os.path.join(dataset_cache_path, str(cache_key_idx))}-*-of-*", "{os.path.join(dataset_cache_path, str(cache_key_idx))}*"))
S('m3-read-break', K, ("            if not manifest:\n                continue\n", "            if not manifest:\n                break\n"))
S('m3-read-empty-dict', K, ("            result[dataset_key] = DatasetCache(cache_dict, metadata)\n", "            if cache_dict:\n                result[dataset_key] = DatasetCache(cache_dict, metadata)\n"))
S('m3-uncached-name', K, ("return self._replace(key=f'uncached_{self.key}', is_cached=False)", "return self._replace(is_cached=False)"))
S('m3-version-dropped', K, ("return _CACHE_VERSION + tf.compat.as_bytes(cache_key)", "return tf.compat.as_bytes(cache_key)"))
S('m3-validate-search', K, ("if not regex.match(dataset_key.key):", "if not regex.search(dataset_key.key) and dataset_key.is_cached:"))
S('m3-validate-regex', K, ("'^[a-zA-Z0-9\\\\.\\\\-_]+$'", "'^[a-zA-Z0-9\\\\.\\\\-_]+'"))
S('m3-subset-reversed', K, ("missing_keys = set(dataset_cache_dict.keys()).difference(set(sorted_dataset_keys_list))", "missing_keys = set(sorted_dataset_keys_list).difference(set(dataset_cache_dict.keys()))"))
# impls
S('m3-batch-size', I, ("min_batch_size=_PRESORT_BATCH_SIZE, max_batch_size=_PRESORT_BATCH_SIZE", "min_batch_size=1, max_batch_size=_PRESORT_BATCH_SIZE"))
S('m3-sort-nokwargs', I, ("sorted(b, **sort_kwargs)", "sorted(b)"))
S('m3-dummy-before-reserved', I, ("        counts = maybe_add_empty_vocabulary_dummy(counts, self._input_dtype)\n        self._vocab", "        self._vocab"))
S('m3-reserved-count', I, ("            counts[:0] = [(-1, t) for t in reserved_tokens]\n", "            counts.extend((-1, t) for t in reserved_tokens)\n"))
S('m3-reserved-set-raw', I, ("counts.extend(filter(lambda ct: ct[1] not in reserved_tokens_set, batch))", "counts.extend(filter(lambda ct: ct[0] not in reserved_tokens_set, batch))"))
S('m3-threshold-or', I, ("    if frequency_threshold > 0 or info_threshold > float('-inf'):", "    if frequency_threshold > 0 and info_threshold > float('-inf'):"))
S('m3-threshold-gt1', I, ("    if frequency_threshold > 0 or info_threshold > float('-inf'):", "    if frequency_threshold > 1 or info_threshold > float('-inf'):"))
S('m3-freq-strict', I, ("freq >= frequency_threshold", "freq > frequency_threshold"))
S('m3-metric-second', I, ("value = value[0] if isinstance(value, tuple) else value", "value = value[-1] if isinstance(value, tuple) else value"))
S('m3-topk-truthy', I, ("    if top_k is not None:\n        if key_fn", "    if top_k:\n        if key_fn"))
S('m3-topk-before-encode', I, ("    if input_dtype != tf.string.name:\n        counts |= 'EncodeNumericalTerms' >> beam.MapTuple(lambda k, v: (k, tf.compat.as_bytes(tf.compat.as_str_any(v))))\n", ""),
  ("'FlattenList' >> beam.FlatMap(lambda lst: lst)\n    return counts", "'FlattenList' >> beam.FlatMap(lambda lst: lst)\n    if input_dtype != tf.string.name:\n        counts |= 'EncodeNumericalTerms' >> beam.MapTuple(lambda k, v: (k, tf.compat.as_bytes(tf.compat.as_str_any(v))))\n    return counts"))
S('m3-coverage-threshold', I, ("_ApplyThresholdsAndTopK(self._coverage_frequency_threshold, self._coverage_top_k,", "_ApplyThresholdsAndTopK(self._frequency_threshold, self._coverage_top_k,"))
S('m3-coverage-from-result', I, ("coverage_counts = pcoll | 'ApplyCoverage", "coverage_counts = result | 'ApplyCoverage"))
S('m3-coverage-dups', I, ("'MergeStandardAndCoverageArms' >> beam.Flatten() | 'RemoveDuplicates' >> beam.Distinct()", "'MergeStandardAndCoverageArms' >> beam.Flatten()"))
S('m3-labels-alias', I, ("    total_weight, labeled_weights = (0.0, [])\n    for acc in accs:\n        total_weight = total_weight + acc[0]\n        accumulator_labeled_weights = acc[1]\n        if len(accumulator_labeled_weights) > len(labeled_weights):\n            labeled_weights.extend([0.0] * (len(accumulator_labeled_weights) - len(labeled_weights)))\n        for i in range(len(accumulator_labeled_weights)):\n            labeled_weights[i] = labeled_weights[i] + accumulator_labeled_weights[i]\n",
  "    total_weight, labeled_weights = (0.0, None)\n    for acc in accs:\n        total_weight = total_weight + acc[0]\n        if labeled_weights is None:\n            labeled_weights = acc[1]\n            continue\n        if len(acc[1]) > len(labeled_weights):\n            labeled_weights.extend([0.0] * (len(acc[1]) - len(labeled_weights)))\n        for i in range(len(acc[1])):\n            labeled_weights[i] = labeled_weights[i] + acc[1][i]\n    labeled_weights = labeled_weights or []\n"))
S('m3-labels-shorter', I, ("for i in range(len(accumulator_labeled_weights)):", "for i in range(min(len(labeled_weights) - 1, len(accumulator_labeled_weights))):"))
S('m3-merge-min-diff', I, ("        elif self._vocab_ordering_type == _VocabOrderingType.MUTUAL_INFORMATION:\n            combine_transform = _MutualInformationTransformMerge(self._use_adjusted_mutual_info, self._min_diff_from_avg, compute_weighted=False)", "        elif self._vocab_ordering_type == _VocabOrderingType.MUTUAL_INFORMATION:\n            combine_transform = _MutualInformationTransformMerge(self._use_adjusted_mutual_info, self._min_diff_from_avg, compute_weighted=True)"))
S('m3-weighted-count', I, ("            flatten_map_fn = _flatten_value_and_weights_to_list_of_tuples\n            combine_transform = beam.CombinePerKey(sum)", "            flatten_map_fn = _flatten_value_and_weights_to_list_of_tuples\n            combine_transform = beam.combiners.Count.PerKey()"))
S('m3-suffix-missing', I, ("            vocabulary_file = '{}.tfrecord.gz'.format(vocabulary_file)\n            write", "            write"))
S('m3-sorted-with-reserved', I, ("        if self._input_is_sorted and (not reserved_tokens):", "        if self._input_is_sorted:"))
S('m3-wait-formatted', I, ("y=beam.pvalue.AsIter(vocab_is_written)", "y=beam.pvalue.AsIter(formatted_vocabulary)"))
S('m3-fingerprint-count', I, ("return hashlib.sha1(kv[1]).digest()", "return hashlib.sha1(kv[1]).digest()[0]"))
S('m3-dedup-shards', I, ("beam.io.WriteToText(vocabulary_file, shard_name_template='')", "beam.io.WriteToText(vocabulary_file)"))
S('m3-packed-index', I, ("self._combiner_label_to_index = {op.keys[0]: index for index, op in enumerate(combiner_ops)}", "self._combiner_label_to_index = {op.keys[0]: index for index, op in enumerate(sorted(combiner_ops, key=lambda o: o.label))}"))
S('m3-packed-output-sorted', I, ("for combiner_label, output in zip(self._combiner_labels, outputs)}", "for combiner_label, output in zip(sorted(self._combiner_labels), outputs)}"))
S('m3-packed-set-keys', I, ("tuple((element[key] for key in keys)) for keys in self._combiner_keys]", "tuple((element[key] for key in sorted(set(keys)))) for keys in self._combiner_keys]"))
S('m3-split-shape', I, ("for instance_index, key in enumerate(keys):\n        instance_args", "for instance_index, key in enumerate(np.unique(keys)):\n        instance_args"))
S('m3-merge-unsorted-values', I, ("    sorted_keys_and_outputs = sorted(keys_and_outputs, key=lambda x: x[0])\n", "    sorted_keys_and_outputs = keys_and_outputs\n"))
S('m3-merge-keys-separately', I, ("        key.append(k)\n        outputs.append(o)\n    if not", "        key.append(k)\n    outputs = [o for _, o in keys_and_outputs]\n    if not"))
S('m3-boundary-shift', I, ("np.arange(scale.size, dtype=np.float32) - min_boundary * scale", "np.arange(scale.size, dtype=np.float32) - min_boundary"))
S('m3-boundary-first', I, ("    boundaries = np.insert(scaled_buckets.flatten(), 0, 0.0)", "    boundaries = scaled_buckets.flatten()"))
S('m3-epsilon-guard', I, ("    epsilon[epsilon <= 0] = 1e-06\n", ""))
S('m3-epsilon-strict', I, ("epsilon[epsilon <= 0] = 1e-06", "epsilon[epsilon < 0] = 1e-06"))
S('m3-tags-swapped', I, ("_OUTPUT_TAGS = ('boundaries', 'scale_factor_per_key', 'shift_per_key', 'num_buckets')", "_OUTPUT_TAGS = ('boundaries', 'shift_per_key', 'scale_factor_per_key', 'num_buckets')"))
S('m3-perkey-merge-raw', I, ("'MergeCombinePerKey' >> beam.CombinePerKey(_CombinerWrapper(self._combiner, is_combining_accumulators=True))", "'MergeCombinePerKey' >> beam.CombinePerKey(_CombinerWrapper(self._combiner, is_combining_accumulators=False))"))
S('m3-format-keys-dtypes', I, ("[info.dtype for info in self._combiner.output_tensor_infos()]).with_outputs", "[tf.float32 for info in self._combiner.output_tensor_infos()]).with_outputs"))
S('m3-decode-size', I, ("beam.Map(lambda m: m.dataset_size if m else 0)", "beam.Map(lambda m: 1 if m else 0)"))
S('m3-sum-max', I, ("'SumCachedInputBytes' >> beam.CombineGlobally(sum)", "'SumCachedInputBytes' >> beam.CombineGlobally(max)"))
S('m3-shared-temp', I, ("self._ptransform.base_temp_dir = common.get_unique_temp_path(extra_args.base_temp_dir)", "self._ptransform.base_temp_dir = extra_args.base_temp_dir"))
S('m3-reserved-create', I, ("beam.Create([[tokens]])", "beam.Create([tokens])"))
S('m3-extract-lenient', I, ("            if len(outputs) != num_outputs:\n                raise ValueError('Analyzer has {} outputs but its implementation produced {} values'.format(num_outputs, len(outputs)))\n            for i, output in enumerate(outputs):", "            for i, output in enumerate(outputs[:num_outputs]):"))
