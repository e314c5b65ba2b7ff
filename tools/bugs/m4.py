A = 'analyzers.py'
I = 'beam/analyzer_impls.py'
B = 'beam/impl.py'
M = 'mappers.py'
U = 'tf_utils.py'
S('m4-vocab-mi-threshold-kept', A, ("            frequency_threshold = 0.0\n            if coverage", "            if coverage"))
S('m4-vocab-ordering-swapped', A, ("""            if weights is not None:
                vocab_ordering_type = _VocabOrderingType.WEIGHTED_MUTUAL_INFORMATION
            else:""", """            if weights is None:
                vocab_ordering_type = _VocabOrderingType.WEIGHTED_MUTUAL_INFORMATION
            else:"""))
S('m4-vocab-key-is-filename', A, ("""        vocabulary_key = vocab_filename
        vocab_filename = _get_vocab_filename(vocab_filename, store_frequency)
        informativeness""", """        vocab_filename = _get_vocab_filename(vocab_filename, store_frequency)
        vocabulary_key = vocab_filename
        informativeness"""))
S('m4-vocab-coverage-threshold', A, ("coverage_informativeness_threshold = coverage_frequency_threshold\n", "coverage_informativeness_threshold = informativeness_threshold\n"))
S('m4-vocab-threshold-or-one', A, ("frequency_threshold=frequency_threshold or 0, informativeness", "frequency_threshold=frequency_threshold or 1, informativeness"))
S('m4-vocab-labels-dtype', A, ("if labels is not None and (not labels.dtype.is_integer):", "if labels is not None and weights is not None and (not labels.dtype.is_integer):"))
S('m4-vocab-dtype-name', A, ("input_dtype=x.dtype.name, vocab_ordering_type=vocab_ordering_type, vocab_filename", "input_dtype=tf.string.name, vocab_ordering_type=vocab_ordering_type, vocab_filename"))
S('m4-vocab-keyfn-check', A, ("    if key_fn and (not (coverage_top_k or coverage_frequency_threshold)):", "    if key_fn and (not (coverage_top_k and coverage_frequency_threshold)):"))
S('m4-apply-vocab-format-always', M, ("        if store_frequency and file_format == 'text':", "        if file_format == 'text':"))
S('m4-apply-vocab-topk', M, ("min_diff_from_avg=min_diff_from_avg, coverage_top_k=coverage_top_k", "min_diff_from_avg=min_diff_from_avg, coverage_top_k=top_k"))
S('m4-apply-vocab-reserved', M, ("file_format=file_format, reserved_tokens=reserved_tokens)", "file_format=file_format)"))
S('m4-mi-n-zero', I, ("""    if n == 0:
        return (feature_value, (float('NaN'), float('NaN'), 0))
""", ""))
S('m4-mi-count-no-weight', I, ("x_i = current_accumulator.count * current_accumulator.weight", "x_i = current_accumulator.count"))
S('m4-mi-xi-ge', I, ("if round(x_i) > round(n):", "if round(x_i) > n:"))
S('m4-mi-local-mean-stale', I, ("""        local_mean = 0
        if label_ix < len(""", """        if label_ix < len("""), ("    mutual_information = 0\n", "    mutual_information = 0\n    local_mean = 0\n"))
S('m4-mi-le', I, ("abs(diff_from_avg) < min_diff_from_avg", "diff_from_avg < min_diff_from_avg"))
S('m4-mi-skip-zero-mean', I, ("        if y_i == 0:\n            continue", "        if y_i == 0:\n            break"))
S('m4-mi-expected', I, ("return (feature_value, (mutual_information - expected_mutual_information, expected_mutual_information, x_i))", "return (feature_value, (mutual_information - expected_mutual_information, mutual_information, x_i))"))
S('m4-minmax-key-vocab', M, ("return _scale_by_min_max_internal(x, key=key, output_min=output_min, output_max=output_max, elementwise=elementwise, key_vocabulary_filename=key_vocabulary_filename)", "return _scale_by_min_max_internal(x, key=key, output_min=output_min, output_max=output_max, elementwise=elementwise, key_vocabulary_filename=None)"))
S('m4-minmax-per-key-default', A, ("""            combine_fn = np.max
            default_accumulator_value = -np.inf if x.dtype.is_floating else -output_dtype.max
        key_vocab,""", """            combine_fn = np.max
            default_accumulator_value = 0 if x.dtype.is_floating else -output_dtype.max
        key_vocab,"""))
S('m4-quantiles-shape', A, ("(feature_shape if feature_shape else [1]) + [num_buckets - 1]", "(feature_shape if feature_shape else [1]) + [num_buckets]"))
S('m4-quantiles-feature-shape', A, ("x.get_shape().as_list()[1:]\n        output_shape", "x.get_shape().as_list()\n        output_shape"))
S('m4-hist-boundaries', A, ("boundaries = tf.range(11, dtype=tf.float32) / 10.0", "boundaries = tf.range(10, dtype=tf.float32) / 10.0"))
S('m4-hist-size', A, ("tf.size(boundaries) - 1)\n        return (counts, boundaries)", "tf.size(boundaries))\n        return (counts, boundaries)"))
S('m4-hist-cast', A, ("tf.strings.to_number(elements, tf.int64)", "tf.strings.to_number(elements, tf.int32)"))
S('m4-hist-reduce', A, ("min_value, max_value = _min_and_max(x, True)", "max_value, min_value = _min_and_max(x, True)"))
S('m4-numeric-key-shape', A, ("[_get_elementwise_per_key_output_shape(x, key) for x in inputs]", "[_get_elementwise_per_key_output_shape(inputs[0], key) for x in inputs]"))
S('m4-numeric-dtype', A, ("[dtype.as_numpy_dtype for dtype in output_dtypes], output_shapes)", "[x.dtype.as_numpy_dtype for x in inputs], output_shapes)"))
S('m4-cooc-weights-unfiltered', U, ("    y = filter_fn(tf.reshape(y, [-1]))\n    weights = filter_fn(tf.reshape(weights, [-1]))\n    return (x, y, weights)", "    y = filter_fn(tf.reshape(y, [-1]))\n    weights = tf.reshape(weights, [-1])\n    return (x, y, weights)"))
S('m4-cooc-weights-ones-of-y', U, ("weights = tf.ones_like(x, dtype=tf.float32)", "weights = tf.ones_like(y, dtype=tf.float32)"))
S('m4-cooc-sparse-indices', U, ("batch_indices = x_input.indices[:, 0]", "batch_indices = x_input.indices[:, -1]"))
S('m4-pca-dim', A, ("shape = (input_dim, output_dim)", "shape = (output_dim, input_dim)"))
S('m4-track-anonymous', 'annotators.py', ("result = _get_object(name) if name is not None else None", "result = _get_object(name)"))
S('m4-track-scope', 'annotators.py', ("            track_object(result, name)", "            if name is not None:\n                track_object(result, name)"))
S('m4-passthrough-only-tfxio', B, ("""            if Context.get_passthrough_keys():
                raise ValueError('passthrough_keys is set to {} but it is not supportedwith""", """            if Context.get_passthrough_keys() and flattened_pcoll is not None:
                raise ValueError('passthrough_keys is set to {} but it is not supportedwith"""))
S('m4-clear-assets-first', B, ("""        asset_map = annotators.get_asset_annotations(graph)
        annotators.clear_asset_annotations(graph)
""", """        annotators.clear_asset_annotations(graph)
        asset_map = annotators.get_asset_annotations(graph)
"""))
S('m4-metadata-unsorted', B, ("f'AnalysisIndex{idx}'\n", "f'AnalysisIndex{0}'\n"))
S('m4-cache-instance-dicts', B, ("                if input_values_pcoll_dict[key] is not None:\n", "                if flattened_pcoll is None and input_values_pcoll_dict[key] is not None:\n"))
S('m4-build-no-cache', B, ("input_values_pcoll_dict.keys(), cache_dict=dataset_cache_dict)", "input_values_pcoll_dict.keys(), cache_dict=dataset_cache_dict or {})"))
S('m4-sideeffects-dropped', B, ("""        for node in detached_sideeffect_leafs:
            traverser.visit_value_node(node)
""", ""))
S('m4-fingerprint-v1', B, ("graph_tools.get_analyzers_fingerprint(graph, structured_inputs) if not self._use_tf_compat_v1", "graph_tools.get_analyzers_fingerprint(graph, structured_inputs) if self._use_tf_compat_v1"))
S('m4-barrier-wrong', B, ("        _clear_shared_state_after_barrier(pipeline, transform_fn_pcoll)\n", ""))
S('m4-transform-exclude-asset', B, ("BeamDatasetMetadata(new_metadata, new_deferred_metadata, output_metadata.asset_map)", "BeamDatasetMetadata(new_metadata, output_metadata.deferred_metadata, output_metadata.asset_map)"))
S('m4-transform-exclude-dofn', B, ("passthrough_keys=Context.get_passthrough_keys(), exclude_outputs=self._exclude_outputs)", "passthrough_keys=Context.get_passthrough_keys(), exclude_outputs=None)"))
S('m4-transform-validate', B, ("validate_varlen_sparse_values=not self._output_record_batches)", "validate_varlen_sparse_values=self._output_record_batches)"))
S('m4-transform-barrier', B, ("_clear_shared_state_after_barrier(self.pipeline, output_data)", "_clear_shared_state_after_barrier(self.pipeline, input_values)"))
S('m4-varkey-count-unfinite', U, ("        x_count = tf.cast(x_is_finite, x.dtype)\n        if x.get_shape().ndims != 1:\n            x_count = tf.reduce_sum(x_count, axis=1)\n        x_count = tf.math.unsorted_segment_sum(x_count, unique.idx, tf.size(unique.y))\n        sums", "        x_count = tf.ones_like(x)\n        if x.get_shape().ndims != 1:\n            x_count = tf.reduce_sum(x_count, axis=1)\n        x_count = tf.math.unsorted_segment_sum(x_count, unique.idx, tf.size(unique.y))\n        sums"))
S('m4-varkey-means', U, ("means = tf.math.divide_no_nan(tf.cast(sums, x.dtype), x_count)\n    sum_sqs", "means = tf.math.divide_no_nan(tf.cast(sums, x.dtype), tf.reduce_sum(x_count))\n    sum_sqs"))
S('m4-varkey-variance', U, ("variances = tf.math.divide_no_nan(sum_sqs, x_count) - tf.square(means)\n    return (unique.y, tf.cast", "variances = tf.math.divide_no_nan(sum_sqs, x_count - 1) - tf.square(means)\n    return (unique.y, tf.cast"))
S('m4-dense-key-noidentity', U, ("return (tf.identity(x.values), tf.identity(key.values))", "return (x.values, key.values)"))
S('m4-dense-key-rows', U, ("            return (x.values, tf.gather(key, x_row_indices))", "            return (x.values, tf.gather(key, x.indices[:, 1]))"))
S('m4-dense-key-ragged-check', U, ("""    elif isinstance(x, tf.RaggedTensor) and isinstance(key, tf.RaggedTensor):
        x.shape.assert_is_compatible_with(key.shape)
        assert_ops = [""", """    elif isinstance(x, tf.RaggedTensor) and isinstance(key, tf.RaggedTensor):
        assert_ops = ["""))
S('m4-dense-key-splits', U, ("for x_split, key_split in zip(x.nested_row_splits, key.nested_row_splits)]", "for x_split, key_split in zip(x.nested_row_splits[:1], key.nested_row_splits[:1])]"))
S('m4-feature-spec-struct-all', 'tf_metadata/schema_utils.py', ("if any((feature.type == schema_pb2.STRUCT for feature in schema_proto.feature)):\n        return _seq", "if all((feature.type == schema_pb2.STRUCT for feature in schema_proto.feature)):\n        return _seq"))
S('m4-feature-spec-domain-name', 'tf_metadata/schema_utils.py', ("            domains[name] = domain\n", "            domains[value_feature] = domain\n"))
S('m4-feature-spec-default', 'tf_metadata/schema_utils.py', ("        if isinstance(spec, tf.io.FixedLenFeature):\n            spec = _standardize", "        if isinstance(spec, tf.io.FixedLenFeature) and not spec.shape:\n            spec = _standardize"))
S('m4-seq-domain', 'tf_metadata/schema_utils.py', ("            domains[name] = domain_by_feature_name[source_feature_name]", "            domains[source_feature_name] = domain_by_feature_name[source_feature_name]"))
S('m4-seq-merge', 'tf_metadata/schema_utils.py', ("{**context_feature_spec, **sequence_feature_spec}", "{**sequence_feature_spec, **context_feature_spec}"))
C = 'coders/example_proto_coder.py'
S('m4-coder-uniform-reset', C, ("""                uniform_partition = False
                for partition""", """                for partition"""), ("        self._feature_handlers = []\n        for name, feature_spec in", "        self._feature_handlers = []\n        uniform_partition = False\n        for name, feature_spec in"))
S('m4-coder-index-once', C, ("""                for index_key in index_keys:
                    self._feature_handlers.append(_VarLenFeatureHandler(index_key, tf.int64))""", """                self._feature_handlers.append(_VarLenFeatureHandler(index_keys[0], tf.int64))"""))
S('m4-coder-index-dtype', C, ("_VarLenFeatureHandler(index_key, tf.int64)", "_VarLenFeatureHandler(index_key, feature_spec.dtype)"))
S('m4-coder-ragged-name', C, ("""                self._feature_handlers.append(_VarLenFeatureHandler(feature_spec.value_key, feature_spec.dtype))
            else:""", """                self._feature_handlers.append(_VarLenFeatureHandler(name, feature_spec.dtype))
            else:"""))
