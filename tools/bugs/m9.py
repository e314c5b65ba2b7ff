A = 'analyzers.py'
U = 'tf_utils.py'
N = 'analyzer_nodes.py'
O = 'output_wrapper.py'
X = 'beam/context.py'
GT = 'graph_tools.py'
AI = 'beam/analyzer_impls.py'

S('m9-attr-sort-value', GT, ("sorted_attributes = sorted(op_attr.items(), key=lambda kv: kv[0])", "sorted_attributes = list(op_attr.items())"))
S('m9-attr-no-copy', GT, ("        attr_value = copy.deepcopy(attr_value)\n", ""))
S('m9-attr-f-scope', GT, ("    if 'f' in op_attr:\n        sorted_attributes = [kv for kv in sorted_attributes if kv[0] in ('Tin', 'Tout')]", "    sorted_attributes = [kv for kv in sorted_attributes if kv[0] not in ('f', 'func')]"))
S('m9-v1-restore-unpruned', 'saved/saved_transform_io_v2.py', ("    return (wrapped, signature.inputs, wrapped.structured_outputs)", "    return (wrapped, signature.inputs, restored_function.structured_outputs)"))
S('m9-v1-restore-inputs', 'saved/saved_transform_io_v2.py', ("    inputs = [t.name for t in restored_function.graph.inputs]", "    inputs = sorted((t.name for t in restored_function.graph.inputs))"))
S('m9-layer-not-kept', O, ("""        if self._transform_features_layer is None:
            self._transform_features_layer = TransformFeaturesLayer(self, exported_as_v1=self._exported_as_v1)
        return self._transform_features_layer""", """        if self._transform_features_layer is None or not self._transform_features_layer.built:
            self._transform_features_layer = TransformFeaturesLayer(self, exported_as_v1=self._exported_as_v1)
        return self._transform_features_layer"""))
S('m9-saved-model-original-init', 'beam/impl.py', ("                original_table_initializers = list(table_initializers_ref)\n                del table_initializers_ref[:]\n", "                original_table_initializers = table_initializers_ref\n                del table_initializers_ref[:]\n"))
S('m9-saved-model-init-order', 'beam/impl.py', ("""                session.run(tf.compat.v1.global_variables_initializer())
                saved_transform_io.write_saved_transform_from_session(session, self._input_signature, self._output_signature, unbound_saved_model_dir)
                del table_initializers_ref[:]
                table_initializers_ref.extend(original_table_initializers)
""", """                session.run(tf.compat.v1.global_variables_initializer())
                del table_initializers_ref[:]
                table_initializers_ref.extend(original_table_initializers)
                saved_transform_io.write_saved_transform_from_session(session, self._input_signature, self._output_signature, unbound_saved_model_dir)
"""))
S('m9-convert-drops', 'beam/impl.py', ("            return {k: np.asarray(v) if isinstance(v, tf.Tensor) else v for k, v in input_dict.items()}", "            return {k: np.asarray(v) for k, v in input_dict.items() if isinstance(v, tf.Tensor)}"))
S('m9-topk-zero', A, ("        top_k = int(top_k)\n        if top_k <= 0:\n            raise ValueError('top_k must be positive, but got: %r' % top_k)", "        top_k = int(top_k)\n        if top_k < 0:\n            raise ValueError('top_k must be positive, but got: %r' % top_k)\n        top_k = top_k or None"))
S('m9-freq-noop', A, ("            tf.compat.v1.logging.warn('frequency_threshold %d <= 1 is a no-op, use None instead.', frequency_threshold)", "            tf.compat.v1.logging.warn('frequency_threshold %d <= 1 is a no-op, use None instead.', frequency_threshold)\n            frequency_threshold = None"))
S('m9-pyfunc-token', 'py_func/pyfunc_helper.py', ("    token = first_result.op.node_def.attr['token'].s\n", "    token = first_result.op.node_def.name\n"))
S('m9-placeholder-varlen', 'impl_helper.py', ("        shape = [None] + feature_spec.size if isinstance(feature_spec.size, list) else [None, feature_spec.size]", "        shape = [None] + list(feature_spec.size[:1]) if isinstance(feature_spec.size, list) else [None, feature_spec.size]"))
S('m9-lmoments-unsorted', U, ("tf.scatter_nd([[current_index]], [tf.reduce_sum(tf.multiply(sorted_x, l2_factors), axis=0)], [dim_1])\n    new_l3_sum = l3_sum + tf.scatter_nd([[current_index]], [tf.reduce_sum(tf.multiply(sorted_x, l3_factors), axis=0)], [dim_1])\n    new_l4_sum = l4_sum + tf.scatter_nd([[current_index]], [tf.reduce_sum(tf.multiply(sorted_x, l4_factors), axis=0)], [dim_1])\n    return (tf.add(current_index, 1), new_l1_sum, new_l2_sum, new_l3_sum, new_l4_sum, l1_factors", "tf.scatter_nd([[current_index]], [tf.reduce_sum(tf.multiply(current_x, l2_factors), axis=0)], [dim_1])\n    new_l3_sum = l3_sum + tf.scatter_nd([[current_index]], [tf.reduce_sum(tf.multiply(sorted_x, l3_factors), axis=0)], [dim_1])\n    new_l4_sum = l4_sum + tf.scatter_nd([[current_index]], [tf.reduce_sum(tf.multiply(sorted_x, l4_factors), axis=0)], [dim_1])\n    return (tf.add(current_index, 1), new_l1_sum, new_l2_sum, new_l3_sum, new_l4_sum, l1_factors"))
S('m9-tempdir-shared', 'graph_context.py', ("        if not current_state.temp_dir:\n            raise ValueError", "        if current_state.temp_dir == '':\n            return cls._TEMP_SUBDIR\n        if not current_state.temp_dir:\n            raise ValueError"))
S('m9-csv-size-dims', 'coders/csv_coder.py', ("        self._size = 1\n        for dim in feature_spec.shape:\n            self._size *= dim\n", "        self._size = feature_spec.shape[0] if feature_spec.shape else 1\n"))
S('m9-pack-keys', 'beam/combiner_packing_util.py', ("self.packable_combine_extract_outputs[operation_def.label] = _CombinerOpWrapper(combiner=parent.operation_def.combiner, keys=(parent.operation_def.label,)", "self.packable_combine_extract_outputs[operation_def.label] = _CombinerOpWrapper(combiner=parent.operation_def.combiner, keys=(operation_def.label,)"))
S('m9-pack-parents', 'beam/combiner_packing_util.py', ("        assert len(parent.inputs) == 1\n        grand_parent = parent.inputs[0].parent_operation\n        if isinstance(grand_parent.operation_def, _COMBINE_PARENT_NODE_TYPES):\n            self.packable_combine_extract_outputs", "        assert len(parent.inputs) == 1\n        grand_parent = parent.inputs[0].parent_operation\n        if grand_parent.operation_def is not None:\n            self.packable_combine_extract_outputs"))
S('m9-decode-string', N, ("        if self._input_dtype is not tf.string:\n            token = json.loads(tf.compat.as_text(token))\n", "        token = json.loads(tf.compat.as_text(token))\n"))
S('m9-decode-order', N, ("            count, mean, variance, weight = value\n", "            count, mean, weight, variance = value\n"))
S('m9-encode-variance', N, ("(value.count, value.mean, value.variance, value.weight)]", "(value.count, value.mean, value.weight, value.variance)]"))
S('m9-regex-keeps', U, ("        filter_mask = tf.logical_not(tf.strings.regex_full_match(x, filter_regex))", "        filter_mask = tf.strings.regex_full_match(x, filter_regex)"))
S('m9-stats-swap', O, ("        return os.path.join(self._transform_output_dir, self.PRE_TRANSFORM_FEATURE_STATS_PATH)", "        return os.path.join(self._transform_output_dir, self.POST_TRANSFORM_FEATURE_STATS_PATH)"))
S('m9-manifest-append', 'beam/analyzer_cache.py', ("        try:\n            self._delete()\n        except tf.errors.NotFoundError:\n            pass\n        self._open()\n", "        self._open()\n"))
S('m9-get-values-ragged', U, ("    elif isinstance(x, tf.RaggedTensor):\n        return x.flat_values\n    else:\n        return x\n", "    elif isinstance(x, tf.RaggedTensor):\n        return x.values\n    else:\n        return x\n"))
S('m9-reserved-last', U, ("    tensor = tokens_collection[name_collection.index(name)]", "    tensor = dict(zip(reversed(name_collection), tokens_collection))[name]"))
S('m9-override-first-row', 'schema_inference.py', ("    tensor = _get_tensor_values(tensor)\n    overrides = _get_tensor_ranges(tensor.graph)\n    min_max", "    overrides = _get_tensor_ranges(tensor.graph)\n    min_max"))
S('m9-trace-v1-uncopied', 'impl_helper.py', ("        structured_outputs = preprocessing_fn(copied_inputs)\n    return (graph, structured_inputs, structured_outputs)", "        structured_outputs = preprocessing_fn(structured_inputs)\n    return (graph, structured_inputs, structured_outputs)"))
S('m9-example-missing', 'impl_helper.py', ("        result[name] = None if kind is None else np.array(getattr(feature, kind).value, dtype=_FEATURE_VALUE_KIND_TO_NP_DTYPE[kind])", "        if kind is not None:\n            result[name] = np.array(getattr(feature, kind).value, dtype=_FEATURE_VALUE_KIND_TO_NP_DTYPE[kind])"))
S('m9-proto-size', 'coders/example_proto_coder.py', ("        self._size = 1\n        for dim in feature_spec.shape:\n            self._size *= dim\n", "        self._size = sum(feature_spec.shape) or 1\n"))
S('m9-infer-v1-tables', 'beam/impl.py', ("            session.run(tf.compat.v1.global_variables_initializer())\n            session.run(tf.compat.v1.tables_initializer())\n            return dataset_metadata", "            session.run(tf.compat.v1.global_variables_initializer())\n            return dataset_metadata"))
S('m9-pvalues-elif', 'beam/impl.py', ("            pvalues.append(input_metadata.deferred_metadata)\n        if isinstance(output_metadata, beam_metadata_io.BeamDatasetMetadata):", "            pvalues.append(input_metadata.deferred_metadata)\n        elif isinstance(output_metadata, beam_metadata_io.BeamDatasetMetadata):"))
S('m9-save-options-truth', X, ("        if state.desired_batch_size is not None:", "        if state.desired_batch_size and state.desired_batch_size > 1:"))
S('m9-nan-copy', A, ("        if compute_variance:\n            variances = np.nan_to_num(variances, copy=True)\n        if compute_weighted:\n            weights = np.nan_to_num(weights, copy=True)\n        return cls(np.array(counts), np.nan_to_num(means, copy=True), variances, weights)", "        if compute_variance:\n            variances = np.nan_to_num(variances, copy=False)\n        if compute_weighted:\n            weights = np.nan_to_num(weights, copy=False)\n        return cls(np.array(counts), np.nan_to_num(means, copy=False), variances, weights)"))
S('m9-large-unsorted', A, ("keys_and_values_node, vocab_filename=key_vocabulary_filename, store_frequency=True, fingerprint_shuffle=True, file_format='text')", "keys_and_values_node, vocab_filename=key_vocabulary_filename, store_frequency=True, fingerprint_shuffle=False, file_format='text')"))
S('m9-vocab-range-clip', U, ("values=tf.math.mod(x.values, vocab_size), dense_shape", "values=tf.math.minimum(x.values, tf.cast(vocab_size, x.values.dtype) - 1), dense_shape"))
S('m9-barrier-none', 'beam/impl.py', ("""beam.Map(lambda x, empty_side_input: shared.Shared().acquire(lambda: None), beam.pvalue.AsIter(empty_pcoll))""", """beam.Map(lambda x: shared.Shared().acquire(lambda: None))"""))
S('m9-materialization-any', 'beam/deep_copy.py', ("        if pcollection in current.parent.outputs.values():\n            current = current.parent\n        else:\n            break\n", "        current = current.parent\n"))
S('m9-opt-none-cache', 'beam/analysis_graph_builder.py', ("    if cache_dict is None:\n        assert not cache_output_nodes\n        cache_output_nodes = None\n", "    if not cache_dict:\n        cache_output_nodes = None\n"))
S('m9-opt-leafs-early', 'beam/analysis_graph_builder.py', ("    optimize_traverser = nodes.Traverser(optimize_visitor)\n    optimized", "    optimize_traverser = nodes.Traverser(optimize_visitor)\n    leafs = optimize_visitor.get_detached_sideeffect_leafs()\n    optimized"), ("    return (optimized, cache_output_nodes, optimize_visitor.get_detached_sideeffect_leafs())", "    return (optimized, cache_output_nodes, leafs)"))
S('m9-translate-signature', 'beam/analysis_graph_builder.py', ("            for tensor in tensors:\n                self.intermediate_output_signature[_tensor_name(tensor)] = tensor\n            keys", "            for tensor in tensors:\n                self.intermediate_output_signature.setdefault(label, tensor)\n            keys"))
S('m9-asset-tfrecord-text', N, ("        result = os.path.join(temp_dir, '{}.tfrecord.gz'.format(base_filename))\n", "        result = os.path.join(temp_dir, base_filename)\n"))
S('m9-fixed-item', 'coders/example_proto_coder.py', ("            flattened_values = values if self._rank == 1 else np.asarray(values, dtype=self._np_dtype).reshape(-1)", "            flattened_values = values if self._rank == 1 else np.asarray(values, dtype=self._np_dtype).ravel(order='F')"))
S('m9-varlen-clear', 'coders/example_proto_coder.py', ("            self._feature.Clear()\n            self._value = self._value_fn(self._feature)\n        else:\n            del self._value[:]\n", "            self._feature.Clear()\n        else:\n            del self._value[:]\n"))
S('m9-composite-shape', 'mappers.py', ("        return lambda values: tf.SparseTensor(x.indices, values, x.dense_shape)\n    elif", "        return lambda values: tf.SparseTensor(x.indices, values, tf.reduce_max(x.indices, axis=0) + 1)\n    elif"))
S('m9-metadata-legacy-first', 'tf_metadata/metadata_io.py', ("""    if file_io.file_exists(schema_file):
        text_proto = file_io.FileIO(schema_file, 'r').read()
        schema_proto = text_format.Parse(text_proto, schema_pb2.Schema(), allow_unknown_extension=True)
    elif file_io.file_exists(legacy_schema_file):
        schema_json = file_io.FileIO(legacy_schema_file, 'r').read()
        schema_proto = _parse_schema_json(schema_json)
    else:""", """    if file_io.file_exists(legacy_schema_file):
        schema_json = file_io.FileIO(legacy_schema_file, 'r').read()
        schema_proto = _parse_schema_json(schema_json)
    elif file_io.file_exists(schema_file):
        text_proto = file_io.FileIO(schema_file, 'r').read()
        schema_proto = text_format.Parse(text_proto, schema_pb2.Schema(), allow_unknown_extension=True)
    else:"""))
S('m9-metadata-not-atomic', 'tf_metadata/metadata_io.py', ("    file_io.atomic_write_string_to_file(schema_file, ascii_proto, overwrite=True)", "    file_io.write_string_to_file(schema_file, ascii_proto)"))
S('m9-copy-tree-skip', 'beam/tft_beam_io/transform_fn_io.py', ("        if source_dir_name == impl_helper.METADATA_DIR_NAME:\n            return\n        tf.io.gfile.makedirs(destination)\n", "        if impl_helper.METADATA_DIR_NAME in source_dir_name:\n            return\n        tf.io.gfile.makedirs(destination)\n"))
S('m9-slice-drop', 'beam/impl.py', ("        yield from _maybe_slice_large_record_batch(record_batch.slice(offset=mid_point))", "        yield from _maybe_slice_large_record_batch(record_batch.slice(offset=mid_point, length=mid_point))"))
S('m9-source-keys-all', GT, ("        if any([s in components for s in hashable_sources]):", "        if all([c in hashable_sources for c in components]):"))
S('m9-func-graph-outer', GT, ("            with outer_graph.as_default():\n                func_graph", "            with graph.as_default():\n                func_graph"))
S('m9-register-vocab-key', A, ("    annotators.annotate_asset(vocabulary_key, filename)\n    if vocabulary_size is not None:\n        annotators.annotate_vocab_size(vocabulary_key, vocabulary_size)", "    annotators.annotate_asset(vocabulary_key, filename)\n    if vocabulary_size is not None:\n        annotators.annotate_vocab_size(sanitized_filename, vocabulary_size)"))
S('m9-vocab-size-zero', O, ("            if message.file_name == vocab_filename and message.filtered_vocabulary_size != 0:\n                return message.filtered_vocabulary_size\n        return None", "            if message.file_name == vocab_filename:\n                return message.filtered_vocabulary_size\n        return None"))
S('m9-exported-v1-raise', 'saved/saved_transform_io.py', ("    meta_graph_def = saved_model_loader.choose_meta_graph_def(saved_model)\n    return meta_graph_def is not None", "    return bool(saved_model.meta_graphs)"))
S('m9-sparse-var-all', U, ("    x_minus_mean_sparse = tf.SparseTensor(x.indices, tf.gather_nd(x_minus_mean, x.indices), x.dense_shape)\n    sum_of_squares = tf.math.reduce_sum(tf.square(tf.sparse.to_dense(x_minus_mean_sparse)), axis=0)", "    sum_of_squares = tf.math.reduce_sum(tf.square(x_minus_mean), axis=0)"))
S('m9-ragged-var-pad', U, ("    x_minus_mean = tf.RaggedTensor.from_tensor(x_minus_mean, lengths=x.nested_row_lengths())\n    sum_of_squares", "    sum_of_squares"), ("    x_variance = tf.math.divide_no_nan(sum_of_squares, x_count)\n    return (dense_x_count, x_mean, x_variance.to_tensor())", "    x_variance = tf.math.divide_no_nan(sum_of_squares, dense_x_count)\n    return (dense_x_count, x_mean, x_variance)"))
S('m9-approx-pylist', 'experimental/analyzers.py', ("        if not result.size:\n            result = np.array([[analyzers.get_empy_vocabulary_dummy_value(self._input_dtype)]], dtype=object)\n        if self._output_pylist:\n            return result.tolist()\n        return result", "        if self._output_pylist:\n            return result.tolist()\n        if not result.size:\n            result = np.array([[analyzers.get_empy_vocabulary_dummy_value(self._input_dtype)]], dtype=object)\n        return result"))
S('m9-mi-auto-zero', AI, ("    if min_diff_from_avg is None:\n        min_diff_from_avg = global_accumulator", "    if not min_diff_from_avg:\n        min_diff_from_avg = global_accumulator"))
S('m9-mi-weight-total', AI, ("        mean = np.array(sum_positive) / weights_sum_total\n        weight = weights_sum_total / count", "        mean = np.array(sum_positive) / count\n        weight = weights_sum_total / count"))
S('m9-fingerprint-all', 'impl_helper.py', ("        if baseline_analyzers_fingerprint[analyzer].source_keys != analyzers_fingerprint[analyzer].source_keys:", "        if not analyzers_fingerprint[analyzer].source_keys.issubset(baseline_analyzers_fingerprint[analyzer].source_keys):"))
S('m9-trackable-replaced', 'annotators.py', ("            if hasattr(module, name):\n                raise ValueError(", "            if getattr(module, name, None) is trackable_object:\n                raise ValueError("))
S('m9-clear-one', 'annotators.py', ("    graph.clear_collection(_ASSET_KEY_COLLECTION)\n    graph.clear_collection(_ASSET_FILENAME_COLLECTION)", "    graph.clear_collection(_ASSET_FILENAME_COLLECTION)"))
S('m9-docs-values', 'mappers.py', ("values=tf.ones_like(term_frequency.values), dense_shape=term_frequency.dense_shape)\n    return tf.sparse.reduce_sum(count_of_doc_inter", "values=tf.sign(term_frequency.values - 1), dense_shape=term_frequency.dense_shape)\n    return tf.sparse.reduce_sum(count_of_doc_inter"))
