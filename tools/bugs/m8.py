A = 'analyzers.py'
B = 'beam/analysis_graph_builder.py'
I = 'beam/impl.py'
H = 'impl_helper.py'
L = 'beam/analyzer_impls.py'
PM = 'pretrained_models.py'
CSV = 'coders/csv_coder.py'
# quantiles
S('m8-q-merge-empty', A, ("        result = next(accumulators)\n        for accumulator in accumulators:\n            result.Merge(accumulator)\n        return result", "        result = next(accumulators)\n        for accumulator in accumulators:\n            result.Merge(result)\n        return result"))
S('m8-q-compact-skip', A, ("        accumulator.Compact()\n        return accumulator", "        if self._has_weights:\n            accumulator.Compact()\n        return accumulator"))
S('m8-q-weights-swap', A, ("accumulator.AddValues(flat_values, flat_weights)", "accumulator.AddValues(flat_weights, flat_values)"))
S('m8-q-nofirst', A, ("            result = result[:, 1:-1]\n        return [np.reshape(result, self._output_shape)]", "            result = result[1:-1]\n        return [np.reshape(result, self._output_shape)]"))
S('m8-q-params', A, ("return (self._epsilon, self._num_features, self._has_weights)", "return (self._epsilon, self._num_features)"))
S('m8-q-numout', A, ("num_outputs = num_quantiles + 1 if include_max_and_min else num_quantiles - 1\n        if feature_shape is None:", "num_outputs = num_quantiles - 1\n        if feature_shape is None:"))
S('m8-q-acc-epsilon', A, ("sketches.QuantilesSketch(self._epsilon, self._max_num_values, self._num_features)", "sketches.QuantilesSketch(self._epsilon, self._num_quantiles, self._num_features)"))
# numpy combiner
S('m8-np-init-shared', A, ("            return np.full(shape, self._default_accumulator_value)\n", "            return np.broadcast_to(self._default_sub_accumulator, shape).astype(self._output_dtypes[0])\n") if 0 else ("            return np.full(shape, self._default_accumulator_value)\n", "            return np.full(shape, 0)\n"))
S('m8-np-any-default', A, ("return all(map(self._is_default_sub_accumulator, accumulator))", "return any(map(self._is_default_sub_accumulator, accumulator))"))
S('m8-np-merge-default', A, ("accumulator for accumulator in accumulators if not self._is_default_accumulator(accumulator)]\n        if", "accumulator for accumulator in accumulators if not self._is_default_sub_accumulator(accumulator[0])]\n        if"))
S('m8-np-batch-axis', A, ("self._fn((sub_accumulator, batch_value), axis=0) for", "self._fn((sub_accumulator, batch_value), axis=-1) for"))
# covariance
S('m8-cov-sum-dtype', A, ("batch_sum = np.array(np.sum(batch_value, axis=0), self._numpy_dtype)\n        batch_count = np.shape(batch_value)[0]\n        sum_product", "batch_sum = np.array(np.mean(batch_value, axis=0), self._numpy_dtype)\n        batch_count = np.shape(batch_value)[0]\n        sum_product"))
S('m8-cov-params', A, ("return (np.dtype(self._numpy_dtype).name,)", "return ()"))
# recommended min diff
S('m8-mindiff-clip', A, ("int(builtin_min(max_value, builtin_max(min_value, (dataset_size", "int(builtin_max(max_value, builtin_max(min_value, (dataset_size"))
# vocabulary nodes
S('m8-vn-unfiltered-from', A, ("nodes.apply_operation(analyzer_nodes.VocabularyCount, merge_output_value_node, label=f'VocabularyCountUnfiltered", "nodes.apply_operation(analyzer_nodes.VocabularyCount, filtered_value_node, label=f'VocabularyCountUnfiltered"))
S('m8-vn-sorted', A, ("input_is_sorted=top_k is not None and key_fn is None and (not fingerprint_shuffle))", "input_is_sorted=top_k is not None and (not fingerprint_shuffle))"))
S('m8-vn-reserved-filtered', A, ("    unfiltered_vocab_size += reserved_tokens_size\n    filtered_vocab_size += reserved_tokens_size", "    unfiltered_vocab_size += reserved_tokens_size"))
S('m8-vn-threshold', A, ("key_fn=key_fn, top_k=top_k, frequency_threshold=frequency_threshold, informativeness_threshold=informativeness_threshold, input_dtype=input_dtype)\n    reserved_tokens_size = 0", "key_fn=key_fn, top_k=top_k, frequency_threshold=coverage_frequency_threshold if coverage_top_k else frequency_threshold, informativeness_threshold=informativeness_threshold, input_dtype=input_dtype)\n    reserved_tokens_size = 0"))
S('m8-vn-label-scope', A, ("label=f'VocabularyCountUnfiltered[{scope}]'", "label='VocabularyCountUnfiltered'"))
S('m8-mv-elementwise-shape', A, ("            output_shape = _get_output_shape_from_input(tf.expand_dims(x_count, axis=0))\n        x_mean, x_var = _apply_cacheable_combiner(WeightedMeanAndVarCombiner(output_dtype.as_numpy_dtype, output_shape), *combine_inputs)\n    return (x_mean, x_var)", "            output_shape = _get_output_shape_from_input(x_count)\n        x_mean, x_var = _apply_cacheable_combiner(WeightedMeanAndVarCombiner(output_dtype.as_numpy_dtype, output_shape), *combine_inputs)\n    return (x_mean, x_var)"))
# analysis graph
S('m8-ag-misses-reset', B, ("self._dataset_has_cache_misses[dataset_key] |= False", "self._dataset_has_cache_misses[dataset_key] = False"))
S('m8-ag-detached-default', B, ("self._dataset_has_cache_misses.get(dataset_key, True)", "self._dataset_has_cache_misses[dataset_key]"))
S('m8-ag-hash-extract', B, ("            for key in operation_def.keys:\n                path = self._tensor_keys_to_paths[key]\n                paths_to_hash.append(path)", "            path = self._tensor_keys_to_paths[operation_def.keys[0]]\n            paths_to_hash.append(path)"))
S('m8-ag-hash-fields', B, ("for attr in sorted([x for x in dir(operation_def) if x not in operation_def._fields]):", "for attr in sorted(operation_def._fields):"))
S('m8-ag-hash-none', B, ("            if path is None:\n                return None\n            hash_container.update(path)", "            if path is None:\n                continue\n            hash_container.update(path)"))
S('m8-ag-prefer-and', B, ("prefer_fine_grained_view = any((v.prefer_fine_grained_view for v in upstream_views)) or (all_fine_grained_views_available and operation_def.cache_coder is not None)", "prefer_fine_grained_view = all((v.prefer_fine_grained_view for v in upstream_views)) or (all_fine_grained_views_available and operation_def.cache_coder is not None)"))
S('m8-ag-encode-uncached', B, ("if operation_def.cache_coder and dataset_key.is_cached:", "if operation_def.cache_coder:"))
S('m8-ag-cachekey-label', B, ("tf.compat.as_bytes(operation_def.label) + b'-' + next_hashed_path)", "next_hashed_path)"))
S('m8-ag-phases', B, ("if self._num_phases > 1:\n            return []", "if self._num_phases > 2:\n            return []"))
S('m8-ag-metadata', B, ("if dataset_cache_entries is not None and dataset_cache_entries.metadata:", "if dataset_cache_entries is not None:"))
S('m8-ag-savedmodel-path', B, ("hashed_path=b'APPLY_SAVEDMODEL'),)", "hashed_path=tf.compat.as_bytes(operation_def.label)),)"))
S('m8-ag-ready-any', B, ("is_ready = all(input_values)\n", "is_ready = any(input_values)\n"))
# beam impl
S('m8-im-passthrough-index', I, ("            if column_index >= 0:\n                passthrough_data_column", "            if column_index > 0:\n                passthrough_data_column"))
S('m8-im-passthrough-order', I, ("self._passthrough_column_indices = [arrow_schema.get_field_index(k) for k in self._passthrough_keys]", "self._passthrough_column_indices = sorted([arrow_schema.get_field_index(k) for k in self._passthrough_keys])"))
S('m8-im-v2-exclude', I, ("set(saved_model_loader.structured_outputs.keys()).difference(exclude_outputs)\n            saved_model_loader.finalize(input_tensor_names, outputs_tensor_keys)", "set(saved_model_loader.structured_outputs.keys())\n            saved_model_loader.finalize(input_tensor_names, outputs_tensor_keys.difference(exclude_outputs))"))
S('m8-im-v1-order', I, ("            outputs_tensor_keys = non_excluded_output_keys\n", "            outputs_tensor_keys = sorted(non_excluded_output_keys, reverse=True)\n") if 0 else ("                inputs_tensor_keys = sorted(tensor_inputs.keys())\n", "                inputs_tensor_keys = sorted(inputs.keys())\n"))
S('m8-im-state-always', I, ("            self._graph_state = self._shared_graph_state_handle.acquire(lambda: self._make_graph_state(saved_model_dir))\n        assert self._graph_state.saved_model_dir == saved_model_dir\n", "            self._graph_state = self._shared_graph_state_handle.acquire(lambda: self._make_graph_state(saved_model_dir))\n"))
S('m8-im-elem-none', I, ("data = pa.array([None if elem is None else [elem]], type=data.type)", "data = pa.array([[elem]], type=data.type)"))
S('m8-im-unary-first', I, ("        if len(data) == batch_size:\n            arrow_schema = arrow_schema.append(input_metadata.arrow_schema.field(key))\n            arrow_columns.append(data)\n        else:", "        if len(data) != 1:\n            arrow_schema = arrow_schema.append(input_metadata.arrow_schema.field(key))\n            arrow_columns.append(data)\n        else:"))
S('m8-im-copy-late', I, ("    if passthrough_keys:\n        batch_dict = copy.copy(batch_dict)\n", ""))
S('m8-im-cacheinput', I, ("                for cache_pcoll in cache_dict.values():\n                    pvalues.append(cache_pcoll)", "                pvalues.extend(list(cache_dict.values())[:1])"))
S('m8-im-mutated-dict', I, ("                    input_values_pcoll_dict[key] |= 'InstanceDictToRecordBatch[{}]'.format(key) >> to_tfxio_ptransform", "                    input_values_pcoll_dict[key] = flattened_pcoll"))
S('m8-im-trainable', I, ("if graph.get_collection(tf.compat.v1.GraphKeys.TRAINABLE_VARIABLES):", "if graph.get_collection(tf.compat.v1.GraphKeys.LOCAL_VARIABLES):"))
S('m8-im-barrier', I, ("    _clear_shared_state_after_barrier(self.pipeline, output_data)\n        return", "    _clear_shared_state_after_barrier(self.pipeline, input_values)\n        return"))
S('m8-im-tempdir', I, ("        base_temp_dir = Context.create_base_temp_dir()\n        graph, structured_inputs, structured_outputs = impl_helper.trace_preprocessing_function(self._preprocessing_fn, specs, self._use_tf_compat_v1, base_temp_dir)", "        base_temp_dir = Context.create_base_temp_dir()\n        graph, structured_inputs, structured_outputs = impl_helper.trace_preprocessing_function(self._preprocessing_fn, specs, self._use_tf_compat_v1, Context.create_base_temp_dir())"))
S('m8-im-validate-record', I, ("validate_varlen_sparse_values=not self._output_record_batches)", "validate_varlen_sparse_values=self._output_record_batches)"))
S('m8-im-deepcopy-meta', I, ("            dataset = (deep_copy.deep_copy(data), metadata)\n", "            deep_copy.deep_copy(data)\n"))
# impl_helper
S('m8-ih-varlen-boundary', H, ("indices[np.append(instance_boundaries + 1, 0), 1] != 0", "indices[instance_boundaries + 1, 1] != 0"))
S('m8-ih-varlen-first', H, ("np.logical_and(instance_index_diff == 0, value_index_diff != 1)", "np.logical_and(instance_index_diff == 0, value_index_diff < 1)"))
S('m8-ih-traced-copy', H, ("            transformed_features = preprocessing_fn(inputs_copy)\n        if output_keys", "            transformed_features = preprocessing_fn(inputs)\n        if output_keys"))
S('m8-ih-struct-nested', H, ("        if feature.type == schema_pb2.FeatureType.STRUCT:\n            for child_feature in feature.struct_domain.feature:\n                ragged", "        if feature.type == schema_pb2.FeatureType.STRUCT and feature.presence.min_fraction:\n            for child_feature in feature.struct_domain.feature:\n                ragged"))
S('m8-ih-inplace-tables', H, ("            sess.run(tf.compat.v1.tables_initializer())\n            saved_transform_io.write_saved_transform_from_session(sess, structured_inputs", "            saved_transform_io.write_saved_transform_from_session(sess, structured_inputs"))
S('m8-ih-inplace-schema', H, ("            transformed_metadata = dataset_metadata.DatasetMetadata(schema=schema_inference.infer_feature_schema(structured_outputs, graph, sess))", "            transformed_metadata = dataset_metadata.DatasetMetadata(schema=schema_inference.infer_feature_schema(structured_outputs, graph))"))
# weighted mean flattening
S('m8-wm-variance', L, ("compute_variance=False, compute_weighted=compute_weighted)", "compute_variance=False)"))
S('m8-wm-zip', L, ("return zip(batch_value, zip(weights, labeled_weights))", "return zip(batch_value, zip(labeled_weights, weights))"))
S('m8-wm-longest', L, ("itertools.zip_longest(positive_label_weights, total_weights, counts)", "zip(positive_label_weights, total_weights, counts)"))
# pretrained
S('m8-pm-initializers', PM, ("output_op_names + loaded_initializer_op_names)\n    sess.close()", "output_op_names)\n    sess.close()"))
S('m8-pm-exclude', PM, ("            vars_to_exclude |= set(_get_variables(scope))", "            vars_to_exclude = set(_get_variables(scope))"))
S('m8-pm-subset', PM, ("if not set(output_keys_in_signature) <= set(signature.outputs.keys()):", "if not set(output_keys_in_signature) & set(signature.outputs.keys()):"))
S('m8-pm-sorted', PM, ("output_tensor_names = [signature.outputs[key].name for key in output_keys_in_signature]", "output_tensor_names = [signature.outputs[key].name for key in sorted(output_keys_in_signature)]"))
# csv
S('m8-csv-index', CSV, ("            index = indices_by_name.get(name)\n            if index is None:", "            index = indices_by_name.get(name)\n            if not index:"))
S('m8-csv-sparse-secondary', CSV, ("_VarLenFeatureHandler(key, tf.int64, index(key), secondary_encoder_by_name.get(name))", "_VarLenFeatureHandler(key, tf.int64, index(key), secondary_encoder_by_name.get(key))"))
S('m8-csv-shared-row', CSV, ("        string_list = [None] * len(self._column_names)\n", "        string_list = [None] * len(self._feature_handlers)\n"))
