A = 'analyzers.py'
M = 'mappers.py'
U = 'tf_utils.py'
AI = 'beam/analyzer_impls.py'
BI = 'beam/impl.py'
GT = 'graph_tools.py'
IH = 'impl_helper.py'
AC = 'beam/analyzer_cache.py'
V2 = 'saved/saved_transform_io_v2.py'
N = 'nodes.py'
CP = 'beam/combiner_packing_util.py'

# memoisation, sharing, state that outlives what it belongs to
S('m11-temp-path-cached', 'beam/common.py', ("def get_unique_temp_path(base_temp_dir):\n", "_TEMP_PATHS = {}\n\ndef get_unique_temp_path(base_temp_dir):\n"), ("    return os.path.join(base_temp_dir, uuid.uuid4().hex)\n", "    if base_temp_dir not in _TEMP_PATHS:\n        _TEMP_PATHS[base_temp_dir] = os.path.join(base_temp_dir, uuid.uuid4().hex)\n    return _TEMP_PATHS[base_temp_dir]\n"))
S('m11-temp-path-pid', 'beam/common.py', ("    return os.path.join(base_temp_dir, uuid.uuid4().hex)\n", "    return os.path.join(base_temp_dir, uuid.uuid4().hex[:2])\n"))
S('m11-graph-memo-default', GT, ("    def __init__(self, source_info_dict, translate_path_fn, graph):\n        self._memoized_analyze_tensor_result = {}\n", "    def __init__(self, source_info_dict, translate_path_fn, graph, memo={}):\n        self._memoized_analyze_tensor_result = memo\n"))
S('m11-raw-metadata-first', 'output_wrapper.py', ("        if self._raw_metadata is None:\n            self._raw_metadata = metadata_io.read_metadata(os.path.join(self._transform_output_dir, self.RAW_METADATA_DIR))\n        return self._raw_metadata\n", "        if TFTransformOutput._shared_raw_metadata is None:\n            TFTransformOutput._shared_raw_metadata = metadata_io.read_metadata(os.path.join(self._transform_output_dir, self.RAW_METADATA_DIR))\n        return TFTransformOutput._shared_raw_metadata\n"), ("    TRANSFORMED_METADATA_DIR = ", "    _shared_raw_metadata = None\n    TRANSFORMED_METADATA_DIR = "))
S('m11-loader-graph-unset', 'output_wrapper.py', ("                self._saved_model_loader_value = saved_transform_io_v2.SavedModelLoader(self._tft_output.transform_savedmodel_dir)\n                self._loaded_saved_model_graph = default_graph\n", "                self._saved_model_loader_value = saved_transform_io_v2.SavedModelLoader(self._tft_output.transform_savedmodel_dir)\n"))
S('m11-packed-cache-only-last', CP, ("        self._packed_post_processing_nodes_cache.update({node: result for node in input_nodes})\n", "        self._packed_post_processing_nodes_cache.update({node: True for node in input_nodes})\n"))
S('m11-packed-cache-key', CP, ("            input_nodes.add(value_node)\n            value_node = value_node.parent_operation.inputs[0]\n", "            value_node = value_node.parent_operation.inputs[0]\n            input_nodes.add(value_node)\n"))

# a default in place of a test
S('m11-ragged-value-key', 'tf_metadata/schema_utils.py', ("feature_path=path_pb2.Path(step=[spec.value_key or name])", "feature_path=path_pb2.Path(step=[name])"))
S('m11-ragged-row-length-type', 'tf_metadata/schema_utils.py', ("partitions_features.append(schema_pb2.Feature(name=partition.key, type=schema_pb2.INT))", "partitions_features.append(schema_pb2.Feature(name=partition.key, type=value_feature.type))"))
S('m11-ragged-domain-key', 'tf_metadata/schema_utils.py', ("    _set_domain(name, value_feature, domains.get(name))\n    ragged_tensor =", "    _set_domain(name, value_feature, domains.get(spec.value_key))\n    ragged_tensor ="))
S('m11-approx-default-or', 'experimental/mappers.py', ("mappers._apply_vocabulary_internal(x, deferred_vocab_and_filename, default_value, num_oov_buckets,", "mappers._apply_vocabulary_internal(x, deferred_vocab_and_filename, default_value or -1, num_oov_buckets,"))
S('m11-approx-reserved-lost', 'experimental/mappers.py', ("store_frequency=store_frequency, reserved_tokens=reserved_tokens, name=name)\n        return", "store_frequency=store_frequency, reserved_tokens=reserved_tokens if num_oov_buckets else None, name=name)\n        return"))
S('m11-approx-weights-counts', 'experimental/analyzers.py', ("        return (reduced_batch.unique_x, reduced_batch.summed_weights_per_x)\n", "        return (reduced_batch.unique_x, tf.cast(reduced_batch.summed_weights_per_x, tf.int64))\n"))
S('m11-approx-format-tfrecord', 'experimental/mappers.py', ("        if store_frequency and file_format == 'text':\n            x =", "        if store_frequency:\n            x ="))
S('m11-csv-zero-size', 'coders/csv_coder.py', ("        if len(flattened_values) != self._size:\n            raise ValueError('FixedLenFeature", "        if self._size and len(flattened_values) != self._size:\n            raise ValueError('FixedLenFeature"))
S('m11-csv-reshape-order', 'coders/csv_coder.py', ("flattened_values = np.asarray(values, dtype=self._np_dtype).reshape(-1)", "flattened_values = np.asarray(values, dtype=self._np_dtype).ravel(order='K')"))
S('m11-csv-rank1-array', 'coders/csv_coder.py', ("        elif self._rank == 1:\n            flattened_values = values\n", "        elif self._rank == 1:\n            flattened_values = sorted(values)\n"))
S('m11-mean-var-none-shape', A, ("            return _WeightedMeanAndVarAccumulator(np.int64(accumulator.count), self._output_numpy_dtype(accumulator.mean), self._output_numpy_dtype(accumulator.variance), self._output_numpy_dtype(accumulator.weight))\n", "            return _WeightedMeanAndVarAccumulator(self._output_numpy_dtype(accumulator.count), self._output_numpy_dtype(accumulator.mean), self._output_numpy_dtype(accumulator.variance), self._output_numpy_dtype(accumulator.weight))\n"))
S('m11-lmoments-sort', U, ("    sorted_x = tf.sort(current_x, axis=0)\n    num_samples", "    sorted_x = tf.sort(current_x, axis=0, direction='DESCENDING')\n    num_samples"))
S('m11-lmoments-distinct', U, ("    num_samples = tf.shape(current_x)[0]\n", "    num_samples = tf.size(tf.unique(current_x).y)\n"))
S('m11-lmoments-l3-quad', U, ("new_count_triplets = count_triplets + tf.scatter_nd([[current_index]], [current_triplets], [dim_1])", "new_count_triplets = count_triplets + tf.scatter_nd([[current_index]], [current_quadruplets], [dim_1])"))
S('m11-vocab-values-int32', U, ("    max_x_idx = tf.size(unique_x_values, out_type=tf.int64)\n", "    max_x_idx = tf.reduce_max(unique_idx)\n"))
S('m11-annotation-basename', 'annotators.py', ("    annotations = {os.path.basename(key): os.path.basename(filename) for", "    annotations = {os.path.basename(key): filename for"))
S('m11-annotation-setdefault', 'annotators.py', ("    annotations = {os.path.basename(key): os.path.basename(filename) for key, filename in zip(asset_key_collection, asset_filename_collection)}\n", "    annotations = {}\n    for key, filename in zip(asset_key_collection, asset_filename_collection):\n        if os.path.basename(filename) not in annotations.values():\n            annotations[os.path.basename(key)] = os.path.basename(filename)\n"))
S('m11-asset-eager-empty', U, ("    if eager_asset_filepath:\n        control_dependency = asset_filepath\n", "    if eager_asset_filepath:\n        control_dependency = eager_asset_filepath\n"))
S('m11-env-tag-fallback', 'beam/common.py', ("            environment_tag = EnvironmentTags.TF_COMPAT_V1 if self._extra_args.use_tf_compat_v1 else EnvironmentTags.TF_V2_ONLY\n", "            environment_tag = EnvironmentTags.TF_COMPAT_V1 if self._extra_args.use_tf_compat_v1 and not inputs else EnvironmentTags.TF_V2_ONLY\n"))
S('m11-empty-inputs-begin', 'beam/common.py', ("outputs = (inputs or beam.pvalue.PBegin(self._extra_args.pipeline)) | tagged_label", "outputs = (inputs if inputs is not None else beam.pvalue.PBegin(self._extra_args.pipeline)) | tagged_label"))
S('m11-vocab-filename-join', 'experimental/analyzers.py', ("    if vocab_filename is not None:\n        prefix = None\n    elif store_frequency:\n        prefix = _APPROXIMATE_VOCAB_FILENAME_PREFIX\n", "    if vocab_filename:\n        prefix = None\n    elif store_frequency:\n        prefix = _APPROXIMATE_VOCAB_FILENAME_PREFIX\n"))

# the error that is swallowed, the cleanup that is skipped
S('m11-feed-default', BI, ("                feed_list = [feed_dict[name] for name in self._graph_state.inputs_tensor_keys]\n", "                feed_list = [feed_dict.get(name) for name in self._graph_state.inputs_tensor_keys]\n"))
S('m11-handle-batch-partial', BI, ("                result = {key: value for key, value in zip(self._graph_state.outputs_tensor_keys, outputs_list)}\n", "                result = {key: value for key, value in zip(self._graph_state.outputs_tensor_keys, outputs_list) if value is not None and np.size(value)}\n"))
S('m11-process-catch', BI, ("        assert self._graph_state.saved_model_dir == saved_model_dir\n        yield self._handle_batch(batch)\n", "        if self._graph_state.saved_model_dir != saved_model_dir:\n            logging.warning('Graph state was loaded from %s.', self._graph_state.saved_model_dir)\n        yield self._handle_batch(batch)\n"))
S('m11-convert-copy-always', BI, ("    if passthrough_keys:\n        batch_dict = copy.copy(batch_dict)\n    passthrough_data = {key: batch_dict.pop(key)", "    passthrough_data = {key: batch_dict.pop(key)"))
S('m11-convert-null-set', BI, ("data_set = set((None if elem is None else elem[0] for elem in data.to_pylist()))", "data_set = set((elem[0] for elem in data.to_pylist() if elem is not None))"))
S('m11-convert-one', BI, ("        if len(data) == batch_size:\n            arrow_schema", "        if len(data) == batch_size and batch_size > 1:\n            arrow_schema"))
S('m11-convert-pop-elem', BI, ("                elem = data_set.pop()\n                data = pa.array([None if elem is None else [elem]], type=data.type)\n", "                elem = data_set.pop()\n                data = pa.array([None if not elem else [elem]], type=data.type)\n"))
S('m11-read-cache-idx', AC, ("            if not manifest:\n                continue\n            dataset_id", "            if not manifest:\n                break\n            dataset_id"))
S('m11-read-cache-glob', AC, ("self._source(f'{os.path.join(dataset_cache_path, str(cache_key_idx))}-*-of-*')", "self._source(f'{os.path.join(dataset_cache_path, str(cache_key_idx))}*')"))
S('m11-read-empty-dataset', AC, ("            result[dataset_key] = DatasetCache(cache_dict, metadata)\n        return result\n", "            if cache_dict:\n                result[dataset_key] = DatasetCache(cache_dict, metadata)\n        return result\n"))
S('m11-manifest-read-seek', AC, ("        if not tf.io.gfile.exists(self._manifest_path):\n            return {}\n        if self._file is not None:\n            return self._get_manifest_contents(self._file)\n", "        if self._file is not None:\n            return self._get_manifest_contents(self._file)\n        if not tf.io.gfile.exists(os.path.dirname(self._manifest_path)):\n            return {}\n"))
S('m11-validate-regex', AC, ("        if not regex.match(dataset_key.key):\n", "        if not regex.match(dataset_key.key.strip()):\n"))
S('m11-cache-path-lower', AC, ("    return os.path.join(base_dir, dataset_key.key)\n", "    return os.path.join(base_dir, dataset_key.key.lower())\n"))
S('m11-graph-state-common', BI, ("            result = self._GraphStateV2(saved_model_dir, self._get_input_tensor_names(), self._exclude_outputs)\n", "            result = self._GraphStateV2(saved_model_dir, self._get_input_tensor_names(), None)\n"))
S('m11-replace-session-order', BI, ("            session.run(tf.compat.v1.global_variables_initializer())\n            saved_transform_io.write_saved_transform_from_session(session, input_tensors, output_tensors, temp_dir)\n        return temp_dir\n", "            saved_transform_io.write_saved_transform_from_session(session, input_tensors, output_tensors, temp_dir)\n            session.run(tf.compat.v1.global_variables_initializer())\n        return temp_dir\n"))
S('m11-v2-model-fingerprint', BI, ("impl_helper.trace_and_write_v2_saved_model(saved_model_dir, preprocessing_fn, input_signature, base_temp_dir, baseline_analyzers_fingerprint, tensor_replacement_map,", "impl_helper.trace_and_write_v2_saved_model(saved_model_dir, preprocessing_fn, input_signature, base_temp_dir, baseline_analyzers_fingerprint if tensor_replacement_map is None else None, tensor_replacement_map,"))
S('m11-min-cast', A, ("        return _min_and_max(x, reduce_instance_dims, name)[0]\n", "        return _min_and_max(x, True, name)[0]\n"))
S('m11-var-sqrt', A, ("        return _mean_and_var(x, reduce_instance_dims, output_dtype)[1]\n", "        return tf.maximum(_mean_and_var(x, reduce_instance_dims, output_dtype)[1], 1e-12)\n"))
S('m11-size-sparse-values', A, ("values=tf.ones_like(x.values, tf.int64), dense_shape=x.dense_shape)\n        else:\n            ones_like_x = tf.ones_like(x, dtype=tf.int64)", "values=tf.cast(tf.not_equal(x.values, tf.zeros_like(x.values)), tf.int64), dense_shape=x.dense_shape)\n        else:\n            ones_like_x = tf.ones_like(x, dtype=tf.int64)"))
S('m11-tukey-shape', A, ("        if not reduce_instance_dims:\n            output_shape = _get_output_shape_from_input(x)\n        x_loc, x_scale", "        if not reduce_instance_dims and x.get_shape().ndims == 2:\n            output_shape = _get_output_shape_from_input(x)\n        x_loc, x_scale"))
S('m11-skewness-sign', 'gaussianization.py', ("np.pi * (hl - hr) * (hl - 2.0) * (hr - 2.0)", "np.pi * (hr - hl) * (hl - 2.0) * (hr - 2.0)"))
S('m11-log-pmi-zero', 'info_theory.py', ("    if n_ij == 0 or x_i == 0 or y_j == 0:\n        return 0\n    return n_ij", "    if n_ij == 0 or (x_i == 0 and y_j == 0):\n        return 0\n    return n_ij"))
S('m11-fingerprint-unsorted', GT, ("            if path is not None:\n                paths.add(path)\n        result[str(tensor_sink.tensor.name)] = AnalyzersFingerprint(source_keys, paths)\n", "            if path is not None:\n                paths.add(path)\n        if paths:\n            result[str(tensor_sink.tensor.name)] = AnalyzersFingerprint(source_keys, paths)\n"))
S('m11-init-hash-key', GT, ("                complete_source_info_dict[tf_utils.hashable_tensor_or_op(key)] = source_info\n", "                complete_source_info_dict.setdefault(tf_utils.hashable_tensor_or_op(key), source_info)\n"))
S('m11-dependents-first', GT, ("        for component in _decompose_tensor_or_op(tensor_or_op):\n            dependents.update(self._graph_analyzer.analyze_tensor(component).dependent_sources)\n        result = {}", "        for component in _decompose_tensor_or_op(tensor_or_op):\n            dependents = dependents or self._graph_analyzer.analyze_tensor(component).dependent_sources\n        result = {}"))
S('m11-traced-replacements', IH, ("        if output_keys_to_name_map is None or not graph.get_collection(analyzer_nodes.TENSOR_REPLACEMENTS):\n", "        if output_keys_to_name_map is None or graph.get_collection(analyzer_nodes.TENSOR_REPLACEMENTS):\n"))
S('m11-inplace-order', IH, ("            sess.run(tf.compat.v1.global_variables_initializer())\n            sess.run(tf.compat.v1.tables_initializer())\n            saved_transform_io.write", "            sess.run(tf.compat.v1.tables_initializer())\n            saved_transform_io.write"))
S('m11-restore-exclude-prefix', 'pretrained_models.py', ("    return [v for v in vars_to_include if v not in vars_to_exclude]\n", "    return [v for v in vars_to_include if v.name not in vars_to_exclude]\n"))
S('m11-left-align-unsorted', M, ("    reordered_tensor = tf.sparse.reorder(sparse_tensor)\n    transposed_indices", "    reordered_tensor = sparse_tensor\n    transposed_indices"))
S('m11-left-align-values', M, ("values=reordered_tensor.values, dense_shape=reordered_tensor.dense_shape)\n", "values=sparse_tensor.values, dense_shape=reordered_tensor.dense_shape)\n"))
S('m11-tfidf-split-gather', M, ("    out_shape_second_dim = tf.maximum(tf.reduce_max(input_tensor=dummy_index), -1) + 1\n", "    out_shape_second_dim = tf.reduce_max(input_tensor=dummy_index) + 1\n"))
S('m11-bag-dedupe-ngram', M, ("        all_ngrams = ngrams(tokens, ngram_range, separator)\n        return deduplicate_tensor_per_row(all_ngrams)\n", "        all_ngrams = ngrams(deduplicate_tensor_per_row(tokens), ngram_range, separator)\n        return all_ngrams\n"))
S('m11-order-reserved-truthy', AI, ("        if reserved_tokens is not None:\n            counts[:0] = [(-1, t) for t in reserved_tokens]\n        counts =", "        if reserved_tokens is not None:\n            counts.extend(((-1, t) for t in reserved_tokens))\n        counts ="))
S('m11-order-size-before', AI, ("        counts = maybe_add_empty_vocabulary_dummy(counts, self._input_dtype)\n        self._vocab_size.set(len(counts))\n", "        self._vocab_size.set(len(counts))\n        counts = maybe_add_empty_vocabulary_dummy(counts, self._input_dtype)\n"))
S('m11-write-sorted-fp', AI, ("            if self._fingerprint_shuffle:\n                sort_kwargs = dict(key=fingerprint_sort_fn)\n            else:\n                sort_kwargs = dict(reverse=True)\n            batched_counts", "            sort_kwargs = dict(reverse=True)\n            if self._fingerprint_shuffle:\n                sort_kwargs['key'] = fingerprint_sort_fn\n            batched_counts"))
S('m11-write-wait-iter', AI, ("'WaitForVocabularyFile' >> beam.Map(lambda x, y: x, y=beam.pvalue.AsIter(vocab_is_written))", "'WaitForVocabularyFile' >> beam.Map(lambda x, y: x, y=beam.pvalue.AsIter(formatted_vocabulary))"))
