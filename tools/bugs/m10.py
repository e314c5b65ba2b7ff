A = 'analyzers.py'
M = 'mappers.py'
U = 'tf_utils.py'
SU = 'tf_metadata/schema_utils.py'
SI = 'schema_inference.py'
GT = 'graph_tools.py'
G = 'gaussianization.py'
EA = 'experimental/analyzers.py'
IH = 'impl_helper.py'

S('m10-approx-topk-cap', EA, ("    elif top_k > analyzers.LARGE_VOCAB_TOP_K:\n        raise ValueError('Provided top_k", "    elif top_k > analyzers.LARGE_VOCAB_TOP_K and (not x.dtype.is_integer):\n        raise ValueError('Provided top_k"))
S('m10-approx-weights-int', EA, ("        analyzer_inputs = _get_approximate_vocabulary_analyzer_inputs(x=x, file_format=file_format, weights=weights)\n", "        analyzer_inputs = _get_approximate_vocabulary_analyzer_inputs(x=x, file_format=file_format, weights=None if x.dtype.is_integer else weights)\n"))
S('m10-approx-name-frequency', EA, ("        vocab_filename = _get_approx_vocab_filename(vocab_filename, store_frequency)\n        analyzer_inputs", "        vocab_filename = _get_approx_vocab_filename(vocab_filename, False)\n        analyzer_inputs"))
S('m10-ptransform-asset-falsy', EA, ("[None if value is None else analyzer_nodes.TemporaryAssetInfo(value, 'text') for value in output_asset_default_values]", "[None if not value else analyzer_nodes.TemporaryAssetInfo(value, 'text') for value in output_asset_default_values]"))
S('m10-ptransform-global-partitionable', EA, ("        with tf.compat.v1.name_scope('global_merge_accumulators'):\n            merge_output_value_nodes = nodes.apply_multi_output_operation(analyzer_nodes.PTransform, *cached_value_nodes, ptransform=ptransform.merge_accumulators_ptransform, is_partitionable=False", "        with tf.compat.v1.name_scope('global_merge_accumulators'):\n            merge_output_value_nodes = nodes.apply_multi_output_operation(analyzer_nodes.PTransform, *cached_value_nodes, ptransform=ptransform.merge_accumulators_ptransform, is_partitionable=True"))
S('m10-ptransform-merge-input', EA, ("nodes.apply_multi_output_operation(analyzer_nodes.PTransform, *cached_value_nodes, ptransform", "nodes.apply_multi_output_operation(analyzer_nodes.PTransform, *make_accumulators_value_node, ptransform"))
S('m10-tukey-negative-skew', G, ("        l_skewness_and_kurtosis[0] = -l_skewness_and_kurtosis[0]\n        swap_params = True\n", "        swap_params = True\n"))
S('m10-tukey-converged-any', G, ("np.all(np.abs(delta_search_params) < stop_value_step)", "np.any(np.abs(delta_search_params) < stop_value_step)"))
S('m10-tukey-prev-alias', G, ("        previous_search_params = search_params.copy()\n", "        previous_search_params = search_params\n"))
S('m10-tukey-swap-lost', G, ("    if swap_params:\n        result = result[::-1]\n    return result", "    if swap_params and result[0] > 0.0:\n        result = result[::-1]\n    return result"))
S('m10-lmoments-shape', U, ("        elif x.get_shape().ndims and x.get_shape()[1:].is_fully_defined():\n            final_shape = x.get_shape()[1:]\n        else:\n            final_shape = tf.shape(x)[1:]", "        elif x.get_shape().ndims and x.get_shape().is_fully_defined():\n            final_shape = x.get_shape()[1:]\n        else:\n            final_shape = tf.shape(x)[1:]"))
S('m10-lmoments-count-fill', U, ("        count_l3 = tf.fill(final_shape, count_triplets)\n", "        count_l3 = tf.fill(final_shape, count_quadruplets)\n"))
S('m10-df-uncleaned', 'experimental/mappers.py', ("        df_values = tf.gather(tf.squeeze(all_df), cleaned_input.values)\n        return tf.SparseTensor(indices=cleaned_input.indices, values=df_values", "        df_values = tf.gather(tf.squeeze(all_df), x.values)\n        return tf.SparseTensor(indices=cleaned_input.indices, values=df_values"))
S('m10-checkpoint-exclude', 'pretrained_models.py', ("    return [v for v in vars_to_include if v not in vars_to_exclude]", "    return [v for v in vars_to_include if include is not None or v not in vars_to_exclude]"))
S('m10-checkpoint-tables', 'pretrained_models.py', ("        if tf.compat.v1.get_collection(tf.compat.v1.GraphKeys.TABLE_INITIALIZERS):\n", "        if tf.compat.v1.get_collection(tf.compat.v1.GraphKeys.TABLE_INITIALIZERS) and include is None:\n"))
S('m10-legacy-spec-size-one', SU, ("            elif len(spec.shape) == 1 and spec.shape[0] > 1:\n                size", "            elif len(spec.shape) == 1 and spec.shape[0] >= 1:\n                size"))
S('m10-legacy-spec-default', SU, ("            if spec.default_value is None:\n                min_fraction = 1\n            elif", "            if not spec.default_value:\n                min_fraction = 1\n            elif"))
S('m10-schema-unsorted', SU, ("    schema_utils_legacy.set_generate_legacy_feature_spec(result, False)\n    for name, spec in sorted(feature_spec.items()):", "    schema_utils_legacy.set_generate_legacy_feature_spec(result, False)\n    for name, spec in feature_spec.items():"))
S('m10-schema-partitions-before', SU, ("            tensor_representation_map[name].CopyFrom(ragged_tensor_representation)\n", "            tensor_representation_map[spec.value_key or name].CopyFrom(ragged_tensor_representation)\n"))
S('m10-batch-count-nan', U, ("    if x.dtype.is_floating:\n        finite_mask = tf.cast(tf.math.is_finite(x), tf.int64)\n        return", "    if x.dtype.is_floating and reduce_instance_dims:\n        finite_mask = tf.cast(tf.math.is_finite(x), tf.int64)\n        return"))
S('m10-batch-count-ragged-finite', U, ("            finite_mask = tf.cast(_is_finite(x), tf.int64)\n            return tf.math.reduce_sum(finite_mask, axis=0).to_tensor()", "            finite_mask = tf.cast(tf.ones_like(x), tf.int64)\n            return tf.math.reduce_sum(finite_mask, axis=0).to_tensor()"))
S('m10-serialize-int32', U, ("    elif values.dtype == tf.int64:\n        values_dict = {'int64_list'", "    elif values.dtype.is_integer:\n        values_dict = {'int64_list'"))
S('m10-placeholders-dtype', IH, ("        if spec_dtype not in (tf.int64, tf.float32, tf.string):\n            raise ValueError('Feature {} ({}, {}) had invalid dtype'.format(name, spec, type(spec)))\n", "        if not isinstance(spec, tf.TypeSpec) and spec_dtype not in (tf.int64, tf.float32, tf.string):\n            raise ValueError('Feature {} ({}, {}) had invalid dtype'.format(name, spec, type(spec)))\n"))
S('m10-cast-ndarray', 'coders/example_proto_coder.py', ("        if isinstance(x, list) or (isinstance(x, np.ndarray) and x.ndim > 0):\n            return map(utf8, x)", "        if isinstance(x, list) or (isinstance(x, np.ndarray) and x.ndim > 1):\n            return map(utf8, x)"))
S('m10-inverse-tukey-sign', G, ("    return tf.where(tf.less(x, 0.0), -one_side(-x, hl), one_side(x, hr))", "    return tf.where(tf.less(x, 0.0), -one_side(-x, hr), one_side(x, hr))"))
S('m10-lookup-identity', U, ("            stack.enter_context(tf.control_dependencies([tf.identity(control_dependency)]))\n        return (tf.identity(lookup_result), table_size)", "            stack.enter_context(tf.control_dependencies([tf.identity(control_dependency)]))\n        return (lookup_result, table_size)"))
S('m10-table-init-scope', U, ("        if tf.inside_function() and isinstance(asset_filepath, (ops.EagerTensor, str)):\n            stack.enter_context(tf.init_scope())\n        table = construct_table_callable(asset_filepath)", "        if tf.inside_function():\n            stack.enter_context(tf.init_scope())\n        table = construct_table_callable(asset_filepath)"))
S('m10-cov-empty', A, ("        if count == 0:\n            return [np.zeros(self._output_shape, self._numpy_dtype)]\n        expected_cross_terms", "        if count <= 1:\n            return [np.zeros(self._output_shape, self._numpy_dtype)]\n        expected_cross_terms"))
S('m10-json-default-order', 'tf_metadata/metadata_io.py', ("            default_value = _convert_scalar_or_list(int, tf_options['fixedLenFeature']['intDefaultValue'])\n", "            default_value = tf_options['fixedLenFeature']['intDefaultValue']\n"))
S('m10-json-shape', 'tf_metadata/metadata_io.py', ("        shape = [int(axis['size']) for axis in axes]\n", "        shape = [int(axis['size']) for axis in axes if int(axis['size']) > 1]\n"))
S('m10-annotations-decode', SI, ("    tensor_annotation_keys = [tensor.numpy().decode() for tensor in metadata[_TF_METADATA_EXTRA_ANNOTATION]]", "    tensor_annotation_keys = sorted(tensor.numpy().decode() for tensor in metadata[_TF_METADATA_EXTRA_ANNOTATION])"))
S('m10-tags-subset', 'saved/saved_model_loader.py', ("        if set(meta_graph_def.meta_info_def.tags) == set(tags):", "        if set(tags).issubset(meta_graph_def.meta_info_def.tags):"))
S('m10-columns-all', 'inspect_preprocessing_fn.py', ("    transform_input_tensors = graph_tools.get_dependent_inputs(graph, structured_inputs, structured_outputs)\n    return list(transform_input_tensors.keys())", "    transform_input_tensors = graph_tools.get_dependent_inputs(graph, structured_inputs, list(structured_outputs.values())[:1])\n    return list(transform_input_tensors.keys())"))
S('m10-pmf-end', 'info_theory.py', ("    end = int(round(min(x_i, y_j)))", "    end = int(min(x_i, y_j))"))
S('m10-pmf-yield-early', 'info_theory.py', ("        p_j = math.exp(numerator - denominator)\n        if n_j != end:\n            denominator +=", "        if n_j != end:\n            denominator +="), ("        yield (n_j, p_j)", "        p_j = math.exp(numerator - denominator)\n        yield (n_j, p_j)"))
S('m10-tfrecord-indicator', U, ("        if has_indicator:\n            drop_indicator = lambda k, v: k\n            dataset = dataset.map(_split_vocabulary_entries", "        if has_indicator and key_dtype == tf.string:\n            drop_indicator = lambda k, v: k\n            dataset = dataset.map(_split_vocabulary_entries"))
S('m10-params-errors-order', G, ("    h_params = np.array([h - delta_h, h], dtype=dtype)", "    h_params = np.array([h, h - delta_h], dtype=dtype)"))
S('m10-sparse-annot-equal', 'experimental/annotators.py', ("        if not all((a is None or a <= b for a, b in zip(tensor.shape[1:], shape))):", "        if not all((a is None or a < b for a, b in zip(tensor.shape[1:], shape))):"))
S('m10-sparse-annot-batch', 'experimental/annotators.py', ("        if not all((a is None or a <= b for a, b in zip(tensor.shape[1:], shape))):", "        if not all((a is None or a <= b for a, b in zip(tensor.shape, shape))):"))
S('m10-count-nodes-traverser', 'nodes.py', ("    traverser = Traverser(visitor)\n    for value_node in leaf_nodes:\n        traverser.visit_value_node(value_node)\n    return visitor.num_nodes", "    for value_node in leaf_nodes:\n        Traverser(visitor).visit_value_node(value_node)\n    return visitor.num_nodes"))
S('m10-table-init-ready-any', GT, ("            ready = all(map(graph_analyzer.ready_to_run, table_init_inputs))", "            ready = any(map(graph_analyzer.ready_to_run, table_init_inputs))"))
S('m10-table-init-inputs', GT, ("        table_init_inputs = table_init_op.inputs[1:]\n", "        table_init_inputs = table_init_op.inputs[1:2]\n"))
S('m10-tag-general-first', 'beam/common.py', ("        if tag is None or tag not in self._ptransform_by_tag:\n            return (self._ptransform_by_tag[self._GENERAL_ENVIRONMENT_TAG], None)", "        if tag is None or tag not in self._ptransform_by_tag or self._GENERAL_ENVIRONMENT_TAG in self._ptransform_by_tag:\n            return (self._ptransform_by_tag[self._GENERAL_ENVIRONMENT_TAG], None)"))
S('m10-sparse-spec-sorted', SU, ("is_sorted=True if spec.already_sorted else None", "is_sorted=True if spec.already_sorted and isinstance(spec.index_key, list) else None"))
S('m10-sparse-spec-domain-max', SU, ("int_domain=schema_pb2.IntDomain(min=0, max=spec.size - 1))]", "int_domain=schema_pb2.IntDomain(min=0, max=spec.size))]"))
S('m10-parents-control-inputs', GT, ("            parents = list(itertools.chain(tensor_or_op.inputs, tensor_or_op.control_inputs))", "            parents = list(tensor_or_op.inputs) or list(tensor_or_op.control_inputs)"))
S('m10-parents-source-op', GT, ("        if tf_utils.hashable_tensor_or_op(tensor_or_op) in self._source_info_dict:\n            return []\n        func_graph_name", "        if isinstance(tensor_or_op, tf.Tensor) and tf_utils.hashable_tensor_or_op(tensor_or_op) in self._source_info_dict:\n            return []\n        func_graph_name"))
S('m10-cache-keys-empty', 'beam/analyzer_cache.py', ("        self._filtered_cache_entry_keys = None if cache_entry_keys is None else set(cache_entry_keys)", "        self._filtered_cache_entry_keys = set(cache_entry_keys) if cache_entry_keys else None"))
S('m10-strip-any', 'tf2_utils.py', ("    if all((tensor.op.type == 'Identity' and len(tensor.op.inputs) == 1 for tensor in flat_tensor_list)):", "    if all((tensor.op.type == 'Identity' for tensor in flat_tensor_list)):"))
S('m10-strip-control-first', 'tf2_utils.py', ("set(itertools.chain(*control_dependency_ops)))", "set(control_dependency_ops[0] if control_dependency_ops else []))"))
S('m10-captures-deferred', 'tf2_utils.py', ("    num_captures = len(func_graph.internal_captures + func_graph.deferred_internal_captures)", "    num_captures = len(func_graph.internal_captures)"))
S('m10-tables-oov-default', M, ("        if num_oov_buckets > 0:\n            table = tf.lookup.StaticVocabularyTable(initializer", "        if num_oov_buckets > 1:\n            table = tf.lookup.StaticVocabularyTable(initializer"))
S('m10-tables-key-index', M, ("            key_index = 1 if store_frequency else tf.lookup.TextFileIndex.WHOLE_LINE", "            key_index = 1 if store_frequency and x.dtype == tf.string else tf.lookup.TextFileIndex.WHOLE_LINE"))
S('m10-cacheable-merge-skip', A, ("    return nodes.apply_multi_output_operation(analyzer_nodes.ExtractCombineMergeOutputs, *merge_outputs_value_nodes, output_tensor_info_list", "    return nodes.apply_multi_output_operation(analyzer_nodes.ExtractCombineMergeOutputs, *accumulate_outputs_value_nodes, output_tensor_info_list"))
S('m10-spaces-dense-only', U, ("    if x.dtype == tf.string:\n        def map_spaces", "    if x.dtype == tf.string and (not isinstance(x, tf.RaggedTensor)):\n        def map_spaces"))
S('m10-same-shape-x', U, ("    with tf.control_dependencies([assert_eq]):\n        return (tf.identity(x), tf.identity(y))", "    with tf.control_dependencies([assert_eq]):\n        return (tf.identity(x), y)"))
S('m10-encode-unsorted', U, ("        field_names.append(field_name)\n        values.append(value)\n        sizes.append(size)\n", "        field_names.append(field_name)\n        values.insert(0, value)\n        sizes.append(size)\n"))
S('m10-default-bytes', SU, ("            except UnicodeError:\n                return value\n", "            except UnicodeError:\n                return value.decode('utf-8', 'ignore')\n"))
S('m10-vocab-size-annotation-zero', 'output_wrapper.py', ("        vocab_size_from_annotations = self._vocabulary_size_from_annotations(vocab_filename)\n        if vocab_size_from_annotations is not None:", "        vocab_size_from_annotations = self._vocabulary_size_from_annotations(vocab_filename)\n        if vocab_size_from_annotations:"))
S('m10-handle-batch-sorted', 'beam/impl.py', ("                feed_list = [feed_dict[name] for name in self._graph_state.inputs_tensor_keys]\n", "                feed_list = [feed_dict[name] for name in sorted(self._graph_state.inputs_tensor_keys)]\n"))
S('m10-handle-batch-passthrough-first', 'beam/impl.py', ("        result.update(self._get_passthrough_data_from_recordbatch(batch))\n        return result", "        for key, value in self._get_passthrough_data_from_recordbatch(batch).items():\n            result.setdefault(key, value)\n        return result"))
S('m10-merge-first-copied', A, ("        accumulators = iter(accumulators)\n        result = next(accumulators)\n        for accumulator in accumulators:\n            result = self._combine_mean_and_var_accumulators(result, accumulator)\n        return result", "        accumulators = list(accumulators)\n        result = accumulators[0]\n        for accumulator in accumulators:\n            result = self._combine_mean_and_var_accumulators(result, accumulator)\n        return result"))
S('m10-analysis-result-func', GT, ("        for func_result in func_graphs_analysis_results:\n            result.dependent_sources.update(func_result.dependent_sources)\n        return result", "        for func_result in func_graphs_analysis_results:\n            if func_result.path:\n                result.dependent_sources.update(func_result.dependent_sources)\n        return result"))
S('m10-analysis-ready-parents', GT, ("for analysis_result in parent_analysis_results + func_graphs_analysis_results)", "for analysis_result in parent_analysis_results or func_graphs_analysis_results)"))
S('m10-init-table-resource', GT, ("                if input_t.dtype == tf.resource:\n                    table_ops.append(input_t.op)\n", "                if input_t.dtype == tf.resource and (not table_ops):\n                    table_ops.append(input_t.op)\n"))
