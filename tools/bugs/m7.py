D = 'beam/deep_copy.py'
T = 'tf_utils.py'
M = 'mappers.py'
X = 'experimental/mappers.py'
N = 'analyzer_nodes.py'
S('m7-clone-tag', D, ("                    if output == item:\n                        copied.producer.outputs[tag] = copied", "                    copied.producer.outputs[tag] = copied"))
S('m7-clone-orig-producer', D, ("                copied.producer = ptransform_replacements[original_producer]\n", "                original_producer = ptransform_replacements[original_producer]\n"))
S('m7-clone-label-once', D, ("            while new_label in pipeline.applied_labels:\n                count += 1", "            if new_label in pipeline.applied_labels:\n                count += 1"))
S('m7-clone-label-notadded', D, ("            pipeline.applied_labels.add(new_label)\n", ""))
S('m7-clone-inputs', D, ("pcollection_replacements.get(old_input, old_input) for tag, old_input in item.main_inputs.items()}", "old_input for tag, old_input in item.main_inputs.items()}"))
S('m7-clone-parent', D, ("            copied.parent.parts.append(copied)\n", ""))
S('m7-items-seen', D, ("        if applied_transform in seen:\n            continue\n        seen.add(applied_transform)\n        stack.append(applied_transform)\n        stack.extend(applied_transform.inputs)", "        if applied_transform in seen:\n            continue\n        stack.append(applied_transform)\n        stack.extend(applied_transform.inputs)"))
S('m7-items-order', D, ("        stack.append(applied_transform)\n        stack.extend(applied_transform.inputs)", "        stack.extend(applied_transform.inputs)\n        stack.append(applied_transform)"))
S('m7-items-boundary', D, ("if isinstance(current, pvalue.PBegin) or _is_at_materialization_boundary(current):", "if isinstance(current, pvalue.PBegin):"))
S('m7-items-outputs', D, ("                to_clone.append(output)\n            continue", "                to_clone.append(output)\n                break\n            continue"))
P = 'py_func/pyfunc_helper.py'
S('m7-pyfunc-stateless', P, ("if node.op == 'PyFunc' or node.op == 'PyFuncStateless':", "if node.op == 'PyFunc':"))
S('m7-pyfunc-expected', P, ("                elif token.s not in expected_tokens_in_graph_def:", "                elif token.s in expected_tokens_in_graph_def:"))
S('m7-pyfunc-meta', P, ("        graph_def = graph.as_graph_def()\n", "        graph_def = meta_graph.graph_def\n"))
S('m7-pyfunc-token', P, ("new_tokens_by_old_token[func_def.token] = token", "new_tokens_by_old_token[token] = func_def.token"))
S('m7-typespec-size', 'impl_helper.py', ("[None if dim == -1 else dim for dim in feature_spec.size]", "list(feature_spec.size)"))
S('m7-typespec-raggedseq', 'impl_helper.py', ("                shape.append(None)\n                ragged_rank += 1\n            for", "                shape.append(None)\n            for"))
S('m7-typespec-uniform', 'impl_helper.py', ("                    shape.append(partition.length)\n", "                    shape.append(partition.length)\n                    ragged_rank += 1\n"))
S('m7-typespec-splits', 'impl_helper.py', (", ragged_rank=ragged_rank, row_splits_dtype=feature_spec.row_splits_dtype)", ", ragged_rank=ragged_rank)"))
S('m7-schema-annot', 'schema_inference.py', ("{k: [a.numpy() for a in v] for k, v in sparse_output_annotations[0].items()}", "{k: [a.numpy() for a in v] for k, v in sparse_output_annotations[-1].items()}"))
S('m7-schema-evaluate', 'schema_inference.py', ("    if not evaluate_schema_overrides:\n        tensor_ranges = {tensor.numpy", "    if evaluate_schema_overrides:\n        tensor_ranges = {tensor.numpy"))
O = 'output_wrapper.py'
S('m7-vocab-glob', O, ("tf.io.gfile.glob(prefix) + tf.io.gfile.glob('{}.tfrecord.gz'.format(prefix))", "tf.io.gfile.glob(prefix + '*')"))
S('m7-vocab-many', O, ("        if len(files) != 1:\n            raise ValueError('Found too many vocabulary", "        if len(files) > 2:\n            raise ValueError('Found too many vocabulary"))
S('m7-vocab-exists', O, ("                    if tf.io.gfile.exists(vocab_path):\n                        return vocab_path", "                    return vocab_path"))
S('m7-vocab-sanitize', O, ("tf.saved_model.ASSETS_DIRECTORY, sanitized_vocab_filename(filename=vocab_filename))", "tf.saved_model.ASSETS_DIRECTORY, vocab_filename)"))
S('m7-raw-wrapped', O, ("        return _TransformedFeaturesDict(transformed_features)\n\n", "        return transformed_features\n\n") if 0 else ("            transformed_features = tft_layer(raw_features)\n        return _TransformedFeaturesDict(transformed_features)", "            return tft_layer(raw_features)\n        return _TransformedFeaturesDict(transformed_features)"))
U = 'tf_metadata/schema_utils.py'
S('m7-ragged-get', U, ("row_length_feature = feature_by_name.pop(column_path.steps()[0])", "row_length_feature = feature_by_name[column_path.steps()[0]]"))
S('m7-ragged-int', U, ("        if row_length_feature.type != schema_pb2.FeatureType.INT:\n", "        if value_feature.type != schema_pb2.FeatureType.INT:\n"))
S('m7-const-init', 'beam/impl.py', ("            session.run(tf.compat.v1.global_variables_initializer())\n            saved_transform_io.write", "            saved_transform_io.write"))
S('m7-const-swap', 'beam/impl.py', ("saved_transform_io.write_saved_transform_from_session(session, input_tensors, output_tensors, temp_dir)", "saved_transform_io.write_saved_transform_from_session(session, input_tensors, tensor_replacement_map, temp_dir)"))
S('m7-annot-url', 'schema_inference.py', ("    tf.compat.v1.add_to_collection(_TF_METADATA_EXTRA_ANNOTATION_TYPE_URL, type_url)\n    tf.compat.v1.add_to_collection(_TF_METADATA_EXTRA_ANNOTATION_PROTO, proto_message)", "    if type_url not in tf.compat.v1.get_collection(_TF_METADATA_EXTRA_ANNOTATION_TYPE_URL):\n        tf.compat.v1.add_to_collection(_TF_METADATA_EXTRA_ANNOTATION_TYPE_URL, type_url)\n    tf.compat.v1.add_to_collection(_TF_METADATA_EXTRA_ANNOTATION_PROTO, proto_message)"))
S('m7-annot-name', 'schema_inference.py', ("tensor_name = tensor.name.split('/')[-1]\n        if tensor_name.startswith(_TF_METADATA_EXTRA_ANNOTATION_GLOBAL):\n            tensor_annotation_keys.append(_TF_METADATA_EXTRA_ANNOTATION_GLOBAL)\n        else:\n            tensor_annotation_keys.append(tf_utils", "tensor_name = tensor.name.split('/')[0]\n        if tensor_name.startswith(_TF_METADATA_EXTRA_ANNOTATION_GLOBAL):\n            tensor_annotation_keys.append(_TF_METADATA_EXTRA_ANNOTATION_GLOBAL)\n        else:\n            tensor_annotation_keys.append(tf_utils"))
S('m7-dofn-passthrough', 'beam/impl.py', ("        self._passthrough_keys = sorted(passthrough_keys)\n        self._shared", "        self._passthrough_keys = list(passthrough_keys)\n        self._shared"))
S('m7-dofn-overlap', 'beam/impl.py', ("        if passthrough_keys - schema_keys != passthrough_keys:", "        if passthrough_keys == schema_keys:"))
S('m7-inspect-control', 'inspect_preprocessing_fn.py', ("output_tensors = list(itertools.chain(visitor.sourced_tensors, control_dependency_ops))\n    analyze", "output_tensors = list(visitor.sourced_tensors)\n    analyze"))
S('m7-inspect-visitor', 'inspect_preprocessing_fn.py', ("    visitor = graph_tools.SourcedTensorsVisitor()\n    for tensor_sink in tensor_sinks:\n", "    for tensor_sink in tensor_sinks:\n        visitor = graph_tools.SourcedTensorsVisitor()\n"))
V = 'saved/saved_transform_io_v2.py'
S('m7-loader-unexpected', V, ("unexpected_inputs = set(logical_input_map.keys()) - set(self._structured_inputs.keys())\n        if unexpected_inputs:\n            raise ValueError('Unexpected inputs to transform: {}'.format(unexpected_inputs))\n        if self.load_v2", "unexpected_inputs = set(self._structured_inputs.keys()) - set(logical_input_map.keys())\n        if unexpected_inputs:\n            raise ValueError('Unexpected inputs to transform: {}'.format(unexpected_inputs))\n        if self.load_v2"))
S('m7-loader-finalized', V, ("        elif self._is_finalized:\n            return self._apply_v2_transform_model_finalized(logical_input_map)\n        else:\n            return self._apply_v2_transform_model(logical_input_map)", "        elif self._is_finalized and len(logical_input_map) == 1:\n            return self._apply_v2_transform_model_finalized(logical_input_map)\n        else:\n            return self._apply_v2_transform_model(logical_input_map)"))
S('m7-tracker-finally', 'annotators.py', ("    try:\n        yield\n    finally:\n        _OBJECT_TRACKER = None", "    yield\n    _OBJECT_TRACKER = None"))
S('m7-writecache-sort', 'beam/analyzer_cache.py', ("self._sorted_dataset_keys = sorted(dataset_keys)\n        self._sink", "self._sorted_dataset_keys = list(dataset_keys)\n        self._sink"))
W = 'beam/tft_beam_io/transform_fn_io.py'
S('m7-write-order', W, ("            if tf.io.gfile.exists(base_temp_dir):\n                tf.io.gfile.rmtree(base_temp_dir)", "            if tf.io.gfile.exists(self._path):\n                tf.io.gfile.rmtree(base_temp_dir)"))
S('m7-write-stale', W, ("            if tf.io.gfile.exists(transform_fn_path):\n                tf.io.gfile.rmtree(transform_fn_path)\n", ""))
S('m7-write-swapped', W, ("metadata_source_path=beam.pvalue.AsSingleton(temp_metadata_path), transform_fn_source_path=beam.pvalue.AsSingleton(temp_transform_fn_path)", "metadata_source_path=beam.pvalue.AsSingleton(temp_transform_fn_path), transform_fn_source_path=beam.pvalue.AsSingleton(temp_metadata_path)"))
S('m7-bind-sink', N, ("        graph.add_to_collection(TENSOR_REPLACEMENTS, tensor_sink)\n        eager_asset_path", "        if not is_asset_filepath:\n            graph.add_to_collection(TENSOR_REPLACEMENTS, tensor_sink)\n        eager_asset_path"))
S('m7-bind-replaced-asset', N, ("            graph.add_to_collection(tf.compat.v1.GraphKeys.ASSET_FILEPATHS, replaced_result)\n            return replaced_result", "            return replaced_result"))
S('m7-temp-dtype', N, ("temporary_dtype = tf.int64 if tensor_info.dtype == tf.string else tensor_info.dtype", "temporary_dtype = tf.int64 if tensor_info.dtype == tf.string else tf.float32"))
S('m7-temp-nodir', N, ("graph_tensor = tf.raw_ops.PlaceholderWithDefault(input=temporary_tensor, shape=tensor_info.shape, name=name)", "graph_tensor = tf.raw_ops.PlaceholderWithDefault(input=temporary_tensor, shape=temporary_tensor.shape, name=name)"))
S('m7-gauss-elementwise', M, ("return _scale_to_gaussian_internal(x=x, elementwise=elementwise, output_dtype=output_dtype)", "return _scale_to_gaussian_internal(x=x, elementwise=False, output_dtype=output_dtype)"))
S('m7-01pk-elementwise', M, ("key=key, output_min=0, output_max=1, elementwise=elementwise, key_vocabulary_filename=key_vocabulary_filename)", "key=key, output_min=0, output_max=1, elementwise=elementwise, key_vocabulary_filename=None)"))
S('m7-bow-dedup', M, ("        all_ngrams = ngrams(tokens, ngram_range, separator)\n        return deduplicate_tensor_per_row(all_ngrams)", "        return ngrams(deduplicate_tensor_per_row(tokens), ngram_range, separator)"))
S('m7-tfidf-index', M, ("gathered_idfs = tf.gather(tf.squeeze(idf), term_frequency.indices[:, 1])", "gathered_idfs = tf.gather(tf.squeeze(idf), term_frequency.indices[:, 0])"))
S('m7-idf-values', X, ("        batch_sizes = tf.expand_dims(tf.shape(input=cleaned_input)[0], 0)\n", "        batch_sizes = tf.expand_dims(tf.size(cleaned_input.values), 0)\n"))
S('m7-idf-raw', X, ("tf.SparseTensor(indices=cleaned_input.indices, values=idf_values,", "tf.SparseTensor(indices=x.indices, values=idf_values,"))
S('m7-onehot-mult', X, ("    multiplier = vocab_size + 1\n", "    multiplier = vocab_size - 1\n"))
S('m7-onehot-unique', X, ("unique_flatten_indices, _ = tf.raw_ops.UniqueV2(x=batch_indices * multiplier + vocab_indices, axis=[0])", "unique_flatten_indices = batch_indices * multiplier + vocab_indices"))
S('m7-dfidf-smooth', T, ("tf.math.log((tf.cast(corpus_size, dtype=tf.float32) + 1.0) / (1.0 + tf.cast(document_frequency, dtype=tf.float32)))", "tf.math.log(tf.cast(corpus_size, dtype=tf.float32) / (1.0 + tf.cast(document_frequency, dtype=tf.float32)))"))
S('m7-sentinel-concat', T, ("unique_x=tf.concat([reduced_batch.unique_x, sentinel_batch.unique_x], axis=0), summed_weights_per_x=tf.concat([reduced_batch.summed_weights_per_x, sentinel_batch.summed_weights_per_x]", "unique_x=tf.concat([reduced_batch.unique_x, sentinel_batch.unique_x], axis=0), summed_weights_per_x=tf.concat([sentinel_batch.summed_weights_per_x, reduced_batch.summed_weights_per_x]"))
S('m7-cwc-index', T, ("flattened_index = (max_y_value + 1) * vocabulary.unique_idx + y\n", "flattened_index = max_y_value * vocabulary.unique_idx + y\n"))
S('m7-cwc-mask', T, ("    flattened_index = tf.where(missing_labels_mask, tf.constant(_MISSING_MASK_VALUE, tf.int64), flattened_index)\n", ""))
S('m7-mpk-zeros', T, ("tf.concat([t, tf.expand_dims(tf.zeros_like(t[0]), 0)], axis=0)", "tf.concat([t, tf.expand_dims(t[-1], 0)], axis=0)"))
S('m7-mpk-clip', T, ("adjusted_indices = tf.where(key_indices >= 0, key_indices, tf.cast(tf.fill(tf.shape(key_indices), tf.size(key_vocab)), dtype=tf.int64))", "adjusted_indices = tf.math.maximum(key_indices, 0)"))
S('m7-smm-missing', T, ("    x_batch_minus_min = tf.where(batch_has_no_values, tf.fill(tf.shape(input=x_batch_minus_min), missing_value), x_batch_minus_min)\n", "\n"))
S('m7-smm-sign', T, ("tf.SparseTensor(indices=x.indices, values=0 - x.values, dense_shape=x.dense_shape)\n    x_count", "tf.SparseTensor(indices=x.indices, values=0 - x.values, dense_shape=x.dense_shape)\n    x = minus_x\n    x_count"))
S('m7-rcmv-ragged', T, ("return _reduce_batch_count_mean_and_var_dense(x.flat_values, reduce_instance_dims=True)", "return _reduce_batch_count_mean_and_var_dense(x.values, reduce_instance_dims=True)"))
S('m7-bs-iter', 'gaussianization.py', ("        current_iter += 1\n        if current_iter > stop_iter_step or", "        if current_iter > stop_iter_step or"))
S('m7-bs-side', 'gaussianization.py', ("        if current_error < 0.0:\n            low_value = current_value\n        else:\n            high_value = current_value\n", "        if current_error < 0.0:\n            low_value = current_value\n        if current_error > 1.0:\n            high_value = current_value\n"))
S('m7-lw-select', 'gaussianization.py', ("tf.where(x < inv_e, x, tf.where(x < e,", "tf.where(x < e, x, tf.where(x < inv_e,"))
S('m7-vm-sizes', 'analyzers.py', ("{'unfiltered_vocabulary_size': unfiltered_vocabulary_size, 'filtered_vocabulary_size': filtered_vocabulary_size,", "{'unfiltered_vocabulary_size': filtered_vocabulary_size, 'filtered_vocabulary_size': unfiltered_vocabulary_size,"))
S('m7-align-front', T, ("        tensor = tf.expand_dims(tensor, -1)\n    return tensor", "        tensor = tf.expand_dims(tensor, 0)\n    return tensor"))
S('m7-split-max', T, ("split = tf.strings.split(batched_vocab_lines, sep=' ', maxsplit=1)", "split = tf.strings.split(batched_vocab_lines, sep=' ')"))
S('m7-spos-reshape', T, ("tf.reshape(summed_positive_per_x_and_y, [max_x_idx, max_y_value + 1])", "tf.transpose(tf.reshape(summed_positive_per_x_and_y, [max_y_value + 1, max_x_idx]))"))
S('m7-sentinel-int', 'beam/analyzer_impls.py', ("    if token == tf_utils.GLOBAL_Y_COUNT_SENTINEL_STRING or token == tf_utils.GLOBAL_Y_COUNT_SENTINEL_INT:", "    if token in (tf_utils.GLOBAL_Y_COUNT_SENTINEL_STRING,):"))
