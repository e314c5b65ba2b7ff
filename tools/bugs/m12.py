# a rewrite with a mistake in it
A = 'analyzers.py'
M = 'mappers.py'
U = 'tf_utils.py'
GT = 'graph_tools.py'
BI = 'beam/impl.py'
SU = 'tf_metadata/schema_utils.py'
G = 'gaussianization.py'

S('m12-approx-kwargs', 'experimental/mappers.py', ("        deferred_vocab_and_filename = experimental_analyzers.approximate_vocabulary(x=x, top_k=top_k, vocab_filename=vocab_filename, weights=weights, file_format=file_format, store_frequency=store_frequency, reserved_tokens=reserved_tokens, name=name)\n", "        vocabulary_options = dict(top_k=top_k, vocab_filename=vocab_filename, weights=weights, file_format=file_format, reserved_tokens=reserved_tokens, name=name)\n        deferred_vocab_and_filename = experimental_analyzers.approximate_vocabulary(x, **vocabulary_options)\n"))
S('m12-approx-needs-format', 'experimental/mappers.py', ("        if store_frequency and file_format == 'text':\n            x = tf_utils.maybe_format_vocabulary_input(x)\n", "        is_frequency_text = store_frequency or file_format == 'text'\n        if is_frequency_text:\n            formatted = tf_utils.maybe_format_vocabulary_input(x)\n            x = formatted\n"))
S('m12-tukey-unpack', A, ("        return _tukey_parameters(x, reduce_instance_dims, output_dtype)[1]\n", "        *_, scale, _ = _tukey_parameters(x, reduce_instance_dims, output_dtype)\n        return scale\n"))
S('m12-var-unpack', A, ("        return _mean_and_var(x, reduce_instance_dims, output_dtype)[1]\n", "        variance, _ = _mean_and_var(x, reduce_instance_dims=reduce_instance_dims, output_dtype=output_dtype)\n        return variance\n"))
S('m12-optimize-init-unsorted', 'beam/analysis_graph_builder.py', ("        self._sorted_dataset_keys = sorted(dataset_keys)\n", "        self._sorted_dataset_keys = list(dataset_keys)\n        sorted(self._sorted_dataset_keys)\n"))
S('m12-variables-prefix', 'pretrained_models.py', ("        scope = (scope or '') + '.*' + suffix\n", "        scope = f\"{scope}.*{suffix}\"\n"))
S('m12-component-guards', 'saved/saved_transform_io_v2.py', ("    if isinstance(tensor, tf.Tensor):\n        return [tensor]\n    elif isinstance(tensor, composite_tensor.CompositeTensor):\n        return tf.nest.flatten(tensor, expand_composites=True)\n    else:\n        raise ValueError(f'Unsupported tensor. Arg `tensor` is neither a `Tensor` nor a `CompositeTensor`: {tensor}.')", "    if not isinstance(tensor, (tf.Tensor, composite_tensor.CompositeTensor)):\n        raise ValueError(f'Unsupported tensor. Arg `tensor` is neither a `Tensor` nor a `CompositeTensor`: {tensor}.')\n    if isinstance(tensor, tf.Tensor):\n        return [tensor]\n    return tf.nest.flatten(tensor)"))
S('m12-tfidf-values', M, ("    tfidf_values = tf.cast(term_frequency.values, tf.float32) * tf.cast(gathered_idfs, tf.float32)\n    return tf.SparseTensor(indices=term_frequency.indices, values=tfidf_values, dense_shape=term_frequency.dense_shape)", "    return tf.SparseTensor(term_frequency.indices, tf.cast(term_frequency.values * tf.cast(gathered_idfs, term_frequency.values.dtype), tf.float32), term_frequency.dense_shape)"))
S('m12-serialize-table', U, ("    if values.dtype == tf.string:\n        values_dict = {'bytes_list': _encode_proto({'value': values}, 'tensorflow.BytesList')}\n    elif values.dtype == tf.float32:\n        values_dict = {'float_list': _encode_proto({'value': values}, 'tensorflow.FloatList')}\n    elif values.dtype == tf.int64:\n        values_dict = {'int64_list': _encode_proto({'value': values}, 'tensorflow.Int64List')}\n    else:\n        raise ValueError('Cannot encode values of dtype {}'.format(values.dtype))\n    return _encode_proto(values_dict, 'tensorflow.Feature')", "    if values.dtype == tf.string:\n        field, message = ('bytes_list', 'tensorflow.BytesList')\n    elif values.dtype.is_floating:\n        field, message = ('float_list', 'tensorflow.FloatList')\n    elif values.dtype == tf.int64:\n        field, message = ('int64_list', 'tensorflow.Int64List')\n    else:\n        raise ValueError('Cannot encode values of dtype {}'.format(values.dtype))\n    return _encode_proto({field: _encode_proto({'value': values}, message)}, 'tensorflow.Feature')"))
S('m12-cast-early', 'coders/example_proto_coder.py', ("    def identity(x):\n        return x\n", "    if issubclass(np_dtype, np.number):\n        return lambda x: x\n    def identity(x):\n        return x\n"))
S('m12-cast-string-guard', 'coders/example_proto_coder.py', ("        if isinstance(x, list) or (isinstance(x, np.ndarray) and x.ndim > 0):\n            return map(utf8, x)\n        elif isinstance(x, np.ndarray):\n            return vectorize(x).tolist()\n        return utf8(x)", "        if isinstance(x, np.ndarray) and x.ndim > 1:\n            return vectorize(x).tolist()\n        if isinstance(x, (list, np.ndarray)):\n            return map(utf8, x)\n        return utf8(x)"))
S('m12-minmax-helper', U, ("    x_batch_max = tf.where(batch_has_no_values, tf.fill(tf.shape(input=x_batch_max), missing_value), x_batch_max)\n    x_batch_minus_min = tf.where(batch_has_no_values, tf.fill(tf.shape(input=x_batch_minus_min), missing_value), x_batch_minus_min)\n    return (x_batch_minus_min, x_batch_max)", "\n    def with_missing(reduced):\n        return tf.where(batch_has_no_values, tf.fill(tf.shape(input=reduced), missing_value), reduced)\n\n    return (with_missing(x_batch_max), with_missing(x_batch_minus_min))"))
S('m12-minmax-pair', U, ("    x_batch_max = tf.where(batch_has_no_values, tf.fill(tf.shape(input=x_batch_max), missing_value), x_batch_max)\n    x_batch_minus_min = tf.where(batch_has_no_values, tf.fill(tf.shape(input=x_batch_minus_min), missing_value), x_batch_minus_min)\n    return (x_batch_minus_min, x_batch_max)", "    results = []\n    for reduced in (x_batch_minus_min, x_batch_max):\n        missing = tf.fill(tf.shape(reduced), missing_value)\n        results.append(tf.where(batch_has_no_values, reduced, missing))\n    return tuple(results)"))
S('m12-create-v2-named', BI, ("    impl_helper.trace_and_write_v2_saved_model(saved_model_dir, preprocessing_fn, input_signature, base_temp_dir, baseline_analyzers_fingerprint, tensor_replacement_map, output_keys_to_name_map, save_options)\n", "    impl_helper.trace_and_write_v2_saved_model(saved_model_dir=saved_model_dir, preprocessing_fn=preprocessing_fn, input_signature=input_signature, base_temp_dir=saved_model_dir, baseline_analyzers_fingerprint=baseline_analyzers_fingerprint, tensor_replacement_map=tensor_replacement_map, output_keys_to_name_map=output_keys_to_name_map, save_options=save_options)\n"))
S('m12-dense-shape-loop', M, ("    new_dense_shape = [x.dense_shape[i] if size is None else size for i, size in enumerate(shape)]\n", "    new_dense_shape = []\n    for i, size in enumerate(shape):\n        if size:\n            new_dense_shape.append(size)\n        else:\n            new_dense_shape.append(x.dense_shape[i])\n"))
S('m12-hh-mean-roots', G, ("    l_2 = one_div_sqrt2pi * ((np.sqrt(2.0 - hl) + np.sqrt(2.0 - hr) - hl * np.sqrt(2.0 - hl) - hr * np.sqrt(2 - hr)) / ((hl - 1.0) * (hr - 1.0) * np.sqrt((hl - 2.0) * (hr - 2.0))))\n", "    root_l = np.sqrt(2.0 - hl)\n    root_r = np.sqrt(2.0 - hr)\n    numerator = root_l + root_r - hl * root_l - hr * root_l\n    denominator = (hl - 1.0) * (hr - 1.0) * np.sqrt((hl - 2.0) * (hr - 2.0))\n    l_2 = one_div_sqrt2pi * (numerator / denominator)\n"))
S('m12-approx-filename', 'experimental/analyzers.py', ("    if vocab_filename is not None:\n        prefix = None\n    elif store_frequency:\n        prefix = _APPROXIMATE_VOCAB_FILENAME_PREFIX\n    else:\n        prefix = _APPROXIMATE_VOCAB_FREQUENCY_FILENAME_PREFIX\n    return analyzers.sanitized_vocab_filename(vocab_filename, prefix=prefix)", "    prefix = _APPROXIMATE_VOCAB_FILENAME_PREFIX if store_frequency else _APPROXIMATE_VOCAB_FREQUENCY_FILENAME_PREFIX\n    return analyzers.sanitized_vocab_filename(vocab_filename or None, prefix=None if vocab_filename else prefix)"))
S('m12-size-early', A, ("        if isinstance(x, tf.SparseTensor):\n            ones_like_x = tf.SparseTensor(indices=x.indices, values=tf.ones_like(x.values, tf.int64), dense_shape=x.dense_shape)\n        else:\n            ones_like_x = tf.ones_like(x, dtype=tf.int64)\n        return sum(ones_like_x, reduce_instance_dims)", "        is_sparse = isinstance(x, tf.SparseTensor)\n        ones = tf.ones_like(tf.sparse.to_dense(x) if is_sparse else x, dtype=tf.int64)\n        return sum(ones, reduce_instance_dims=reduce_instance_dims)"))
S('m12-load-inline', 'saved/saved_transform_io.py', ("    input_signature = signature.inputs\n    output_signature = signature.outputs\n    asset_path_dict = saved_model_loader.get_asset_tensors(transform_savedmodel_dir, meta_graph_def)\n    return (meta_graph_def, input_signature, output_signature, asset_path_dict)", "    asset_paths = saved_model_loader.get_asset_tensors(transform_savedmodel_dir, meta_graph_def)\n    return (meta_graph_def, signature.outputs, signature.inputs, asset_paths)"))
S('m12-count-once', 'nodes.py', ("    visitor = _CountGraphNodes()\n    traverser = Traverser(visitor)\n    for value_node in leaf_nodes:\n        traverser.visit_value_node(value_node)\n    return visitor.num_nodes", "    visitor = _CountGraphNodes()\n    for value_node in leaf_nodes:\n        Traverser(visitor).visit_value_node(value_node)\n    return visitor.num_nodes"))
S('m12-process-reload', BI, ("        if not hasattr(self, '_graph_state'):\n            self._graph_state = self._shared_graph_state_handle.acquire(lambda: self._make_graph_state(saved_model_dir))\n        assert self._graph_state.saved_model_dir == saved_model_dir\n", "        if not hasattr(self, '_graph_state') or self._graph_state.saved_model_dir != saved_model_dir:\n            self._graph_state = self._shared_graph_state_handle.acquire(lambda: self._make_graph_state(saved_model_dir))\n"))
S('m12-log-swap', 'common.py', ("            if not _in_logging_context:\n                with logging_context():\n                    graph = tf.compat.v1.get_default_graph()\n                    collection = graph.get_collection_ref(collection_name)\n                    if not collection:\n                        collection.append(collections.Counter())\n                    collection[0][fn.__name__] += 1\n                    return fn(*args, **kwargs)\n            else:\n                return fn(*args, **kwargs)\n", "            if _in_logging_context:\n                return fn(*args, **kwargs)\n            with logging_context():\n                collection = tf.compat.v1.get_default_graph().get_collection_ref(collection_name)\n                if len(collection) == 0:\n                    collection.append(collections.Counter())\n                counter = collection[0]\n                counter[fn.__name__] += 1\n            return fn(*args, **kwargs)\n"))
S('m12-write-cache-init', 'beam/analyzer_cache.py', ("        if dataset_keys is None:\n            self._sorted_dataset_keys = None\n        else:\n            self._sorted_dataset_keys = sorted(dataset_keys)\n        self._sink = sink\n", "        self._sorted_dataset_keys = sorted(dataset_keys) if dataset_keys else None\n        self._sink = sink\n"))
S('m12-read-cache-init', 'beam/analyzer_cache.py', ("        self._filtered_cache_entry_keys = None if cache_entry_keys is None else set(cache_entry_keys)\n", "        self._filtered_cache_entry_keys = set(cache_entry_keys or ()) or None\n"))
S('m12-count-per-key-flat', U, ("    unique = tf.unique_with_counts(key, out_idx=tf.int64)\n    return (unique.y, unique.count)", "    keys, counts, _ = tf.unique_with_counts(key, out_idx=tf.int64)\n    return (keys, counts)"))
S('m12-sparse-spec-one-pass', SU, ("        spec_size = [s.value if isinstance(s, tf.compat.v1.Dimension) else s for s in spec.size]\n        spec_size = [s if s != -1 else None for s in spec_size]\n        int_domains = [schema_pb2.IntDomain(min=0, max=size - 1) if size is not None else None for size in spec_size]\n        index_feature = [schema_pb2.Feature(name=key, type=schema_pb2.INT, int_domain=int_domain) for key, int_domain in zip(spec.index_key, int_domains)]\n        index_feature_ref = [schema_pb2.SparseFeature.IndexFeature(name=key) for key in spec.index_key]\n", "        index_feature = []\n        index_feature_ref = []\n        for key, size in zip(spec.index_key, spec.size):\n            if isinstance(size, tf.compat.v1.Dimension):\n                size = size.value\n            if size is None or size == -1:\n                int_domain = None\n            else:\n                int_domain = schema_pb2.IntDomain(min=0, max=size)\n            index_feature.append(schema_pb2.Feature(name=key, type=schema_pb2.INT, int_domain=int_domain))\n            index_feature_ref.append(schema_pb2.SparseFeature.IndexFeature(name=key))\n"))
S('m12-sparse-spec-sorted-keys', SU, ("        index_feature_ref = [schema_pb2.SparseFeature.IndexFeature(name=key) for key in spec.index_key]\n", "        index_feature_ref = [schema_pb2.SparseFeature.IndexFeature(name=key) for key in sorted(spec.index_key)]\n"))
S('m12-sparse-spec-unknown-ref', SU, ("        index_feature_ref = [schema_pb2.SparseFeature.IndexFeature(name=key) for key in spec.index_key]\n", "        index_feature_ref = [schema_pb2.SparseFeature.IndexFeature(name=key) for key, size in zip(spec.index_key, spec_size) if size is not None]\n"))
S('m12-parents-placeholder', GT, ("            if tensor_or_op.type == 'Placeholder':\n                if func_graph_name is None:\n                    raise _UnexpectedPlaceholderError(tensor_or_op, func_graph_name)\n                if tensor_or_op not in [x.op for x in self._graph.inputs]:\n                    raise _UnexpectedPlaceholderError(tensor_or_op, func_graph_name)\n", "            if tensor_or_op.type == 'Placeholder' and func_graph_name is None and all((x.op != tensor_or_op for x in self._graph.inputs)):\n                raise _UnexpectedPlaceholderError(tensor_or_op, func_graph_name)\n"))
S('m12-parents-control', GT, ("            parents = list(itertools.chain(tensor_or_op.inputs, tensor_or_op.control_inputs))\n", "            parents = list(tensor_or_op.inputs or tensor_or_op.control_inputs)\n"))
S('m12-global-df-rows', 'experimental/mappers.py', ("    count_docs_with_term = tf.sparse.reduce_sum(term_doc_one_hot, axis=0, keepdims=True)\n", "    count_docs_with_term = tf.sparse.reduce_sum(term_doc_one_hot, axis=-1, keepdims=True)\n"))
S('m12-deep-copy-both', BI, ("            dataset = (deep_copy.deep_copy(data), metadata)\n        transformed_dataset = (dataset, transform_fn) |", "            copied = (deep_copy.deep_copy(data), metadata)\n        transformed_dataset = (dataset, transform_fn) |"))
S('m12-hh-h-params', G, ("    hl = h_params[0, ...]\n    hr = h_params[1, ...]\n    dtype = h_params.dtype\n    l_1 = one", "    hr, hl = h_params[0, ...], h_params[1, ...]\n    dtype = h_params.dtype\n    l_1 = one"))
S('m12-apply-vocab-freq', M, ("    return _apply_vocabulary_internal(x, deferred_vocab_filename_tensor, default_value, num_oov_buckets, lookup_fn, file_format, False, name)", "    return _apply_vocabulary_internal(x, deferred_vocab_filename_tensor, default_value, num_oov_buckets, lookup_fn, file_format, lookup_fn is None, name)"))
S('m12-gauss-elementwise', M, ("        return _scale_to_gaussian_internal(x=x, elementwise=elementwise, output_dtype=output_dtype)", "        return _scale_to_gaussian_internal(x=x, elementwise=elementwise or len(x.shape) > 1, output_dtype=output_dtype)"))
S('m12-scale01-key-sparse', M, ("        return _scale_by_min_max_internal(x, key=key, output_min=0, output_max=1, elementwise=elementwise, key_vocabulary_filename=key_vocabulary_filename)", "        return _scale_by_min_max_internal(x, key=key, output_min=0, output_max=1, elementwise=False, key_vocabulary_filename=key_vocabulary_filename)"))
