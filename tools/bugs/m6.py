T = 'tf_utils.py'
A = 'analyzers.py'
S('m6-counts-weights-unfiltered', T, ("weights = filter_fn(tf.reshape(weights, [-1]))\n    unique_x_values, unique_idx, _ =", "weights = tf.reshape(weights, [-1])\n    unique_x_values, unique_idx, _ ="))
S('m6-counts-force-nounique', T, ("return ReducedBatchWeightedCounts(unique, None, None, counts)", "return ReducedBatchWeightedCounts(flat_x, None, None, counts)"))
S('m6-counts-segments', T, ("tf.math.unsorted_segment_sum(weights, unique_idx, tf.size(input=unique_x_values))\n    return", "tf.math.segment_sum(weights, unique_idx)\n    return"))
S('m6-cooc-sparse-first', T, ("result['summed_positive_per_x_and_y'] = tf.reduce_sum(result['summed_positive_per_x_and_y'], axis=0)", "result['summed_positive_per_x_and_y'] = result['summed_positive_per_x_and_y'][0]"))
S('m6-cooc-sentinel', T, ("reduced_batch = extend_reduced_batch_with_y_counts(reduced_batch, y_input, weights_input)", "reduced_batch = extend_reduced_batch_with_y_counts(reduced_batch, y_input, None)"))
S('m6-reorder-pad-front', T, ("tf.pad(counts, [[0, boundary_size - tf.size(counts)]])", "tf.pad(counts, [[boundary_size - tf.size(counts), 0]])"))
S('m6-reorder-diff-swap', T, ("tf.sets.difference([tf.range(boundary_size)], [bucket_vocab])", "tf.sets.difference([bucket_vocab], [tf.range(boundary_size)])"))
S('m6-assign-cast-other', T, ("        if flat_x.dtype.max > flat_boundaries.dtype.max:", "        if flat_x.dtype.max < flat_boundaries.dtype.max:"))
S('m6-assign-drop-right', T, ("        if side == Side.LEFT:\n            flat_boundaries = flat_boundaries[:-1]", "        if side == Side.RIGHT:\n            flat_boundaries = flat_boundaries[:-1]"))
S('m6-assign-drop-first', T, ("flat_boundaries = flat_boundaries[:-1]", "flat_boundaries = flat_boundaries[1:]"))
S('m6-assign-int32', T, ("        return tf.reshape(buckets, tf.shape(x))\n", "        return tf.reshape(buckets, tf.shape(flat_x))\n"))
S('m6-perkey-index', T, ("key_dtype=tf.string, key_index=1, value_dtype=tf.string, value_index=0, delimiter=' ')", "key_dtype=tf.string, key_index=0, value_dtype=tf.string, value_index=1, delimiter=' ')"))
S('m6-perkey-dense-default', T, ("number_strings = tf.where(tf.strings.length(dense_result) > 0, dense_result,", "number_strings = tf.where(tf.strings.length(dense_result) > 1, dense_result,"))
S('m6-perkey-ndims', T, ("_align_dims(numbers, target_ndims + 1)", "_align_dims(numbers, target_ndims)"))
S('m6-lmom-triplets', T, ("has_triplets = tf.math.greater(num_samples, 2)", "has_triplets = tf.math.greater_equal(num_samples, 2)"))
S('m6-lmom-quads', T, ("current_quadruplets = tf.cast(current_triplets * (current_samples - 3.0) / 4.0", "current_quadruplets = tf.cast(current_triplets * (current_samples - 3.0) / 3.0"))
S('m6-lmom-range', T, ("term_up_delay_2 = tf.range(-2, current_samples - 2, 1", "term_up_delay_2 = tf.range(-1, current_samples - 1, 1"))
S('m6-lookup-min', T, ("result = tf.math.reduce_max(expand_result, axis=0)", "result = tf.math.reduce_max(expand_result, axis=-1)"))
S('m6-lookup-missing', T, ("expand_indices, tf.cast(tf.fill(matrix_shape, -1), tf.int64))", "expand_indices, tf.cast(tf.fill(matrix_shape, 0), tf.int64))"))
S('m6-lookup-emptyvocab', T, ("tf.cond(tf.math.equal(tf.size(key_vocab), 0), lambda: tf.cast(tf.fill(tf.shape(query), -1), tf.int64)", "tf.cond(tf.math.equal(tf.size(key_vocab), 0), lambda: tf.zeros_like(query, tf.int64)"))
S('m6-mm-int16', T, ("if x.dtype in (tf.uint8, tf.uint16, tf.int16):", "if x.dtype in (tf.uint8, tf.int16):"))
S('m6-mm-ragged-missing', T, ("(x_batch_minus_min.to_tensor(default_value=missing_value), x_batch_max", "(x_batch_minus_min.to_tensor(default_value=-missing_value), x_batch_max"))
S('m6-mmpk-u16', T, ("    if x.dtype == tf.uint8 or x.dtype == tf.uint16:\n        x = tf.cast(x, tf.int32)\n    elif x.dtype == tf.uint32 or x.dtype == tf.uint64:\n        raise TypeError('Tensor type %r is not supported' % x.dtype)\n    if not reduce_instance_dims and", "    if not reduce_instance_dims and"))
S('m6-mmpk-ndims', T, ("tensor.get_shape().ndims < 2:", "tensor.get_shape().ndims <= 2:"))
S('m6-mmpk-count', T, ("unsorted_segment_max(row_maxes, key_uniques.idx, tf.size(input=key_uniques.y))", "unsorted_segment_max(row_maxes, key_uniques.idx, tf.size(input=row_maxes))"))
S('m6-wmv-noswap', A, ("        if np.sum(a.count) < np.sum(b.count):\n            a, b = (b, a)\n        if np.sum(a.count) == 0:\n            return b\n", "        if np.sum(a.count) == 0:\n            return b\n"))
S('m6-wmv-return-a', A, ("        if np.sum(a.count) == 0:\n            return b\n        a_count, b_count", "        if np.sum(b.count) == 0:\n            return a\n        if np.sum(a.count) <= 1:\n            return b\n        a_count, b_count"))
S('m6-wmv-weight-pad', A, ("a_weight, b_weight = _pad_arrays_to_match(a.weight, b.weight)", "a_weight, b_weight = _pad_arrays_to_match(a.count, b.count)"))
S('m6-wmv-variance', A, ("(b_variance - a_variance + (b_mean - combined_mean) * (b_mean - a_mean))", "(b_variance - a_variance + (b_mean - combined_mean) * (b_mean - combined_mean))"))
S('m6-lm-nan', A, ("        a = _LMomentsAccumulator.make_nan_to_num(*a)\n        b = _LMomentsAccumulator.make_nan_to_num(*b)\n", "        b = _LMomentsAccumulator.make_nan_to_num(*b)\n"))
S('m6-lm-l3', A, ("np.true_divide(b_count_l3, combined_count_l3, where=combined_count_l3 > 0", "np.true_divide(b_count_l3, combined_count_l3, where=combined_count_l2 > 0"))
S('m6-lm-l4base', A, ("combined_l4 = a_l4 + np.true_divide(b_count_l4", "combined_l4 = a_l4 + np.true_divide(a_count_l4"))
S('m6-lm-merge-first', A, ("        accumulators = iter(accumulators)\n        result = next(accumulators)\n        for accumulator in accumulators:\n            result = self._combine_accumulators(result, accumulator)\n        return result\n    def extract_output(self, accumulator):\n        valid_scale", "        accumulators = list(accumulators)\n        result = accumulators[0]\n        for accumulator in accumulators:\n            result = self._combine_accumulators(result, accumulator)\n        return result\n    def extract_output(self, accumulator):\n        valid_scale"))
S('m6-lm-valid', A, ("l_skewness = np.true_divide(accumulator.l3, accumulator.l2, where=valid_kurtosis", "l_skewness = np.true_divide(accumulator.l3, accumulator.l2, where=valid_scale"))
S('m6-lm-loc', A, ("loc = accumulator.l1 - scale * hh_l_mean", "loc = accumulator.l1 - hh_l_mean"))
S('m6-pad-b', A, ("        if delta > 0:\n            b_pad = (0, abs(delta))", "        if delta > 0:\n            b_pad = (abs(delta), 0)"))
S('m6-cov-count', A, ("batch_count = np.shape(batch_value)[0]", "batch_count = np.shape(batch_value)[-1]"))
S('m6-cov-merge-axis', A, ("return [np.sum(products, axis=0), np.sum(vectors, axis=0), np.sum(counts, axis=0)]", "return [np.sum(products, axis=0), np.sum(vectors), np.sum(counts, axis=0)]"))
S('m6-pca-eig', A, ("vals, vecs = np.linalg.eigh(cov)\n        sorted_vecs = vecs[:, np.argsort(vals)[::-1]]", "vals, vecs = np.linalg.eigh(cov)\n        sorted_vecs = vecs[:, np.argsort(vals)]"))
S('m6-pca-rows', A, ("sorted_vecs[:, :self._output_dim]", "sorted_vecs[:self._output_dim, :]"))
S('m6-pca-outputdim', A, ("M=self._output_dim, dtype", "M=self._output_shape[0], dtype"))
S('m6-qpk-shape', A, ("output_shape=(num_buckets - 1,))\n        input_values_node = analyzer_nodes.get_input_tensors_value_nodes((key, x)", "output_shape=(num_buckets,))\n        input_values_node = analyzer_nodes.get_input_tensors_value_nodes((key, x)"))
S('m6-qpk-weights', A, ("(key, x) if weights is None else (key, x, weights))", "(key, x))"))
S('m6-mvpk-swap', A, ("    key, key_mean, key_var = _apply_cacheable_combiner_per_key(combiner, key_vocab, *combine_inputs)", "    key, key_var, key_mean = _apply_cacheable_combiner_per_key(combiner, key_vocab, *combine_inputs)"))
S('m6-mvpk-castlate', A, ("        x = tf.cast(x, output_dtype)\n        key_vocab, key_counts, key_means, key_variances = tf_utils.reduce_batch_count_mean_and_var_per_key(x, key, reduce_instance_dims=reduce_instance_dims)", "        key_vocab, key_counts, key_means, key_variances = tf_utils.reduce_batch_count_mean_and_var_per_key(x, key, reduce_instance_dims=reduce_instance_dims)"))
S('m6-cpk-dtype', A, ("        if key_dtype is not tf.string:\n            keys = tf.strings.to_number(keys, key_dtype)\n", ""))
S('m6-mm-default-int', A, ("else -output_dtype.max\n        x_batch_minus_min, x_batch_max = tf_utils.reduce_batch_minus_min_and_max(", "else 0\n        x_batch_minus_min, x_batch_max = tf_utils.reduce_batch_minus_min_and_max("))
S('m6-mm-nan', A, ("        if not reduce_instance_dims and isinstance(x, tf.SparseTensor) and x.dtype.is_floating:\n            combine_fn = np.nanmax", "        if not reduce_instance_dims and isinstance(x, tf.SparseTensor) and x.dtype.is_floating:\n            combine_fn = np.max"))
S('m6-sum-ragged', A, ("            x = tf.sparse.reduce_sum(x, axis=0)\n", "            x = tf.sparse.reduce_sum(x, axis=-1)\n"))
S('m6-vi-weights', A, ("        reduced_batch = tf_utils.reduce_batch_weighted_counts(x, weights, filter_regex=filter_regex)\n", "        reduced_batch = tf_utils.reduce_batch_weighted_counts(x, weights)\n"))
S('m6-vi-mi-weights', A, ("        return [reduced_batch.unique_x, reduced_batch.summed_positive_per_x_and_y, reduced_batch.counts_per_x]", "        return [reduced_batch.unique_x, reduced_batch.summed_positive_per_x_and_y, reduced_batch.summed_weights_per_x]"))
S('m6-filename-strip', A, ("filename = re.sub('[^\\\\w\\\\s-]', '_', filename).strip()\n", "filename = re.sub('[^\\\\w\\\\s]', '_', filename).strip()\n"))
S('m6-filename-scope', A, ("filename = prefix + tf.compat.v1.get_default_graph().get_name_scope()", "filename = prefix"))
