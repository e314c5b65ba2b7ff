M = 'mappers.py'
S('m1-gauss-var-denominator', M,
  ("    denominator = tf.where(is_long_tailed, x_scale, tf.sqrt(x_var))\n    cond = tf.not_equal(denominator, 0)",
   "    denominator = tf.where(is_long_tailed, x_scale, tf.sqrt(x_var))\n    cond = tf.not_equal(x_scale, 0)"))
S('m1-sparse-left-align-no-reorder', M,
  ("    transposed_indices = tf.transpose(reordered_tensor.indices)", "    transposed_indices = tf.transpose(sparse_tensor.indices)"))
S('m1-left-align-unordered', M,
  ("    reordered_tensor = tf.sparse.reorder(sparse_tensor)\n", "    reordered_tensor = sparse_tensor\n"))
S('m1-minmax-cast-after-key', M,
  ("    numerator = tf.cast(x_values, min_x_value.dtype) - min_x_value\n    where_cond = min_x_value < max_x_value",
   "    numerator = tf.cast(x_values, min_x_value.dtype) - min_x_value\n    where_cond = min_x_value <= max_x_value"))
S('m1-minmax-per-key-elementwise-swap', M,
  ("(min_x_value, max_x_value), key, key_vocab, x, not elementwise)\n", "(min_x_value, max_x_value), key, key_vocab, x, elementwise)\n"))
S('m1-minmax-constant-raw', M,
  ("tf.math.sigmoid(x_values))\n", "tf.math.sigmoid(numerator))\n"))
S('m1-zscore-sparse-elementwise-dropped', M,
  ("            x_mean = tf.gather_nd(tf.broadcast_to(x_mean, x.dense_shape), x.indices)\n            x_var = tf.gather_nd(tf.broadcast_to(x_var, x.dense_shape), x.indices)",
   "            x_mean = tf.gather_nd(tf.broadcast_to(x_mean, x.dense_shape), x.indices)\n            x_var = tf.gather_nd(tf.broadcast_to(x_mean, x.dense_shape), x.indices)"))
S('m1-zscore-dtype-dropped', M,
  ("        x_mean, x_var = analyzers._mean_and_var(x, reduce_instance_dims=not elementwise, output_dtype=output_dtype)",
   "        x_mean, x_var = analyzers._mean_and_var(x, reduce_instance_dims=not elementwise)"))
S('m1-zscore-key-filename-dropped', M,
  ("        return _scale_to_z_score_internal(x=x, key=key, elementwise=elementwise, key_vocabulary_filename=key_vocabulary_filename, output_dtype=output_dtype)",
   "        return _scale_to_z_score_internal(x=x, key=key, elementwise=elementwise, key_vocabulary_filename=None, output_dtype=output_dtype)"))
S('m1-tfidf-sum-reduced', M,
  ("analyzers.sum(count_docs_with_term_column, reduce_instance_dims=False)", "analyzers.sum(count_docs_with_term_column)"))
S('m1-tfidf-uncleaned', M,
  ("        term_frequencies = _to_term_frequency(cleaned_input, vocab_size)\n", "        term_frequencies = _to_term_frequency(x, vocab_size)\n"))
S('m1-tfidf-size-of-terms', M,
  ("        sizes = tf.expand_dims(tf.shape(input=cleaned_input)[0], 0)\n", "        sizes = tf.expand_dims(tf.shape(input=count_docs_with_term_column)[0], 0)\n"))
S('m1-split-tfidf-shape', M,
  ("    out_shape_second_dim = tf.maximum(tf.reduce_max(input_tensor=dummy_index), -1) + 1\n    out_shape",
   "    out_shape_second_dim = tf.maximum(tf.reduce_max(input_tensor=dummy_index), 0) + 1\n    out_shape"))
S('m1-term-frequency-doc-size', M,
  ("values=tf.ones_like(x.values), dense_shape=x.dense_shape), 1), dtype=tf.float64)",
   "values=x.values, dense_shape=x.dense_shape), 1), dtype=tf.float64)"))
S('m1-apply-range-default', M,
  ("        if num_oov_buckets <= 0:\n            min_value = tf.minimum(min_value, default_value)\n            max_value = tf.maximum(max_value, default_value)\n",
   "        if num_oov_buckets <= 0:\n            min_value = tf.minimum(min_value, default_value)\n"))
S('m1-apply-range-when-oov', M,
  ("        if num_oov_buckets <= 0:\n            min_value = tf.minimum", "        if num_oov_buckets < 0:\n            min_value = tf.minimum"))
S('m1-get-num-buckets-no-plus', M,
  ("get_tensor_schema_override(transformed_feature)[1] + 1, tf.int64)", "get_tensor_schema_override(transformed_feature)[1], tf.int64)"))
S('m1-segment-cumsum-exclusive', M,
  ("tf.concat([[0], tf.cumsum(segment_lengths)], 0)", "tf.concat([[0], tf.cumsum(segment_lengths, exclusive=True)], 0)"))
S('m1-dedup-row-index', M,
  ("            row_values, _ = tf.unique(row)\n        num_unique_values = tf.shape(row_values)[0]",
   "            row_values, _ = tf.unique(row)\n        num_unique_values = tf.shape(row)[0]"))
S('m1-dedup-max-unique', M,
  ("        max_unique = tf.cast(tf.maximum(tf.cast(num_unique_values, tf.int64), max_unique), tf.int64)",
   "        max_unique = tf.cast(num_unique_values, tf.int64)"))
S('m1-ngrams-boundary', M,
  ("tf.tile(tf.expand_dims(tokens.indices[:, 0], 1), [1, ngram_range[1] + 1 - ngram_range[0]])",
   "tf.tile(tf.expand_dims(tokens.indices[:, 0], 1), [1, ngram_range[1] - ngram_range[0]])"))
S('m1-ngrams-fill', M,
  ("ngram_range[1] + 1, tf.constant(-1, dtype=tf.int64))", "ngram_range[1] + 1, tf.constant(0, dtype=tf.int64))"))
S('m1-ngrams-cumprod-dropped', M,
  ("        valid_ngram = tf.equal(tf.math.cumprod(tf.cast(tf.equal(tf.stack(shifted_batch_indices, 1), tf.expand_dims(shifted_batch_indices[0], 1)), dtype=tf.int32), axis=1), 1)\n",
   "        valid_ngram = tf.equal(tf.stack(shifted_batch_indices, 1), tf.expand_dims(shifted_batch_indices[0], 1))\n"))
S('m1-hash-strings-key-dropped', M,
  ("        return compose_result_fn(hash_strings(values, hash_buckets, key))", "        return compose_result_fn(hash_strings(values, hash_buckets))"))
S('m1-bucketize-weights-elementwise', M,
  ("        bucket_boundaries = analyzers.quantiles(x_values, num_buckets, epsilon, weights, reduce_instance_dims=not elementwise)\n        if not elementwise:",
   "        bucket_boundaries = analyzers.quantiles(x_values, num_buckets, epsilon, reduce_instance_dims=not elementwise)\n        if not elementwise:"))
S('m1-bucketize-stack-axis', M,
  ("tf.reshape(tf.stack(bucketized, axis=1), [-1]", "tf.reshape(tf.stack(bucketized, axis=0), [-1]"))
S('m1-bucketize-per-key-weights', M,
  ("num_buckets, epsilon, weights=tf_utils.get_values(weights))", "num_buckets, epsilon, weights=weights)"))
S('m1-buckets-keys-unseen', M,
  ("        bucketized_values = tf.where(key_indices < 0, key_indices, bucketized_values)\n", ""))
S('m1-buckets-keys-adjust', M,
  ("        scale_factors = tf.gather(scale_factor_per_key, adjusted_key_indices)\n        shifts = tf.gather(shift_per_key, adjusted_key_indices)",
   "        scale_factors = tf.gather(scale_factor_per_key, adjusted_key_indices)\n        shifts = tf.gather(shift_per_key, key_indices)"))
S('m1-buckets-keys-override-composed', M,
  ("        schema_inference.set_tensor_schema_override(bucketized_values, min_value, max_bucket)\n        return compose_result_fn(bucketized_values)",
   "        schema_inference.set_tensor_schema_override(corrected_buckets, min_value, max_bucket)\n        return compose_result_fn(bucketized_values)"))
S('m1-interp-nan', M,
  ("        if x_values.dtype.is_floating:\n            imputed_values", "        if return_type == tf.float64:\n            imputed_values"))
S('m1-interp-finite', M,
  ("        if bucket_boundaries.dtype in (tf.float64, tf.float32):", "        if bucket_boundaries.dtype == tf.float64:"))
S('m1-apply-buckets-range', M,
  ("        max_value = tf.shape(input=bucket_boundaries)[1]\n", "        max_value = tf.shape(input=bucket_boundaries)[1] - 1\n"))
S('m1-annotate-flag', M,
  ("    if not common.IS_ANNOTATIONS_PB_AVAILABLE:\n        return\n    from tensorflow_transform import annotations_pb2\n    message_type = annotations_pb2.BucketBoundaries",
   "    if common.IS_ANNOTATIONS_PB_AVAILABLE:\n        return\n    from tensorflow_transform import annotations_pb2\n    message_type = annotations_pb2.BucketBoundaries"))
S('m1-density-width', M,
  ("            bin_width = tf.cast(boundaries[0, -1] - boundaries[0, 0], tf.float32)", "            bin_width = tf.cast(boundaries[0, -1] - boundaries[0, 1], tf.float32)"))
S('m1-density-missing', M,
  ("        return tf.where(bucket_indices < 0, _fill_shape(0, tf.shape(bucket_indices), tf.float32), bucket_densities)",
   "        return bucket_densities"))
S('m1-density-categorical', M,
  ("            bucket_indices = tf_utils.lookup_key(x, boundaries)\n            bucket_densities = probabilities",
   "            bucket_indices = tf_utils.lookup_key(x, boundaries)\n            bucket_densities = counts"))
S('m1-word-count-axes', M,
  ("axis=list(range(1, tokens.get_shape().ndims)))", "axis=1)"))
S('m1-minmax-negated', M,
  ("(-minus_min_max_for_key[:, 0], minus_min_max_for_key[:, 1])", "(minus_min_max_for_key[:, 0], minus_min_max_for_key[:, 1])"))
S('m1-dense-shape', M,
  ("[x.dense_shape[i] if size is None else size for i, size in enumerate(shape)]", "[size or x.dense_shape[0] for i, size in enumerate(shape)]"))
