A = 'saved/saved_transform_io.py'
B = 'saved/saved_transform_io_v2.py'
C = 'schema_inference.py'
S('m2-legacy-values-dtype', A, ("                new_tensor_info.dtype = original_tensor_info.dtype\n", ""))
S('m2-legacy-keep', A, ("            del tensor_info_map[original_name]\n", ""))
S('m2-legacy-swap', A, ("            if original_tensor_type == 'indices':", "            if original_tensor_type == 'values':"),
  ("            elif original_tensor_type == 'values':", "            elif original_tensor_type == 'indices':"))
S('m2-legacy-inputs-only', A, ("    for tensor_info_map in [signature.inputs, signature.outputs]:", "    for tensor_info_map in [signature.inputs]:"))
S('m2-replacement-order', A,
  ("""    input_map.update(asset_tensor_dict)
    if tensor_replacement_map:
        input_map.update(tensor_replacement_map)
""", """    if tensor_replacement_map:
        input_map.update(tensor_replacement_map)
    input_map.update(asset_tensor_dict)
"""))
S('m2-pyfuncs-after-import', A,
  ("    _ = pyfunc_helper.register_pyfuncs_from_saved_transform(graph, meta_graph_def, loaded_in_tf2=False)\n", ""),
  ("    graph.clear_collection(tf.saved_model.ASSETS_KEY)\n", "    _ = pyfunc_helper.register_pyfuncs_from_saved_transform(graph, meta_graph_def, loaded_in_tf2=False)\n    graph.clear_collection(tf.saved_model.ASSETS_KEY)\n"))
S('m2-scope-prefix', A, ("            if not var_name.startswith(scope + '/'):", "            if not var_name.startswith(scope):"))
S('m2-partition-append', A,
  ("""                while not partition_index < len(var_map[base_name]):
                    var_map[base_name].append(None)
                assert var_map[base_name][partition_index] is None
                var_map[base_name][partition_index] = var
""", """                var_map[base_name].append(var)
"""))
S('m2-unbound-all', A, ("for logical_name, tensor_info in input_signature.items() if logical_name not in logical_input_map}", "for logical_name, tensor_info in input_signature.items()}"))
S('m2-remap-skipped', A,
  ("            components = [lookup_remapped_tensor(info.name) for info in tensor_info.composite_tensor.components]",
   "            components = [graph.get_tensor_by_name(ops.prepend_name_scope(info.name, scope)) for info in tensor_info.composite_tensor.components]"))
S('m2-assets-current-lost', A,
  ("""    for asset_path_tensor in current_assets:
        graph.add_to_collection(tf.compat.v1.GraphKeys.ASSET_FILEPATHS, asset_path_tensor)
    for asset""", "    for asset"))
S('m2-assets-current-late', A,
  ("    current_assets = graph.get_collection(tf.compat.v1.GraphKeys.ASSET_FILEPATHS)\n", ""),
  ("    graph.clear_collection(tf.saved_model.ASSETS_KEY)\n", "    current_assets = graph.get_collection(tf.compat.v1.GraphKeys.ASSET_FILEPATHS)\n    graph.clear_collection(tf.saved_model.ASSETS_KEY)\n"))
S('m2-assets-collection-dropped', A, (", assets_collection=tf.compat.v1.get_collection(tf.compat.v1.GraphKeys.ASSET_FILEPATHS))", ")"))
S('m2-sources-control', B, ("graph_tools.retrieve_sources(sinks, ignore_control_dependencies=True)", "graph_tools.retrieve_sources(sinks)"))
S('m2-feeds-first-component', B,
  ("            result = result.difference(unfed_input_components)\n", "            result = result.difference(unfed_input_components[:1])\n"))
S('m2-fetch-captures', B,
  ("            if not extra_sources.difference(self._func_graph.internal_captures):\n", "            if not extra_sources:\n"))
S('m2-fetch-all', B,
  ("        fetches_keys = self._get_fetches_keys(feeds)\n        return {key: transformed_features[key] for key in fetches_keys}",
   "        return dict(transformed_features)"))
S('m2-batch-size-one', B,
  ("                elif tf.shape(an_input)[0] is not None:\n                    batch_size = tf.shape(an_input)[0]\n", ""))
S('m2-finalize-order', B,
  ("sorted(output_tensor_keys))\n        self._is_finalized", "self._structured_outputs)\n        self._is_finalized"))
S('m2-finalize-unsorted', B,
  ("        self._sorted_unfed_input_keys = sorted(self._get_unfed_input_keys(input_tensor_keys))", "        self._sorted_unfed_input_keys = list(self._get_unfed_input_keys(input_tensor_keys))"))
S('m2-finalized-copy', B,
  ("            inputs_copy = tf_utils.copy_tensors(inputs)\n", "            inputs_copy = dict(inputs)\n"))
S('m2-v1-shape-lost', B,
  ("""        for name, output in fetches.items():
            if hasattr(result[name], 'set_shape'):
                result[name].set_shape(output.shape)
""", ""))
S('m2-v1-feeds-order', B, ("            pruned_input_args.append(input_map[name])", "            pruned_input_args.insert(0, input_map[name])"))
S('m2-initializers-all', B, ("        if isinstance(resource, lookup_ops.InitializableLookupTableBase):\n            initializers.append(resource._initializer)",
  "        if hasattr(resource, '_create_resource'):\n            initializers.append(resource._initializer)"))
S('m2-object-tracker-scope', B, ("tracking.resource_tracker_scope(resource_tracker), annotators.object_tracker_scope(object_tracker), tf.variable", "tracking.resource_tracker_scope(resource_tracker), tf.variable"))
S('m2-optimize-shapes', B, ("        pruned_out.set_shape(original_out.get_shape())\n    return result", "        original_out.set_shape(pruned_out.get_shape())\n    return result"))
S('m2-save-strip', B, ("trace_and_update_module(module, tf_function, name, strip_control_dependencies=False)", "trace_and_update_module(module, tf_function, name, strip_control_dependencies=True)"))
S('m2-ragged-partition-counter', C, ("            row_lengths_partition_idx += 1\n", ""))
S('m2-ragged-zero-dim', C, ("        if dim or dim == 0:", "        if dim:"))
S('m2-forced-sparse', C, ("            if shape.ndims > 2 or name in forced_sparse_keys:", "            if shape.ndims > 2 and name in forced_sparse_keys:"))
S('m2-sparse-size-batch', C, ("size=shape[1:], already_sorted=True)", "size=shape, already_sorted=True)"))
S('m2-infer-raw-tensor', C, ("(values := _get_tensor_values(tensor)))\n        if", "(values := tensor))\n        if"))
S('m2-infer-complete', C, ("is_evaluation_complete=session is not None)", "is_evaluation_complete=True)"))
S('m2-annotations-missing', C, ("        feature_annotations[name] = tensor_annotations.get(hashable_values, [])", "        feature_annotations[name] = tensor_annotations.get(name, [])"))
S('m2-min-max-swapped', C, ("            min_value, max_value = tensor_ranges[name]", "            max_value, min_value = tensor_ranges[name]"))
S('m2-override-all', C, ("size=tf.TensorShape(annotations), already_sorted=feature.already_sorted)", "size=tf.TensorShape(annotations), already_sorted=False)"))
S('m2-sparse-index-kept', C, ("""        for index_feature in sparse_feature.index_feature:
            feature_protos_by_name.pop(index_feature.name)
""", ""))
S('m2-annotations-shared', C, ("        feature_proto = feature_protos_by_name[feature_name]\n        for annotation in annotations:\n            feature_proto.annotation",
                                 "        feature_proto = schema_proto.feature[0]\n        for annotation in annotations:\n            feature_proto.annotation"))
S('m2-ranges-v2-unpaired', C, ("for tensor, min_value, max_value in zip(tensors, min_values, max_values)}", "for tensor, min_value, max_value in zip(tensors, max_values, min_values)}"))
S('m2-overrides-default', C, ("            if tensor.dtype == tf.string and tensor_name.startswith(default_tensor_name):", "            if tensor.dtype == tf.string:"))
S('m2-overrides-skip-moved', C, ("""            else:
                continue
        assert len(overrides_keys) == len(overrides_tuple)
        for overrides_key, override in zip(overrides_keys, overrides_tuple):
            result[overrides_key].append(override)
""", """        for overrides_key, override in zip(overrides_keys, overrides_tuple):
            result[overrides_key].append(override)
"""))
S('m2-global-annotation', C, ("            global_annotations.append(annotation)\n        else:\n            tensor_annotations[tensor_annotation_key].append(annotation)",
                                "            global_annotations.append(annotation)\n        tensor_annotations[tensor_annotation_key].append(annotation)"))
S('m2-sparse-annotated-first', C, ("if a.ref() not in annotated_refs), sparse_output_annotations))", "), sparse_output_annotations))"))
S('m2-sparse-tensor-indices', C, ("add_to_collection(_ANNOTATED_SPARSE_SHAPE_TENSORS, tensor.values)", "add_to_collection(_ANNOTATED_SPARSE_SHAPE_TENSORS, tensor.indices)"))
S('m2-metadata-context', C, ("        with tf_graph_context:\n            transformed_features = preprocessing_fn(inputs)\n", "        transformed_features = preprocessing_fn(inputs)\n"))
S('m2-coll-wrong', C, ("    tf.compat.v1.add_to_collection(_TF_METADATA_TENSOR_MAX_COLLECTION, max_value)", "    tf.compat.v1.add_to_collection(_TF_METADATA_TENSOR_MAX_COLLECTION, min_value)"))
