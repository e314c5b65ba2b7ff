G = 'graph_tools.py'
T2 = 'tf2_utils.py'
H = 'impl_helper.py'
S('m5-analyze-path-kept', G, ("                path.discard(stack.pop())\n", "                stack.pop()\n"))
S('m5-analyze-parents-any', G, ("            if all((parent in self._memoized_analyze_tensor_result for parent in parents)):", "            if any((parent in self._memoized_analyze_tensor_result for parent in parents)) or not parents:"))
S('m5-ready-any-component', G, ("return all((self.analyze_tensor(component).is_ready_to_run for", "return any((self.analyze_tensor(component).is_ready_to_run for"))
S('m5-func-first-graph', G, ("        for func_graph in func_graphs:\n            if not hasattr(func_graph, 'inputs'):", "        for func_graph in func_graphs[:1]:\n            if not hasattr(func_graph, 'inputs'):"))
S('m5-func-opaque-path', G, ("path=self._translate_path_fn(uuid.uuid4().hex)", "path=self._translate_path_fn('opaque')"))
S('m5-func-ready', G, ("_SourceInfo(ready, 'FuncGraphInput[{}]'.format(idx))", "_SourceInfo(True, 'FuncGraphInput[{}]'.format(idx))"))
S('m5-func-input-index', G, ("'FuncGraphInput[{}]'.format(idx)", "'FuncGraphInput'"))
S('m5-func-captures', G, ("if len(tensor_or_op.inputs) == len(func_graph.inputs):", "if len(tensor_or_op.inputs) >= len(func_graph.inputs):"))
S('m5-func-sources-union', G, ("for s in analysis.dependent_sources if s in tensor_map}", "for s in tensor_map}"))
S('m5-init-order', G, ("""            for key in table_input_ops:
                complete_source_info_dict[tf_utils.hashable_tensor_or_op(key)] = source_info
            if source_info.is_ready_to_run:
                self""", """            if source_info.is_ready_to_run:
                for key in table_input_ops:
                    complete_source_info_dict[tf_utils.hashable_tensor_or_op(key)] = source_info
                self"""))
S('m5-init-analyzer-input', G, ("self._get_table_init_op_source_info(table_init_op, graph_analyzer_for_table_init, translate_path_fn)", "self._get_table_init_op_source_info(table_init_op, _GraphAnalyzer(complete_source_info_dict, translate_path_fn, graph), translate_path_fn)"))
S('m5-init-none-break', G, ("            if table_init_op_or_tensor is None:\n                continue", "            if table_init_op_or_tensor is None:\n                break"))
S('m5-source-component-name', G, ("'{}$composite_tensor_{}'.format(name, idx)", "'{}$composite_tensor'.format(name)"))
S('m5-source-ready', G, ("result[tf_utils.hashable_tensor_or_op(component)] = _SourceInfo(is_ready, None)", "result[tf_utils.hashable_tensor_or_op(component)] = _SourceInfo(True, None)"))
S('m5-sources-stop', G, ("            potential_extra_sources.update(op.outputs)\n", "            potential_extra_sources.update(op.outputs)\n            continue\n"))
S('m5-sources-control', G, ("        if not ignore_control_dependencies:\n            input_ops = itertools.chain(", "        if ignore_control_dependencies:\n            input_ops = itertools.chain("))
S('m5-dependents-last', G, ("        dependent_inputs.update(graph_analyzer.get_dependent_inputs(output_tensor))", "        dependent_inputs = graph_analyzer.get_dependent_inputs(output_tensor)"))
S('m5-dependents-sinks-ready', G, ("sink_tensors_ready = [(sink.tensor, False) for sink in tensor_sinks]", "sink_tensors_ready = [(sink.tensor, True) for sink in tensor_sinks]"))
S('m5-dependents-all-components', G, ("if any((tf_utils.hashable_tensor_or_op(component) in dependents for component", "if all((tf_utils.hashable_tensor_or_op(component) in dependents for component"))
S('m5-fingerprint-shared-visitor', G, ("    for tensor_sink in tensor_sinks:\n        visitor = SourcedTensorsVisitor()\n", "    visitor = SourcedTensorsVisitor()\n    for tensor_sink in tensor_sinks:\n"))
S('m5-fingerprint-paths-shared', G, ("        paths = set()\n        for tensor in visitor", "        for tensor in visitor"), ("    result = {}\n    tensor_sinks = graph.get_collection(analyzer_nodes.ALL_REPLACEMENTS)\n", "    result = {}\n    paths = set()\n    tensor_sinks = graph.get_collection(analyzer_nodes.ALL_REPLACEMENTS)\n"))
S('m5-hash-none-parents', G, ("    if any((p is None for p in parents)):\n        return None\n    if isinstance(x, tf.Operation):\n        values = [x.node", "    parents = [p for p in parents if p is not None]\n    if isinstance(x, tf.Operation):\n        values = [x.node"))
S('m5-hash-attrs', G, ("values = [x.node_def.op] + _serialize_op_attr(x.node_def.attr)", "values = [x.node_def.op]"))
S('m5-hash-tensor-index', G, ("values = [tf.compat.as_str_any(x.value_index)]", "values = []"))
S('m5-hash-parents-set', G, ("    for p in parents:\n        h.update(p)\n    return h.digest()", "    for p in set(parents):\n        h.update(p)\n    return h.digest()"))
S('m5-expand-sparse', 'saved/saved_transform_io.py', ("result[tensor_info.coo_sparse.dense_shape_tensor_name] = replacement.dense_shape", "result[tensor_info.coo_sparse.dense_shape_tensor_name] = replacement.get_shape()"))
S('m5-expand-composite', 'saved/saved_transform_io.py', ("tf.nest.flatten(replacement, expand_composites=True)\n            for info", "tf.nest.flatten(replacement)\n            for info"))
S('m5-visit-count', 'nodes.py', ("len(output_values) != len(outputs):", "len(output_values) < len(outputs):"))
S('m5-visit-validate', 'nodes.py', ("            self._visitor.validate_value(value)\n            self._cached", "            self._cached"))
S('m5-loader-pack', 'saved/saved_transform_io_v2.py', ("func_graph.structured_outputs, func_graph.outputs, expand_composites=True)", "func_graph.structured_outputs, func_graph.outputs)"))
S('m5-loader-addons-first', 'saved/saved_transform_io_v2.py', ("        saved_transform_io._maybe_register_addon_ops()\n", ""))
S('m5-finalized-check', 'saved/saved_transform_io_v2.py', ("        assert sorted(unfed_input_keys) == self._sorted_unfed_input_keys\n", "        assert len(unfed_input_keys) == len(self._sorted_unfed_input_keys)\n"))
S('m5-missing-keys-none', T2, ("missing_keys = missing_keys or list(structured_inputs)", "missing_keys = list(structured_inputs) if missing_keys is None else missing_keys"))
S('m5-missing-row', T2, ("[tf.range(actual_batch_size, dtype=tf.int64)] + [tf.zeros(actual_batch_size, dtype=tf.int64)] * (dense_rank - 1)", "[tf.zeros(actual_batch_size, dtype=tf.int64)] * (dense_rank - 1) + [tf.range(actual_batch_size, dtype=tf.int64)]"))
S('m5-missing-shape', T2, ("[actual_batch_size] + [1] * (dense_rank - 1)", "[1] + [1] * (dense_rank - 1)"))
S('m5-missing-ragged-order', T2, ("        elif isinstance(tensor, tf.RaggedTensor):\n            ragged_rank = tensor.ragged_rank", "        elif isinstance(tensor, tf.RaggedTensor) and tensor.ragged_rank == 1:\n            ragged_rank = tensor.ragged_rank"))
S('m5-missing-splits', T2, ("result[key] = tf.RaggedTensor.from_row_splits(result[key], row_splits, validate=False)", "result[key] = tf.RaggedTensor.from_row_splits(values.values, row_splits, validate=False)"))
S('m5-missing-inner', T2, ("result_shape = result_shape + [1]", "result_shape = result_shape + [0]"))
S('m5-missing-batch', T2, ("[input_shape[0] or batch_size]", "[batch_size or input_shape[0]]"))
S('m5-state-per-dir', 'beam/impl.py', ("        assert self._graph_state.saved_model_dir == saved_model_dir\n", ""))
S('m5-write-validate', H, ("""    _validate_analyzers_fingerprint(baseline_analyzers_fingerprint, concrete_transform_fn.graph, structured_inputs)
    if not""", """    if not"""))
S('m5-write-metadata-always', H, ("if not concrete_transform_fn.graph.get_collection(analyzer_nodes.TENSOR_REPLACEMENTS):\n        metadata = _trace", "if concrete_transform_fn.graph.get_collection(analyzer_nodes.TENSOR_REPLACEMENTS):\n        metadata = _trace"))
S('m5-instance-shape-late', H, ("lambda x, s=spec.shape: np.reshape(x, s)", "lambda x: np.reshape(x, spec.shape)"))
S('m5-instance-scalar', H, ("            if spec.shape:\n                dense_reshape_fns[name] = lambda", "            if spec.shape is not None:\n                dense_reshape_fns[name] = lambda"))
