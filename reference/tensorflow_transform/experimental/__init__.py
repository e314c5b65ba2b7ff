# Copyright 2021 Google Inc. All Rights Reserved.
#
# Licensed under the Apache License, Version 2.0 (the "License");
# you may not use this file except in compliance with the License.
# You may obtain a copy of the License at
#
#     http://www.apache.org/licenses/LICENSE-2.0
#
# Unless required by applicable law or agreed to in writing, software
# distributed under the License is distributed on an "AS IS" BASIS,
# WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
# See the License for the specific language governing permissions and
# limitations under the License.
"""Module level imports for tensorflow_transform.experimental."""

from tensorflow_transform.experimental.analyzers import *
from tensorflow_transform.experimental.annotators import *
from tensorflow_transform.experimental.mappers import *

__all__ = [
    "annotate_sparse_output_shape",
    "annotate_true_sparse_output",
    "approximate_vocabulary",
    "CacheablePTransformAnalyzer",
    "compute_and_apply_approximate_vocabulary",
    "document_frequency",
    "get_vocabulary_size_by_name",
    "idf",
    "PTransformAnalyzerCacheCoder",
    "ptransform_analyzer",
    "SimpleJsonPTransformAnalyzerCacheCoder",
]
