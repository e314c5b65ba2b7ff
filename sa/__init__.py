"""Repository-specific static analysis engine for tensorflow/transform."""
