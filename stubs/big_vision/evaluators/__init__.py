"""Stand-in (see DESIGN.md): evaluators that report what they saw."""
