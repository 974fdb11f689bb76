"""tpsa - static analyser for trusspy (value-graph dataflow over the syntax tree)."""
