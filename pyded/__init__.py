"""pyded: a small contract-based deductive verifier for the Python/numpy subset used by oranssi."""
