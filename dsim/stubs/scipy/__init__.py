"""Stand-in for scipy (not installed here)."""
