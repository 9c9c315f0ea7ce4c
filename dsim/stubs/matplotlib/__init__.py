"""Stand-in for matplotlib (path only)."""
