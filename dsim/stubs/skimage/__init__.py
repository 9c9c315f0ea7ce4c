"""Stand-in for scikit-image."""
