"""Abstract interpreter for the urlstd package (pure source analysis)."""
