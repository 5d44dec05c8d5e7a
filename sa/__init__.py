"""Repository-specific static analyser for synced_collections."""
