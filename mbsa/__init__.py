"""mbsa: a static analyser for multibag-py (stdlib only; reads source, never runs it)."""
