"""lcx: static-analysis engine for lightcurvelynx (stdlib only; never imports or runs the code)."""
