"""Static analyses for scikit-mine (no code of the analysed tree is imported or run)."""
