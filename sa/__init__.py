"""Static analyser for pylogics_modalities (abstract interpretation of the source)."""
