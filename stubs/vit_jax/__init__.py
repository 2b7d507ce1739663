"""Minimal stand-in for the public vit_jax package (not installed here): just the modules vmoe imports."""
