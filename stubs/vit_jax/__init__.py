"""Minimal stand-in for google-research/vision_transformer's vit_jax package.

vit_jax is not installed in this sandbox. Only the names that vmoe imports at
module level exist here; the simulations never run any of these classes.
"""
