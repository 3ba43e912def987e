"""PyVC: verification-condition generation for a subset of Python, from source."""
