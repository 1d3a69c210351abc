"""PyVC: a verification-condition generator for the Python subset used by dissect.volume."""
