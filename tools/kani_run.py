"""Kani harnesses on the real crate (crate /verif/kani, path dependency on /repo)."""
TRUSTED = ["Kani and CBMC"]
def run(harnesses, repo): raise NotImplementedError
