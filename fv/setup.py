"""Nothing to build ahead of time: check that the tools the checks use are there."""
import shutil, sys
import z3
missing = [t for t in ("clang++-18", "opt-18", "llvm-link-18", "cvc5") if not shutil.which(t)]
print("z3", z3.get_version_string(), "missing:", missing)
sys.exit(1 if [m for m in missing if m in ("clang++-18", "opt-18")] else 0)
