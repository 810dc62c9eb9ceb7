"""Runtime-monitoring harness for hrosailing (see DESIGN.md)."""
from .core import Check, StepBudgetExceeded, Violation, main, rmtree_scratch  # noqa: F401
