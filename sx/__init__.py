"""sx: a small symbolic executor for the real Python sources under /repo (z3 decides every branch)."""
