"""symtb - a solver-backed symbolic executor for the real source of /repo/timeboard."""
