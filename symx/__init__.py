"""symx: proxy-based symbolic execution of the real symfit code, decided by z3."""
