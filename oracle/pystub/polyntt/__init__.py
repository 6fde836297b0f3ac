"""Stand-in for the external package polyntt (not installed here): the ring Z_q[X]/(X^n + 1), q = 12289."""
