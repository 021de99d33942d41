"""vx: a small symbolic executor for the real PostBOUND code (see /verif/DESIGN.md)."""
