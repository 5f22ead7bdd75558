"""Runtime-monitoring harness for jonnymaserati/welleng."""
