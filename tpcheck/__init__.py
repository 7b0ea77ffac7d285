"""Static analysis of teleprox: an abstract interpreter over its source and the rules that decide its properties."""
