"""Source-level analyser for QDD (clang AST of the C++ engine, ast of the Python layer)."""
