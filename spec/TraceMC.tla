------------------------------ MODULE TraceMC ------------------------------
EXTENDS TraceSpec
=============================================================================
