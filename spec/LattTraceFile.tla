---------------------------- MODULE LattTraceFile ----------------------------
(* the recorded traces, one JSON object per line (read once)                 *)
EXTENDS LattGeom, Json, IOUtils
TraceFile == ndJsonDeserialize(IOEnv.TRACE)
=============================================================================
