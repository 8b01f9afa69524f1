----------------------------- MODULE MCService -----------------------------
EXTENDS OracleService, IOUtils
MaxLen == atoi(IOEnv.MBT_MAXLEN)
Bounded == Len(path) <= MaxLen
Spec == Init /\ [][Next]_vars /\ Fair
=============================================================================
