---- MODULE FstEditMC ----
EXTENDS FstEdit
MCNames == { <<97>>, <<65>>, <<98>> }
====
