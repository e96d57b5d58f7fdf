----------------------------- MODULE Limits5424 -----------------------------
(* Field length limits of RFC 5424 (255, 48, 128, 32, 32 in the real parser;*)
(* smaller in design checks).                                               *)
CONSTANTS MaxHost, MaxApp, MaxProc, MaxMsgid, MaxName
=============================================================================
