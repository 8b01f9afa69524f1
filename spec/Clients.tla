------------------------------ MODULE Clients ------------------------------
(***************************************************************************)
(* What the client libraries produce: addresses, account lists and the     *)
(* wire format of every instruction, as functions of the arguments.        *)
(*                                                                         *)
(* An address is a term: a name, or program(seeds) for the address derived *)
(* from seeds under a program; 'text' is a literal seed, #n a byte.        *)
(* Byte strings are strings of hexadecimal digits.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

Digit == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
Byte(n) == Digit[((n \div 16) % 16) + 1] \o Digit[(n % 16) + 1]
Le32(n) == Byte(n) \o Byte(n \div 256) \o Byte(n \div 65536) \o Byte(n \div 16777216)
Tag(n)  == Byte(n) \o "00000000000000"
Bool(b) == IF b THEN "01" ELSE "00"
Bytes(h) == Le32(Len(h) \div 2) \o h

\* ------------------------------------------------------------ addresses
Vrf(s) == "vrf(" \o s \o ")"
Dlp(s) == "dlp(" \o s \o ")"
Identity      == Vrf("'identity'")
Registry      == Vrf("'oracles'")
OracleData(k) == Vrf("'oracle'," \o k)
Queue(k, i)   == Vrf("'queue'," \o k \o ",#" \o ToString(i))
IdentityOf(p) == p \o "('identity')"
ProgramData   == "loader(vrf)"

Address(f, a) ==
  CASE f = "const vrf program"             -> "vrf"
    [] f = "const delegation program"      -> "dlp"
    [] f = "const magic program"           -> "magic"
    [] f = "const magic context"           -> "magic context"
    [] f = "const default queue"           -> "default queue"
    [] f = "const default ephemeral queue" -> "default ephemeral queue"
    [] f = "const identity"                -> Identity
    [] f = "registry"                      -> Registry
    [] f = "oracle data"                   -> OracleData(a.k)
    [] f = "queue"                         -> Queue(a.k, a.i)
    [] f = "delegation record"             -> Dlp("'delegation'," \o a.k)
    [] f = "delegation metadata"           -> Dlp("'delegation-metadata'," \o a.k)
    [] f = "commit state"                  -> Dlp("'state-diff'," \o a.k)
    [] f = "commit record"                 -> Dlp("'commit-state-record'," \o a.k)
    [] f = "undelegate buffer"             -> Dlp("'undelegate-buffer'," \o a.k)
    [] f = "delegate buffer"               -> a.p \o "('buffer'," \o a.k \o ")"
    [] f = "fees vault"                    -> Dlp("'fees-vault'")
    [] f = "validator fees vault"          -> Dlp("'v-fees-vault'," \o a.k)
    [] f = "program config"                -> Dlp("'p-conf'," \o a.k)
    [] f = "ephemeral balance"             -> Dlp("'balance'," \o a.k \o ",#" \o ToString(a.i))
    [] OTHER -> "no such function"

\* ------------------------------------------------------------ account lists
Acc(k, s, w) == [k |-> k, s |-> s, w |-> w]
Accounts(f, a) ==
  CASE f = "init" -> <<Acc(a.signer, TRUE, TRUE), Acc(Registry, FALSE, TRUE), Acc("sys", FALSE, FALSE)>>
    [] f = "modify" -> <<Acc(a.signer, TRUE, TRUE), Acc(Registry, FALSE, TRUE), Acc(OracleData(a.id), FALSE, TRUE),
                         Acc(ProgramData, FALSE, FALSE), Acc("sys", FALSE, FALSE)>>
    [] f = "initq" -> <<Acc(a.signer, TRUE, TRUE), Acc(a.oracle, TRUE, FALSE), Acc(OracleData(a.oracle), FALSE, TRUE),
                        Acc(Queue(a.oracle, a.i), FALSE, TRUE), Acc("sys", FALSE, FALSE)>>
    [] f = "request" -> <<Acc(a.payer, TRUE, TRUE), Acc(IdentityOf(a.prog), TRUE, FALSE), Acc(a.queue, FALSE, TRUE),
                          Acc("sys", FALSE, FALSE), Acc("slot hashes", FALSE, FALSE)>>
    [] f = "provide" -> <<Acc(a.oracle, TRUE, TRUE), Acc(Identity, FALSE, FALSE), Acc(OracleData(a.oracle), FALSE, FALSE),
                          Acc(a.queue, FALSE, TRUE), Acc(a.prog, FALSE, FALSE)>>
    [] f = "purge" -> <<Acc(a.oracle, FALSE, TRUE), Acc(Queue(a.oracle, a.i), FALSE, TRUE)>>
    [] f = "close" -> <<Acc(a.oracle, TRUE, TRUE), Acc(OracleData(a.oracle), FALSE, TRUE), Acc(Queue(a.oracle, a.i), FALSE, TRUE)>>
    [] f = "delegate" -> <<Acc(a.signer, TRUE, TRUE), Acc(a.queue, FALSE, TRUE), Acc(Vrf("'buffer'," \o a.queue), FALSE, TRUE),
                           Acc(Dlp("'delegation'," \o a.queue), FALSE, TRUE), Acc(Dlp("'delegation-metadata'," \o a.queue), FALSE, TRUE),
                           Acc("dlp", FALSE, FALSE), Acc("vrf", FALSE, FALSE), Acc("sys", FALSE, FALSE)>>
    [] f = "undelegate" -> <<Acc(a.signer, TRUE, TRUE), Acc(a.queue, FALSE, TRUE), Acc("magic context", FALSE, TRUE),
                             Acc("magic", FALSE, FALSE)>>
    [] OTHER -> <<>>

\* ------------------------------------------------------------ wire format; h: names -> bytes
Metas(ms, h) ==
  LET F[i \in 0..Len(ms)] ==
        IF i = 0 THEN Le32(Len(ms)) ELSE F[i - 1] \o h[ms[i].k] \o Bool(ms[i].s) \o Bool(ms[i].w)
  IN  F[Len(ms)]
Data(f, a, h) ==
  CASE f = "init"    -> Tag(0)
    [] f = "modify"  -> Tag(1) \o h[a.id] \o a.vk \o Byte(a.op)
    [] f = "initq"   -> Tag(2) \o Le32(a.size) \o Byte(a.i) \o "000000"
    [] f = "request" -> Tag(IF a.prio = 1 THEN 3 ELSE 8) \o a.seed \o h[a.prog] \o Bytes(a.disc) \o Metas(a.metas, h) \o Bytes(a.args)
    [] f = "provide" -> Tag(4) \o a.input \o a.out \o a.cb \o a.ch \o a.sc
    [] f = "delegate"   -> Tag(5) \o Byte(a.i)
    [] f = "undelegate" -> Tag(6) \o Byte(a.i)
    [] f = "close"      -> Tag(7) \o Byte(a.i)
    [] f = "purge"      -> Tag(9) \o Byte(a.i)
    [] OTHER -> "?"
=============================================================================
