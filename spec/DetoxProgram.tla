---------------------------- MODULE DetoxProgram ----------------------------
(***************************************************************************)
(* The program as a whole, up to the point where it starts to work on      *)
(* names: command line, configuration, choice of a sequence, -L, tables.   *)
(* Start(w) says how far a run in world w gets:                            *)
(*   stop "help" "version" "usage" "nofiles"  ends with the command line   *)
(*        "unread"                            a configuration file breaks off *)
(*        "open" "parse" "sequence" "table"   refuses, with why            *)
(*        "list"                              prints, and is done          *)
(*        ""                                  works: fs (filters), ign, o  *)
(* A world has inlinebin, argv, posix, files, home, xdg, dseq, ctype,      *)
(* sysconf, datadir.                                                       *)
(***************************************************************************)
EXTENDS DetoxConfig, DetoxCli

Start(w) ==
  LET o == Cli(w.inlinebin, w.argv, w.posix)
      c == LoadConfig(w.files, w.sysconf, o.f, w.home, w.xdg)
      asked == IF o.s # <<>> THEN o.s ELSE w.dseq
      k == Choose(c.seqs, asked)
      t == LoadTables(w.files, w.datadir, c.seqs[k].filters, w.ctype)
      Res(stop, why) == [stop |-> stop, why |-> why, o |-> o, said |-> c.said, text |-> <<>>, fs |-> <<>>, ign |-> c.ign]
      NoRes(stop) == [stop |-> stop, why |-> <<>>, o |-> o, said |-> <<>>, text |-> <<>>, fs |-> <<>>, ign |-> <<>>]
      cf == ConfigFiles(w.files, w.sysconf, o.f, w.home, w.xdg)
  IN IF o.stop # "" THEN NoRes(o.stop)
     ELSE IF \E i \in 1..Len(cf) : TextAt(w.files, cf[i]) = Unread THEN NoRes("unread")
     ELSE IF ~c.ok THEN (IF c.bad = <<>> THEN [NoRes("open") EXCEPT !.why = B("detox: unable to open: ") \o o.f[1]]
                         ELSE [NoRes("parse") EXCEPT !.why = B("detox: error parsing config file ") \o c.bad \o B(": ")])
     ELSE IF o.L THEN [Res("list", <<>>) EXCEPT !.text = Dump(c, k, o.v)]
     ELSE IF k = 0 THEN Res("sequence", B("detox: no sequence to work with"))
     ELSE IF ~t.ok THEN Res("table", t.why)
     ELSE [Res("", <<>>) EXCEPT !.fs = t.fs]

Refusals == {"open", "parse", "sequence", "table", "nofiles"}
StartExit(stop) == IF stop \in Refusals THEN 1 ELSE 0
=============================================================================
