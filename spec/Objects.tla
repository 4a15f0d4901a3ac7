------------------------------- MODULE Objects -------------------------------
(* Event objects in a program's hands.  An object is put together of parts,    *)
(* and a part is known by where it was taken from: objs[k][q] is the delivery  *)
(* that part q of object k comes from, or Default where the program gave none. *)
(* Two objects all of whose parts come from the same deliveries are equal, and *)
(* what an object says, printed or exported, follows from its parts.           *)
EXTENDS Integers, Sequences

PartNames == <<"proc", "tid", "what", "date", "dur", "res", "stack", "path", "cat">>   \* what: class, operation and details
Parts == {PartNames[i] : i \in DOMAIN PartNames}
Default == 0

Given(objs, src)        == Append(objs, [q \in Parts |-> src])          \* a reader delivered it
Built(objs, from)       == Append(objs, [q \in Parts |-> IF from[q] = 0 THEN Default ELSE objs[from[q]][q]])
Copied(objs, x)         == Append(objs, objs[x])
Assigned(objs, x, q, y) == [objs EXCEPT ![x][q] = objs[y][q]]

(* What a part is when the program gives none: the parts of an event have no    *)
(* value, those of a process or module are empty.  Of an event, the class has   *)
(* to be given.                                                                 *)
Texts == {"integrity", "user", "process_name", "image_path", "command_line", "company", "version", "description"}
Defaults ==
  [Event   |-> [process |-> "None", tid |-> "0", operation |-> "None", date_filetime |-> "None", result |-> "0", stacktrace |-> "None",
                category |-> "None", path |-> "None", duration |-> "0", details |-> "None"],
   Process |-> [n \in {"pid", "parent_pid", "authentication_id", "session", "virtualized", "is_process_64bit", "start_time", "end_time", "modules"} \cup Texts |->
                  CASE n \in Texts -> "''"
                    [] n \in {"start_time", "end_time"} -> "None"
                    [] n = "modules" -> "[]"
                    [] n = "is_process_64bit" -> "False"
                    [] OTHER -> "0"],
   Module  |-> [base_address |-> "0", size |-> "0", path |-> "''", version |-> "''", company |-> "''", description |-> "''", timestamp |-> "0"]]
(* given: the parts that were given something; vals: those that were given what  *)
(* is known here, as <<name, value>>.  An object has what it was given, as have  *)
(* its copies, which are equal to it.                                            *)
Left(kind, given, vals) == DOMAIN Defaults[kind] \ ({given[i] : i \in DOMAIN given} \cup {vals[i][1] : i \in DOMAIN vals})
BareClauses(kind, given, vals, o) ==
  IF o.k # "bare" THEN {"bare:exception"}
  ELSE {"bare:" \o n : n \in {m \in Left(kind, given, vals) : ~\E i \in DOMAIN o.f : o.f[i] = <<m, Defaults[kind][m]>>}}
       \cup {"bare:" \o v[1] : v \in {w \in {vals[i] : i \in DOMAIN vals} : \E i \in DOMAIN o.h : o.h[i][1] = w[1] /\ o.h[i][2] # w[2]}}
       \cup {"bare:" \o v[1] : v \in {w \in {vals[i] : i \in DOMAIN vals} : ~\E i \in DOMAIN o.h : o.h[i] = w}}
       \cup (IF o.eq THEN {} ELSE {"bare:equal"})
=============================================================================
