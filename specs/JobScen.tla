------------------------------- MODULE JobScen -------------------------------
(* Command lines to try, and what the meaning of a command line must not      *)
(* depend on: the order of different options, and earlier occurrences of the  *)
(* same one.                                                                  *)
EXTENDS Job, TLC, Json

CONSTANT MaxLen

Hex == "00112233445566778899aabbccddeeff"
HEX == "0F1E2D3C4B5A69788796A5B4C3D2E1F0"
Good == {
  "--help", "--version", "--about", "--configdump", "--list-targets", "--print-dep-graph", "--print-dep-graph-inv",
  "--help=o1", "--version=o2", "--about=o1", "--configdump=o3", "--list-targets=o1", "--print-dep-graph=o2",
  "--print-dep-graph-inv=./o3", "--list-targets=@/o4",
  "--dry-run", "--force-rebuild", "--dry-run=", "--force-rebuild=",
  "--source-dir=.", "--source-dir=./", "--source-dir=sub", "--source-dir=./sub/", "--source-dir=sub/../sub/.",
  "--source-dir=@/sub", "--source-dir=@/./sub/..", "--source-dir=@",
  "--target-dir=tt", "--target-dir=./tt/", "--target-dir=@/tt", "--target-dir=tq/u", "--target-dir=nn/u", "--target-dir=@/nn/m/u", "--target-dir=tq", "--target-dir=../vv", "--target-dir=sub/../ww",
  "--build-id=" \o Hex \o Hex, "--build-id=" \o HEX \o HEX, "--build-id=" \o Hex \o HEX,
  "--start-time=0", "--start-time=1", "--start-time=951782399", "--start-time=1709251200", "--start-time=-1",
  "--start-time=-86400", "--start-time=2147483648", "--start-time=1999999999", "--start-time=4294967297", "--start-time=9223372035",
  "--start-time=-2208988801",
  "--num-workers=1", "--num-workers=2", "--num-workers=5", "--num-workers=12", "--num-workers=auto",
  "--log-level=errors", "--log-level=source_file_info", "--log-level=compilation_command",
  "--log-output-format=plain_text", "--log-output-format=ansi_term",
  "--targets=a0.o0", "--targets=b0.o0,b0.o0", "--targets=./a0.o0", "--targets=b\\0.o0", "--targets=a1.o0,a0.o0", "--targets=a0.o0,q",
  "" }
Wrong == {
  "--helpx", "--nothing", "nothing", "--dry-run=1", "--force-rebuild=yes", "--source-dir", "--source-dir=", "--target-dir=",
  "--build-id=", "--build-id=" \o Hex, "--build-id=" \o Hex \o Hex \o "0", "--build-id=" \o Hex \o "g0112233445566778899aabbccddeeff",
  "--build-id=" \o Hex \o "/0112233445566778899aabbccddeeff", "--build-id=" \o Hex \o "@0112233445566778899aabbccddeeff",
  "--build-id=" \o Hex \o "`0112233445566778899aabbccddeeff", "--build-id=" \o Hex \o ":0112233445566778899aabbccddeeff",
  "--start-time=", "--start-time=now", "--start-time=12z", "--start-time=1.5", "--start-time=10000000000",
  "--start-time=18446744073709551617", "--start-time=-10000000000", "--start-time=99999999999999999999999",
  "--num-workers=0", "--num-workers=-1", "--num-workers=", "--num-workers=two", "--num-workers=3x", "--num-workers=2,3",
  "--num-workers=4294967297", "--num-workers=99999999999999999999", "--num-workers=Auto",
  "--log-level=", "--log-level=error", "--log-level=errorss", "--log-level=Errors", "--log-output-format=", "--log-output-format=ansi",
  "--log-output-format=plain_text ", "--Dry-run", "-dry-run", "--dry-runs", "--print-dep-graph-inverse", "--list-targets2=x" }
Alphabet == Good \cup Wrong

VARIABLES args, ph
Init == args = <<>> /\ ph = 0
Extend == ph = 0 /\ Len(args) < MaxLen /\ UNCHANGED ph
          /\ \E a \in Alphabet : args' = Append(args, a) /\ (Len(args) >= 2 => a \in Good /\ args[1] \in Good)
Show == ph = 0 /\ ph' = 1 /\ UNCHANGED args
        /\ (Len(args) <= 2 => PrintT("SCEN " \o ToJson([args |-> args, verdict |-> Accepts(args)])))
Next == Extend \/ Show
Spec == Init /\ [][Next]_<<args, ph>>

Known == \A i \in DOMAIN args : Accepts(<<args[i]>>) = (IF args[i] \in Good THEN "ok" ELSE "bad")
Swapped == IF Len(args) < 2 THEN args ELSE <<args[2], args[1]>> \o SubSeq(args, 3, Len(args))
Order == Accepts(args) = "ok" /\ Len(args) >= 2 /\ Name(args[1]) # Name(args[2]) => Settings(Swapped) = Settings(args)
Last == Accepts(args) = "ok" /\ Len(args) >= 2 /\ (\E i \in 2..Len(args) : Name(args[i]) = Name(args[1])) => Settings(Tail(args)) = Settings(args)
All == Accepts(args) = "bad" <=> \E i \in DOMAIN args : args[i] \in Wrong
Stays == Accepts(args) = "ok" => Short(SourceDir(Settings(args))) = SourceDir(Settings(args))
=============================================================================
