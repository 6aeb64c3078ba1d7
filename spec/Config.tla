------------------------------- MODULE Config -------------------------------
(* The configuration macros of config.hpp (property C36): what they say about   *)
(* the operating system, compiler, language standard, processor and byte order  *)
(* a program is compiled for.  A platform is a record                           *)
(*   kernel   linux windows apple unix none                                     *)
(*   flavour  android macosx ios solaris freebsd emscripten other               *)
(*   compiler gcc clang msvc clangcl other                                      *)
(*   std      98 11 14 17 20 23                                                 *)
(*   cpu      x86 x86_64 arm aarch64 wasm other                                 *)
(*   order    little big                                                        *)
(* The macros are numbers; zero is "unknown".                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLE seen
vars == <<seen>>
Init == seen = 0
Os(p) == CASE p.kernel = "linux" -> 1 [] p.kernel = "windows" -> 2 [] p.kernel = "apple" -> 3 [] p.kernel = "unix" -> 4 [] p.kernel = "none" -> 0
OsName(p) == CASE p.flavour = "macosx" -> 1 [] p.flavour = "ios" -> 2 [] p.flavour = "android" -> 3 [] p.flavour = "solaris" -> 4
               [] p.flavour = "freebsd" -> 5 [] p.flavour = "emscripten" -> 6 [] OTHER -> 0
Compiler(p) == CASE p.compiler = "gcc" -> 1 [] p.compiler \in {"msvc", "clangcl"} -> 2 [] p.compiler = "clang" -> 3 [] OTHER -> 0
\* later standards than the last known one count as that one
Cpp(p) == CASE p.std = 98 -> 3 [] p.std >= 20 /\ p.std < 98 -> 20 [] OTHER -> p.std
\* which processors are told apart depends on the compiler; for the others "unknown" is right, too
Cpu(p) == CASE p.cpu = "x86" -> 1 [] p.cpu = "x86_64" -> 2 [] p.cpu \in {"arm", "aarch64"} -> 3 [] p.cpu = "wasm" -> 4 [] OTHER -> 0
Bits(p) == CASE p.cpu \in {"x86", "arm", "wasm"} -> 32 [] p.cpu \in {"x86_64", "aarch64"} -> 64 [] OTHER -> 0
CpuKnown(p) == \/ p.flavour = "emscripten"
               \/ p.compiler = "gcc" /\ p.cpu # "other"
               \/ p.compiler \in {"msvc", "clangcl"} /\ p.cpu \in {"x86", "x86_64"}
Order(p) == IF p.order = "little" THEN 1 ELSE 2
\* the macros m a program sees
Right(p, m) ==
  /\ m.os = Os(p) /\ m.osname = OsName(p) /\ m.compiler = Compiler(p) /\ m.cpp = Cpp(p) /\ m.endianness = Order(p)
  /\ IF CpuKnown(p) THEN m.cpu = Cpu(p) /\ m.bits = Bits(p) ELSE m.cpu \in {0, Cpu(p)} /\ m.bits \in {0, Bits(p)} /\ (m.cpu = 0) = (m.bits = 0)
  \* generation of the processor, where there is one to tell
  /\ m.generation \in {-1, 0, p.generation} /\ (p.generation > 0 /\ CpuKnown(p) => m.generation = p.generation)
Step(e) ==
  \/ e.op = "reset" /\ seen' = 0
  \/ e.op = "macros" /\ seen' = seen + 1 /\ Right(e.platform, e.macros) = TRUE
  \* the program itself: what the macros of this very build say, against what it finds out by other means
  \/ /\ e.op = "self" /\ seen' = seen + 1
     /\ (e.os = 1 /\ e.osname = 0 /\ e.compiler = (IF e.clang THEN 3 ELSE 1)) = TRUE
     /\ (e.endianness = (IF e.firstbyte = 1 THEN 1 ELSE 2)) = TRUE
     /\ (e.bits \in {0, e.pointer * 8} /\ (e.clang \/ e.bits # 0)) = TRUE
     /\ (e.cpp = (IF e.year >= 2020 THEN 20 ELSE e.year - 2000)) = TRUE
     /\ (e.clang \/ (e.major = e.gnuc)) = TRUE
=============================================================================
