------------------------------ MODULE ConfigMC ------------------------------
(* Sanity of the table: it is total on all platforms, and names, families and   *)
(* widths it gives never contradict one another.                                *)
EXTENDS Config
VARIABLE p
Flavours(k) == CASE k = "linux" -> {"android", "other"} [] k = "apple" -> {"macosx", "ios"} [] k = "unix" -> {"solaris", "freebsd", "emscripten", "other"}
                 [] OTHER -> {"other"}
Platforms == {q \in [kernel : {"linux", "windows", "apple", "unix", "none"}, flavour : {"android", "macosx", "ios", "solaris", "freebsd", "emscripten", "other"},
               compiler : {"gcc", "clang", "msvc", "clangcl", "other"}, std : {98, 11, 14, 17, 20, 23},
               cpu : {"x86", "x86_64", "arm", "aarch64", "wasm", "other"}, order : {"little", "big"}] :
               q.flavour \in Flavours(q.kernel) /\ (q.cpu = "wasm" => q.flavour = "emscripten")}
MCInit == Init /\ p \in Platforms
MCSpec == MCInit /\ [][FALSE]_<<vars, p>>
Family == OsName(p) \in (CASE Os(p) = 3 -> {1, 2} [] Os(p) = 1 -> {0, 3} [] Os(p) = 4 -> {0, 4, 5, 6} [] OTHER -> {0})
Widths == Cpu(p) = 1 => Bits(p) = 32
Widths2 == Cpu(p) = 2 => Bits(p) = 64
Known == (Bits(p) = 0) = (Cpu(p) = 0)
Standards == Cpp(p) \in {3, 11, 14, 17, 20}
=============================================================================
