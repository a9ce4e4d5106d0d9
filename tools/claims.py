c("A05",AI+", with syndromes of all single-character differences computed from the CRC polynomial")
c("A01 A02 A03 B01 B02",AI)
c("S01 S02 S04 S05 S06 S07 S08",AI)
c("K01 K02 K03 K04 K06 K07 K09 K10",AI)
c("T01 T02 T03 T04",AI)
c("X01",AI+" that follows every error, panic and log value back to what it was computed from")
c("P01",AI+", over every exported operation")
c("E01",AI+" over every exported operation, each call on the way failing in every way it can")
c("M09",AI+" with unknown rows, for every table length up to a bound (16 rows for the lookup, 10 for slicing)")
c("M10 M11",AI)
c("M01 M02 M06",AI+", with the decimal library modelled as exact integers")
c("M04",AI+": freedom from wraparound and division by zero under inductive loop invariants, and a ranking argument for termination")
c("M05",AI+" with interval partitioning: every entry of the tables is reached, and compared with its formula in exact integer arithmetic (interior blocks between doubling points beyond the 37th are not examined)")
c("S09",AI+": the encoders' item sequences are compared with each other and fed to the decoders")
c("D01","effect analysis over the call graph of the typed SSA program: ambient inputs, scheduling, shared memory, map order and floating point")
c("W01 W02 W03 W04",AI)
c("F01 F02",AI+", operations of lower packages being opaque deterministic functions")
c("K05",AI+" with inductive loop summaries, and a comparison of the automata of regular expressions")
c("K11",AI+", modulo the distributive law of the curve")
c("K08",AI+", with an invariant by induction over all operations that reach a write")
c("J01 J02",AI+", of the program built for JavaScript, with the JavaScript interface modelled")
c("A04 S03",AI+", and a "+WP)
reasons={
 "S10":"holds only up to the correctness and unforgeability of the signature schemes, which are library code and not decidable from this source",
 "M03":"the amount reaches the scaling through named groups of regular expressions assembled at run time by fmt.Sprintf from a floating-point logarithm; what those groups hold for an arbitrary text is library behaviour the domains here do not model (the checked multiplication and addition they end in are decided under M01)",
 "M07":"numerical accuracy of arbitrary-precision and fixed-point computations is a quantitative property of runtime values that no sound static argument in reach bounds",
 "M08":"needs exact reasoning about decimal/float formatting and regular-expression parsing over unbounded digit strings, which the static domains here do not cover",
}
