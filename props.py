# Registration of the checks: which contract units prove a property, which driver module runs the real
# crate, and what is left unchecked. tools/mkmanifest.py writes MANIFEST.json from this file.
REAL = ("f64 arithmetic is treated as exact real arithmetic in the proof (shim contracts/fl.rs); the float code itself "
        "is only compared with that by the bounded run, within a tolerance")
CLOCK = "the time crate's calendar follows the Gregorian month lengths (trusted contracts; the bounded run samples every month start up to year 9999)"
DERIVE = "derived PartialEq/PartialOrd/Clone behave structurally"
BVD = "bounded_vec_deque::BoundedVecDeque keeps the last `capacity` pushed elements (trusted contract of the dependency)"
DYN = "Box<dyn Trait> replaced by an enum of the implementations, dispatched by hand"
STRAT = "strategies, stop losses and take profits are deterministic state machines without hidden state (what they compute: C04, C05, C09 - C13)"
XREAL = "annualized is proved over the extended reals (finite, infinite and NaN values; pow real exactly where IEEE 754 defines it); its contract is used over the reals"
XR15 = ("proved over the extended reals: finite values exact, infinities and NaN as IEEE 754 orders and propagates them (which infinity a division "
        "by zero gives is left open); rounding is only compared by the bounded run")
HM = "std::collections::HashMap behaves as a finite map (trusted shim contracts/hmap.rs)"
RAND = "the rand crate: a generator is an opaque state, every operation a function of it; shuffle permutes, choose_multiple gives distinct members, f32 draws lie in [0, 1) (trusted shim contracts/gen.rs); uniformity is only sampled by the bounded run"
SORT = "the standard library's sort_by is a stable sort by the comparison it is given (trusted shim contract)"
LAZY = "a Lazy static holds what its initialiser returns"
PROPS = {
    "C01": {"units": ["C01"], "assumptions": [CLOCK, DERIVE]},
    "C02": {"units": ["C02"], "assumptions": [DERIVE]},
    "C03": {"units": ["C03"], "assumptions": [REAL]},
    "C04": {"units": ["C04"], "assumptions": [REAL]},
    "C05": {"units": ["C05", "C05e"], "deps": ["C11", "C12"], "assumptions": [REAL, BVD, HM, LAZY, "the curves of the ezing crate are uninterpreted functions of their argument; a function pointer is an enum of the functions it can point to"]},
    "C06": {"units": ["C06"], "deps": ["C03", "C01", "C08", "C09"], "assumptions": [REAL, STRAT, DERIVE]},
    "C07": {"units": ["C07"], "deps": ["C03", "C01", "C09"], "assumptions": [REAL, STRAT, DERIVE]},
    "C08": {"units": ["C08"], "deps": ["C03", "C01", "C09"], "assumptions": [REAL, STRAT, DERIVE]},
    "C09": {"units": ["C09"], "assumptions": [DERIVE]},
    "C10": {"units": ["C10"], "assumptions": [REAL, "std::borrow::Cow replaced by an equivalent enum of the two variants", DERIVE]},
    "C11": {"units": ["C11"], "assumptions": [REAL, BVD, DYN, "exp is an uninterpreted positive function"]},
    "C12": {"units": ["C12"], "deps": ["C11"], "assumptions": [REAL, BVD]},
    "C13": {"units": ["C13", "C13m"], "deps": ["C09", "C10", "C11", "C12"], "assumptions": [REAL, BVD, DYN, "std::borrow::Cow replaced by an equivalent enum of the two variants",
        "IteratorExt::minmax is proved over the extended reals (it starts from NaN); its contract is used over the reals", DERIVE]},
    "C14": {"units": ["C14", "C14a"], "deps": ["C08", "C06"], "assumptions": [REAL, XREAL, DERIVE]},
    "C15": {"units": ["C15"], "deps": ["C01"], "assumptions": [XR15, HM, "Vec::with_capacity(n) has capacity n", "a symbol's base and quote asset names are uninterpreted functions of the symbol", DERIVE]},
    "C16": {"units": ["C16"], "deps": ["C17", "C21e", "C05e"], "assumptions": [REAL, RAND, SORT, DERIVE, "an evaluation assigns each chromosome a comparable fitness that depends on the chromosome alone; the operators of a chromosome type are deterministic functions of their inputs and the generator's state",
        "clocks only feed the reported timings; mem::swap, Vec::clear and split_at_mut as documented (split_at_mut: trusted shim contract)", "fewer than usize::MAX generations; the offspring count of fitness reinsertion fits usize"]},
    "C17": {"units": ["C17"], "assumptions": [REAL, RAND, SORT, DERIVE, "a chromosome type's operators are deterministic functions of their inputs and the generator's state"]},
    "C18": {"units": ["C18", "C18u"], "expand": True, "assumptions": ["the derived implementations are read from rustc's own macro expansion of the crate",
        "the generator functions of the fields give arbitrary values (signatures only; what they give: C21)", "std::mem::discriminant tells the variants of an enumeration apart (trusted shim contract)", RAND, DERIVE]},
    "C21": {"units": ["C21"], "deps": ["C21e", "C05e"], "expand": True, "assumptions": [XREAL, RAND, "values fixed by the context are themselves valid, the interval choices are non-empty and non-zero, and a fixed buffer interval is no shorter than any choice",
        "the derived implementations are read from rustc's own macro expansion of the crate", "redrawing until the periods are in order ends (almost surely); partial correctness is proved",
        HM, SORT, LAZY, BVD, DYN, DERIVE]},
    "C19": {"units": ["C19"], "assumptions": ["&str and String as sequences of characters: find, split_at, parse of plain decimal digits, to_string, push_str as documented (trusted shim contracts/text.rs)",
        "the time crate reads back the RFC 3339 text it prints for instants up to the year 9999; which texts it accepts is an uninterpreted function of the text (sampled against an own reader by the bounded run)",
        LAZY + "; a HashMap collected from pairs holds the last value of each key", "serde_json hands numbers to visit_u64 and texts to visit_str; the derived Serialize writes the number (sampled)", CLOCK, DERIVE]},
    "C20": {"units": ["C20"], "assumptions": [REAL, HM, "rayon's par_iter_mut().for_each visits every element once, exclusively (extracted as a sequential loop)",
        "the function pointer to an aggregation is an enum of the three functions, dispatched by hand", "trade and the four statistics are deterministic functions of their arguments (what they compute: C06 - C08, C14, C15)",
        "log10 and 10^x are strictly increasing with log10 1 = 0 and 10^1 = 10", DERIVE]},
}
NOT_APPLICABLE = {}
