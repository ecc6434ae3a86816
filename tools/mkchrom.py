#!/usr/bin/env python3
"""Writes contracts/chrom18.rs and contracts/chrom21.rs: the contracts of every Chromosome implementation of the
repository, derived ones included (their text comes from the macro-expanded crate on every run).
The lists below are the types and their genes; the contracts are built from them, never from the implementation."""
import os
D = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "contracts")
M = "MAParams"
# module, struct, children [(field, type)], fields [(field, type)]
def S(mod, name, ch, fs, gens=None): return dict(kind="struct", mod=mod, name=name, ch=ch, fs=fs)
def E(mod, name, vs): return dict(kind="enum", mod=mod, name=name, vs=vs)
TYPES = {
 "stop_loss": [
  S("basic", "BasicParams", [], [("up_threshold", "f64"), ("down_threshold", "f64")]),
  S("trailing", "TrailingParams", [], [("up_threshold", "f64"), ("down_threshold", "f64")]),
  S("basic_plus_trailing", "BasicPlusTrailingParams", [("basic", "BasicParams"), ("trailing", "TrailingParams")], []),
  S("legacy", "LegacyParams", [], [("threshold", "f64"), ("trail", "bool")]),
  S("noop", "NoopParams", [], []),
  E("", "StopLossParams", ["BasicPlusTrailing", "Basic", "Legacy", "Noop", "Trailing"]),
 ],
 "take_profit": [
  S("basic", "BasicParams", [], [("up_threshold", "f64"), ("down_threshold", "f64")]),
  S("legacy", "LegacyParams", [], [("threshold", "f64")]),
  S("noop", "NoopParams", [], []),
  S("trending", "TrendingParams", [], [("up_thresholds", "(f64, f64)"), ("down_thresholds", "(f64, f64)"), ("period", "u32"), ("lock_threshold", "bool"), ("easing", "Easing")]),
  E("", "TakeProfitParams", ["Basic", "Legacy", "Noop", "Trending"]),
 ],
 "strategies": [
  S("double_ma", "DoubleMAParams", [], [("mas", "(MAParams, MAParams)")]),
  S("double_ma_2", "DoubleMA2Params", [], [("neg_threshold", "f64"), ("pos_threshold", "f64"), ("mas", "(MAParams, MAParams)")]),
  S("stoch", "StochParams", [], [("k_period", "u32"), ("k_sma_period", "u32"), ("d_sma_period", "u32"), ("up_threshold", "f64"), ("down_threshold", "f64")]),
  S("double_ma_stoch", "DoubleMAStochParams", [("double_ma", "DoubleMAParams"), ("stoch", "StochParams")], []),
  S("four_week_rule", "FourWeekRuleParams", [], [("period", "u32"), ("ma", "MAParams")]),
  S("macd", "MacdParams", [], [("periods", "(u32, u32)"), ("signal_period", "u32")]),
  S("rsi", "RsiParams", [], [("period", "u32"), ("up_threshold", "f64"), ("down_threshold", "f64")]),
  S("single_ma", "SingleMAParams", [], [("ma", "MAParams")]),
  S("triple_ma", "TripleMAParams", [], [("mas", "(MAParams, MAParams, MAParams)")]),
  E("", "SignalParams", ["DoubleMA", "DoubleMA2", "DoubleMAStoch", "FourWeekRule", "Macd", "SingleMA", "TripleMA"]),
  E("", "OscillatorParams", ["Rsi", "Stoch"]),
  S("sig", "SigParams", [("sig", "SignalParams")], [("persistence", "u32"), ("mid_trend_policy", "MidTrendPolicy"), ("buffer_interval", "Option<Interval>")]),
  S("sig_osc", "SigOscParams", [("sig", "SignalParams"), ("osc", "OscillatorParams")], [("osc_filter", "OscFilter"), ("persistence", "u32"), ("mid_trend_policy", "MidTrendPolicy")]),
  E("", "StrategyParams", ["DoubleMA", "DoubleMA2", "DoubleMAStoch", "FourWeekRule", "Macd", "SingleMA", "TripleMA", "SigOsc", "Sig"]),
 ],
 "trading": [
  S("", "TraderParams", [], [("interval", "Interval")]),
  S("", "TradingParams", [("strategy", "StrategyParams"), ("trader", "TraderParams"), ("stop_loss", "StopLossParams"), ("take_profit", "TakeProfitParams")], []),
 ],
}
# what a valid value of each field is (x is the value), as a spec expression: periods positive and ordered, thresholds
# in their ranges
def rg(x, lo, hi, op="<"): return f"{x}.fin() && {lo}real {op} {x}.v() <= {hi}real"
V = {
 ("stop_loss", "*", "up_threshold"): rg("x", 0, 1), ("stop_loss", "*", "down_threshold"): rg("x", 0, 1), ("stop_loss", "LegacyParams", "threshold"): rg("x", 0, 1, "<="),
 ("take_profit", "*", "up_threshold"): rg("x", 0, 10), ("take_profit", "*", "down_threshold"): rg("x", 0, 10), ("take_profit", "LegacyParams", "threshold"): rg("x", 0, 10, "<="),
 ("take_profit", "*", "up_thresholds"): "x.0.fin() && x.1.fin() && 0real < x.0.v() < x.1.v() <= 10real", ("take_profit", "*", "down_thresholds"): "x.0.fin() && x.1.fin() && 0real < x.0.v() < x.1.v() <= 10real", ("take_profit", "TrendingParams", "period"): "sane(x)",
 ("strategies", "DoubleMAParams", "mas"): "x.0.valid() && x.1.valid() && x.0.n() < x.1.n()",
 ("strategies", "DoubleMA2Params", "mas"): "x.0.valid() && x.1.valid() && x.0.n() < x.1.n()",
 ("strategies", "DoubleMA2Params", "neg_threshold"): "x.fin() && -1real <= x.v() < 0real", ("strategies", "DoubleMA2Params", "pos_threshold"): "x.fin() && 0real < x.v() < 1real",
 ("strategies", "TripleMAParams", "mas"): "x.0.valid() && x.1.valid() && x.2.valid() && x.0.n() < x.1.n() < x.2.n()",
 ("strategies", "*", "k_period"): "sane(x)", ("strategies", "*", "k_sma_period"): "sane(x)", ("strategies", "*", "d_sma_period"): "sane(x)",
 ("strategies", "*", "up_threshold"): rg("x", 50, 100, "<="), ("strategies", "*", "down_threshold"): rg("x", 0, 50, "<="),
 ("strategies", "*", "period"): "sane(x)", ("strategies", "*", "ma"): "x.valid()",
 ("strategies", "MacdParams", "periods"): "sane(x.0) && sane(x.1) && x.0 < x.1", ("strategies", "*", "signal_period"): "sane(x)",
 ("strategies", "*", "persistence"): "x < 1000000",
}
# what a value must be where the context leaves it open: no drawn buffer interval can be sure to fit the trading interval
FREE = {("SigParams", "buffer_interval"): "x.buffer_interval is None"}
def base(top, t): return f"juno/src/{top}/{t['mod'] or 'mod'}.rs" if (t["mod"] or top in ("stop_loss", "take_profit", "strategies", "trading")) else ""
def exp(top, t): return "expanded:" + top + ("::" + t["mod"] if t["mod"] else "")
def screaming(name):  # convert_case UpperSnake of Default{name}Ctx
    out = ""
    for i, c in enumerate(name):
        if c.isupper() and i and (name[i-1].islower() or (i + 1 < len(name) and name[i+1].islower() and name[i-1].isupper())): out += "_"
        elif c.isdigit() and i and not name[i-1].isdigit(): out += "_"
        out += c.upper()
    return out
def dctx(enum, v): return "DEFAULT_" + screaming(enum) + "_" + screaming(v) + "_CTX"

def lens(t):
    if t["kind"] == "struct":
        return " + ".join([f"{c}::g_len()" for _, c in t["ch"]] + [f"{len(t['fs'])}nat"])
    m = f"{t['vs'][-1]}Params::g_len()"
    for v in reversed(t["vs"][:-1]):
        m = f"nmax({v}Params::g_len(), {m})"
    return "1 + " + m

def chain(t, leaf, child, other):
    """if i < len(c0) {..} else if .. for a struct; leaf(k, field), child(field, type, index expr)"""
    out, off = "", "0int"
    for f, c in t["ch"]:
        out += f"if i < {off} + {c}::g_len() {{ {child(f, c, f'i - ({off})')} }} else "
        off += f" + {c}::g_len()"
    for k, (f, _) in enumerate(t["fs"]):
        out += f"if i == {off} + {k} {{ {leaf(k, f)} }} else "
    return out + "{ " + other + " }"

def fn(path, name, spec="", ret=None, flags=("novis",), head="", extra=""):
    s = f"/*@fn {path} {name}\n"
    if ret: s += f"ret: {ret}\n"
    for x in flags: s += f"flag: {x}\n"
    s += extra
    if spec: s += "spec:\n" + "".join(f"    {l}\n" for l in spec.split("\n"))
    if head: s += "head:\n" + "".join(f"    {l}\n" for l in head.split("\n"))
    return s + "@*/\n"

def item(kind, path, name, attr=None):
    return f"/*@{kind} {path} {name}\n" + (f"attr:\n    {attr}\n" if attr else "") + "@*/\n"

def emit(mode):
    o = ["// written by tools/mkchrom.py\n"]
    if mode == 21: o.append(ctor_indicators())
    for top, ts in TYPES.items():
        o.append(f"pub mod {top} {{ use super::*;\n")
        if top == "trading":
            o.append("use super::{strategies::*, stop_loss::{StopLossParams, StopLossParamsContext}, take_profit::{TakeProfitParams, TakeProfitParamsContext}};\n")
        if top == "strategies":
            o.append(item("enum", "juno/src/strategies/sig_osc.rs", "OscFilter", "#[derive(Clone, Copy)]"))
            if mode == 21:
                o.append(item("struct", "juno/src/strategies/mod.rs", "StrategyMeta"))
                o.append("pub open spec fn fits(p: SigParams, iv: Interval) -> bool { iv.0 > 0 && (p.buffer_interval is Some ==> iv.0 <= (p.buffer_interval->0).0) }\n")
        for t in ts:
            n, src, ex = t["name"], base(top, t), exp(top, t)
            if t["mod"]:
                o.append(f"pub mod {t['mod']} {{ use super::*;\n")
            if mode == 21 and t["mod"]: o.append("broadcast use fl_axioms;\n")
            o.append(item(t["kind"], src, n, "#[derive(Clone, Copy)]"))
            hand = n == "TraderParams"
            o.append(item(t["kind"], src if hand else ex, n + "Context"))
            ip = src if hand else ex
            if t["kind"] == "struct" and not hand:
                for f, ty in t["fs"]:
                    o.append(gen(mode, top, t, src, f, ty))
            if t["kind"] == "enum":
                o.append(enum_parts(mode, top, t, ex))
            if mode == 21 and top != "trading":
                o.append(dflt(top, t, ex))
            o.append(f"impl Chromosome for {n} {{\n    type Context = {n}Context;\n    open spec fn g_len() -> nat {{ {lens(t)} }}\n")
            o.append((c18 if mode == 18 else c21)(top, t, ip))
            o.append("}\n")
            if mode == 21:
                o.append(ctor(top, t, src))
            if t["mod"]:
                s = n[:-6]
                o.append("}\n" + (f"pub use {t['mod']}::{s};\n" if mode == 21 and top != "trading" else "") + f"pub use {t['mod']}::{{{n}, {n}Context" + "};\n")
        o.append("}\n")
    open(os.path.join(D, f"chrom{mode}.rs"), "w").write("".join(o))

def gen(mode, top, t, src, f, ty):
    if mode == 18:
        return fn(src, f, flags=("extern",))
    n = t["name"]
    v = V.get((top, n, f)) or V.get((top, "*", f))
    xty = ty.replace("f64", "Fl")
    return f"impl {n} {{ pub open spec fn ok_{f}(x: {xty}) -> bool {{ {v or 'true'} }} }}\n" + fn(src, f, ret="x", flags=("anyloops",), spec=f"ensures {n}::ok_{f}(x)," + (f" {FREE[n, f].replace('x.' + f, 'x')}," if (n, f) in FREE else ""))

def enum_parts(mode, top, t, ex):
    n = t["name"]
    o = f"impl Tagged for {n} {{ open spec fn tag(&self) -> int {{ match *self {{ " + " ".join(f"{n}::{v}(_) => {i}int," for i, v in enumerate(t["vs"])) + " } } }\n"
    arms = " ".join(f"{n}::{v}(_) => {v}Params::g_len()," for v in t["vs"])
    o += f"impl {n} {{\n    pub open spec fn g_vlen(&self) -> nat {{ match *self {{ {arms} }} }}\n"
    o += fn(ex, f"{n}::variant_len", ret="r", flags=(), spec="ensures r == self.g_vlen(),") + "}\n"
    for v in t["vs"]:
        d = dctx(n, v)
        o += f"//@subst_expr &{d} => {d}_X()\n"
        if mode == 18:
            o += f"#[verifier::external_body] pub fn {d}_X() -> (r: &'static {v}ParamsContext) {{ unimplemented!() }}\n"
        else:
            o += f"/*@lazy {ex} {d}\nspec:\n    ensures r == {v}ParamsContext::dv(),\n@*/\n"
            o += f"// the lazily initialised static holds what its initialiser returns\n#[verifier::external_body] pub fn {d}_X() -> (r: &'static {v}ParamsContext) ensures call_ensures({d}_init, (), *r) {{ unimplemented!() }}\n"
    o += f"impl {n}Context {{\n"
    for v in t["vs"]:
        if mode == 18:
            o += fn(ex, f"{n}Context::{v.lower()}", flags=())
        else:
            o += fn(ex, f"{n}Context::{v.lower()}", ret="r", flags=(), spec=f"ensures *r == self.sub_{v.lower()}(),")
            o += f"    pub open spec fn sub_{v.lower()}(self) -> {v}ParamsContext {{ match self {{ {n}Context::{v}(c) => c, _ => {v}ParamsContext::dv() }} }}\n"
    return o + "}\n"

def c18(top, t, ip):
    n = t["name"]
    P = f"{n}::Chromosome::"
    if t["kind"] == "struct":
        cross = chain(t, lambda k, f: f"({n} {{ {f}: b.{f}, ..a }}, {n} {{ {f}: a.{f}, ..b }})",
                      lambda f, c, ix: f"let r = {c}::g_cross(a.{f}, b.{f}, {ix}); ({n} {{ {f}: r.0, ..a }}, {n} {{ {f}: r.1, ..b }})", "(a, b)")
        def others(f): return " && ".join([f"a.{g} == b.{g}" for g, _ in t["ch"] + t["fs"] if g != f] or ["true"])
        same = chain(t, lambda k, f: others(f), lambda f, c, ix: f"{c}::same_but(a.{f}, b.{f}, {ix}) && " + others(f), "a == b")
        laws, off = "", "0int"
        for f, c in t["ch"]:
            laws += f"if {off} <= i < {off} + {c}::g_len() {{ {c}::g_laws(a.{f}, b.{f}, i - ({off})); }}\n        "
            off += f" + {c}::g_len()"
        whole, off = "", "0int"
        for f, c in t["ch"]:
            whole += (f"assert forall|i: int| 0 <= i < {c}::g_len() implies #[trigger] {c}::g_cross(a.{f}, b.{f}, i) == (a.{f}, b.{f}) by {{ let q = Self::g_cross(a, b, {off} + i); assert(q == (a, b)); assert(q.0.{f} == a.{f} && q.1.{f} == b.{f}); }}\n        {c}::g_whole(a.{f}, b.{f});\n        ")
            off += f" + {c}::g_len()"
        for k, (f, _) in enumerate(t["fs"]):
            whole += f"assert(Self::g_cross(a, b, {off} + {k}).0.{f} == a.{f});\n        "
    else:
        arms = " ".join(f"({n}::{v}(x), {n}::{v}(y)) => if i - 1 < {v}Params::g_len() {{ let r = {v}Params::g_cross(x, y, i - 1); ({n}::{v}(r.0), {n}::{v}(r.1)) }} else {{ (a, b) }}," for v in t["vs"])
        cross = f"if i == 0 {{ (b, a) }} else {{ match (a, b) {{ {arms} _ => (a, b) }} }}"
        arms = " ".join(f"({n}::{v}(x), {n}::{v}(y)) => if i - 1 < {v}Params::g_len() {{ {v}Params::same_but(x, y, i - 1) }} else {{ x == y }}," for v in t["vs"])
        same = f"if i == 0 {{ true }} else {{ match (a, b) {{ {arms} _ => false }} }}"
        laws = "if i > 0 { match (a, b) { " + " ".join(f"({n}::{v}(x), {n}::{v}(y)) => {{ if i - 1 < {v}Params::g_len() {{ {v}Params::g_laws(x, y, i - 1); }} }}" for v in t["vs"]) + " _ => {} } }\n        "
        laws += "g_refl(a, i); g_refl(b, i);\n        ".replace("g_refl", "Self::g_refl")
        whole = "assert(Self::g_cross(a, b, 0) == (a, b));\n        "
    o = f"    open spec fn g_cross(a: Self, b: Self, i: int) -> (Self, Self) {{ {cross} }}\n"
    o += f"    open spec fn same_but(a: Self, b: Self, i: int) -> bool {{ {same} }}\n"
    refl = "".join(f"{c}::g_refl(a.{f}, i - ({off})); " for (f, c), off in zip(t.get("ch", []), offs(t))) if t["kind"] == "struct" else \
        "match a { " + " ".join(f"{n}::{v}(x) => {v}Params::g_refl(x, i - 1)," for v in t["vs"]) + " }"
    o += f"    open spec fn usable(c: {n}Context) -> bool {{ " + {"TraderParams": "c.intervals@.len() > 0", "TradingParams": "TraderParams::usable(c.trader)"}.get(n, "true") + " }\n"
    o += f"    proof fn g_refl(a: Self, i: int) {{ {refl} }}\n"
    o += f"    proof fn g_laws(a: Self, b: Self, i: int) {{\n        {laws}}}\n"
    o += f"    proof fn g_whole(a: Self, b: Self) {{\n        {whole}}}\n"
    o += fn(ip, P + "len", ret="r")
    o += fn(ip, P + "generate")
    # a type without genes: `i < len()` is false, cross and mutate can never be called
    none = ("novis", "uncallable") if t["kind"] == "struct" and not t["ch"] + t["fs"] else ("novis",)
    o += fn(ip, P + "cross", flags=none)
    o += fn(ip, P + "mutate", flags=none)
    return o

def offs(t):
    out, off = [], "0int"
    for f, c in t["ch"]:
        out.append(off)
        off += f" + {c}::g_len()"
    return out

def c21(top, t, ip):
    n = t["name"]
    P = f"{n}::Chromosome::"
    hand = n == "TraderParams"
    if hand:
        ok, cv = "c.intervals@.contains(x.interval)", "c.intervals@.len() > 0 && forall|i: int| 0 <= i < c.intervals@.len() ==> (#[trigger] c.intervals@[i]).0 > 0"
    elif t["kind"] == "struct":
        ok = " && ".join([f"{ty}::ok(x.{f}, c.{f})" for f, ty in t["ch"]] + [f"{n}::ok_{f}(x.{f}) && (c.{f} is Some ==> x.{f} == c.{f}->0)" + (f" && (c.{f} is None ==> {FREE[n, f]})" if (n, f) in FREE else "") for f, _ in t["fs"]] or ["true"])
        cv = " && ".join([f"{ty}::cvalid(c.{f})" for f, ty in t["ch"]] + [f"(c.{f} is Some ==> {n}::ok_{f}(c.{f}->0))" for f, _ in t["fs"]] or ["true"])
    else:
        ok = "match (x, c) { " + " ".join(f"({n}::{v}(p), {n}Context::None) => {v}Params::ok(p, {v}ParamsContext::dv()), ({n}::{v}(p), {n}Context::{v}(d)) => {v}Params::ok(p, d)," for v in t["vs"]) + " _ => false }"
        cv = "match c { " + f"{n}Context::None => true, " + " ".join(f"{n}Context::{v}(d) => {v}Params::cvalid(d)," for v in t["vs"]) + " }"
    o = f"    open spec fn ok(x: Self, c: {n}Context) -> bool {{ {ok} }}\n"
    o += f"    open spec fn cvalid(c: {n}Context) -> bool {{ {cv} }}\n" + okv_lemmas(top, t)
    none = ("novis", "uncallable") if t["kind"] == "struct" and not t["ch"] + t["fs"] else ("novis",)
    o += fn(ip, P + "len", ret="r") + fn(ip, P + "generate", ret="x") + fn(ip, P + "cross", flags=none) + fn(ip, P + "mutate", flags=none)
    return o
def dflt(top, t, ex):
    n = t["name"] + "Context"
    if t["kind"] == "enum":
        dv = f"{n}::None"
    else:
        dv = f"{n} {{ " + ", ".join([f"{f}: {ty}Context::dv()" for f, ty in t["ch"]] + [f"{f}: None" for f, _ in t["fs"]]) + " }"
    return f"impl DfltX for {n} {{\n    open spec fn dv() -> Self {{ {dv} }}\n" + fn(ex, f"{n}::Default::default", ret="r", flags=("novis",)) + "}\n"

# ---- constructors (mode 21): constructing from valid parameters never fails, and how long until mature stays small ----
MAS = {"Alma": ("alma", "t1"), "Dema": ("dema", "t2"), "Ema": ("ema", "t1"), "Ema2": ("ema2", "t1"), "Kama": ("kama", "t2"), "Sma": ("sma", "t1"), "Smma": ("smma", "t2")}
def box_enum(dyn, names, wrap=()):
    o = f"pub enum {dyn} {{ " + ", ".join(f"{n}(Box<{n}>)" if n in wrap else f"{n}({n})" for n in names) + " }\n"
    for n in names:
        o += f"impl Boxed for {n} {{ type Dyn = {dyn}; open spec fn as_dyn(self) -> {dyn} {{ {dyn}::{n}({'Box::new(self)' if n in wrap else 'self'}) }} fn boxed(self) -> (r: {dyn}) {{ {dyn}::{n}({'Box::new(self)' if n in wrap else 'self'}) }} }}\n"
    return o
def box_mat(dyn, names):
    arms = lambda e: " ".join(f"{dyn}::{n}(x) => {e}," for n in names)
    return (f"impl {dyn} {{\n    pub open spec fn mok(self) -> bool {{ match self {{ {arms('x.mok()')} }} }}\n"
            f"    pub fn maturity(&self) -> (r: u32) requires self.mok() ensures 0 < r < 0x2000000 {{ match self {{ {arms('x.maturity()')} }} }}\n}}\n")
MATSPEC = "requires self.mok(),\nensures 0 < r < 0x2000000,"
def ctor_indicators():
    o = "// ---- indicators: constructors and maturities ----\npub mod indicators { use super::*;\nbroadcast use fl_axioms;\n"
    o += "pub trait Boxed: Sized { type Dyn; spec fn as_dyn(self) -> Self::Dyn; fn boxed(self) -> (r: Self::Dyn) ensures r == self.as_dyn(); }\npub fn dyn_box<T: Boxed>(t: T) -> (r: T::Dyn) ensures r == t.as_dyn() { t.boxed() }\n"
    for n in ["Sma", "Ema", "Ema2", "Smma", "Dema", "Kama", "Alma"]:
        f, m = MAS[n]
        src = f"juno/src/indicators/{f}.rs"
        o += item("struct", src, n)
        o += f"impl {n} {{\n    pub open spec fn mok(&self) -> bool {{ 0 < self.{m} < 0x400000 }}\n"
        o += fn(src, f"{n}::new", ret="r", flags=(("noauto",) if n == "Alma" else ()), spec=f"requires MAParams::{n}(*params).valid(),\nensures r.mok(),")
        o += fn(src, f"{n}::MA::maturity", ret="r", flags=(), spec="requires self.mok(),\nensures 0 < r < 0x400000,") + "}\n"
    o += box_enum("DynMa", MAS) + box_mat("DynMa", MAS).replace("0x2000000", "0x400000")
    src = "juno/src/indicators/mod.rs"
    o += "impl MAParams {\n" + fn(src, "MAParams::construct", ret="r", flags=(), spec="requires self.valid(),\nensures r.mok(),", extra="subst: Box::new => dyn_box\n")
    o += fn(src, "MAParams::period", ret="r", flags=(), spec="ensures r == self.n(),") + "}\n"
    def plain(n, f, req, mok, mat=True):
        src = f"juno/src/indicators/{f}.rs"
        o = item("struct", src, n) + f"impl {n} {{\n    pub open spec fn mok(&self) -> bool {{ {mok} }}\n"
        o += fn(src, f"{n}::new", ret="r", flags=(), spec=f"requires {req},\nensures r.mok(),")
        return o + (fn(src, f"{n}::maturity", ret="r", flags=(), spec=MATSPEC.replace("0x2", "0x1")) if mat else "") + "}\n"
    o += plain("Rsi", "rsi", "sane(period)", "0 < self.t1 < 0x1000000")
    o += plain("Macd", "macd", "sane(short_period), sane(long_period), sane(signal_period), short_period <= long_period", "self.short_ema.mok() && self.long_ema.mok() && self.signal_ema.mok()")
    o += plain("Stoch", "stoch", "sane(k_period), sane(k_sma_period), sane(d_sma_period)", "0 < self.t3 < 0x1000000")
    o += plain("DM", "dm", "sane(period)", "true", False) + plain("DX", "dx", "sane(period)", "true", False) + plain("Adx", "adx", "sane(period)", "true", False)
    return o + "}\npub use indicators::{DynMa, Boxed, dyn_box, Adx};\n"
def okv_lemmas(top, t):
    """valid(): what a consumer may rely on, whatever the context"""
    n = t["name"]
    if n == "TraderParams": v, pr = "x.interval.0 > 0", ""
    elif t["kind"] == "struct":
        v = " && ".join([f"{ty}::valid(x.{f})" for f, ty in t["ch"]] + [f"{n}::ok_{f}(x.{f})" for f, _ in t["fs"]] or ["true"])
        pr = "".join(f"{ty}::ok_valid(x.{f}, c.{f}); " for f, ty in t["ch"])
    else:
        v = "match x { " + " ".join(f"{n}::{w}(p) => {w}Params::valid(p)," for w in t["vs"]) + " }"
        pr = "match (x, c) { " + " ".join(f"({n}::{w}(p), {n}Context::None) => {{ {w}Params::ok_valid(p, {w}ParamsContext::dv()); }}, ({n}::{w}(p), {n}Context::{w}(d)) => {{ {w}Params::ok_valid(p, d); }}," for w in t["vs"]) + " _ => {} }"
    return f"    open spec fn valid(x: Self) -> bool {{ {v} }}\n    proof fn ok_valid(x: Self, c: {n}Context) {{ {pr} }}\n"
ADV = {"double_ma": "DoubleMA", "double_ma_2": "DoubleMA2", "stoch": "Stoch", "double_ma_stoch": "DoubleMAStoch", "four_week_rule": "FourWeekRule", "macd": "Macd", "rsi": "Rsi", "single_ma": "SingleMA", "triple_ma": "TripleMA", "sig": "Sig", "sig_osc": "SigOsc"}
MOK = {"DoubleMA": "self.short_ma.mok() && self.long_ma.mok()", "DoubleMA2": "self.short_ma.mok() && self.long_ma.mok()", "TripleMA": "self.short_ma.mok() && self.medium_ma.mok() && self.long_ma.mok()",
       "Stoch": "self.indicator.mok()", "Rsi": "self.indicator.mok()", "Macd": "self.macd.mok()", "DoubleMAStoch": "self.double_ma.mok() && self.stoch.mok()", "Sig": "0 < self.t1 < 0x4000000", "SigOsc": "0 < self.t1 < 0x4000000"}
def ctor(top, t, src):
    n = t["name"]
    if top == "trading": return ""
    s = n[:-6]
    if t["kind"] == "struct":
        if top == "strategies":
            o = item("struct", src, s) + f"impl {s} {{\n    pub open spec fn mok(&self) -> bool {{ {MOK.get(s, '0 < self.t1 < 0x2000000')} }}\n"
            par = "params"
            req = f"requires {n}::valid(*params)," + (" fits(*params, meta.interval)," if s == "Sig" else "")
            o += fn(src, f"{s}::new", ret="r", flags=(), spec=req + "\nensures r.mok(),")
            return o + fn(src, f"{s}::Strategy::maturity", ret="r", flags=(), spec=MATSPEC.replace("0x2", "0x4") if s in ("Sig", "SigOsc") else MATSPEC) + "}\n"
        par = "_params" if s == "Noop" else "params"
        return item("struct", src, s) + f"impl {s} {{\n" + fn(src, f"{s}::new", flags=(), spec=f"requires {n}::valid(*{par}),") + "}\n"
    dyn = {"stop_loss": "DynSl", "take_profit": "DynTp", "SignalParams": "DynSig", "OscillatorParams": "DynOsc", "StrategyParams": "DynStr"}[top if top != "strategies" else n]
    mat = top == "strategies"
    o = box_enum(dyn, t["vs"])
    if dyn == "DynStr":  # the same trait object type in the source: a larger enum here
        o = f"pub enum {dyn} {{ " + ", ".join(f"{v}({v})" for v in t["vs"]) + " }\n" + f"pub trait BoxStr: Sized {{ fn boxed_s(self) -> {dyn}; }}\npub fn str_box<T: BoxStr>(t: T) -> {dyn} {{ t.boxed_s() }}\n"
        o += "".join(f"impl BoxStr for {v} {{ fn boxed_s(self) -> {dyn} {{ {dyn}::{v}(self) }} }}\n" for v in t["vs"])
    elif mat:
        o += box_mat(dyn, t["vs"])
    ens = "\nensures r.mok()," if mat and dyn != "DynStr" else ""
    req = f"requires {n}::valid(*self)," + (" self is Sig ==> fits(self->Sig_0, meta.interval)," if dyn == "DynStr" else "")
    extra = "subst: Box::new => " + ("str_box" if dyn == "DynStr" else "dyn_box") + "\n" + ("tysubst: Box<dyn Signal> => DynStr\n" if dyn == "DynStr" else "")
    return o + f"impl {n} {{\n" + fn(src, f"{n}::construct", ret="r", flags=(), spec=req + ens, extra=extra) + "}\n"
if __name__ == "__main__":
    emit(18)
    emit(21)
