"""Writes verus/inc/decimal_ops.rs (operator contracts of BigDecimal) and verus/inc/value_ops.rs
(operator functions of Value, extracted).  Committed output; rerun only when editing the tables."""
import os
INC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "verus", "inc")
OPS = {"Add": ("add", "+"), "Sub": ("sub", "-"), "Mul": ("mul", "*")}
def specimpl(tr, fn, rhs, slf, lt, out, req="true", gen=""):
    g = f"<{', '.join(x for x in [lt, gen] if x)}>" if lt or gen else ""
    return (f"impl{g} {tr}SpecImpl<{rhs}> for {slf} {{\n    open spec fn obeys_{fn}_spec() -> bool {{ false }}\n"
            f"    open spec fn {fn}_req(self, rhs: {rhs}) -> bool {{ {req} }}\n    uninterp spec fn {fn}_spec(self, rhs: {rhs}) -> {out};\n}}\n")
def specimpl_assign(tr, fn, rhs, slf, lt, req="true", gen=""):
    g = f"<{', '.join(x for x in [lt, gen] if x)}>" if lt or gen else ""
    return (f"impl{g} {tr}SpecImpl<{rhs}> for {slf} {{\n    open spec fn obeys_{fn}_spec() -> bool {{ false }}\n"
            f"    open spec fn {fn}_req(&self, rhs: {rhs}) -> bool {{ {req} }}\n    uninterp spec fn {fn}_spec(&self, rhs: {rhs}) -> &Self;\n}}\n")
def bd():
    o = "// generated by tools/gen_ops.py: assumed contracts of bigdecimal's operators (exact arithmetic on the numbers)\n"
    B = "BigDecimal"
    for tr, slf, rhs in [(t, s, r) for t in ("Add", "Sub") for s, r in ((B, B), ("&'a "+B, B), (B, "&'a "+B), ("&'a "+B, "&'b "+B))] + [("Mul", "&'a "+B, B), ("Mul", "&'a "+B, "BigInt"), ("Mul", B, "BigInt")]:
        fn, op = OPS[tr]
        lt = ", ".join(l for l in ("'a", "'b") if l in slf + rhs)
        o += specimpl(tr, fn, rhs, slf, lt, B)
        g = f"<{lt}>" if lt else ""
        rv = "(rhs.int() as real)" if rhs == "BigInt" else "rhs.val()"
        o += (f"impl{g} {tr}<{rhs}> for {slf} {{\n    type Output = {B};\n    #[verifier::external_body]\n"
              f"    fn {fn}(self, rhs: {rhs}) -> (r: {B}) ensures r.val() == self.val() {op} {rv} {{ unimplemented!() }}\n}}\n")
    for tr, rhs in [(t, r) for t in ("AddAssign", "SubAssign") for r in (B, "&'a "+B)]:
        fn = {"AddAssign": "add_assign", "SubAssign": "sub_assign"}[tr]; op = "+" if tr[0] == "A" else "-"
        lt = "'a" if "'a" in rhs else ""
        o += specimpl_assign(tr, fn, rhs, B, lt)
        g = f"<{lt}>" if lt else ""
        o += (f"impl{g} {tr}<{rhs}> for {B} {{\n    #[verifier::external_body]\n"
              f"    fn {fn}(&mut self, rhs: {rhs}) ensures final(self).val() == old(self).val() {op} rhs.val() {{ unimplemented!() }}\n}}\n")
    open(os.path.join(INC, "decimal_ops.rs"), "w").write(o)
V = "core/src/value.rs"
def fnblock(hdr, fn, ens, extra=""):
    return f"    //@fn {V} | {hdr} | {fn}\n{extra}    //@spec\n        ensures {ens}\n    //@end\n"
def value():
    o = "// generated by tools/gen_ops.py: the operators of Value, extracted, against exact arithmetic\n"
    T = "Value<Rep>"
    rows = [("Add", T, T, "impl<Rep> Add for Value<Rep>"), ("Add", "&'a "+T, T, "impl<'a, Rep> Add<Value<Rep>> for &'a Value<Rep>"),
            ("Add", "&'a "+T, "&'a "+T, "impl<'a, Rep> Add for &'a Value<Rep>"), ("Add", T, "&'a "+T, "impl<'a, Rep> Add<&'a Value<Rep>> for Value<Rep>"),
            ("Sub", T, T, "impl<Rep> Sub for Value<Rep>"), ("Sub", T, "&'a "+T, "impl<'a, Rep> Sub<&'a Value<Rep>> for Value<Rep>"),
            ("Sub", "&'a "+T, "&'a "+T, "impl<'a, Rep> Sub for &'a Value<Rep>")]
    for tr, slf, rhs, hdr in rows:
        fn, op = OPS[tr]
        lt = "'a" if "'a" in slf + rhs else ""
        o += specimpl(tr, fn, rhs, slf, lt, T, gen="Rep")
        o += f"{hdr} {{\n    type Output = {T};\n" + fnblock(hdr, fn, f"r.val() == self.val() {op} rhs.val()", "    //@sig Self :: Output => Value<Rep>\n") + "}\n"
    for tr in ("AddAssign", "SubAssign"):
        fn = {"AddAssign": "add_assign", "SubAssign": "sub_assign"}[tr]; op = "+" if tr[0] == "A" else "-"
        for rhs, hdr in ((T, f"impl<Rep> {tr} for Value<Rep>"), ("&'a "+T, f"impl<'a, Rep> {tr}<&'a Value<Rep>> for Value<Rep>")):
            lt = "'a" if "'a" in rhs else ""
            o += specimpl_assign(tr, fn, rhs, T, lt, gen="Rep")
            o += f"{hdr} {{\n" + fnblock(hdr, fn, f"final(self).val() == old(self).val() {op} rhs.val()") + "}\n"
    for ty in ("u32", "usize"):
        for slf, hdr in ((T, f"impl<Rep> Mul<{ty}> for Value<Rep>"), ("&'a "+T, f"impl<'a, Rep> Mul<{ty}> for &'a Value<Rep>")):
            lt = "'a" if "'a" in slf else ""
            o += specimpl("Mul", "mul", ty, slf, lt, T, gen="Rep")
            o += f"{hdr} {{\n    type Output = {T};\n" + fnblock(hdr, "mul", "r.val() == self.val() * (rhs as int as real)", "    //@sig Self :: Output => Value<Rep>\n") + "}\n"
    open(os.path.join(INC, "value_ops.rs"), "w").write(o)
def balance():
    F = "core/src/balance.rs"
    B, T = "Balance<Rep>", "Value<Rep>"
    o = """// generated by tools/gen_ops.py: Balance and its operators, extracted
//@item core/src/balance.rs | enum | Balance
//@end
impl<Rep> Balance<Rep> {
    /// the signed amount
    pub open spec fn val(&self) -> real { match self { Balance::Debt(v) => -v.val(), Balance::Balanced => 0real, Balance::Excess(v) => v.val() } }
    /// canonical: zero is Balanced, and a magnitude is positive
    pub open spec fn wf(&self) -> bool { match self { Balance::Debt(v) => v.val() > 0real, Balance::Balanced => true, Balance::Excess(v) => v.val() > 0real } }
"""
    for n, e in (("zero", "r.wf(), r.val() == 0real"), ("in_debt", "r == (self is Debt), self.wf() ==> r == (self.val() < 0real)"), ("balanced", "r == (self is Balanced), self.wf() ==> r == (self.val() == 0real)"), ("in_excess", "r == (self is Excess), self.wf() ==> r == (self.val() > 0real)")):
        o += f"    //@fn {F} | impl<Rep> Balance<Rep> | {n}\n    //@spec\n        ensures {e}\n    //@end\n"
    o += f"    //@fn {F} | impl<Rep> Default for Balance<Rep> | default\n    //@spec\n        ensures r.wf(), r.val() == 0real\n    //@end\n}}\n"
    o += f"impl<Rep> Clone for Balance<Rep> {{\n    //@fn {F} | impl<Rep> Clone for Balance<Rep> | clone\n    //@spec\n        ensures r.val() == self.val(), r.wf() == self.wf(), r is Debt == self is Debt, r is Balanced == self is Balanced\n    //@end\n}}\n"
    o += f"""impl<Rep> PartialEqSpecImpl for Balance<Rep> {{
    open spec fn obeys_eq_spec() -> bool {{ true }}
    /// for balances in canonical form this is equality of the signed amounts
    open spec fn eq_spec(&self, o: &Self) -> bool {{
        (self is Debt <==> o is Debt) && (self is Balanced <==> o is Balanced) && self.val() == o.val()
    }}
}}
impl<Rep> PartialEq for Balance<Rep> {{
    //@fn {F} | impl<Rep> PartialEq for Balance<Rep> | eq
    //@rewrite lhs . eq ( rhs ) => (*lhs == *rhs)
    //@end
}}
"""
    rows = [("Add", B, B, "impl<Rep> Add for Balance<Rep>"), ("Add", "&'a "+B, "&'b "+T, "impl<'a, 'b, Rep> Add<&'b Value<Rep>> for &'a Balance<Rep>"), ("Add", B, T, "impl<Rep> Add<Value<Rep>> for Balance<Rep>"),
            ("Sub", "&'a "+B, "&'b "+T, "impl<'a, 'b, Rep> Sub<&'b Value<Rep>> for &'a Balance<Rep>"), ("Sub", B, T, "impl<Rep> Sub<Value<Rep>> for Balance<Rep>")]
    for tr, slf, rhs, hdr in rows:
        fn, op = OPS[tr]
        lt = ", ".join(l for l in ("'a", "'b") if l in slf + rhs)
        req = "self.wf() && rhs.wf()" if rhs == B else "self.wf() && rhs.val() >= 0real"
        o += specimpl(tr, fn, rhs, slf, lt, B, gen="Rep", req=req)
        o += f"{hdr} {{\n    type Output = {B};\n    //@fn {F} | {hdr} | {fn}\n    //@sig Self :: Output => Balance<Rep>\n    //@use balops\n    //@spec\n        ensures r.wf(), r.val() == self.val() {op} rhs.val()\n    //@end\n}}\n"
    for tr in ("AddAssign", "SubAssign"):
        fn = {"AddAssign": "add_assign", "SubAssign": "sub_assign"}[tr]; op = "+" if tr[0] == "A" else "-"
        for rhs, hdr in ((T, f"impl<Rep> {tr}<Value<Rep>> for Balance<Rep>"), ("&'a "+T, f"impl<'a, Rep> {tr}<&'a Value<Rep>> for Balance<Rep>")):
            lt = "'a" if "'a" in rhs else ""
            o += specimpl_assign(tr, fn, rhs, B, lt, gen="Rep", req="self.wf() && rhs.val() >= 0real")
            o += f"{hdr} {{\n    //@fn {F} | {hdr} | {fn}\n    //@use balops\n    //@spec\n        ensures final(self).wf(), final(self).val() == old(self).val() {op} rhs.val()\n    //@end\n}}\n"
    rules = """//@rules balops
use std :: cmp :: Ordering :: { Equal , Greater , Less } ; =>
( lhs + rhs ) => (lhs.add(rhs))
( rhs - lhs ) => (rhs.sub(lhs))
( lhs - rhs ) => (lhs.sub(rhs))
rhs == & Value :: zero ( ) => (*rhs == Value::zero())
( & * self ) + rhs => (&*self).add(rhs)
( & * self ) - rhs => (&*self).sub(rhs)
//@end
"""
    open(os.path.join(INC, "balance.rs"), "w").write(rules + o)
bd(); value(); balance()
