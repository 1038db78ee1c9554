// assumed: mutable sub-slices of a vector (`&mut v[..b]`, `&mut v[a..]`); std's contract, which this Verus does not supply
#[verifier::external_body]
pub fn range_mut_to<'a>(v: &'a mut Vec<u8>, b: usize) -> (r: &'a mut [u8])
    requires b <= old(v)@.len()
    ensures r@ == old(v)@.take(b as int), final(r)@.len() == r@.len(), final(v)@ == final(r)@ + old(v)@.skip(b as int)
{ &mut v[..b] }
#[verifier::external_body]
pub fn range_mut_from<'a>(v: &'a mut Vec<u8>, a: usize) -> (r: &'a mut [u8])
    requires a <= old(v)@.len()
    ensures r@ == old(v)@.skip(a as int), final(r)@.len() == r@.len(), final(v)@ == old(v)@.take(a as int) + final(r)@
{ &mut v[a..] }
//@rules ranges
& mut $v! [ .. $b ] => range_mut_to(&mut $v, $b)
& mut $v! [ $a .. ] => range_mut_from(&mut $v, $a)
//@end
