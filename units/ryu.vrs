//@include prelude_iso.vrs
//@include utf8.vrs
//@include float_model.vrs
//@props C09
// ---- the ryu crate (dependency): how it writes a double, given its shortest decimal --------
//@include digits.vrs
//@include ryu_spec.vrs
/// *mut u8 into the 24 bytes of a Buffer: what the bytes hold, and where it points
#[verifier::external_body]
pub struct Out { _p: () }
pub struct OutV { pub mem: Seq<Option<u8>>, pub at: int }
impl View for Out { type V = OutV; uninterp spec fn view(&self) -> OutV; }
pub open spec fn within(o: OutV, i: int, n: int) -> bool { o.mem.len() == 24 && 0 <= o.at + i && o.at + i + n <= 24 }
impl Out {
    /// pointer::offset, used while the pointer it came from is not
    #[verifier::external_body]
    pub fn vx_off(&mut self, i: isize) -> (r: &mut Out)
        requires within(old(self)@, i as int, 0),
        ensures r@ == (OutV { mem: old(self)@.mem, at: old(self)@.at + i }), final(self)@ == (OutV { mem: final(r)@.mem, at: old(self)@.at }),
    { unimplemented!() }
    /// p = p.add(n)
    #[verifier::external_body]
    pub fn vx_fwd(&mut self, n: usize)
        requires within(old(self)@, n as int, 0),
        ensures final(self)@ == (OutV { at: old(self)@.at + n, ..old(self)@ }),
    { unimplemented!() }
    /// p = p.sub(n)
    #[verifier::external_body]
    pub fn vx_back(&mut self, n: usize)
        requires within(old(self)@, -(n as int), 0),
        ensures final(self)@ == (OutV { at: old(self)@.at - n, ..old(self)@ }),
    { unimplemented!() }
    /// *p.offset(i) = b
    #[verifier::external_body]
    pub fn vx_set(&mut self, i: isize, b: u8)
        requires within(old(self)@, i as int, 1),
        ensures final(self)@ == (OutV { mem: old(self)@.mem.update(old(self)@.at + i, Some(b)), at: old(self)@.at }),
    { unimplemented!() }
    /// *p.offset(i)
    #[verifier::external_body]
    pub fn vx_get(&self, i: isize) -> (r: u8)
        requires within(self@, i as int, 1), self@.mem[self@.at + i] is Some,
        ensures self@.mem[self@.at + i] == Some(r),
    { unimplemented!() }
    /// ptr::copy_nonoverlapping of two bytes of the table to p.offset(i)
    #[verifier::external_body]
    pub fn vx_pair(&mut self, i: isize, table: &[u8; 200], o: isize)
        requires within(old(self)@, i as int, 2), 0 <= o, o + 2 <= 200,
        ensures final(self)@ == (OutV { mem: old(self)@.mem.update(old(self)@.at + i, Some(table[o as int])).update(old(self)@.at + i + 1, Some(table[o + 1])), at: old(self)@.at }),
    { unimplemented!() }
    /// ptr::copy_nonoverlapping of a constant
    #[verifier::external_body]
    pub fn vx_bytes(&mut self, i: isize, b: &[u8; 3])
        requires within(old(self)@, i as int, 3),
        ensures put(old(self)@.mem, final(self)@.mem, old(self)@.at + i, b@), final(self)@.at == old(self)@.at,
    { unimplemented!() }
    /// ptr::copy within the buffer
    #[verifier::external_body]
    pub fn vx_copy(&mut self, src: isize, dst: isize, n: usize)
        requires within(old(self)@, src as int, n as int), within(old(self)@, dst as int, n as int),
        ensures final(self)@.at == old(self)@.at, final(self)@.mem.len() == 24,
            forall|j: int| 0 <= j < 24 ==> #[trigger] final(self)@.mem[j] == (if old(self)@.at + dst <= j < old(self)@.at + dst + n { old(self)@.mem[j - dst + src] } else { old(self)@.mem[j] }),
    { unimplemented!() }
}
/// `t` was written at `p`, nothing else
pub open spec fn put(a: Seq<Option<u8>>, b: Seq<Option<u8>>, p: int, t: Seq<u8>) -> bool {
    a.len() == 24 && b.len() == 24 && 0 <= p && p + t.len() <= 24
        && forall|i: int| 0 <= i < 24 ==> #[trigger] b[i] == (if p <= i < p + t.len() { Some(t[i - p]) } else { a[i] })
}
pub proof fn lem_put_left(a: Seq<Option<u8>>, b: Seq<Option<u8>>, c: Seq<Option<u8>>, p: int, t: Seq<u8>, u: Seq<u8>)
    requires put(a, b, p, t), put(b, c, p - u.len(), u),
    ensures put(a, c, p - u.len(), u + t),
{
    assert forall|i: int| 0 <= i < 24 implies #[trigger] c[i] == (if p - u.len() <= i < p + t.len() { Some((u + t)[i - (p - u.len())]) } else { a[i] }) by { let x = b[i]; }
}
pub proof fn lem_put_right(a: Seq<Option<u8>>, b: Seq<Option<u8>>, c: Seq<Option<u8>>, p: int, t: Seq<u8>, u: Seq<u8>)
    requires put(a, b, p, t), put(b, c, p + t.len(), u),
    ensures put(a, c, p, t + u),
{
    assert forall|i: int| 0 <= i < 24 implies #[trigger] c[i] == (if p <= i < p + t.len() + u.len() { Some((t + u)[i - p]) } else { a[i] }) by { let x = b[i]; }
}
pub proof fn lem_shl()
    ensures forall|x: u32| x < 1000 ==> #[trigger] (x << 1u32) == 2 * x
{ assert(forall|x: u32| x < 1000 ==> #[trigger] (x << 1u32) == 2 * x) by (bit_vector); }
pub proof fn lem_pair_put(a: Seq<Option<u8>>, p: int, x: u8, y: u8)
    requires a.len() == 24, 0 <= p, p + 2 <= 24,
    ensures put(a, a.update(p, Some(x)).update(p + 1, Some(y)), p, seq![x, y])
{ }
//@static DIGIT_TABLE
    ensures forall|i: int| 0 <= i < 200 ==> (#[trigger] DIGIT_TABLE[i]) == pd(i),
//@end
/// a failed debug assertion: never reached
#[verifier::external_body]
pub fn vx_panic(m: &str) -> (r: ()) requires false { unimplemented!() }
//@map :: core :: panicking :: panic => vx_panic
//@map * mut u8 => &mut Out
//@map Float => Sealed
/// the last digits of n
pub open spec fn four(n: int) -> Seq<u8> { seq![(0x30 + n / 1000 % 10) as u8, (0x30 + n / 100 % 10) as u8, (0x30 + n / 10 % 10) as u8, (0x30 + n % 10) as u8] }
pub open spec fn two(n: int) -> Seq<u8> { seq![(0x30 + n / 10 % 10) as u8, (0x30 + n % 10) as u8] }
/// four digits as two entries of the table
pub proof fn lem_four_put(a: Seq<Option<u8>>, b: Seq<Option<u8>>, p: int, n: int, x: int, y: int)
    requires a.len() == 24, 4 <= p <= 24, n >= 0, x == n % 10000 / 100, y == n % 10000 % 100,
        b == a.update(p - 2, Some(pd(2 * y))).update(p - 1, Some(pd(2 * y + 1))).update(p - 4, Some(pd(2 * x))).update(p - 3, Some(pd(2 * x + 1))),
    ensures put(a, b, p - 4, four(n)),
{
    lem_pairs(n, x, y);
    let t = four(n);
    assert forall|i: int| 0 <= i < 24 implies #[trigger] b[i] == (if p - 4 <= i < p { Some(t[i - (p - 4)]) } else { a[i] }) by { }
}
/// at most four digits, by pairs
pub proof fn lem_rest_put(a: Seq<Option<u8>>, b: Seq<Option<u8>>, p: int, n: int)
    requires a.len() == 24, p_nat(n).len() <= p <= 24, 0 <= n < 10000,
        n < 10 ==> b == a.update(p - 1, Some((0x30 + n) as u8)),
        10 <= n < 100 ==> b == a.update(p - 2, Some(pd(2 * n))).update(p - 1, Some(pd(2 * n + 1))),
        100 <= n < 1000 ==> b == a.update(p - 2, Some(pd(2 * (n % 100)))).update(p - 1, Some(pd(2 * (n % 100) + 1))).update(p - 3, Some((0x30 + n / 100) as u8)),
        1000 <= n ==> b == a.update(p - 2, Some(pd(2 * (n % 100)))).update(p - 1, Some(pd(2 * (n % 100) + 1))).update(p - 4, Some(pd(2 * (n / 100)))).update(p - 3, Some(pd(2 * (n / 100) + 1))),
    ensures put(a, b, p - p_nat(n).len(), p_nat(n)),
{
    lem_last(n); lem_last(n / 100); lem_digits(n);
    if n >= 10 { lem_two(n); lem_pair(n % 100); lem_rem(n); }
    if n >= 1000 { lem_two(n / 100); lem_pair(n / 100); lem_last(n / 10000); }
}
//@fn write_mantissa
//@params output result
//@subst ptr :: copy_nonoverlapping (DIGIT_TABLE . as_ptr () . offset (c0 as isize) , result . sub (2) , 2) => result.vx_pair(-2, &DIGIT_TABLE, c0 as isize)
//@subst ptr :: copy_nonoverlapping (DIGIT_TABLE . as_ptr () . offset (c1 as isize) , result . sub (4) , 2) => result.vx_pair(-4, &DIGIT_TABLE, c1 as isize)
//@subst ptr :: copy_nonoverlapping (DIGIT_TABLE . as_ptr () . offset (c as isize) , result . sub (2) , 2) => result.vx_pair(-2, &DIGIT_TABLE, c as isize)
//@subst result = result . sub (4) => result.vx_back(4)
//@subst result = result . sub (2) => result.vx_back(2)
//@subst * result . sub (1) = b'0' + output as u8 => result.vx_set(-1, b'0' + output as u8)
    requires within(old(result)@, -(p_nat(output as int).len() as int), p_nat(output as int).len() as int),
    ensures put(old(result)@.mem, final(result)@.mem, old(result)@.at - p_nat(output as int).len(), p_nat(output as int)),
//@pre
    hide(p_nat); hide(pre); hide(pd);
    let ghost v = output as int;
    let ghost m0 = result@.mem;
    let ghost a0 = result@.at;
    let ghost mut t = Seq::<u8>::empty();
    proof { lem_shl(); lem_digits(v); assert(p_nat(v) =~= p_nat(v) + t); }
//@loop 1
    invariant
        a0 - p_nat(v).len() >= 0, a0 <= 24, p_nat(v) == p_nat(output as int) + t, put(m0, result@.mem, result@.at, t), result@.at + t.len() == a0,
        forall|x: u32| x < 1000 ==> #[trigger] (x << 1u32) == 2 * x,
    decreases output,
//@in_loop 1
    let ghost n0 = output as int;
    let ghost b0 = result@.mem;
    let ghost p0 = result@.at;
    proof { lem_four(n0); lem_last(n0); lem_last(n0 / 10000); lem_digits(n0 / 10000); }
//@end_loop 1
    proof {
        lem_four_put(b0, result@.mem, p0, n0, n0 % 10000 / 100, n0 % 10000 % 100);
        lem_put_left(m0, b0, result@.mem, p0, t, four(n0));
        assert(p_nat(v) =~= p_nat(output as int) + (four(n0) + t));
        t = four(n0) + t;
    }
//@after_loop 1
    let ghost n1 = output as int;
    let ghost b1 = result@.mem;
    let ghost p1 = result@.at;
    let ghost t1 = t;
    proof { lem_digits(n1); lem_last(n1); lem_last(n1 / 100); lem_last(n1 / 10); if n1 >= 10 { lem_two(n1); } if n1 >= 1000 { lem_two(n1 / 100); lem_last(n1 / 1000); lem_last(n1 / 10000); } }
//@after TAIL
    proof {
        let b = result@.mem;
        let u = p_nat(n1);
        lem_rest_put(b1, b, p1, n1);
        lem_put_left(m0, b1, b, p1, t1, u);
    }
//@end
pub proof fn lem_shr32(x: u64)
    ensures (x >> 32u64) != 0 <==> x >= 0x1_0000_0000
{ assert((x >> 32u64) != 0 <==> x >= 0x1_0000_0000u64) by (bit_vector); }
/// the last eight digits by fours
pub proof fn lem_eight(n: int)
    requires n >= 0x1_0000_0000, n < 100_000_000_000_000_000,
    ensures p_nat(n) == p_nat(n / 100_000_000) + (four(n / 10000) + four(n)), 1 <= n / 100_000_000 < 1_000_000_000,
        n % 100_000_000 % 10000 == n % 10000, n % 100_000_000 / 10000 % 10000 == n / 10000 % 10000,
        p_nat(n).len() == p_nat(n / 100_000_000).len() + 8,
{
    lem_last(n); lem_four(n); lem_four(n / 10000); lem_last(n / 100_000_000);
    assert(n / 10000 / 10000 == n / 100_000_000);
    assert(p_nat(n) =~= p_nat(n / 100_000_000) + (four(n / 10000) + four(n)));
}
//@fn write_mantissa_long
//@params output result
//@subst ptr :: copy_nonoverlapping (DIGIT_TABLE . as_ptr () . offset (c0 as isize) , result . sub (2) , 2) => result.vx_pair(-2, &DIGIT_TABLE, c0 as isize)
//@subst ptr :: copy_nonoverlapping (DIGIT_TABLE . as_ptr () . offset (c1 as isize) , result . sub (4) , 2) => result.vx_pair(-4, &DIGIT_TABLE, c1 as isize)
//@subst ptr :: copy_nonoverlapping (DIGIT_TABLE . as_ptr () . offset (d0 as isize) , result . sub (6) , 2) => result.vx_pair(-6, &DIGIT_TABLE, d0 as isize)
//@subst ptr :: copy_nonoverlapping (DIGIT_TABLE . as_ptr () . offset (d1 as isize) , result . sub (8) , 2) => result.vx_pair(-8, &DIGIT_TABLE, d1 as isize)
//@subst result = result . sub (8) => result.vx_back(8)
    requires output < 100_000_000_000_000_000, within(old(result)@, -(p_nat(output as int).len() as int), p_nat(output as int).len() as int),
    ensures put(old(result)@.mem, final(result)@.mem, old(result)@.at - p_nat(output as int).len(), p_nat(output as int)),
//@pre
    hide(p_nat); hide(pre); hide(pd);
    let ghost v = output as int;
    let ghost m0 = result@.mem;
    let ghost a0 = result@.at;
    proof { lem_shl(); lem_shr32(output); lem_digits(v); if v >= 0x1_0000_0000 { lem_eight(v); } }
//@before write_mantissa
    let ghost m1 = result@.mem;
    proof {
        if v >= 0x1_0000_0000 {
            let x = v % 10000; let y = v / 10000 % 10000;
            let b = m0.update(a0 - 2, Some(pd(2 * (x % 100)))).update(a0 - 1, Some(pd(2 * (x % 100) + 1))).update(a0 - 4, Some(pd(2 * (x / 100)))).update(a0 - 3, Some(pd(2 * (x / 100) + 1)));
            lem_four_put(m0, b, a0, v, x / 100, x % 100);
            lem_four_put(b, m1, a0 - 4, v / 10000, y / 100, y % 100);
            lem_put_left(m0, b, m1, a0 - 4, four(v), four(v / 10000));
        }
    }
//@after TAIL
    proof { if v >= 0x1_0000_0000 { lem_put_left(m0, m1, result@.mem, a0 - 8, four(v / 10000) + four(v), p_nat(v / 100_000_000)); } }
//@end
pub proof fn lem_one_put(a: Seq<Option<u8>>, p: int, x: u8)
    requires a.len() == 24, 0 <= p < 24,
    ensures put(a, a.update(p, Some(x)), p, seq![x])
{ }
/// the digits of an exponent
pub open spec fn exp_bytes(a: Seq<Option<u8>>, b: Seq<Option<u8>>, p: int, n: int) -> bool {
    if n < 10 { b == a.update(p, Some((0x30 + n) as u8)) }
    else if n < 100 { b == a.update(p, Some(pd(2 * n))).update(p + 1, Some(pd(2 * n + 1))) }
    else { b == a.update(p, Some((0x30 + n / 100) as u8)).update(p + 1, Some(pd(2 * (n % 100)))).update(p + 2, Some(pd(2 * (n % 100) + 1))) }
}
/// how many digits a number below 1000 has
pub proof fn lem_three(n: int)
    requires 0 <= n < 1000,
    ensures p_nat(n).len() == (if n < 10 { 1int } else if n < 100 { 2 } else { 3 })
{ lem_last(n); lem_last(n / 100); if n >= 10 { lem_two(n); } }
pub proof fn lem_fit(n: int)
    requires 0 <= n < 1000
    ensures 0 <= n % 100 < 100, 0 <= n / 100 < 10
{ }
pub proof fn lem_exp_put(a: Seq<Option<u8>>, b: Seq<Option<u8>>, p: int, n: int)
    requires a.len() == 24, 0 <= p, p + p_nat(n).len() <= 24, 0 <= n < 1000, exp_bytes(a, b, p, n),
    ensures put(a, b, p, p_nat(n)), n < 10 ==> p_nat(n).len() == 1, 10 <= n < 100 ==> p_nat(n).len() == 2, 100 <= n ==> p_nat(n).len() == 3
{
    lem_last(n); lem_last(n / 100); lem_digits(n);
    if n >= 10 { lem_two(n); lem_pair(n % 100); lem_rem(n); }
}
/// division of isize (Verus has it for unsigned integers only)
pub fn vx_div(a: isize, b: isize) -> (r: isize) requires a >= 0, b > 0 ensures r == a / b { (a as usize / b as usize) as isize }
pub fn vx_rem(a: isize, b: isize) -> (r: isize) requires a >= 0, b > 0 ensures r == a % b { (a as usize % b as usize) as isize }
//@fn write_exponent3
//@ret r
//@params k result
//@subst * result = b'-' => result.vx_set(0, b'-')
//@subst result = result . add (1) => result.vx_fwd(1)
//@subst * result = b'0' + (k / 100) as u8 => result.vx_set(0, b'0' + vx_div(k, 100) as u8)
//@subst k %= 100 => k = vx_rem(k, 100)
//@subst * result = b'0' + k as u8 => result.vx_set(0, b'0' + k as u8)
//@subst DIGIT_TABLE . as_ptr () . offset (k * 2) => k * 2
//@subst ptr :: copy_nonoverlapping (d , result . add (1) , 2) => result.vx_pair(1, &DIGIT_TABLE, d)
//@subst ptr :: copy_nonoverlapping (d , result , 2) => result.vx_pair(0, &DIGIT_TABLE, d)
    requires -1000 < k < 1000, within(old(result)@, 0, p_int(k as int).len() as int),
    ensures put(old(result)@.mem, final(result)@.mem, old(result)@.at, p_int(k as int)), r == p_int(k as int).len(),
//@pre
    hide(p_nat); hide(pre); hide(pd);
    let ghost k0 = k as int;
    let ghost m0 = result@.mem;
    let ghost a0 = result@.at;
    let ghost n = if k0 < 0 { -k0 } else { k0 };
    let ghost p = if k0 < 0 { a0 + 1 } else { a0 };
    let ghost m1 = if k0 < 0 { m0.update(a0, Some(0x2du8)) } else { m0 };
    proof {
        lem_digits(n); lem_pair(n % 100); lem_fit(n); lem_three(n);
        assert forall|b: Seq<Option<u8>>| exp_bytes(m1, b, p, n) implies #[trigger] put(m0, b, a0, p_int(k0)) by {
            lem_exp_put(m1, b, p, n);
            if k0 < 0 { lem_one_put(m0, a0, 0x2du8); lem_put_right(m0, m1, b, a0, seq![0x2du8], p_nat(n)); }
        }
    }
//@end
/// a number from 10^k on has more than k digits
pub proof fn lem_wide(n: int, k: nat)
    requires n >= pow(10, k),
    ensures p_nat(n).len() > k,
    decreases k,
{
    reveal_with_fuel(pow, 2);
    if k > 0 {
        lem_pow_pos((k - 1) as nat);
        assert(n >= 10);
        assert(n / 10 >= pow(10, (k - 1) as nat)) by (nonlinear_arith) requires n >= 10 * pow(10, (k - 1) as nat);
        lem_wide(n / 10, (k - 1) as nat);
    } else { lem_digits(n); }
}
pub proof fn lem_pow_pos(k: nat) ensures pow(10, k) >= 1 decreases k { if k > 0 { lem_pow_pos((k - 1) as nat); } }
pub proof fn lem_pows()
    ensures pow(10, 0) == 1, pow(10, 1) == 10, pow(10, 2) == 100, pow(10, 3) == 1000, pow(10, 4) == 10000, pow(10, 5) == 100000, pow(10, 6) == 1000000, pow(10, 7) == 10000000, pow(10, 8) == 100000000, pow(10, 9) == 1000000000, pow(10, 10) == 10000000000, pow(10, 11) == 100000000000, pow(10, 12) == 1000000000000, pow(10, 13) == 10000000000000, pow(10, 14) == 100000000000000, pow(10, 15) == 1000000000000000, pow(10, 16) == 10000000000000000, pow(10, 17) == 100000000000000000,
{
    assert(pow(10, 0) == 1) by (compute);
    assert(pow(10, 1) == 10) by (compute);
    assert(pow(10, 2) == 100) by (compute);
    assert(pow(10, 3) == 1000) by (compute);
    assert(pow(10, 4) == 10000) by (compute);
    assert(pow(10, 5) == 100000) by (compute);
    assert(pow(10, 6) == 1000000) by (compute);
    assert(pow(10, 7) == 10000000) by (compute);
    assert(pow(10, 8) == 100000000) by (compute);
    assert(pow(10, 9) == 1000000000) by (compute);
    assert(pow(10, 10) == 10000000000) by (compute);
    assert(pow(10, 11) == 100000000000) by (compute);
    assert(pow(10, 12) == 1000000000000) by (compute);
    assert(pow(10, 13) == 10000000000000) by (compute);
    assert(pow(10, 14) == 100000000000000) by (compute);
    assert(pow(10, 15) == 1000000000000000) by (compute);
    assert(pow(10, 16) == 10000000000000000) by (compute);
    assert(pow(10, 17) == 100000000000000000) by (compute);
}
pub proof fn lem_count(v: int, k: nat)
    requires 1 <= k <= 17, k == 1 ==> v >= 0, k > 1 ==> v >= pow(10, (k - 1) as nat), v < pow(10, k),
    ensures p_nat(v).len() == k
{ lem_pow_pos((k - 1) as nat); lem_width(v, k); if k > 1 { lem_wide(v, (k - 1) as nat); } else { lem_digits(v); } }
//@fn decimal_length17
//@ret r
//@params v
    requires v < 100_000_000_000_000_000,
    ensures r == p_nat(v as int).len(), 1 <= r <= 17,
//@pre
    hide(p_nat); hide(pow);
    proof {
        lem_pows();
        if v < 10 { lem_count(v as int, 1); }
        if v < 100 && v >= 10 { lem_count(v as int, 2); }
        if v < 1000 && v >= 100 { lem_count(v as int, 3); }
        if v < 10000 && v >= 1000 { lem_count(v as int, 4); }
        if v < 100000 && v >= 10000 { lem_count(v as int, 5); }
        if v < 1000000 && v >= 100000 { lem_count(v as int, 6); }
        if v < 10000000 && v >= 1000000 { lem_count(v as int, 7); }
        if v < 100000000 && v >= 10000000 { lem_count(v as int, 8); }
        if v < 1000000000 && v >= 100000000 { lem_count(v as int, 9); }
        if v < 10000000000 && v >= 1000000000 { lem_count(v as int, 10); }
        if v < 100000000000 && v >= 10000000000 { lem_count(v as int, 11); }
        if v < 1000000000000 && v >= 100000000000 { lem_count(v as int, 12); }
        if v < 10000000000000 && v >= 1000000000000 { lem_count(v as int, 13); }
        if v < 100000000000000 && v >= 10000000000000 { lem_count(v as int, 14); }
        if v < 1000000000000000 && v >= 100000000000000 { lem_count(v as int, 15); }
        if v < 10000000000000000 && v >= 1000000000000000 { lem_count(v as int, 16); }
        if v < 100000000000000000 && v >= 10000000000000000 { lem_count(v as int, 17); }
    }
//@end
//@known d2d
/// d2s::d2d: the shortest decimal
pub struct FloatingDecimal64 { pub mantissa: u64, pub exponent: i32 }
#[verifier::external_body]
pub fn d2d(mant: u64, expo: u32) -> (r: FloatingDecimal64)
    requires mant < 0x10_0000_0000_0000, expo < 0x7ff, mant != 0 || expo != 0,
    ensures r.mantissa == dec_m(mant, expo), r.exponent == dec_k(mant, expo), dec_ok(dec_m(mant, expo), dec_k(mant, expo)),
{ unimplemented!() }
/// f64::to_bits
#[verifier::external_body]
pub fn vx_bits(f: f64) -> (r: u64) ensures r == f_bits(f) { f.to_bits() }
//@item d2s::DOUBLE_EXPONENT_BITS
//@item d2s::DOUBLE_MANTISSA_BITS
pub proof fn lem_fields(b: u64)
    ensures ((b >> 63u64) & 1u64) != 0 <==> b_neg(b), b & 0xf_ffff_ffff_ffffu64 == b_mant(b), ((b >> 52u64) as u32) & 0x7ffu32 == b_expo(b),
        (1u64 << 52u64) == 0x10_0000_0000_0000, (1u32 << 11u32) == 0x800, b_expo(b) <= 0x7ff, b_mant(b) < 0x10_0000_0000_0000,
{
    assert(((b >> 63u64) & 1u64) != 0 <==> b >= 0x8000_0000_0000_0000u64) by (bit_vector);
    assert(b & 0xf_ffff_ffff_ffffu64 == b % 0x10_0000_0000_0000u64) by (bit_vector);
    assert(((b >> 52u64) as u32) & 0x7ffu32 == ((b / 0x10_0000_0000_0000u64 % 0x800u64) as u32)) by (bit_vector);
    assert((1u64 << 52u64) == 0x10_0000_0000_0000u64) by (bit_vector);
    assert((1u32 << 11u32) == 0x800u32) by (bit_vector);
}
/// the digits moved one to the left up to e, and a point after them
pub proof fn lem_point(a: Seq<Option<u8>>, b: Seq<Option<u8>>, c: Seq<Option<u8>>, x: int, d: Seq<u8>, e: int)
    requires put(a, b, x + 1, d), 0 < e < d.len() || e == d.len(), 0 <= x, e > 0, c.len() == 24,
        c[x + e] == Some(0x2eu8),
        forall|j: int| 0 <= j < 24 && j != x + e ==> #[trigger] c[j] == (if x <= j < x + e { b[j + 1] } else { b[j] }),
    ensures put(a, c, x, d.take(e) + seq![0x2eu8] + d.skip(e))
{
    let t = d.take(e) + seq![0x2eu8] + d.skip(e);
    assert(t.len() == d.len() + 1);
    assert forall|i: int| 0 <= i < 24 implies #[trigger] c[i] == (if x <= i < x + t.len() { Some(t[i - x]) } else { a[i] }) by { let y = b[i]; if i < 23 { let z = b[i + 1]; } }
}
pub proof fn lem_sci(a: Seq<Option<u8>>, b: Seq<Option<u8>>, c: Seq<Option<u8>>, x: int, d: Seq<u8>)
    requires put(a, b, x + 1, d), 0 <= x, d.len() >= 1, x + d.len() + 2 <= 24,
        c == b.update(x, b[x + 1]).update(x + 1, Some(0x2eu8)).update(x + d.len() + 1, Some(0x65u8)),
    ensures put(a, c, x, d.take(1) + seq![0x2eu8] + d.skip(1) + seq![0x65u8])
{
    let t = d.take(1) + seq![0x2eu8] + d.skip(1) + seq![0x65u8];
    assert(t.len() == d.len() + 2);
    assert forall|i: int| 0 <= i < 24 implies #[trigger] c[i] == (if x <= i < x + t.len() { Some(t[i - x]) } else { a[i] }) by { let y = b[i]; let w = b[x + 1]; }
}
pub proof fn lem_single(n: int)
    requires 1 <= n, p_nat(n).len() == 1,
    ensures n < 10, p_nat(n) == seq![(0x30 + n) as u8]
{ if n >= 10 { lem_digits(n / 10); } }
pub proof fn lem_int_len(e: int)
    requires -1000 < e < 1000,
    ensures p_int(e).len() <= 4
{ lem_three(if e < 0 { -e } else { e }); }
//@fn format64
//@ret r
//@params f result
//@subst f . to_bits () => vx_bits(f)
//@subst d2s :: decimal_length17 => decimal_length17
//@subst * result = b'-' => result.vx_set(0, b'-')
//@subst ptr :: copy_nonoverlapping ((& [48u8 , 46u8 , 48u8]) . as_ptr () , result . offset (index) , 3) => result.vx_bytes(index, & [48u8 , 46u8 , 48u8])
//@subst result . offset (index + length) => result.vx_off(index + length)
//@subst * result . offset (index + i) = b'0' => result.vx_set(index + i, b'0')
//@subst * result . offset (index + kk) = b'.' => result.vx_set(index + kk, b'.')
//@subst * result . offset (index + kk + 1) = b'0' => result.vx_set(index + kk + 1, b'0')
//@subst result . offset (index + length + 1) => result.vx_off(index + length + 1)
//@subst ptr :: copy (result . offset (index + 1) , result . offset (index) , kk as usize) => result.vx_copy(index + 1, index, kk as usize)
//@subst * result . offset (index) = b'0' + v . mantissa as u8 => result.vx_set(index, b'0' + v.mantissa as u8)
//@subst * result . offset (index) = b'0' => result.vx_set(index, b'0')
//@subst * result . offset (index + 1) = b'.' => result.vx_set(index + 1, b'.')
//@subst result . offset (index + length + offset) => result.vx_off(index + length + offset)
//@subst * result . offset (index + 1) = b'e' => result.vx_set(index + 1, b'e')
//@subst result . offset (index + 2) => result.vx_off(index + 2)
//@subst * result . offset (index) = * result . offset (index + 1) => let vx_b = result.vx_get(index + 1); result.vx_set(index, vx_b)
//@subst * result . offset (index + length + 1) = b'e' => result.vx_set(index + length + 1, b'e')
//@subst result . offset (index + length + 2) => result.vx_off(index + length + 2)
    requires within(old(result)@, 0, 24), f_finite(f),
    ensures put(old(result)@.mem, final(result)@.mem, 0, ryu_text(f)), r == ryu_text(f).len(),
//@pre
    hide(p_nat); hide(b_mant); hide(b_expo);
    proof { reveal(ryu_text); ax_finite_bits(f); }
    let ghost b = f_bits(f);
    let ghost sg = if b_neg(b) { seq![0x2du8] } else { Seq::<u8>::empty() };
    let ghost m0 = result@.mem;
    let ghost ms = if b_neg(b) { m0.update(0, Some(0x2du8)) } else { m0 };
    proof {
        lem_fields(b);
        if b_neg(b) { lem_one_put(m0, 0, 0x2du8); } else { assert(put(m0, ms, 0, sg)); }
    }
//@after copy_nonoverlapping
    proof { lem_put_right(m0, ms, result@.mem, 0, sg, b_zero()); }
//@after decimal_length17
    let ghost n = v.mantissa as int;
    let ghost d = p_nat(n);
    let ghost e = d.len() + v.exponent as int;
    let ghost x = index as int;
    let ghost t = ryu_dec(n, v.exponent as int);
    let ghost mut ma = ms;
    let ghost mut md = ms;
    proof {
        lem_digits(n); lem_int_len(e - 1);
        if d.len() == 1 { lem_single(n); }
        assert forall|c: Seq<Option<u8>>| put(ms, c, x, t) implies #[trigger] put(m0, c, 0, ryu_text(f)) by { lem_put_right(m0, ms, c, 0, sg, t); }
    }
//@after write_mantissa_long
    proof {
        ma = result@.mem;
        if -5 < e && e <= 0 {
            lem_put_right(ms, md, ma, x, seq![0x30u8, 0x2e] + zeros(-e), d);
            assert(put(m0, ma, 0, ryu_text(f)));
        } else if v.exponent >= 0 && e <= 16 { assert(put(ms, ma, x, d)); }
        else { assert(put(ms, ma, x + 1, d)); assert(ma[x + 1] == Some(d[0])); }
    }
//@before_loop 1
    proof { assert(put(ma, ma, x + d.len(), zeros(0))); }
//@loop 1
    invariant
        x == index, 0 <= x <= 1, d.len() <= 17, length == d.len(), kk == e, 0 <= e <= 16, length <= __vx_i1, __vx_i1 <= kk, __vx_hi2 == kk,
        result@.at == 0, put(ma, result@.mem, x + d.len(), zeros(__vx_i1 - d.len())),
    decreases kk - __vx_i1,
//@in_loop 1
    let ghost b0 = result@.mem;
    let ghost j0 = __vx_i1 as int;
//@end_loop 1
    proof {
        lem_one_put(b0, x + j0, 0x30u8);
        lem_put_right(ma, b0, result@.mem, x + d.len(), zeros(j0 - d.len()), seq![0x30u8]);
        assert(zeros(j0 - d.len()) + seq![0x30u8] =~= zeros(j0 + 1 - d.len()));
    }
//@after_loop 1
    proof {
        let c = result@.mem;
        lem_put_right(ms, ma, c, x, d, zeros(e - d.len()));
        let g = c.update(x + e, Some(0x2eu8)).update(x + e + 1, Some(0x30u8));
        lem_pair_put(c, x + e, 0x2eu8, 0x30u8);
        lem_put_right(ms, c, g, x, d + zeros(e - d.len()), seq![0x2eu8, 0x30]);
        assert(put(m0, g, 0, ryu_text(f)));
    }
//@after copy
    proof {
        let c = result@.mem.update(x + e, Some(0x2eu8));
        lem_point(ms, ma, c, x, d, e);
        assert(put(m0, c, 0, ryu_text(f)));
    }
//@before_loop 2
    let ghost mc = result@.mem;
    proof { lem_pair_put(ms, x, 0x30u8, 0x2eu8); assert(put(mc, mc, x + 2, zeros(0))); }
//@loop 2
    invariant
        x == index, 0 <= x <= 1, -5 < e <= 0, offset == 2 - e, 2 <= __vx_i3, __vx_i3 <= offset, __vx_hi4 == offset,
        result@.at == 0, put(mc, result@.mem, x + 2, zeros(__vx_i3 - 2)),
    decreases offset - __vx_i3,
//@in_loop 2
    let ghost b0 = result@.mem;
    let ghost j0 = __vx_i3 as int;
//@end_loop 2
    proof {
        lem_one_put(b0, x + j0, 0x30u8);
        lem_put_right(mc, b0, result@.mem, x + 2, zeros(j0 - 2), seq![0x30u8]);
        assert(zeros(j0 - 2) + seq![0x30u8] =~= zeros(j0 + 1 - 2));
    }
//@after_loop 2
    proof { md = result@.mem; lem_put_right(ms, mc, md, x, seq![0x30u8, 0x2e], zeros(-e)); }
//@before write_exponent3
    proof {
        let c = result@.mem;
        let h = if d.len() == 1 { d + seq![0x65u8] } else { d.take(1) + seq![0x2eu8] + d.skip(1) + seq![0x65u8] };
        if d.len() == 1 {
            lem_pair_put(ms, x, (0x30 + n) as u8, 0x65u8);
            assert(h =~= seq![(0x30 + n) as u8, 0x65u8]);
        } else { lem_sci(ms, ma, c, x, d); }
        assert(put(ms, c, x, h));
        assert forall|g: Seq<Option<u8>>| put(c, g, x + h.len(), p_int(e - 1)) implies #[trigger] put(m0, g, 0, ryu_text(f)) by { lem_put_right(ms, c, g, x, h, p_int(e - 1)); }
    }
//@end
pub trait Sealed: Sized { spec fn fval(self) -> f64; unsafe fn write_to_ryu_buffer(self, result: &mut Out) -> (r: usize)
    requires within(old(result)@, 0, 24), f_finite(self.fval()),
    ensures put(old(result)@.mem, final(result)@.mem, 0, ryu_text(self.fval())), r == ryu_text(self.fval()).len(); }
impl Sealed for f64 {
    open spec fn fval(self) -> f64 { self }
//@fn <Sealed for f64>::write_to_ryu_buffer
//@ret r
//@params result
//@subst raw :: format64 => format64
//@end
}
/// Buffer's `bytes.as_mut_ptr().cast::<u8>()`, the written bytes as a slice, and those (ASCII) as a str
#[verifier::external_body]
pub struct Bytes { _p: () }
impl View for Bytes { type V = Seq<Option<u8>>; uninterp spec fn view(&self) -> Seq<Option<u8>>; }
pub struct Buffer { pub bytes: Bytes }
#[verifier::external_body]
pub fn vx_start(b: &mut Bytes) -> (r: &mut Out)
    ensures r@.at == 0, r@.mem.len() == 24, r@.mem == old(b)@, final(b)@ == final(r)@.mem,
{ unimplemented!() }
/// slice::from_raw_parts over the first n bytes: written bytes only
#[verifier::external_body]
pub fn vx_raw(b: &Bytes, n: usize) -> (r: &[u8])
    requires b@.len() == 24, n <= 24, forall|i: int| 0 <= i < n ==> (#[trigger] b@[i]) is Some,
    ensures r@.len() == n, forall|i: int| 0 <= i < n ==> b@[i] == Some(#[trigger] r@[i]),
{ unimplemented!() }
pub proof fn lem_ascii_valid(s: Seq<u8>)
    requires forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] < 0x80,
    ensures valid_utf8(s),
    decreases s.len(),
{
    if s.len() == 0 { assert(s =~= Seq::<u8>::empty()); lem_valid_empty(); }
    else { lem_ascii_valid(s.drop_last()); lem_valid_push_ascii(s.drop_last(), s.last()); assert(s =~= s.drop_last().push(s.last())); }
}
pub proof fn lem_int_ascii(e: int)
    ensures forall|i: int| 0 <= i < p_int(e).len() ==> #[trigger] p_int(e)[i] < 0x80
{ lem_digits(if e < 0 { -e } else { e }); }
pub proof fn lem_ryu_ascii(f: f64)
    requires f_finite(f),
    ensures forall|i: int| 0 <= i < ryu_text(f).len() ==> #[trigger] ryu_text(f)[i] < 0x80
{
    reveal(ryu_text); ax_finite_bits(f);
    let b = f_bits(f);
    lem_fields(b);
    let (m, k) = (dec_m(b_mant(b), b_expo(b)), dec_k(b_mant(b), b_expo(b)));
    if b_mant(b) != 0 || b_expo(b) != 0 { ax_d2d(b_mant(b), b_expo(b)); lem_digits(m); lem_int_ascii(p_nat(m).len() + k - 1); }
}
impl Buffer {
//@fn buffer::Buffer::format_finite
//@ret r
//@params f
//@subst self . bytes . as_mut_ptr () . cast :: < u8 > () => vx_start(&mut self.bytes)
//@subst slice :: from_raw_parts (self . bytes . as_ptr () . cast :: < u8 > () , n) => vx_raw(&self.bytes, n)
//@subst self . bytes . len () => 24
    requires f_finite(f.fval()),
    ensures txt(r) == ryu_text(f.fval()),
//@pre
    proof { lem_ryu_ascii(f.fval()); }
//@after from_raw_parts
    proof { assert(slice@ =~= ryu_text(f.fval())); lem_ascii_valid(slice@); }
//@end
}
}
fn main() {}
