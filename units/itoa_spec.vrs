/// canonical decimal digits
pub open spec fn p_nat(n: int) -> Seq<u8>
    decreases n,
{
    if n < 10 { seq![(0x30 + n) as u8] } else { p_nat(n / 10).push((0x30 + n % 10) as u8) }
}

pub open spec fn p_int(n: int) -> Seq<u8> {
    if n < 0 { seq![0x2du8] + p_nat(-n) } else { p_nat(n) }
}
