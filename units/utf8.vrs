// ---------------------------------------------------------------------------
// UTF-8 boundaries
// ---------------------------------------------------------------------------
/// the tail of s from p on is well-formed UTF-8
pub open spec fn sv(s: Seq<u8>, p: int) -> bool {
    0 <= p <= s.len() && valid_utf8(s.subrange(p, s.len() as int))
}

pub open spec fn txt(s: &str) -> Seq<u8> { encode_utf8(s@) }

pub proof fn lem_sv_start(s: Seq<u8>)
    requires valid_utf8(s),
    ensures sv(s, 0),
{
    assert(s.subrange(0, s.len() as int) =~= s);
}

pub proof fn lem_sv_step(s: Seq<u8>, p: int)
    requires sv(s, p), p < s.len(), s[p] < 0x80,
    ensures sv(s, p + 1),
{
    let t = s.subrange(p, s.len() as int);
    assert(t[0] == s[p]);
    let b = s[p];
    assert(b < 0x80u8 ==> b & 0x80u8 == 0u8) by (bit_vector);
    assert(valid_first_scalar(t) && valid_utf8(pop_first_scalar(t)));
    assert(is_leading_byte_width_1(t[0])) by { reveal(is_leading_byte_width_1); }
    assert(pop_first_scalar(t) =~= s.subrange(p + 1, s.len() as int));
}

/// a tail that starts on a boundary may be cut before any ASCII byte
pub proof fn lem_split(s: Seq<u8>, a: int, b: int)
    requires sv(s, a), a <= b < s.len(), s[b] < 0x80,
    ensures valid_utf8(s.subrange(a, b)), sv(s, b), sv(s, b + 1),
{
    let t = s.subrange(a, s.len() as int);
    let k = b - a;
    let c = s[b];
    assert(t[k] == c);
    assert(!is_continuation_byte(t[k])) by {
        reveal(is_continuation_byte);
        assert(c < 0x80u8 ==> (c & 0xC0u8) != 0x80u8) by (bit_vector);
    }
    is_char_boundary_iff_not_is_continuation_byte(t, k);
    valid_utf8_split(t, k);
    assert(t.subrange(0, k) =~= s.subrange(a, b));
    assert(t.subrange(k, t.len() as int) =~= s.subrange(b, s.len() as int));
    lem_sv_step(s, b);
}

pub proof fn lem_valid_empty()
    ensures valid_utf8(Seq::<u8>::empty()),
{
}

pub proof fn lem_valid_ascii1(b: u8)
    requires b < 0x80,
    ensures valid_utf8(seq![b]),
{
    let t = seq![b];
    assert(b < 0x80u8 ==> b & 0x80u8 == 0u8) by (bit_vector);
    lem_valid_empty();
    assert(is_leading_byte_width_1(t[0])) by { reveal(is_leading_byte_width_1); }
    assert(pop_first_scalar(t) =~= Seq::<u8>::empty());
}

pub proof fn lem_valid_push_ascii(s: Seq<u8>, b: u8)
    requires valid_utf8(s), b < 0x80,
    ensures valid_utf8(s.push(b)),
{
    lem_valid_ascii1(b);
    valid_utf8_concat(s, seq![b]);
    assert(s + seq![b] =~= s.push(b));
}

pub proof fn lem_char_bytes(c: char)
    ensures encode_utf8(seq![c]) == encode_scalar(c as u32), valid_utf8(encode_scalar(c as u32)),
{
    let t = seq![c];
    char_is_scalar(c);
    assert(t.drop_first() =~= Seq::<char>::empty());
    assert(encode_utf8(t.drop_first()) =~= Seq::<u8>::empty());
    assert(encode_utf8(t) =~= encode_scalar(c as u32) + encode_utf8(t.drop_first()));
    assert(encode_utf8(t) =~= encode_scalar(c as u32));
    encode_utf8_valid_utf8(t);
}

//@include std_extra.vrs
