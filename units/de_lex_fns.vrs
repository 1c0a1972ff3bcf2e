//@item json::de::Layer
//@item json::de::Deserializer
//@item json::de::Event

spec fn ev_of(e: Event) -> Ev {
    match e {
        Event::Null => Ev::Null,
        Event::Bool(b) => Ev::Bool(b),
        Event::Str(s) => Ev::Str(txt(s)),
        Event::Negative(n) => Ev::Neg(n),
        Event::Nonnegative(n) => Ev::Nonneg(n),
        Event::Float(f) => Ev::Float(f),
        Event::SeqStart => Ev::SeqStart,
        Event::MapStart => Ev::MapStart,
    }
}

//@include json_lemmas.vrs
// ---------------------------------------------------------------------------
// tables
// ---------------------------------------------------------------------------
//@props C01 C02 C05
//@item json::de::CT
//@item json::de::QU
//@item json::de::BS
//@item json::de::O
//@static json::de::ESCAPE
    ensures forall|i: int| 0 <= i < 256 ==> (#[trigger] ESCAPE[i]) == (i < 0x20 || i == 0x22 || i == 0x5c),
//@end
//@props C04 C05
//@static json::de::POW10 | /*float*/
    ensures forall|i: int| 0 <= i < 309 ==> (#[trigger] POW10[i]) == pow10(i),
//@end

// ---------------------------------------------------------------------------
// the lexer
// ---------------------------------------------------------------------------
//@props C04 C05
//@fn json::de::f64_from_parts
//@ret r
//@params nonnegative significand exponent
//@flags float
    ensures r == (match scaled(nonnegative, significand as int, exponent as int) { Some(f) => Ok(f), None => Err(Error) }),
//@pre
    let ghost x0 = exponent as int;
    let ghost f0 = f_of_u64(significand);
    proof { ax_float_zero(significand, x0); ax_float_zero(significand, -x0); }
//@loop 1
    invariant_except_break
        exponent == x0 && f == f0
        || exponent == x0 + 308 && x0 < -308 && f == f_div(f0, pow10(308))
        || exponent < 0 && x0 < -616 && f == f_zero(),
    invariant
        f0 == f_of_u64(significand),
    ensures
        scaled(nonnegative, significand as int, x0) == Some(f_sign(nonnegative, f)),
    decreases if exponent < 0 { -exponent } else { exponent as int },
//@in_loop 1
    proof {
        ax_float_zero(significand, x0); ax_float_zero(significand, -x0);
        ax_float_zero(significand, exponent as int); ax_float_zero(significand, -exponent as int);
        ax_float_zero(significand, 308);
    }
//@end

//@props C02 C01 C05
//@fn json::de::Deserializer::parse_str::result
//@ret r
//@params bytes
    requires valid_utf8(bytes@),
    ensures txt(r) == bytes@,
//@end

impl<'a, 'b> Deserializer<'a, 'b> {
spec fn inv(&self) -> bool {
    self.pos <= self.input.len() && self.input.len() < MAX_LEN && valid_utf8(self.input@)
}
spec fn same(&self, o: &Self) -> bool { self.input == o.input && self.stack == o.stack }

//@props C01 C05 C19
//@fn json::de::Deserializer::next
//@ret r
    requires old(self).inv(),
    ensures final(self).inv(), final(self).same(old(self)), final(self).buffer == old(self).buffer,
        old(self).pos < old(self).input.len() ==> r == Some(old(self).input[old(self).pos as int]) && final(self).pos == old(self).pos + 1,
        old(self).pos == old(self).input.len() ==> r is None && final(self).pos == old(self).pos,
//@end
//@fn json::de::Deserializer::next_or_nul
//@ret r
    requires old(self).inv(),
    ensures final(self).inv(), final(self).same(old(self)), final(self).buffer == old(self).buffer,
        r == at(old(self).input@, old(self).pos as int),
        old(self).pos < old(self).input.len() ==> final(self).pos == old(self).pos + 1,
        old(self).pos == old(self).input.len() ==> final(self).pos == old(self).pos,
//@end
//@fn json::de::Deserializer::next_or_eof
//@ret r
    requires old(self).inv(),
    ensures final(self).inv(), final(self).same(old(self)), final(self).buffer == old(self).buffer,
        old(self).pos < old(self).input.len() ==> r == Ok::<u8, Error>(old(self).input[old(self).pos as int]) && final(self).pos == old(self).pos + 1,
        old(self).pos == old(self).input.len() ==> r is Err && final(self).pos == old(self).pos,
//@end
//@fn json::de::Deserializer::peek
//@ret r
    requires old(self).inv(),
    ensures *final(self) == *old(self),
        r == (if old(self).pos < old(self).input.len() { Some(old(self).input[old(self).pos as int]) } else { None }),
//@end
//@fn json::de::Deserializer::peek_or_nul
//@ret r
    requires old(self).inv(),
    ensures *final(self) == *old(self), r == at(old(self).input@, old(self).pos as int),
//@end
//@fn json::de::Deserializer::bump
    requires old(self).inv(), old(self).pos < old(self).input.len(),
    ensures final(self).inv(), final(self).same(old(self)), final(self).buffer == old(self).buffer, final(self).pos == old(self).pos + 1,
//@end
//@fn json::de::Deserializer::parse_whitespace
//@ret r
    requires old(self).inv(),
    ensures final(self).inv(), final(self).same(old(self)), final(self).buffer == old(self).buffer,
        final(self).pos == skip_ws(old(self).input@, old(self).pos as int),
        r == (if final(self).pos < final(self).input.len() { Some(final(self).input[final(self).pos as int]) } else { None }),
//@loop 1
    invariant
        self.inv(), self.same(old(self)), self.buffer == old(self).buffer,
        skip_ws(self.input@, self.pos as int) == skip_ws(old(self).input@, old(self).pos as int),
    decreases self.input.len() - self.pos,
//@end
//@fn json::de::Deserializer::parse_ident
//@ret r
//@params ident
    requires old(self).inv(),
    ensures final(self).inv(), final(self).same(old(self)), final(self).buffer == old(self).buffer,
        word_at(old(self).input@, old(self).pos as int, ident@) ==> r is Ok && final(self).pos == old(self).pos + ident.len(),
        !word_at(old(self).input@, old(self).pos as int, ident@) ==> r is Err,
//@pre
    let ghost p0 = self.pos as int;
//@loop 1
    invariant
        self.inv(), self.same(old(self)), self.buffer == old(self).buffer,
        p0 == old(self).pos,
        __vx_it2@ == ident@,
        0 <= __vx_i1 <= ident.len(),
        self.pos == p0 + __vx_i1,
        forall|k: int| 0 <= k < __vx_i1 ==> self.input[p0 + k] == ident[k],
    decreases ident.len() - __vx_i1,
//@in_loop 1
    proof {
        let s = self.input@;
        if word_at(s, p0, ident@) {
            assert(s.subrange(p0, p0 + ident.len())[__vx_i1 as int] == ident[__vx_i1 as int]);
        }
    }
//@after_loop 1
    proof { assert(self.input@.subrange(p0, p0 + ident.len()) =~= ident@); }
//@end

//@props C02 C01 C05
//@fn json::de::Deserializer::decode_hex_escape
//@ret r
    requires old(self).inv(),
    ensures final(self).inv(), final(self).same(old(self)), final(self).buffer == old(self).buffer,
        match hex4(old(self).input@, old(self).pos as int) {
            None => r is Err,
            Some(n) => r is Ok && r->Ok_0 as int == n && final(self).pos == old(self).pos + 4,
        },
//@loop 1
    invariant
        self.inv(), self.same(old(self)), self.buffer == old(self).buffer,
        __vx_hi2 == 4, 0 <= __vx_i1 <= 4,
        self.pos == old(self).pos + __vx_i1,
        hex_prefix(old(self).input@, old(self).pos as int, __vx_i1 as int) == Some(n as int),
    decreases 4 - __vx_i1,
//@in_loop 1
    proof {
        let (s, p) = (self.input@, old(self).pos as int);
        lem_hex_range(s, p, __vx_i1 as int);
        if hex_prefix(s, p, __vx_i1 + 1) is None { lem_hex_none(s, p, __vx_i1 + 1, 4); }
        // the same arithmetic written with shifts and masks
        assert forall|a: u16, b: u16| a < 0x1000 && b < 0x10 implies #[trigger] ((a << 4) | b) == a * 16 + b by {
            assert(a < 0x1000 && b < 0x10 ==> ((a << 4) | b) == add(mul(a, 16), b)) by (bit_vector);
        }
        assert forall|a: u16| a < 0x1000 implies #[trigger] (a << 4) == a * 16 by {
            assert(a < 0x1000 ==> (a << 4) == mul(a, 16)) by (bit_vector);
        }
        assert forall|c: u8| 0x30 <= c <= 0x39 implies #[trigger] (c & 0xf) == c - 0x30 by {
            assert(0x30 <= c && c <= 0x39 ==> (c & 0xf) == sub(c, 0x30)) by (bit_vector);
        }
        assert forall|c: u8| 0x41 <= c <= 0x5a implies #[trigger] (c | 0x20) == c + 0x20 by {
            assert(0x41 <= c && c <= 0x5a ==> (c | 0x20) == add(c, 0x20)) by (bit_vector);
        }
    }
//@end
//@fn json::de::Deserializer::parse_escape
//@ret r
    requires old(self).inv(), sv(old(self).input@, old(self).pos as int), valid_utf8(old(self).buffer@),
    ensures final(self).inv(), final(self).same(old(self)),
        match escape(old(self).input@, old(self).pos as int) {
            None => r is Err,
            Some((b, q)) => r is Ok && final(self).buffer@ == old(self).buffer@ + b && final(self).pos == q
                && valid_utf8(final(self).buffer@),
        },
//@pre
    proof {
        let (s, p) = (self.input@, self.pos as int);
        assert forall|a: u32, b: u32| a < 0x400 && b < 0x400 implies #[trigger] ((a << 10) | b) == add(mul(a, 0x400), b) by {
            assert(a < 0x400 && b < 0x400 ==> ((a << 10) | b) == add(mul(a, 0x400), b)) by (bit_vector);
        }
        assert forall|a: u32| a < 0x400 implies #[trigger] (a << 10) == mul(a, 0x400) by {
            assert(a < 0x400 ==> (a << 10) == mul(a, 0x400)) by (bit_vector);
        }
        assert forall|b: Seq<u8>, x: u8| #[trigger] b.push(x) =~= b + seq![x] by {}
        assert forall|b: Seq<u8>, x: u8| valid_utf8(b) && x < 0x80 implies valid_utf8(#[trigger] b.push(x)) by { lem_valid_push_ascii(b, x); }
        assert forall|c: char| #![trigger encode_utf8(seq![c])] encode_utf8(seq![c]) == encode_scalar(c as u32) && valid_utf8(encode_utf8(seq![c])) by { lem_char_bytes(c); }
        assert forall|a: Seq<u8>, b: Seq<u8>| valid_utf8(a) && valid_utf8(b) implies valid_utf8(#[trigger] (a + b)) by { valid_utf8_concat(a, b); }
        if hex4(s, p + 1) is Some { lem_hex_range(s, p + 1, 4); }
        if hex4(s, p + 7) is Some { lem_hex_range(s, p + 7, 4); }
    }
//@end
//@fn json::de::Deserializer::parse_str
//@ret r
    requires old(self).inv(), old(self).pos >= 1, old(self).input[old(self).pos - 1] < 0x80,
    ensures final(self).inv(), final(self).same(old(self)),
        match str_body(old(self).input@, old(self).pos as int) {
            None => r is Err,
            Some((t, q)) => r is Ok && txt(r->Ok_0) == t && final(self).pos == q,
        },
//@pre
    hide(valid_utf8); hide(sv); hide(escape); hide(encode_scalar);
    let ghost s = self.input@;
    let ghost p0 = self.pos as int;
    proof { lem_sv_start(s); lem_split(s, 0, p0 - 1); lem_valid_empty(); }
//@loop 1
    invariant
        self.inv(), self.same(old(self)), s == old(self).input@, p0 == old(self).pos,
        start == self.pos,
        sv(s, start as int), valid_utf8(self.buffer@),
        str_body(s, p0) == prepend(self.buffer@, str_body(s, start as int)),
    decreases s.len() - self.pos,
//@loop 2
    invariant
        self.inv(), self.same(old(self)), s == old(self).input@, p0 == old(self).pos,
        start <= self.pos,
        sv(s, start as int), valid_utf8(self.buffer@),
        str_body(s, p0) == prepend(self.buffer@, str_body(s, start as int)),
        forall|i: int| start <= i < self.pos ==> s[i] != 0x22 && s[i] != 0x5c && s[i] >= 0x20,
    decreases s.len() - self.pos,
//@after_loop 2
    proof {
        lem_body_plain(s, start as int, self.pos as int);
        lem_prepend_assoc(self.buffer@, s.subrange(start as int, self.pos as int), str_body(s, self.pos as int));
        if self.pos < s.len() && s[self.pos as int] < 0x80 {
            lem_split(s, start as int, self.pos as int);
            valid_utf8_concat(self.buffer@, s.subrange(start as int, self.pos as int));
            if s[self.pos as int] == 0x5c && escape(s, self.pos + 1) is Some {
                lem_escape(s, self.pos + 1);
            }
        }
    }
//@end

//@props C01 C03 C04 C05
//@fn json::de::Deserializer::parse_exponent_overflow
//@ret r
//@params nonnegative significand positive_exp
//@flags float
    requires old(self).inv(),
    ensures final(self).inv(), final(self).same(old(self)), final(self).buffer == old(self).buffer,
        significand != 0 && positive_exp ==> r is Err,
        !(significand != 0 && positive_exp) ==> r == Ok::<f64, Error>(f_sign(nonnegative, f_zero()))
            && final(self).pos == digits_end(old(self).input@, old(self).pos as int),
//@loop 1
    invariant
        self.inv(), self.same(old(self)), self.buffer == old(self).buffer,
        digits_end(self.input@, self.pos as int) == digits_end(old(self).input@, old(self).pos as int),
    decreases self.input.len() - self.pos,
//@end
//@fn json::de::Deserializer::parse_exponent
//@ret r
//@params nonnegative significand starting_exp
//@flags float
    requires old(self).inv(), at(old(self).input@, old(self).pos as int) == 0x65 || at(old(self).input@, old(self).pos as int) == 0x45,
        -MAX_LEN <= starting_exp <= MAX_LEN,
    ensures final(self).inv(), final(self).same(old(self)), final(self).buffer == old(self).buffer,
        match with_exp(old(self).input@, old(self).pos as int, nonnegative, significand as int, starting_exp as int) {
            None => r is Err,
            Some((f, q)) => r == Ok::<f64, Error>(f) && final(self).pos == q,
        },
//@pre
    let ghost s = self.input@;
    let ghost p0 = self.pos as int;
    let ghost d = if at(s, p0 + 1) == 0x2b || at(s, p0 + 1) == 0x2d { p0 + 2 } else { p0 + 1 };
    proof { if d <= s.len() { lem_digits_end(s, d); } }
//@loop 1
    invariant
        self.inv(), self.same(old(self)), self.buffer == old(self).buffer,
        s == old(self).input@, p0 == old(self).pos,
        at(s, p0) == 0x65 || at(s, p0) == 0x45,
        -MAX_LEN <= starting_exp <= MAX_LEN,
        d == if at(s, p0 + 1) == 0x2b || at(s, p0 + 1) == 0x2d { p0 + 2 } else { p0 + 1 },
        positive_exp == (at(s, p0 + 1) != 0x2d),
        is_digit(at(s, d)), d < self.pos,
        0 <= exp,
        digits_end(s, self.pos as int) == digits_end(s, d),
        dec(s, self.pos as int, digits_end(s, d), exp as int) == dec(s, d, digits_end(s, d), 0),
    decreases s.len() - self.pos,
//@in_loop 1
    proof {
        lem_digits_end(s, self.pos as int);
        lem_dec_ge(s, self.pos + 1, exp * 10 + dval(s[self.pos as int]));
    }
//@end
//@fn json::de::Deserializer::parse_decimal
//@ret r
//@params nonnegative significand exponent
//@flags float
    requires old(self).inv(), at(old(self).input@, old(self).pos as int) == 0x2e,
        0 <= exponent <= old(self).pos,
    ensures final(self).inv(), final(self).same(old(self)), final(self).buffer == old(self).buffer,
        match with_frac(old(self).input@, old(self).pos as int, nonnegative, significand as int, exponent as int) {
            None => r is Err,
            Some((f, q)) => r == Ok::<f64, Error>(f) && final(self).pos == q,
        },
//@pre
    let ghost s = self.input@;
    let ghost p1 = self.pos + 1;
    let ghost sig0 = significand as int;
    let ghost x0 = exponent as int;
    proof { lem_digits_end(s, p1); lem_sig_end(s, p1, sig0); }
//@loop 1
    invariant_except_break
        sig_end(s, self.pos as int, significand as int) == sig_end(s, p1, sig0),
        exponent == x0 - (self.pos - p1),
    invariant
        self.inv(), self.same(old(self)), self.buffer == old(self).buffer,
        s == old(self).input@, p1 == old(self).pos + 1, 0 <= x0 <= p1,
        p1 <= self.pos,
        at_least_one_digit == (self.pos > p1),
        at_least_one_digit ==> is_digit(at(s, p1)),
        digits_end(s, self.pos as int) == digits_end(s, p1),
    ensures
        at_least_one_digit == is_digit(at(s, p1)),
        significand == sig_end(s, p1, sig0).0,
        digits_end(s, sig_end(s, p1, sig0).1) == self.pos,
        !is_digit(at(s, self.pos as int)),
        exponent == x0 - (sig_end(s, p1, sig0).1 - p1),
    decreases s.len() - self.pos,
//@in_loop 1
    proof { lem_digits_end(s, self.pos as int); lem_sig_end(s, self.pos as int, significand as int); }
//@end_loop 1
//@loop 2
    invariant
        self.inv(), self.same(old(self)), self.buffer == old(self).buffer,
        s == old(self).input@,
        digits_end(s, self.pos as int) == digits_end(s, p1),
        p1 < self.pos,
    decreases s.len() - self.pos,
//@end
//@fn json::de::Deserializer::parse_long_integer
//@ret r
//@params nonnegative significand exponent
//@flags float
    requires old(self).inv(), 0 <= exponent <= old(self).pos,
    ensures final(self).inv(), final(self).same(old(self)), final(self).buffer == old(self).buffer,
        ({
            let s = old(self).input@;
            let e = digits_end(s, old(self).pos as int);
            match with_tail(s, e, nonnegative, significand as int, exponent + (e - old(self).pos)) {
                None => r is Err,
                Some((f, q)) => r == Ok::<f64, Error>(f) && final(self).pos == q,
            }
        }),
//@pre
    let ghost x0 = exponent as int;
//@loop 1
    invariant
        self.inv(), self.same(old(self)), self.buffer == old(self).buffer,
        digits_end(self.input@, self.pos as int) == digits_end(old(self).input@, old(self).pos as int),
        exponent == x0 + (self.pos - old(self).pos),
        0 <= x0 <= old(self).pos <= self.pos,
    decreases self.input.len() - self.pos,
//@end
//@fn json::de::Deserializer::parse_number
//@ret r
//@params nonnegative significand
//@flags float
//@pre
    proof {
        assert(significand < 0x8000_0000_0000_0000u64 ==> (significand as i64) >= 0) by (bit_vector);
        assert(significand == 0x8000_0000_0000_0000u64 ==> (significand as i64) == -0x8000_0000_0000_0000i64) by (bit_vector);
        assert(significand > 0x8000_0000_0000_0000u64 ==> (significand as i64) < 0 && (significand as i64) > -0x8000_0000_0000_0000i64) by (bit_vector);
    }
//@spec
    requires old(self).inv(),
    ensures final(self).inv(), final(self).same(old(self)), final(self).buffer == old(self).buffer,
        ({
            let s = old(self).input@;
            let p = old(self).pos as int;
            let n = if at(s, p) == 0x2e || at(s, p) == 0x65 || at(s, p) == 0x45 {
                float_of(with_tail(s, p, nonnegative, significand as int, 0))
            } else { Some((signed_num(nonnegative, significand as int), p)) };
            match num_ev(n) {
                None => r is Err,
                Some((e, q)) => r is Ok && ev_of(r->Ok_0) == e && final(self).pos == q,
            }
        }),
//@end
//@fn json::de::Deserializer::parse_integer
//@ret r
//@params nonnegative first_digit
//@flags float
    requires old(self).inv(),
        is_digit(first_digit) ==> old(self).pos >= 1 && old(self).input[old(self).pos - 1] == first_digit,
    ensures final(self).inv(), final(self).same(old(self)), final(self).buffer == old(self).buffer,
        !is_digit(first_digit) ==> r is Err,
        is_digit(first_digit) ==> match num_ev(number(old(self).input@, old(self).pos - 1, nonnegative)) {
            None => r is Err,
            Some((e, q)) => r is Ok && ev_of(r->Ok_0) == e && final(self).pos == q,
        },
//@pre
    let ghost s = self.input@;
    let ghost p = self.pos - 1;
    proof {
        reveal_with_fuel(sig_end, 3);
        reveal_with_fuel(digits_end, 3);
        if is_digit(first_digit) { lem_sig_end(s, p, 0); lem_digits_end(s, p); }
    }
//@loop 1
    invariant
        self.inv(), self.same(old(self)), self.buffer == old(self).buffer,
        s == old(self).input@, p == old(self).pos - 1, p < self.pos,
        0 <= p, s[p] == first_digit, 0x31 <= first_digit <= 0x39,
        sig_end(s, self.pos as int, res as int) == sig_end(s, p, 0),
        digits_end(s, self.pos as int) == digits_end(s, p),
    decreases s.len() - self.pos,
//@in_loop 1
    proof { lem_digits_end(s, self.pos as int); lem_sig_end(s, p, 0); lem_sig_end(s, self.pos as int, res as int); }
//@end
//@props C01 C02 C03 C04 C05 C19
//@fn json::de::Deserializer::event
//@ret r
    requires old(self).inv(),
    ensures final(self).inv(), final(self).same(old(self)),
        match lex(old(self).input@, old(self).pos as int) {
            None => r is Err,
            Some((e, q)) => r is Ok && ev_of(r->Ok_0) == e && final(self).pos == q,
        },
//@end
}
