    requires txt(j).len() < MAX_LEN,
    ensures
        !is_json(txt(j)) ==> r is Err,
        forall|d: J| #[trigger] reads(txt(j), d) ==> (r is Ok <==> old($V).takes(d)) && (r is Ok ==> final($V).done(d)),
