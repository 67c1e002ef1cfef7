pub open spec fn wide_in(s: Seq<u8>, i: int) -> Option<(Wide, int)> {
    match u8::reads(s, i) { None => None, Some((op, i1)) => match u16::reads(s, i1) { None => None, Some((n, j)) => match op {
        0x15 => Some((Wide::ILoad(n), j)),
        0x16 => Some((Wide::LLoad(n), j)),
        0x17 => Some((Wide::FLoad(n), j)),
        0x18 => Some((Wide::DLoad(n), j)),
        0x19 => Some((Wide::ALoad(n), j)),
        0x36 => Some((Wide::IStore(n), j)),
        0x37 => Some((Wide::LStore(n), j)),
        0x38 => Some((Wide::FStore(n), j)),
        0x39 => Some((Wide::DStore(n), j)),
        0x3a => Some((Wide::AStore(n), j)),
        0x84 => match i16::reads(s, j) { Some((c, k)) => Some((Wide::IInc(n, c), k)), None => None },
        0xa9 => Some((Wide::Ret(n), j)),
        _ => None,
    } } }
}
pub open spec fn entry_in(s: Seq<u8>, i: int) -> Option<(SwitchEntry, int)> {
    match (i32::reads(s, i), i32::reads(s, i + 4)) { (Some((a, j)), Some((b, k))) => Some((SwitchEntry(a, b), k)), _ => None }
}
pub open spec fn tbl_in(s: Seq<u8>, i: int) -> Option<(TblS, int)> {
    match i32::reads(s, i) { None => None, Some((low, j)) => match i32::reads(s, j) { None => None, Some((high, k)) =>
        if high < low { None } else { match many::<Identity, i32>(s, k, high - low + 1) { None => None, Some((v, n)) => Some((TblS { low, high, offsets: list(v) }, n)) } } } }
}
