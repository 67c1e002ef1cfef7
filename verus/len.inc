//@ item src/rw.rs fn write_len
//@   errors
//@   subst u16::try_from(len) => u16_from(len)
//@   results
//@   ret r
//@   spec
//@   | ensures pre(old(writer).out(), final(writer).out()), old(writer).sure() ==> (r is Ok <==> len <= 65535),
//@   |     r is Ok ==> len <= 65535 && forall|s: Seq<u8>| #[trigger] pre(final(writer).out(), s) ==> u16::reads(s, old(writer).out().len() as int) == Some((len as u16, final(writer).out().len() as int))
//@ end
