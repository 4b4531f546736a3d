%spec txt core
/// The part of the content text detection looks at.
pub open spec fn txt_window(d: Seq<u8>) -> Seq<u8> {
    let b = bytes_at(d, 0, avail(d, 0, 65536));
    if b.len() == 65536 && utf8_cut(b) is Some { b.subrange(0, utf8_cut(b)->Some_0) } else { b }
}
pub open spec fn fine_char(c: char) -> bool { !is_control(c) || is_whitespace(c) }
pub open spec fn fine_line(l: Seq<u8>) -> bool { utf8_ok(l) && forall|k: int| 0 <= k < utf8_chars(l).len() ==> fine_char(#[trigger] utf8_chars(l)[k]) }
pub open spec fn txt_ok(b: Seq<u8>) -> bool { forall|k: int| 0 <= k < 16 && k < lines_of(b).len() ==> fine_line(#[trigger] lines_of(b)[k]) }
pub open spec fn txt_spec(d: Seq<u8>) -> Option<FileFormat> { if txt_ok(txt_window(d)) { Some(FileFormat::PlainText) } else { None } }
pub open spec fn txt_family(f: FileFormat) -> bool { f == FileFormat::PlainText }
%fn from_txt_reader txt
req[*] old($0).wf()
ens[*] final($0).same(old($0))
ens[cost] final($0).cost() <= old($0).cost() + 1_000_000
ens[family] r is Ok ==> txt_family(r->Ok_0)
ens[func] r is Ok ==> txt_spec(${d}) == Some(r->Ok_0)
ens[func] r is Err && old($0).reliable() ==> txt_spec(${d}) is None
loop
inv[func] ${s}.lines() == lines_of(txt_window(${d})), forall|k: int| 0 <= k < ${i} ==> fine_line(#[trigger] lines_of(txt_window(${d}))[k])
exit[func] (${res} is Ok) == txt_ok(txt_window(${d})) ::else:: txt_ok(txt_window(${d}))
%end
