%spec id3 core
pub open spec fn id3_spec(d: Seq<u8>) -> Option<FileFormat> { id3_loop(d, 0, 64) }
/// Extent of the tag whose header starts at p.
pub open spec fn id3_tag_len(d: Seq<u8>, p: int) -> int {
    10 + (d[p + 6] as int % 128) * 2097152 + (d[p + 7] as int % 128) * 16384 + (d[p + 8] as int % 128) * 128 + (d[p + 9] as int % 128)
        + (if (d[p + 5] as int / 16) % 2 == 1 { 10int } else { 0int })
}
pub open spec fn id3_loop(d: Seq<u8>, p: int, rem: int) -> Option<FileFormat> decreases rem {
    if rem <= 0 { id3_audio(d, p) }
    else if !can_read(d, p, 10) { None }
    else if bytes_at(d, p, 3) == b"ID3" { id3_loop(d, p + id3_tag_len(d, p), rem - 1) }
    else { id3_audio(d, p) }
}
pub open spec fn id3_audio(d: Seq<u8>, p: int) -> Option<FileFormat> {
    if !can_read(d, p, 4) { None }
    else if bytes_at(d, p, 4) == b"fLaC" { Some(FileFormat::FreeLosslessAudioCodec) }
    else {
        let s = bytes_at(d, p, 2);
        if s == b"\xff\xe2" || s == b"\xff\xe3" || s == b"\xff\xf2" || s == b"\xff\xf3" || s == b"\xff\xfa" || s == b"\xff\xfb" { Some(FileFormat::Mpeg12AudioLayer3) }
        else { Some(FileFormat::Id3v2) }
    }
}
pub open spec fn id3_family(f: FileFormat) -> bool {
    f == FileFormat::Id3v2 || f == FileFormat::FreeLosslessAudioCodec || f == FileFormat::Mpeg12AudioLayer3
}
%fn from_id3v2_reader id3
req[*] old($0).wf()
req[det] !old($0).lost()
ens[*] final($0).same(old($0))
ens[cost] final($0).cost() <= old($0).cost() + 2_000_000
ens[family] r is Ok ==> id3_family(r->Ok_0)
ens[func] r is Ok ==> id3_spec(${d}) == Some(r->Ok_0)
ens[func] r is Err && old($0).reliable() ==> id3_spec(${d}) is None
loop
ib[*] 0 <= ${offset} <= 268_435_476 * (64 - ${rem}), 0 <= ${rem} <= 64
ib[cost] ${rd}.cost() <= old($0).cost() + 20_000 + 20_000 * (64 - ${rem})
inv[func] id3_spec(${d}) == id3_loop(${d}, ${offset} as int, ${rem} as int)
exit[func] id3_spec(${d}) == id3_audio(${d}, ${offset} as int)
%end
