%spec rm core
pub open spec fn rm_spec(d: Seq<u8>) -> Option<FileFormat> {
    if !can_read(d, 14, 4) { None } else {
        rm_loop(d, 18, { let n = be32(d, 14) - 1; if n < 0 { 0 } else if n < 64 { n } else { 64 } }, false, false)
    }
}
pub open spec fn rm_verdict(audio: bool, video: bool) -> FileFormat {
    if video { FileFormat::Realvideo } else if audio { FileFormat::Realaudio } else { FileFormat::Realmedia }
}
/// The walk over `rem` more chunks, the next one starting at p.
pub open spec fn rm_loop(d: Seq<u8>, p: int, rem: int, audio: bool, video: bool) -> Option<FileFormat> decreases rem {
    if rem <= 0 { Some(rm_verdict(audio, video)) }
    else if !can_read(d, p, 8) { None }
    else {
        let next = p + be32(d, p + 4);
        if bytes_at(d, p, 4) == b"MDPR" {
            let n1 = d[p + 40] as int;
            let q = p + 41 + n1;
            let n2 = d[q] as int;
            let mime = bytes_at(d, q + 1, n2);
            if !can_read(d, p + 40, 1) || !can_read(d, q, 1) || !can_read(d, q + 1, n2) { None }
            else if !can_seek(next) { None }
            else { rm_loop(d, next, rem - 1, audio || seq_starts(mime, b"audio/"), video || seq_starts(mime, b"video/")) }
        } else if !can_seek(next) { None }
        else { rm_loop(d, next, rem - 1, audio, video) }
    }
}
pub open spec fn rm_family(f: FileFormat) -> bool {
    f == FileFormat::Realmedia || f == FileFormat::Realaudio || f == FileFormat::Realvideo
}
%fn from_rm_reader rm
req[*] old($0).wf()
req[det] !old($0).lost()
ens[*] final($0).same(old($0))
ens[cost] final($0).cost() <= old($0).cost() + 3_000_000
ens[family] r is Ok ==> rm_family(r->Ok_0)
ens[func] r is Ok ==> rm_spec(${d}) == Some(r->Ok_0)
ens[func] r is Err && old($0).reliable() ==> rm_spec(${d}) is None
loop
ib[cost] 0 <= ${rem} <= 64, ${rd}.cost() <= old($0).cost() + 40_000 + 40_000 * (64 - ${rem})
inv[func] rm_spec(${d}) == rm_loop(${d}, ${rd}.pos(), ${rem} as int, ${audio_stream}, ${video_stream})
exit[func] rm_spec(${d}) == Some(rm_verdict(${audio_stream}, ${video_stream}))
%end
