%spec mp4 core
pub open spec fn mp4_spec(d: Seq<u8>) -> Option<FileFormat> { mp4_loop(d, 0, 256, false, false, false) }
pub open spec fn mp4_verdict(audio: bool, video: bool, subtitle: bool) -> FileFormat {
    if video { FileFormat::Mpeg4Part14Video } else if audio { FileFormat::Mpeg4Part14Audio }
    else if subtitle { FileFormat::Mpeg4Part14Subtitles } else { FileFormat::Mpeg4Part14 }
}
/// The walk over at most `rem` more boxes, the next one starting at p.
pub open spec fn mp4_loop(d: Seq<u8>, p: int, rem: int, audio: bool, video: bool, subtitle: bool) -> Option<FileFormat> decreases rem {
    if rem <= 0 || p >= d.len() { Some(mp4_verdict(audio, video, subtitle)) }
    else if !can_read(d, p, 8) { None }
    else {
        let kind = bytes_at(d, p + 4, 4);
        let large = be32(d, p) == 1;
        if large && !can_read(d, p + 8, 8) { None }
        else {
            let head = if large { 16int } else { 8int };
            let size = if large { be64(d, p + 8) } else { be32(d, p) };
            let q = p + head;
            if kind == b"moov" || kind == b"trak" || kind == b"mdia" { mp4_loop(d, q, rem - 1, audio, video, subtitle) }
            else if kind == b"hdlr" {
                let h = bytes_at(d, q + 8, 4);
                let next = q + 12 + sat_i64(as_i64_spec(size) - head - 12);
                if !can_read(d, q + 8, 4) || !can_seek(next) { None }
                else { mp4_loop(d, next, rem - 1, audio || h == b"soun", video || h == b"vide", subtitle || h == b"sbtl" || h == b"subt" || h == b"text") }
            } else {
                let next = q + sat_i64(as_i64_spec(size) - head);
                if !can_seek(next) { None } else { mp4_loop(d, next, rem - 1, audio, video, subtitle) }
            }
        }
    }
}
pub open spec fn mp4_family(f: FileFormat) -> bool {
    f == FileFormat::Mpeg4Part14 || f == FileFormat::Mpeg4Part14Video || f == FileFormat::Mpeg4Part14Audio || f == FileFormat::Mpeg4Part14Subtitles
}
%fn from_mp4_reader mp4
req[*] old($0).wf()
req[det] !old($0).lost()
ens[*] final($0).same(old($0))
ens[cost] final($0).cost() <= old($0).cost() + 8_000_000
ens[family] r is Ok ==> mp4_family(r->Ok_0)
ens[func] r is Ok ==> mp4_spec(${d}) == Some(r->Ok_0)
ens[func] r is Err && old($0).reliable() ==> mp4_spec(${d}) is None
loop
inv[cost] ${rd}.cost() <= old($0).cost() + 40_000 + 30_000 * (256 - ${rem})
exit[cost] ${rd}.cost() <= old($0).cost() + 40_001 + 30_000 * (256 - ${rem})
ib[*] 0 <= ${rem} <= 256
inv[func] mp4_spec(${d}) == mp4_loop(${d}, ${rd}.pos(), ${rem} as int, ${audio_track}, ${video_track}, ${subtitle_track})
exit[func] mp4_spec(${d}) == Some(mp4_verdict(${audio_track}, ${video_track}, ${subtitle_track}))
%end
