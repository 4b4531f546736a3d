%spec asf guid
pub open spec fn asf_spec(d: Seq<u8>) -> Option<FileFormat> {
    if !can_read(d, 24, 4) { None } else { asf_loop(d, 30, if le32(d, 24) < 256 { le32(d, 24) } else { 256 }, false, false) }
}
pub open spec fn asf_verdict(audio: bool, video: bool) -> FileFormat {
    if video { FileFormat::WindowsMediaVideo } else if audio { FileFormat::WindowsMediaAudio } else { FileFormat::AdvancedSystemsFormat }
}
/// The walk over `rem` more header objects, the next one starting at p.
pub open spec fn asf_loop(d: Seq<u8>, p: int, rem: int, audio: bool, video: bool) -> Option<FileFormat> decreases rem {
    if rem <= 0 { Some(asf_verdict(audio, video)) }
    else if !can_read(d, p, 24) { None }
    else {
        let object = guid_str(bytes_at(d, p, 16));
        let size = le64(d, p + 16);
        if object == "b7dc0791-a9b7-11cf-8ee6-00c00c205365" {
            let kind = guid_str(bytes_at(d, p + 24, 16));
            let next = p + 40 + sat_i64(as_i64_spec(size) - 40);
            if !can_read(d, p + 24, 16) || !can_seek(next) { None }
            else { asf_loop(d, next, rem - 1, audio || kind == "f8699e40-5b4d-11cf-a8fd-00805f5c442b", video || kind == "bc19efc0-5b4d-11cf-a8fd-00805f5c442b") }
        } else if object == "d2d0a440-e307-11d2-97f0-00a0c95ea850" {
            if !can_read(d, p + 24, 2) { None }
            else {
                match asf_desc(d, p + 26, if le16(d, p + 24) < 32 { le16(d, p + 24) } else { 32 }) {
                    None => None,
                    Some(true) => Some(FileFormat::MicrosoftDigitalVideoRecording),
                    Some(false) => asf_loop(d, sat_u64(p + 26 + size) - 26, rem - 1, audio, video),
                }
            }
        } else {
            let next = p + 24 + sat_i64(as_i64_spec(size) - 24);
            if !can_seek(next) { None } else { asf_loop(d, next, rem - 1, audio, video) }
        }
    }
}
/// Whether one of `rem` more descriptors, the next one at p, starts with the DVR-MS marker.
pub open spec fn asf_desc(d: Seq<u8>, p: int, rem: int) -> Option<bool> decreases rem {
    if rem <= 0 { Some(false) }
    else if !can_read(d, p, 2) { None }
    else {
        let len = le16(d, p);
        let n = if len < 64 { len } else { 64 };
        let q = p + 4 + len;
        if !can_read(d, p + 2, n) { None }
        else if seq_starts(bytes_at(d, p + 2, n), b"D\0V\0R\0 \0F\0i\0l\0e\0 \0V\0e\0r\0s\0i\0o\0n\0") { Some(true) }
        else if !can_read(d, q, 2) { None }
        else { asf_desc(d, q + 2 + le16(d, q), rem - 1) }
    }
}
pub open spec fn asf_family(f: FileFormat) -> bool {
    f == FileFormat::AdvancedSystemsFormat || f == FileFormat::WindowsMediaVideo || f == FileFormat::WindowsMediaAudio || f == FileFormat::MicrosoftDigitalVideoRecording
}
%fn from_asf_reader asf
req[*] old($0).wf()
req[det] !old($0).lost()
ens[*] final($0).same(old($0))
ens[cost] final($0).cost() <= old($0).cost() + 256_000_000
ens[family] r is Ok ==> asf_family(r->Ok_0)
ens[func] r is Ok ==> asf_spec(${d}) == Some(r->Ok_0)
ens[func] r is Err && old($0).reliable() ==> asf_spec(${d}) is None
loop
ib[cost] 0 <= ${rem} <= 256, ${rd}.cost() <= old($0).cost() + 40_000 + 990_000 * (256 - ${rem})
inv[func] asf_spec(${d}) == asf_loop(${d}, ${rd}.pos(), ${rem} as int, ${audio_stream}, ${video_stream})
exit[func] asf_spec(${d}) == Some(asf_verdict(${audio_stream}, ${video_stream}))
loop
attr[*] #[verifier::loop_isolation(true)]
ib[*] old($0).wf(), 0 <= ${rem} <= 32
ib[cost] ${it}.cost() <= old($0).cost() + 253_000_000
ib[func] asf_desc(${d}, ${it}.pos() + 26, if le16(${d}, ${it}.pos() + 24) < 32 { le16(${d}, ${it}.pos() + 24) } else { 32 }) is None ==> asf_spec(${d}) is None, asf_desc(${d}, ${it}.pos() + 26, if le16(${d}, ${it}.pos() + 24) < 32 { le16(${d}, ${it}.pos() + 24) } else { 32 }) == Some(true) ==> asf_spec(${d}) == Some(FileFormat::MicrosoftDigitalVideoRecording)
ib[cost] 0 <= ${rem} <= 32, ${rd}.cost() <= ${it}.cost() + 30_000 + 28_000 * (32 - ${rem})
inv[func] asf_desc(${d}, ${it}.pos() + 26, if le16(${d}, ${it}.pos() + 24) < 32 { le16(${d}, ${it}.pos() + 24) } else { 32 }) == asf_desc(${d}, ${rd}.pos(), ${rem} as int)
exit[func] asf_desc(${d}, ${it}.pos() + 26, if le16(${d}, ${it}.pos() + 24) < 32 { le16(${d}, ${it}.pos() + 24) } else { 32 }) == Some(false)
%end
