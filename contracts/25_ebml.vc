%spec ebml core
pub open spec fn ebml_spec(d: Seq<u8>) -> Option<FileFormat> { ebml_loop(d, 0, 256, false, false, false) }
pub open spec fn ebml_verdict(audio: bool, video: bool, subtitle: bool) -> FileFormat {
    if video { FileFormat::MatroskaVideo } else if audio { FileFormat::MatroskaAudio }
    else if subtitle { FileFormat::MatroskaSubtitles } else { FileFormat::ExtensibleBinaryMetaLanguage }
}
/// The k bytes at p as a big-endian number.
#[verifier::opaque]
pub open spec fn be_val(d: Seq<u8>, p: int, k: int) -> int decreases k {
    if k <= 1 { d[p] as int } else { be_val(d, p, k - 1) * 256 + d[p + k - 1] }
}
/// The low 8 - m bits of x.
pub open spec fn vint_first(x: int, m: int) -> int { lowb(x, 8 - m) }
/// An EBML number of m bytes, of which the first k are taken.
#[verifier::opaque]
pub open spec fn vint(d: Seq<u8>, p: int, m: int, k: int) -> int decreases k {
    if k <= 1 { vint_first(d[p] as int, m) } else { vint(d, p, m, k - 1) * 256 + d[p + k - 1] }
}
pub proof fn lemma_be_val(d: Seq<u8>, p: int, k: int)
    ensures be_val(d, p, 1) == d[p], k >= 1 ==> be_val(d, p, k + 1) == be_val(d, p, k) * 256 + d[p + k],
{ reveal_with_fuel(be_val, 2); }
pub proof fn lemma_vint(d: Seq<u8>, p: int, m: int, k: int)
    ensures vint(d, p, m, 1) == vint_first(d[p] as int, m), k >= 1 ==> vint(d, p, m, k + 1) == vint(d, p, m, k) * 256 + d[p + k],
{ reveal_with_fuel(vint, 2); }
pub open spec fn any_nonzero(b: Seq<u8>) -> bool { exists|j: int| 0 <= j < b.len() && #[trigger] b[j] != 0 }
/// Where the size of the element at p starts.
pub open spec fn ebml_q(d: Seq<u8>, p: int) -> int { p + lz8(d[p] as int) + 1 }
/// The walk over at most `rem` more elements, the next one starting at p.
#[verifier::opaque]
pub open spec fn ebml_loop(d: Seq<u8>, p: int, rem: int, audio: bool, video: bool, subtitle: bool) -> Option<FileFormat> decreases rem, 1int { ebml_loop_def(d, p, rem, audio, video, subtitle) }
pub open spec fn ebml_loop_def(d: Seq<u8>, p: int, rem: int, audio: bool, video: bool, subtitle: bool) -> Option<FileFormat> decreases rem, 0int {
    if rem <= 0 || p >= d.len() { Some(ebml_verdict(audio, video, subtitle)) }
    else {
        let k = lz8(d[p] as int) + 1;
        let q = p + k;
        let m = lz8(d[q] as int) + 1;
        let r = q + m;
        if k > 4 || !can_read(d, p, k) || !can_read(d, q, 1) || m > 8 || !can_read(d, q, m) { None }
        else {
            let id = be_val(d, p, k);
            let size = vint(d, q, m, m);
            let next = r + size;
            let n8 = if size < 8 { size } else { 8 };
            let n64 = if size < 64 { size } else { 64 };
            if id == 0x1a45dfa3 || id == 0x18538067 || id == 0x1654ae6b || id == 0xae || id == 0xe0 { ebml_loop(d, r, rem - 1, audio, video, subtitle) }
            else if id == 0x4282 {
                let t = bytes_at(d, r, n8);
                if !can_read(d, r, n8) { None }
                else if seq_starts(t, b"webm") { Some(FileFormat::Webm) }
                else if !seq_starts(t, b"matroska") { Some(FileFormat::ExtensibleBinaryMetaLanguage) }
                else { ebml_loop(d, next, rem - 1, audio, video, subtitle) }
            }
            else if id == 0x86 {
                let c = bytes_at(d, r, n64);
                if !can_read(d, r, n64) { None }
                else { ebml_loop(d, next, rem - 1, audio || seq_starts(c, b"A_"), video || seq_starts(c, b"V_"), subtitle || seq_starts(c, b"S_")) }
            }
            else if id == 0x53b8 {
                if !can_read(d, r, n8) { None }
                else if any_nonzero(bytes_at(d, r, n8)) { Some(FileFormat::Matroska3dVideo) }
                else { ebml_loop(d, next, rem - 1, audio, video, subtitle) }
            }
            else if id == 0x1f43b675 { Some(ebml_verdict(audio, video, subtitle)) }
            else { ebml_loop(d, next, rem - 1, audio, video, subtitle) }
        }
    }
}
pub proof fn lemma_ebml_loop(d: Seq<u8>, p: int, rem: int, audio: bool, video: bool, subtitle: bool)
    ensures ebml_loop(d, p, rem, audio, video, subtitle) == ebml_loop_def(d, p, rem, audio, video, subtitle),
{ reveal(ebml_loop); }
pub open spec fn ebml_family(f: FileFormat) -> bool {
    f == FileFormat::ExtensibleBinaryMetaLanguage || f == FileFormat::Webm || f == FileFormat::Matroska3dVideo || f == FileFormat::MatroskaVideo
        || f == FileFormat::MatroskaAudio || f == FileFormat::MatroskaSubtitles
}
%fn from_ebml_reader ebml
split[func] 6
req[*] old($0).wf()
ens[*] final($0).same(old($0))
ens[cost] final($0).cost() <= old($0).cost() + 6_000_000
ens[family] r is Ok ==> ebml_family(r->Ok_0)
ens[func] r is Ok ==> ebml_spec(${d}) == Some(r->Ok_0)
ens[func] r is Err && old($0).reliable() ==> ebml_spec(${d}) is None
loop
ib[*] 0 <= ${rem} <= 256
inv[cost] ${rd}.cost() <= old($0).cost() + 40_000 + 20_000 * (256 - ${rem})
exit[cost] ${rd}.cost() <= old($0).cost() + 40_100 + 20_000 * (256 - ${rem})
inv[func] ebml_spec(${d}) == ebml_loop(${d}, ${rd}.pos(), ${rem} as int, ${audio_track}, ${video_track}, ${subtitle_track})
exit[func] ebml_spec(${d}) == Some(ebml_verdict(${audio_track}, ${video_track}, ${subtitle_track}))
body[func] lemma_ebml_loop(${d}, ${rd}.pos(), ${rem} as int, ${audio_track}, ${video_track}, ${subtitle_track});
loop
attr[*] #[verifier::loop_isolation(true)]
pre[func] lemma_be_val(${d}, ${it}.pos(), 1);
body[func] lemma_be_val(${d}, ${it}.pos(), ${i} as int);
ib[*] 1 <= ${i} <= ${n}, old($0).wf(), ${n} <= 4
inv[*] (${i} <= 1 ==> ${id} < 0x100), (${i} <= 2 ==> ${id} < 0x1_0000), (${i} <= 3 ==> ${id} < 0x100_0000)
ib[cost] ${rd}.cost() <= ${it}.cost() + 10 + 2 * ${i}
ib[*] ${rd}.pos() == ${it}.pos() + ${i}
ib[cost] ${it}.cost() <= old($0).cost() + 5_900_000
ib[func] !can_read(${d}, ${it}.pos(), ${n} as int) ==> ebml_spec(${d}) is None
inv[func] ${id} == be_val(${d}, ${it}.pos(), ${i} as int), can_read(${d}, ${it}.pos(), ${i} as int)
exit[func] ${id} == be_val(${d}, ${it}.pos(), ${n} as int), can_read(${d}, ${it}.pos(), ${n} as int)
exit[*] ${rd}.pos() == ${it}.pos() + ${n}
loop
attr[*] #[verifier::loop_isolation(true)]
pre[func] lemma_vint(${d}, ebml_q(${d}, ${it}.pos()), ${n} as int, 1);
body[func] lemma_vint(${d}, ebml_q(${d}, ${it}.pos()), ${n} as int, ${i} as int);
ib[*] 1 <= ${i} <= ${n}, old($0).wf(), ${n} <= 8
inv[*] (${i} <= 1 ==> ${size} < 0x100), (${i} <= 2 ==> ${size} < 0x1_0000), (${i} <= 3 ==> ${size} < 0x100_0000), (${i} <= 4 ==> ${size} < 0x1_0000_0000), (${i} <= 5 ==> ${size} < 0x100_0000_0000), (${i} <= 6 ==> ${size} < 0x1_0000_0000_0000), (${i} <= 7 ==> ${size} < 0x100_0000_0000_0000)
inv[*] ${n} == 8 ==> (${i} <= 1 ==> ${size} < 1), ${n} == 8 ==> (${i} <= 2 ==> ${size} < 0x100), ${n} == 8 ==> (${i} <= 3 ==> ${size} < 0x1_0000), ${n} == 8 ==> (${i} <= 4 ==> ${size} < 0x100_0000), ${n} == 8 ==> (${i} <= 5 ==> ${size} < 0x1_0000_0000), ${n} == 8 ==> (${i} <= 6 ==> ${size} < 0x100_0000_0000), ${n} == 8 ==> (${i} <= 7 ==> ${size} < 0x1_0000_0000_0000)
ib[*] ${i} >= ${n} ==> ${size} < 0x100_0000_0000_0000
ib[cost] ${it}.cost() <= old($0).cost() + 5_900_000, ${rd}.cost() <= ${it}.cost() + 60 + 2 * ${i}
ib[func] !can_read(${d}, ebml_q(${d}, ${it}.pos()), ${n} as int) ==> ebml_spec(${d}) is None
inv[func] ${rd}.pos() == ebml_q(${d}, ${it}.pos()) + ${i}, can_read(${d}, ebml_q(${d}, ${it}.pos()), ${i} as int), ${size} == vint(${d}, ebml_q(${d}, ${it}.pos()), ${n} as int, ${i} as int)
exit[*] ${size} < 0x100_0000_0000_0000
exit[func] ${rd}.pos() == ebml_q(${d}, ${it}.pos()) + ${n}, can_read(${d}, ebml_q(${d}, ${it}.pos()), ${n} as int), ${size} == vint(${d}, ebml_q(${d}, ${it}.pos()), ${n} as int, ${n} as int)
%end
