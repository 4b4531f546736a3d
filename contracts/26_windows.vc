%spec xml core
/// The first dialect, in published order, whose markers occur in the window.
pub open spec fn xml_verdict(w: Seq<u8>) -> FileFormat {
    if occurs(w, b"<abiword template=\"false\"") { FileFormat::Abiword }
    else if occurs(w, b"<abiword template=\"true\"") { FileFormat::AbiwordTemplate }
    else if occurs(w, b"<amf") { FileFormat::AdditiveManufacturingFormat }
    else if occurs(w, b"<ASX") || occurs(w, b"<asx") { FileFormat::AdvancedStreamRedirector }
    else if occurs(w, b"<feed") { FileFormat::Atom }
    else if occurs(w, b"<COLLADA") { FileFormat::CollaborativeDesignActivity }
    else if occurs(w, b"<mxfile") { FileFormat::Drawio }
    else if occurs(w, b"<X3D") { FileFormat::Extensible3d }
    else if occurs(w, b"<xsl") { FileFormat::ExtensibleStylesheetLanguageTransformations }
    else if occurs(w, b"<FictionBook") { FileFormat::Fictionbook }
    else if occurs(w, b"<gml") { FileFormat::GeographyMarkupLanguage }
    else if occurs(w, b"<gpx") { FileFormat::GpsExchangeFormat }
    else if occurs(w, b"<kml") { FileFormat::KeyholeMarkupLanguage }
    else if occurs(w, b"<math") { FileFormat::MathematicalMarkupLanguage }
    else if occurs(w, b"<MPD") { FileFormat::MpegDashMpd }
    else if occurs(w, b"<score-partwise") { FileFormat::Musicxml }
    else if occurs(w, b"<rss") { FileFormat::ReallySimpleSyndication }
    else if occurs(w, b"<SVG") || occurs(w, b"<svg") { FileFormat::ScalableVectorGraphics }
    else if occurs(w, b"<soap") { FileFormat::SimpleObjectAccessProtocol }
    else if occurs(w, b"<map") { FileFormat::TiledMapXml }
    else if occurs(w, b"<tileset") { FileFormat::TiledTilesetXml }
    else if occurs(w, b"<tt") && occurs(w, b"xmlns=\"http://www.w3.org/ns/ttml\"") { FileFormat::TimedTextMarkupLanguage }
    else if occurs(w, b"<TrainingCenterDatabase") { FileFormat::TrainingCenterXml }
    else if occurs(w, b"<uof:UOF") && occurs(w, b"uof:mimetype=\"vnd.uof.presentation\"") { FileFormat::UniformOfficeFormatPresentation }
    else if occurs(w, b"<uof:UOF") && occurs(w, b"uof:mimetype=\"vnd.uof.spreadsheet\"") { FileFormat::UniformOfficeFormatSpreadsheet }
    else if occurs(w, b"<uof:UOF") && occurs(w, b"uof:mimetype=\"vnd.uof.text\"") { FileFormat::UniformOfficeFormatText }
    else if occurs(w, b"<USFSubtitles") { FileFormat::UniversalSubtitleFormat }
    else if occurs(w, b"<xliff") { FileFormat::XmlLocalizationInterchangeFileFormat }
    else if occurs(w, b"<playlist") { FileFormat::XmlShareablePlaylistFormat }
    else { FileFormat::ExtensibleMarkupLanguage }
}
pub open spec fn xml_spec(d: Seq<u8>) -> Option<FileFormat> { Some(xml_verdict(bytes_at(d, 5, avail(d, 5, 8192)))) }
pub open spec fn xml_family(f: FileFormat) -> bool {
    f == FileFormat::Abiword || f == FileFormat::AbiwordTemplate || f == FileFormat::AdditiveManufacturingFormat || f == FileFormat::AdvancedStreamRedirector || f == FileFormat::Atom || f == FileFormat::CollaborativeDesignActivity || f == FileFormat::Drawio || f == FileFormat::Extensible3d || f == FileFormat::ExtensibleMarkupLanguage || f == FileFormat::ExtensibleStylesheetLanguageTransformations || f == FileFormat::Fictionbook || f == FileFormat::GeographyMarkupLanguage || f == FileFormat::GpsExchangeFormat || f == FileFormat::KeyholeMarkupLanguage || f == FileFormat::MathematicalMarkupLanguage || f == FileFormat::MpegDashMpd || f == FileFormat::Musicxml || f == FileFormat::ReallySimpleSyndication || f == FileFormat::ScalableVectorGraphics || f == FileFormat::SimpleObjectAccessProtocol || f == FileFormat::TiledMapXml || f == FileFormat::TiledTilesetXml || f == FileFormat::TimedTextMarkupLanguage || f == FileFormat::TrainingCenterXml || f == FileFormat::UniformOfficeFormatPresentation || f == FileFormat::UniformOfficeFormatSpreadsheet || f == FileFormat::UniformOfficeFormatText || f == FileFormat::UniversalSubtitleFormat || f == FileFormat::XmlLocalizationInterchangeFileFormat || f == FileFormat::XmlShareablePlaylistFormat
}
%fn from_xml_reader xml
req[*] old($0).wf()
req[det] !old($0).lost()
ens[*] final($0).same(old($0))
ens[cost] final($0).cost() <= old($0).cost() + 60_000
ens[family] r is Ok ==> xml_family(r->Ok_0)
ens[func] r is Ok ==> xml_spec(${d}) == Some(r->Ok_0)
ens[func] r is Err ==> !old($0).reliable()
%end
%spec sqlite core
pub open spec fn sqlite_spec(d: Seq<u8>) -> Option<FileFormat> {
    if occurs(bytes_at(d, 100, avail(d, 100, 32768)), b"com.bohemiancoding.sketch3") { Some(FileFormat::Sketch) } else { Some(FileFormat::Sqlite3) }
}
pub open spec fn sqlite_family(f: FileFormat) -> bool { f == FileFormat::Sketch || f == FileFormat::Sqlite3 }
%fn from_sqlite3_reader sqlite
req[*] old($0).wf()
req[det] !old($0).lost()
ens[*] final($0).same(old($0))
ens[cost] final($0).cost() <= old($0).cost() + 200_000
ens[family] r is Ok ==> sqlite_family(r->Ok_0)
ens[func] r is Ok ==> sqlite_spec(${d}) == Some(r->Ok_0)
ens[func] r is Err ==> !old($0).reliable()
%end
%spec pdf core
pub open spec fn pdf_spec(d: Seq<u8>) -> Option<FileFormat> {
    if occurs(bytes_at(d, 5, avail(d, 5, 33_554_432)), b"AIPrivateData") { Some(FileFormat::AdobeIllustratorArtwork) } else { Some(FileFormat::PortableDocumentFormat) }
}
pub open spec fn pdf_family(f: FileFormat) -> bool { f == FileFormat::AdobeIllustratorArtwork || f == FileFormat::PortableDocumentFormat }
pub broadcast proof fn lemma_rot(s: Seq<u8>, k: int)
    requires 0 <= k <= s.len(),
    ensures #[trigger] rot_right(s, k).len() == s.len(), rot_right(s, k).subrange(0, k) == s.subrange(s.len() - k, s.len() as int),
{ assert(rot_right(s, k).subrange(0, k) =~= s.subrange(s.len() - k, s.len() as int)); }
%fn from_pdf_reader pdf
req[*] old($0).wf()
req[det] !old($0).lost()
ens[*] final($0).same(old($0))
ens[cost] final($0).cost() <= old($0).cost() + 136_000_000
ens[family] r is Ok ==> pdf_family(r->Ok_0)
ens[func] r is Ok ==> pdf_spec(${d}) == Some(r->Ok_0)
ens[func] r is Err ==> !old($0).reliable()
proof[func] broadcast use {lemma_occurs_join, lemma_occurs_at};
loop
ib[*] 0 <= ${total_nread} <= 33_554_432, ${rd}.pos() == 5 + (${total_nread} as int), ${total_nread} % 32768 == 0 || 5 + (${total_nread} as int) >= ${d}.len(), 5 + (${total_nread} as int) <= ${d}.len() || ${total_nread} == 0
inv[cost] ${rd}.cost() <= old($0).cost() + 10_000 + 4 * ${total_nread}
exit[cost] ${rd}.cost() <= old($0).cost() + 10_010 + 4 * ${total_nread}
inv[func] ${total_nread} == 0 || ${total_nread} >= 12 || 5 + (${total_nread} as int) >= ${d}.len(), ${total_nread} >= 12 ==> ${buf}@.subrange(0, 12) == bytes_at(${d}, 5 + (${total_nread} as int) - 12, 12)
inv[func] !occurs(bytes_at(${d}, 5, ${total_nread} as int), b"AIPrivateData")
exit[func] !occurs(bytes_at(${d}, 5, avail(${d}, 5, 33_554_432)), b"AIPrivateData")
dec[*] 33_554_432 - ${total_nread}
after[func] read_up_to\( ::: let t = ${total_nread} as int; let n = ${rd}.pos() - 5 - t; let b = ${buf}@; assert(b.subrange(12, 12 + n) =~= bytes_at(${d}, 5 + t, n)); if t >= 12 { assert(b.subrange(0, 12 + n) =~= bytes_at(${d}, 5 + t - 12, 12 + n)); } if n >= 12 || t >= 12 { assert(b.subrange(0, 12 + n).subrange(n, 12 + n) =~= bytes_at(${d}, 5 + t + n - 12, 12)); }
after[func] slice_(rotate_right|copy_within)__\( ::: let t = ${total_nread} as int; let n = ${rd}.pos() - 5 - t; if n >= 12 || t >= 12 { assert(${buf}@.subrange(0, 12) =~= bytes_at(${d}, 5 + t + n - 12, 12)); }
%end
