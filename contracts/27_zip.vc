%spec zip core
/// File names recognised exactly.
#[verifier::opaque]
pub open spec fn zip_name(n: Seq<char>) -> Option<FileFormat> { zip_name_def(n) }
pub open spec fn zip_name_def(n: Seq<char>) -> Option<FileFormat> {
    if n == "AndroidManifest.xml" { Some(FileFormat::AndroidPackage) }
    else if n == "AppManifest.xaml" { Some(FileFormat::Xap) }
    else if n == "AppxManifest.xml" { Some(FileFormat::WindowsAppPackage) }
    else if n == "AppxMetadata/AppxBundleManifest.xml" { Some(FileFormat::WindowsAppBundle) }
    else if n == "BundleConfig.pb" { Some(FileFormat::AndroidAppBundle) }
    else if n == "DOMDocument.xml" { Some(FileFormat::FlashCs5Project) }
    else if n == "META-INF/AIR/application.xml" { Some(FileFormat::AdobeIntegratedRuntime) }
    else if n == "META-INF/application.xml" { Some(FileFormat::EnterpriseApplicationArchive) }
    else if n == "META-INF/mozilla.rsa" { Some(FileFormat::Xpinstall) }
    else if n == "WEB-INF/web.xml" { Some(FileFormat::WebApplicationArchive) }
    else if n == "canvas.fig" { Some(FileFormat::FigmaDesign) }
    else if n == "doc.kml" { Some(FileFormat::KeyholeMarkupLanguageZip) }
    else if n == "document.json" { Some(FileFormat::Sketch43) }
    else if n == "extension.vsixmanifest" { Some(FileFormat::MicrosoftVisualStudioExtension) }
    else { None }
}
/// File names recognised by where or what kind they are, in published order.
#[verifier::opaque]
pub open spec fn zip_rule(n: Seq<char>) -> Option<FileFormat> { zip_rule_def(n) }
pub open spec fn zip_rule_def(n: Seq<char>) -> Option<FileFormat> {
    if seq_starts(n, "Fusion[Active]/") { Some(FileFormat::Autodesk123d) }
    else if seq_starts(n, "circuitdiagram/") { Some(FileFormat::CircuitDiagramDocument) }
    else if seq_starts(n, "dwf/") { Some(FileFormat::DesignWebFormatXps) }
    else if seq_ends(n, ".fb2") && !occurs(n, "/") { Some(FileFormat::FictionbookZip) }
    else if seq_starts(n, "FusionAssetName[Active]/") { Some(FileFormat::Fusion360) }
    else if seq_starts(n, "Payload/") && occurs(n, ".app/") { Some(FileFormat::IosAppStorePackage) }
    else if seq_starts(n, "word/") { Some(FileFormat::OfficeOpenXmlDocument) }
    else if seq_starts(n, "visio/") { Some(FileFormat::OfficeOpenXmlDrawing) }
    else if seq_starts(n, "ppt/") { Some(FileFormat::OfficeOpenXmlPresentation) }
    else if seq_starts(n, "xl/") { Some(FileFormat::OfficeOpenXmlSpreadsheet) }
    else if seq_starts(n, "Documents/") && seq_ends(n, ".fpage") { Some(FileFormat::Openxps) }
    else if seq_starts(n, "SpaceClaim/") { Some(FileFormat::SpaceclaimDocument) }
    else if seq_starts(n, "3D/") && seq_ends(n, ".model") { Some(FileFormat::ThreeDimensionalManufacturingFormat) }
    else if (seq_ends(n, ".usd") || seq_ends(n, ".usda") || seq_ends(n, ".usdc")) && !occurs(n, "/")  { Some(FileFormat::UniversalSceneDescriptionZip) }
    else { None }
}
/// Types a mimetype entry can declare.
#[verifier::opaque]
pub open spec fn zip_mime(t: Seq<char>) -> FileFormat { zip_mime_def(t) }
pub open spec fn zip_mime_def(t: Seq<char>) -> FileFormat {
    if t == "application/epub+zip" { FileFormat::ElectronicPublication }
    else if t == "application/vnd.adobe.indesign-idml-package" { FileFormat::IndesignMarkupLanguage }
    else if t == "application/vnd.oasis.opendocument.base" || t == "application/vnd.oasis.opendocument.database" { FileFormat::OpendocumentDatabase }
    else if t == "application/vnd.oasis.opendocument.formula" { FileFormat::OpendocumentFormula }
    else if t == "application/vnd.oasis.opendocument.formula-template" { FileFormat::OpendocumentFormulaTemplate }
    else if t == "application/vnd.oasis.opendocument.graphics" { FileFormat::OpendocumentGraphics }
    else if t == "application/vnd.oasis.opendocument.graphics-template" { FileFormat::OpendocumentGraphicsTemplate }
    else if t == "application/vnd.oasis.opendocument.presentation" { FileFormat::OpendocumentPresentation }
    else if t == "application/vnd.oasis.opendocument.presentation-template" { FileFormat::OpendocumentPresentationTemplate }
    else if t == "application/vnd.oasis.opendocument.spreadsheet" { FileFormat::OpendocumentSpreadsheet }
    else if t == "application/vnd.oasis.opendocument.spreadsheet-template" { FileFormat::OpendocumentSpreadsheetTemplate }
    else if t == "application/vnd.oasis.opendocument.text" { FileFormat::OpendocumentText }
    else if t == "application/vnd.oasis.opendocument.text-master" { FileFormat::OpendocumentTextMaster }
    else if t == "application/vnd.oasis.opendocument.text-master-template" { FileFormat::OpendocumentTextMasterTemplate }
    else if t == "application/vnd.oasis.opendocument.text-template" { FileFormat::OpendocumentTextTemplate }
    else if t == "application/vnd.recordare.musicxml" { FileFormat::MusicxmlZip }
    else if t == "application/vnd.sun.xml.calc" { FileFormat::SunXmlCalc }
    else if t == "application/vnd.sun.xml.calc.template" { FileFormat::SunXmlCalcTemplate }
    else if t == "application/vnd.sun.xml.draw" { FileFormat::SunXmlDraw }
    else if t == "application/vnd.sun.xml.draw.template" { FileFormat::SunXmlDrawTemplate }
    else if t == "application/vnd.sun.xml.impress" { FileFormat::SunXmlImpress }
    else if t == "application/vnd.sun.xml.impress.template" { FileFormat::SunXmlImpressTemplate }
    else if t == "application/vnd.sun.xml.math" { FileFormat::SunXmlMath }
    else if t == "application/vnd.sun.xml.writer" { FileFormat::SunXmlWriter }
    else if t == "application/vnd.sun.xml.writer.global" { FileFormat::SunXmlWriterGlobal }
    else if t == "application/vnd.sun.xml.writer.template" { FileFormat::SunXmlWriterTemplate }
    else if t == "image/openraster" { FileFormat::Openraster }
    else { FileFormat::Zip }
}
pub broadcast proof fn lemma_zip_name(n: Seq<char>)
    requires #[trigger] seen(n),
    ensures #[trigger] zip_name(n) == zip_name_def(n),
{ reveal(zip_name); }
pub broadcast proof fn lemma_zip_rule(n: Seq<char>)
    requires #[trigger] seen(n),
    ensures #[trigger] zip_rule(n) == zip_rule_def(n),
{ reveal(zip_rule); }
pub broadcast proof fn lemma_zip_mime(t: Seq<char>)
    requires #[trigger] seen(t),
    ensures #[trigger] zip_mime(t) == zip_mime_def(t),
{ reveal(zip_mime); }
pub open spec fn zip_spec(d: Seq<u8>) -> Option<FileFormat> {
    let n = if d.len() < 65557 { d.len() as int } else { 65557 };
    let w = bytes_at(d, d.len() - n, n);
    if d.len() < 22 || !occurs(w, b"PK\x05\x06") { None }
    else {
        let e = d.len() - n + last_occ(w, b"PK\x05\x06");
        if e >= 20 && bytes_at(d, e - 20, 4) == b"PK\x06\x07" {
            let q = sat_u64(le64(d, e - 12) + 32);
            if !can_read(d, e - 12, 8) || !can_read(d, q, 8) || !can_read(d, q + 16, 8) { None }
            else { zip_loop(d, le64(d, q + 16), if le64(d, q) < 1024 { le64(d, q) } else { 1024 }, FileFormat::Zip) }
        } else if !can_read(d, e + 10, 2) || !can_read(d, e + 16, 4) { None }
        else { zip_loop(d, le32(d, e + 16), if le16(d, e + 10) < 1024 { le16(d, e + 10) } else { 1024 }, FileFormat::Zip) }
    }
}
/// What a stored mimetype entry with its local header at p and a size of n declares.
pub open spec fn zip_mimetype(d: Seq<u8>, p: int, n: int) -> Option<FileFormat> {
    let q = p + 30 + le16(d, p + 26) + le16(d, p + 28);
    let k = if n < 256 { n } else { 256 };
    if !can_read(d, p + 26, 2) || !can_read(d, p + 28, 2) || !can_read(d, q, k) { None }
    else { Some(zip_mime(trimmed(lossy(bytes_at(d, q, k))))) }
}
/// The walk over `rem` more entries, the next one at p; f is the verdict if none decides.
#[verifier::opaque]
pub open spec fn zip_loop(d: Seq<u8>, p: int, rem: int, f: FileFormat) -> Option<FileFormat> decreases rem, 3int { zip_loop_def(d, p, rem, f) }
pub open spec fn zip_loop_def(d: Seq<u8>, p: int, rem: int, f: FileFormat) -> Option<FileFormat> decreases rem, 2int {
    if rem <= 0 { Some(f) }
    else if !can_read(d, p + 20, 26) || !can_read(d, p + 46, le16(d, p + 28)) { None }
    else { zip_entry(d, p, rem, f, lossy(bytes_at(d, p + 46, le16(d, p + 28)))) }
}
/// What the entry at p, whose name is `name`, and the ones that follow decide.
#[verifier::opaque]
pub open spec fn zip_entry(d: Seq<u8>, p: int, rem: int, f: FileFormat, name: Seq<char>) -> Option<FileFormat> decreases rem, 1int { zip_entry_def(d, p, rem, f, name) }
pub open spec fn zip_entry_def(d: Seq<u8>, p: int, rem: int, f: FileFormat, name: Seq<char>) -> Option<FileFormat> decreases rem, 0int {
    let next = p + 46 + le16(d, p + 28) + le16(d, p + 30) + le16(d, p + 32);
    if rem <= 0 { None }
    else if zip_name(name) is Some { zip_name(name) }
    else if name == "META-INF/MANIFEST.MF" { zip_loop(d, next, rem - 1, FileFormat::JavaArchive) }
    else if name == "mimetype" && le32(d, p + 20) == le32(d, p + 24) { zip_mimetype(d, le32(d, p + 42), le32(d, p + 20)) }
    else if zip_rule(name) is Some { zip_rule(name) }
    else { zip_loop(d, next, rem - 1, f) }
}
pub proof fn lemma_zip_loop(d: Seq<u8>, p: int, rem: int, f: FileFormat)
    ensures zip_loop(d, p, rem, f) == zip_loop_def(d, p, rem, f),
{ reveal(zip_loop); }
pub broadcast proof fn lemma_zip_entry(d: Seq<u8>, p: int, rem: int, f: FileFormat, name: Seq<char>)
    requires #[trigger] seen(name),
    ensures #[trigger] zip_entry(d, p, rem, f, name) == zip_entry_def(d, p, rem, f, name),
{ reveal(zip_entry); }
pub open spec fn zip_family(f: FileFormat) -> bool {
    f == FileFormat::AdobeIntegratedRuntime || f == FileFormat::AndroidAppBundle || f == FileFormat::AndroidPackage || f == FileFormat::Autodesk123d || f == FileFormat::CircuitDiagramDocument || f == FileFormat::DesignWebFormatXps || f == FileFormat::ElectronicPublication || f == FileFormat::EnterpriseApplicationArchive || f == FileFormat::FictionbookZip || f == FileFormat::FigmaDesign || f == FileFormat::FlashCs5Project || f == FileFormat::Fusion360 || f == FileFormat::IndesignMarkupLanguage || f == FileFormat::IosAppStorePackage || f == FileFormat::JavaArchive || f == FileFormat::KeyholeMarkupLanguageZip || f == FileFormat::MicrosoftVisualStudioExtension || f == FileFormat::MusicxmlZip || f == FileFormat::OfficeOpenXmlDocument || f == FileFormat::OfficeOpenXmlDrawing || f == FileFormat::OfficeOpenXmlPresentation || f == FileFormat::OfficeOpenXmlSpreadsheet || f == FileFormat::OpendocumentDatabase || f == FileFormat::OpendocumentFormula || f == FileFormat::OpendocumentFormulaTemplate || f == FileFormat::OpendocumentGraphics || f == FileFormat::OpendocumentGraphicsTemplate || f == FileFormat::OpendocumentPresentation || f == FileFormat::OpendocumentPresentationTemplate || f == FileFormat::OpendocumentSpreadsheet || f == FileFormat::OpendocumentSpreadsheetTemplate || f == FileFormat::OpendocumentText || f == FileFormat::OpendocumentTextMaster || f == FileFormat::OpendocumentTextMasterTemplate || f == FileFormat::OpendocumentTextTemplate || f == FileFormat::Openraster || f == FileFormat::Openxps || f == FileFormat::Sketch43 || f == FileFormat::SpaceclaimDocument || f == FileFormat::SunXmlCalc || f == FileFormat::SunXmlCalcTemplate || f == FileFormat::SunXmlDraw || f == FileFormat::SunXmlDrawTemplate || f == FileFormat::SunXmlImpress || f == FileFormat::SunXmlImpressTemplate || f == FileFormat::SunXmlMath || f == FileFormat::SunXmlWriter || f == FileFormat::SunXmlWriterGlobal || f == FileFormat::SunXmlWriterTemplate || f == FileFormat::ThreeDimensionalManufacturingFormat || f == FileFormat::UniversalSceneDescriptionZip || f == FileFormat::WebApplicationArchive || f == FileFormat::WindowsAppBundle || f == FileFormat::WindowsAppPackage || f == FileFormat::Xap || f == FileFormat::Xpinstall || f == FileFormat::Zip
}
%fn from_zip_reader zip
split[func] 17
req[*] old($0).wf()
ens[*] final($0).same(old($0))
ens[cost] final($0).cost() <= old($0).cost() + 120_000_000
ens[family] r is Ok ==> zip_family(r->Ok_0)
ens[func] r is Ok ==> zip_spec(${d}) == Some(r->Ok_0)
ens[func] r is Err && old($0).reliable() ==> zip_spec(${d}) is None
loop
ib[cost] 0 <= ${rem} <= 1024, ${rd}.cost() <= old($0).cost() + 300_000 + 110_000 * (1024 - ${rem})
ib[family] ${fmt} == FileFormat::Zip || ${fmt} == FileFormat::JavaArchive
inv[func] zip_spec(${d}) == zip_loop(${d}, ${rd}.pos(), ${rem} as int, ${fmt})
exit[func] zip_spec(${d}) == Some(${fmt})
body[func] lemma_zip_loop(${d}, ${rd}.pos(), ${rem} as int, ${fmt});
%end
