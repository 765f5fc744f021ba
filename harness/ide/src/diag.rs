use crate::ws::{self, Gen};
use common::*;
use ide::Analysis;
use ide_db::assist_config::AssistConfig;
use ide_db::assists::AssistResolveStrategy;
use ide_diagnostics::config::DiagnosticsConfig;
use ide_diagnostics::diagnostic::{Diagnostic, DiagnosticCode};
use ide_db::Severity;
use movegen::Opts;
use vfs::FileId;

pub fn code(d: &Diagnostic) -> String {
    match &d.code {
        DiagnosticCode::SyntaxError => "syntax-error".to_string(),
        DiagnosticCode::Lsp(id, _) => id.to_string(),
    }
}

pub fn all(an: &Analysis, f: FileId) -> Vec<Diagnostic> {
    an.full_diagnostics(&DiagnosticsConfig::test_sample(), AssistResolveStrategy::All, f).unwrap()
}
pub fn errors(an: &Analysis, f: FileId) -> Vec<Diagnostic> {
    all(an, f).into_iter().filter(|d| d.severity == Severity::Error).collect()
}

/// A well-formed program has no errors.
fn no_errors(s: &mut Src, c: &mut Case) -> PropResult {
    let o = Opts { pkgs: 2, modules: 3, ..Opts::default() };
    let g = ws::generate(s, o);
    c.input(g.show());
    c.nontrivial(g.w.spans.len() > 20);
    c.count("expressions", g.w.spans.len() as u64);
    no_errors_in(&g)
}

pub fn no_errors_in(g: &Gen) -> PropResult {
    for (fi, f) in g.ws.files.iter().enumerate() {
        for d in errors(&g.an, *f) {
            let r = d.range.range;
            let (a, b): (usize, usize) = (r.start().into(), r.end().into());
            let m: String = d.message.chars().take(30).collect();
            return Err(Fail::new(
                format!("error-{}-{}", code(&d), m.split('`').next().unwrap_or("").trim()),
                format!("{} on `{}`: {}\n   at {}", code(&d), &g.laid[fi].text[a..b], d.message, g.at(fi, a)),
            ));
        }
    }
    Ok(())
}

pub fn checks_clean() -> Vec<Check> {
    vec![Check::new("no_errors", "more than 20 expressions in the program", 6000, 60000, no_errors)]
}
#[allow(unused)]
type X = AssistConfig;
